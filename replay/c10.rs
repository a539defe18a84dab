//! C10: every work unit reaches the one partition of the one task it was made for, in order.
use super::common::*;
use crate::test_utils::in_memory_channel_resolver::{InMemoryChannelResolver, InMemoryWorkerResolver};
use crate::*;
use crate::execution_plans::{ChildWeight, ChildrenIsolatorUnionExec};
use crate::work_unit_feed::*;
use datafusion::arrow::array::{Array, Int64Array, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::Result;
use datafusion::error::DataFusionError;
use datafusion::execution::{SendableRecordBatchStream, SessionStateBuilder, TaskContext};
use datafusion::physical_expr::{EquivalenceProperties, Partitioning, PhysicalExpr};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::union::UnionExec;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, PlanProperties};
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::stream::BoxStream;
use futures::StreamExt;
use http::HeaderMap;
use prost::Message;
use std::collections::BTreeMap;
use std::fmt::Formatter;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use url::Url;
use uuid::Uuid;

#[derive(Clone, PartialEq, ::prost::Message)]
pub struct U { #[prost(int64, tag = "1")] v: i64, #[prost(bytes, tag = "2")] pad: Vec<u8> }
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Other { #[prost(string, tag = "1")] v: String }
fn pad(v: i64) -> Vec<u8> { vec![v as u8; (v as usize * 7) % 40] }
#[derive(Clone, Debug, PartialEq)]
pub(crate) enum Op { Unit(i64), Pend, Err(String), /// never anything more
    Silent, /// the same unit every millisecond
    Endless(i64) }
/// what was asked of the provider: (partition, tasks it fans out to)
pub(crate) type Asked = Arc<Mutex<Vec<(usize, usize)>>>;
#[derive(Clone, Debug)]
pub(crate) struct P { pub ops: Arc<Vec<Vec<Op>>>, pub asked: Asked, pub refuse: Option<usize> }
fn ops_stream(ops: Vec<Op>) -> BoxStream<'static, Result<U>> {
    let (mut i, mut waited) = (0, false);
    let mut sleep: Option<std::pin::Pin<Box<tokio::time::Sleep>>> = None;
    futures::stream::poll_fn(move |cx| {
        let op = ops.get(i).cloned();
        if op == Some(Op::Pend) && !waited { waited = true; cx.waker().wake_by_ref(); return Poll::Pending; }
        while ops.get(i) == Some(&Op::Pend) { i += 1; }
        waited = false;
        match ops.get(i) {
            Some(Op::Silent) => return Poll::Pending,
            Some(Op::Endless(v)) => {
                let z = sleep.get_or_insert_with(|| Box::pin(tokio::time::sleep(std::time::Duration::from_millis(1))));
                if std::future::Future::poll(z.as_mut(), cx).is_pending() { return Poll::Pending; }
                sleep = None;
                return Poll::Ready(Some(Ok(U { v: *v, pad: pad(*v) })));
            }
            _ => {}
        }
        let r = ops.get(i).cloned().map(|o| match o { Op::Unit(v) => Ok(U { v, pad: pad(v) }), Op::Err(m) => Err(DataFusionError::Execution(m)), _ => unreachable!() });
        i += 1;
        Poll::Ready(r)
    }).boxed()
}
impl WorkUnitFeedProvider for P {
    type WorkUnit = U;
    fn feed(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<BoxStream<'static, Result<U>>> {
        let fan = ctx.session_config().get_extension::<DistributedWorkUnitFeedContext>().map(|c| c.fan_out_tasks).unwrap_or(0);
        self.asked.lock().unwrap().push((partition, fan));
        if self.refuse == Some(partition) { return Err(DataFusionError::Execution("refused".into())); }
        Ok(ops_stream(self.ops.get(partition).cloned().unwrap_or_default()))
    }
}
fn schema() -> SchemaRef { Arc::new(Schema::new(["feed", "task", "tasks", "partition", "v"].map(|n| Field::new(n, DataType::Int64, false)).to_vec())) }
/// reads its feed and yields one row per unit
#[derive(Clone, Debug)]
pub(crate) struct FeedExec { feed: WorkUnitFeed<P>, tag: i64, props: Arc<PlanProperties> }
impl FeedExec {
    pub(crate) fn new(feed: WorkUnitFeed<P>, tag: i64, parts: usize) -> Self {
        FeedExec { feed, tag, props: Arc::new(PlanProperties::new(EquivalenceProperties::new(schema()), Partitioning::UnknownPartitioning(parts), EmissionType::Incremental, Boundedness::Bounded)) }
    }
}
impl DisplayAs for FeedExec { fn fmt_as(&self, _t: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result { write!(f, "FeedExec {}", self.tag) } }
impl ExecutionPlan for FeedExec {
    fn name(&self) -> &str { "FeedExec" }
    fn properties(&self) -> &Arc<PlanProperties> { &self.props }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn execute(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let d = DistributedTaskContext::from_ctx(&ctx);
        let (tag, t, n) = (self.tag, d.task_index as i64, d.task_count as i64);
        let st = self.feed.feed(partition, ctx)?.map(move |u| {
            let u = u?;
            if u.pad != pad(u.v) { return Err(DataFusionError::Execution(format!("the unit {} has another body", u.v))); }
            Ok(RecordBatch::try_new(schema(), [tag, t, n, partition as i64, u.v].map(|x| Arc::new(Int64Array::from(vec![x])) as Arc<dyn Array>).to_vec())?)
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(schema(), st)))
    }
}
#[derive(Clone, PartialEq, ::prost::Message)]
struct FeedExecProto { #[prost(message, optional, tag = "1")] feed: Option<WorkUnitFeedProto>, #[prost(int64, tag = "2")] tag: i64, #[prost(uint64, tag = "3")] parts: u64 }
#[derive(Debug)]
pub(crate) struct Codec;
impl PhysicalExtensionCodec for Codec {
    fn try_decode(&self, buf: &[u8], _i: &[Arc<dyn ExecutionPlan>], _c: &TaskContext, _p: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>> {
        let p = FeedExecProto::decode(buf).map_err(|e| DataFusionError::External(Box::new(e)))?;
        Ok(Arc::new(FeedExec::new(WorkUnitFeed::from_proto(p.feed.unwrap())?, p.tag, p.parts as usize)))
    }
    fn try_encode(&self, n: Arc<dyn ExecutionPlan>, buf: &mut Vec<u8>, _p: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        let Some(f) = n.downcast_ref::<FeedExec>() else { return Err(DataFusionError::Internal("not a FeedExec".into())) };
        FeedExecProto { feed: Some(f.feed.to_proto()), tag: f.tag, parts: f.props.partitioning.partition_count() as u64 }.encode(buf).unwrap();
        Ok(())
    }
}
pub(crate) fn getter(p: &FeedExec) -> Option<&WorkUnitFeed<P>> { Some(&p.feed) }

pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 6000 } else { 500 };
    let mut s = Search::new(&format!("{rounds} queries over 1..=4 feeds of 1..=3 partitions in 1..=4 tasks (alone, in unions, and in unions whose tasks are shared out), 0..=200 units per partition with pauses, feeds that fail, workers over gRPC and in the process; {rounds} scripted streams of messages sent to one worker (unknown feeds and partitions, readers that leave, early end, broken stream, clocks that disagree, units of another kind)"));
    let mut r = Rng::new(seed);
    block_on(async {
        for i in 0..rounds {
            s.case();
            if tokio::time::timeout(std::time::Duration::from_secs(20), query(&mut s, &mut r, i)).await.is_err() { s.fail(format!("query {i} does not end")); }
            if s.failed() { return; }
            s.case();
            if tokio::time::timeout(std::time::Duration::from_secs(20), messages(&mut s, &mut r)).await.is_err() { s.fail(format!("the messages of round {i} are never read to the end")); }
            if s.failed() { return; }
        }
    });
    s
}

pub(crate) fn rows(b: &RecordBatch) -> Vec<[i64; 5]> {
    (0..b.num_rows()).map(|i| std::array::from_fn(|c| b.column(c).as_any().downcast_ref::<Int64Array>().unwrap().value(i))).collect()
}

async fn query(s: &mut Search, r: &mut Rng, round: usize) {
    let tasks = r.range(1, 4) as usize;
    let shape = r.below(3); // one feed, a union in every task, a union shared out
    let n = if shape == 0 { 1 } else { r.range(1, 4) as usize };
    let mut fails = vec![];
    let mut feeds = vec![];
    let may_fail = r.chance(1, 5);
    for f in 0..n {
        let parts = r.range(1, 3) as usize;
        let big = r.chance(1, 10);
        let ops: Vec<Vec<Op>> = (0..tasks * parts).map(|p| {
            let len = if big { r.below(200) } else { r.below(6) };
            let mut v = vec![];
            for k in 0..len { while r.chance(1, 4) { v.push(Op::Pend); } v.push(Op::Unit((f * 1_000_000 + p * 1000) as i64 + k as i64)); }
            v
        }).collect();
        feeds.push((parts, ops, None));
    }
    if may_fail {
        let f = r.below(n as u64) as usize;
        if r.chance(1, 4) { feeds[f].2 = Some(0); fails.push("refused".to_string()); }
        else {
            // partition 0 of a feed is always read
            let at = r.below(feeds[f].1[0].len() as u64 + 1) as usize;
            feeds[f].1[0].insert(at, Op::Err("bad unit".into()));
            fails.push("bad unit".to_string());
        }
    }
    let shown = format!("{tasks} tasks, {} of {:?}", ["a feed", "a union", "a shared union"][shape as usize], feeds);
    let asked: Vec<Asked> = feeds.iter().map(|_| Asked::default()).collect();
    let leaves: Vec<Arc<dyn ExecutionPlan>> = feeds.iter().enumerate().map(|(f, (parts, ops, refuse))| {
        Arc::new(FeedExec::new(WorkUnitFeed::new(P { ops: Arc::new(ops.clone()), asked: asked[f].clone(), refuse: *refuse }), f as i64, *parts)) as Arc<dyn ExecutionPlan>
    }).collect();
    let input: Arc<dyn ExecutionPlan> = if shape == 0 { leaves[0].clone() } else if shape == 1 || n < 2 { if n == 1 { leaves[0].clone() } else { UnionExec::try_new(leaves).unwrap() } } else {
        let w = (0..n).map(|i| ChildWeight::desired(1. + i as f64)).collect::<Vec<_>>();
        match ChildrenIsolatorUnionExec::from_children_and_weights(leaves, w, tasks) { Ok(c) => Arc::new(c), Err(_) => return }
    };
    let plan = Arc::new(DistributedExec::new(Arc::new(CoalescePartitionsExec::new(Arc::new(NetworkCoalesceExec::try_new(input, tasks, 1).unwrap())))));
    let plan = match crate::distributed_planner::vp_inject::prepare(plan) { Ok(p) => p, Err(e) => return s.fail(format!("{shown}: {e}")) };
    let b = SessionStateBuilder::new().with_default_features().with_distributed_planner()
        .with_distributed_user_codec(Codec)
        .with_distributed_work_unit_feed(getter);
    let b = if round % 3 == 0 {
        b.with_distributed_worker_resolver(InMemoryWorkerResolver::new(1)).with_distributed_local_worker_context(Worker::from_session_builder(|ctx: WorkerQueryContext| async move { Ok(ctx.builder.with_distributed_user_codec(Codec).build()) }).to_local_worker_context(Url::parse("http://url-0").unwrap()))
    } else {
        let res = InMemoryChannelResolver::from_session_builder(|ctx: WorkerQueryContext| async move { Ok(ctx.builder.with_distributed_user_codec(Codec).build()) });
        b.with_distributed_worker_resolver(InMemoryWorkerResolver::new(3)).with_distributed_channel_resolver(res)
    };
    let ctx = SessionContext::from(b.build());
    let mut st = match plan.execute(0, ctx.task_ctx()) { Ok(x) => x, Err(e) => return s.fail(format!("{shown}: {e}")) };
    let (mut got, mut err) = (vec![], None);
    while let Some(b) = st.next().await { match b { Ok(b) => got.extend(rows(&b)), Err(e) => { err = Some(e.to_string()); break; } } }
    if let Some(f) = fails.first() {
        match &err { None => return s.fail(format!("{shown}: a feed fails but the query does not")), Some(e) => s.check(e.contains(f.as_str()), || format!("{shown}: {e}")) }
    } else if let Some(e) = &err { return s.fail(format!("{shown}: {e}")); }
    let mut by: BTreeMap<(i64, i64, i64), Vec<i64>> = BTreeMap::new();
    let mut fan: BTreeMap<i64, i64> = BTreeMap::new();
    for [f, t, n, p, v] in got {
        by.entry((f, t, p)).or_default().push(v);
        if *fan.entry(f).or_insert(n) != n { return s.fail(format!("{shown}: feed {f} runs as one of {n} and one of {} tasks", fan[&f])); }
    }
    for (f, (parts, ops, _)) in feeds.iter().enumerate() {
        let mut asked = asked[f].lock().unwrap().clone();
        // a single task runs where the query was asked, and reads its feeds directly
        if tasks == 1 { asked.iter_mut().for_each(|a| a.1 = 1); }
        if fails.is_empty() {
            // each partition is asked for once, for the tasks that the feed fans out to
            let Some(&(_, k)) = asked.first() else { return s.fail(format!("{shown}: feed {f} is never asked")) };
            let mut ps: Vec<_> = asked.iter().map(|a| a.0).collect();
            ps.sort();
            s.check(asked.iter().all(|a| a.1 == k) && ps == (0..k * parts).collect::<Vec<_>>(), || format!("{shown}: feed {f} is asked for (partition, tasks) {asked:?}"));
            if let Some(n) = fan.get(&(f as i64)) { s.check(*n == k as i64, || format!("{shown}: feed {f} fans out to {k} tasks but {n} run")); }
            if shape < 2 { s.check(k == tasks, || format!("{shown}: feed {f} fans out to {k} tasks")); }
        }
        let k = asked.iter().map(|a| a.1).max().unwrap_or(0);
        for t in 0..k { for p in 0..*parts {
            let want: Vec<i64> = ops.get(t * parts + p).map(|v| v.iter().filter_map(|o| match o { Op::Unit(v) => Some(*v), _ => None }).collect()).unwrap_or_default();
            let got = by.remove(&(f as i64, t as i64, p as i64)).unwrap_or_default();
            let ok = if fails.is_empty() { got == want } else { want.starts_with(&got) };
            s.check(ok, || format!("{shown}: partition {p} of feed {f} in task {t} reads {got:?} instead of {want:?}"));
        } }
    }
    s.check(by.is_empty(), || format!("{shown}: units that belong nowhere are read: {by:?}"));
}

/// scripted messages into one worker
async fn messages(s: &mut Search, r: &mut Rng) {
    let w = Worker::default();
    let url = Url::parse("http://w0:1").unwrap();
    let mut ch = w.to_local_worker_context(url.clone()).to_worker_channel();
    let ctx = SessionContext::new().task_ctx();
    let n = r.range(1, 3) as usize;
    let ids: Vec<Uuid> = (0..n).map(|i| Uuid::from_u128(100 + i as u128)).collect();
    let parts: Vec<usize> = (0..n).map(|_| r.range(1, 3) as usize).collect();
    let leaves: Vec<Arc<dyn ExecutionPlan>> = (0..n).map(|i| Arc::new(FeedExec::new(WorkUnitFeed::from_proto(WorkUnitFeedProto { id: ids[i].as_bytes().to_vec() }).unwrap(), i as i64, parts[i])) as _).collect();
    let plan: Arc<dyn ExecutionPlan> = if n == 1 { leaves[0].clone() } else { UnionExec::try_new(leaves).unwrap() };
    let total: usize = parts.iter().sum();
    let key = TaskKey { query_id: Uuid::from_u128(1), stage_id: 1, task_number: 0 };
    // the same partition may be declared twice
    let decls = (0..n).map(|i| WorkUnitFeedDeclaration { id: ids[i], partitions: parts[i] }).collect::<Vec<_>>();
    let req = SetPlanRequest { task_key: key, task_count: 1, plan: MaybeEncoded::Decoded(plan), work_unit_feed_declarations: decls, target_worker_url: url, query_start_time_ns: 0 };
    // the script
    let mut want: BTreeMap<(usize, usize), Vec<String>> = BTreeMap::new();
    let mut msgs = vec![];
    let (mut ended, mut v) = (false, 0i64);
    let over_wire = r.chance(1, 2);
    for _ in 0..r.below(6) {
        let mut batch = vec![];
        for _ in 0..r.below(5) {
            let f = r.below(n as u64) as usize;
            let (id, p) = match r.below(8) { 0 => (Uuid::from_u128(7), 0), 1 => (ids[f], parts[f] + r.below(3) as usize), _ => (ids[f], r.below(parts[f] as u64) as usize) };
            v += 1;
            let known = ids.contains(&id) && p < parts[f];
            let other = known && r.chance(1, 12);
            let u = U { v, pad: pad(v) };
            let body: MaybeEncoded<Box<dyn WorkUnit>> = match (other, over_wire) {
                (false, true) => MaybeEncoded::Encoded(u.encode_to_vec().into()), (false, false) => MaybeEncoded::Decoded(Box::new(u)),
                (true, true) => MaybeEncoded::Encoded(vec![0xff; 3].into()), (true, false) => MaybeEncoded::Decoded(Box::new(Other { v: "x".into() })),
            };
            if known && !ended { want.entry((f, p)).or_default().push(if other { "err".into() } else { v.to_string() }); }
            let t = |r: &mut Rng| *r.pick(&[0usize, 1, 1_000_000_000, 1 << 40, usize::MAX]);
            batch.push(WorkUnitMsg { id, partition: p, body, created_timestamp_unix_nanos: t(r), sent_timestamp_unix_nanos: t(r), received_timestamp_unix_nanos: t(r), processed_timestamp_unix_nanos: t(r) });
        }
        msgs.push(Ok(CoordinatorToWorkerMsg::WorkUnitBatch(WorkUnitBatch { batch })));
        if r.chance(1, 6) { msgs.push(Ok(CoordinatorToWorkerMsg::WorkUnitEos)); ended = true; }
    }
    let breaks = r.chance(1, 3);
    if breaks { msgs.push(Err(DataFusionError::Execution("gone".into()))); }
    else if !ended { msgs.push(Ok(CoordinatorToWorkerMsg::WorkUnitEos)); }
    let shown = format!("feeds of {parts:?} partitions, {} messages, ended {ended}, broken {breaks}, encoded {over_wire}", msgs.len());
    if breaks && !ended { for f in 0..n { for p in 0..parts[f] { want.entry((f, p)).or_default().push("err".into()); } } }
    // the worker gets the messages as they are read from the network
    let pause = r.chance(1, 2);
    // (a worker forgets the task when its stream breaks: that is after the task was asked for)
    // (a reader leaves before some of the messages)
    let leaver = if r.chance(1, 2) { Some(r.below(total as u64) as usize) } else { None };
    let hold = if leaver.is_some() { r.below(msgs.len() as u64 + 1) as usize } else { usize::MAX };
    let (asked, gate) = tokio::sync::watch::channel(false);
    let stream = futures::stream::iter(msgs).enumerate().then(move |(i, m)| { let mut gate = gate.clone(); async move { if pause { tokio::task::yield_now().await; } if i >= hold || m.is_err() { let _ = gate.wait_for(|v| *v).await; } m } }).chain(futures::stream::pending()).boxed();
    if let Err(e) = w.coordinator_channel(HeaderMap::new(), req, stream).await { return s.fail(format!("{shown}: {e}")); }
    let req = ExecuteTaskRequest { task_key: key, target_partition_start: 0, target_partition_end: total, producer_head: ProducerHead::None };
    let mut streams: Vec<_> = match ch.execute_task(HeaderMap::new(), req, ExecutionPlanMetricsSet::new(), &ctx).await { Ok(v) => v.into_iter().map(Some).collect(), Err(e) => return s.fail(format!("{shown}: {e}")) };
    // a reader that leaves early does not disturb the others
    if let Some(i) = leaver { streams[i] = None; }
    let _ = asked.send(true);
    let place: Vec<(usize, usize)> = (0..n).flat_map(|f| (0..parts[f]).map(move |p| (f, p))).collect();
    for (i, st) in streams.into_iter().enumerate() {
        let Some(mut st) = st else { continue };
        let mut got = vec![];
        while let Some(b) = st.next().await { match b { Ok(b) => got.extend(rows(&b).iter().map(|x| x[4].to_string())), Err(_) => { got.push("err".into()); break; } } }
        let mut want = want.remove(&place[i]).unwrap_or_default();
        if let Some(k) = want.iter().position(|x| x == "err") { want.truncate(k + 1); }
        s.check(got == want, || format!("{shown}: partition {:?} (feed, partition) reads {got:?} instead of {want:?}", place[i]));
    }
}
