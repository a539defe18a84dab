//! C05: partition streams multiplexed over one connection are never mixed up.
use super::common::*;
use crate::distributed_planner::ProducerHead;
use crate::protocol::grpc::worker_client::vp_inject::{Script, Wire, client_of, messages_of};
use crate::*;
use datafusion::arrow::array::*;
use datafusion::arrow::datatypes::{DataType, Field, Int32Type, Schema, SchemaRef};
use datafusion::arrow::util::display::{ArrayFormatter, FormatOptions};
use datafusion::common::Result;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::error::DataFusionError;
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::{EquivalenceProperties, Partitioning, PhysicalExpr};
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties};
use datafusion::prelude::{SessionConfig, SessionContext};
use futures::StreamExt;
use futures::stream::BoxStream;
use http::HeaderMap;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;
use url::Url;
use uuid::Uuid;

#[derive(Clone, Debug)]
enum Op { Batch(RecordBatch), Err(String), Pend }
#[derive(Debug)]
struct Src { ops: Vec<Vec<Op>>, schema: SchemaRef, props: Arc<PlanProperties> }
impl DisplayAs for Src { fn fmt_as(&self, _t: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Src") } }
impl ExecutionPlan for Src {
    fn name(&self) -> &str { "Src" }
    fn properties(&self) -> &Arc<PlanProperties> { &self.props }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn execute(&self, partition: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let mut it = self.ops[partition].clone().into_iter();
        let st = futures::stream::poll_fn(move |cx| match it.next() {
            None => Poll::Ready(None),
            Some(Op::Batch(b)) => Poll::Ready(Some(Ok(b))),
            Some(Op::Err(e)) => Poll::Ready(Some(Err(DataFusionError::Execution(e)))),
            Some(Op::Pend) => { cx.waker().wake_by_ref(); Poll::Pending }
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(self.schema.clone(), st)))
    }
}
/// what is being read
static NOW: Mutex<String> = Mutex::new(String::new());
const LONG: &str = "a string long enough that a view does not hold it inline, number ";
fn schema_of(kind: u64) -> SchemaRef {
    let dict = DataType::Dictionary(Box::new(DataType::Int32), Box::new(DataType::Utf8));
    let mut f = vec![Field::new("v", DataType::Int64, false)];
    match kind {
        1 => f.push(Field::new("t", DataType::Utf8, true)),
        2 => f.push(Field::new("t", DataType::Utf8View, true)),
        3 => f.push(Field::new("t", dict, true)),
        4 => { f.push(Field::new("t", DataType::Utf8View, true)); f.push(Field::new("d", dict, true)); f.push(Field::new("y", DataType::BinaryView, true)); }
        5 => f.push(Field::new("l", DataType::new_list(DataType::Int64, true), true)),
        6 => f = vec![],
        _ => {}
    }
    Arc::new(Schema::new(f))
}
fn batch(r: &mut Rng, kind: u64, next: &mut i64) -> RecordBatch {
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 17, 300]);
    let vals: Vec<i64> = (0..n).map(|_| { *next += 1; *next }).collect();
    let texts: Vec<Option<String>> = vals.iter().map(|v| match r.below(5) { 0 => None, 1 => Some(String::new()), 2 => Some(format!("s{}", v % 7)), 3 => Some(format!("{LONG}{}", v % 5)), _ => Some(format!("{LONG}{v}")) }).collect();
    let schema = schema_of(kind);
    if kind == 6 { return RecordBatch::try_new_with_options(schema, vec![], &RecordBatchOptions::new().with_row_count(Some(n))).unwrap(); }
    let cols: Vec<ArrayRef> = schema.fields().iter().map(|f| match f.data_type() {
        DataType::Int64 => Arc::new(Int64Array::from(vals.clone())) as ArrayRef,
        DataType::Utf8 => Arc::new(StringArray::from(texts.clone())),
        DataType::Utf8View => Arc::new(StringViewArray::from_iter(texts.clone())),
        DataType::BinaryView => Arc::new(BinaryViewArray::from_iter(texts.iter().map(|t| t.as_ref().map(|t| t.as_bytes())))),
        DataType::Dictionary(_, _) => Arc::new(texts.iter().map(|t| t.as_deref()).collect::<DictionaryArray<Int32Type>>()),
        _ => Arc::new(ListArray::from_iter_primitive::<datafusion::arrow::datatypes::Int64Type, _, _>(vals.iter().map(|v| if v % 4 == 0 { None } else { Some((0..v % 3).map(|k| if k == 1 { None } else { Some(*v * 10 + k) }).collect::<Vec<_>>()) }))),
    }).collect();
    let b = RecordBatch::try_new(schema, cols).unwrap();
    // a slice of a batch: what is outside of it must not come back
    if n > 2 && r.chance(1, 3) { b.slice(1, n - 2) } else { b }
}
fn rows(b: &RecordBatch) -> Vec<String> {
    let opt = FormatOptions::default().with_null("null");
    let f: Vec<ArrayFormatter> = b.columns().iter().map(|c| ArrayFormatter::try_new(c.as_ref(), &opt).unwrap()).collect();
    (0..b.num_rows()).map(|i| f.iter().map(|c| c.value(i).to_string()).collect::<Vec<_>>().join("|")).collect()
}
fn want_of(ops: &[Op]) -> Vec<String> {
    let mut out = vec![];
    for o in ops { match o { Op::Batch(b) => out.extend(rows(b)), Op::Err(_) => { out.push("error".into()); break; } Op::Pend => {} } }
    out
}
/// reads a stream to its end, or up to `leave` batches
async fn read(mut st: BoxStream<'static, Result<RecordBatch>>, leave: Option<usize>, slow: u64, schema: SchemaRef) -> Vec<String> {
    let mut out = vec![];
    let mut n = 0;
    loop {
        if leave == Some(n) { return out; }
        for _ in 0..slow { tokio::task::yield_now().await; }
        match st.next().await {
            None => return out,
            Some(Ok(b)) => { if b.schema().fields() != schema.fields() { out.push(format!("batch of {:?}", b.schema())); return out; } out.extend(rows(&b)); n += 1; }
            Some(Err(_)) => { out.push("error".into()); return out; }
        }
    }
}
fn context(r: &mut Rng) -> (Arc<TaskContext>, String) {
    let budget = *r.pick(&[1usize, 1, 2000, 64 << 20, 64 << 20]);
    let mut d = DistributedConfig::default();
    d.worker_connection_buffer_budget_bytes = budget;
    let mut cfg = SessionConfig::new();
    cfg.options_mut().extensions.insert(d);
    (SessionContext::new_with_config(cfg).task_ctx(), format!("budget {budget}"))
}
fn cut(v: &[String]) -> String { if v.len() > 8 { format!("{:?}… ({} rows)", &v[..8], v.len()) } else { format!("{v:?}") } }

pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 8000 } else { 600 };
    let mut s = Search::new(&format!("{rounds} tasks of 1..=6 partitions of 0..=6 batches of 0..=300 rows (7 schemas: numbers, strings, string and binary views, dictionaries, lists, no columns; slices; pauses; errors), read from a real worker by the real client over gRPC in 1..=3 ranges, buffers of 1 byte to 64 MiB, slow readers and readers that leave; {rounds} scripted streams of messages read by the client (interleaved, unreadable or wrong partitions, broken, refused)"));
    let mut r = Rng::new(seed);
    block_on(async {
        for i in 0..rounds {
            s.case();
            if tokio::time::timeout(Duration::from_secs(20), round_trip(&mut s, &mut r)).await.is_err() { s.fail(format!("{}: the partitions are never read to the end", NOW.lock().unwrap())); }
            if s.failed() { return; }
            s.case();
            if tokio::time::timeout(Duration::from_secs(20), scripted(&mut s, &mut r)).await.is_err() { s.fail(format!("{}: the partitions are never read to the end", NOW.lock().unwrap())); }
            if s.failed() { return; }
        }
    });
    s
}
fn ops(r: &mut Rng, kind: u64, next: &mut i64) -> Vec<Op> {
    let empty = r.chance(1, 5);
    let mut v: Vec<Op> = (0..if empty { 0 } else { r.below(7) }).map(|_| if r.chance(1, 4) { Op::Pend } else { Op::Batch(batch(r, kind, next)) }).collect();
    if r.chance(1, 12) { v.push(Op::Err("broken".into())); if r.chance(1, 2) { v.push(Op::Batch(batch(r, kind, next))); } }
    v
}
async fn round_trip(s: &mut Search, r: &mut Rng) {
    let kind = r.below(7);
    let n = r.range(1, 6) as usize;
    let mut next = 0;
    let src: Vec<Vec<Op>> = (0..n).map(|_| ops(r, kind, &mut next)).collect();
    let schema = schema_of(kind);
    let props = Arc::new(PlanProperties::new(EquivalenceProperties::new(schema.clone()), Partitioning::UnknownPartitioning(n), EmissionType::Incremental, Boundedness::Bounded));
    let plan: Arc<dyn ExecutionPlan> = Arc::new(Src { ops: src.clone(), schema: schema.clone(), props });
    let compression = *r.pick(&["lz4", "zstd", "none"]);
    let w = Worker::from_session_builder(move |b: WorkerQueryContext| async move {
        let mut st = b.builder.build();
        if let Some(d) = st.config_mut().options_mut().extensions.get_mut::<DistributedConfig>() { d.compression = compression.into(); }
        Ok(st)
    });
    let key = TaskKey { query_id: Uuid::from_u128(1), stage_id: 1, task_number: 0 };
    let url = Url::parse("http://w0:1").unwrap();
    let req = SetPlanRequest { task_key: key, task_count: 1, plan: MaybeEncoded::Decoded(plan), work_unit_feed_declarations: vec![], target_worker_url: url, query_start_time_ns: 0 };
    let mut shown = format!("schema {kind}, compression {compression}, batches {:?}", src.iter().map(|o| o.iter().map(|o| match o { Op::Batch(b) => b.num_rows().to_string(), Op::Err(_) => "error".into(), Op::Pend => "pause".into() }).collect::<Vec<_>>()).collect::<Vec<_>>());
    if let Err(e) = w.coordinator_channel(HeaderMap::new(), req, futures::stream::pending().boxed()).await { return s.fail(format!("{shown}: {e}")); }
    let mut ch = client_of(w);
    let mut cuts: Vec<usize> = (0..r.below(3)).map(|_| r.below(n as u64 + 1) as usize).chain([0, n]).collect();
    cuts.sort(); cuts.dedup();
    let mut readers = vec![];
    for c in cuts.windows(2) {
        let (ctx, b) = context(r);
        shown += &format!(", partitions {}..{} {b}", c[0], c[1]);
        let q = ExecuteTaskRequest { task_key: key, target_partition_start: c[0], target_partition_end: c[1], producer_head: ProducerHead::None };
        let streams = match ch.execute_task(HeaderMap::new(), q, ExecutionPlanMetricsSet::new(), &ctx).await { Ok(v) => v, Err(e) => return s.fail(format!("{shown}: {e}")) };
        if streams.len() != c[1] - c[0] { return s.fail(format!("{shown}: {} streams", streams.len())); }
        for (i, st) in streams.into_iter().enumerate() {
            let leave = if r.chance(1, 6) { Some(r.below(3) as usize) } else { None };
            readers.push((c[0], c[0] + i, leave, tokio::spawn(read(st, leave, *r.pick(&[0, 0, 1, 20]), schema.clone()))));
        }
    }
    let failing: Vec<(usize, bool)> = cuts.windows(2).map(|c| (c[0], (c[0]..c[1]).any(|p| src[p].iter().any(|o| matches!(o, Op::Err(_)))))).collect();
    for (_, p, leave, _) in &readers { if let Some(l) = leave { shown += &format!(", the reader of {p} leaves after {l} batches"); } }
    *NOW.lock().unwrap() = shown.clone();
    for (range, p, leave, h) in readers {
        let got = match h.await { Ok(v) => v, Err(e) => return s.fail(format!("{shown}: reading partition {p}: {e}")) };
        let want = want_of(&src[p]);
        // an error of a partition ends all of its connection: the others get a prefix and an error
        let fails = failing.iter().any(|f| f.0 == range && f.1);
        let prefix = got.last().is_some_and(|l| l == "error") && got.len() <= want.len() + 1 && want.starts_with(&got[..got.len() - 1]);
        let ok = if leave.is_some() { want.starts_with(&got) || (fails && prefix) } else { got == want || (fails && prefix) };
        s.check(ok, || format!("{shown}: partition {p} reads {} instead of {}{}", cut(&got), cut(&want), if leave.is_some() { " (leaves early)" } else { "" }));
        if leave.is_none() && src[p].iter().any(|o| matches!(o, Op::Err(_))) { s.check(got.last().is_some_and(|l| l == "error"), || format!("{shown}: partition {p} ends without its error: {}", cut(&got))); }
    }
}
async fn scripted(s: &mut Search, r: &mut Rng) {
    let kind = r.below(7);
    let lo = *r.pick(&[0u64, 0, 1, 5, 1 << 33]);
    let n = r.range(1, 5);
    let mut next = 0;
    let mut queues: Vec<std::collections::VecDeque<_>> = vec![];
    let mut all: Vec<Vec<RecordBatch>> = vec![];
    for _ in 0..n {
        let b: Vec<RecordBatch> = if r.chance(1, 5) { vec![] } else { (0..r.below(6)).map(|_| batch(r, if kind == 3 || kind == 4 { 1 } else { kind }, &mut next)).filter(|b| b.num_rows() > 0).collect() };
        queues.push(messages_of(b.clone()).await.into());
        all.push(b);
    }
    let mut items = vec![];
    let mut sent = vec![0usize; n as usize];
    let mut end = "end";
    let stray = messages_of(vec![batch(r, 0, &mut next)]).await.pop().unwrap();
    let faults = r.chance(1, 2);
    while queues.iter().any(|q| !q.is_empty()) {
        if r.chance(1, 5) { items.push(Wire::Pause); }
        if faults && r.chance(1, 12) {
            let (e, w) = match r.below(5) {
                0 => ("broken", Wire::Broken("gone".into())),
                1 => ("unreadable", Wire::Unreadable(stray.clone())),
                2 => ("beyond", Wire::Data(lo + n + r.below(2), stray.clone())),
                3 if lo > 0 => ("before", Wire::Data(lo - 1 - r.below(lo.min(4)), stray.clone())),
                _ => ("far", Wire::Data(u64::MAX - r.below(3), stray.clone())),
            };
            items.push(w);
            end = e;
            break;
        }
        let p = r.below(n) as usize;
        if let Some(m) = queues[p].pop_front() { items.push(Wire::Data(lo + p as u64, m)); sent[p] += 1; }
    }
    let refuse = r.chance(1, 25);
    if refuse { end = "refused"; sent = vec![0; n as usize]; }
    // after a fault nothing counts any more
    if end != "end" { for q in queues.iter_mut() { if let Some(m) = q.pop_front() { items.push(Wire::Data(lo, m)); } } }
    let asked = Arc::new(Mutex::new(vec![]));
    let (ctx, b) = context(r);
    let mut shown = format!("partitions {lo}..{} of schema {kind}, {sent:?} messages each, then {end}, {b}", lo + n);
    let mut ch = client_of(Script { items, refuse, asked: asked.clone() });
    let q = ExecuteTaskRequest { task_key: TaskKey { query_id: Uuid::from_u128(1), stage_id: 1, task_number: 0 }, target_partition_start: lo as usize, target_partition_end: (lo + n) as usize, producer_head: ProducerHead::None };
    let streams = match ch.execute_task(HeaderMap::new(), q, ExecutionPlanMetricsSet::new(), &ctx).await { Ok(v) => v, Err(e) => return s.fail(format!("{shown}: {e}")) };
    s.check(streams.len() == n as usize, || format!("{shown}: {} streams", streams.len()));
    let mut readers = vec![];
    let schema = schema_of(if kind == 3 || kind == 4 { 1 } else { kind });
    for (p, st) in streams.into_iter().enumerate() {
        let leave = if r.chance(1, 6) { Some(r.below(3) as usize) } else { None };
        readers.push((p, leave, tokio::spawn(read(st, leave, *r.pick(&[0, 0, 1, 20]), schema.clone()))));
    }
    for (p, leave, _) in &readers { if let Some(l) = leave { shown += &format!(", the reader of {} leaves after {l} batches", lo + *p as u64); } }
    *NOW.lock().unwrap() = shown.clone();
    for (p, leave, h) in readers {
        let got = match h.await { Ok(v) => v, Err(e) => return s.fail(format!("{shown}: reading partition {p}: {e}")) };
        // the first message of a stream is its schema
        let mut want: Vec<String> = all[p].iter().take(sent[p].saturating_sub(1)).flat_map(rows).collect();
        if end != "end" { want.push("error".into()); }
        let ok = if leave.is_some() { want.starts_with(&got) } else { got == want };
        s.check(ok, || format!("{shown}: partition {} reads {} instead of {}{}", lo + p as u64, cut(&got), cut(&want), if leave.is_some() { " (leaves early)" } else { "" }));
    }
    let asked = asked.lock().unwrap().clone();
    s.check(asked.iter().all(|a| *a == (lo, lo + n)) && asked.len() <= 1, || format!("{shown}: the worker was asked for {asked:?}"));
}
