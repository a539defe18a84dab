//! C13: control messages survive the wire unchanged.
use super::common::*;
use super::scripted::*;
use crate::distributed_planner::ProducerHead;
use crate::protocol::grpc::generated::worker as pb;
use crate::protocol::grpc::worker_client::vp_inject::{Recorder, client_of, read_reply};
use crate::protocol::grpc::worker_service::vp_inject::{read_message, read_plan, read_task, write_reply};
use crate::work_unit_feed::*;
use crate::*;
use datafusion::arrow::datatypes::{DataType, Field, Schema};
use datafusion::common::Result;
use datafusion::physical_expr::expressions::Column;
use datafusion::physical_plan::empty::EmptyExec;
use datafusion::physical_plan::metrics::{Count, ExecutionPlanMetricsSet, Metric, MetricValue, MetricsSet};
use datafusion::physical_plan::{ExecutionPlan, Partitioning};
use datafusion::prelude::{SessionConfig, SessionContext};
use futures::{FutureExt, StreamExt};
use http::HeaderMap;
use pb::coordinator_to_worker_msg::Inner as ToWorker;
use pb::worker_to_coordinator_msg::Inner as Reply;
use prost::Message;
use std::panic::AssertUnwindSafe;
use std::sync::Arc;
use url::Url;
use uuid::Uuid;

#[derive(Clone, PartialEq, ::prost::Message)]
pub struct U { #[prost(int64, tag = "1")] v: i64, #[prost(bytes, tag = "2")] pad: Vec<u8> }

fn num(r: &mut Rng) -> usize { match r.below(6) { 0 => 0, 1 => 1, 2 => r.below(100) as usize, 3 => u32::MAX as usize + r.below(5) as usize, 4 => usize::MAX - r.below(3) as usize, _ => r.next() as usize } }
fn id(r: &mut Rng) -> Uuid { match r.below(4) { 0 => Uuid::nil(), 1 => Uuid::from_u128(r.below(3) as u128), _ => Uuid::from_u128((r.next() as u128) << 64 | r.next() as u128) } }
fn bytes(r: &mut Rng) -> Vec<u8> { let n = r.below(40); (0..n).map(|_| r.next() as u8).collect() }
fn key(r: &mut Rng) -> TaskKey { TaskKey { query_id: id(r), stage_id: num(r), task_number: num(r) } }
fn url(r: &mut Rng) -> Url { let u = ["http://w0:1", "https://user:pw@host.example:8443/a/b?x=%20y&z#f", "http://[::1]:9/", "grpc://x/%E2%82%AC", "http://h/a b"]; Url::parse(*r.pick::<&str>(&u)).unwrap() }
fn f32s(r: &mut Rng) -> Vec<f32> { (0..r.below(4)).map(|_| *r.pick(&[0.0f32, -0.0, 0.25, 1.0, f32::MAX, f32::INFINITY, f32::MIN_POSITIVE])).collect() }
fn head(r: &mut Rng) -> ProducerHead {
    match r.below(4) {
        0 => ProducerHead::None,
        1 => ProducerHead::BroadcastExec { output_partitions: num(r) },
        2 => ProducerHead::RepartitionExec { partitioning: MaybeEncoded::Encoded(bytes(r)) },
        _ => { let n = r.range(1, 9) as usize; ProducerHead::RepartitionExec { partitioning: MaybeEncoded::Decoded(match r.below(3) { 0 => Partitioning::Hash(vec![Arc::new(Column::new("a", 0))], n), 1 => Partitioning::RoundRobinBatch(n), _ => Partitioning::Hash(vec![Arc::new(Column::new("b", 1)), Arc::new(Column::new("a", 0))], n) }) } }
    }
}
fn metrics(r: &mut Rng) -> MetricsSet {
    let mut m = MetricsSet::new();
    for k in 0..r.below(4) { let c = Count::new(); c.add(num(r)); m.push(Arc::new(Metric::new(MetricValue::Count { name: format!("c{k}").into(), count: c }, if r.chance(1, 2) { Some(r.below(9) as usize) } else { None }))); }
    m
}
fn show_metrics(m: &MetricsSet) -> String { m.iter().map(|m| format!("{:?}@{:?}", m.value(), m.partition())).collect::<Vec<_>>().join(",") }
fn show_head(h: &ProducerHead) -> String {
    match h {
        ProducerHead::None => "none".into(),
        ProducerHead::BroadcastExec { output_partitions } => format!("broadcast {output_partitions}"),
        ProducerHead::RepartitionExec { partitioning } => match partitioning {
            MaybeEncoded::Encoded(b) => format!("bytes {b:?}"),
            MaybeEncoded::Decoded(p) => format!("repartition {p:?}"),
        },
    }
}
fn show_unit(u: &WorkUnitMsg) -> String {
    let b = match &u.body { MaybeEncoded::Encoded(b) => b.clone(), MaybeEncoded::Decoded(d) => d.encode_to_bytes() };
    format!("{} {} {b:?} {} {} {} {}", u.id, u.partition, u.created_timestamp_unix_nanos, u.sent_timestamp_unix_nanos, u.received_timestamp_unix_nanos, u.processed_timestamp_unix_nanos)
}
fn show_to_worker(m: &CoordinatorToWorkerMsg) -> String { match m { CoordinatorToWorkerMsg::WorkUnitEos => "eos".into(), CoordinatorToWorkerMsg::WorkUnitBatch(b) => format!("batch {}", b.batch.iter().map(show_unit).collect::<Vec<_>>().join(" | ")) } }
fn show_reply(m: &WorkerToCoordinatorMsg) -> String {
    match m {
        WorkerToCoordinatorMsg::LoadInfoEos => "load eos".into(),
        WorkerToCoordinatorMsg::LoadInfo(l) => format!("load {} {} {:?} {:?} {:?} {} {}", l.partition, l.rows_ready, l.per_column_bytes_ready, l.per_column_ndv_percentage, l.per_column_null_percentage, l.rows_pulled_from_leaf, l.reached_eos),
        WorkerToCoordinatorMsg::TaskMetrics(t) => format!("metrics {} ; {}", t.pre_order_plan_metrics.iter().map(show_metrics).collect::<Vec<_>>().join(" / "), show_metrics(&t.task_metrics)),
    }
}
fn schema() -> Arc<Schema> { Arc::new(Schema::new(vec![Field::new("a", DataType::Int64, true), Field::new("b", DataType::Int64, true)])) }

pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 3000 } else { 400 };
    let mut s = Search::new(&format!("{rounds} sessions between the real client and a recording gRPC worker: random headers, keys, plans, feed declarations, 0..=5 messages of 0..=5 units, task requests with every head, replies of every kind, values of every size up to the largest; every received message decoded by the worker's decoders; each of them again with a part missing or damaged; {rounds} requests for ranges of partitions (reversed, out of range, huge) to a real worker"));
    let mut r = Rng::new(seed);
    block_on(async {
        for _ in 0..rounds {
            s.case();
            session(&mut s, &mut r).await;
            if s.failed() { return; }
            s.case();
            ranges(&mut s, &mut r).await;
            if s.failed() { return; }
        }
    });
    s
}

async fn session(s: &mut Search, r: &mut Rng) {
    let rec = Recorder::default();
    let mut ch = client_of(rec.clone());
    let ctx = SessionContext::new_with_config(SessionConfig::new().with_distributed_option_extension(DistributedConfig::default())).task_ctx();
    // --- the plan, and what follows it
    let mut h = HeaderMap::new();
    for i in 0..r.below(4) { h.insert(http::HeaderName::from_bytes(format!("x-h{i}").as_bytes()).unwrap(), http::HeaderValue::from_str(&format!("v {}", r.below(1000))).unwrap()); }
    let (k, task_count, u, at) = (key(r), num(r), url(r), num(r));
    let decls: Vec<(Uuid, usize)> = (0..r.below(4)).map(|_| (id(r), num(r))).collect();
    let fields = r.range(1, 3) as usize;
    let plan: Arc<dyn ExecutionPlan> = Arc::new(EmptyExec::new(Arc::new(Schema::new((0..fields).map(|i| Field::new(format!("f{i}"), DataType::Int32, true)).collect::<Vec<_>>()))));
    let raw = if r.chance(1, 2) { Some(bytes(r)) } else { None };
    let req = SetPlanRequest {
        task_key: k, task_count, plan: match &raw { Some(b) => MaybeEncoded::Encoded(b.clone()), None => MaybeEncoded::Decoded(Arc::clone(&plan)) },
        work_unit_feed_declarations: decls.iter().map(|(id, partitions)| WorkUnitFeedDeclaration { id: *id, partitions: *partitions }).collect(), target_worker_url: u.clone(), query_start_time_ns: at,
    };
    let mut msgs = vec![];
    for _ in 0..r.below(6) {
        if r.chance(1, 5) { msgs.push(CoordinatorToWorkerMsg::WorkUnitEos); continue; }
        let batch = (0..r.below(6)).map(|_| WorkUnitMsg {
            id: id(r), partition: num(r), body: if r.chance(1, 2) { MaybeEncoded::Encoded(bytes(r)) } else { MaybeEncoded::Decoded(Box::new(U { v: r.next() as i64, pad: bytes(r) })) },
            created_timestamp_unix_nanos: num(r), sent_timestamp_unix_nanos: num(r), received_timestamp_unix_nanos: num(r), processed_timestamp_unix_nanos: num(r),
        }).collect();
        msgs.push(CoordinatorToWorkerMsg::WorkUnitBatch(WorkUnitBatch { batch }));
    }
    let want: Vec<String> = msgs.iter().map(show_to_worker).collect();
    // --- replies
    let mut want_replies = vec![];
    for _ in 0..r.below(5) {
        let m = match r.below(4) {
            0 => WorkerToCoordinatorMsg::LoadInfoEos,
            1 => WorkerToCoordinatorMsg::TaskMetrics(TaskMetrics { pre_order_plan_metrics: (0..r.below(4)).map(|_| metrics(r)).collect(), task_metrics: metrics(r) }),
            _ => WorkerToCoordinatorMsg::LoadInfo(LoadInfo { partition: num(r), rows_ready: num(r), per_column_bytes_ready: (0..r.below(4)).map(|_| num(r)).collect(), per_column_ndv_percentage: f32s(r), per_column_null_percentage: f32s(r), rows_pulled_from_leaf: num(r), reached_eos: r.chance(1, 2) }),
        };
        want_replies.push(show_reply(&m));
        match write_reply(m) { Ok(w) => rec.0.lock().unwrap().replies.push(w), Err(e) => return s.fail(format!("a reply ({}) cannot be sent: {e}", want_replies.last().unwrap())) }
    }
    let kept = rec.0.lock().unwrap().replies.clone();
    let what = format!("plan request {k:?}, {task_count} tasks, {} declarations", decls.len());
    let mut out = match ch.coordinator_channel(h.clone(), req, futures::stream::iter(msgs).boxed(), ExecutionPlanMetricsSet::new(), &ctx).await { Ok(v) => v, Err(e) => return s.fail(format!("{what}: {e}")) };
    let mut got_replies = vec![];
    while let Some(m) = out.next().await { match m { Ok(m) => got_replies.push(show_reply(&m)), Err(e) => return s.fail(format!("a reply cannot be read: {e}")) } }
    s.check(got_replies == want_replies, || format!("the replies {want_replies:?} are read as {got_replies:?}"));
    let (got, heads) = { let mut x = rec.0.lock().unwrap(); (std::mem::take(&mut x.to_worker), std::mem::take(&mut x.headers)) };
    for (n, v) in &h { s.check(heads[0].get(n) == Some(v), || format!("header {n}: {v:?} arrives as {:?}", heads[0].get(n))); }
    let mut got = got.into_iter();
    let Some(ToWorker::SetPlanRequest(first)) = got.next().and_then(|m| m.inner) else { return s.fail(format!("{what}: the first message is not the plan")) };
    match read_plan(first.clone()) {
        Err(e) => s.fail(format!("{what}: the worker rejects it: {e}")),
        Ok(q) => {
            s.check(q.task_key == k && q.task_count == task_count && q.target_worker_url == u && q.query_start_time_ns == at, || format!("{what} for {u} at {at} arrives as {:?}, {} tasks, {}, {}", q.task_key, q.task_count, q.target_worker_url, q.query_start_time_ns));
            let d: Vec<(Uuid, usize)> = q.work_unit_feed_declarations.iter().map(|d| (d.id, d.partitions)).collect();
            s.check(d == decls, || format!("declarations {decls:?} arrive as {d:?}"));
            match (&raw, q.plan) {
                (Some(b), MaybeEncoded::Encoded(x)) => s.check(*b == x, || format!("the bytes of a plan {b:?} arrive as {x:?}")),
                (None, p) => { let p = p.decode(&ctx); s.check(p.as_ref().is_ok_and(|p| p.schema() == plan.schema() && p.name() == plan.name()), || format!("the plan arrives as {p:?}")); }
                _ => s.fail("bytes of a plan arrive decoded".into()),
            }
        }
    }
    let rest: Vec<pb::CoordinatorToWorkerMsg> = got.collect();
    let read: Vec<Result<String, String>> = rest.iter().cloned().map(|m| read_message(m).map(|m| show_to_worker(&m)).map_err(|e| e.to_string())).collect();
    s.check(read == want.iter().cloned().map(Ok).collect::<Vec<_>>(), || format!("the messages {want:?} are read as {read:?}"));
    // --- requests for tasks
    let (hd, k2) = (head(r), key(r));
    let lo = num(r).min(usize::MAX - 10);
    let hi = lo + r.below(5) as usize;
    let sent = match &hd { ProducerHead::None => ProducerHead::None, ProducerHead::BroadcastExec { output_partitions } => ProducerHead::BroadcastExec { output_partitions: *output_partitions }, ProducerHead::RepartitionExec { partitioning } => ProducerHead::RepartitionExec { partitioning: partitioning.clone() } };
    let q = ExecuteTaskRequest { task_key: k2, target_partition_start: lo, target_partition_end: hi, producer_head: sent };
    let streams = match ch.execute_task(h.clone(), q, ExecutionPlanMetricsSet::new(), &ctx).await { Ok(v) => v, Err(e) => return s.fail(format!("request for {k2:?} {lo}..{hi}: {e}")) };
    s.check(streams.len() == hi - lo, || format!("request for {k2:?} {lo}..{hi}: {} streams", streams.len()));
    for mut st in streams { while let Some(b) = st.next().await { if let Err(e) = b { return s.fail(format!("request for {k2:?} {lo}..{hi}: {e}")); } } }
    if hi > lo {
        let t = rec.0.lock().unwrap().tasks.pop();
        let Some(t) = t else { return s.fail(format!("request for {k2:?} {lo}..{hi}: never sent")) };
        let back = match read_task(t.clone()).await { Ok(v) => v, Err(e) => return s.fail(format!("request for {k2:?} {lo}..{hi}: rejected: {e}")) };
        s.check(back.task_key == k2 && back.target_partition_start == lo && back.target_partition_end == hi, || format!("request for {k2:?} {lo}..{hi} arrives as {:?} {}..{}", back.task_key, back.target_partition_start, back.target_partition_end));
        let decoded = matches!(&hd, ProducerHead::RepartitionExec { partitioning: MaybeEncoded::Decoded(_) });
        let b = if decoded { match back.producer_head.ensure_decoded(schema(), &ctx) { Ok(h) => h, Err(e) => return s.fail(format!("head {}: {e}", show_head(&hd))) } } else { back.producer_head };
        s.check(show_head(&b) == show_head(&hd), || format!("head {} arrives as {}", show_head(&hd), show_head(&b)));
        // --- a part missing or damaged
        for bad in [pb::ExecuteTaskRequest { task_key: None, ..t.clone() }, pb::ExecuteTaskRequest { producer_head: None, ..t.clone() }, pb::ExecuteTaskRequest { task_key: t.task_key.clone().map(|k| pb::TaskKey { query_id: cut(&k.query_id, r), ..k }), ..t.clone() }] {
            s.check(read_task(bad.clone()).await.is_err(), || format!("the task request {bad:?} is accepted"));
        }
    }
    let ver: String = format!("v{}", r.below(1000));
    rec.0.lock().unwrap().version = ver.clone();
    match ch.get_worker_info(GetWorkerInfoRequest {}).await { Ok(v) => s.check(v.version == ver, || format!("version {ver} arrives as {}", v.version)), Err(e) => s.fail(format!("version: {e}")) }
    let bad_decl = |r: &mut Rng| { let mut p = first.clone(); let i = p.work_unit_feed_declarations.len(); p.work_unit_feed_declarations.push(pb::set_plan_request::WorkUnitFeedDeclaration { id: cut(&[7; 16], r), partitions: 1 }); let j = r.below(i as u64 + 1) as usize; p.work_unit_feed_declarations.swap(i, j); p };
    for bad in [pb::SetPlanRequest { task_key: None, ..first.clone() }, pb::SetPlanRequest { target_worker_url: r.pick(&["", "no url", "http://"]).to_string(), ..first.clone() }, pb::SetPlanRequest { task_key: first.task_key.clone().map(|k| pb::TaskKey { query_id: cut(&k.query_id, r), ..k }), ..first.clone() }, bad_decl(r)] {
        s.check(read_plan(bad.clone()).is_err(), || format!("the plan request {bad:?} is accepted"));
    }
    for m in rest.iter().filter(|m| matches!(m.inner, Some(ToWorker::WorkUnitBatch(_)))).chain([&pb::CoordinatorToWorkerMsg { inner: None }, &pb::CoordinatorToWorkerMsg { inner: Some(ToWorker::SetPlanRequest(first.clone())) }]) {
        let mut m = m.clone();
        if let Some(ToWorker::WorkUnitBatch(b)) = &mut m.inner { if b.batch.is_empty() { continue; } let i = r.below(b.batch.len() as u64) as usize; b.batch[i].id = cut(&b.batch[i].id, r); }
        s.check(read_message(m.clone()).is_err(), || format!("the message {m:?} is accepted"));
    }
    for m in kept.into_iter().filter(|m| matches!(m.inner, Some(Reply::TaskMetrics(_)))).chain([pb::WorkerToCoordinatorMsg { inner: None }]) {
        let mut m = m;
        if let Some(Reply::TaskMetrics(t)) = &mut m.inner { if r.chance(1, 2) { t.task_metrics = None } else { t.pre_order_plan_metrics.push(pb::MetricsSet { metrics: vec![pb::Metric { labels: vec![], partition: None, value: None }] }) } }
        s.check(read_reply(m.clone()).is_err(), || format!("the reply {m:?} is accepted"));
    }
}
/// other than sixteen bytes
fn cut(b: &[u8], r: &mut Rng) -> Vec<u8> { match r.below(3) { 0 => vec![], 1 => b[..15.min(b.len())].to_vec(), _ => { let mut v = b.to_vec(); v.push(1); v } } }

async fn ranges(s: &mut Search, r: &mut Rng) {
    let w = Worker::default();
    let url = Url::parse("http://w0:1").unwrap();
    let parts = r.range(1, 4) as usize;
    let src = Scripted::new((0..parts).map(|p| vec![Item::Row(p as i64)]).collect());
    let k = TaskKey { query_id: Uuid::from_u128(3), stage_id: 1, task_number: 0 };
    let req = SetPlanRequest { task_key: k, task_count: 1, plan: MaybeEncoded::Decoded(src as Arc<dyn ExecutionPlan>), work_unit_feed_declarations: vec![], target_worker_url: url, query_start_time_ns: 0 };
    let _open = match w.coordinator_channel(HeaderMap::new(), req, futures::stream::pending().boxed()).await { Ok(v) => v, Err(e) => return s.fail(format!("plan: {e}")) };
    let pick = |r: &mut Rng| match r.below(5) { 0 => num(r), _ => r.below(6) as usize };
    let (lo, hi) = (pick(r), pick(r));
    let q = ExecuteTaskRequest { task_key: k, target_partition_start: lo, target_partition_end: hi, producer_head: ProducerHead::None };
    match AssertUnwindSafe(w.execute_task(q)).catch_unwind().await {
        Err(_) => s.fail(format!("a request for the partitions {lo}..{hi} of {parts} panics: {}", LAST_PANIC.lock().unwrap())),
        Ok(Err(e)) => s.check(lo > hi || hi > parts, || format!("a request for the partitions {lo}..{hi} of {parts}: {e}")),
        Ok(Ok((v, _))) => s.check(lo <= hi && v.len() == hi - lo && (lo == hi || hi <= parts), || format!("a request for the partitions {lo}..{hi} of {parts} is answered with {} streams", v.len())),
    }
}
