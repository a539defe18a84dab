//! C04: a remote task partition is delivered to its requester exactly once.
use super::common::*;
use super::scripted::*;
use crate::distributed_planner::ProducerHead;
use crate::stage::RemoteStage;
use crate::worker::WorkerConnectionPool;
use crate::*;
use datafusion::arrow::array::{Int64Array, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Field, Schema};
use datafusion::common::Result;
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::prelude::{SessionConfig, SessionContext};
use futures::StreamExt;
use http::HeaderMap;
use std::collections::BTreeSet;
use std::sync::Arc;
use url::Url;
use uuid::Uuid;

pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 4000 } else { 500 };
    let mut s = Search::new(&format!("{rounds} random histories of requests to a connection pool (1..=5 producer tasks, ranges of 1..=5 partitions, repeated, out-of-range and unknown-task requests, streams polled in any order or dropped); {rounds} random histories of a worker holding 1..=6 tasks; queries whose stages run several tasks on the local worker"));
    let mut r = Rng::new(seed);
    block_on(async {
        for _ in 0..rounds {
            s.case();
            pool(&mut s, &mut r).await;
            if s.failed() { return; }
        }
        for _ in 0..rounds {
            s.case();
            worker(&mut s, &mut r).await;
            if s.failed() { return; }
        }
        local_tasks(&mut s).await;
    });
    s
}

async fn pool(s: &mut Search, r: &mut Rng) {
    let n = r.range(1, 5) as usize;
    let slots = if r.chance(1, 6) { r.range(1, 6) as usize } else { n };
    let ranges: Vec<(usize, usize)> = (0..n).map(|_| { let lo = r.below(7) as usize; (lo, lo + r.range(1, 5) as usize) }).collect();
    let heads = [ProducerHead::None, ProducerHead::BroadcastExec { output_partitions: 12 }];
    let head = r.pick(&heads).clone();
    let stage = RemoteStage { query_id: Uuid::from_u128(7), num: r.below(9) as usize, workers: urls(n), runtime_stats: None };
    let mock = MockResolver::default();
    let ctx = mock_ctx(&mock, 0, 1);
    let pool = WorkerConnectionPool::new(slots);
    let mut taken: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut asked: BTreeSet<usize> = BTreeSet::new();
    let mut history = vec![];
    // requests are made first and polled later, in another order
    let steps = r.range(1, 14);
    let mut open = vec![];
    for _ in 0..steps {
        let t = if r.chance(1, 10) { n + r.below(2) as usize } else { r.below(n as u64) as usize };
        let (lo, hi) = ranges[t.min(n - 1)];
        let p = if r.chance(1, 8) { hi + r.below(3) as usize } else { r.range(lo as u64, hi as u64 - 1) as usize };
        history.push((t, lo, hi, p));
        match no_panic(|| pool.execute(&stage, lo..hi, t, p, head.clone(), &ctx)) {
            Err(e) => { s.fail(format!("{n} tasks, {slots} slots, requests {history:?}: panic {e}")); return; }
            Ok(Err(_)) => s.check(t >= n || t >= slots, || format!("{n} tasks, {slots} slots, requests {history:?}: the last one is refused")),
            Ok(Ok(st)) => {
                s.check(t < n && t < slots, || format!("{n} tasks, {slots} slots, requests {history:?}: a task that does not exist is served"));
                asked.insert(t);
                open.push((t, lo, hi, p, st));
            }
        }
        if s.failed() { return; }
    }
    while !open.is_empty() {
        let k = r.below(open.len() as u64) as usize;
        let (t, lo, hi, p, mut st) = open.swap_remove(k);
        if r.chance(1, 8) { continue; } // dropped unread
        let case = || format!("{n} tasks, requests (task, lo, hi, partition) {history:?}, reading task {t} partition {p}");
        let mut batches = vec![];
        let mut err = None;
        while let Some(b) = st.next().await { match b { Ok(b) => batches.push(b), Err(e) => { err = Some(e.to_string()); break; } } }
        let reads = reads_of(&batches);
        if p >= hi || taken.contains(&(t, p)) {
            s.check(err.is_some() && reads.is_empty(), || format!("{}: delivered {reads:?} although {}", case(), if p >= hi { "it is out of range" } else { "it was already taken" }));
        } else {
            taken.insert((t, p));
            s.check(err.is_none(), || format!("{}: {err:?}", case()));
            let want = Read { url: format!("http://w{t}:1/"), stage: stage.num, task: t, partition: p, lo, hi, head: head_str(&head) };
            s.check(reads == vec![want.clone()], || format!("{}: delivered {reads:?} instead of {want:?}", case()));
        }
        if s.failed() { return; }
    }
    // give requests of dropped streams the time to be sent
    for _ in 0..3 { tokio::task::yield_now().await; }
    let log = mock.log.lock().unwrap();
    for t in 0..n {
        let (lo, hi) = ranges[t];
        let got = log.iter().filter(|x| x.task == t).count();
        s.check(got == 0 || (got <= hi - lo && asked.contains(&t)), || format!("{n} tasks, requests {history:?}: worker {t} was asked for {got} partitions in total, range {lo}..{hi}"));
    }
}

async fn worker(s: &mut Search, r: &mut Rng) {
    let w = Worker::default();
    let url = Url::parse("http://w0:1").unwrap();
    let mut ch = w.to_local_worker_context(url.clone()).to_worker_channel();
    let ctx = SessionContext::new().task_ctx();
    let n = r.range(1, 6) as usize;
    let mut keys: Vec<(TaskKey, usize, usize)> = vec![];
    let mut keep = vec![];
    for k in 0..n {
        // keys differ in one part only, now and then
        let key = TaskKey { query_id: Uuid::from_u128(1 + r.below(2) as u128), stage_id: r.below(2) as usize, task_number: r.below(3) as usize };
        let parts = r.range(1, 4) as usize;
        let src = Scripted::new((0..parts).map(|p| vec![Item::Row((k * 1000 + p) as i64)]).collect());
        let req = SetPlanRequest { task_key: key, task_count: 3, plan: MaybeEncoded::Decoded(src as Arc<dyn ExecutionPlan>), work_unit_feed_declarations: vec![], target_worker_url: url.clone(), query_start_time_ns: 0 };
        let mut h = HeaderMap::new();
        let _ = &mut h;
        let res = ch.coordinator_channel(h, req, futures::stream::pending().boxed(), ExecutionPlanMetricsSet::new(), &ctx).await;
        let known = keys.iter().any(|x| x.0 == key);
        s.check(res.is_ok() != known, || format!("setting the plan of {key:?} (already set: {known}) gives ok={}", res.is_ok()));
        if let Ok(st) = res { keep.push(st); }
        if !known { keys.push((key, k, parts)); }
    }
    for _ in 0..r.range(1, 5) {
        let (key, k, parts) = r.pick(&keys).clone();
        let lo = r.below(parts as u64 + 1) as usize;
        let hi = lo + r.below(4) as usize;
        let case = format!("worker with tasks {keys:?}, {key:?} partitions {lo}..{hi}");
        let req = ExecuteTaskRequest { task_key: key, target_partition_start: lo, target_partition_end: hi, producer_head: ProducerHead::None };
        match ch.execute_task(HeaderMap::new(), req, ExecutionPlanMetricsSet::new(), &ctx).await {
            Err(e) => s.check(lo < hi && hi > parts, || format!("{case}: {e}")),
            Ok(v) => {
                s.check(lo == hi || hi <= parts, || format!("{case}: partitions that do not exist are served"));
                s.check(v.len() == hi - lo, || format!("{case}: {} streams", v.len()));
                for (i, mut st) in v.into_iter().enumerate() {
                    let mut got = vec![];
                    while let Some(b) = st.next().await { got.push(show(b)); }
                    let want = vec![(k * 1000 + lo + i).to_string()];
                    s.check(got == want, || format!("{case}: stream {i} yields {got:?} instead of {want:?}"));
                }
            }
        }
        if s.failed() { return; }
    }
}

struct Urls(Vec<Url>);
impl WorkerResolver for Urls {
    fn get_urls(&self) -> Result<Vec<Url>> { Ok(self.0.clone()) }
}

/// Several tasks of one stage on the local worker, which receives plans without encoding.
async fn local_tasks(s: &mut Search) {
    let schema = Arc::new(Schema::new(vec![Field::new("k", DataType::Int64, false), Field::new("v", DataType::Int64, false)]));
    std::fs::create_dir_all("t").unwrap();
    for f in 0..6i64 {
        let b = RecordBatch::try_new(Arc::clone(&schema), vec![Arc::new(Int64Array::from_iter_values((0..100).map(|i| i % 10))), Arc::new(Int64Array::from_iter_values((0..100).map(|i| f * 100 + i)))]).unwrap();
        let mut w = parquet::arrow::ArrowWriter::try_new(std::fs::File::create(format!("t/{f}.parquet")).unwrap(), Arc::clone(&schema), None).unwrap();
        w.write(&b).unwrap();
        w.close().unwrap();
    }
    let queries = ["select k, sum(v) s from t group by k order by k", "select a.k, count(*) c from (select k, sum(v) s from t group by k) a join t b on a.k = b.k group by a.k order by a.k", "select k, v from t where v % 7 = 3 order by v"];
    let single = SessionContext::new();
    single.register_parquet("t", "t/", Default::default()).await.unwrap();
    for tasks in 1..=4usize {
        let w = Worker::default();
        let url = Url::parse("http://w0:1").unwrap();
        let state = SessionStateBuilder::new()
            .with_default_features()
            .with_config(SessionConfig::new().with_target_partitions(3))
            .with_distributed_planner()
            .with_distributed_local_worker_context(w.to_local_worker_context(url.clone()))
            .with_distributed_worker_resolver(Urls(vec![url]))
            .with_distributed_file_scan_config_bytes_per_partition(1)
            .unwrap()
            .build();
        let ctx = SessionContext::from(state);
        ctx.sql(&format!("set distributed.max_tasks_per_stage={tasks}")).await.unwrap().collect().await.unwrap();
        ctx.register_parquet("t", "t/", Default::default()).await.unwrap();
        for q in queries {
            s.case();
            let fmt = |b: &[RecordBatch]| datafusion::arrow::util::pretty::pretty_format_batches(b).unwrap().to_string();
            let want = fmt(&single.sql(q).await.unwrap().collect().await.unwrap());
            match ctx.sql(q).await.unwrap().collect().await {
                Ok(got) => s.check(fmt(&got) == want, || format!("up to {tasks} tasks per stage on the local worker, {q}: got {} instead of {want}", fmt(&got))),
                Err(e) => s.fail(format!("up to {tasks} tasks per stage on the local worker, {q}: {e}")),
            }
        }
    }
}
