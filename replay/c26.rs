//! C26: a worker keeps a task while its query runs, and forgets it when the query ends.
use super::common::*;
use super::feeds::{rows, getter, Asked, Codec, FeedExec, Op, P as Feeds};
use crate::test_utils::in_memory_channel_resolver::{InMemoryChannelResolver, InMemoryWorkerResolver};
use crate::work_unit_feed::*;
use crate::*;
use datafusion::error::DataFusionError;
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::limit::GlobalLimitExec;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::prelude::{SessionConfig, SessionContext};
use futures::StreamExt;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use url::Url;
use uuid::Uuid;

fn leaf(ops: Vec<Vec<Op>>, tag: i64, parts: usize) -> Arc<dyn ExecutionPlan> {
    Arc::new(FeedExec::new(WorkUnitFeed::new(Feeds { ops: Arc::new(ops), asked: Asked::default(), refuse: None }), tag, parts))
}
fn held(w: &Worker, k: &TaskKey) -> bool { w.task_data_entries.contains_key(k) }
/// waits until `f` holds
async fn soon(mut f: impl FnMut() -> bool) -> bool {
    for i in 0..400u64 { if f() { return true; } if i < 40 { tokio::task::yield_now().await; } else { tokio::time::sleep(Duration::from_millis(25)).await; } }
    false
}
/// several tasks on one worker; their channels end one after another
async fn history(rng: &mut Rng) -> std::result::Result<(), String> {
    let w = Worker::default();
    let url = Url::parse("http://w0:1").unwrap();
    let mut cfg = SessionConfig::new();
    crate::config_extension_ext::set_distributed_option_extension(&mut cfg, DistributedConfig::default());
    cfg.set_distributed_metrics_collection(rng.chance(1, 2)).unwrap();
    let h = crate::config_extension_ext::get_config_extension_propagation_headers(&cfg).unwrap();
    let n = 1 + rng.below(4) as usize;
    let parts = 1 + rng.below(2) as usize;
    let mut open = vec![];
    let mut case = String::new();
    for i in 0..n {
        let key = TaskKey { query_id: Uuid::from_u128(1 + (i as u128 & 1)), stage_id: (i / 2) % 2, task_number: i / 4 };
        let ops = (0..parts).map(|p| (0..rng.below(4)).map(|u| Op::Unit((p as u64 * 10 + u) as i64)).collect()).collect();
        let (tx, rx) = futures::channel::mpsc::unbounded();
        let q = SetPlanRequest { task_key: key, task_count: 1, plan: MaybeEncoded::Decoded(leaf(ops, i as i64, parts)), work_unit_feed_declarations: vec![], target_worker_url: url.clone(), query_start_time_ns: 0 };
        let reply = w.coordinator_channel(h.clone(), q, rx.boxed()).await.map_err(|e| format!("the channel of {key:?}: {e}"))?;
        // how much of it runs: nothing, some partitions partly, everything
        let run = rng.below(3);
        case += &format!("{key:?} {}; ", ["is not executed", "is executed partly", "is executed"][run as usize]);
        let mut kept = vec![];
        if run > 0 {
            let ctx = SessionContext::new().task_ctx();
            let r = ExecuteTaskRequest { task_key: key, target_partition_start: 0, target_partition_end: parts, producer_head: ProducerHead::None };
            let sts = w.to_local_worker_context(url.clone()).to_worker_channel().execute_task(h.clone(), r, Default::default(), &ctx).await.map_err(|e| format!("{case}: {e}"))?;
            for mut st in sts {
                if run == 2 { while let Some(b) = st.next().await { b.map_err(|e| format!("{case}: {e}"))?; } }
                else { let _ = st.next().await; if rng.chance(1, 2) { kept.push(st); } }
            }
        }
        if rng.chance(1, 3) { let _ = tx.unbounded_send(Ok(CoordinatorToWorkerMsg::WorkUnitEos)); case += "its units end; "; }
        open.push((key, tx, Some(reply), kept));
    }
    for i in 0..50 { if i % 10 == 0 && i > 0 && rng.chance(1, 20) { tokio::time::sleep(Duration::from_millis(20)).await; } else { tokio::task::yield_now().await; } }
    while !open.is_empty() {
        for (k, ..) in &open { if !held(&w, k) { return Err(format!("{case} the task {k:?} is forgotten while its channel is open")); } }
        let i = rng.below(open.len() as u64) as usize;
        let (key, tx, mut reply, kept) = open.swap_remove(i);
        let how = rng.below(4);
        case += &format!("the channel of {key:?} {}; ", ["ends", "fails", "ends after the reply is dropped", "fails after the reply is dropped"][how as usize]);
        if how >= 2 { reply = None; }
        if how % 2 == 1 { let _ = tx.unbounded_send(Err(DataFusionError::Execution("gone".into()))); }
        if how % 2 == 1 && rng.chance(1, 2) { case += "(the connection stays) "; open_guard(tx); } else { drop(tx); }
        if let Some(r) = reply && tokio::time::timeout(Duration::from_secs(10), r.count()).await.is_err() { return Err(format!("{case} the reply does not end")); }
        if !soon(|| !held(&w, &key)).await { return Err(format!("{case} the task is kept")); }
        drop(kept);
        let mut left = 0;
        for i in 0..200 {
            w.task_data_entries.run_pending_tasks().await;
            left = w.task_data_entries.entry_count() as usize;
            if left == open.len() { break; }
            if i < 20 { tokio::task::yield_now().await } else { tokio::time::sleep(Duration::from_millis(25)).await }
        }
        if left != open.len() { return Err(format!("{case} {left} tasks are kept, {} channels are open", open.len())); }
    }
    Ok(())
}
/// keeps the sender alive for the rest of the search
fn open_guard<T: Send + 'static>(t: T) { std::mem::forget(t); }
/// a whole query on workers in the process and over gRPC: completed, failed or dropped
async fn query(rng: &mut Rng) -> std::result::Result<(), String> {
    let (tasks, parts) = (2 + rng.below(3) as usize, 1 + rng.below(2) as usize);
    let end = rng.below(5); // completes, fails, dropped, limited over feeds that never end, limited over silent feeds
    let units = 1 + rng.below(5) as usize;
    let mut ops: Vec<Vec<Op>> = (0..tasks * parts).map(|p| (0..units).map(|u| Op::Unit((p * 100 + u) as i64)).collect()).collect();
    match end {
        1 => { let i = rng.below(ops.len() as u64) as usize; ops[i].push(Op::Err("bad unit".into())) }
        3 => { let i = rng.below(ops.len() as u64) as usize; ops[i].push(Op::Endless(7)) }
        2 | 4 => { for o in ops.iter_mut() { if rng.chance(1, 2) { o.push(Op::Silent); } } }
        _ => {}
    }
    let all = tasks * parts * units;
    let limit = if end >= 3 { 1 + rng.below(all as u64) as usize } else { usize::MAX };
    let local = rng.chance(1, 3);
    let case = format!("{tasks} tasks of {parts} partitions over feeds {ops:?}, {}, workers {}", ["read to the end", "read until it fails", "dropped by the client", "limited", "limited"][end as usize].to_string() + &if end >= 3 { format!(" to {limit} rows") } else { String::new() }, if local { "in the process" } else { "over gRPC" });
    let mut plan: Arc<dyn ExecutionPlan> = Arc::new(CoalescePartitionsExec::new(Arc::new(NetworkCoalesceExec::try_new(leaf(ops, 0, parts), tasks, 1).unwrap())));
    if end >= 3 { plan = Arc::new(GlobalLimitExec::new(plan, 0, Some(limit))); }
    let plan = crate::distributed_planner::vp_inject::prepare(Arc::new(DistributedExec::new(plan))).map_err(|e| format!("{case}: {e}"))?;
    let b = SessionStateBuilder::new().with_default_features().with_distributed_planner().with_distributed_user_codec(Codec).with_distributed_work_unit_feed(getter);
    let worker: Arc<Mutex<Option<Worker>>> = Default::default();
    let session = |ctx: WorkerQueryContext| async move { Ok::<_, DataFusionError>(ctx.builder.with_distributed_user_codec(Codec).build()) };
    let b = if local {
        let w = Worker::from_session_builder(session);
        *worker.lock().unwrap() = Some(w.clone());
        b.with_distributed_worker_resolver(InMemoryWorkerResolver::new(1)).with_distributed_local_worker_context(w.to_local_worker_context(Url::parse("http://url-0").unwrap()))
    } else {
        let keep = worker.clone();
        let res = InMemoryChannelResolver::from_configured_worker(session, move |w| { *keep.lock().unwrap() = Some(w.clone()); w });
        b.with_distributed_worker_resolver(InMemoryWorkerResolver::new(3)).with_distributed_channel_resolver(res)
    };
    let w = worker.lock().unwrap().clone().unwrap();
    let ctx = SessionContext::from(b.build());
    let mut st = plan.execute(0, ctx.task_ctx()).map_err(|e| format!("{case}: {e}"))?;
    let (mut got, mut err) = (0, None);
    let stop = if end == 2 { rng.below(all as u64) as usize } else { usize::MAX };
    let read = async { while got < stop { match st.next().await { Some(Ok(b)) => got += rows(&b).len(), Some(Err(e)) => { err = Some(e.to_string()); break; } None => break } } };
    // silent feeds may leave a dropped query with fewer rows than it was to read
    let limit_time = if end == 2 { Duration::from_millis(200) } else { Duration::from_secs(15) };
    let over = tokio::time::timeout(limit_time, read).await.is_ok();
    if end != 2 && !over { return Err(format!("{case}: the query does not end ({got} rows read)")); }
    match (end, &err) {
        (1, None) => return Err(format!("{case}: the failure of a feed is lost")),
        (1, _) => {}
        (_, Some(e)) => return Err(format!("{case}: fails with {e}")),
        _ => {}
    }
    if end == 0 && got != all || end >= 3 && got != limit { return Err(format!("{case}: {got} rows")); }
    drop(st);
    drop(ctx);
    let mut left = 0;
    for _ in 0..400 {
        w.task_data_entries.run_pending_tasks().await;
        // a request for a partition that arrives late leaves a cell without a task
        left = w.task_data_entries.iter().filter(|(_, cell)| cell.read_now().is_some()).count();
        if left == 0 { break; }
        tokio::time::sleep(Duration::from_millis(25)).await;
    }
    if left != 0 { return Err(format!("{case}: {left} tasks are kept after the query")); }
    Ok(())
}
pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 8000 } else { 800 };
    let mut s = Search::new(&format!("{rounds} histories of one worker with up to 4 tasks (not, partly or fully executed) whose channels end or fail in any order, with the reply read or dropped; {} queries of 2..=4 tasks over feeds (workers in the process and over gRPC) that complete, fail, are dropped by the client, or are limited while their feeds never end", rounds / 4));
    let mut rng = Rng::new(seed ^ 0xC26);
    block_on(async {
        for i in 0..rounds {
            s.case();
            if let Err(e) = history(&mut rng).await { s.fail(e); return; }
            if i % 4 == 0 { s.case(); if let Err(e) = query(&mut rng).await { s.fail(e); return; } }
        }
    });
    s
}
