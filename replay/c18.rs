//! C18: a value written once is seen by every reader and by no one else.
use super::common::*;
use super::scripted::*;
use crate::worker::SingleWriteMultiRead;
use crate::*;
use async_trait::async_trait;
use datafusion::error::DataFusionError;
use datafusion::execution::SessionState;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::prelude::SessionContext;
use futures::StreamExt;
use http::HeaderMap;
use std::sync::Arc;
use std::time::{Duration, Instant};
use url::Url;
use uuid::Uuid;

pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 3000 } else { 300 };
    let mut s = Search::new(&format!("{rounds} random schedules of 0..=4 writers and 1..=8 readers (before, while and after writing, with short and long timeouts) on four threads; {} histories of a worker whose plan is set once, twice, never, or fails to be set", rounds / 20));
    let mut r = Rng::new(seed);
    race(&mut s, if thorough { 60000 } else { 12000 });
    if s.failed() { return s; }
    block_on(async {
        for _ in 0..rounds {
            s.case();
            cell(&mut s, &mut r).await;
            if s.failed() { return; }
        }
        for i in 0..rounds / 20 {
            s.case();
            worker(&mut s, &mut r, i == 0).await;
            if s.failed() { return; }
        }
    });
    s
}

/// writers released at the same instant on threads of their own
fn race(s: &mut Search, rounds: usize) {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    const N: usize = 3;
    let cells: Arc<Vec<SingleWriteMultiRead<u64>>> = Arc::new((0..rounds).map(|_| SingleWriteMultiRead::new()).collect());
    let at = Arc::new(AtomicUsize::new(0));
    let ts: Vec<_> = (0..N as u64)
        .map(|t| {
            let (cells, at) = (Arc::clone(&cells), Arc::clone(&at));
            std::thread::spawn(move || {
                let mut out = Vec::with_capacity(rounds);
                for (k, c) in cells.iter().enumerate() {
                    at.fetch_add(1, SeqCst);
                    let mut spins = 0;
                    while at.load(SeqCst) < (k + 1) * N { std::hint::spin_loop(); spins += 1; if spins % 500 == 0 { std::thread::yield_now(); } }
                    let ok = c.write(t).is_ok();
                    out.push((ok, c.read_now()));
                }
                out
            })
        })
        .collect();
    let out: Vec<_> = ts.into_iter().map(|t| t.join().unwrap()).collect();
    for k in 0..rounds {
        s.case();
        let won: Vec<usize> = (0..N).filter(|t| out[*t][k].0).collect();
        let last = cells[k].read_now();
        s.check(won.len() == 1 && last == Some(won[0] as u64), || format!("{N} threads write at the same time: writes {won:?} succeed, the cell holds {last:?}"));
        s.check((0..N).all(|t| out[t][k].1 == last), || format!("{N} threads write at the same time: they read {:?}, the cell ends with {last:?}", (0..N).map(|t| out[t][k].1).collect::<Vec<_>>()));
        if s.failed() { return; }
    }
}

async fn cell(s: &mut Search, r: &mut Rng) {
    let writers = r.below(5);
    let readers = r.range(1, 8);
    let cell = Arc::new(SingleWriteMultiRead::<u64>::new());
    let case = format!("{writers} writers, {readers} readers");
    s.check(cell.read_now().is_none(), || format!("{case}: an unwritten cell holds a value"));
    let mut ws = vec![];
    let mut rs = vec![];
    for i in 0..readers {
        let c = Arc::clone(&cell);
        let (long, spin) = (r.chance(1, 2) && writers > 0, r.below(4));
        rs.push(tokio::spawn(async move {
            for _ in 0..spin { tokio::task::yield_now().await; }
            let t = Instant::now();
            let v = c.read(if long { Duration::from_secs(20) } else { Duration::from_millis(3) }).await;
            (i, long, t.elapsed(), v.map_err(|e| format!("{e:?}")), c.read_now())
        }));
    }
    for i in 0..writers {
        let c = Arc::clone(&cell);
        let spin = r.below(6);
        ws.push(tokio::spawn(async move {
            for _ in 0..spin { tokio::task::yield_now().await; }
            (i, c.write(100 + i).map_err(|e| format!("{e:?}")))
        }));
    }
    let mut won = vec![];
    for w in ws {
        let (i, res) = w.await.unwrap();
        match res { Ok(()) => won.push(100 + i), Err(e) => s.check(e == "AlreadyWritten", || format!("{case}: a later write fails with {e}")) }
    }
    s.check(won.len() == (writers > 0) as usize, || format!("{case}: {} writes succeed", won.len()));
    if s.failed() { return; }
    for x in rs {
        match tokio::time::timeout(Duration::from_secs(60), x).await {
            Err(_) => { s.fail(format!("{case}: a reader waits for ever")); return; }
            Ok(Err(e)) => { s.fail(format!("{case}: a reader panics: {e}")); return; }
            Ok(Ok((i, long, took, v, now))) => {
                match &v {
                    Ok(x) => {
                        s.check(won == vec![*x], || format!("{case}: reader {i} reads {x}, the value written first is {won:?}"));
                        s.check(now == Some(*x), || format!("{case}: reader {i} reads {x}, then {now:?}"));
                    }
                    Err(e) => {
                        s.check(!long, || format!("{case}: reader {i} gets {e} although a value was written within its time"));
                        s.check(took >= Duration::from_millis(2), || format!("{case}: reader {i} gives up at once ({e})"));
                    }
                }
            }
        }
        if s.failed() { return; }
    }
    // readers that come after the write
    if let Some(w) = won.first() {
        let again = cell.write(7).is_ok();
        s.check(!again, || format!("{case}: a late write succeeds"));
        let late = cell.read(Duration::from_millis(1000)).await.ok();
        s.check(late == Some(*w) && cell.read_now() == Some(*w), || format!("{case}: a late reader reads {late:?} instead of {w}"));
        let zero = cell.read(Duration::ZERO).await;
        s.check(matches!(zero, Ok(v) if v == *w), || format!("{case}: a reader that does not wait gets {zero:?} instead of the value written before"));
    }
}

#[derive(Clone)]
struct Fails(bool);
#[async_trait]
impl WorkerSessionBuilder for Fails {
    async fn build_session_state(&self, ctx: WorkerQueryContext) -> Result<SessionState, DataFusionError> {
        tokio::task::yield_now().await;
        if self.0 { Err(DataFusionError::Execution("no session for you".into())) } else { Ok(ctx.builder.build()) }
    }
}

async fn worker(s: &mut Search, r: &mut Rng, never: bool) {
    let fails = r.chance(1, 2);
    let w = Worker::from_session_builder(Fails(fails));
    let url = Url::parse("http://w0:1").unwrap();
    let ctx = SessionContext::new().task_ctx();
    let key = TaskKey { query_id: Uuid::from_u128(5), stage_id: 1, task_number: 0 };
    let readers = r.range(1, 4);
    let (early, twice) = (r.chance(1, 2), r.chance(1, 2));
    let case = format!("worker whose session {}, {readers} readers {} the plan is set{}", if fails { "cannot be built" } else { "is built" }, if early { "before" } else { "after" }, if twice { " twice" } else { "" });
    let lw = w.to_local_worker_context(url.clone());
    let read = |delay: u64| {
        let mut ch = lw.to_worker_channel();
        let ctx = Arc::clone(&ctx);
        tokio::spawn(async move {
            for _ in 0..delay { tokio::task::yield_now().await; }
            let t = Instant::now();
            let q = ExecuteTaskRequest { task_key: key, target_partition_start: 0, target_partition_end: 1, producer_head: ProducerHead::None };
            let out = match ch.execute_task(HeaderMap::new(), q, ExecutionPlanMetricsSet::new(), &ctx).await {
                Err(e) => Err(e.to_string()),
                Ok(v) => {
                    let mut got = vec![];
                    for mut st in v { while let Some(b) = st.next().await { got.push(show(b)); } }
                    Ok(got)
                }
            };
            (out, t.elapsed())
        })
    };
    if never {
        // nobody sets the plan
        match tokio::time::timeout(Duration::from_secs(45), read(0)).await {
            Err(_) => s.fail("a request for a task whose plan is never set waits for ever".into()),
            Ok(x) => { let (out, _) = x.unwrap(); s.check(out.is_err(), || format!("a request for a task whose plan is never set gets {out:?}")); }
        }
        return;
    }
    let mut rs = vec![];
    if early {
        for _ in 0..readers { let d = r.below(3); rs.push(read(d)); }
        tokio::task::yield_now().await;
    }
    let mut keep = vec![];
    for k in 0..1 + twice as i64 {
        let mut ch = lw.to_worker_channel();
        let src = Scripted::new(vec![vec![Item::Row(10 + k)]]);
        let req = SetPlanRequest { task_key: key, task_count: 1, plan: MaybeEncoded::Decoded(src as Arc<dyn ExecutionPlan>), work_unit_feed_declarations: vec![], target_worker_url: url.clone(), query_start_time_ns: 0 };
        let res = ch.coordinator_channel(HeaderMap::new(), req, futures::stream::pending().boxed(), ExecutionPlanMetricsSet::new(), &ctx).await;
        s.check(res.is_ok() == (!fails && k == 0), || format!("{case}: setting the plan (time {k}) gives ok={}", res.is_ok()));
        if let Ok(st) = res { keep.push(st); }
    }
    if !early { for _ in 0..readers { rs.push(read(0)); } }
    for x in rs {
        let (out, took) = x.await.unwrap();
        match out {
            Ok(got) => s.check(!fails && got == vec!["10".to_string()] || got.is_empty(), || format!("{case}: a reader gets {got:?}")),
            Err(e) if fails => s.check(e.contains("no session for you"), || format!("{case}: a reader gets the error {e} (after {took:?}) instead of the one written")),
            // the scripted plan may be executed by several readers, so errors are not expected
            Err(e) => s.fail(format!("{case}: a reader gets {e}")),
        }
    }
}
