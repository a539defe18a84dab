//! C03: broadcast replays every batch, in order, to every consumer.
use super::common::*;
use super::scripted::*;
use crate::BroadcastExec;
use datafusion::execution::SendableRecordBatchStream;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::prelude::SessionContext;
use futures::StreamExt;
use std::sync::{Arc, Mutex};
use std::task::Poll;

pub fn run(seed: u64, thorough: bool) -> Search {
    let (rounds, mn, mc) = if thorough { (6000, 5, 6) } else { (700, 3, 4) };
    let mut s = Search::new(&format!("{rounds} random scripts: input partitions 1..={mn}, consumer tasks 1..={mc}, up to 12 items per partition (rows, errors at any position, pauses), all copies read under random interleavings on a single thread and, every 8th script, on 4 threads"));
    let mut r = Rng::new(seed);
    for k in 0..rounds {
        let n = r.range(1, mn) as usize;
        let c = r.range(1, mc) as usize;
        let items: Vec<Vec<Item>> = (0..n).map(|p| {
            let len = r.below(13) as usize;
            (0..len).map(|i| match r.below(8) { 0 if r.chance(1, 2) => Item::Err(format!("e{p}x{i}")), 1 | 2 => Item::Pend, _ => Item::Row((p * 100 + i) as i64) }).collect()
        }).collect();
        s.case();
        one(&mut s, items, c, &mut r, k % 8 == 0);
        if s.failed() { break; }
    }
    // an input that fails to execute
    for c in 1..=3usize {
        s.case();
        let mut src = Scripted { items: vec![vec![], vec![]], runs: Mutex::new(vec![0, 0]), fail_execute: true, props: Arc::clone(&Scripted::new(vec![vec![], vec![]]).props) };
        src.fail_execute = true;
        let plan = BroadcastExec::new(Arc::new(src), c);
        let ctx = SessionContext::new().task_ctx();
        block_on(async {
            for v in 0..2 * c {
                match plan.execute(v, Arc::clone(&ctx)) {
                    Ok(_) => s.fail(format!("virtual partition {v} of a failing input executes")),
                    Err(e) => s.check(e.to_string().contains(&format!("no{}", v % 2)), || format!("virtual partition {v} fails with {e}")),
                }
            }
        });
    }
    s
}

fn one(s: &mut Search, items: Vec<Vec<Item>>, c: usize, r: &mut Rng, threads: bool) {
    let n = items.len();
    let case = format!("input partitions {items:?}, {c} consumer tasks");
    let src = Scripted::new(items.clone());
    let plan = Arc::new(BroadcastExec::new(Arc::clone(&src) as Arc<dyn ExecutionPlan>, c));
    let adv = plan.properties().partitioning.partition_count();
    s.check(adv == n * c, || format!("{case}: advertises {adv} partitions"));
    let ctx = SessionContext::new().task_ctx();
    let rt = if threads { tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap() } else { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() };
    rt.block_on(async {
        // readers start in a random order, some only when others are done
        let mut waiting: Vec<usize> = (0..n * c).collect();
        let mut live: Vec<(usize, SendableRecordBatchStream, Vec<String>)> = vec![];
        let mut done: Vec<(usize, Vec<String>)> = vec![];
        let mut stuck = 0;
        while !(waiting.is_empty() && live.is_empty()) {
            if !waiting.is_empty() && (live.is_empty() || r.chance(1, 4)) {
                let v = waiting.swap_remove(r.below(waiting.len() as u64) as usize);
                match plan.execute(v, Arc::clone(&ctx)) {
                    Ok(st) => live.push((v, st, vec![])),
                    Err(e) => { s.fail(format!("{case}: virtual partition {v}: {e}")); return; }
                }
                continue;
            }
            let k = r.below(live.len() as u64) as usize;
            match futures::poll!(live[k].1.next()) {
                Poll::Ready(Some(x)) => { live[k].2.push(show(x)); stuck = 0; }
                Poll::Ready(None) => { let (v, _, got) = live.swap_remove(k); done.push((v, got)); stuck = 0; }
                Poll::Pending => { stuck += 1; tokio::task::yield_now().await; if threads { tokio::time::sleep(std::time::Duration::from_micros(50)).await; } }
            }
            if stuck > 20000 { s.fail(format!("{case}: readers {:?} make no progress", live.iter().map(|l| (l.0, l.2.len())).collect::<Vec<_>>())); return; }
        }
        for (v, got) in done {
            let want = expected(&items[v % n]);
            s.check(got == want, || format!("{case}: virtual partition {v} yields {got:?} instead of {want:?}"));
        }
        let runs = src.runs.lock().unwrap().clone();
        s.check(runs.iter().all(|x| *x == 1), || format!("{case}: the input partitions were executed {runs:?} times"));
        for v in 0..n * c {
            if plan.execute(v, Arc::clone(&ctx)).is_ok() { s.fail(format!("{case}: virtual partition {v} can be read a second time")); }
        }
    });
}
