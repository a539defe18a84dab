//! C01: consumer tasks of a coalescing boundary read every producer partition exactly once.
use super::common::*;
use crate::*;
use datafusion::physical_expr::EquivalenceProperties;
use datafusion::physical_plan::empty::EmptyExec;
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::{ExecutionPlan, Partitioning, PlanProperties};
use std::sync::Arc;

pub fn run(_seed: u64, thorough: bool) -> Search {
    let (mt, mc, mp) = if thorough { (24, 24, 5) } else { (11, 12, 4) };
    let mut s = Search::new(&format!("exhaustive: producer tasks 0..={mt}, consumer tasks 1..={mc}, partitions 1..={mp}, three partitionings; all outputs executed against recording workers"));
    block_on(async {
        for t in 1..=mt {
            for c in 1..=mc {
                for p in 1..=mp {
                    one(&mut s, t, c, p).await;
                    if s.failed() { return; }
                }
            }
        }
        for t in [1usize, 2, 5, 63, 1000] {
            for c in [1usize, 3, 7, 64, 999] {
                one_geom(&mut s, t, c);
                if s.failed() { return; }
            }
        }
    });
    s
}

fn props(k: usize, p: usize) -> Arc<PlanProperties> {
    let part = match k % 3 {
        0 => Partitioning::UnknownPartitioning(p),
        1 => Partitioning::RoundRobinBatch(p),
        _ => Partitioning::Hash(vec![], p),
    };
    Arc::new(PlanProperties::new(EquivalenceProperties::new(read_schema()), part, EmissionType::Incremental, Boundedness::Bounded))
}

fn one_geom(s: &mut Search, t: usize, c: usize) {
    s.case();
    let input: Arc<dyn ExecutionPlan> = Arc::new(EmptyExec::new(read_schema()).with_partitions(3));
    let n = NetworkCoalesceExec::try_new(input, t, c).unwrap();
    let want = 3 * t.div_ceil(c).max(1);
    let got = n.properties().partitioning.partition_count();
    s.check(got == want, || format!("try_new(3 partitions, {t} producer tasks, {c} consumer tasks) advertises {got} partitions, expected {want}"));
}

async fn one(s: &mut Search, t: usize, c: usize, p: usize) {
    s.case();
    let case = format!("producer tasks={t} consumer tasks={c} partitions={p}");
    let node = match NetworkCoalesceExec::try_from_stage(remote(t), props(t + c + p, p), c) {
        Ok(n) => n,
        Err(e) => { s.fail(format!("{case}: try_from_stage failed: {e}")); return; }
    };
    let width = node.properties().partitioning.partition_count();
    // a boundary that changes hands keeps its shape
    let again = node.with_input_stage(remote(t)).unwrap();
    let w2 = again.properties().partitioning.partition_count();
    s.check(w2 == width, || format!("{case}: with_input_stage(same size) changed the width {width} -> {w2}"));
    // planned, then turned remote: same geometry
    let input: Arc<dyn ExecutionPlan> = Arc::new(EmptyExec::new(read_schema()).with_partitions(p));
    let planned = NetworkCoalesceExec::try_new(input, t, c).unwrap();
    let w3 = planned.with_input_stage(remote(t)).unwrap().properties().partitioning.partition_count();
    s.check(w3 == width, || format!("{case}: planned width {w3}, runtime width {width}"));
    s.check(NetworkCoalesceExec::try_new(Arc::new(EmptyExec::new(read_schema())), t, 0).is_err(), || "0 consumer tasks accepted".into());
    let mut seen = std::collections::BTreeMap::new();
    for i in 0..c {
        let mock = MockResolver::default();
        let ctx = mock_ctx(&mock, i, c);
        let mut first: Option<usize> = None;
        // every consumer task holds its own copy of the node (and its own connections)
        let node = node.clone();
        for q in 0..width {
            let st = match no_panic(|| node.execute(q, Arc::clone(&ctx))) {
                Ok(Ok(st)) => st,
                Ok(Err(e)) => { s.fail(format!("{case}: task {i} partition {q}: error {e}")); return; }
                Err(e) => { s.fail(format!("{case}: task {i} partition {q}: panic {e}")); return; }
            };
            // the connection pool hands out each partition once: use a fresh node per task
            let b = match drain(st).await {
                Ok(b) => b,
                Err(e) => { s.fail(format!("{case}: task {i} partition {q}: stream error {e}")); return; }
            };
            let r = reads_of(&b);
            s.check(r.len() <= 1, || format!("{case}: task {i} partition {q} reads {} producer partitions", r.len()));
            for r in r {
                s.check(r.url == format!("http://w{}:1/", r.task), || format!("{case}: task {} asked at {}", r.task, r.url));
                s.check(r.lo == 0 && r.hi == p && r.head == "none", || format!("{case}: bad range/head {r:?}"));
                if let Some(f) = first { s.check(r.task >= f, || format!("{case}: task {i} reads producer {} after {f}", r.task)); }
                first = Some(r.task);
                if let Some(prev) = seen.insert((r.task, r.partition), (i, q)) {
                    s.fail(format!("{case}: producer task {} partition {} read by {prev:?} and by {:?}", r.task, r.partition, (i, q)));
                    return;
                }
            }
        }
        // invalid task contexts are refused
        let bad = mock_ctx(&mock, c, c);
        s.check(node.execute(0, bad).is_err(), || format!("{case}: task_index == task_count accepted"));
        if s.failed() { return; }
    }
    s.check(seen.len() == t * p, || format!("{case}: {} of {} producer partitions are read", seen.len(), t * p));
}
