//! C02: shuffle and broadcast boundaries give each consumer task its own slice.
use super::common::*;
use crate::distributed_planner::ProducerHead;
use crate::*;
use datafusion::arrow::array::{Int64Array, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Field, Schema};
use datafusion::physical_expr::expressions::col;
use datafusion::physical_expr::{EquivalenceProperties, PhysicalExpr};
use datafusion::physical_plan::empty::EmptyExec;
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::{ExecutionPlan, Partitioning, PlanProperties};
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn run(_seed: u64, thorough: bool) -> Search {
    let (mt, mc, mp) = if thorough { (8, 10, 8) } else { (4, 5, 4) };
    let mut s = Search::new(&format!("exhaustive: producer tasks 1..={mt}, consumer tasks 1..={mc}, partitions 1..={mp}, shuffle and broadcast; all outputs executed against recording workers, all heads inserted over 4 kinds of plans; rows followed through shuffle and broadcast producers"));
    block_on(async {
        for t in 1..=mt {
            for c in 1..=mc {
                for p in 1..=mp {
                    slices(&mut s, t, c, p, true).await;
                    slices(&mut s, t, c, p, false).await;
                    if s.failed() { return; }
                }
            }
        }
        for c in 1..=mc {
            for p in 1..=mp {
                for p2 in 1..=mp {
                    heads(&mut s, c, p, p2).await;
                    if s.failed() { return; }
                }
            }
        }
        constructors(&mut s);
    });
    s
}

fn hash_exprs() -> Vec<Arc<dyn PhysicalExpr>> {
    vec![col("task", &read_schema()).unwrap(), col("partition", &read_schema()).unwrap()]
}
fn props(part: Partitioning) -> Arc<PlanProperties> {
    Arc::new(PlanProperties::new(EquivalenceProperties::new(read_schema()), part, EmissionType::Incremental, Boundedness::Bounded))
}

async fn slices(s: &mut Search, t: usize, c: usize, p: usize, shuffle: bool) {
    s.case();
    let case = format!("{} producer tasks={t} consumer tasks={c} partitions={p}", if shuffle { "shuffle" } else { "broadcast" });
    let part = if shuffle { Partitioning::Hash(hash_exprs(), p) } else { Partitioning::UnknownPartitioning(p) };
    let built: Arc<dyn NetworkBoundary> = if shuffle { Arc::new(NetworkShuffleExec::from_stage(remote(t), props(part.clone()))) } else { Arc::new(NetworkBroadcastExec::from_stage(remote(t), props(part.clone()))) };
    // handing the boundary another stage first must not matter
    let node: Arc<dyn NetworkBoundary> = built.with_input_stage(remote(t + 1)).and_then(|n| n.with_input_stage(remote(t))).unwrap();
    let adv = node.properties().partitioning.partition_count();
    s.check(adv == p, || format!("{case}: the boundary advertises {adv} partitions"));
    if shuffle {
        s.check(matches!(&node.properties().partitioning, Partitioning::Hash(e, n) if e.len() == 2 && *n == p), || format!("{case}: the shuffle advertises {}", node.properties().partitioning));
    }
    let want_head = if shuffle { format!("repartition({})", Partitioning::Hash(hash_exprs(), p * c)) } else { format!("broadcast({})", p * c) };
    match node.producer_head(c) {
        Ok(h) => s.check(head_str(&h) == want_head, || format!("{case}: producer head {} instead of {want_head}", head_str(&h))),
        Err(e) => s.fail(format!("{case}: producer head: {e}")),
    }
    let mut seen = BTreeMap::new();
    for i in 0..c {
        let mock = MockResolver::default();
        let ctx = mock_ctx(&mock, i, c);
        let node = node.with_input_stage(remote(t)).unwrap();
        for q in 0..p {
            let st = match no_panic(|| node.execute(q, Arc::clone(&ctx))) {
                Ok(Ok(st)) => st,
                Ok(Err(e)) => { s.fail(format!("{case}: task {i} partition {q}: error {e}")); return; }
                Err(e) => { s.fail(format!("{case}: task {i} partition {q}: panic {e}")); return; }
            };
            let b = match drain(st).await {
                Ok(b) => b,
                Err(e) => { s.fail(format!("{case}: task {i} partition {q}: stream error {e}")); return; }
            };
            let r = reads_of(&b);
            s.check(r.len() == t, || format!("{case}: task {i} partition {q} reads {} producer partitions", r.len()));
            for r in r {
                s.check(r.url == format!("http://w{}:1/", r.task), || format!("{case}: producer task {} asked at {}", r.task, r.url));
                s.check(r.partition == i * p + q, || format!("{case}: task {i} partition {q} reads partition {} of producer task {}", r.partition, r.task));
                s.check(r.lo == i * p && r.hi == i * p + p, || format!("{case}: task {i} announces partitions {}..{}", r.lo, r.hi));
                s.check(r.head == want_head, || format!("{case}: task {i} asks for head {} instead of {want_head}", r.head));
                if let Some(prev) = seen.insert((r.task, r.partition), (i, q)) {
                    s.fail(format!("{case}: producer task {} partition {} read by {prev:?} and by {:?}", r.task, r.partition, (i, q)));
                    return;
                }
            }
        }
        let log = mock.log.lock().unwrap();
        s.check(log.len() == t * p, || format!("{case}: task {i} sent requests for {} partitions instead of {}", log.len(), t * p));
        if s.failed() { return; }
    }
    s.check(seen.len() == t * p * c, || format!("{case}: {} of {} producer partitions are read", seen.len(), t * p * c));
}

fn mem(parts: usize, rows: usize) -> Arc<dyn ExecutionPlan> {
    let schema = Arc::new(Schema::new(vec![Field::new("v", DataType::Int64, false)]));
    let data: Vec<Vec<RecordBatch>> = (0..parts)
        .map(|p| vec![RecordBatch::try_new(Arc::clone(&schema), vec![Arc::new(Int64Array::from_iter_values((0..rows).map(|r| (p * rows + r) as i64)))]).unwrap()])
        .collect();
    datafusion::datasource::memory::MemorySourceConfig::try_new_exec(&data, schema, None).unwrap()
}

async fn heads(s: &mut Search, c: usize, p: usize, p2: usize) {
    s.case();
    let case = format!("consumer tasks={c} boundary partitions={p} input partitions={p2}");
    let v = || vec![col("v", &mem(1, 1).schema()).unwrap()];
    let base = mem(p2, 40);
    let same = |x: &Arc<dyn ExecutionPlan>, y: &Arc<dyn ExecutionPlan>| std::ptr::addr_eq(Arc::as_ptr(x), Arc::as_ptr(y));
    let bodies: Vec<(&str, Arc<dyn ExecutionPlan>)> = vec![
        ("no head", Arc::clone(&base)),
        ("hash head", Arc::new(RepartitionExec::try_new(Arc::clone(&base), Partitioning::Hash(v(), p)).unwrap())),
        ("broadcast head", Arc::new(BroadcastExec::new(Arc::clone(&base), 3))),
        ("round-robin head", Arc::new(RepartitionExec::try_new(Arc::clone(&base), Partitioning::RoundRobinBatch(p)).unwrap())),
    ];
    for (name, body) in bodies {
        // no head: untouched
        match no_panic(|| ProducerHead::None.insert(Arc::clone(&body))) {
            Ok(Ok(r)) => s.check(r.properties().partitioning.partition_count() == body.properties().partitioning.partition_count() && r.name() == body.name(), || format!("{case}, {name}: asking for no head turned {} with {} partitions into {} with {}", body.name(), body.properties().partitioning.partition_count(), r.name(), r.properties().partitioning.partition_count())),
            Ok(Err(e)) => s.fail(format!("{case}, {name}: {e}")),
            Err(e) => s.fail(format!("{case}, {name}: panic {e}")),
        }
        // shuffle
        let want = Partitioning::Hash(v(), p * c);
        match no_panic(|| ProducerHead::RepartitionExec { partitioning: MaybeEncoded::Decoded(want.clone()) }.insert(Arc::clone(&body))) {
            Ok(Ok(r)) => {
                let Some(x) = r.downcast_ref::<RepartitionExec>() else { s.fail(format!("{case}, {name}: head is {}", r.name())); return };
                s.check(x.partitioning().to_string() == want.to_string(), || format!("{case}, {name}: head partitioning {} instead of {want}", x.partitioning()));
                s.check(same(x.input(), &base), || format!("{case}, {name}: the new head is over {} instead of the plan below the old one", x.input().name()));
                // all the rows, once
                let ctx = datafusion::prelude::SessionContext::new().task_ctx();
                let mut got = vec![];
                for q in 0..p * c {
                    match r.execute(q, Arc::clone(&ctx)) {
                        Ok(st) => match drain(st).await {
                            Ok(b) => for b in b { got.extend(b.column(0).as_any().downcast_ref::<Int64Array>().unwrap().values().iter().cloned()); },
                            Err(e) => s.fail(format!("{case}, {name}: {e}")),
                        },
                        Err(e) => s.fail(format!("{case}, {name}: {e}")),
                    }
                }
                got.sort();
                s.check(got == (0..(p2 * 40) as i64).collect::<Vec<_>>(), || format!("{case}, {name}: {} rows of {} through the widened shuffle", got.len(), p2 * 40));
            }
            Ok(Err(e)) => s.fail(format!("{case}, {name}: {e}")),
            Err(e) => s.fail(format!("{case}, {name}: panic {e}")),
        }
        // broadcast: boundary partitions == input partitions
        match no_panic(|| ProducerHead::BroadcastExec { output_partitions: p2 * c }.insert(Arc::clone(&body))) {
            Ok(Ok(r)) => {
                let Some(x) = r.downcast_ref::<BroadcastExec>() else { s.fail(format!("{case}, {name}: head is {}", r.name())); return };
                s.check(x.consumer_task_count() == c, || format!("{case}, {name}: broadcast head has {} copies instead of {c}", x.consumer_task_count()));
                s.check(r.properties().partitioning.partition_count() == p2 * c, || format!("{case}, {name}: broadcast head has {} partitions instead of {}", r.properties().partitioning.partition_count(), p2 * c));
                s.check(same(x.input(), &base), || format!("{case}, {name}: the new head is over {} instead of the plan below the old one", x.input().name()));
            }
            Ok(Err(e)) => s.fail(format!("{case}, {name}: {e}")),
            Err(e) => s.fail(format!("{case}, {name}: panic {e}")),
        }
        let enc = ProducerHead::RepartitionExec { partitioning: MaybeEncoded::Encoded(vec![1, 2]) };
        s.check(enc.insert(Arc::clone(&body)).is_err(), || format!("{case}, {name}: an encoded head was accepted"));
    }
}

fn constructors(s: &mut Search) {
    for p in 1..5usize {
        for t in 1..5usize {
            s.case();
            let base = mem(p, 2);
            let v = vec![col("v", &base.schema()).unwrap()];
            let hash: Arc<dyn ExecutionPlan> = Arc::new(RepartitionExec::try_new(Arc::clone(&base), Partitioning::Hash(v, p)).unwrap());
            let rr: Arc<dyn ExecutionPlan> = Arc::new(RepartitionExec::try_new(Arc::clone(&base), Partitioning::RoundRobinBatch(p)).unwrap());
            let bc: Arc<dyn ExecutionPlan> = Arc::new(BroadcastExec::new(Arc::clone(&base), 2));
            match NetworkShuffleExec::try_new(Arc::clone(&hash), t) {
                Ok(n) => s.check(n.input_stage().task_count() == t && n.properties().partitioning.to_string() == hash.properties().partitioning.to_string(), || format!("shuffle over {t} tasks, {p} partitions: {} tasks, {}", n.input_stage().task_count(), n.properties().partitioning)),
                Err(e) => s.fail(format!("shuffle over a hash repartition refused: {e}")),
            }
            for bad in [&rr, &bc, &base] {
                s.check(NetworkShuffleExec::try_new(Arc::clone(bad), t).is_err(), || format!("shuffle over {} accepted", bad.name()));
            }
            match NetworkBroadcastExec::try_new(Arc::clone(&bc), t) {
                Ok(n) => s.check(n.input_stage().task_count() == t && n.properties().partitioning.partition_count() == 2 * p, || format!("broadcast over {t} tasks: {} tasks, {}", n.input_stage().task_count(), n.properties().partitioning)),
                Err(e) => s.fail(format!("broadcast over a BroadcastExec refused: {e}")),
            }
            for bad in [&rr, &hash, &base] {
                s.check(NetworkBroadcastExec::try_new(Arc::clone(bad), t).is_err(), || format!("broadcast over {} accepted", bad.name()));
            }
            let _ = EmptyExec::new(read_schema());
        }
    }
}
