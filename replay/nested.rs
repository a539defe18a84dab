//! Stages of nested unions and leaves, cut into tasks by the coordinator (C06, C11).
use super::common::*;
use super::plans::*;
use crate::coordinator::query_coordinator::vp_inject::plan_of_task;
use crate::execution_plans::{ChildWeight, ChildrenIsolatorUnionExec, DistributedLeafExec};
use crate::*;
use datafusion::arrow::array::AsArray;
use datafusion::arrow::datatypes::Int64Type;
use datafusion::execution::TaskContext;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use datafusion::prelude::SessionConfig;
use std::collections::BTreeMap;
use std::sync::Arc;
type P = Arc<dyn ExecutionPlan>;
/// leaf * 100 + variant, partition, its task, its tasks
type Row = (i64, i64, i64, i64);
fn tag(id: usize, parts: usize) -> P { Arc::new(Tag::new(id, parts, None, None)) }
fn tree(r: &mut Rng, depth: usize, tasks: usize, leaves: &mut usize, want: &mut BTreeMap<Row, usize>) -> P {
    if depth > 0 && r.chance(2, 3) {
        let n = r.range(1, 3) as usize;
        let w: Vec<ChildWeight> = (0..n).map(|_| match r.below(3) { 0 => ChildWeight::maximum(r.range(1, 3) as usize), _ => ChildWeight::desired(r.range(1, 5) as f64) }).collect();
        let u = Arc::new(ChildrenIsolatorUnionExec::from_children_and_weights((0..n).map(|_| tag(0, 1)).collect::<Vec<_>>(), w, tasks).unwrap());
        let kids = u.child_task_counts().into_iter().map(|c| tree(r, depth - 1, c, leaves, want)).collect();
        return u.with_new_children(kids).unwrap();
    }
    let (id, parts) = (*leaves, r.range(1, 3) as usize);
    *leaves += 1;
    for v in 0..tasks { for p in 0..parts { want.insert(((id * 100 + v) as i64, p as i64, v as i64, tasks as i64), 1); } }
    let leaf: P = if tasks == 1 { tag(id * 100, parts) } else { Arc::new(DistributedLeafExec::try_new(tag(9999, parts), (0..tasks).map(|v| tag(id * 100 + v, parts))).unwrap()) };
    if r.chance(1, 3) { Arc::new(Tag::new(9998, parts, None, Some(leaf))) } else { leaf }
}
fn rows(n: &P, t: usize, tasks: usize) -> Result<Vec<Row>, String> {
    let ctx = Arc::new(TaskContext::default().with_session_config(SessionConfig::new().with_extension(Arc::new(DistributedTaskContext { task_index: t, task_count: tasks }))));
    let mut out = vec![];
    for q in 0..n.output_partitioning().partition_count() {
        let st = no_panic(|| n.execute(q, Arc::clone(&ctx)))?.map_err(|e| format!("partition {q}: {e}"))?;
        for b in futures::executor::block_on(drain(st)).map_err(|e| format!("partition {q}: {e}"))? {
            let c: Vec<_> = (0..4).map(|i| b.column(i).as_primitive::<Int64Type>().clone()).collect();
            for r in 0..b.num_rows() { out.push((c[0].value(r), c[1].value(r), c[2].value(r), c[3].value(r))); }
        }
    }
    Ok(out)
}
/// every variant of every leaf is run once, by the tasks the coordinator prepares
pub fn nested_case(r: &mut Rng) -> Result<(), String> {
    let tasks = r.range(1, 7) as usize;
    let (mut leaves, mut want) = (1, BTreeMap::new());
    let plan = tree(r, 3, tasks, &mut leaves, &mut want);
    let ctx = Arc::new(TaskContext::default());
    let case = || format!("a stage of {tasks} tasks: {}", show(&plan));
    let mut got: BTreeMap<Row, usize> = BTreeMap::new();
    for t in 0..tasks {
        let sent = no_panic(|| plan_of_task(&plan, t, tasks, &ctx)).map_err(|e| format!("{}: task {t}: panic {e}", case()))?.map_err(|e| format!("{}: task {t}: {e}", case()))?;
        let width = sent.output_partitioning().partition_count();
        if width != plan.output_partitioning().partition_count() { return Err(format!("{}: task {t} has {width} partitions", case())); }
        for x in rows(&sent, t, tasks).map_err(|e| format!("{}: task {t}, sent {}: {e}", case(), show(&sent)))? { *got.entry(x).or_default() += 1; }
    }
    if got != want {
        let x = got.iter().find(|(k, v)| want.get(k) != Some(v)).map(|(k, v)| format!("{k:?} run {v} times")).or_else(|| want.keys().find(|k| !got.contains_key(k)).map(|k| format!("{k:?} never run")));
        return Err(format!("{}: (leaf and variant, partition, task, tasks) {}", case(), x.unwrap_or_default()));
    }
    Ok(())
}
