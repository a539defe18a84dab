//! C09: pushing a row limit below a network boundary never loses rows.
use super::common::*;
use super::plans::show;
use crate::distributed_planner::push_fetch_into_network_coalesce::push_fetch_into_network_coalesce;
use crate::*;
use datafusion::arrow::array::{Array, Int64Array, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::catalog::memory::MemorySourceConfig;
use datafusion::common::tree_node::{Transformed, TreeNode};
use datafusion::execution::TaskContext;
use datafusion::logical_expr::Operator;
use datafusion::physical_expr::expressions::{binary, col, lit};
use datafusion::physical_expr::{LexOrdering, PhysicalSortExpr};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::filter::FilterExec;
use datafusion::physical_plan::limit::{GlobalLimitExec, LocalLimitExec};
use datafusion::physical_plan::projection::{ProjectionExec, ProjectionExpr};
use datafusion::physical_plan::sorts::sort::SortExec;
use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
use datafusion::physical_plan::union::UnionExec;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use futures::StreamExt;
use std::sync::Arc;

type P = Arc<dyn ExecutionPlan>;
fn schema() -> SchemaRef { Arc::new(Schema::new(vec![Field::new("x", DataType::Int64, false)])) }
fn order(p: &P) -> LexOrdering { LexOrdering::new(vec![PhysicalSortExpr::new_default(col("x", &p.schema()).unwrap())]).unwrap() }
const BIG: [usize; 3] = [usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1];
fn limit(r: &mut Rng) -> usize { if r.chance(1, 6) { *r.pick(&BIG) } else { r.below(9) as usize } }

/// sorted rows, every value once
fn leaf(r: &mut Rng) -> P {
    let parts = r.range(1, 3) as usize;
    let mut data: Vec<Vec<i64>> = vec![vec![]; parts];
    for v in 0..r.below(24) as i64 { let p = r.below(parts as u64) as usize; data[p].push(v); }
    let parts: Vec<Vec<RecordBatch>> = data.into_iter().map(|p| p.chunks(2).map(|c| RecordBatch::try_new(schema(), vec![Arc::new(Int64Array::from(c.to_vec()))]).unwrap()).collect()).collect();
    MemorySourceConfig::try_new_exec(&parts, schema(), None).unwrap()
}
/// what may be produced varies from run to run: only the number of rows is compared
fn grow(r: &mut Rng, mut p: P, n: usize, loose: &mut bool, top_of_stage: bool) -> P {
    for _ in 0..n {
        let parts = p.output_partitioning().partition_count();
        p = match r.below(9) {
            0 => Arc::new(LocalLimitExec::new(p, limit(r))),
            1 => {
                if parts > 1 { *loose = true; }
                let f = if r.chance(1, 3) { None } else { Some(limit(r)) };
                Arc::new(CoalescePartitionsExec::new(p).with_fetch(f))
            }
            2 => { let o = order(&p); let f = if r.chance(1, 3) { None } else { Some(limit(r)) }; Arc::new(SortPreservingMergeExec::new(o, p).with_fetch(f)) }
            3 | 4 => {
                let p: P = if parts > 1 { let o = order(&p); Arc::new(SortPreservingMergeExec::new(o, p)) } else { p };
                let f = if r.chance(1, 4) { None } else { Some(limit(r)) };
                Arc::new(GlobalLimitExec::new(p, if r.chance(1, 2) { 0 } else { limit(r) }, f))
            }
            5 => { let e = col("x", &p.schema()).unwrap(); Arc::new(ProjectionExec::try_new(vec![ProjectionExpr { expr: e, alias: "x".into() }], p).unwrap()) }
            6 if !*loose => { let o = order(&p); let f = if r.chance(1, 4) { None } else { Some(r.range(1, 8) as usize) }; Arc::new(SortExec::new(o, p).with_fetch(f).with_preserve_partitioning(r.chance(1, 2) || top_of_stage)) }
            7 if !*loose => {
                let s = p.schema();
                let m = binary(col("x", &s).unwrap(), Operator::Modulo, lit(2i64), &s).unwrap();
                let e = binary(m, Operator::Eq, lit(r.below(2) as i64), &s).unwrap();
                { let f = FilterExec::try_new(e, p).unwrap(); f.with_fetch(if r.chance(1, 2) { None } else { Some(r.range(1, 6) as usize) }).unwrap() }
            }
            8 if parts == 1 => UnionExec::try_new(vec![leaf(r), p]).unwrap(),
            _ => p,
        };
    }
    p
}
fn leaf_sorted(r: &mut Rng) -> P { leaf(r) }
fn boundary(p: P) -> P { Arc::new(NetworkCoalesceExec::try_new(p, 1, 1).unwrap()) }
/// every boundary replaced by the plan behind it
fn flat(p: &P) -> P {
    Arc::clone(p).transform_up(|n| Ok(match n.downcast_ref::<NetworkCoalesceExec>() { Some(_) => { let k = Arc::clone(n.children()[0]); Transformed::yes(k) } None => Transformed::no(n) })).unwrap().data
}
async fn rows(p: &P) -> Result<Vec<Vec<i64>>, String> {
    let mut out = vec![];
    for i in 0..p.output_partitioning().partition_count() {
        let mut s = p.execute(i, Arc::new(TaskContext::default())).map_err(|e| e.to_string())?;
        let mut v = vec![];
        while let Some(b) = s.next().await { v.extend(b.map_err(|e| e.to_string())?.column(0).as_any().downcast_ref::<Int64Array>().unwrap().values().iter().copied()); }
        out.push(v);
    }
    Ok(out)
}

/// the same plan for the same generator state (nodes keep state between executions, so none is executed twice)
fn plan(r: &mut Rng) -> (P, bool) {
    let mut loose = false;
    let k = r.below(3) as usize;
    let l = leaf(r);
    let mut p = boundary(grow(r, l, k, &mut loose, true));
    if r.chance(1, 3) { let k = r.below(3) as usize; p = boundary(grow(r, p, k, &mut loose, true)); }
    let k = r.range(1, 3) as usize;
    let p = grow(r, p, k, &mut loose, false);
    (p, loose)
}
pub fn run(seed: u64, thorough: bool) -> Search {
    let n = if thorough { 40000 } else { 4000 };
    let mut s = Search::new(&format!("{n} random plans: up to 3 operators (limits, offsets, gathers, merges, top-k sorts, filters, projections, unions; limits up to usize::MAX) over a boundary over up to 2 operators, one boundary or two"));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let mut again = r.clone();
        let (p, loose) = plan(&mut r);
        let (p0, _) = plan(&mut again);
        s.case();
        let q = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| push_fetch_into_network_coalesce(Arc::clone(&p)))) {
            Ok(Ok(q)) => q,
            Ok(Err(e)) => { s.fail(format!("push-down failed on {}: {e}", show(&p))); return s; }
            Err(_) => { s.fail(format!("push-down panicked on {} ({})", show(&p), LAST_PANIC.lock().unwrap())); return s; }
        };
        let (a, b) = (flat(&p0), flat(&q));
        let f = std::panic::AssertUnwindSafe(|| rt.block_on(async { (rows(&a).await, rows(&b).await) }));
        let Ok((x, y)) = std::panic::catch_unwind(f) else { s.fail(format!("execution panicked at {}: {} rewritten to {}", LAST_PANIC.lock().unwrap(), show(&p), show(&q))); return s; };
        let same = match (&x, &y) {
            (Ok(x), Ok(y)) if loose => x.iter().map(|v| v.len()).collect::<Vec<_>>() == y.iter().map(|v| v.len()).collect::<Vec<_>>(),
            (Ok(x), Ok(y)) => x == y,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same { s.fail(format!("{} gives {x:?}; after the push-down, {} gives {y:?}", show(&p), show(&q))); return s; }
    }
    s
}
