//! C19: planning arithmetic never fails and yields usable estimates.
use super::common::*;
use super::scripted::{vschema, Scripted};
use crate::coordinator::prepare_dynamic_plan::vp_inject::gather;
use crate::distributed_planner::calculate_cost;
use crate::distributed_planner::statistics::complexity::vp_inject as complexity;
use crate::execution_plans::SamplerExec;
use crate::*;
use complexity::SIZES;
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::common::stats::Precision;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{ColumnStatistics, JoinType, NullEquality, Result, Statistics};
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::logical_expr::Operator;
use datafusion::physical_expr::expressions::{BinaryExpr, Column, Literal};
use datafusion::physical_expr::{EquivalenceProperties, LexOrdering, PhysicalSortExpr};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::filter::FilterExec;
use datafusion::physical_plan::joins::{CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::sorts::sort::SortExec;
use datafusion::physical_plan::union::UnionExec;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, Partitioning, PhysicalExpr, PlanProperties, StatisticsArgs};
use std::sync::Arc;

#[derive(Debug)]
struct Leaf { stats: Arc<Statistics>, schema: SchemaRef, props: Arc<PlanProperties> }
fn leaf(rows: Precision<usize>, bytes: Precision<usize>, cols: Vec<Precision<usize>>, ty: DataType) -> Arc<dyn ExecutionPlan> {
    let schema = Arc::new(Schema::new(cols.iter().enumerate().map(|(i, _)| Field::new(format!("c{i}"), ty.clone(), true)).collect::<Vec<_>>()));
    let stats = Statistics { num_rows: rows, total_byte_size: bytes, column_statistics: cols.iter().map(|c| ColumnStatistics { byte_size: *c, ..ColumnStatistics::new_unknown() }).collect() };
    let props = PlanProperties::new(EquivalenceProperties::new(Arc::clone(&schema)), Partitioning::UnknownPartitioning(3), EmissionType::Incremental, Boundedness::Bounded);
    Arc::new(Leaf { stats: Arc::new(stats), schema, props: Arc::new(props) })
}
impl DisplayAs for Leaf { fn fmt_as(&self, _t: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Leaf") } }
impl ExecutionPlan for Leaf {
    fn name(&self) -> &str { "Leaf" }
    fn properties(&self) -> &Arc<PlanProperties> { &self.props }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn schema(&self) -> SchemaRef { Arc::clone(&self.schema) }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn execute(&self, _p: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { unimplemented!() }
    fn statistics_from_inputs(&self, _i: &[Arc<Statistics>], _a: &StatisticsArgs) -> Result<Arc<Statistics>> { Ok(Arc::clone(&self.stats)) }
}
fn prec(r: &mut Rng) -> Precision<usize> {
    match r.below(4) { 0 => Precision::Absent, 1 => Precision::Exact(*r.pick(&SIZES)), _ => Precision::Inexact(*r.pick(&SIZES)) }
}
fn plan(r: &mut Rng, depth: u32) -> Arc<dyn ExecutionPlan> {
    if depth == 0 || r.chance(1, 6) {
        let n = r.range(1, 3);
        let tys = [DataType::Int64, DataType::Utf8, DataType::Decimal256(10, 2), DataType::Boolean];
        let ty = r.pick(&tys).clone();
        return leaf(prec(r), prec(r), (0..n).map(|_| prec(r)).collect(), ty);
    }
    let a = plan(r, depth - 1);
    let col = |p: &Arc<dyn ExecutionPlan>| Arc::new(Column::new(p.schema().field(0).name(), 0)) as Arc<dyn PhysicalExpr>;
    match r.below(8) {
        0 => Arc::new(CoalescePartitionsExec::new(a)),
        1 => {
            let e = LexOrdering::new(vec![PhysicalSortExpr::new_default(col(&a))]).unwrap();
            let f = *r.pick(&[None, Some(10)]);
            Arc::new(SortExec::new(e, a).with_fetch(f))
        }
        2 => Arc::new(RepartitionExec::try_new(Arc::clone(&a), Partitioning::Hash(vec![col(&a)], 4)).unwrap()),
        3 => {
            let p = Arc::new(BinaryExpr::new(col(&a), Operator::Eq, col(&a)));
            Arc::new(FilterExec::try_new(p, a).unwrap())
        }
        4 => { let b = plan(r, depth - 1); Arc::new(CrossJoinExec::new(a, b)) }
        5 => { let b = plan(r, depth - 1); Arc::new(NestedLoopJoinExec::try_new(a, b, None, &JoinType::Inner, None).unwrap()) }
        6 => {
            let b = plan(r, depth - 1);
            if a.schema().field(0).data_type() != b.schema().field(0).data_type() { return Arc::new(CrossJoinExec::new(a, b)); }
            let on = vec![(col(&a), col(&b))];
            Arc::new(HashJoinExec::try_new(a, b, on, None, &JoinType::Inner, None, PartitionMode::CollectLeft, NullEquality::NullEqualsNothing, false).unwrap())
        }
        _ => UnionExec::try_new(vec![Arc::clone(&a), a]).unwrap(),
    }
}
/// a panic raised in this crate (a dependency's own panics are not its subject)
fn ours() -> bool { let l = LAST_PANIC.lock().unwrap(); !l.contains("/registry/") && !l.contains("/rustc/") && !l.contains("/library/") }

pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 60000 } else { 6000 };
    let mut s = Search::new(&format!("{rounds} random cost formulas of depth 4 with pairs of statistics, one at least as large as the other, from {{0, 1, .., 2^63, 2^64-1, absent}}; {rounds} random plans of depth 3 over leaves with such statistics; {rounds} random sampling reports of 1..=4 tasks"));
    let mut r = Rng::new(seed);
    complexity::check(&mut s, &mut r, rounds);
    if s.failed() { return s; }
    for _ in 0..rounds {
        s.case();
        let p = plan(&mut r, 3);
        match no_panic(|| calculate_cost(&p)) {
            Err(e) => if ours() || e.contains("overflow") && !LAST_PANIC.lock().unwrap().contains("/registry/") {
                s.fail(format!("cost of {}panics at {}: {e}", datafusion::physical_plan::displayable(p.as_ref()).indent(true).to_string().replace('\n', "; "), LAST_PANIC.lock().unwrap()));
            },
            Ok(Err(_)) => {}
            Ok(Ok(c)) => {
                // the cost of a plan is not below that of its parts
                for ch in p.children() {
                    if let Ok(Ok(cc)) = no_panic(|| calculate_cost(ch)) {
                        for (name, a, b) in [("cpu", c.cpu, cc.cpu), ("memory", c.memory, cc.memory), ("network", c.network, cc.network)] {
                            let (a, b) = (a.get_value().copied().unwrap_or(0), b.get_value().copied().unwrap_or(0));
                            s.check(a >= b, || format!("{name} cost {a} of {} is below that of its input, {b}", datafusion::physical_plan::displayable(p.as_ref()).indent(true).to_string().replace('\n', "; ")));
                        }
                    }
                }
            }
        }
        if s.failed() { return s; }
    }
    block_on(async {
        for _ in 0..rounds {
            s.case();
            sampled(&mut s, &mut r).await;
            if s.failed() { return; }
        }
    });
    let _ = (vschema, Scripted::new, Literal::new as fn(_) -> _);
    s
}

/// statistics extrapolated from what samplers report
async fn sampled(s: &mut Search, r: &mut Rng) {
    let n_cols = r.range(1, 2) as usize;
    let n_leaves = r.range(1, 3);
    let rows: Vec<Precision<usize>> = (0..n_leaves).map(|_| prec(r)).collect();
    let mut leaves: Vec<Arc<dyn ExecutionPlan>> = rows.iter().map(|rows| leaf(*rows, Precision::Absent, vec![Precision::Absent; n_cols], DataType::Int64)).collect();
    let input = if leaves.len() == 1 { leaves.remove(0) } else { UnionExec::try_new(leaves).unwrap() };
    let parts = 3 * n_leaves;
    let p: Arc<dyn ExecutionPlan> = Arc::new(SamplerExec::new(input));
    let tasks = r.range(1, 4) as usize;
    // what a sampler can report: an amount of data that fits in a machine
    let amounts = [0usize, 1, 5, 1000, 1 << 20, 1 << 40];
    let infos: Vec<Vec<LoadInfo>> = (0..tasks)
        .map(|_| {
            (0..r.below(parts + 1))
                .map(|k| {
                    let rows_ready = *r.pick(&amounts);
                    LoadInfo {
                        partition: k as usize,
                        rows_ready,
                        per_column_bytes_ready: (0..n_cols).map(|_| if rows_ready == 0 { 0 } else { *r.pick(&amounts) }).collect(),
                        per_column_ndv_percentage: (0..n_cols).map(|_| *r.pick(&[0., 0.5, 1.])).collect(),
                        per_column_null_percentage: (0..n_cols).map(|_| *r.pick(&[0., 0.5, 1.])).collect(),
                        rows_pulled_from_leaf: *r.pick(&amounts),
                        reached_eos: r.chance(1, 3),
                    }
                })
                .collect()
        })
        .collect();
    let shown = format!("leaf rows {rows:?}, reports (rows, bytes per column, rows pulled from leaf, end of stream) {:?}", infos.iter().map(|t| t.iter().map(|i| (i.rows_ready, i.per_column_bytes_ready.clone(), i.rows_pulled_from_leaf, i.reached_eos)).collect::<Vec<_>>()).collect::<Vec<_>>()).chars().take(1500).collect::<String>();
    let fut = std::panic::AssertUnwindSafe(gather(infos, &p));
    match futures::FutureExt::catch_unwind(fut).await {
        Err(_) => s.fail(format!("{shown}: extrapolating the reports panics at {}", LAST_PANIC.lock().unwrap())),
        Ok(Err(e)) => s.fail(format!("{shown}: {e}")),
        Ok(Ok(st)) => {
            s.check(st.column_statistics.len() == n_cols, || format!("{shown}: {} columns", st.column_statistics.len()));
        }
    }
}
