//! Random physical plans over tagged nodes.
#![allow(dead_code)]
use super::common::*;
use crate::execution_plans::{BroadcastExec, ChildrenIsolatorUnionExec};
use crate::*;
use datafusion::arrow::array::{Int64Array, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{JoinType, NullEquality, Result};
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::expressions::Column;
use datafusion::physical_expr::{EquivalenceProperties, LexOrdering, PhysicalSortExpr};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::joins::{CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::sorts::sort::SortExec;
use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, Partitioning, PhysicalExpr, PlanProperties};
use std::sync::Arc;

pub fn tag_schema() -> SchemaRef {
    Arc::new(Schema::new(["id", "part", "task", "tasks"].iter().map(|n| Field::new(*n, DataType::Int64, false)).collect::<Vec<_>>()))
}
/// A leaf or a pass-through node with an identity, which may want a number of tasks.
#[derive(Debug, Clone)]
pub struct Tag {
    pub id: usize,
    pub wish: Option<TaskCountAnnotation>,
    /// the count it was scaled to, by the test's handler
    pub scaled: Option<usize>,
    pub parts: usize,
    pub input: Option<Arc<dyn ExecutionPlan>>,
    pub props: Arc<PlanProperties>,
}
impl Tag {
    pub fn new(id: usize, parts: usize, wish: Option<TaskCountAnnotation>, input: Option<Arc<dyn ExecutionPlan>>) -> Self {
        let schema = input.as_ref().map(|i| i.schema()).unwrap_or_else(tag_schema);
        let n = input.as_ref().map(|i| i.output_partitioning().partition_count()).unwrap_or(parts);
        Tag { id, wish, scaled: None, parts: n, input, props: Arc::new(PlanProperties::new(EquivalenceProperties::new(schema), Partitioning::UnknownPartitioning(n), EmissionType::Incremental, Boundedness::Bounded)) }
    }
    pub fn scaled(&self, n: usize) -> Self { Tag { scaled: Some(n), ..self.clone() } }
}
pub fn show_tca(a: &Option<TaskCountAnnotation>) -> String {
    match a { None => "-".into(), Some(TaskCountAnnotation::Desired(n)) => format!("desired {n}"), Some(TaskCountAnnotation::Maximum(n)) => format!("maximum {n}") }
}
impl DisplayAs for Tag {
    fn fmt_as(&self, _t: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Tag {} (wish {}, scaled {:?}, {} partitions)", self.id, show_tca(&self.wish), self.scaled, self.parts)
    }
}
impl ExecutionPlan for Tag {
    fn name(&self) -> &str { "Tag" }
    fn properties(&self) -> &Arc<PlanProperties> { &self.props }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { self.input.iter().collect() }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        assert_eq!(c.len(), self.children().len());
        if c.is_empty() { return Ok(self); }
        let mut t = Tag::new(self.id, self.parts, self.wish, c.into_iter().next());
        t.scaled = self.scaled;
        Ok(Arc::new(t))
    }
    fn execute(&self, p: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        if let Some(i) = &self.input { return i.execute(p, c); }
        let d = DistributedTaskContext::from_ctx(&c);
        let col = |v: usize| Arc::new(Int64Array::from(vec![v as i64])) as _;
        let b = RecordBatch::try_new(tag_schema(), vec![col(self.id), col(p), col(d.task_index), col(d.task_count)])?;
        Ok(Box::pin(RecordBatchStreamAdapter::new(tag_schema(), futures::stream::iter(vec![Ok(b)]))))
    }
}
pub fn show(p: &Arc<dyn ExecutionPlan>) -> String { datafusion::physical_plan::displayable(p.as_ref()).indent(true).to_string().replace('\n', "; ") }
pub fn col(p: &Arc<dyn ExecutionPlan>) -> Arc<dyn PhysicalExpr> { Arc::new(Column::new(p.schema().field(0).name(), 0)) }
pub const JOINS: [JoinType; 10] = [JoinType::Inner, JoinType::Left, JoinType::Right, JoinType::Full, JoinType::LeftSemi, JoinType::RightSemi, JoinType::LeftAnti, JoinType::RightAnti, JoinType::LeftMark, JoinType::RightMark];

/// What a random plan may contain.
#[derive(Clone, Copy)]
pub struct Shape { pub joins: bool, pub unions: bool, pub broadcast: bool, pub shuffles: bool, pub wishes: bool, pub big: bool }
impl Shape { pub const ALL: Shape = Shape { joins: true, unions: true, broadcast: true, shuffles: true, wishes: true, big: false }; }
pub struct Gen<'a> { pub r: &'a mut Rng, pub next: usize, pub shape: Shape }
impl Gen<'_> {
    fn id(&mut self) -> usize { self.next += 1; self.next }
    pub fn wish(&mut self) -> Option<TaskCountAnnotation> {
        if !self.shape.wishes { return None; }
        let n = if self.shape.big && self.r.chance(1, 12) { 1000 } else { self.r.below(6) as usize };
        match self.r.below(4) { 0 => None, 1 => Some(TaskCountAnnotation::Maximum(n)), _ => Some(TaskCountAnnotation::Desired(n)) }
    }
    pub fn leaf(&mut self) -> Arc<dyn ExecutionPlan> {
        let (id, n, w) = (self.id(), self.r.range(1, 3) as usize, self.wish());
        Arc::new(Tag::new(id, n, w, None))
    }
    pub fn plan(&mut self, depth: u32) -> Arc<dyn ExecutionPlan> {
        if depth == 0 || self.r.chance(1, 8) { return self.leaf(); }
        let a = self.plan(depth - 1);
        match self.r.below(12) {
            0 | 1 => Arc::new(CoalescePartitionsExec::new(a)),
            2 => {
                let e = LexOrdering::new(vec![PhysicalSortExpr::new_default(col(&a))]).unwrap();
                let s = Arc::new(SortExec::new(e.clone(), a).with_preserve_partitioning(true));
                if self.r.chance(1, 2) { Arc::new(SortPreservingMergeExec::new(e, s)) } else { s }
            }
            3 | 4 if self.shape.shuffles => { let n = self.r.range(1, 4) as usize; let e = col(&a); Arc::new(RepartitionExec::try_new(a, Partitioning::Hash(vec![e], n)).unwrap()) }
            5 => { let n = self.r.range(1, 4) as usize; Arc::new(RepartitionExec::try_new(a, Partitioning::RoundRobinBatch(n)).unwrap()) }
            6 if self.shape.broadcast => Arc::new(BroadcastExec::new(a, 1)),
            7 | 8 if self.shape.unions => {
                let n = self.r.range(1, 3);
                let mut c = vec![a];
                for _ in 1..n { c.push(self.plan(depth - 1)); }
                let s = c[0].schema();
                if c.iter().any(|x| x.schema() != s) { return c.into_iter().next().unwrap(); }
                Arc::new(ChildrenIsolatorUnionExec::new_single_task(c).unwrap())
            }
            9 | 10 if self.shape.joins => {
                let b = self.plan(depth - 1);
                let mut t = *self.r.pick(&JOINS);
                match self.r.below(4) {
                    0 => Arc::new(CrossJoinExec::new(a, b)),
                    1 => Arc::new(NestedLoopJoinExec::try_new(a, b, None, &t, None).unwrap()),
                    _ => {
                        let mode = *self.r.pick(&[PartitionMode::CollectLeft, PartitionMode::Partitioned]);
                        let na = self.r.chance(1, 6) && mode == PartitionMode::CollectLeft;
                        if na { t = JoinType::LeftAnti; }
                        let on = vec![(col(&a), col(&b))];
                        Arc::new(HashJoinExec::try_new(a, b, on, None, &t, None, mode, NullEquality::NullEqualsNothing, na).unwrap())
                    }
                }
            }
            _ => { let (id, w) = (self.id(), self.wish()); Arc::new(Tag::new(id, 1, w, Some(a))) }
        }
    }
}

/// Answers `Tag`s' wishes and scales `Tag` leaves.
pub struct TagWishes;
#[async_trait::async_trait]
impl DesiredTaskCountHandler for TagWishes {
    async fn handle(&self, ev: DesiredTaskCountEvent<'_>) -> Option<Result<DesiredTaskCountEventResponse>> {
        let t = ev.plan.downcast_ref::<Tag>()?;
        Some(Ok(DesiredTaskCountEventResponse { task_count: t.wish? }))
    }
}
pub struct Workers(pub usize);
impl WorkerResolver for Workers { fn get_urls(&self) -> Result<Vec<url::Url>> { Ok(urls(self.0)) } }
pub fn tag_session(workers: usize, max: usize, broadcast: bool) -> datafusion::prelude::SessionConfig {
    let mut c = datafusion::prelude::SessionConfig::new();
    c.set_distributed_worker_resolver(Workers(workers));
    c.set_distributed_desired_task_count_handler(TagWishes);
    c.set_distributed_scale_up_leaf_node_handler(|ev: ScaleUpLeafNodeEvent| {
        let t = ev.plan.downcast_ref::<Tag>()?;
        Some(Ok(ScaleUpLeafNodeEventResponse::new(Arc::new(t.scaled(ev.task_count)))))
    });
    c.set_distributed_max_tasks_per_stage(max).unwrap();
    c.set_distributed_broadcast_joins(broadcast).unwrap();
    c
}
