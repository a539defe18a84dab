//@include lib/base.rs
//@include lib/net.rs
//@strip crate::stage crate::worker crate::execution_plans::common crate::distributed_planner futures::stream
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@arcclone
verus! {
// ------------------------------------------------------------------ dependencies
pub uninterp spec fn kids(p: PlanRef) -> Seq<PlanRef>;
/// same operator, perhaps over other children
pub uninterp spec fn same_op(a: PlanRef, b: PlanRef) -> bool;
pub uninterp spec fn height(p: PlanRef) -> nat;
#[verifier::external_body] pub struct LexOrdering { _x: u8 }
impl Clone for LexOrdering { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the order in which an operator says its partitions' rows are
pub uninterp spec fn order_of(p: PlanRef) -> Option<LexOrdering>;
pub struct RepartitionExec { pub input: PlanRef, pub partitioning: Partitioning }
pub uninterp spec fn repartition_of(p: PlanRef) -> Option<RepartitionExec>;
impl Node for RepartitionExec { open spec fn of(p: PlanRef) -> Option<Self> { repartition_of(p) } }
impl RepartitionExec {
    pub fn input(&self) -> (r: &PlanRef) ensures *r == self.input { &self.input }
    pub fn partitioning(&self) -> (r: &Partitioning) ensures *r == self.partitioning { &self.partitioning }
}
pub struct SortExec { pub expr: LexOrdering, pub input: PlanRef, pub preserve_partitioning: bool, pub fetch: Option<usize> }
pub uninterp spec fn sort_of(p: PlanRef) -> Option<SortExec>;
impl Node for SortExec { open spec fn of(p: PlanRef) -> Option<Self> { sort_of(p) } }
impl SortExec {
    pub fn new(expr: LexOrdering, input: PlanRef) -> (r: Self) ensures r == (SortExec { expr, input, preserve_partitioning: false, fetch: None }) { SortExec { expr, input, preserve_partitioning: false, fetch: None } }
    pub fn with_preserve_partitioning(self, b: bool) -> (r: Self) ensures r == (SortExec { preserve_partitioning: b, ..self }) { SortExec { preserve_partitioning: b, ..self } }
}
#[verifier::external_body] pub fn plan_of<T: Node>(x: T) -> (r: PlanRef) ensures T::of(r) == Some(x) { unimplemented!() }
impl PlanRef {
    #[verifier::external_body] pub fn output_ordering(&self) -> (r: Option<&LexOrdering>) ensures match order_of(*self) { Some(o) => r is Some && *r->Some_0 == o, None => r is None } { unimplemented!() }
    /// DataFusion's bottom-up rewrite, for a function that neither jumps nor stops
    #[verifier::external_body] pub fn transform_up<F: Fn(PlanRef) -> Result<Transformed>>(self, f: F) -> (r: Result<Transformed>)
        requires forall|p: PlanRef| f.requires((p,)),
        ensures r is Ok ==> forall|step: spec_fn(PlanRef, PlanRef) -> bool| (forall|a: PlanRef, t: Transformed| #[trigger] f.ensures((a,), Ok(t)) ==> step(a, t.data)) ==> #[trigger] bottom_up(step, self, r->Ok_0.data) { unimplemented!() }
}
pub struct Transformed { pub data: PlanRef, pub transformed: bool }
impl Transformed {
    pub fn yes(data: PlanRef) -> (r: Self) ensures r.data == data, r.transformed { Transformed { data, transformed: true } }
    pub fn no(data: PlanRef) -> (r: Self) ensures r.data == data, !r.transformed { Transformed { data, transformed: false } }
}
/// `b` is `a` rewritten from the leaves up, each node (over its rewritten children) by `step`
pub open spec fn bottom_up(step: spec_fn(PlanRef, PlanRef) -> bool, a: PlanRef, b: PlanRef) -> bool
    decreases height(a)
{
    exists|m: PlanRef| #[trigger] same_op(a, m) && kids(m).len() == kids(a).len() && step(m, b)
        && forall|i: int| 0 <= i < kids(a).len() ==> height(#[trigger] kids(a)[i]) < height(a) && bottom_up(step, kids(a)[i], kids(m)[i])
}
impl Stage {
//@fn src/stage.rs Stage::task_count
//@ spec: ensures r == self.tc(),
//@end
}
// ------------------------------------------------------------------ what a boundary may say about order
/// the partitions of a node are read from several producer tasks at once: nothing is left of the producers' order
pub open spec fn mixes(p: PlanProperties) -> bool { !p.eq_properties.ordered() && !p.eq_properties.const_per_partition() }
/// a shuffle of rows in some order is sorted again above; nothing else changes
pub open spec fn restores(p: PlanRef, q: PlanRef) -> bool {
    if repartition_of(p) is Some && repartition_of(p)->0.partitioning is Hash && order_of(p) is Some {
        sort_of(q) == Some(SortExec { expr: order_of(p)->0, input: p, preserve_partitioning: true, fetch: None })
    } else { q == p }
}
pub open spec fn restore_fn() -> spec_fn(PlanRef, PlanRef) -> bool { |p: PlanRef, q: PlanRef| restores(p, q) }

// ------------------------------------------------------------------ the code
//@fn src/execution_plans/common.rs scale_partitioning
//@ args: partitioning f
//@ spec: requires !(partitioning is Range) ==> f.requires((partitioning.pc(),)),
//@     ensures r is Ok ==> r->Ok_0.same_kind(*partitioning),
//@end
//@fn src/execution_plans/common.rs scale_partitioning_props
//@ args: props f
//@ spec: requires !(props.partitioning is Range) ==> f.requires((props.partitioning.pc(),)),
//@     ensures r is Ok ==> r->Ok_0.eq_properties == props.eq_properties,
//@end
pub struct NetworkShuffleExec { pub properties: Arc<PlanProperties>, pub input_stage: Stage, pub worker_connections: WorkerConnectionPool }
impl NetworkShuffleExec {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.properties == self.properties, r.input_stage == self.input_stage, r.worker_connections.slots() == self.worker_connections.slots() { unimplemented!() }
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::from_stage
//@ args: input_stage input_properties
//@ spec: ensures mixes(*r.properties),
//@end
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::try_new
//@ args: input producer_tasks
//@ spec: ensures r is Ok ==> mixes(*r->Ok_0.properties),
//@end
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::with_input_stage@NetworkBoundary
//@ args: input_stage
//@ sig: pub fn $name(&self, input_stage: Stage) -> (r: Result<Arc<NetworkShuffleExec>>)
//@ spec: requires mixes(*self.properties),
//@     ensures r is Ok ==> mixes(*r->Ok_0.properties),
//@end
}
pub struct BroadcastExec { pub input: PlanRef, pub consumer_task_count: usize }
pub uninterp spec fn broadcast_of(p: PlanRef) -> Option<BroadcastExec>;
impl Node for BroadcastExec { open spec fn of(p: PlanRef) -> Option<Self> { broadcast_of(p) } }
pub struct NetworkBroadcastExec { pub properties: Arc<PlanProperties>, pub input_stage: Stage, pub worker_connections: WorkerConnectionPool }
impl NetworkBroadcastExec {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.properties == self.properties, r.input_stage == self.input_stage, r.worker_connections.slots() == self.worker_connections.slots() { unimplemented!() }
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::from_stage
//@ args: input_stage input_properties
//@ spec: ensures mixes(*r.properties),
//@end
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::try_new
//@ args: input producer_tasks
//@ spec: ensures r is Ok ==> mixes(*r->Ok_0.properties),
//@end
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::with_input_stage@NetworkBoundary
//@ args: input_stage
//@ sig: pub fn $name(&self, input_stage: Stage) -> (r: Result<Arc<NetworkBroadcastExec>>)
//@ spec: requires mixes(*self.properties),
//@     ensures r is Ok ==> mixes(*r->Ok_0.properties),
//@end
}
/// reads each producer partition as a partition of its own (C01): says of it what the producer said
pub struct NetworkCoalesceExec { pub properties: Arc<PlanProperties>, pub input_stage: Stage, pub worker_connections: WorkerConnectionPool }
pub open spec fn ceil(a: int, b: int) -> int { spec_div_ceil(a, b) }
impl NetworkCoalesceExec {
//@fn src/execution_plans/network_coalesce.rs NetworkCoalesceExec::try_from_stage
//@ args: input_stage input_properties consumer_tasks
//@ spec: requires consumer_tasks > 0, input_properties.partitioning.pc() * (if ceil(input_stage.tc() as int, consumer_tasks as int) > 1 { ceil(input_stage.tc() as int, consumer_tasks as int) } else { 1 }) <= usize::MAX,
//@     ensures r is Ok ==> r->Ok_0.properties.eq_properties == input_properties.eq_properties,
//@ closure 0: -> (r: usize) requires $body <= usize::MAX ensures r == $body
//@end
}
//@fn src/distributed_planner/sort_above_ordered_repartitions.rs sort_above_ordered_repartitions
//@ args: plan
//@ spec: ensures r is Ok ==> bottom_up(restore_fn(), plan, r->Ok_0),
//@ closure 0: |plan: PlanRef| -> (o: Result<Transformed>) ensures o is Ok ==> restores(plan, o->Ok_0.data)
//@ closure 1: -> (o: PlanRef) ensures o == $0.data
//@ subst: Arc::new(sorted) => plan_of(sorted)
//@end
} // verus!
fn main() {}
