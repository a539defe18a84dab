//@include lib/base.rs
//@include lib/coord.rs
//@strip std::mem std::cmp core::cmp cmp
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@arcclone
verus! {
// ------------------------------------------------------------------ dependencies
//@enum src/events/desired_task_count.rs TaskCountAnnotation
impl Copy for TaskCountAnnotation {}
impl Clone for TaskCountAnnotation { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
use TaskCountAnnotation::*;
#[verifier::external_body] pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { unimplemented!() }
#[verifier::external_body] pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { unimplemented!() }
pub open spec fn tc(a: TaskCountAnnotation) -> usize { match a { Desired(v) => v, Maximum(v) => v } }
pub open spec fn spec_merge(a: TaskCountAnnotation, b: TaskCountAnnotation) -> TaskCountAnnotation {
    match (a, b) {
        (Desired(x), Desired(y)) => Desired(if x >= y { x } else { y }),
        (Desired(_), Maximum(y)) => Maximum(y),
        (Maximum(x), Desired(_)) => Maximum(x),
        (Maximum(x), Maximum(y)) => Maximum(if x <= y { x } else { y }),
    }
}
impl TaskCountAnnotation {
//@fn src/events/desired_task_count.rs TaskCountAnnotation::as_usize
//@ spec: ensures r == tc(*self),
//@end
//@fn src/events/desired_task_count.rs TaskCountAnnotation::merge
//@ spec: ensures r == spec_merge(self, other),
//@end
}
pub trait Clamp: Sized { spec fn le(a: Self, b: Self) -> bool; fn vx_clamp(self, lo: Self, hi: Self) -> (r: Self) requires Self::le(lo, hi) ensures Self::le(lo, r), Self::le(r, hi), Self::le(lo, self) && Self::le(self, hi) ==> r == self; }
impl Clamp for usize { open spec fn le(a: usize, b: usize) -> bool { a <= b } #[verifier::external_body] fn vx_clamp(self, lo: usize, hi: usize) -> (r: usize) { unimplemented!() } }
pub enum Precision<T> { Exact(T), Inexact(T), Absent }
impl<T> Precision<T> { #[verifier::external_body] pub fn get_value(&self) -> (r: Option<&T>) { unimplemented!() } }
pub struct Cost { pub cpu: Precision<usize>, pub memory: Precision<usize>, pub network: Precision<usize> }
/// C19
#[verifier::external_body] pub fn calculate_cost(p: &PlanRef) -> (r: Result<Cost>) { unimplemented!() }
impl MetricsSet { #[verifier::external_body] pub fn new() -> Self { unimplemented!() } #[verifier::external_body] pub fn push(&mut self, m: Metric) { unimplemented!() } #[verifier::external_body] pub fn extend(&mut self, m: MetricsSet) { unimplemented!() } }
#[verifier::external_body] pub struct Metric { _x: u8 }
pub struct BytesCounterMetric {} impl BytesCounterMetric { #[verifier::external_body] pub fn new_metric(n: &str, v: usize) -> Metric { unimplemented!() } }
#[verifier::external_body] pub struct PlanProperties { _x: u8 }
pub struct Partitioning { pub n: usize } impl Partitioning { pub fn partition_count(&self) -> (r: usize) ensures r == self.n { self.n } }
pub uninterp spec fn parts(p: PlanRef) -> Partitioning;
impl PlanRef {
    #[verifier::external_body] pub fn output_partitioning(&self) -> (r: &Partitioning) ensures *r == parts(*self) { unimplemented!() }
    #[verifier::external_body] pub fn properties(&self) -> &Arc<PlanProperties> { unimplemented!() }
}
/// the count noted for a node on the way up (C07)
pub uninterp spec fn up(p: PlanRef) -> TaskCountAnnotation;
/// the plan with a count handed down to the operators of its stage (C07)
pub uninterp spec fn handed_down(p: PlanRef, r: PlanRef, t: TaskCountAnnotation) -> bool;
pub uninterp spec fn sampled(p: PlanRef) -> PlanRef;
pub struct DistributedConfig { pub dynamic_bytes_per_partition: usize }
pub struct InjectNetworkBoundaryContext<'a> { pub d_cfg: &'a DistributedConfig }
impl<'a> InjectNetworkBoundaryContext<'a> {
    pub uninterp spec fn max(&self) -> usize;
    /// C07
    #[verifier::external_body] pub fn max_tasks(&self) -> (r: Result<usize>) ensures r is Ok ==> r->Ok_0 == self.max() && r->Ok_0 >= 1 { unimplemented!() }
    #[verifier::external_body] pub fn task_count(&self, p: &PlanRef) -> (r: Result<TaskCountAnnotation>) ensures r is Ok ==> r->Ok_0 == up(*p) { unimplemented!() }
    #[verifier::external_body] pub fn propagate_task_count_until_network_boundaries(&self, p: &PlanRef, t: TaskCountAnnotation) -> (r: Result<PlanRef>) requires tc(t) >= 1 ensures r is Ok ==> handed_down(*p, r->Ok_0, t) { unimplemented!() }
}
pub struct ProducerHead {} impl ProducerHead { #[verifier::external_body] pub fn insert_sampler(p: PlanRef) -> (r: Result<PlanRef>) ensures r is Ok ==> r->Ok_0 == sampled(p) { unimplemented!() } }
#[verifier::reject_recursive_types(T)] pub struct UnboundedReceiverStream<T> { pub rx: UnboundedReceiver<T> } impl<T> UnboundedReceiverStream<T> { pub fn new(rx: UnboundedReceiver<T>) -> Self { UnboundedReceiverStream { rx } } }
pub struct TypeId { pub k: u8 }
pub trait Boundary { spec fn kind() -> u8; }
#[verifier::external_body] pub struct NetworkCoalesceExec { _x: u8 } impl Boundary for NetworkCoalesceExec { open spec fn kind() -> u8 { 3 } }
impl TypeId { #[verifier::external_body] pub fn of<T: Boundary>() -> (r: TypeId) ensures r.k == T::kind() { unimplemented!() } }
impl PartialEq for TypeId { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (self.k == o.k) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for TypeId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &TypeId) -> bool { self.k == o.k } }
impl<'a> StageCoordinator<'a> {
    /// verified in C17
    #[verifier::external_body] pub fn send_plan_task(&mut self, task_i: usize, url: Url) -> (r: Result<(UnboundedSender<CoordinatorToWorkerMsg>, UnboundedReceiver<WorkerToCoordinatorMsg>)>)
        ensures r is Ok ==> same_stage(*final(self), *old(self)) && final(self).sent@.len() == old(self).sent@.len() + 1
            && final(self).sent@ =~= old(self).sent@.push(final(self).sent@.last())
            && carries(final(self).sent@.last(), task_i as int, url, old(self).query_id, old(self).stage_id, *old(self).plan, old(self).task_count),
    { unimplemented!() }
    #[verifier::external_body] pub fn routed_urls(&self) -> (r: Result<Vec<Url>>) ensures r is Ok ==> r->Ok_0@.len() == self.task_count { unimplemented!() }
    #[verifier::external_body] pub fn worker_to_coordinator_task(&mut self, task_i: usize, rx: UnboundedReceiver<WorkerToCoordinatorMsg>) -> (r: UnboundedReceiver<LoadInfo>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn coordinator_to_worker_task(&mut self, task_i: usize, tx: UnboundedSender<CoordinatorToWorkerMsg>) -> (r: Result<()>) ensures *final(self) == *old(self) { unimplemented!() }
}
pub open spec fn is_coord(c: StageCoordinator, s: LocalStage) -> bool { *c.plan == s.plan && c.query_id == s.query_id && c.stage_id == s.num && c.task_count == s.tasks }
pub struct QueryCoordinator {}
impl QueryCoordinator {
    /// verified in C17
    #[verifier::external_body] pub fn stage_coordinator<'a>(&'a self, stage: &'a LocalStage) -> (r: StageCoordinator<'a>) ensures is_coord(r, *stage), r.sent@.len() == 0 { unimplemented!() }
}
pub open spec fn numbered(s: Seq<(usize, Url)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == i }
/// the count of a dynamically planned stage: what its operators want, or more if the data asks for it
pub open spec fn dyn_count(t: TaskCountAnnotation, u: TaskCountAnnotation, max: usize) -> bool { exists|a: TaskCountAnnotation, b: TaskCountAnnotation| t == #[trigger] spec_merge(a, b) && (a == u && computed(b, max) || b == u && computed(a, max)) }
pub open spec fn computed(t: TaskCountAnnotation, max: usize) -> bool { t is Desired && 1 <= tc(t) <= max }
/// the stage whose plans were sent out
pub open spec fn dyn_stage(s: LocalStage, d: LocalStage, max: usize) -> bool {
    &&& d.query_id == s.query_id && d.num == s.num
    &&& exists|t: TaskCountAnnotation, p: PlanRef| #[trigger] handed_down(s.plan, p, t) && dyn_count(t, up(s.plan), max) && d.tasks == tc(t) && d.plan == sampled(p)
}
#[verifier::external_body] pub struct PlanReconstructor { _x: u8 }
impl PlanReconstructor { #[verifier::external_body] pub fn insert(&self, stage: usize, plan: PlanRef, m: MetricsSet) { unimplemented!() } }
pub struct NetworkBoundaryBuilderResult { pub consumer_task_count: TaskCountAnnotation, pub input_stage: Stage, pub input_properties: Arc<PlanProperties> }
#[verifier::external_body] pub fn gather_runtime_statistics(v: Vec<UnboundedReceiverStream<LoadInfo>>, p: &PlanRef) -> (r: Result<(Statistics, MetricsSet)>) { unimplemented!() }
/// the future a dynamically planned stage is turned into (the block verified below)
pub struct StageJob { pub stage: LocalStage, pub workers: Vec<Url>, pub nb_type: TypeId }
pub fn stage_job(stage: LocalStage, workers: Vec<Url>, nb_type: TypeId) -> (r: StageJob)
    requires workers@.len() == stage.tasks, dispatched(stage.query_id, stage.num, workers@),
    ensures r.stage == stage, r.workers == workers, r.nb_type == nb_type,
{ StageJob { stage, workers, nb_type } }
//@fn src/coordinator/prepare_dynamic_plan.rs prepare_dynamic_plan#c0 as dispatch_sampled_stage
//@ sig: pub fn $name(input_stage: LocalStage, nb_type: TypeId, nb_ctx: &InjectNetworkBoundaryContext, query_coordinator: &QueryCoordinator, plans_for_viz: &Arc<PlanReconstructor>) -> (r: Result<StageJob>)
//@ spec: requires 1 <= tc(up(input_stage.plan)) <= nb_ctx.max(),
//@   ensures r is Ok ==> dyn_stage(input_stage, r->Ok_0.stage, nb_ctx.max()) && 1 <= r->Ok_0.stage.tasks <= nb_ctx.max()
//@      && r->Ok_0.nb_type == nb_type && r->Ok_0.workers@.len() == r->Ok_0.stage.tasks && dispatched(r->Ok_0.stage.query_id, r->Ok_0.stage.num, r->Ok_0.workers@),
//@ entry: broadcast use def_dispatched;
//@ ghost: let mut input_stage = input_stage;
//@ subst: .clamp => .vx_clamp
//@ async 0: stage_job(input_stage, workers, nb_type)
//@ loop 0: invariant it0.seq().len() == input_stage.tasks, 0 <= it0.index() <= it0.seq().len(), is_coord(stage_coordinator, input_stage), numbered(it0.seq()), sent_upto(stage_coordinator, workers@, it0.index()),
//@end
//@fn src/coordinator/prepare_dynamic_plan.rs prepare_dynamic_plan#a0 as remote_stage noasync
//@ sig: pub fn $name(input_stage: LocalStage, nb_type: TypeId, workers: Vec<Url>, load_info_rxs: Vec<UnboundedReceiverStream<LoadInfo>>, metrics: MetricsSet, plans_for_viz: Arc<PlanReconstructor>) -> (r: Result<NetworkBoundaryBuilderResult>)
//@ spec: ensures r is Ok ==> r->Ok_0.input_stage is Remote && r->Ok_0.input_stage->Remote_0.query_id == input_stage.query_id && r->Ok_0.input_stage->Remote_0.num == input_stage.num
//@      && r->Ok_0.input_stage->Remote_0.workers@ == workers@ && (nb_type.k == 3 ==> r->Ok_0.consumer_task_count == Maximum(1)) && (nb_type.k != 3 ==> r->Ok_0.consumer_task_count == Desired(1)),
//@ ghost: let mut metrics = metrics;
//@end
} // verus!
fn main() {}
