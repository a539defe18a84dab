//@include lib/base.rs
//@strip std::cmp core::cmp cmp
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@arcclone
//@include lib/inject.rs
verus! {
// ------------------------------------------------------------------ the code
//@fn src/distributed_planner/insert_broadcast.rs is_left_broadcast_safe
//@ spec: ensures r == keeps_probe_rows(*join_type),
//@end
/// the handler's version of a leaf for a number of tasks
pub uninterp spec fn scaled(p: PlanRef, tasks: usize) -> PlanRef;
pub open spec fn shorter(p: PlanRef) -> bool { forall|i: int| 0 <= i < kids(p).len() ==> height(#[trigger] kids(p)[i]) < height(p) }
/// the copy of an operator with other children
pub open spec fn with_kids(p: PlanRef, r: PlanRef) -> bool { (same_node(r, p) || is_union(p) && is_union(r)) && !is_boundary(r) }
/// r is p with the stage's final count t handed down to every operator of the stage
#[verifier::opaque]
pub open spec fn handed_down(p: PlanRef, r: PlanRef, t: TaskCountAnnotation) -> bool
    decreases height(p)
{
    &&& up(r) == t
    &&& (kids(p).len() == 0 ==> r_is_leaf(p, r, t))
    &&& (kids(p).len() > 0 && is_boundary(p) ==> same_node(r, p) && kids(r) == kids(p))
    &&& (kids(p).len() > 0 && !is_boundary(p) ==> with_kids(p, r) && kids(r).len() == kids(p).len())
    &&& (kids(p).len() > 0 && !is_boundary(p) && !is_union(p) ==> forall|i: int| 0 <= i < kids(p).len() ==> height(kids(p)[i]) < height(p) && handed_down(kids(p)[i], #[trigger] kids(r)[i], t))
    &&& (kids(p).len() > 0 && !is_boundary(p) && is_union(p) ==> forall|i: int| 0 <= i < kids(p).len() ==> height(kids(p)[i]) < height(p) && up(#[trigger] kids(r)[i]) is Maximum && share(kids(p)[i], tc(up(kids(r)[i])), t) && handed_down(kids(p)[i], kids(r)[i], up(kids(r)[i])))
}
pub open spec fn r_is_leaf(p: PlanRef, r: PlanRef, t: TaskCountAnnotation) -> bool { same_as(r, p) || same_as(r, scaled(p, tc(t))) }
pub open spec fn same_as(a: PlanRef, b: PlanRef) -> bool { same_node(a, b) && kids(a) == kids(b) }
/// a child of an isolated union gets between one task and all of the stage's, and no more than its own maximum
pub open spec fn share(kid: PlanRef, c: usize, t: TaskCountAnnotation) -> bool {
    1 <= c <= tc(t) && (up(kid) is Maximum && tc(up(kid)) >= 1 ==> c <= tc(up(kid)))
}
pub open spec fn share_ok(kid: PlanRef, r: PlanRef, t: TaskCountAnnotation) -> bool { up(r) is Maximum && share(kid, tc(up(r)), t) && handed_down(kid, r, up(r)) }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct F64 { _x: u8 }
pub uninterp spec fn f_of(n: usize) -> F64;
#[verifier::external_body] pub fn vx_f(n: usize) -> (r: F64) ensures r == f_of(n) { unimplemented!() }
pub struct ChildWeight { pub weight: F64, pub max: Option<usize> }
impl ChildWeight {
    pub fn desired(w: F64) -> (r: Self) ensures r.weight == w, r.max is None { ChildWeight { weight: w, max: None } }
    pub fn maximum(n: usize) -> (r: Self) ensures r.weight == f_of(n), r.max == Some(n) { ChildWeight { weight: vx_f(n), max: Some(n) } }
}
pub open spec fn weighs(w: ChildWeight, a: TaskCountAnnotation) -> bool { w.weight == f_of(tc(a)) && match a { Desired(_) => w.max is None, Maximum(n) => w.max == Some(n) } }
#[verifier::external_body] pub fn vx_owned(v: &Vec<&PlanRef>) -> (r: Vec<PlanRef>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *v@[i] { unimplemented!() }
impl ChildrenIsolatorUnionExec {
    pub uninterp spec fn ch(&self) -> Seq<PlanRef>;
    pub uninterp spec fn counts(&self) -> Seq<usize>;
    /// C06
    #[verifier::external_body] pub fn from_children_and_weights(children: Vec<PlanRef>, w: Vec<ChildWeight>, task_count: usize) -> (r: Result<Self>)
        ensures r is Ok ==> children@.len() == w@.len() && r->Ok_0.ch() == children@ && r->Ok_0.counts().len() == w@.len() && forall|i: int| 0 <= i < w@.len() ==>
            1 <= #[trigger] r->Ok_0.counts()[i] <= task_count && (w@[i].max is Some ==> r->Ok_0.counts()[i] <= w@[i].max->0),
    { unimplemented!() }
    #[verifier::external_body] pub fn children(&self) -> (r: Vec<&PlanRef>) ensures r@.len() == self.ch().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.ch()[i] { unimplemented!() }
    #[verifier::external_body] pub fn child_task_counts(&self) -> (r: Vec<usize>) ensures r@ == self.counts() { unimplemented!() }
}
impl ChildrenIsolatorUnionExec {
    #[verifier::external_body] pub fn replace_children(self: Arc<Self>, c: Vec<PlanRef>, o: ReplaceChildrenOptions) -> (r: Result<PlanRef>)
        requires c@.len() == self.ch().len(),
        ensures r is Ok ==> kids(r->Ok_0) == c@ && is_union(r->Ok_0) && !is_boundary(r->Ok_0),
    { unimplemented!() }
}
pub struct ScaleUpLeafNodeEvent<'a> { pub plan: &'a PlanRef, pub task_count: usize, pub session_config: &'a SessionConfig }
pub struct ScaleUpLeafNodeEventResponse { pub plan: PlanRef }
pub struct ScaleUpLeafNodeHandlers {}
impl ScaleUpLeafNodeHandlers {
    #[verifier::external_body] pub fn handle(ev: ScaleUpLeafNodeEvent) -> (r: Option<Result<ScaleUpLeafNodeEventResponse>>)
        ensures r is Some && r->0 is Ok ==> r->0->Ok_0.plan == scaled(*ev.plan, ev.task_count),
    { unimplemented!() }
}
pub enum TreeNodeRecursion { Continue, Jump, Stop }
impl PlanRef {
    #[verifier::external_body] pub fn apply<F: Fn(&PlanRef) -> Result<TreeNodeRecursion>>(&self, f: F) -> (r: Result<TreeNodeRecursion>) { unimplemented!() }
}
pub struct NetworkBoundaryBuilderResult { pub consumer_task_count: TaskCountAnnotation, pub input_stage: Stage, pub input_properties: Arc<PlanProperties> }
/// `dyn NetworkBoundaryBuilder`: gets a stage whose operators have their counts
#[verifier::external_body] pub struct Builder { _x: u8 }
pub open spec fn stage_ok(s: LocalStage, max: usize, b: bool) -> bool {
    &&& 1 <= s.tasks <= max
    &&& all_noted(s.plan, max, b)
    &&& !is_boundary(s.plan) && s.tasks == tc(up(s.plan))
}
/// the stage a boundary gets: the one that was asked for, with its count handed down to its operators
pub open spec fn built(a: LocalStage, b: LocalStage) -> bool { b.query_id == a.query_id && b.num == a.num && b.tasks == a.tasks && up(b.plan) == Desired(a.tasks) && handed_down(a.plan, b.plan, Desired(a.tasks)) }
impl Builder {
    #[verifier::external_body] pub fn build(&self, input_stage: LocalStage, nb_type: TypeId, nb_ctx: &InjectNetworkBoundaryContext) -> (r: Result<NetworkBoundaryBuilderResult>)
        requires stage_ok(input_stage, nb_ctx.max(), nb_ctx.d_cfg.broadcast_joins),
    { unimplemented!() }
}
pub struct InjectNetworkBoundaryContext<'a> { pub d_cfg: &'a DistributedConfig, pub cfg: &'a SessionConfig, pub worker_resolver: Arc<WorkerResolverExtension>, pub nb_builder: &'a Builder, pub query_id: Uuid }
impl<'a> InjectNetworkBoundaryContext<'a> {
    pub open spec fn max(&self) -> usize {
        if self.d_cfg.max_tasks_per_stage != 0 { self.d_cfg.max_tasks_per_stage } else if self.worker_resolver.workers() == 0 { 1 } else { self.worker_resolver.workers() }
    }
    /// records `task_count` for the node
    #[verifier::external_body] pub fn plan_with_task_count<P: IntoPlan>(&self, plan: P, task_count: TaskCountAnnotation) -> (r: PlanRef) ensures same_node(r, plan.pl()), kids(r) == kids(plan.pl()), height(r) == height(plan.pl()), up(r) == task_count, P::boundary() ==> is_boundary(r) { unimplemented!() }
    /// what was recorded for the node, or an error
    #[verifier::external_body] pub fn task_count(&self, plan: &PlanRef) -> (r: Result<TaskCountAnnotation>) ensures r is Ok ==> r->Ok_0 == up(*plan) && tc(r->Ok_0) <= 0xffff_ffff { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add_stage_id(&self) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn set_task_count(&self, plan: &PlanRef, task_count: TaskCountAnnotation) { unimplemented!() }
//@fn src/distributed_planner/inject_network_boundaries.rs InjectNetworkBoundaryContext::propagate_task_count_until_network_boundaries
//@ spec: requires tc(task_count) >= 1,
//@   ensures r is Ok ==> handed_down(*plan, r->Ok_0, task_count) && up(r->Ok_0) == task_count,
//@   decreases height(*plan),
//@ closure 0: -
//@ closure 1: -> (o: PlanRef) ensures o == **$0
//@ closure 2: -> (o: Result<ChildWeight>) ensures o is Ok ==> weighs(o->Ok_0, up(**$0))
//@ subst: children.iter().map(|v| -> (o: PlanRef) ensures o == **v { v.clone() }) => vx_owned(&children)
//@ subst: children.iter().map(|v| { __vx_clo!(1usize); v.clone() }) => vx_owned(&children)
//@ subst: n as f64 => vx_f(n)
//@ subst: c_i_union.children().into_iter().zip(c_i_union.child_task_counts()) => vx_zip(c_i_union.children(), c_i_union.child_task_counts())
//@ loop 0: invariant it0.seq().len() == kids(*plan).len(), shorter(*plan), new_children@.len() == it0.index(), is_union(*plan),
//@     forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]).0 == kids(*plan)[i] && 1 <= it0.seq()[i].1 <= tc(outer_count) && (up(kids(*plan)[i]) is Maximum && tc(up(kids(*plan)[i])) >= 1 ==> it0.seq()[i].1 <= tc(up(kids(*plan)[i]))),
//@     forall|i: int| 0 <= i < new_children@.len() ==> share_ok(kids(*plan)[i], #[trigger] new_children@[i], outer_count),
//@ loop 1: invariant it1.seq().len() == kids(*plan).len(), shorter(*plan), tc(task_count) >= 1, new_children@.len() == it1.index(),
//@     forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == kids(*plan)[i],
//@     forall|i: int| 0 <= i < new_children@.len() ==> handed_down(kids(*plan)[i], #[trigger] new_children@[i], task_count),
//@ ghost: let ghost outer_count = task_count;
//@ entry: axiom_finite_tree(*plan); reveal_with_fuel(handed_down, 1);
//@end
//@fn src/distributed_planner/inject_network_boundaries.rs InjectNetworkBoundaryContext::max_tasks
//@ spec: ensures r is Ok ==> r->Ok_0 == self.max() && r->Ok_0 >= 1,
//@ subst: self.worker_resolver.0.get_urls() => vx_urls(&self.worker_resolver)
//@end
}
impl PlanRef { #[verifier::external_body] pub fn vx_props(&self) -> Arc<PlanProperties> { unimplemented!() } }
#[verifier::external_body] pub fn calculate_scale_factor(p: &PlanRef, d: &DistributedConfig) -> F64 { unimplemented!() }
/// `(f * tasks as f64).ceil() as usize`: any number; it is limited again when the boundary's parents are counted
#[verifier::external_body] pub fn vx_scaled_tasks(f: F64, tasks: usize) -> usize { unimplemented!() }
impl PartialEq for TypeId { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (self.k == o.k) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for TypeId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &TypeId) -> bool { self.k == o.k } }
pub struct CardinalityBasedNetworkBoundaryBuilder {}
impl CardinalityBasedNetworkBoundaryBuilder {
//@fn src/distributed_planner/inject_network_boundaries.rs CardinalityBasedNetworkBoundaryBuilder::build noasync
//@ spec: requires stage_ok(input_stage, nb_ctx.max(), nb_ctx.d_cfg.broadcast_joins),
//@   ensures r is Ok ==> r->Ok_0.input_stage is Local && built(input_stage, r->Ok_0.input_stage->Local_0) && (nb_type.k == 3 ==> r->Ok_0.consumer_task_count == Maximum(1)),
//@ drop: fn calculate_scale_factor
//@ subst: (f * input_stage.tasks as f64).ceil() as usize => vx_scaled_tasks(f, input_stage.tasks)
//@ subst: input_stage.plan.properties().clone() => input_stage.plan.vx_props()
//@end
}
#[verifier::exec_allows_no_decreases_clause]
//@fn src/distributed_planner/inject_network_boundaries.rs _inject_network_boundaries noasync
//@ spec: requires fresh(plan),
//@   ensures r is Ok && parent is Some ==> all_noted(r->Ok_0, nb_ctx.max(), nb_ctx.d_cfg.broadcast_joins),
//@ closure 0: -> (o: TaskCountAnnotation) ensures o == $0.task_count
//@ entry: axiom_finite_tree(plan);
//@ loop 0: invariant it0.seq().len() == kids(plan).len(), forall|i: int| 0 <= i < kids(plan).len() ==> *(#[trigger] it0.seq()[i]) == kids(plan)[i],
//@     futures@.len() == it0.index(), fresh(plan), forall|i: int| 0 <= i < futures@.len() ==> is_noted(#[trigger] futures@[i], nb_ctx.max(), nb_ctx.d_cfg.broadcast_joins),
//@ loop 1: invariant it1.seq().len() == processed_children@.len(), 0 <= it1.index() <= it1.seq().len(), processed_children@.len() <= 0xffff_ffff, count <= it1.index() * 0xffff_ffff, body: assert(it1.index() * 0xffff_ffff + 0xffff_ffff == (it1.index() + 1) * 0xffff_ffff) by (nonlinear_arith); assert(it1.index() * 0xffff_ffff + 0xffff_ffff <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires it1.index() < 0xffff_ffff, 0 <= it1.index();
//@ loop 2: invariant it2.seq().len() == processed_children@.len(), forall|i: int| 0 <= i < processed_children@.len() ==> *(#[trigger] it2.seq()[i]) == processed_children@[i],
//@     forall|i: int| 0 <= i < it2.index() ==> (#[trigger] up(processed_children@[i])) is Maximum ==> task_count is Maximum && tc(task_count) <= tc(up(processed_children@[i])),
//@     wish(plan) is Some && wish(plan)->0 is Maximum ==> task_count is Maximum && tc(task_count) <= tc(wish(plan)->0),
//@end
} // verus!
mod futures { pub mod future { pub use crate::try_join_all; } }
fn main() {}
