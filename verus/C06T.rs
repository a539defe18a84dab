//@include lib/base.rs
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@arcclone
verus! {
// ------------------------------------------------------------------ dependencies
#[verifier::external_body] pub struct PlanRef { _x: u8 }
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct TaskContext { _x: u8 }
#[verifier::external_body] pub struct SessionConfig { _x: u8 }
#[verifier::external_body] pub struct Uuid { _x: u8 }
#[derive(Clone, Copy)]
//@struct src/stage.rs DistributedTaskContext
#[verifier::external_body] pub struct Feed { _x: u8 }
impl Feed { pub uninterp spec fn id_of(&self) -> Uuid; #[verifier::external_body] pub fn id(&self) -> (r: Uuid) ensures r == self.id_of() { unimplemented!() } }
#[verifier::external_body] pub struct WorkUnitFeedRegistry { _x: u8 }
/// the registry of a session, empty where none was set
pub uninterp spec fn registry(c: TaskContext) -> WorkUnitFeedRegistry;
#[verifier::external_body] pub fn session_registry(c: &Arc<TaskContext>) -> (r: WorkUnitFeedRegistry) ensures r == registry(**c) { unimplemented!() }
impl TaskContext { #[verifier::external_body] pub fn session_config(&self) -> &SessionConfig { unimplemented!() } }
impl WorkUnitFeedRegistry {
    pub uninterp spec fn feed_of(&self, p: PlanRef) -> Option<Feed>;
    #[verifier::external_body] pub fn get_work_unit_feed(&self, p: &PlanRef) -> (r: Option<&Feed>) ensures match r { Some(f) => self.feed_of(*p) == Some(*f), None => self.feed_of(*p) is None } { unimplemented!() }
}
pub struct Partitioning { pub n: usize } impl Partitioning { pub fn partition_count(&self) -> (r: usize) ensures r == self.n { self.n } }
pub struct PlanProperties { pub partitioning: Partitioning }
pub uninterp spec fn parts(p: PlanRef) -> usize;
impl PlanRef { #[verifier::external_body] pub fn properties(&self) -> (r: &Arc<PlanProperties>) ensures r.partitioning.n == parts(*self) { unimplemented!() } }
pub struct WorkUnitFeedDeclaration { pub id: Uuid, pub partitions: usize }
pub struct Transformed { pub data: PlanRef, pub transformed: bool }
impl Transformed {
    pub fn yes(data: PlanRef) -> (r: Self) ensures r.data == data { Transformed { data, transformed: true } }
    pub fn no(data: PlanRef) -> (r: Self) ensures r.data == data { Transformed { data, transformed: false } }
}
pub uninterp spec fn remote_of(p: PlanRef) -> PlanRef;
/// encodes the plan and decodes it
#[verifier::external_body] pub fn roundtrip_pb(p: PlanRef, c: &Arc<TaskContext>) -> (r: Result<PlanRef>) ensures r is Ok ==> r->Ok_0 == remote_of(p) { unimplemented!() }
#[verifier::external_body] pub struct ChildrenIsolatorUnionExec { _x: u8 }
#[verifier::external_body] pub struct DistributedLeafExec { _x: u8 }
pub trait Node: Sized { spec fn of(p: PlanRef) -> Option<Self>; }
impl Node for ChildrenIsolatorUnionExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
impl Node for DistributedLeafExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
impl PlanRef { #[verifier::external_body] pub fn downcast_ref<T: Node>(&self) -> (r: Option<&T>) ensures match r { Some(x) => T::of(*self) == Some(*x), None => T::of(*self) is None } { unimplemented!() } }
// the contracts of `to_task_specialized` (C06, C11): the children, or the variant, of task t
impl ChildrenIsolatorUnionExec { pub uninterp spec fn for_task(&self, t: int) -> PlanRef; #[verifier::external_body] pub fn to_task_specialized(&self, t: usize) -> (r: PlanRef) ensures r == self.for_task(t as int) { unimplemented!() } }
impl DistributedLeafExec { pub uninterp spec fn for_task(&self, t: int) -> PlanRef; #[verifier::external_body] pub fn to_task_specialized(&self, t: usize) -> (r: PlanRef) ensures r == self.for_task(t as int) { unimplemented!() } }
/// what task t runs instead of the node p
pub open spec fn specialized(p: PlanRef, f: Option<Feed>, t: int) -> PlanRef {
    if f is Some { remote_of(p) } else { match ChildrenIsolatorUnionExec::of(p) { Some(c) => c.for_task(t), None => match DistributedLeafExec::of(p) { Some(l) => l.for_task(t), None => p } } }
}
// a node inside a union is visited as the task of its child: `d_ctx` is that task, `task_i` the task of the stage
//@fn src/coordinator/query_coordinator.rs StageCoordinator::task_specialized_plan#c0 as specialize_node
//@ sig: pub fn $name(plan: PlanRef, d_ctx: DistributedTaskContext, task_i: usize, wuf_registry: &WorkUnitFeedRegistry, task_ctx: &Arc<TaskContext>, work_unit_feed_declarations: &mut Vec<WorkUnitFeedDeclaration>) -> (r: Result<Transformed>)
//@ spec: ensures r is Ok ==> r->Ok_0.data == specialized(plan, wuf_registry.feed_of(plan), d_ctx.task_index as int),
//@ subst: self.task_ctx => task_ctx
//@ subst: Arc::new(ciu) => ciu
//@end
/// C20: each node that task `ctx` runs, rewritten from the root down by the step above, in the task it is run in
pub uninterp spec fn walked(p: PlanRef, ctx: DistributedTaskContext, reg: WorkUnitFeedRegistry) -> PlanRef;
impl PlanRef {
    #[verifier::external_body] pub fn transform_down_with_dt_ctx(self, ctx: DistributedTaskContext, reg: &WorkUnitFeedRegistry, d: &mut Vec<WorkUnitFeedDeclaration>) -> (r: Result<Transformed>) ensures r is Ok ==> r->Ok_0.data == walked(self, ctx, *reg) { unimplemented!() }
}
pub struct StageCoordinator<'a> { pub plan: &'a PlanRef, pub task_ctx: &'a Arc<TaskContext>, pub task_count: usize, pub stage_id: usize }
impl<'a> StageCoordinator<'a> {
//@fn src/coordinator/query_coordinator.rs StageCoordinator::task_specialized_plan as task_specialized_plan
//@ spec: ensures r is Ok ==> r->Ok_0.0 == walked(*self.plan, DistributedTaskContext { task_index: task_i, task_count: self.task_count }, registry(**self.task_ctx)),
//@ subst: session_config.get_extension::<WorkUnitFeedRegistry>().unwrap_or_default() => session_registry(self.task_ctx)
//@ subst: vec![] => Vec::<WorkUnitFeedDeclaration>::new()
//@ subst: transform_down_with_dt_ctx(d_ctx, $..) => transform_down_with_dt_ctx(d_ctx, &wuf_registry, &mut work_unit_feed_declarations)
//@end
}
} // verus!
fn main() {}
