// ---- the coordinator's view of a stage: plans, addresses, messages to workers
verus! {
global size_of usize == 8;
#[verifier::external_body] pub struct Uuid { _x: u128 }
impl Copy for Uuid {} impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Url { _x: u8 }
impl Clone for Url { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for Url { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Url { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Url) -> bool { *self == *o } }
#[verifier::external_body] pub struct MetricsSet { _x: u8 }
#[verifier::external_body] pub struct Statistics { _x: u8 }
#[verifier::external_body] pub struct PlanRef { _x: u8 }
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct WorkUnitFeedDeclaration { _x: u8 }
#[verifier::external_body] pub struct SessionConfig { _x: u8 }
#[verifier::external_body] pub struct TaskContext { _x: u8 }
#[verifier::external_body] pub struct WorkerResolver { _x: u8 }
impl WorkerResolver {
    pub uninterp spec fn known(&self) -> Seq<Url>;
    #[verifier::external_body] pub fn get_urls(&self) -> (r: Result<Vec<Url>>) ensures r is Ok ==> r->Ok_0@ == self.known() { unimplemented!() }
}
impl SessionConfig {
    pub uninterp spec fn resolver(&self) -> WorkerResolver;
    pub uninterp spec fn local(&self) -> Option<LocalWorkerContext>;
    #[verifier::external_body] pub fn get_distributed_worker_resolver(&self) -> (r: Result<Arc<WorkerResolver>>) ensures r is Ok ==> *r->Ok_0 == self.resolver() { unimplemented!() }
    #[verifier::external_body] pub fn get_extension<T: Ext>(&self) -> (r: Option<Arc<T>>) ensures match r { Some(x) => T::of(*self) == Some(*x), None => T::of(*self) is None } { unimplemented!() }
}
pub trait Ext: Sized { spec fn of(c: SessionConfig) -> Option<Self>; }
impl Ext for LocalWorkerContext { open spec fn of(c: SessionConfig) -> Option<Self> { c.local() } }
impl TaskContext {
    pub uninterp spec fn cfg(&self) -> SessionConfig;
    #[verifier::external_body] pub fn session_config(&self) -> (r: &SessionConfig) ensures *r == self.cfg() { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &TaskContext) ensures *r == *self { unimplemented!() }
}
#[verifier::external_body] pub struct WorkerHandle { _x: u8 }
pub struct LocalWorkerContext { pub self_url: Url, pub worker: WorkerHandle }
pub struct LocalStage { pub query_id: Uuid, pub num: usize, pub plan: PlanRef, pub tasks: usize, pub metrics_set: MetricsSet }
pub struct RemoteStage { pub query_id: Uuid, pub num: usize, pub workers: Vec<Url>, pub runtime_stats: Option<Arc<Statistics>> }
pub enum Stage { Local(LocalStage), Remote(RemoteStage) }
pub struct TaskKey { pub query_id: Uuid, pub stage_id: usize, pub task_number: usize }
pub enum MaybeEncoded<T> { Decoded(T), Encoded(Vec<u8>) }
pub struct SetPlanRequest { pub task_key: TaskKey, pub task_count: usize, pub plan: MaybeEncoded<PlanRef>, pub work_unit_feed_declarations: Vec<WorkUnitFeedDeclaration>, pub target_worker_url: Url, pub query_start_time_ns: usize }
/// one plan sent to one address
pub struct Sent { pub url: Url, pub req: SetPlanRequest }
/// the plan of one task of a stage
pub uninterp spec fn specialized(p: PlanRef, task: usize, tasks: usize) -> PlanRef;
/// what an encoded plan decodes to (C12)
pub uninterp spec fn decoded(b: Seq<u8>) -> PlanRef;
pub open spec fn plan_of(m: MaybeEncoded<PlanRef>) -> PlanRef { match m { MaybeEncoded::Decoded(p) => p, MaybeEncoded::Encoded(b) => decoded(b@) } }
/// `s` carries task i of the stage to address u
pub open spec fn carries(s: Sent, i: int, u: Url, q: Uuid, num: usize, p: PlanRef, tasks: usize) -> bool {
    &&& s.url == u
    &&& s.req.task_key.query_id == q && s.req.task_key.stage_id == num && s.req.task_key.task_number == i
    &&& s.req.task_count == tasks && s.req.target_worker_url == u
    &&& plan_of(s.req.plan) == specialized(p, i as usize, tasks)
}
#[verifier::external_body] pub struct CoordinatorToWorkerMsg { _x: u8 }
#[verifier::external_body] pub struct WorkerToCoordinatorMsg { _x: u8 }
#[verifier::external_body] pub struct LoadInfo { _x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct UnboundedSender<T> { _x: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct UnboundedReceiver<T> { _x: core::marker::PhantomData<T> }
#[verifier::external_body] pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) { unimplemented!() }
#[verifier::external_body] pub struct CoordinatorToWorkerMetrics { _x: u8 }
/// the stage's plans went to exactly these addresses: task i to the i-th
pub uninterp spec fn dispatched(q: Uuid, num: usize, workers: Seq<Url>) -> bool;
pub struct StageCoordinator<'a> { pub plan: &'a PlanRef, pub query_id: Uuid, pub stage_id: usize, pub task_count: usize, pub task_ctx: &'a Arc<TaskContext>, pub metrics: &'a CoordMetrics, pub sent: Ghost<Seq<Sent>> }
pub struct CoordMetrics { pub instantiation_time: usize }
pub open spec fn same_stage(a: StageCoordinator, b: StageCoordinator) -> bool { a.plan == b.plan && a.query_id == b.query_id && a.stage_id == b.stage_id && a.task_count == b.task_count && a.task_ctx == b.task_ctx && a.metrics == b.metrics }
pub open spec fn all_sent(s: StageCoordinator, w: Seq<Url>) -> bool {
    w.len() == s.task_count && s.sent@.len() == w.len() && forall|i: int| 0 <= i < w.len() ==> carries(#[trigger] s.sent@[i], i, w[i], s.query_id, s.stage_id, *s.plan, s.task_count)
}
/// definition of `dispatched`
pub broadcast axiom fn def_dispatched(s: StageCoordinator, w: Seq<Url>)
    requires #[trigger] all_sent(s, w), ensures dispatched(s.query_id, s.stage_id, w);
/// what a loop that dispatches a stage has done after i rounds
pub open spec fn sent_upto(s: StageCoordinator, w: Seq<Url>, i: int) -> bool {
    w.len() == i && s.sent@.len() == i && (forall|k: int| 0 <= k < i ==> carries(#[trigger] s.sent@[k], k, w[k], s.query_id, s.stage_id, *s.plan, s.task_count)) && (i == s.task_count ==> all_sent(s, w))
}
} // verus!
