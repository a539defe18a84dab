//@include lib/base.rs
//@include lib/coord.rs
//@strip tokio::sync::mpsc std::mem
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@arcclone
verus! {
// ------------------------------------------------------------------ dependencies
#[verifier::external_body] pub struct HeaderMap { _x: u8 }
impl HeaderMap { #[verifier::external_body] pub fn extend(&mut self, o: HeaderMap) { unimplemented!() } }
#[verifier::external_body] pub fn get_config_extension_propagation_headers(c: &SessionConfig) -> Result<HeaderMap> { unimplemented!() }
#[verifier::external_body] pub fn get_passthrough_headers(c: &SessionConfig) -> HeaderMap { unimplemented!() }
#[verifier::external_body] pub fn encode_execution_plan(p: PlanRef, c: &Arc<TaskContext>) -> (r: Result<Vec<u8>>) ensures r is Ok ==> decoded(r->Ok_0@) == p { unimplemented!() }
#[verifier::external_body] pub struct MsgStream { _x: u8 }
#[verifier::external_body] pub struct ExecutionPlanMetricsSet { _x: u8 }
#[verifier::external_body] pub fn vx_stream(rx: UnboundedReceiver<CoordinatorToWorkerMsg>) -> MsgStream { unimplemented!() }
#[verifier::external_body] pub fn vx_metrics(m: &CoordMetrics) -> Metrics { unimplemented!() }
#[verifier::external_body] pub fn vx_metrics_set() -> ExecutionPlanMetricsSet { unimplemented!() }
#[verifier::external_body] pub struct Count { _x: u8 } impl Count { #[verifier::external_body] pub fn add(&self, n: usize) { unimplemented!() } }
#[verifier::external_body] pub struct LatencyMetric { _x: u8 } impl LatencyMetric { #[verifier::external_body] pub fn record(&self, n: &Instant) { unimplemented!() } }
#[verifier::external_body] pub struct Instant { _x: u8 } impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } }
pub struct Metrics { pub local_coordinator_channels: Count, pub remote_coordinator_channels: Count, pub plan_send_latency: LatencyMetric }
impl LocalWorkerContext {
    #[verifier::external_body] pub fn from_ctx(c: &Arc<TaskContext>) -> (r: Option<LocalWorkerContext>) ensures r == c.cfg().local() { unimplemented!() }
    #[verifier::external_body] pub fn to_worker_channel(&self) -> (r: Client) ensures r.url() == self.self_url { unimplemented!() }
}
#[verifier::external_body] pub struct ChannelResolver { _x: u8 }
#[verifier::external_body] pub fn get_distributed_channel_resolver(c: &TaskContext) -> ChannelResolver { unimplemented!() }
impl ChannelResolver { #[verifier::external_body] pub fn get_worker_client_for_url(&self, u: &Url) -> (r: Result<Client>) ensures r is Ok ==> r->Ok_0.url() == *u { unimplemented!() } }
/// a connection to one worker
#[verifier::external_body] pub struct Client { _x: u8 }
#[verifier::external_body] pub struct ReplyStream { _x: u8 }
impl ReplyStream { #[verifier::external_body] pub fn try_next(&mut self) -> Result<Option<WorkerToCoordinatorMsg>> { unimplemented!() } }
impl Client {
    pub uninterp spec fn url(&self) -> Url;
    #[verifier::external_body] pub fn coordinator_channel(&mut self, h: HeaderMap, req: SetPlanRequest, s: MsgStream, m: ExecutionPlanMetricsSet, c: &Arc<TaskContext>) -> (r: Result<ReplyStream>)
        // a plan only goes to the worker it names
        requires old(self).url() == req.target_worker_url,
    { unimplemented!() }
}
impl<T> UnboundedSender<T> { #[verifier::external_body] pub fn send(&self, t: T) -> core::result::Result<(), ()> { unimplemented!() } }
pub struct Job { pub sent: Ghost<Sent> }
/// the job that sends one plan (the spawned block, verified below): `url` gets `req`
pub fn job(url: Url, req: SetPlanRequest) -> (r: Job) requires req.target_worker_url == url ensures r.sent@ == (Sent { url: url, req: req })
{ Job { sent: Ghost(Sent { url: url, req: req }) } }
impl<'a> StageCoordinator<'a> {
    /// `JoinSet::spawn`: the job runs
    pub fn vx_spawn(&mut self, j: Job) ensures same_stage(*final(self), *old(self)), final(self).sent@ == old(self).sent@.push(j.sent@)
    { proof { self.sent@ = self.sent@.push(j.sent@); } }
    #[verifier::external_body] pub fn task_specialized_plan(&self, task_i: usize) -> (r: Result<(PlanRef, Vec<WorkUnitFeedDeclaration>)>) ensures r is Ok ==> r->Ok_0.0 == specialized(*self.plan, task_i, self.task_count) { unimplemented!() }
    #[verifier::external_body] pub fn worker_to_coordinator_task(&mut self, task_i: usize, rx: UnboundedReceiver<WorkerToCoordinatorMsg>) -> (r: UnboundedReceiver<LoadInfo>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn coordinator_to_worker_task(&mut self, task_i: usize, tx: UnboundedSender<CoordinatorToWorkerMsg>) -> (r: Result<()>) ensures *final(self) == *old(self) { unimplemented!() }
//@fn src/coordinator/query_coordinator.rs StageCoordinator::send_plan_task
//@ spec: ensures r is Ok ==> same_stage(*final(self), *old(self)) && final(self).sent@.len() == old(self).sent@.len() + 1
//@        && final(self).sent@ =~= old(self).sent@.push(final(self).sent@.last())
//@        && carries(final(self).sent@.last(), task_i as int, url, old(self).query_id, old(self).stage_id, *old(self).plan, old(self).task_count),
//@   r is Err ==> same_stage(*final(self), *old(self)),
//@ subst: UnboundedReceiverStream::new(coordinator_to_worker_rx).map(set_work_unit_send_time).chain(keep_stream_alive(self.end_stream_notifier.clone())).boxed() => vx_stream(coordinator_to_worker_rx)
//@ subst: self.metrics.clone() => vx_metrics(self.metrics)
//@ subst: self.metrics_set.clone() => vx_metrics_set()
//@ subst: self.join_set.lock().unwrap().spawn => self.vx_spawn
//@ async 0: job(url, set_plan_request)
//@ loop 0: -
//@end
//@fn src/coordinator/query_coordinator.rs StageCoordinator::routed_urls
//@ spec: ensures r is Ok ==> r->Ok_0@.len() == self.task_count,
//@end
}
#[verifier::exec_allows_no_decreases_clause]
//@fn src/coordinator/query_coordinator.rs StageCoordinator::send_plan_task#a0 as send_job noasync novac
//@ sig: pub fn $name(task_ctx: Arc<TaskContext>, url: Url, metrics: Metrics, metrics_set: ExecutionPlanMetricsSet, headers: HeaderMap, set_plan_request: SetPlanRequest, coordinator_to_worker_stream: MsgStream, worker_to_coordinator_tx: UnboundedSender<WorkerToCoordinatorMsg>) -> (r: Result<()>)
//@ spec: requires set_plan_request.target_worker_url == url,
//@ subst: task_ctx.as_ref() => &task_ctx
//@ loop 0: invariant true,
//@end
// ------------------------------------------------------------------ routing
pub struct RouteTasksEvent<'a> { pub task_ctx: Arc<TaskContext>, pub plan: &'a PlanRef, pub task_count: usize }
//@struct src/events/route_tasks.rs RouteTasksEventResponse
impl RouteTasksEventResponse {
//@fn src/events/route_tasks.rs RouteTasksEventResponse::new
//@ spec: ensures r.urls == urls,
//@end
}
pub struct RouteTasksHandlers {}
impl RouteTasksHandlers { #[verifier::external_body] pub fn handle(ev: RouteTasksEvent) -> (r: Option<Result<RouteTasksEventResponse>>) { unimplemented!() } }
pub assume_specification<T, E>[ Option::<core::result::Result<T, E>>::transpose ](o: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
    ensures r == match o { None => Ok(None), Some(Ok(v)) => Ok(Some(v)), Some(Err(e)) => Err(e) };
/// an index that was drawn
pub uninterp spec fn picked(s: int) -> bool;
#[verifier::external_body] pub fn vx_random(n: usize) -> (r: usize) requires n > 0 ensures r < n, picked(r as int) { unimplemented!() }
/// task i goes to the worker (s + i) modulo the number of workers
pub open spec fn round_robin(u: Seq<Url>, known: Seq<Url>, s: int) -> bool { forall|i: int| 0 <= i < u.len() ==> #[trigger] u[i] == known[(s + i) % (known.len() as int)] }
//@fn src/events/defaults/routing.rs random_routing
//@ spec: requires ev.task_count <= 0xffff_ffff, ev.task_ctx.cfg().resolver().known().len() <= 0xffff_ffff,
//@   ensures r is Some,
//@     r->0 is Ok ==> ev.task_ctx.cfg().resolver().known().len() > 0 && r->0->Ok_0.urls@.len() == ev.task_count
//@        && exists|s: int| #[trigger] picked(s) && 0 <= s < ev.task_ctx.cfg().resolver().known().len() && round_robin(r->0->Ok_0.urls@, ev.task_ctx.cfg().resolver().known(), s),
//@ subst: rand::rng().random_range(0..available_urls.len()) => vx_random(available_urls.len())
//@ closure 0: -> (o: Url) requires $0 < ev.task_count, start_idx < available_urls.len(), ev.task_count <= 0xffff_ffff, available_urls@.len() <= 0xffff_ffff ensures o == available_urls@[(start_idx + $0) % (available_urls@.len() as int)]
//@end
/// a run of n consecutive tasks that starts at a worker gives every worker floor(n/k) or ceil(n/k) of them: the tasks of one worker are exactly k apart
pub proof fn theorem_even(known: Seq<Url>, s: int, i: int, j: int)
    requires known.len() > 0, 0 <= s, 0 <= i < j, (s + i) % (known.len() as int) == (s + j) % (known.len() as int),
    ensures (j - i) % (known.len() as int) == 0, j - i >= known.len(),
{
    let k = known.len() as int;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s + i, k);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s + j, k);
    let d = (s + j) / k - (s + i) / k;
    assert(j - i == k * d) by (nonlinear_arith) requires s + i == k * ((s + i) / k) + (s + i) % k, s + j == k * ((s + j) / k) + (s + j) % k, (s + i) % k == (s + j) % k, d == (s + j) / k - (s + i) / k;
    assert((k * d) % k == 0) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(d, k); assert(k * d == d * k) by (nonlinear_arith); }
    assert(d >= 1) by (nonlinear_arith) requires k > 0, k * d > 0;
    assert(k * d >= k) by (nonlinear_arith) requires d >= 1, k > 0;
}
//@fn src/events/defaults/routing.rs single_task_coordinator_routing
//@ spec: ensures r is Some ==> ev.task_count == 1 && ev.task_ctx.cfg().local() is Some && r->0 is Ok && r->0->Ok_0.urls@ =~= seq![ev.task_ctx.cfg().local()->0.self_url],
//@ closure 0: -> (o: Result<RouteTasksEventResponse>) ensures o is Ok && o->Ok_0.urls@ =~= seq![$0.self_url]
//@end
// ------------------------------------------------------------------ dispatch of a planned stage
pub struct QueryCoordinator { pub task_ctx: Arc<TaskContext>, pub coordinator_to_worker_metrics: CoordMetrics }
impl QueryCoordinator {
//@fn src/coordinator/query_coordinator.rs QueryCoordinator::stage_coordinator
//@ spec: ensures r.plan == stage.plan && r.query_id == stage.query_id && r.stage_id == stage.num && r.task_count == stage.tasks && r.sent@.len() == 0,
//@ subst: metrics_set: &self.metrics, => 
//@ subst: metrics_store: &self.metrics_store, => 
//@ subst: end_stream_notifier: &self.end_stream_notifier, => 
//@ subst: join_set: &self.join_set => sent: Ghost(Seq::empty())
//@end
}
#[verifier::external_body] pub struct NbRef { _x: u8 }
pub uninterp spec fn boundary_of(p: PlanRef) -> Option<NbRef>;
pub uninterp spec fn with_stage(n: NbRef, q: Uuid, num: usize, w: Seq<Url>) -> PlanRef;
impl PlanRef { #[verifier::external_body] pub fn as_network_boundary(&self) -> (r: Option<&NbRef>) ensures match r { Some(n) => boundary_of(*self) == Some(*n), None => boundary_of(*self) is None } { unimplemented!() } }
pub uninterp spec fn stage_of(n: NbRef) -> Stage;
impl NbRef {
    #[verifier::external_body] pub fn input_stage(&self) -> (r: &Stage) ensures *r == stage_of(*self) { unimplemented!() }
    /// readers contact the addresses in the stage (C04): they must be the ones the plans went to
    #[verifier::external_body] pub fn with_input_stage(&self, s: Stage) -> (r: Result<PlanRef>)
        requires s is Remote && stage_of(*self) is Local && s->Remote_0.query_id == stage_of(*self)->Local_0.query_id && s->Remote_0.num == stage_of(*self)->Local_0.num
            && s->Remote_0.workers@.len() == stage_of(*self)->Local_0.tasks && dispatched(s->Remote_0.query_id, s->Remote_0.num, s->Remote_0.workers@),
        ensures r is Ok ==> r->Ok_0 == with_stage(*self, s->Remote_0.query_id, s->Remote_0.num, s->Remote_0.workers@),
    { unimplemented!() }
}
pub struct Transformed { pub data: PlanRef, pub transformed: bool }
impl Transformed { pub fn yes(p: PlanRef) -> (r: Self) ensures r.data == p { Transformed { data: p, transformed: true } } pub fn no(p: PlanRef) -> (r: Self) ensures r.data == p { Transformed { data: p, transformed: false } } }
//@fn src/coordinator/prepare_static_plan.rs prepare_static_plan#c0 as dispatch_boundary
//@ entry: broadcast use def_dispatched;
//@ sig: pub fn $name(plan: PlanRef, query_coordinator: &QueryCoordinator) -> (r: Result<Transformed>)
//@ spec: ensures r is Ok && boundary_of(plan) is None ==> r->Ok_0.data == plan,
//@   r is Ok && boundary_of(plan) is Some ==> stage_of(boundary_of(plan)->0) is Local && exists|w: Seq<Url>| w.len() == stage_of(boundary_of(plan)->0)->Local_0.tasks
//@      && dispatched(stage_of(boundary_of(plan)->0)->Local_0.query_id, stage_of(boundary_of(plan)->0)->Local_0.num, w)
//@      && r->Ok_0.data == #[trigger] with_stage(boundary_of(plan)->0, stage_of(boundary_of(plan)->0)->Local_0.query_id, stage_of(boundary_of(plan)->0)->Local_0.num, w),
//@ loop 0: invariant it0.seq().len() == stage.tasks, 0 <= it0.index() <= it0.seq().len(), is_coord(stage_coordinator, *stage), numbered(it0.seq()), sent_upto(stage_coordinator, workers@, it0.index()),
//@end
pub open spec fn numbered(s: Seq<(usize, Url)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == i }
pub open spec fn is_coord(c: StageCoordinator, s: LocalStage) -> bool { *c.plan == s.plan && c.query_id == s.query_id && c.stage_id == s.num && c.task_count == s.tasks }
} // verus!
fn main() {}
