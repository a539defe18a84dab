//@include lib/base.rs
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@arcclone
//@strip tokio::sync::mpsc futures::future futures::stream watch
verus! {
// ------------------------------------------------------------------ dependencies
macro_rules! opaque { ($($n:ident)*) => { verus!{ $( #[verifier::external_body] pub struct $n { _x: u8 } )* } } }
opaque!{ PlanRef Uuid Url MetricsTx TaskDataMetrics PlanCell MetricsCell WorkUnitTx Senders TaskDataEntries InStream SendError TaskMetrics SessionConfig TaskContext Metrics ExecutionPlanMetricsSet MetricsStore HeaderMap WorkUnitFeedDeclaration WorkerToCoordinatorMsg Batch }
pub enum MaybeEncoded<T> { Encoded(Vec<u8>), Decoded(T) }
impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Uuid {}
impl Clone for Url { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@struct src/protocol/worker_channel.rs TaskKey
impl Clone for TaskKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for TaskKey {}
#[derive(Clone, Copy)]
//@struct src/stage.rs DistributedTaskContext
pub struct WorkUnitMsg { pub id: Uuid, pub partition: usize }
pub struct WorkUnitBatch { pub batch: Vec<WorkUnitMsg> }
pub enum CoordinatorToWorkerMsg { WorkUnitBatch(WorkUnitBatch), WorkUnitEos }
/// what happened: the tasks a worker forgot, in order; whether the messages of the coordinator are over; the queries that ended, and those whose end is guarded
pub struct World { pub forgotten: Seq<TaskKey>, pub over: bool, pub ended: Set<int>, pub guarded: Set<int> }
#[verifier::external_body] pub struct Net { _x: u8 }
impl Net { pub uninterp spec fn view(&self) -> World; }
// ------------------------------------------------------------------ the worker: a task lives as long as its channel
impl InStream {
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body] pub fn map_ok(self) -> (r: Self) { unimplemented!() }
    /// the next message; the messages are over when there is none, or when the connection failed
    #[verifier::external_body] pub fn next(&mut self, net: &mut Net) -> (r: Option<Result<CoordinatorToWorkerMsg>>)
        ensures r is Some ==> final(self).left() < old(self).left(), final(net)@ == (World { over: old(net)@.over || !(r is Some && r->0 is Ok), ..old(net)@ }) { unimplemented!() }
}
impl DataFusionError { #[verifier::external_body] pub fn Shared(e: Arc<DataFusionError>) -> Self { unimplemented!() } }
impl WorkUnitTx { #[verifier::external_body] pub fn send(&self, m: Result<WorkUnitMsg>) -> core::result::Result<(), SendError> { unimplemented!() } }
impl Senders {
    #[verifier::external_body] pub fn none() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn into_values(self) -> Vec<WorkUnitTx> { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &(Uuid, usize)) -> Option<&WorkUnitTx> { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &(Uuid, usize)) -> Option<WorkUnitTx> { unimplemented!() }
}
impl TaskDataMetrics { #[verifier::external_body] pub fn mark_execution_finished(&self) { unimplemented!() } }
impl PlanCell { #[verifier::external_body] pub fn get(&self) -> (r: Option<&core::result::Result<PlanRef, Arc<DataFusionError>>>) { unimplemented!() } }
#[verifier::external_body] pub fn take_metrics_tx(c: &MetricsCell) -> (r: Option<MetricsTx>) { unimplemented!() }
/// the metrics are complete when the messages are over, and are read before the task is forgotten
#[verifier::external_body] pub fn send_metrics_via_channel(net: &Net, key: TaskKey, chan: MetricsTx, plan: &PlanRef, task: DistributedTaskContext, own: &Arc<TaskDataMetrics>)
    requires net@.over, !net@.forgotten.contains(key) { unimplemented!() }
impl TaskDataEntries { #[verifier::external_body] pub fn invalidate(&self, net: &mut Net, k: &TaskKey)
    // not while the channel is open
    requires old(net)@.over,
    ensures final(net)@ == (World { forgotten: old(net)@.forgotten.push(*k), ..old(net)@ }) { unimplemented!() } }
pub struct TaskData { pub metrics_tx: MetricsCell, pub final_plan: PlanCell, pub task_data_metrics: Arc<TaskDataMetrics> }
pub struct RequestRest { pub task_count: usize }
// however the messages of the coordinator end, and whether the task ran or not, the worker forgets this task, once, and not before
//@fn src/worker/impl_coordinator_channel.rs Worker::coordinator_channel#a2 as until_the_end noasync
//@ sig: pub fn $name(stream: InStream, mut work_unit_senders: Option<Senders>, task_data: TaskData, task_data_entries: Arc<TaskDataEntries>, key: TaskKey, request: RequestRest, net: &mut Net)
//@ spec: requires !old(net)@.over, !old(net)@.forgotten.contains(key),
//@   ensures final(net)@.forgotten =~= old(net)@.forgotten.push(key), final(net)@.over,
//@ ghost: let ghost n0 = net@;
//@ subst: map_ok($..) => map_ok()
//@ subst: stream.next() => stream.next(net)
//@ subst: .unwrap_or_default() => .unwrap_or(Senders::none())
//@ subst: task_data.metrics_tx.lock().unwrap().take() => take_metrics_tx(&task_data.metrics_tx)
//@ subst: send_metrics_via_channel($..) => send_metrics_via_channel(net, key, $..)
//@ subst: .invalidate($..) => .invalidate(net, $..)
//@ loop 0: invariant_except_break !net@.over, invariant net@.forgotten == n0.forgotten, ensures net@.forgotten == n0.forgotten, net@.over, decreases stream.left(),
//@ loop 1: invariant net@.forgotten == n0.forgotten, net@.over,
//@ loop 2: invariant net@.forgotten == n0.forgotten, !net@.over,
//@end
// ------------------------------------------------------------------ the coordinator: the channels stay open until the query ends, and all end then
pub struct Notify { pub id: Ghost<int> }
/// completes when the query `id` ends
pub struct Notified { pub id: Ghost<int> }
impl Notify {
    pub open spec fn query(&self) -> int { self.id@ }
    #[verifier::external_body] pub fn new() -> Notify { unimplemented!() }
    #[verifier::external_body] pub fn notify_waiters(&self, net: &mut Net) ensures final(net)@ == (World { ended: old(net)@.ended.insert(self.query()), ..old(net)@ }) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_notified_owned(n: Arc<Notify>) -> (r: Notified) ensures r.id@ == n.query() { unimplemented!() }
//@struct src/coordinator/query_coordinator.rs NotifyGuard
// a guard that is dropped ends its query
//@fn src/coordinator/query_coordinator.rs NotifyGuard::drop@Drop as drop_guard
//@ sig: pub fn $name(guard: NotifyGuard, net: &mut Net)
//@ spec: ensures final(net)@ == (World { ended: old(net)@.ended.insert(guard.0.query()), ..old(net)@ }),
//@ subst: self.0.notify_waiters() => guard.0.notify_waiters(net)
//@end
/// a stream without items that ends with the query
pub struct Tail { pub ends_with: Ghost<int> }
pub struct Once { pub id: Ghost<int> }
pub fn once(n: Notified) -> (r: Once) ensures r.id@ == n.id@ { Once { id: n.id } }
pub fn ready<T>(t: T) -> (r: T) ensures r == t { t }
impl Once {
    /// every item is dropped
    #[verifier::external_body] pub fn filter_map<F: Fn(()) -> Option<CoordinatorToWorkerMsg>>(self, f: F) -> (r: Tail)
        requires forall|u: ()| #[trigger] f.requires((u,)), forall|u: (), o: Option<CoordinatorToWorkerMsg>| #[trigger] f.ensures((u,), o) ==> o is None,
        ensures r.ends_with@ == self.id@ { unimplemented!() }
}
//@fn src/coordinator/query_coordinator.rs keep_stream_alive
//@ sig: pub fn $name(notify: Arc<Notify>) -> (r: Tail)
//@ spec: ensures r.ends_with@ == notify.query(),
//@ subst: notify.notified_owned() => vx_notified_owned(notify)
//@ closure 0: |$0: ()| -> (o: Option<CoordinatorToWorkerMsg>) ensures o is None
//@end
pub struct JoinSet { pub sent: Ghost<Seq<Sent>> }
pub struct QueryCoordinator { pub task_ctx: Arc<TaskContext>, pub metrics_store: Option<Arc<MetricsStore>>, pub end_stream_notifier: Arc<Notify> }
impl QueryCoordinator {
    pub open spec fn query(&self) -> int { self.end_stream_notifier.query() }
//@fn src/coordinator/query_coordinator.rs QueryCoordinator::end_query_guard
//@ sig: pub fn $name(&self) -> (r: NotifyGuard)
//@ spec: ensures r.0.query() == self.query(),
//@end
    /// a guard lives from here on (dropping it is the only way it goes)
    #[verifier::external_body] pub fn vx_guard(&self, net: &mut Net) -> (r: NotifyGuard) ensures r.0.query() == self.query(), final(net)@ == (World { guarded: old(net)@.guarded.insert(self.query()), ..old(net)@ }) { unimplemented!() }
}
/// the plan of one task on its way to a worker: with the messages that follow it
pub struct Sent { pub url: Url, pub req: SetPlanRequest, pub stream: MsgStream }
//@struct src/protocol/worker_channel.rs SetPlanRequest
/// the messages to a worker: what is sent on a channel, then a tail
pub struct MsgStream { pub chan: Ghost<int>, pub ends_with: Ghost<int> }
pub struct Tx { pub chan: Ghost<int> }
pub struct Rx { pub chan: Ghost<int> }
#[verifier::external_body] pub struct ReplyTx { _x: u8 }
#[verifier::external_body] pub struct ReplyRx { _x: u8 }
#[verifier::external_body] pub fn msg_channel() -> (r: (Tx, Rx)) ensures r.0.chan@ == r.1.chan@ { unimplemented!() }
#[verifier::external_body] pub fn reply_channel() -> (r: (ReplyTx, ReplyRx)) { unimplemented!() }
pub struct RxStream { pub chan: Ghost<int> }
impl RxStream {
    pub fn new(rx: Rx) -> (r: RxStream) ensures r.chan@ == rx.chan@ { RxStream { chan: rx.chan } }
    pub fn vx_stamped(self) -> (r: RxStream) ensures r == self { self }
    pub fn chain(self, t: Tail) -> (r: MsgStream) ensures r.chan@ == self.chan@, r.ends_with@ == t.ends_with@ { MsgStream { chan: self.chan, ends_with: t.ends_with } }
}
impl MsgStream { pub fn boxed(self) -> (r: MsgStream) ensures r == self { self } }
pub struct LocalWorkerContext { pub self_url: Url }
impl LocalWorkerContext { #[verifier::external_body] pub fn from_ctx(c: &Arc<TaskContext>) -> Option<LocalWorkerContext> { unimplemented!() } }
impl Url { pub uninterp spec fn same(&self, o: &Url) -> bool; }
impl PartialEq for Url { #[verifier::external_body] fn eq(&self, o: &Url) -> bool { unimplemented!() } }
#[verifier::external_body] pub fn encode_execution_plan(p: PlanRef, c: &Arc<TaskContext>) -> Result<Vec<u8>> { unimplemented!() }
#[verifier::external_body] pub fn get_config_extension_propagation_headers(c: &SessionConfig) -> Result<HeaderMap> { unimplemented!() }
#[verifier::external_body] pub fn get_passthrough_headers(c: &SessionConfig) -> HeaderMap { unimplemented!() }
impl HeaderMap { #[verifier::external_body] pub fn extend(&mut self, o: HeaderMap) { unimplemented!() } }
impl TaskContext { #[verifier::external_body] pub fn session_config(&self) -> &SessionConfig { unimplemented!() } }
pub struct CoordMetrics { pub instantiation_time: usize }
#[verifier::external_body] pub fn vx_copy<T>(t: &T) -> T { unimplemented!() }
pub fn job(url: Url, req: SetPlanRequest, stream: MsgStream) -> (r: Sent) ensures r == (Sent { url, req, stream }) { Sent { url, req, stream } }
pub struct StageCoordinator<'a> { pub plan: &'a PlanRef, pub query_id: Uuid, pub stage_id: usize, pub task_count: usize, pub task_ctx: &'a Arc<TaskContext>, pub metrics_set: &'a ExecutionPlanMetricsSet, pub metrics: &'a CoordMetrics, pub end_stream_notifier: &'a Arc<Notify>, pub sent: Ghost<Seq<Sent>> }
impl<'a> StageCoordinator<'a> {
    pub open spec fn query(&self) -> int { self.end_stream_notifier.query() }
    pub fn vx_spawn(&mut self, j: Sent) ensures final(self).sent@ == old(self).sent@.push(j), final(self).end_stream_notifier == old(self).end_stream_notifier
    { proof { self.sent@ = self.sent@.push(j); } }
    #[verifier::external_body] pub fn task_specialized_plan(&self, task_i: usize) -> Result<(PlanRef, Vec<WorkUnitFeedDeclaration>)> { unimplemented!() }
// the messages to a task are what is sent on its channel, and go on until the query ends
//@fn src/coordinator/query_coordinator.rs StageCoordinator::send_plan_task
//@ sig: pub fn $name(&mut self, task_i: usize, url: Url) -> (r: Result<(Tx, ReplyRx)>)
//@ spec: ensures r is Ok ==> final(self).sent@.len() == old(self).sent@.len() + 1 && final(self).sent@.drop_last() =~= old(self).sent@
//@        && final(self).sent@.last().stream.chan@ == r->Ok_0.0.chan@ && final(self).sent@.last().stream.ends_with@ == old(self).query(),
//@   r is Err ==> final(self).sent@ == old(self).sent@,
//@ subst: let (coordinator_to_worker_tx, coordinator_to_worker_rx) = unbounded_channel() => let (coordinator_to_worker_tx, coordinator_to_worker_rx) = msg_channel()
//@ subst: let (worker_to_coordinator_tx, worker_to_coordinator_rx) = unbounded_channel() => let (worker_to_coordinator_tx, worker_to_coordinator_rx) = reply_channel()
//@ subst: UnboundedReceiverStream::new => RxStream::new
//@ subst: .map(set_work_unit_send_time) => .vx_stamped()
//@ subst: self.metrics.clone() => vx_copy(self.metrics)
//@ subst: self.metrics_set.clone() => vx_copy(self.metrics_set)
//@ subst: self.join_set.lock().unwrap().spawn => self.vx_spawn
//@ async 0: job(url, set_plan_request, coordinator_to_worker_stream)
//@end
}
// ------------------------------------------------------------------ work units are no longer sent when the query is over
#[verifier::external_body] pub struct WorkUnitFeedRegistry { _x: u8 }
#[verifier::external_body] pub struct Feed { _x: u8 }
impl WorkUnitFeedRegistry { #[verifier::external_body] pub fn get_work_unit_feed(&self, p: &PlanRef) -> Option<&Feed> { unimplemented!() } }
/// a stream of units; it ends with the query `until` if it has not ended before
#[verifier::external_body] pub struct UStream { _x: u8 }
impl UStream {
    pub uninterp spec fn until(&self) -> Option<int>;
    #[verifier::external_body] pub fn vx_tag(self) -> (r: UStream) ensures r.until() == self.until() { unimplemented!() }
    #[verifier::external_body] pub fn ready_chunks(self, n: usize) -> (r: UStream) ensures r.until() == self.until() { unimplemented!() }
    #[verifier::external_body] pub fn take_until(self, n: Notified) -> (r: UStream) ensures r.until() == Some(n.id@) { unimplemented!() }
}
#[verifier::external_body] pub fn select_all(v: Vec<UStream>) -> (r: UStream) ensures r.until() is None { unimplemented!() }
impl Feed {
    #[verifier::external_body] pub fn feed(&self, p: usize, c: Arc<TaskContext>) -> Result<UStream> { unimplemented!() }
    #[verifier::external_body] pub fn id(&self) -> Uuid { unimplemented!() }
}
pub uninterp spec fn parts(p: PlanRef) -> usize;
#[verifier::external_body] pub fn vx_parts(p: &PlanRef) -> (r: usize) ensures r == parts(*p) { unimplemented!() }
pub struct DistributedWorkUnitFeedContext { pub fan_out_tasks: usize }
#[verifier::external_body] pub fn task_ctx_with_extension(c: &Arc<TaskContext>, e: DistributedWorkUnitFeedContext) -> TaskContext { unimplemented!() }
pub enum TreeNodeRecursion { Continue, Jump, Stop }
pub struct SendJob { pub units: UStream }
pub fn send_job(units: UStream) -> (r: SendJob) ensures r.units == units { SendJob { units } }
pub fn vx_pin<T>(t: T) -> (r: T) ensures r == t { t }
impl Clone for Tx { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@const src/coordinator/query_coordinator.rs WORK_UNIT_FEED_CHUNK_SIZE
//@fn src/coordinator/query_coordinator.rs StageCoordinator::coordinator_to_worker_task#c0 as send_node_units
//@ sig: pub fn $name(plan: &PlanRef, d_ctx: DistributedTaskContext, task_i: usize, wuf_registry: &WorkUnitFeedRegistry, task_ctx: &Arc<TaskContext>, end_stream_notifier: &Arc<Notify>, tx: &Tx, futures: &mut Vec<SendJob>) -> (r: Result<TreeNodeRecursion>)
//@ spec: requires d_ctx.task_index < d_ctx.task_count, parts(*plan) * d_ctx.task_count <= usize::MAX,
//@   ensures old(futures)@.len() <= final(futures)@.len(), final(futures)@.take(old(futures)@.len() as int) =~= old(futures)@,
//@     forall|i: int| old(futures)@.len() <= i < final(futures)@.len() ==> (#[trigger] final(futures)@[i]).units.until() == Some(end_stream_notifier.query()),
//@ entry: assert(parts(*plan) * d_ctx.task_index + parts(*plan) <= parts(*plan) * d_ctx.task_count) by (nonlinear_arith) requires d_ctx.task_index < d_ctx.task_count, parts(*plan) >= 0; assert(parts(*plan) * d_ctx.task_index <= parts(*plan) * d_ctx.task_count) by (nonlinear_arith) requires d_ctx.task_index < d_ctx.task_count, parts(*plan) >= 0;
//@ subst: self.task_ctx => task_ctx
//@ subst: self.end_stream_notifier.clone().notified_owned() => vx_notified_owned(end_stream_notifier.clone())
//@ subst: plan.properties().partitioning.partition_count() => vx_parts(plan)
//@ subst: Vec::with_capacity => Vec::<UStream>::with_capacity
//@ subst: .map($..) => .vx_tag()
//@ subst: Box::pin($..) => vx_pin($..)
//@ async 0: send_job(chunked_interleaved_feed)
//@ loop 0: invariant parts(*plan) == end_partition - start_partition,
//@end
// ------------------------------------------------------------------ the query as a whole
#[verifier::external_body] pub struct SendableRecordBatchStream { _x: u8 }
pub type Row = Result<Batch>;
impl SendableRecordBatchStream {
    pub uninterp spec fn query(&self) -> int;
    pub uninterp spec fn rest(&self) -> Seq<Row>;
    /// rows are read while the query goes on
    #[verifier::external_body] pub fn next(&mut self, net: &Net) -> (r: Option<Row>) requires !net@.ended.contains(old(self).query())
        ensures final(self).query() == old(self).query(), r is None ==> old(self).rest().len() == 0, r is Some ==> old(self).rest().len() > 0 && r->0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) { unimplemented!() }
}
/// what the client receives
#[verifier::external_body] pub struct OutTx { _x: u8 }
#[verifier::external_body] pub struct Out { _x: u8 }
impl Out { pub uninterp spec fn got(&self) -> Seq<Row>; pub uninterp spec fn gone(&self) -> bool; }
impl OutTx { #[verifier::external_body] pub fn send(&self, m: Row, out: &mut Out) -> (r: core::result::Result<(), SendError>)
    ensures r is Ok ==> final(out).got() == old(out).got().push(m) && final(out).gone() == old(out).gone(), r is Err ==> final(out).gone() && final(out).got() == old(out).got() { unimplemented!() } }
pub fn drop_tx(tx: OutTx) {}
pub struct DistributedConfig { pub dynamic_task_count: bool }
#[verifier::external_body] pub fn config_of(c: &Arc<TaskContext>) -> Result<DistributedConfig> { unimplemented!() }
pub struct PreparedPlan { pub head_stage: PlanRef, pub plan_for_viz: PlanRef }
/// plans are sent only when the end of the query is guarded, so that the query ends however the rest goes
#[verifier::external_body] pub fn prepare_dynamic_plan(q: &QueryCoordinator, p: &PlanRef, net: &Net) -> Result<PreparedPlan> requires net@.guarded.contains(q.query()), !net@.ended.contains(q.query()) { unimplemented!() }
#[verifier::external_body] pub fn prepare_static_plan(q: &QueryCoordinator, p: &PlanRef, net: &Net) -> Result<PreparedPlan> requires net@.guarded.contains(q.query()), !net@.ended.contains(q.query()) { unimplemented!() }
pub uninterp spec fn rows_of(p: PlanRef) -> Seq<Row>;
impl PlanRef { #[verifier::external_body] pub fn execute_for(&self, partition: usize, c: Arc<TaskContext>, q: &QueryCoordinator, net: &Net) -> (r: Result<SendableRecordBatchStream>) requires net@.guarded.contains(q.query()), !net@.ended.contains(q.query()) ensures r is Ok ==> r->Ok_0.query() == q.query() { unimplemented!() } }
impl QueryCoordinator {
    /// waits for the jobs of the query: the plans that are sent (until the workers close the channels) and the feeds; they only end for sure once the query does
    #[verifier::external_body] pub fn drain_pending_tasks(self, net: &Net) -> Result<()> requires net@.ended.contains(self.query()) { unimplemented!() }
}
pub struct Shown {}
//@fn src/coordinator/distributed.rs DistributedExec::execute#a0 as run_query noasync
//@ sig: pub fn $name(query_coordinator: QueryCoordinator, base_plan: PlanRef, context: Arc<TaskContext>, partition: usize, tx: OutTx, out: &mut Out, net: &mut Net) -> (r: Result<()>)
//@ spec: requires !old(net)@.ended.contains(query_coordinator.query()),
//@   ensures final(net)@.guarded.contains(query_coordinator.query()) || final(net)@ == old(net)@, r is Ok ==> final(net)@.ended.contains(query_coordinator.query()),
//@     final(net)@.ended.subset_of(old(net)@.ended.insert(query_coordinator.query())),
//@ ghost: let ghost n0 = net@; let ghost q = query_coordinator.query();
//@ subst: query_coordinator.end_query_guard() => query_coordinator.vx_guard(net)
//@ subst: DistributedConfig::from_config_options(context.session_config().options()) => config_of(&context)
//@ subst: prepare_dynamic_plan($..) => prepare_dynamic_plan($.., net)
//@ subst: prepare_static_plan($..) => prepare_static_plan($.., net)
//@ subst: plan_for_viz.lock().expect("poisoned lock").replace($..) => ()
//@ subst: head_stage.lock().expect("poisoned lock").replace($..) => ()
//@ subst: result.head_stage.execute($..) => result.head_stage.execute_for($.., &query_coordinator, net)
//@ subst: stream.next() => stream.next(net)
//@ subst: tx.send($..) => tx.send($.., out)
//@ subst: drop(tx) => drop_tx(tx)
//@ subst: drop(guard) => drop_guard(guard, net)
//@ subst: .drain_pending_tasks() => .drain_pending_tasks(net)
//@ loop 0: invariant !net@.ended.contains(q), net@.ended == n0.ended, net@.guarded == n0.guarded.insert(q), stream.query() == q, decreases stream.rest().len(),
//@end
} // verus!
fn main() {}
