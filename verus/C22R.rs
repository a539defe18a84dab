//@include lib/base.rs
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@arcclone
//@strip watch
verus! {
// ------------------------------------------------------------------ dependencies
macro_rules! opaque { ($($n:ident)*) => { verus!{ $( #[verifier::external_body] pub struct $n { _x: u8 } )* } } }
opaque!{ PlanRef Uuid MetricsTx TaskDataMetrics PlanCell MetricsCell WorkUnitTx Senders TaskDataEntries InStream SendError TaskMetrics LoadInfo LoadTx LoadRx }
impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Uuid {}
//@struct src/protocol/worker_channel.rs TaskKey
impl Clone for TaskKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for TaskKey {}
#[derive(Clone, Copy)]
//@struct src/stage.rs DistributedTaskContext
pub struct WorkUnitMsg { pub id: Uuid, pub partition: usize }
pub struct WorkUnitBatch { pub batch: Vec<WorkUnitMsg> }
pub enum CoordinatorToWorkerMsg { WorkUnitBatch(WorkUnitBatch), WorkUnitEos }
impl InStream {
    /// the stream is over
    pub uninterp spec fn ended(&self) -> bool;
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body] pub fn map_ok(self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<CoordinatorToWorkerMsg>>) ensures r is Some ==> final(self).left() < old(self).left() { unimplemented!() }
}
impl DataFusionError { #[verifier::external_body] pub fn Shared(e: Arc<DataFusionError>) -> Self { unimplemented!() } }
impl WorkUnitTx { #[verifier::external_body] pub fn send(&self, m: Result<WorkUnitMsg>) -> core::result::Result<(), SendError> { unimplemented!() } }
impl Senders {
    #[verifier::external_body] pub fn none() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn into_values(self) -> Vec<WorkUnitTx> { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &(Uuid, usize)) -> Option<&WorkUnitTx> { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &(Uuid, usize)) -> Option<WorkUnitTx> { unimplemented!() }
}
/// a report that reaches the coordinator: the metrics of what `task` runs of `plan` (the contract of send_metrics_via_channel, C22)
pub struct Report { pub chan: MetricsTx, pub plan: PlanRef, pub task: DistributedTaskContext, pub own: Arc<TaskDataMetrics> }
pub struct World { pub reports: Seq<Report>, pub stored: Seq<(TaskKey, TaskMetrics)>, pub loads: Seq<LoadInfo> }
#[verifier::external_body] pub struct Net { _x: u8 }
impl Net { pub uninterp spec fn view(&self) -> World; }
impl TaskDataMetrics { #[verifier::external_body] pub fn mark_execution_finished(&self) { unimplemented!() } }
/// the plan that was executed for a request, if any was; when the messages of the coordinator are over, none is started any more
impl PlanCell { pub uninterp spec fn ran(&self) -> Option<core::result::Result<PlanRef, Arc<DataFusionError>>>; #[verifier::external_body] pub fn get(&self) -> (r: Option<&core::result::Result<PlanRef, Arc<DataFusionError>>>) ensures match r { Some(x) => self.ran() == Some(*x), None => self.ran() is None } { unimplemented!() } }
/// the sender of the report, where metrics are collected
impl MetricsCell { pub uninterp spec fn init(&self) -> Option<MetricsTx>; }
#[verifier::external_body] pub fn take_metrics_tx(c: &MetricsCell) -> (r: Option<MetricsTx>) ensures r == c.init() { unimplemented!() }
#[verifier::external_body] pub fn send_metrics_via_channel(net: &mut Net, chan: MetricsTx, plan: &PlanRef, task: DistributedTaskContext, own: &Arc<TaskDataMetrics>)
    ensures final(net)@ == (World { reports: old(net)@.reports.push(Report { chan, plan: *plan, task, own: *own }), ..old(net)@ }) { unimplemented!() }
impl TaskDataEntries { #[verifier::external_body] pub fn invalidate(&self, net: &mut Net, k: &TaskKey) ensures final(net)@ == old(net)@ { unimplemented!() } }
pub struct TaskData { pub metrics_tx: MetricsCell, pub final_plan: PlanCell, pub task_data_metrics: Arc<TaskDataMetrics> }
pub struct RequestRest { pub task_count: usize }
/// what the task reports: what the plan it executed measured, if it executed one and is asked to report
pub open spec fn reported(t: TaskData, key: TaskKey, tasks: usize) -> Seq<Report> {
    match (t.metrics_tx.init(), t.final_plan.ran()) {
        (Some(chan), Some(Ok(plan))) => seq![Report { chan, plan, task: DistributedTaskContext { task_index: key.task_number, task_count: tasks }, own: t.task_data_metrics }],
        _ => seq![],
    }
}
// however the messages of the coordinator end, the task reports once
//@fn src/worker/impl_coordinator_channel.rs Worker::coordinator_channel#a2 as report_at_the_end noasync
//@ sig: pub fn $name(stream: InStream, mut work_unit_senders: Option<Senders>, task_data: TaskData, task_data_entries: Arc<TaskDataEntries>, key: TaskKey, request: RequestRest, net: &mut Net)
//@ spec: ensures final(net)@.reports =~= old(net)@.reports + reported(task_data, key, request.task_count),
//@ ghost: let ghost n0 = net@;
//@ subst: map_ok($..) => map_ok()
//@ subst: .unwrap_or_default() => .unwrap_or(Senders::none())
//@ subst: task_data.metrics_tx.lock().unwrap().take() => take_metrics_tx(&task_data.metrics_tx)
//@ subst: send_metrics_via_channel($..) => send_metrics_via_channel(net, $..)
//@ subst: .invalidate($..) => .invalidate(net, $..)
//@ loop 0: invariant net@ == n0, ensures net@ == n0, decreases stream.left(),
//@ loop 1: invariant net@ == n0,
//@ loop 2: invariant net@ == n0,
//@end
// ------------------------------------------------------------------ the coordinator keeps what a worker reports
//@enum src/protocol/worker_channel.rs WorkerToCoordinatorMsg
impl LoadTx { pub uninterp spec fn chan(&self) -> int; #[verifier::external_body] pub fn send(&self, net: &mut Net, l: LoadInfo) -> (r: core::result::Result<(), SendError>) ensures r is Ok ==> final(net)@ == (World { loads: old(net)@.loads.push(l), ..old(net)@ }), r is Err ==> final(net)@ == old(net)@ { unimplemented!() } }
impl LoadRx { pub uninterp spec fn chan(&self) -> int; }
#[verifier::external_body] pub fn unbounded_channel() -> (r: (LoadTx, LoadRx)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
#[verifier::external_body] pub struct MsgRx { _x: u8 }
impl MsgRx {
    pub uninterp spec fn rest(&self) -> Seq<WorkerToCoordinatorMsg>;
    #[verifier::external_body] pub fn recv(&mut self) -> (r: Option<WorkerToCoordinatorMsg>) ensures r is None ==> old(self).rest().len() == 0, r is Some ==> old(self).rest().len() > 0 && r->0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) { unimplemented!() }
}
/// the store, as the job that fills it sees it
#[verifier::external_body] pub struct MetricsStore { _x: u8 }
impl MetricsStore { #[verifier::external_body] pub fn insert(&self, net: &mut Net, k: TaskKey, m: TaskMetrics) ensures final(net)@ == (World { stored: old(net)@.stored.push((k, m)), ..old(net)@ }) { unimplemented!() } }
/// the reports among the messages, under the key of the task
pub open spec fn kept(m: Seq<WorkerToCoordinatorMsg>, k: TaskKey) -> Seq<(TaskKey, TaskMetrics)> decreases m.len() {
    if m.len() == 0 { seq![] } else { match m[0] { WorkerToCoordinatorMsg::TaskMetrics(v) => seq![(k, v)] + kept(m.skip(1), k), _ => kept(m.skip(1), k) } }
}
//@fn src/coordinator/query_coordinator.rs StageCoordinator::worker_to_coordinator_task#a0 as keep_reports noasync
//@ sig: pub fn $name(rx: MsgRx, task_metrics: Option<Arc<MetricsStore>>, task_key: TaskKey, load_tx: Option<LoadTx>, net: &mut Net)
//@ spec: ensures final(net)@.stored =~= old(net)@.stored + if task_metrics is Some { kept(rx.rest(), task_key) } else { seq![] }, final(net)@.reports == old(net)@.reports,
//@ ghost: let mut worker_to_coordinator_rx = rx; let mut load_info_tx_opt = load_tx; let ghost all = rx.rest(); let ghost n0 = net@; let ghost mut done: Seq<(TaskKey, TaskMetrics)> = seq![];
//@ subst: .insert($..) => .insert(net, $..)
//@ subst: .send($..) => .send(net, $..)
//@ loop 0: invariant_except_break cur == worker_to_coordinator_rx.rest(), kept(all, task_key) == done + kept(cur, task_key), net@.reports == n0.reports, net@.stored =~= n0.stored + if task_metrics is Some { done } else { seq![] }, invariant all == rx.rest(),
//@   ensures net@.reports == n0.reports, net@.stored =~= n0.stored + if task_metrics is Some { kept(all, task_key) } else { seq![] }, decreases worker_to_coordinator_rx.rest().len(),
//@   before: let ghost mut cur = worker_to_coordinator_rx.rest(); proof { assert(done + kept(cur, task_key) =~= kept(all, task_key)); }
//@   ghost: let ghost prev = cur; let ghost now = msg; let ghost done0 = done;
//@   body: cur = worker_to_coordinator_rx.rest(); done = match now { WorkerToCoordinatorMsg::TaskMetrics(v) => done0 + seq![(task_key, v)], _ => done0 }; assert(done + kept(cur, task_key) =~= done0 + kept(prev, task_key));
//@end
/// the job that keeps what the worker sends
pub struct KeepJob { pub rx: MsgRx, pub store: Option<Arc<MetricsStore>>, pub key: TaskKey, pub tx: Option<LoadTx> }
#[verifier::external_body] pub struct Jobs { _x: u8 }
impl Jobs { pub uninterp spec fn view(&self) -> Seq<KeepJob>; }
#[verifier::external_body] pub fn spawn(jobs: &mut Jobs, j: KeepJob) ensures final(jobs)@ == old(jobs)@.push(j) { unimplemented!() }
pub fn keep_job(rx: MsgRx, store: Option<Arc<MetricsStore>>, key: TaskKey, tx: Option<LoadTx>) -> (r: KeepJob) ensures r == (KeepJob { rx, store, key, tx }) { KeepJob { rx, store, key, tx } }
#[verifier::external_body] pub fn vx_store(s: &Option<Arc<MetricsStore>>) -> (r: Option<Arc<MetricsStore>>) ensures r == *s { unimplemented!() }
pub struct StageCoordinator<'a> { pub query_id: Uuid, pub stage_id: usize, pub metrics_store: &'a Option<Arc<MetricsStore>> }
impl<'a> StageCoordinator<'a> {
//@fn src/coordinator/query_coordinator.rs StageCoordinator::worker_to_coordinator_task
//@ sig: pub fn $name(&mut self, task_i: usize, worker_to_coordinator_rx: MsgRx, jobs: &mut Jobs) -> (r: LoadRx)
//@ spec: ensures *final(self) == *old(self), final(jobs)@.len() == old(jobs)@.len() + 1, final(jobs)@.drop_last() =~= old(jobs)@,
//@   final(jobs)@.last().rx == worker_to_coordinator_rx, final(jobs)@.last().store == *old(self).metrics_store, final(jobs)@.last().key == (TaskKey { query_id: old(self).query_id, stage_id: old(self).stage_id, task_number: task_i }),
//@   final(jobs)@.last().tx is Some, final(jobs)@.last().tx->0.chan() == r.chan(),
//@ async 0: keep_job(worker_to_coordinator_rx, task_metrics, task_key, load_info_tx_opt)
//@ subst: self.metrics_store.clone() => vx_store(self.metrics_store)
//@ subst: tokio::sync::mpsc::unbounded_channel() => unbounded_channel()
//@ subst: tokio::spawn($..) => spawn(jobs, $..)
//@end
}
// ------------------------------------------------------------------ the store keeps the last report of every task
pub mod store {
    use super::*;
    #[verifier::external_body] pub struct MetricsMap { _x: u8 }
    impl MetricsMap {
        pub uninterp spec fn view(&self) -> Map<TaskKey, TaskMetrics>;
        #[verifier::external_body] pub fn insert(&mut self, k: TaskKey, m: TaskMetrics) ensures final(self)@ == old(self)@.insert(k, m) { unimplemented!() }
        #[verifier::external_body] pub fn get(&self, k: &TaskKey) -> (r: Found) ensures r.v() == if self@.contains_key(*k) { Some(self@[*k]) } else { None } { unimplemented!() }
    }
    #[verifier::external_body] pub struct Found { _x: u8 }
    impl Found { pub uninterp spec fn v(&self) -> Option<TaskMetrics>; #[verifier::external_body] pub fn cloned(self) -> (r: Option<TaskMetrics>) ensures r == self.v() { unimplemented!() } }
    /// tokio::sync::watch: a state behind a lock
    #[verifier::reject_recursive_types(T)] #[verifier::external_body] pub struct Sender<T> { _x: core::marker::PhantomData<T> }
    #[verifier::reject_recursive_types(T)] #[verifier::external_body] pub struct Receiver<T> { _x: core::marker::PhantomData<T> }
    #[verifier::external_body] pub struct HashMap { _x: u8 }
    impl<T> Sender<T> { pub uninterp spec fn value(&self) -> T; pub uninterp spec fn chan(&self) -> int;
        #[verifier::external_body] pub fn vx_send_modify(&mut self) -> (r: &mut T) ensures *r == old(self).value(), final(self).value() == *final(r), final(self).chan() == old(self).chan() { unimplemented!() } }
    impl<T> Receiver<T> { pub uninterp spec fn value(&self) -> T; #[verifier::external_body] pub fn borrow(&self) -> (r: &T) ensures *r == self.value() { unimplemented!() } }
//@struct src/coordinator/metrics_store.rs MetricsStore
    impl MetricsStore {
//@fn src/coordinator/metrics_store.rs MetricsStore::insert as insert
//@ inline: send_modify
//@ sig: pub fn $name(&mut self, key: TaskKey, metrics: TaskMetrics)
//@ spec: ensures final(self).tx.value()@ == old(self).tx.value()@.insert(key, metrics), final(self).tx.chan() == old(self).tx.chan(), final(self).rx == old(self).rx,
//@end
//@fn src/coordinator/metrics_store.rs MetricsStore::get as get
//@ spec: ensures r == if self.rx.value()@.contains_key(*key) { Some(self.rx.value()@[*key]) } else { None },
//@end
    }
}
} // verus!
fn main() {}
