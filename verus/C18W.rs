//@include lib/base.rs
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@type_is BoxStream<'static, Result<CoordinatorToWorkerMsg>> => InStream
//@type_is BoxStream<'static, Result<WorkerToCoordinatorMsg>> => OutStream
//@strip oneshot futures::stream std::sync
//@arcclone
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ dependencies
macro_rules! opaque { ($($n:ident)*) => { verus!{ $( #[verifier::external_body] pub struct $n { _x: u8 } impl Clone for $n { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } )* } } }
opaque!{ PlanRef Url HeaderMap RuntimeEnv Bytes InStream Options Rxs Txs }
#[verifier::external_body] pub struct Uuid { _x: u8 }
impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Uuid {}
//@struct src/protocol/worker_channel.rs TaskKey
impl Clone for TaskKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for TaskKey {}
#[derive(Clone, Copy)]
//@struct src/stage.rs DistributedTaskContext
pub struct LocalWorkerContext { pub local_worker: Worker, pub self_url: Url }
pub struct WorkUnitFeedDeclaration { pub id: Uuid, pub partitions: usize }
pub enum MaybeEncoded<T> { Encoded(Bytes), Decoded(T) }
pub struct SetPlanRequest { pub task_key: TaskKey, pub task_count: usize, pub plan: MaybeEncoded<PlanRef>, pub work_unit_feed_declarations: Vec<WorkUnitFeedDeclaration>, pub target_worker_url: Url, pub query_start_time_ns: usize }
// ------------------------------------------------------------------ sessions
/// what a session config holds: the task it is for, its own address, the work units it reads, the options, the batch size
pub struct Conf { pub task: Option<DistributedTaskContext>, pub url: Option<Url>, pub worker: Option<Worker>, pub feeds: Option<Rxs>, pub options: Option<HeaderMap>, pub batch: Option<usize> }
pub open spec fn no_conf() -> Conf { Conf { task: None, url: None, worker: None, feeds: None, options: None, batch: None } }
#[verifier::external_body] pub struct SessionConfig { _x: u8 }
pub trait Extension: Sized { spec fn put(self, c: Conf) -> Conf; }
impl Extension for Rxs { open spec fn put(self, c: Conf) -> Conf { Conf { feeds: Some(self), ..c } } }
impl Extension for DistributedTaskContext { open spec fn put(self, c: Conf) -> Conf { Conf { task: Some(self), ..c } } }
impl Extension for LocalWorkerContext { open spec fn put(self, c: Conf) -> Conf { Conf { url: Some(self.self_url), worker: Some(self.local_worker), ..c } } }
pub struct DistributedConfig { pub shuffle_batch_size: usize, pub collect_metrics: bool }
/// C16: the options that the headers give
pub uninterp spec fn told_by(h: HeaderMap) -> DistributedConfig;
impl DistributedConfig { #[verifier::external_body] pub fn from_config_options(o: &Options) -> (r: Result<&DistributedConfig>) ensures r is Ok && o.from() is Some ==> *r->Ok_0 == told_by(o.from()->0) { unimplemented!() } }
impl Options { pub uninterp spec fn from(&self) -> Option<HeaderMap>; }
impl SessionConfig {
    pub uninterp spec fn view(&self) -> Conf;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == no_conf() { unimplemented!() }
    #[verifier::external_body] pub fn with_extension<E: Extension>(self, e: Arc<E>) -> (r: Self) ensures r@ == (*e).put(self@) { unimplemented!() }
    #[verifier::external_body] pub fn with_distributed_option_extension_from_headers<T>(self, h: &HeaderMap) -> (r: Result<Self>) ensures r is Ok ==> r->Ok_0@ == (Conf { options: Some(*h), ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn options(&self) -> (r: &Options) ensures r.from() == self@.options { unimplemented!() }
    #[verifier::external_body] pub fn with_batch_size(self, n: usize) -> (r: Self) requires n > 0, ensures r@ == (Conf { batch: Some(n), ..self@ }) { unimplemented!() }
}
pub struct SessionStateBuilder { pub conf: Ghost<Conf>, pub env: Ghost<Option<Arc<RuntimeEnv>>> }
impl SessionStateBuilder {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.conf@ == no_conf(), r.env@ is None { unimplemented!() }
    #[verifier::external_body] pub fn with_default_features(self) -> (r: Self) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn with_config(self, c: SessionConfig) -> (r: Self) ensures r.conf@ == c@, r.env == self.env { unimplemented!() }
    #[verifier::external_body] pub fn with_runtime_env(self, e: Arc<RuntimeEnv>) -> (r: Self) ensures r.conf == self.conf, r.env@ == Some(e) { unimplemented!() }
}
pub struct WorkerQueryContext { pub builder: SessionStateBuilder, pub headers: HeaderMap }
/// the session that the user's builder makes of what it is given
#[verifier::external_body] pub struct SessionState { _x: u8 }
#[verifier::external_body] pub struct TaskContext { _x: u8 }
pub uninterp spec fn session_of(c: TaskContext) -> SessionState;
impl SessionState {
    pub uninterp spec fn made_of(&self) -> WorkerQueryContext;
    #[verifier::external_body] pub fn task_ctx(&self) -> (r: Arc<TaskContext>) ensures session_of(*r) == *self { unimplemented!() }
    #[verifier::external_body] pub fn config(&self) -> (r: &SessionConfig) { unimplemented!() }
}
#[verifier::external_body] pub struct SessionBuilder { _x: u8 }
impl SessionBuilder { #[verifier::external_body] pub fn build_session_state(&self, c: WorkerQueryContext) -> (r: Result<SessionState>) ensures r is Ok ==> r->Ok_0.made_of() == c { unimplemented!() } }
// ------------------------------------------------------------------ plans
pub uninterp spec fn decoded(b: Bytes, c: TaskContext) -> PlanRef;
/// the plan a message carries (C12, C13)
pub open spec fn carried(p: MaybeEncoded<PlanRef>, c: TaskContext) -> PlanRef { match p { MaybeEncoded::Encoded(b) => decoded(b, c), MaybeEncoded::Decoded(p) => p } }
impl MaybeEncoded<PlanRef> { #[verifier::external_body] pub fn decode(self, c: &Arc<TaskContext>) -> (r: Result<PlanRef>) ensures r is Ok ==> r->Ok_0 == carried(self, **c) { unimplemented!() } }
pub struct WorkerPlanRewriteEvent<'a> { pub plan: PlanRef, pub session_config: &'a SessionConfig }
pub struct WorkerPlanRewriteEventResponse { pub plan: PlanRef }
pub struct WorkerPlanRewriteHandlers {}
/// what the user's handlers make of a plan
pub uninterp spec fn rewrites(p: PlanRef, q: PlanRef) -> bool;
impl WorkerPlanRewriteHandlers { #[verifier::external_body] pub fn handle(e: WorkerPlanRewriteEvent) -> (r: Result<WorkerPlanRewriteEventResponse>) ensures r is Ok ==> rewrites(e.plan, r->Ok_0.plan) { unimplemented!() } }
#[verifier::external_body] pub struct LoadInfoRx { _x: u8 }
/// the reports of the samplers of p, run in c
pub uninterp spec fn samples(p: PlanRef, c: TaskContext) -> Seq<LoadInfoRx>;
pub struct SamplerExec {}
impl SamplerExec { #[verifier::external_body] pub fn kick_off_first_sampler(p: PlanRef, c: Arc<TaskContext>) -> (r: Result<Vec<LoadInfoRx>>) ensures r is Ok ==> r->Ok_0@ == samples(p, *c) { unimplemented!() } }
// ------------------------------------------------------------------ state of a task
#[verifier::external_body] pub struct MetricsTx { _x: u8 }
#[verifier::external_body] pub struct MetricsRx { _x: u8 }
impl MetricsTx { pub uninterp spec fn chan(&self) -> int; }
impl MetricsRx { pub uninterp spec fn chan(&self) -> int; }
#[verifier::external_body] pub fn metrics_channel() -> (r: (MetricsTx, MetricsRx)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
#[verifier::reject_recursive_types(T)] #[verifier::external_body] pub struct Mutex<T> { _x: core::marker::PhantomData<T> }
impl<T> Mutex<T> { pub uninterp spec fn init(&self) -> T; #[verifier::external_body] pub fn new(v: T) -> (r: Self) ensures r.init() == v { unimplemented!() } }
#[verifier::external_body] pub struct PlanCell { _x: u8 }
impl PlanCell { pub uninterp spec fn empty(&self) -> bool; }
#[verifier::external_body] pub fn new_plan_cell() -> (r: Arc<PlanCell>) ensures (*r).empty() { unimplemented!() }
#[verifier::external_body] pub struct TaskDataMetrics { _x: u8 }
impl TaskDataMetrics { pub uninterp spec fn since(&self) -> usize; #[verifier::external_body] pub fn new(t: usize) -> (r: Self) ensures r.since() == t { unimplemented!() } }
pub struct TaskData { pub base_plan: PlanRef, pub final_plan: Arc<PlanCell>, pub task_ctx: Arc<TaskContext>, pub metrics_tx: Arc<Mutex<Option<MetricsTx>>>, pub task_data_metrics: Arc<TaskDataMetrics> }
impl Clone for TaskData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Cache { _x: u8 }
pub struct Worker { pub runtime: Arc<RuntimeEnv>, pub task_data_entries: Arc<Cache>, pub session_builder: Arc<SessionBuilder> }
impl Clone for Worker { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

/// the config of the session of a task
pub open spec fn conf_of(w: Worker, q: SetPlanRequest, h: HeaderMap, rx: Rxs) -> Conf {
    Conf { task: Some(DistributedTaskContext { task_index: q.task_key.task_number, task_count: q.task_count }), url: Some(q.target_worker_url), worker: Some(w), feeds: Some(rx), options: Some(h),
        batch: if told_by(h).shuffle_batch_size != 0 { Some(told_by(h).shuffle_batch_size) } else { None } }
}
/// a session made for the task, of its options and headers
pub open spec fn session_for(s: SessionState, w: Worker, q: SetPlanRequest, h: HeaderMap, rx: Rxs) -> bool {
    s.made_of().headers == h && s.made_of().builder.conf@ == conf_of(w, q, h, rx) && s.made_of().builder.env@ == Some(w.runtime)
}
/// a task set up as the request says
pub open spec fn set_up(t: TaskData, w: Worker, q: SetPlanRequest, h: HeaderMap, rx: Rxs) -> bool {
    &&& session_for(session_of(*t.task_ctx), w, q, h, rx)
    &&& rewrites(carried(q.plan, *t.task_ctx), t.base_plan)
    &&& (*t.final_plan).empty()
    &&& (*t.task_data_metrics).since() == q.query_start_time_ns
    &&& match (*t.metrics_tx).init() { Some(x) => told_by(h).collect_metrics, None => !told_by(h).collect_metrics }
}
/// the work units a task reads: one channel per declared feed and partition (C10)
impl Rxs { pub uninterp spec fn feeds(&self) -> Seq<(Uuid, usize)>; pub uninterp spec fn chans(&self) -> int; }
impl Txs { pub uninterp spec fn chans(&self) -> int; }
pub struct RemoteWorkUnitFeedRegistry { pub receivers: Rxs, pub senders: Txs }
pub struct Receivers { pub receivers: Rxs }
impl RemoteWorkUnitFeedRegistry {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.receivers.feeds() == Seq::<(Uuid, usize)>::empty(), r.receivers.chans() == r.senders.chans() { unimplemented!() }
    #[verifier::external_body] pub fn add(&mut self, id: Uuid, partitions: usize) ensures final(self).receivers.feeds() == old(self).receivers.feeds().push((id, partitions)), final(self).receivers.chans() == final(self).senders.chans() { unimplemented!() }
}
pub open spec fn declared(d: Seq<WorkUnitFeedDeclaration>) -> Seq<(Uuid, usize)> { d.map_values(|x: WorkUnitFeedDeclaration| (x.id, x.partitions)) }
// ------------------------------------------------------------------ the cell of a task, and what goes on after its plan is set
pub type Outcome = core::result::Result<TaskData, Arc<DataFusionError>>;
#[verifier::external_body] pub struct Cell { _x: u8 }
pub uninterp spec fn cell_of(c: Cache, k: TaskKey) -> Cell;
impl Cache { /** the cell of the key, the same one for all who ask until it is removed */ #[verifier::external_body] pub fn get_with(&self, k: TaskKey) -> (r: Cell) ensures r == cell_of(*self, k) { unimplemented!() } }
#[verifier::external_body] pub struct WriteError { _x: u8 }
/// the state of the job that reads the further messages
pub struct Job { pub stream: InStream, pub senders: Option<Txs>, pub task_data: TaskData, pub entries: Arc<Cache>, pub key: TaskKey, pub task_count: usize }
/// what was written into which cell, and the jobs started
pub struct World { pub writes: Seq<(Cell, Outcome)>, pub jobs: Seq<Job> }
#[verifier::external_body] pub struct Net { _x: u8 }
impl Net { pub uninterp spec fn view(&self) -> World; }
impl Cell { #[verifier::external_body] pub fn write(&self, net: &mut Net, v: Outcome) -> (r: core::result::Result<(), WriteError>) ensures final(net)@ == (World { writes: old(net)@.writes.push((*self, v)), ..old(net)@ }) { unimplemented!() } }
#[verifier::external_body] pub fn spawn(net: &mut Net, j: Job) ensures final(net)@ == (World { jobs: old(net)@.jobs.push(j), ..old(net)@ }) { unimplemented!() }
pub fn job(stream: InStream, senders: Option<Txs>, task_data: TaskData, entries: Arc<Cache>, key: TaskKey, task_count: usize) -> (r: Job)
    ensures r == (Job { stream, senders, task_data, entries, key, task_count }) { Job { stream, senders, task_data, entries, key, task_count } }
#[verifier::external_body] pub fn vx_shared(r: Result<TaskData>) -> (o: Outcome) ensures match r { Ok(t) => o == Outcome::Ok(t), Err(e) => o is Err && *o->Err_0 == e } { unimplemented!() }
#[verifier::external_body] pub fn vx_copy(r: &Outcome) -> (o: Outcome) ensures o == *r { unimplemented!() }
pub uninterp spec fn shared_error(e: Arc<DataFusionError>) -> DataFusionError;
#[verifier::external_body] pub fn vx_unshare(r: Outcome) -> (o: Result<TaskData>) ensures match r { Ok(t) => o == Result::<TaskData>::Ok(t), Err(e) => o == Result::<TaskData>::Err(shared_error(e)) } { unimplemented!() }
// ------------------------------------------------------------------ the reply
#[verifier::external_body] pub struct LoadInfo { _x: u8 }
#[verifier::external_body] pub struct TaskMetrics { _x: u8 }
#[verifier::external_body] pub struct RecvError { _x: u8 }
//@enum src/protocol/worker_channel.rs WorkerToCoordinatorMsg
//@fn src/worker/impl_coordinator_channel.rs Worker::coordinator_channel#c2 as load_info_msg noasync
//@ sig: pub fn $name(load_info_or_channel_dropped: core::result::Result<LoadInfo, RecvError>) -> (r: Option<WorkerToCoordinatorMsg>)
//@ spec: ensures match load_info_or_channel_dropped { Ok(l) => r == Some(WorkerToCoordinatorMsg::LoadInfo(l)), Err(_) => r is None },
//@end
//@fn src/worker/impl_coordinator_channel.rs Worker::coordinator_channel#c3 as metrics_msg noasync
//@ sig: pub fn $name(task_metrics_or_channel_dropped: core::result::Result<TaskMetrics, RecvError>) -> (r: Option<WorkerToCoordinatorMsg>)
//@ spec: ensures match task_metrics_or_channel_dropped { Ok(l) => r == Some(WorkerToCoordinatorMsg::TaskMetrics(l)), Err(_) => r is None },
//@end
/// a reply: the load reports of some samplers, whether their end is announced, the channels of the metrics
pub struct Reply { pub loads: Seq<LoadInfoRx>, pub eos: bool, pub metrics: Option<int> }
#[verifier::external_body] pub struct OutStream { _x: u8 }
impl OutStream {
    pub uninterp spec fn view(&self) -> Reply;
    #[verifier::external_body] pub fn from_iter(v: Vec<LoadInfoRx>) -> (r: Self) ensures r@ == (Reply { loads: v@, eos: false, metrics: None }) { unimplemented!() }
    #[verifier::external_body] pub fn filter_map(self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn chain(self, m: WorkerToCoordinatorMsg) -> (r: Self) requires self@.eos == false, m is LoadInfoEos ensures r@ == (Reply { eos: true, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_ok(self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn boxed(self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
impl MetricsRx { #[verifier::external_body] pub fn into_stream(self) -> (r: OutStream) ensures r@ == (Reply { loads: seq![], eos: false, metrics: Some(self.chan()) }) { unimplemented!() } }
pub fn once(m: WorkerToCoordinatorMsg) -> (r: WorkerToCoordinatorMsg) ensures r == m { m }
#[verifier::external_body] pub fn select(a: OutStream, b: OutStream) -> (r: OutStream) ensures r@ == (Reply { loads: a@.loads + b@.loads, eos: a@.eos || b@.eos, metrics: if a@.metrics is Some { a@.metrics } else { b@.metrics } }) { unimplemented!() }
/// the channels whose ends the session of the task holds
pub open spec fn feeds_of(t: TaskData) -> Option<Rxs> { session_of(*t.task_ctx).made_of().builder.conf@.feeds }
/// a task that is set up has what the request says, and reads the feeds that it declares
pub open spec fn outcome_of(o: Outcome, w: Worker, q: SetPlanRequest, h: HeaderMap) -> bool {
    match o { Err(_) => true, Ok(t) => feeds_of(t) is Some && feeds_of(t)->0.feeds() == declared(q.work_unit_feed_declarations@) && set_up(t, w, q, h, feeds_of(t)->0) }
}
/// the job reads the messages that follow, for the task and the channels that it reads
pub open spec fn goes_on(j: Job, w: Worker, q: SetPlanRequest, stream: InStream, t: TaskData) -> bool {
    j.stream == stream && j.senders is Some && feeds_of(t) is Some && j.senders->0.chans() == feeds_of(t)->0.chans() && j.task_data == t && j.entries == w.task_data_entries && j.key == q.task_key && j.task_count == q.task_count
}
/// the coordinator gets the reports of every sampler, their end, and the metrics of the task
pub open spec fn replies(r: Reply, t: TaskData) -> bool {
    r.loads =~= samples(t.base_plan, *t.task_ctx) && r.eos && match (*t.metrics_tx).init() { Some(x) => r.metrics == Some(x.chan()), None => true }
}
impl Worker {
//@fn src/worker/impl_coordinator_channel.rs Worker::coordinator_channel#a1 as set_plan noasync
//@ sig: pub fn $name(&self, headers: HeaderMap, request: SetPlanRequest, remote_work_unit_feed_registry: Receivers, metrics_tx: MetricsTx, load_info_rxs: &mut Vec<LoadInfoRx>) -> (r: Result<TaskData>)
//@ spec: ensures r is Ok ==> set_up(r->Ok_0, *self, request, headers, remote_work_unit_feed_registry.receivers) && ((*r->Ok_0.metrics_tx).init() is Some ==> (*r->Ok_0.metrics_tx).init()->0.chan() == metrics_tx.chan()) && final(load_info_rxs)@ == samples(r->Ok_0.base_plan, *r->Ok_0.task_ctx),
//@ subst: load_info_rxs = => *load_info_rxs =
//@ subst: Arc::new(OnceLock::new()) => new_plan_cell()
//@end
//@fn src/worker/impl_coordinator_channel.rs Worker::coordinator_channel as coordinator_channel noasync
//@ sig: pub fn $name(&self, headers: HeaderMap, request: SetPlanRequest, stream: InStream, net: &mut Net) -> (r: Result<OutStream>)
//@ spec: ensures
//@   final(net)@.writes.len() == old(net)@.writes.len() + 1, final(net)@.writes.drop_last() =~= old(net)@.writes, final(net)@.writes.last().0 == cell_of(*self.task_data_entries, request.task_key),
//@   outcome_of(final(net)@.writes.last().1, *self, request, headers),
//@   match final(net)@.writes.last().1 { Err(e) => r is Err && final(net)@.jobs == old(net)@.jobs, Ok(t) => r is Ok ==> final(net)@.jobs.len() == old(net)@.jobs.len() + 1 && final(net)@.jobs.drop_last() =~= old(net)@.jobs && goes_on(final(net)@.jobs.last(), *self, request, stream, t) && replies(r->Ok_0@, t) },
//@ entry: assert(declared(d0).take(d0.len() as int) =~= declared(d0));
//@ ghost: let ghost d0 = request.work_unit_feed_declarations@;
//@ async 1: ()
//@ async 2: job(stream, work_unit_senders, task_data, task_data_entries, key, request.task_count)
//@ async 3: WorkerToCoordinatorMsg::LoadInfoEos
//@ subst: get_with(key, $..) => get_with(key)
//@ subst: channel() => metrics_channel()
//@ subst: vec![] => Vec::<LoadInfoRx>::new()
//@ subst: let task_data = || (); => ;
//@ subst: task_data().map_err(Arc::new) => vx_shared(self.set_plan(headers, SetPlanRequest { work_unit_feed_declarations: Vec::new(), ..request }, Receivers { receivers: remote_work_unit_feed_registry.receivers }, metrics_tx, &mut load_info_rxs))
//@ subst: .write(task_data_result.clone()) => .write(net, vx_copy(&task_data_result))
//@ subst: task_data_result.map_err(DataFusionError::Shared) => vx_unshare(task_data_result)
//@ subst: tokio::spawn($..) => spawn(net, $..)
//@ subst: FuturesUnordered::from_iter => OutStream::from_iter
//@ subst: .filter_map($..) => .filter_map()
//@ subst: .map(Ok) => .vx_ok()
//@ closure 0: -
//@ closure 1: -
//@ closure 2: -
//@ closure 3: -
//@ loop 0: invariant it0.seq() == d0, remote_work_unit_feed_registry.receivers.chans() == remote_work_unit_feed_registry.senders.chans(), remote_work_unit_feed_registry.receivers.feeds() =~= declared(d0).take(it0.index() as int), 0 <= it0.index() <= it0.seq().len(),
//@   body: assert(declared(d0).take(it0.index() + 1) =~= declared(d0).take(it0.index() as int).push(declared(d0)[it0.index() as int]));
//@end
}
} // verus!
fn main() {}
