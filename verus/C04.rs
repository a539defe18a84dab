//@include lib/base.rs
//@strip crate::stage crate::worker crate::execution_plans::common crate::distributed_planner std::sync::Mutex
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@type_is SendableRecordBatchStream => WStream
//@type_is BoxStream<'static, Result<RecordBatch>> => WStream
//@arcclone
verus! {
// ------------------------------------------------------------------ dependencies
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Uuid { _x: u128 }
#[verifier::external_body] pub struct SchemaRef { _x: u8 }
pub struct Url { pub id: u64 }
impl Clone for Url { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Url {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for Url { #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub struct Statistics { _x: u8 }
#[verifier::external_body] pub struct RecordBatch { _x: u8 }
#[verifier::external_body] pub struct HeaderMap { _x: u8 }
#[verifier::external_body] pub struct SessionConfig { _x: u8 }
#[verifier::external_body] pub struct TaskContext { _x: u8 }
impl TaskContext { #[verifier::external_body] pub fn session_config(&self) -> &SessionConfig { unimplemented!() } }
#[verifier::external_body] pub fn get_passthrough_headers(c: &SessionConfig) -> HeaderMap { unimplemented!() }
#[verifier::external_body] pub struct ProducerHead { _x: u8 }
#[verifier::external_body] pub struct ExecutionPlanMetricsSet { _x: u8 }
impl ExecutionPlanMetricsSet { #[verifier::external_body] pub fn default() -> Self { unimplemented!() } }
impl Clone for ExecutionPlanMetricsSet { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body] pub struct Count { _x: u8 }
impl Count { #[verifier::external_body] pub fn add(&self, n: usize) { unimplemented!() } }
#[verifier::external_body] pub struct MetricBuilder { _x: u8 }
impl MetricBuilder {
    #[verifier::external_body] pub fn new(m: &ExecutionPlanMetricsSet) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn output_bytes(self, p: usize) -> Count { unimplemented!() }
    #[verifier::external_body] pub fn output_rows(self, p: usize) -> Count { unimplemented!() }
    #[verifier::external_body] pub fn global_counter(self, s: &str) -> Count { unimplemented!() }
}
//@struct src/protocol/worker_channel.rs TaskKey
impl Clone for TaskKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for TaskKey {}
//@struct src/protocol/worker_channel.rs ExecuteTaskRequest
pub struct RemoteStage { pub query_id: Uuid, pub num: usize, pub workers: Vec<Url>, pub runtime_stats: Option<Arc<Statistics>> }

/// which partition of which task a stream carries
pub struct Served { pub url: Url, pub key: TaskKey, pub partition: int, pub head: ProducerHead }
#[verifier::external_body] pub struct WStream { _x: u8 }
impl WStream {
    pub uninterp spec fn id(&self) -> Served;
    /// the plan partition it reads, on the worker's side
    pub uninterp spec fn local(&self) -> (PlanRef, int);
}
pub open spec fn answers(v: Seq<WStream>, url: Url, r: ExecuteTaskRequest) -> bool {
    r.target_partition_start <= r.target_partition_end
    && v.len() == r.target_partition_end - r.target_partition_start
    && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).id() == (Served { url, key: r.task_key, partition: r.target_partition_start + k, head: r.producer_head })
}
/// `Box<dyn WorkerChannel>`: one stream per requested partition, in order (Worker::execute_task below; over gRPC: C05)
#[verifier::external_body] pub struct Client { _x: u8 }
impl Client {
    pub uninterp spec fn url(&self) -> Url;
    #[verifier::external_body]
    pub fn execute_task(&mut self, headers: HeaderMap, request: ExecuteTaskRequest, metrics: ExecutionPlanMetricsSet, ctx: &Arc<TaskContext>) -> (r: Result<Vec<WStream>>)
        ensures r is Ok ==> answers(r->Ok_0@, old(self).url(), request)
    { unimplemented!() }
}
pub struct LocalWorkerContext { pub self_url: Url }
impl LocalWorkerContext {
    #[verifier::external_body] pub fn from_ctx(ctx: &Arc<TaskContext>) -> (r: Option<Arc<LocalWorkerContext>>) { unimplemented!() }
    #[verifier::external_body] pub fn to_worker_channel(&self) -> (r: Client) ensures r.url() == self.self_url { unimplemented!() }
}
#[verifier::external_body] pub struct Resolver { _x: u8 }
impl Resolver {
    #[verifier::external_body] pub fn get_worker_client_for_url(&self, u: &Url) -> (r: Result<Client>) ensures r is Ok ==> r->Ok_0.url() == *u { unimplemented!() }
}
#[verifier::external_body] pub fn get_distributed_channel_resolver(ctx: &TaskContext) -> Resolver { unimplemented!() }
impl AsRef<TaskContext> for TaskContext { #[verifier::external_body] fn as_ref(&self) -> &TaskContext { unimplemented!() } }

// ------------------------------------------------------------------ the three steps of the pool
//@fn src/worker/worker_connection_pool.rs WorkerConnectionPool::execute#a0 as request_task noasync
//@ sig: pub fn $name(task_key: TaskKey, target_partitions: Range<usize>, producer_head: ProducerHead, target_url: Url, local_connections_used: Count, metrics: ExecutionPlanMetricsSet, ctx: Arc<TaskContext>) -> (r: Result<Vec<WStream>>)
//@ subst: ctx.as_ref() => &*ctx
//@ spec: ensures r is Ok ==> answers(r->Ok_0@, target_url, ExecuteTaskRequest { task_key, target_partition_start: target_partitions.start, target_partition_end: target_partitions.end, producer_head }),
//@end

/// Mutex<Option<stream>>: `init()` is what it was made with
#[verifier::external_body] pub struct Slot { _x: u8 }
#[verifier::external_body] pub struct SlotGuard { _x: u8 }
pub struct Mutex {}
impl Mutex { #[verifier::external_body] pub fn new(s: Option<WStream>) -> (r: Slot) ensures r.init() == s { unimplemented!() } }
impl Slot {
    pub uninterp spec fn init(&self) -> Option<WStream>;
    #[verifier::external_body] pub fn lock(&self) -> (r: core::result::Result<SlotGuard, ()>) ensures r is Ok, r->Ok_0.init() == self.init() { unimplemented!() }
}
impl SlotGuard {
    pub uninterp spec fn init(&self) -> Option<WStream>;
    /// `Option::take` under the lock: the stream leaves the slot, so it can be had once
    #[verifier::external_body] pub fn take(self) -> (r: Option<WStream>) ensures r is Some ==> self.init() == r { unimplemented!() }
}
pub type StreamGroup = Arc<Vec<Slot>>;
pub open spec fn holds(g: Seq<Slot>, v: Seq<WStream>) -> bool {
    g.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> (#[trigger] g[k]).init() == Some(v[k])
}
#[verifier::external_body] pub struct JoinError { _x: u8 }
//@fn src/worker/worker_connection_pool.rs WorkerConnectionPool::execute#a1 as make_group noasync
//@ sig: pub fn $name(streams_task: core::result::Result<Result<Vec<WStream>>, JoinError>) -> (r: core::result::Result<StreamGroup, Arc<DataFusionError>>)
//@ spec: ensures r is Ok ==> streams_task is Ok && streams_task->Ok_0 is Ok && holds(r->Ok_0@, streams_task->Ok_0->Ok_0@),
//@ closure 0: -> (r: Slot) ensures r.init() == Some($0)
//@end
impl DataFusionError {
    #[verifier::external_body]
    pub fn Shared(e: Arc<DataFusionError>) -> (r: Self) { unimplemented!() }
}
//@fn src/worker/worker_connection_pool.rs WorkerConnectionPool::execute#a2 as pick noasync
//@ sig: pub fn $name(streams_future: core::result::Result<StreamGroup, Arc<DataFusionError>>, target_partition: usize, target_partitions: Range<usize>) -> (r: Result<WStream>)
//@ subst: DataFusionError::Shared => |e: Arc<DataFusionError>| DataFusionError::Shared(e)
//@ spec: requires target_partitions.start <= target_partition,
//@    ensures r is Ok ==> streams_future is Ok && target_partition - target_partitions.start < streams_future->Ok_0@.len()
//@        && streams_future->Ok_0@[target_partition - target_partitions.start].init() == Some(r->Ok_0),
//@ closure 0: -
//@end

// ------------------------------------------------------------------ the pool
/// the spawned task, once joined
#[verifier::external_body] pub struct SpawnedTask { _x: u8 }
impl SpawnedTask {
    pub uninterp spec fn out(&self) -> core::result::Result<Result<Vec<WStream>>, JoinError>;
}
/// contract of `request_task`, spawned
#[verifier::external_body]
pub fn spawn_request(task_key: TaskKey, lo: usize, hi: usize, producer_head: ProducerHead, target_url: Url, local_connections_used: Count, metrics: ExecutionPlanMetricsSet, ctx: Arc<TaskContext>) -> (r: SpawnedTask)
    ensures r.out() is Ok && r.out()->Ok_0 is Ok ==> answers(r.out()->Ok_0->Ok_0@, target_url, ExecuteTaskRequest { task_key, target_partition_start: lo, target_partition_end: hi, producer_head })
{ unimplemented!() }
impl SpawnedTask { #[verifier::external_body] pub fn spawn(t: SpawnedTask) -> (r: SpawnedTask) ensures r == t { unimplemented!() } }
/// a shared future: `out()` is what it resolves to
#[verifier::external_body] pub struct SharedGroup { _x: u8 }
impl SharedGroup {
    pub uninterp spec fn out(&self) -> core::result::Result<StreamGroup, Arc<DataFusionError>>;
    #[verifier::external_body] pub fn boxed(self) -> (r: Self) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn shared(self) -> (r: Self) ensures r == self { unimplemented!() }
}
impl Clone for SharedGroup { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// contract of `make_group`, not yet polled
#[verifier::external_body]
pub fn group_future(t: SpawnedTask) -> (r: SharedGroup)
    ensures r.out() is Ok ==> t.out() is Ok && t.out()->Ok_0 is Ok && holds(r.out()->Ok_0@, t.out()->Ok_0->Ok_0@)
{ unimplemented!() }
/// OnceLock: the value in it was made by this initialiser, or by that of an earlier call with the same request
#[verifier::external_body] pub struct OnceLock { _x: u8 }
impl OnceLock {
    #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn get_or_init<F: FnOnce() -> SharedGroup>(&self, f: F) -> (r: &SharedGroup)
        requires f.requires(()),
        ensures f.ensures((), *r),
    { unimplemented!() }
}
/// contract of `pick`, flattened into a stream
#[verifier::external_body] pub struct Lazy { _x: u8 }
impl Lazy {
    pub uninterp spec fn out(&self) -> Result<WStream>;
    #[verifier::external_body] pub fn try_flatten_stream(self) -> (r: Lazy) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn inspect_ok<F: Fn(&RecordBatch)>(self, f: F) -> (r: Lazy) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn boxed(self) -> (r: Lazy) ensures r == self { unimplemented!() }
}
#[verifier::external_body]
pub fn pick_future(f: SharedGroup, target_partition: usize, lo: usize) -> (r: Lazy)
    requires lo <= target_partition,
    ensures r.out() is Ok ==> f.out() is Ok && target_partition - lo < f.out()->Ok_0@.len()
        && f.out()->Ok_0@[target_partition - lo].init() == Some(r.out()->Ok_0)
{ unimplemented!() }
impl RecordBatch { #[verifier::external_body] pub fn num_rows(&self) -> usize { unimplemented!() } }
#[verifier::external_body] pub fn logical_record_batch_size(b: &RecordBatch) -> usize { unimplemented!() }

pub struct WorkerConnectionPool { pub lazy_stream_groups: Vec<OnceLock>, pub metrics: ExecutionPlanMetricsSet }
impl WorkerConnectionPool {
//@fn src/worker/worker_connection_pool.rs WorkerConnectionPool::new
//@ args: input_tasks
//@ spec: ensures r.lazy_stream_groups@.len() == input_tasks,
//@ closure 0: -
//@end
//@fn src/worker/worker_connection_pool.rs WorkerConnectionPool::execute as execute
//@ args: input_stage target_partitions target_task target_partition producer_head ctx
//@ sig: pub fn $name(&self, input_stage: &RemoteStage, target_partitions: Range<usize>, target_task: usize, target_partition: usize, producer_head: ProducerHead, ctx: &Arc<TaskContext>) -> (r: Result<Lazy>)
//@ spec: requires target_partitions.start <= target_partition,
//@    ensures
//@      // no such task: an error
//@      target_task >= input_stage.workers@.len() ==> r is Err,
//@      target_task >= self.lazy_stream_groups@.len() ==> r is Err,
//@      // what is delivered is the asked partition of the asked task, from its own worker
//@      r is Ok && r->Ok_0.out() is Ok ==> r->Ok_0.out()->Ok_0.id() == (Served { url: input_stage.workers@[target_task as int],
//@          key: TaskKey { query_id: input_stage.query_id, stage_id: input_stage.num, task_number: target_task }, partition: target_partition as int, head: producer_head }),
//@      // a partition outside the announced range is never delivered
//@      r is Ok && target_partition >= target_partitions.end ==> r->Ok_0.out() is Err,
//@ async 0: spawn_request(task_key, target_partitions.start, target_partitions.end, producer_head, target_url, local_connections_used, metrics, ctx)
//@ async 1: group_future(streams_task)
//@ async 2: pick_future(streams_future, target_partition, target_partitions.start)
//@ closure 0: -
//@ closure 1: -> (r: SharedGroup) ensures r.out() is Ok ==> group_of(r.out()->Ok_0@, target_url, task_key, target_partitions, producer_head)
//@ closure 2: -
//@ closure 3: -
//@ closure 4: -
//@end
//@fn src/worker/worker_connection_pool.rs WorkerConnectionPool::clone@Clone as clone_fresh
//@ spec: ensures r.lazy_stream_groups@.len() == self.lazy_stream_groups@.len(),
//@end
}
/// the slots of one producer task, as requested
pub open spec fn group_of(g: Seq<Slot>, url: Url, key: TaskKey, ps: Range<usize>, head: ProducerHead) -> bool {
    exists|v: Seq<WStream>| #[trigger] holds(g, v) && answers(v, url, ExecuteTaskRequest { task_key: key, target_partition_start: ps.start, target_partition_end: ps.end, producer_head: head })
}

// ------------------------------------------------------------------ the worker's side
pub struct Partitioning { pub n: usize }
impl Partitioning { #[verifier::external_body] pub fn partition_count(&self) -> (r: usize) ensures r == self.n { unimplemented!() } }
pub struct PlanProperties { pub partitioning: Partitioning }
#[verifier::external_body] pub struct PlanRef { _x: u8 }
impl PlanRef {
    pub uninterp spec fn props(&self) -> PlanProperties;
    #[verifier::external_body] pub fn properties(&self) -> (r: &Arc<PlanProperties>) ensures **r == self.props() { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> &str { unimplemented!() }
    #[verifier::external_body] pub fn schema(&self) -> SchemaRef { unimplemented!() }
    #[verifier::external_body] pub fn execute(&self, partition: usize, ctx: Arc<TaskContext>) -> (r: Result<WStream>)
        ensures r is Ok ==> r->Ok_0.local() == (*self, partition as int) { unimplemented!() }
}
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct RecordBatchStreamAdapter { _x: u8 }
impl RecordBatchStreamAdapter { #[verifier::external_body] pub fn new(s: SchemaRef, x: WStream) -> (r: WStream) ensures r == x { unimplemented!() } }
pub struct Box {}
impl Box { #[verifier::external_body] pub fn pin(s: WStream) -> (r: WStream) ensures r == s { unimplemented!() } }
/// `out` is `base` under the head `head` (C02)
pub uninterp spec fn headed(head: ProducerHead, base: PlanRef, out: PlanRef) -> bool;
/// `d` is `head` with its partitioning decoded (C13)
pub uninterp spec fn decoded(head: ProducerHead, d: ProducerHead) -> bool;
impl ProducerHead {
    #[verifier::external_body] pub fn ensure_decoded(self, s: SchemaRef, ctx: &TaskContext) -> (r: Result<ProducerHead>) ensures r is Ok ==> decoded(self, r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn insert(self, input: PlanRef) -> (r: Result<PlanRef>) ensures r is Ok ==> headed(self, input, r->Ok_0) { unimplemented!() }
}
pub open spec fn final_of(head: ProducerHead, base: PlanRef, out: PlanRef) -> bool { exists|d: ProducerHead| #[trigger] decoded(head, d) && headed(d, base, out) }
/// the plan of a task is built once, by the first request; every consumer of a task asks for the same head
#[verifier::external_body] pub struct PlanCell { _x: u8 }
impl PlanCell {
    #[verifier::external_body]
    pub fn get_or_init<F: FnOnce() -> core::result::Result<PlanRef, Arc<DataFusionError>>>(&self, f: F) -> (r: &core::result::Result<PlanRef, Arc<DataFusionError>>)
        requires f.requires(()), ensures f.ensures((), *r) { unimplemented!() }
}
#[verifier::external_body] pub struct TaskDataMetrics { _x: u8 }
impl TaskDataMetrics { #[verifier::external_body] pub fn mark_execution_started_once(&self) { unimplemented!() } }
pub struct TaskData { pub task_ctx: Arc<TaskContext>, pub base_plan: PlanRef, pub final_plan: Arc<PlanCell>, pub task_data_metrics: Arc<TaskDataMetrics> }
impl TaskData {
//@fn src/worker/task_data.rs TaskData::plan
//@ args: producer_head
//@ spec: ensures r is Ok ==> final_of(producer_head, self.base_plan, r->Ok_0),
//@ closure 0: -> (r: core::result::Result<PlanRef, Arc<DataFusionError>>) ensures r is Ok ==> final_of(producer_head, self.base_plan, r->Ok_0)
//@end
}
pub assume_specification<T>[ <Arc<T> as From<T>>::from ](e: T) -> (r: Arc<T>)
    ensures *r == e;
#[verifier::external_body] pub struct Duration { _x: u8 }
impl Duration { #[verifier::external_body] pub fn from_secs(n: u64) -> Self { unimplemented!() } }
/// the write-once cell of a task (C18)
#[verifier::external_body] pub struct Cell { _x: u8 }
#[verifier::external_body] pub struct CellError { _x: u8 }
/// the value written for task `k` on this worker
pub uninterp spec fn stored(w: Worker, k: TaskKey, v: core::result::Result<TaskData, Arc<DataFusionError>>) -> bool;
impl Cell {
    pub uninterp spec fn of(&self) -> (Worker, TaskKey);
    #[verifier::external_body] pub fn read(&self, d: Duration) -> (r: core::result::Result<core::result::Result<TaskData, Arc<DataFusionError>>, CellError>)
        ensures r is Ok ==> stored(self.of().0, self.of().1, r->Ok_0) { unimplemented!() }
}
#[verifier::external_body] pub struct Cells { _x: u8 }
#[verifier::external_body] pub struct Nothing { _x: u8 }
impl Cells {
    pub uninterp spec fn of(&self) -> Worker;
    #[verifier::external_body] pub fn get_with(&self, k: TaskKey, init: Nothing) -> (r: Arc<Cell>) ensures r.of() == (self.of(), k) { unimplemented!() }
}
#[verifier::external_body] pub fn a_default() -> Nothing { unimplemented!() }
pub const WAIT_PLAN_TIMEOUT_SECS: u64 = 10;
pub open spec fn plan_reads(v: Vec<WStream>, plan: PlanRef, lo: int, n: int) -> bool {
    v@.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] v@[k]).local() == (plan, lo + k)
}
pub struct Worker { pub task_data_entries: Arc<Cells> }
impl Worker {
//@fn src/worker/impl_execute_task.rs Worker::execute_task noasync
//@ args: request
//@ sig: pub fn $name(&self, request: ExecuteTaskRequest) -> (r: Result<(Vec<WStream>, Arc<TaskContext>)>)
//@ subst: DataFusionError::Shared => |e: Arc<DataFusionError>| DataFusionError::Shared(e)
//@ subst: as _ =>
//@ spec: requires self.task_data_entries.of() == *self,
//@    ensures r is Ok ==> exists|td: TaskData, plan: PlanRef|
//@        stored(*self, request.task_key, Ok::<TaskData, Arc<DataFusionError>>(td)) && #[trigger] final_of(request.producer_head, td.base_plan, plan)
//@        // one stream per requested partition, in order, each of the right partition
//@        && (request.target_partition_start < request.target_partition_end ==> request.target_partition_end <= plan.props().partitioning.n)
//@        && request.target_partition_start <= request.target_partition_end && r->Ok_0.0@.len() == request.target_partition_end - request.target_partition_start
//@        && (forall|k: int| 0 <= k < r->Ok_0.0@.len() ==> (#[trigger] r->Ok_0.0@[k]).local() == (plan, request.target_partition_start + k)),
//@ async 0: a_default()
//@ closure 0: -
//@ loop 0: invariant request.target_partition_start <= request.target_partition_end, final_of(request.producer_head, task_data.base_plan, plan), partition_count == plan.props().partitioning.n,
//@      plan_reads(streams, plan, request.target_partition_start as int, partition - request.target_partition_start),
//@      partition > request.target_partition_start ==> partition - 1 < partition_count,
//@end
}
} // verus!
fn main() {}
