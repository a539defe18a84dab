// ---- plan / stage / stream world used by the network boundary nodes
verus! {
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Uuid { _x: u128 }
impl Uuid { #[verifier::external_body] pub fn nil() -> Uuid { unimplemented!() } }
#[verifier::external_body] pub struct Url { _x: u8 }
#[verifier::external_body] pub struct Statistics { _x: u8 }
#[verifier::external_body] pub struct MetricsSet { _x: u8 }
impl Default for MetricsSet { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
#[verifier::external_body] pub struct TaskContext { _x: u8 }
#[verifier::external_body] pub struct HashExprs { _x: u8 }
impl Clone for HashExprs { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct RangePartitioning { _x: u8 }
#[verifier::external_body] pub struct EquivalenceProperties { _x: u8 }
impl EquivalenceProperties {
    /// some ordering of the rows is advertised
    pub uninterp spec fn ordered(self) -> bool;
    /// some column is advertised as constant within each partition
    pub uninterp spec fn const_per_partition(self) -> bool;
    #[verifier::external_body]
    pub fn clear_orderings(&mut self) ensures !final(self).ordered(), final(self).const_per_partition() == old(self).const_per_partition() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear_per_partition_constants(&mut self) ensures !final(self).const_per_partition(), final(self).ordered() == old(self).ordered() { unimplemented!() }
}
impl Clone for EquivalenceProperties { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct EmissionType { _x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Boundedness { _x: u8 }
#[verifier::external_body] pub struct SchemaRef { _x: u8 }

pub enum Partitioning {
    RoundRobinBatch(usize),
    Hash(HashExprs, usize),
    UnknownPartitioning(usize),
    Range(RangePartitioning),
}
pub uninterp spec fn range_pc(r: RangePartitioning) -> usize;
impl Partitioning {
    pub open spec fn pc(&self) -> usize {
        match *self {
            Partitioning::RoundRobinBatch(p) => p,
            Partitioning::Hash(_, p) => p,
            Partitioning::UnknownPartitioning(p) => p,
            Partitioning::Range(r) => range_pc(r),
        }
    }
    /// same scheme, possibly a different partition count
    pub open spec fn same_kind(self, o: Self) -> bool {
        match (self, o) {
            (Partitioning::RoundRobinBatch(_), Partitioning::RoundRobinBatch(_)) => true,
            (Partitioning::Hash(a, _), Partitioning::Hash(b, _)) => a == b,
            (Partitioning::UnknownPartitioning(_), Partitioning::UnknownPartitioning(_)) => true,
            _ => false,
        }
    }
    #[verifier::external_body]
    pub fn partition_count(&self) -> (r: usize) ensures r == self.pc() { unimplemented!() }
}
impl Clone for Partitioning { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

pub struct PlanProperties {
    pub eq_properties: EquivalenceProperties,
    pub partitioning: Partitioning,
    pub emission_type: EmissionType,
    pub boundedness: Boundedness,
}
impl PlanProperties {
    #[verifier::external_body]
    pub fn new(eq_properties: EquivalenceProperties, partitioning: Partitioning, emission_type: EmissionType, boundedness: Boundedness) -> (r: PlanProperties)
        ensures r.eq_properties == eq_properties, r.partitioning == partitioning, r.emission_type == emission_type, r.boundedness == boundedness
    { unimplemented!() }
    #[verifier::external_body]
    pub fn output_partitioning(&self) -> (r: &Partitioning) ensures *r == self.partitioning { unimplemented!() }
    #[verifier::external_body]
    pub fn with_eq_properties(self, eq_properties: EquivalenceProperties) -> (r: PlanProperties)
        ensures r.eq_properties == eq_properties, r.partitioning == self.partitioning, r.emission_type == self.emission_type, r.boundedness == self.boundedness
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_partitioning(self, partitioning: Partitioning) -> (r: PlanProperties)
        ensures r.eq_properties == self.eq_properties, r.partitioning == partitioning, r.emission_type == self.emission_type, r.boundedness == self.boundedness
    { unimplemented!() }
}
impl Clone for PlanProperties { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

/// One read of one producer partition: the ghost content of a stream.
pub struct Src { pub task: int, pub partition: int, pub lo: int, pub hi: int, pub head: ProducerHead }

#[verifier::external_body]
pub struct SendableRecordBatchStream { _x: u8 }
pub type BoxStream = SendableRecordBatchStream;
impl SendableRecordBatchStream {
    /// the producer partitions this stream is fed from (order irrelevant to readers)
    pub uninterp spec fn src(&self) -> Seq<Src>;
    /// the local plan partition, when the stream reads an in-process plan
    pub uninterp spec fn local_src(&self) -> Option<(PlanRef, usize)>;
    /// the task context that plan was run with
    pub uninterp spec fn local_ctx(&self) -> DistributedTaskContext;
}
#[verifier::external_body]
pub struct EmptyRecordBatchStream { _x: u8 }
impl EmptyRecordBatchStream {
    #[verifier::external_body]
    pub fn new(s: SchemaRef) -> (r: SendableRecordBatchStream) ensures r.src() == Seq::<Src>::empty(), r.local_src() is None { unimplemented!() }
}
#[verifier::external_body]
pub struct RecordBatchStreamAdapter { _x: u8 }
impl RecordBatchStreamAdapter {
    #[verifier::external_body]
    pub fn new(s: SchemaRef, x: SendableRecordBatchStream) -> (r: SendableRecordBatchStream) ensures r.src() == x.src(), r.local_src() == x.local_src() { unimplemented!() }
}
pub open spec fn srcs(v: Seq<SendableRecordBatchStream>) -> Seq<Src>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { srcs(v.drop_last()) + v.last().src() }
}
#[verifier::external_body]
pub fn select_all(v: Vec<SendableRecordBatchStream>) -> (r: SendableRecordBatchStream)
    ensures r.src() == srcs(v@)
{ unimplemented!() }
/// `Box::pin(stream)`: boxing does not change the stream
pub struct Box {}
impl Box {
    #[verifier::external_body]
    pub fn pin(s: SendableRecordBatchStream) -> (r: SendableRecordBatchStream) ensures r == s { unimplemented!() }
}

/// `Arc<dyn ExecutionPlan>`, seen through its advertised properties
#[verifier::external_body]
pub struct PlanRef { _x: u8 }
pub uninterp spec fn plan_exec_err(p: PlanRef, partition: usize) -> bool;
impl PlanRef {
    pub uninterp spec fn props(&self) -> PlanProperties;
    #[verifier::external_body]
    pub fn properties(&self) -> (r: &Arc<PlanProperties>) ensures **r == self.props() { unimplemented!() }
    #[verifier::external_body]
    pub fn execute(&self, partition: usize, ctx: Arc<TaskContext>) -> (r: Result<SendableRecordBatchStream>)
        ensures r is Ok ==> r->Ok_0.local_src() == Some((*self, partition)) && r->Ok_0.local_ctx() == ctx.dtc(),
                r is Err ==> plan_exec_err(*self, partition)
    { unimplemented!() }
}
/// `downcast_ref::<T>()`: which concrete node a plan is
pub trait Node: Sized { spec fn of(p: PlanRef) -> Option<Self>; }
impl PlanRef {
    #[verifier::external_body]
    pub fn downcast_ref<T: Node>(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => T::of(*self) == Some(*x), None => T::of(*self) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is<T: Node>(&self) -> (r: bool) ensures r == (T::of(*self) is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn output_partitioning(&self) -> (r: &Partitioning) ensures *r == self.props().partitioning { unimplemented!() }
    #[verifier::external_body]
    pub fn schema(&self) -> SchemaRef { unimplemented!() }
}
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

pub struct LocalStage { pub query_id: Uuid, pub num: usize, pub plan: PlanRef, pub tasks: usize, pub metrics_set: MetricsSet }
pub struct RemoteStage { pub query_id: Uuid, pub num: usize, pub workers: Vec<Url>, pub runtime_stats: Option<Arc<Statistics>> }
pub enum Stage { Local(LocalStage), Remote(RemoteStage) }
impl Stage {
    pub open spec fn tc(&self) -> usize {
        match self { Stage::Local(v) => v.tasks, Stage::Remote(v) => v.workers@.len() as usize }
    }
}
#[derive(Clone, Copy)]
pub struct DistributedTaskContext { pub task_index: usize, pub task_count: usize }
impl TaskContext { pub uninterp spec fn dtc(&self) -> DistributedTaskContext; }
impl DistributedTaskContext {
    #[verifier::external_body]
    pub fn from_ctx(ctx: &Arc<TaskContext>) -> (r: Arc<DistributedTaskContext>) ensures *r == ctx.dtc() { unimplemented!() }
}

pub enum MaybeEncoded<T> { Encoded(Vec<u8>), Decoded(T) }
pub enum ProducerHead {
    None,
    BroadcastExec { output_partitions: usize },
    RepartitionExec { partitioning: MaybeEncoded<Partitioning> },
}

/// The connection pool, as its callers see it; its own body is under contract in C04.
#[verifier::external_body]
pub struct WorkerConnectionPool { _x: u8 }
pub uninterp spec fn pool_err(p: WorkerConnectionPool, task: usize, partition: usize) -> bool;
impl WorkerConnectionPool {
    pub uninterp spec fn slots(&self) -> nat;
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Self) ensures r.slots() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn execute(&self, input_stage: &RemoteStage, target_partitions: Range<usize>, target_task: usize, target_partition: usize, producer_head: ProducerHead, ctx: &Arc<TaskContext>)
        -> (r: Result<BoxStream>)
        requires
            target_task < input_stage.workers@.len(),
            target_task < self.slots(),
            target_partitions.start <= target_partition < target_partitions.end,
        ensures
            r is Ok ==> r->Ok_0.src() == seq![Src { task: target_task as int, partition: target_partition as int, lo: target_partitions.start as int, hi: target_partitions.end as int, head: producer_head }],
            r is Err ==> pool_err(*self, target_task, target_partition),
    { unimplemented!() }
}
impl Clone for WorkerConnectionPool {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.slots() == self.slots() { unimplemented!() }
}
} // verus!
mod futures { pub mod stream { pub use crate::select_all; } }
