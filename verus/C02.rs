//@include lib/base.rs
//@include lib/net.rs
//@strip crate::stage crate::worker crate::execution_plans::common crate::distributed_planner futures::stream
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@arcclone
verus! {

// ------------------------------------------------------------------ specification
/// producer partition read by output q of consumer i, for every producer task
pub open spec fn slice(p: int, i: int, q: int) -> int { i * p + q }

/// no two (consumer, output) pairs read the same producer partition
pub proof fn theorem_slices_disjoint(p: int, c: int, i: int, q: int, j: int, s: int)
    requires p >= 1, c >= 1, 0 <= i < c, 0 <= j < c, 0 <= q < p, 0 <= s < p, slice(p, i, q) == slice(p, j, s),
    ensures i == j, q == s,
{
    lemma_fundamental_div_mod_converse(slice(p, i, q), p, i, q);
    lemma_fundamental_div_mod_converse(slice(p, j, s), p, j, s);
}
/// the slices are exactly the partitions of a producer head widened to p * c
pub proof fn theorem_slices_cover(p: int, c: int, x: int) -> (w: (int, int))
    requires p >= 1, c >= 1, 0 <= x < p * c,
    ensures 0 <= w.0 < c, 0 <= w.1 < p, slice(p, w.0, w.1) == x,
{
    lemma_fundamental_div_mod(x, p);
    lemma_mod_bound(x, p);
    lemma_div_pos_is_pos(x, p);
    let i = x / p;
    assert(i < c) by (nonlinear_arith) requires x == p * i + x % p, x % p >= 0, x < p * c, p >= 1;
    assert(slice(p, i, x % p) == x) by (nonlinear_arith) requires x == p * i + x % p, slice(p, i, x % p) == i * p + x % p;
    (i, x % p)
}
pub proof fn theorem_slices_in_range(p: int, c: int, i: int, q: int)
    requires p >= 1, c >= 1, 0 <= i < c, 0 <= q < p,
    ensures 0 <= slice(p, i, q) < p * c, i * p + p <= p * c, p * i == i * p,
{
    assert(i * p + p <= p * c) by (nonlinear_arith) requires 0 <= i, i + 1 <= c, p >= 1;
    assert(i * p >= 0) by (nonlinear_arith) requires 0 <= i, p >= 1;
    assert(p * i == i * p) by (nonlinear_arith);
}

/// a partitioning of the same kind with c times as many partitions
pub open spec fn widened(x: Partitioning, c: int) -> Partitioning {
    match x {
        Partitioning::RoundRobinBatch(n) => Partitioning::RoundRobinBatch((n * c) as usize),
        Partitioning::Hash(e, n) => Partitioning::Hash(e, (n * c) as usize),
        Partitioning::UnknownPartitioning(n) => Partitioning::UnknownPartitioning((n * c) as usize),
        Partitioning::Range(r) => x,
    }
}
/// what one output partition reads: partition `off + q` of each of the t producers, once each
pub open spec fn fan_in(t: nat, off: int, p: int, q: int, head: ProducerHead) -> Seq<Src> {
    Seq::new(t, |k: int| Src { task: k, partition: off + q, lo: off, hi: off + p, head })
}

// ------------------------------------------------------------------ dependencies (opaque nodes)
pub struct RepartitionExec { pub input: PlanRef, pub partitioning: Partitioning }
pub uninterp spec fn repartition_of(p: PlanRef) -> Option<RepartitionExec>;
impl Node for RepartitionExec { open spec fn of(p: PlanRef) -> Option<Self> { repartition_of(p) } }
impl RepartitionExec {
    #[verifier::external_body]
    pub fn input(&self) -> (r: &PlanRef) ensures *r == self.input { unimplemented!() }
    #[verifier::external_body]
    pub fn partitioning(&self) -> (r: &Partitioning) ensures *r == self.partitioning { unimplemented!() }
    #[verifier::external_body]
    pub fn try_new(input: PlanRef, partitioning: Partitioning) -> (r: Result<Self>)
        ensures r is Ok ==> r->Ok_0.input == input && r->Ok_0.partitioning == partitioning { unimplemented!() }
}
pub struct BroadcastExec { pub input: PlanRef, pub consumer_task_count: usize }
pub uninterp spec fn broadcast_of(p: PlanRef) -> Option<BroadcastExec>;
impl Node for BroadcastExec { open spec fn of(p: PlanRef) -> Option<Self> { broadcast_of(p) } }
impl BroadcastExec {
    #[verifier::external_body]
    pub fn input(&self) -> (r: &PlanRef) ensures *r == self.input { unimplemented!() }
    // its body is under contract in C03
    #[verifier::external_body]
    pub fn new(input: PlanRef, consumer_task_count: usize) -> (r: Self)
        requires input.props().partitioning.pc() * consumer_task_count <= usize::MAX,
        ensures r.input == input, r.consumer_task_count == consumer_task_count { unimplemented!() }
}
/// `Arc::new(node)` seen as a plan
pub trait AsPlan: Node { fn plan(self) -> (r: PlanRef) ensures Self::of(r) == Some(self); }
impl AsPlan for RepartitionExec { #[verifier::external_body] fn plan(self) -> (r: PlanRef) { unimplemented!() } }
impl AsPlan for BroadcastExec { #[verifier::external_body] fn plan(self) -> (r: PlanRef) { unimplemented!() } }
pub fn plan_of<T: AsPlan>(x: T) -> (r: PlanRef) ensures T::of(r) == Some(x) { x.plan() }

/// the plan below a repartition or broadcast head
pub open spec fn below_head(p: PlanRef) -> PlanRef {
    match repartition_of(p) {
        Some(x) => x.input,
        None => match broadcast_of(p) { Some(x) => x.input, None => p },
    }
}

// ------------------------------------------------------------------ the code
impl<T> MaybeEncoded<T> {
//@fn src/common/maybe_encoded.rs MaybeEncoded::try_decoded
//@ spec: ensures match self { MaybeEncoded::Decoded(x) => r is Ok && r->Ok_0 == x, MaybeEncoded::Encoded(_) => r is Err },
//@end
//@fn src/common/maybe_encoded.rs MaybeEncoded::decode_with
//@ args: decode
//@ spec: requires self is Encoded ==> decode.requires((self->Encoded_0,)),
//@     ensures match self { MaybeEncoded::Decoded(x) => r is Ok && r->Ok_0 == x, MaybeEncoded::Encoded(b) => decode.ensures((b,), r) },
//@end
}
impl Stage {
//@fn src/stage.rs Stage::task_count
//@ ret: r
//@ spec: ensures r == self.tc(),
//@end
}
impl LocalStage {
//@fn src/stage.rs LocalStage::execute
//@ args: partition context
//@ spec: ensures r is Ok ==> self.tasks <= 1 && r->Ok_0.local_src() == Some((self.plan, partition)), r is Err ==> self.tasks > 1 || plan_exec_err(self.plan, partition),
//@end
}

//@fn src/execution_plans/common.rs scale_partitioning
//@ args: partitioning f
//@ spec: requires !(partitioning is Range) ==> f.requires((partitioning.pc(),)),
//@     ensures r is Err <==> partitioning is Range,
//@         r is Ok ==> r->Ok_0.same_kind(*partitioning) && f.ensures((partitioning.pc(),), r->Ok_0.pc()),
//@end

impl ProducerHead {
//@fn src/distributed_planner/network_boundary.rs ProducerHead::insert
//@ args: input
//@ spec: requires self is BroadcastExec ==> below_head(input).props().partitioning.pc() > 0,
//@     ensures match self {
//@       // no head asked for: the plan is left alone
//@       ProducerHead::None => r is Ok && r->Ok_0 == input,
//@       // exactly one head of the asked kind, of the asked width, over what was below the old head
//@       ProducerHead::BroadcastExec { output_partitions } => r is Ok && ({
//@          let b = below_head(input);
//@          let n = b.props().partitioning.pc();
//@          broadcast_of(r->Ok_0) == Some(BroadcastExec { input: b, consumer_task_count: (output_partitions as int / n as int) as usize })
//@       }),
//@       ProducerHead::RepartitionExec { partitioning } => match partitioning {
//@          MaybeEncoded::Decoded(p) => r is Ok ==> repartition_of(r->Ok_0) == Some(RepartitionExec { input: below_head(input), partitioning: p }),
//@          MaybeEncoded::Encoded(_) => r is Err,
//@       },
//@     },
//@ subst: Arc::new(BroadcastExec::new => plan_of(BroadcastExec::new
//@ subst: Arc::new(RepartitionExec => plan_of(RepartitionExec
//@ entry: let n = below_head(input).props().partitioning.pc() as int;
//@   if self is BroadcastExec { let o = self->output_partitions as int; lemma_fundamental_div_mod(o, n); lemma_mod_bound(o, n); lemma_div_pos_is_pos(o, n);
//@      assert(n * (o / n) <= o) by (nonlinear_arith) requires o == n * (o / n) + o % n, o % n >= 0;
//@      assert(o / n <= o) by (nonlinear_arith) requires n * (o / n) <= o, n >= 1, o / n >= 0; }
//@end
}

pub struct NetworkShuffleExec { pub properties: Arc<PlanProperties>, pub input_stage: Stage, pub worker_connections: WorkerConnectionPool }
impl Clone for NetworkShuffleExec {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.properties == self.properties, r.input_stage == self.input_stage, r.worker_connections.slots() == self.worker_connections.slots() { unimplemented!() }
}
impl NetworkShuffleExec {
    #[verifier::external_body]
    pub fn schema(&self) -> SchemaRef { unimplemented!() }
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::from_stage
//@ args: input_stage input_properties
//@ spec: ensures r.properties.partitioning == input_properties.partitioning && r.properties.emission_type == input_properties.emission_type && r.properties.boundedness == input_properties.boundedness, r.input_stage == input_stage, r.worker_connections.slots() == input_stage.tc(),
//@end
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::try_new
//@ args: input producer_tasks
//@ spec: ensures r is Ok <==> repartition_of(input) is Some && repartition_of(input)->Some_0.partitioning is Hash,
//@     r is Ok ==> r->Ok_0.input_stage is Local && r->Ok_0.input_stage.tc() == producer_tasks && r->Ok_0.input_stage->Local_0.plan == input
//@       && r->Ok_0.properties.partitioning == input.props().partitioning && r->Ok_0.worker_connections.slots() == producer_tasks,
//@end
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::with_input_stage@NetworkBoundary
//@ args: input_stage
//@ sig: pub fn $name(&self, input_stage: Stage) -> (r: Result<Arc<NetworkShuffleExec>>)
//@ spec: ensures r is Ok && r->Ok_0.input_stage == input_stage && r->Ok_0.worker_connections.slots() == input_stage.tc() && r->Ok_0.properties == self.properties,
//@end
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::producer_head@NetworkBoundary
//@ args: consumer_task_count
//@ spec: requires self.properties.partitioning.pc() * consumer_task_count <= usize::MAX,
//@     ensures r is Err <==> self.properties.partitioning is Range,
//@       r is Ok ==> r->Ok_0 == (ProducerHead::RepartitionExec { partitioning: MaybeEncoded::Decoded(widened(self.properties.partitioning, consumer_task_count as int)) }),
//@ closure 0: -> (r: usize) requires $0 as int * consumer_task_count as int <= usize::MAX ensures r == $0 as int * consumer_task_count as int
//@end
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::execute@ExecutionPlan
//@ args: partition context
//@ spec: requires
//@       self.input_stage is Remote ==> ({
//@         let c = context.dtc().task_count as int;
//@         &&& self.worker_connections.slots() == self.input_stage.tc()
//@         &&& self.input_stage->Remote_0.workers@.len() <= usize::MAX
//@         &&& context.dtc().task_index < c
//@         &&& partition < self.properties.partitioning.pc()
//@         &&& self.properties.partitioning.pc() * c <= usize::MAX
//@       }),
//@     ensures
//@       self.input_stage is Local ==> ({ let l = self.input_stage->Local_0;
//@          &&& r is Ok ==> l.tasks <= 1 && r->Ok_0.local_src() == Some((l.plan, partition))
//@          &&& r is Err ==> l.tasks > 1 || plan_exec_err(l.plan, partition) }),
//@       self.input_stage is Remote && r is Ok ==> ({
//@         let p = self.properties.partitioning.pc() as int; let c = context.dtc().task_count as int; let off = context.dtc().task_index * p;
//@         r->Ok_0.src() == fan_in(self.input_stage.tc() as nat, off, p, partition as int,
//@             ProducerHead::RepartitionExec { partitioning: MaybeEncoded::Decoded(widened(self.properties.partitioning, c)) })
//@       }),
//@       self.input_stage is Remote && r is Err ==> self.properties.partitioning is Range || exists|a: usize, b: usize| pool_err(self.worker_connections, a, b),
//@ entry: if self.input_stage is Remote { theorem_slices_in_range(self.properties.partitioning.pc() as int, context.dtc().task_count as int, context.dtc().task_index as int, partition as int); }
//@ loop 0: invariant self.input_stage is Remote, *remote_stage == self.input_stage->Remote_0, out_partitions == self.properties.partitioning.pc(), *task_context == context.dtc(),
//@     off == context.dtc().task_index * out_partitions, off + out_partitions <= usize::MAX, partition < out_partitions, self.worker_connections.slots() == self.input_stage.tc(),
//@     self.properties.partitioning.pc() * context.dtc().task_count <= usize::MAX, remote_stage.workers@.len() <= usize::MAX,
//@     srcs(streams@) =~= fan_in($pat as nat, off as int, out_partitions as int, partition as int,
//@        ProducerHead::RepartitionExec { partitioning: MaybeEncoded::Decoded(widened(self.properties.partitioning, context.dtc().task_count as int)) }),
//@   body: lemma_srcs_push(streams@);
//@end
}

pub proof fn lemma_srcs_push(v: Seq<SendableRecordBatchStream>)
    ensures forall|x: SendableRecordBatchStream| #[trigger] srcs(v.push(x)) == srcs(v) + x.src(),
{
    assert forall|x: SendableRecordBatchStream| #[trigger] srcs(v.push(x)) == srcs(v) + x.src() by {
        assert(v.push(x).drop_last() =~= v);
    }
}

pub struct NetworkBroadcastExec { pub properties: Arc<PlanProperties>, pub input_stage: Stage, pub worker_connections: WorkerConnectionPool }
impl Clone for NetworkBroadcastExec {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.properties == self.properties, r.input_stage == self.input_stage, r.worker_connections.slots() == self.worker_connections.slots() { unimplemented!() }
}
impl NetworkBroadcastExec {
    #[verifier::external_body]
    pub fn schema(&self) -> SchemaRef { unimplemented!() }
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::from_stage
//@ args: input_stage input_properties
//@ spec: ensures r.properties.partitioning == Partitioning::UnknownPartitioning(input_properties.partitioning.pc()), r.input_stage == input_stage, r.worker_connections.slots() == input_stage.tc(),
//@      r.properties.emission_type == input_properties.emission_type && r.properties.boundedness == input_properties.boundedness,
//@end
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::try_new
//@ args: input producer_tasks
//@ spec: ensures r is Ok <==> broadcast_of(input) is Some,
//@     r is Ok ==> r->Ok_0.input_stage is Local && r->Ok_0.input_stage.tc() == producer_tasks && r->Ok_0.input_stage->Local_0.plan == input
//@       && r->Ok_0.properties.partitioning == Partitioning::UnknownPartitioning(input.props().partitioning.pc()) && r->Ok_0.worker_connections.slots() == producer_tasks,
//@end
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::with_input_stage@NetworkBoundary
//@ args: input_stage
//@ sig: pub fn $name(&self, input_stage: Stage) -> (r: Result<Arc<NetworkBroadcastExec>>)
//@ spec: ensures r is Ok && r->Ok_0.input_stage == input_stage && r->Ok_0.worker_connections.slots() == input_stage.tc() && r->Ok_0.properties == self.properties,
//@end
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::producer_head@NetworkBoundary
//@ args: consumer_task_count
//@ spec: requires self.properties.partitioning.pc() * consumer_task_count <= usize::MAX,
//@     ensures r is Ok && r->Ok_0 == (ProducerHead::BroadcastExec { output_partitions: (self.properties.partitioning.pc() * consumer_task_count) as usize }),
//@end
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::execute@ExecutionPlan
//@ args: partition context
//@ spec: requires
//@       self.input_stage is Remote ==> ({
//@         let c = context.dtc().task_count as int;
//@         &&& self.worker_connections.slots() == self.input_stage.tc()
//@         &&& self.input_stage->Remote_0.workers@.len() <= usize::MAX
//@         &&& context.dtc().task_index < c
//@         &&& partition < self.properties.partitioning.pc()
//@         &&& self.properties.partitioning.pc() * c <= usize::MAX
//@       }),
//@     ensures
//@       self.input_stage is Local ==> ({ let l = self.input_stage->Local_0;
//@          &&& r is Ok ==> l.tasks <= 1 && r->Ok_0.local_src() == Some((l.plan, partition))
//@          &&& r is Err ==> l.tasks > 1 || plan_exec_err(l.plan, partition) }),
//@       self.input_stage is Remote && r is Ok ==> ({
//@         let p = self.properties.partitioning.pc() as int; let c = context.dtc().task_count as int; let off = context.dtc().task_index * p;
//@         r->Ok_0.src() == fan_in(self.input_stage.tc() as nat, off, p, partition as int, ProducerHead::BroadcastExec { output_partitions: (p * c) as usize })
//@       }),
//@       self.input_stage is Remote && r is Err ==> exists|a: usize, b: usize| pool_err(self.worker_connections, a, b),
//@ entry: if self.input_stage is Remote { theorem_slices_in_range(self.properties.partitioning.pc() as int, context.dtc().task_count as int, context.dtc().task_index as int, partition as int); }
//@ loop 0: invariant self.input_stage is Remote, *remote_stage == self.input_stage->Remote_0, out_partitions == self.properties.partitioning.pc(), *task_context == context.dtc(),
//@     off == context.dtc().task_index * out_partitions, off + out_partitions <= usize::MAX, partition < out_partitions, self.worker_connections.slots() == self.input_stage.tc(),
//@     self.properties.partitioning.pc() * context.dtc().task_count <= usize::MAX, remote_stage.workers@.len() <= usize::MAX,
//@     srcs(streams@) =~= fan_in($pat as nat, off as int, out_partitions as int, partition as int,
//@        ProducerHead::BroadcastExec { output_partitions: (out_partitions * context.dtc().task_count) as usize }),
//@   body: lemma_srcs_push(streams@);
//@end
}

/// a broadcast widened by its boundary's head has one copy of its input partitions per consumer
pub proof fn theorem_broadcast_width(p: int, c: int)
    requires p >= 1, c >= 1,
    ensures (p * c) / p == c,
{
    lemma_div_multiples_vanish(c, p);
    assert(p * c == c * p) by (nonlinear_arith);
}
} // verus!
fn main() {}
