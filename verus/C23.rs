//@include lib/base.rs
//@include lib/net.rs
//@strip crate::stage crate::worker crate::execution_plans::common crate::distributed_planner datafusion::common::tree_node
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@arcclone
verus! {
/// a partitioning of the same kind with c times as many partitions
pub open spec fn widened(x: Partitioning, c: int) -> Partitioning {
    match x {
        Partitioning::RoundRobinBatch(n) => Partitioning::RoundRobinBatch((n * c) as usize),
        Partitioning::Hash(e, n) => Partitioning::Hash(e, (n * c) as usize),
        Partitioning::UnknownPartitioning(n) => Partitioning::UnknownPartitioning((n * c) as usize),
        Partitioning::Range(r) => x,
    }
}
// ------------------------------------------------------------------ dependencies (opaque nodes)
pub struct RepartitionExec { pub input: PlanRef, pub partitioning: Partitioning }
pub uninterp spec fn repartition_of(p: PlanRef) -> Option<RepartitionExec>;
impl Node for RepartitionExec { open spec fn of(p: PlanRef) -> Option<Self> { repartition_of(p) } }
impl RepartitionExec {
    #[verifier::external_body]
    pub fn input(&self) -> (r: &PlanRef) ensures *r == self.input { unimplemented!() }
    #[verifier::external_body]
    pub fn partitioning(&self) -> (r: &Partitioning) ensures *r == self.partitioning { unimplemented!() }
    #[verifier::external_body]
    pub fn try_new(input: PlanRef, partitioning: Partitioning) -> (r: Result<Self>)
        ensures r is Ok ==> r->Ok_0.input == input && r->Ok_0.partitioning == partitioning { unimplemented!() }
}
pub struct BroadcastExec { pub input: PlanRef, pub consumer_task_count: usize }
pub uninterp spec fn broadcast_of(p: PlanRef) -> Option<BroadcastExec>;
impl Node for BroadcastExec { open spec fn of(p: PlanRef) -> Option<Self> { broadcast_of(p) } }
impl BroadcastExec {
    #[verifier::external_body]
    pub fn input(&self) -> (r: &PlanRef) ensures *r == self.input { unimplemented!() }
    // its body is under contract in C03
    #[verifier::external_body]
    pub fn new(input: PlanRef, consumer_task_count: usize) -> (r: Self)
        requires input.props().partitioning.pc() * consumer_task_count <= usize::MAX,
        ensures r.input == input, r.consumer_task_count == consumer_task_count { unimplemented!() }
}
/// `Arc::new(node)` seen as a plan
pub trait AsPlan: Node { fn plan(self) -> (r: PlanRef) ensures Self::of(r) == Some(self); }
impl AsPlan for RepartitionExec { #[verifier::external_body] fn plan(self) -> (r: PlanRef) { unimplemented!() } }
impl AsPlan for BroadcastExec { #[verifier::external_body] fn plan(self) -> (r: PlanRef) { unimplemented!() } }
pub fn plan_of<T: AsPlan>(x: T) -> (r: PlanRef) ensures T::of(r) == Some(x) { x.plan() }

/// the plan below a repartition or broadcast head
pub open spec fn below_head(p: PlanRef) -> PlanRef {
    match repartition_of(p) {
        Some(x) => x.input,
        None => match broadcast_of(p) { Some(x) => x.input, None => p },
    }
}

impl<T> MaybeEncoded<T> {
//@fn src/common/maybe_encoded.rs MaybeEncoded::try_decoded
//@ spec: ensures match self { MaybeEncoded::Decoded(x) => r is Ok && r->Ok_0 == x, MaybeEncoded::Encoded(_) => r is Err },
//@end
//@fn src/common/maybe_encoded.rs MaybeEncoded::decode_with
//@ args: decode
//@ spec: requires self is Encoded ==> decode.requires((self->Encoded_0,)),
//@     ensures match self { MaybeEncoded::Decoded(x) => r is Ok && r->Ok_0 == x, MaybeEncoded::Encoded(b) => decode.ensures((b,), r) },
//@end
}
impl Stage {
    pub open spec fn num_spec(self) -> usize { match self { Stage::Local(s) => s.num, Stage::Remote(s) => s.num } }
    pub open spec fn query_spec(self) -> Uuid { match self { Stage::Local(s) => s.query_id, Stage::Remote(s) => s.query_id } }
//@fn src/stage.rs Stage::num
//@ ret: r
//@ spec: ensures r == self.num_spec(),
//@end
//@fn src/stage.rs Stage::query_id
//@ ret: r
//@ spec: ensures r == self.query_spec(),
//@end
//@fn src/stage.rs Stage::task_count
//@ ret: r
//@ spec: ensures r == self.tc(),
//@end
}
//@fn src/execution_plans/common.rs scale_partitioning
//@ args: partitioning f
//@ spec: requires !(partitioning is Range) ==> f.requires((partitioning.pc(),)),
//@     ensures r is Err <==> partitioning is Range,
//@         r is Ok ==> r->Ok_0.same_kind(*partitioning) && f.ensures((partitioning.pc(),), r->Ok_0.pc()),
//@end

//@fn src/execution_plans/common.rs scale_partitioning_props
//@ args: props f
//@ spec: requires !(props.partitioning is Range) ==> f.requires((props.partitioning.pc(),)),
//@     ensures r is Err <==> props.partitioning is Range,
//@         r is Ok ==> r->Ok_0.partitioning.same_kind(props.partitioning) && f.ensures((props.partitioning.pc(),), r->Ok_0.partitioning.pc())
//@           && r->Ok_0.eq_properties == props.eq_properties && r->Ok_0.emission_type == props.emission_type && r->Ok_0.boundedness == props.boundedness,
//@end
impl ProducerHead {
//@fn src/distributed_planner/network_boundary.rs ProducerHead::insert
//@ args: input
//@ spec: requires self is BroadcastExec ==> below_head(input).props().partitioning.pc() > 0,
//@     ensures match self {
//@       // no head asked for: the plan is left alone
//@       ProducerHead::None => r is Ok && r->Ok_0 == input,
//@       // exactly one head of the asked kind, of the asked width, over what was below the old head
//@       ProducerHead::BroadcastExec { output_partitions } => r is Ok && ({
//@          let b = below_head(input);
//@          let n = b.props().partitioning.pc();
//@          broadcast_of(r->Ok_0) == Some(BroadcastExec { input: b, consumer_task_count: (output_partitions as int / n as int) as usize })
//@       }),
//@       ProducerHead::RepartitionExec { partitioning } => match partitioning {
//@          MaybeEncoded::Decoded(p) => r is Ok ==> repartition_of(r->Ok_0) == Some(RepartitionExec { input: below_head(input), partitioning: p }),
//@          MaybeEncoded::Encoded(_) => r is Err,
//@       },
//@     },
//@ subst: Arc::new(BroadcastExec::new => plan_of(BroadcastExec::new
//@ subst: Arc::new(RepartitionExec => plan_of(RepartitionExec
//@ entry: let n = below_head(input).props().partitioning.pc() as int;
//@   if self is BroadcastExec { let o = self->output_partitions as int; lemma_fundamental_div_mod(o, n); lemma_mod_bound(o, n); lemma_div_pos_is_pos(o, n);
//@      assert(n * (o / n) <= o) by (nonlinear_arith) requires o == n * (o / n) + o % n, o % n >= 0;
//@      assert(o / n <= o) by (nonlinear_arith) requires n * (o / n) <= o, n >= 1, o / n >= 0; }
//@end
}

pub struct NetworkShuffleExec { pub properties: Arc<PlanProperties>, pub input_stage: Stage, pub worker_connections: WorkerConnectionPool }
impl Clone for NetworkShuffleExec {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.properties == self.properties, r.input_stage == self.input_stage, r.worker_connections.slots() == self.worker_connections.slots() { unimplemented!() }
}
impl NetworkShuffleExec {
    #[verifier::external_body]
    pub fn schema(&self) -> SchemaRef { unimplemented!() }
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::from_stage
//@ args: input_stage input_properties
//@ spec: ensures r.properties.partitioning == input_properties.partitioning && r.properties.emission_type == input_properties.emission_type && r.properties.boundedness == input_properties.boundedness, r.input_stage == input_stage, r.worker_connections.slots() == input_stage.tc(),
//@end
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::with_input_stage@NetworkBoundary
//@ args: input_stage
//@ sig: pub fn $name(&self, input_stage: Stage) -> (r: Result<Arc<NetworkShuffleExec>>)
//@ spec: ensures r is Ok && r->Ok_0.input_stage == input_stage && r->Ok_0.worker_connections.slots() == input_stage.tc() && r->Ok_0.properties == self.properties,
//@end
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::producer_head@NetworkBoundary
//@ args: consumer_task_count
//@ spec: requires self.properties.partitioning.pc() * consumer_task_count <= usize::MAX,
//@     ensures r is Err <==> self.properties.partitioning is Range,
//@       r is Ok ==> r->Ok_0 == (ProducerHead::RepartitionExec { partitioning: MaybeEncoded::Decoded(widened(self.properties.partitioning, consumer_task_count as int)) }),
//@ closure 0: -> (r: usize) requires $0 as int * consumer_task_count as int <= usize::MAX ensures r == $0 as int * consumer_task_count as int
//@end
}
pub struct NetworkBroadcastExec { pub properties: Arc<PlanProperties>, pub input_stage: Stage, pub worker_connections: WorkerConnectionPool }
impl Clone for NetworkBroadcastExec {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.properties == self.properties, r.input_stage == self.input_stage, r.worker_connections.slots() == self.worker_connections.slots() { unimplemented!() }
}
impl NetworkBroadcastExec {
    #[verifier::external_body]
    pub fn schema(&self) -> SchemaRef { unimplemented!() }
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::from_stage
//@ args: input_stage input_properties
//@ spec: ensures r.properties.partitioning == Partitioning::UnknownPartitioning(input_properties.partitioning.pc()), r.input_stage == input_stage, r.worker_connections.slots() == input_stage.tc(),
//@      r.properties.emission_type == input_properties.emission_type && r.properties.boundedness == input_properties.boundedness,
//@end
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::with_input_stage@NetworkBoundary
//@ args: input_stage
//@ sig: pub fn $name(&self, input_stage: Stage) -> (r: Result<Arc<NetworkBroadcastExec>>)
//@ spec: ensures r is Ok && r->Ok_0.input_stage == input_stage && r->Ok_0.worker_connections.slots() == input_stage.tc() && r->Ok_0.properties == self.properties,
//@end
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::producer_head@NetworkBoundary
//@ args: consumer_task_count
//@ spec: requires self.properties.partitioning.pc() * consumer_task_count <= usize::MAX,
//@     ensures r is Ok && r->Ok_0 == (ProducerHead::BroadcastExec { output_partitions: (self.properties.partitioning.pc() * consumer_task_count) as usize }),
//@end
}
pub struct NetworkCoalesceExec { pub properties: Arc<PlanProperties>, pub input_stage: Stage, pub worker_connections: WorkerConnectionPool }
impl Clone for NetworkCoalesceExec {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.properties == self.properties, r.input_stage == self.input_stage, r.worker_connections.slots() == self.worker_connections.slots() { unimplemented!() }
}
impl NetworkCoalesceExec {
    #[verifier::external_body]
    pub fn properties(&self) -> (r: &Arc<PlanProperties>) ensures *r == self.properties { unimplemented!() }
//@fn src/execution_plans/network_coalesce.rs NetworkCoalesceExec::with_input_stage@NetworkBoundary
//@ args: input_stage
//@ sig: pub fn $name(&self, input_stage: Stage) -> (r: Result<Arc<NetworkCoalesceExec>>)
//@ spec: requires self.input_stage.tc() >= 1, self.properties.partitioning.pc() * input_stage.tc() <= usize::MAX,
//@     ensures r is Err <==> self.properties.partitioning is Range,
//@       r is Ok ==> r->Ok_0.input_stage == input_stage && r->Ok_0.worker_connections.slots() == input_stage.tc()
//@         && r->Ok_0.properties.partitioning.same_kind(self.properties.partitioning)
//@         // handing over the same number of producer tasks (what every caller does) keeps the advertised width
//@         && (input_stage.tc() == self.input_stage.tc() ==> r->Ok_0.properties.partitioning.pc() == self.properties.partitioning.pc()),
//@ entry: lemma_div_by_multiple(self.properties.partitioning.pc() as int, self.input_stage.tc() as int);
//@ closure 0: -> (r: usize) requires $0 * input_stage.tc() <= usize::MAX, self_clone.input_stage.tc() >= 1 ensures r == $0 as int * input_stage.tc() as int / self_clone.input_stage.tc() as int
//@end

//@fn src/execution_plans/network_coalesce.rs NetworkCoalesceExec::producer_head@NetworkBoundary
//@ args: consumer_task_count
//@ spec: ensures r is Ok, r->Ok_0 is None,
//@end

}

// ------------------------------------------------------------------ preparation
/// a network boundary, of one of the three kinds
pub enum Nb { Shuffle(Arc<NetworkShuffleExec>), Coalesce(Arc<NetworkCoalesceExec>), Broadcast(Arc<NetworkBroadcastExec>) }
pub uninterp spec fn nb_of(p: PlanRef) -> Option<Nb>;
#[verifier::external_body] pub fn vx_node(x: Nb) -> (r: PlanRef) ensures nb_of(r) == Some(x) { unimplemented!() }
impl PlanRef { #[verifier::external_body] pub fn as_network_boundary(&self) -> (r: Option<&Nb>) ensures match r { Some(x) => nb_of(*self) == Some(*x), None => nb_of(*self) is None } { unimplemented!() } }
impl Nb {
    pub open spec fn stage(self) -> Stage { match self { Nb::Shuffle(x) => x.input_stage, Nb::Coalesce(x) => x.input_stage, Nb::Broadcast(x) => x.input_stage } }
    pub open spec fn width(self) -> usize { match self { Nb::Shuffle(x) => x.properties.partitioning.pc(), Nb::Coalesce(x) => x.properties.partitioning.pc(), Nb::Broadcast(x) => x.properties.partitioning.pc() } }
    pub open spec fn same_kind(self, o: Nb) -> bool { (self is Shuffle <==> o is Shuffle) && (self is Coalesce <==> o is Coalesce) && (self is Broadcast <==> o is Broadcast) }
    /// nothing overflows
    pub open spec fn sane(self, tasks: usize) -> bool { self.width() * tasks <= usize::MAX && (self is Coalesce ==> self.stage().tc() >= 1 && self.width() * self.stage().tc() <= usize::MAX) }
    // the methods of `dyn NetworkBoundary`: those of the node's own type
    pub fn input_stage(&self) -> (r: &Stage) ensures *r == self.stage() { match self { Nb::Shuffle(x) => &x.input_stage, Nb::Coalesce(x) => &x.input_stage, Nb::Broadcast(x) => &x.input_stage } }
    pub fn producer_head(&self, n: usize) -> (r: Result<ProducerHead>) requires self.sane(n), ensures r is Ok ==> r->Ok_0 == head_for(*self, n as int)
    { match self { Nb::Shuffle(x) => x.producer_head(n), Nb::Coalesce(x) => x.producer_head(n), Nb::Broadcast(x) => x.producer_head(n) } }
    pub fn with_input_stage(&self, s: Stage) -> (r: Result<PlanRef>) requires self.sane(0), s.tc() == self.stage().tc(),
        ensures r is Ok ==> nb_of(r->Ok_0) is Some && nb_of(r->Ok_0)->0.same_kind(*self) && nb_of(r->Ok_0)->0.stage() == s && nb_of(r->Ok_0)->0.width() == self.width()
    { match self { Nb::Shuffle(x) => Ok(vx_node(Nb::Shuffle(x.with_input_stage(s)?))), Nb::Coalesce(x) => Ok(vx_node(Nb::Coalesce(x.with_input_stage(s)?))), Nb::Broadcast(x) => Ok(vx_node(Nb::Broadcast(x.with_input_stage(s)?))) } }
}
/// the head that `n` consumer tasks need
pub open spec fn head_for(b: Nb, n: int) -> ProducerHead {
    match b {
        Nb::Shuffle(x) => ProducerHead::RepartitionExec { partitioning: MaybeEncoded::Decoded(widened(x.properties.partitioning, n)) },
        Nb::Coalesce(x) => ProducerHead::None,
        Nb::Broadcast(x) => ProducerHead::BroadcastExec { output_partitions: (x.properties.partitioning.pc() * n) as usize },
    }
}
/// `q` is the producer plan `p`, with the head that `n` consumer tasks of `b` need, and with no other
pub open spec fn headed(q: PlanRef, p: PlanRef, b: Nb, n: int) -> bool {
    match b {
        Nb::Coalesce(_) => q == p,
        Nb::Shuffle(x) => repartition_of(q) == Some(RepartitionExec { input: below_head(p), partitioning: widened(x.properties.partitioning, n) }),
        Nb::Broadcast(x) => broadcast_of(q) is Some && broadcast_of(q)->0.input == below_head(p)
            // what a broadcast advertises is what is below its head, once per consumer task
            && (x.properties.partitioning.pc() == below_head(p).props().partitioning.pc() ==> broadcast_of(q)->0.consumer_task_count == n),
    }
}
pub open spec fn prepared(p: PlanRef, tasks: usize, query: Uuid, num: usize, q: PlanRef, num1: usize) -> bool {
    match nb_of(p) {
        None => q == p && num1 == num,
        Some(b) => match b.stage() {
            Stage::Remote(_) => q == p && num1 == num,
            Stage::Local(s) => if tasks == 1 && s.tasks == 1 { q == s.plan && num1 == num } else {
                &&& num1 == num + 1
                &&& nb_of(q) is Some && nb_of(q)->0.same_kind(b) && nb_of(q)->0.width() == b.width() && nb_of(q)->0.stage() is Local
                &&& ({ let t = nb_of(q)->0.stage()->Local_0; t.query_id == query && t.num == num && t.tasks == s.tasks && headed(t.plan, s.plan, b, tasks as int) })
            },
        },
    }
}
pub struct Transformed { pub data: PlanRef, pub transformed: bool }
impl Transformed { pub fn yes(p: PlanRef) -> (r: Self) ensures r.data == p { Transformed { data: p, transformed: true } } pub fn no(p: PlanRef) -> (r: Self) ensures r.data == p { Transformed { data: p, transformed: false } } }
pub proof fn lemma_broadcast(w: int, n: int) requires w > 0, n >= 0 ensures (w * n) / w == n { assert((w * n) == n * w) by (nonlinear_arith); lemma_div_multiples_vanish(n, w); }
//@fn src/distributed_planner/prepare_network_boundaries.rs prepare_network_boundaries#c0 as prepare_boundary
//@ sig: pub fn $name(plan: PlanRef, task_count: usize, stage_id: &mut usize, query_id: Uuid) -> (r: Result<Transformed>)
//@ spec: requires *old(stage_id) < usize::MAX, nb_of(plan) is Some ==> nb_of(plan)->0.sane(task_count) && (nb_of(plan)->0 is Broadcast && nb_of(plan)->0.stage() is Local ==> below_head(nb_of(plan)->0.stage()->Local_0.plan).props().partitioning.pc() > 0),
//@   ensures r is Ok ==> prepared(plan, task_count, query_id, *old(stage_id), r->Ok_0.data, *final(stage_id)),
//@ entry: if nb_of(plan) is Some && nb_of(plan)->0 is Broadcast && nb_of(plan)->0.width() > 0 { lemma_broadcast(nb_of(plan)->0.width() as int, task_count as int); }
//@ subst: num: stage_id => num: *stage_id
//@ subst: stage_id += 1 => *stage_id += 1
//@end
// ------------------------------------------------------------------ numbers over a whole plan
/// a run of the preparation over the nodes of a plan, in the order in which they are visited: `ns[i]` is the counter before node `i`
pub open spec fn prepared_run(ps: Seq<PlanRef>, tcs: Seq<usize>, query: Uuid, qs: Seq<PlanRef>, ns: Seq<usize>) -> bool {
    &&& ps.len() == tcs.len() == qs.len() && ns.len() == ps.len() + 1
    &&& forall|i: int| 0 <= i < ps.len() ==> prepared(#[trigger] ps[i], tcs[i], query, ns[i], qs[i], ns[i + 1])
}
/// a boundary that this preparation stamped
pub open spec fn stamped(p: PlanRef, tasks: usize) -> bool { nb_of(p) is Some && nb_of(p)->0.stage() is Local && !(tasks == 1 && nb_of(p)->0.stage()->Local_0.tasks == 1) }
pub open spec fn number(q: PlanRef) -> usize { nb_of(q)->0.stage()->Local_0.num }
pub proof fn counter_grows(ps: Seq<PlanRef>, tcs: Seq<usize>, query: Uuid, qs: Seq<PlanRef>, ns: Seq<usize>, i: int, j: int)
    requires prepared_run(ps, tcs, query, qs, ns), 0 <= i <= j <= ps.len(),
    ensures ns[i] <= ns[j],
    decreases j - i
{ if i < j { assert(prepared(ps[j - 1], tcs[j - 1], query, ns[j - 1], qs[j - 1], ns[j - 1 + 1])); counter_grows(ps, tcs, query, qs, ns, i, j - 1); } }
/// THEOREM: no two boundaries of a prepared plan carry the same number, and all carry the same query id.
pub proof fn numbers_are_unique(ps: Seq<PlanRef>, tcs: Seq<usize>, query: Uuid, qs: Seq<PlanRef>, ns: Seq<usize>, i: int, j: int)
    requires prepared_run(ps, tcs, query, qs, ns), 0 <= i < j < ps.len(), stamped(ps[i], tcs[i]), stamped(ps[j], tcs[j]),
    ensures number(qs[i]) != number(qs[j]), nb_of(qs[i])->0.stage()->Local_0.query_id == nb_of(qs[j])->0.stage()->Local_0.query_id,
{
    assert(prepared(ps[i], tcs[i], query, ns[i], qs[i], ns[i + 1]));
    assert(prepared(ps[j], tcs[j], query, ns[j], qs[j], ns[j + 1]));
    counter_grows(ps, tcs, query, qs, ns, i + 1, j);
}

// ------------------------------------------------------------------ the plan put together again after a dynamic preparation
#[verifier::external_body] pub struct StageMap { _p: () }
pub struct PlanReconstructor { pub stage_map: StageMap }
/// `plan` is what was executed as stage `num`
pub uninterp spec fn executed_as(m: StageMap, num: usize, plan: PlanRef) -> bool;
impl StageMap {
    // every entry of the map was inserted under its stage's number
    #[verifier::external_body] pub fn remove(&self, num: &usize) -> (r: Option<(usize, (PlanRef, MetricsSet))>) ensures r is Some ==> r->Some_0.0 == *num && executed_as(*self, *num, (r->Some_0.1).0) { unimplemented!() }
}
impl PlanReconstructor {
//@fn src/coordinator/prepare_dynamic_plan.rs PlanReconstructor::reconstruct#c0 as reconstruct_boundary
//@ sig: pub fn $name(&self, plan: PlanRef, tc: usize) -> (r: Result<Transformed>)
//@ spec: requires nb_of(plan) is Some ==> nb_of(plan)->0.sane(tc) && (nb_of(plan)->0 is Broadcast ==> forall|p: PlanRef| #[trigger] executed_as(self.stage_map, nb_of(plan)->0.stage().num_spec(), p) ==> below_head(p).props().partitioning.pc() > 0),
//@   ensures r is Ok ==> match nb_of(plan) {
//@     None => r->Ok_0.data == plan,
//@     Some(b) => nb_of(r->Ok_0.data) is Some && nb_of(r->Ok_0.data)->0.same_kind(b) && nb_of(r->Ok_0.data)->0.width() == b.width() && nb_of(r->Ok_0.data)->0.stage() is Local && ({
//@       let t = nb_of(r->Ok_0.data)->0.stage()->Local_0;
//@       t.query_id == b.stage().query_spec() && t.num == b.stage().num_spec() && t.tasks == b.stage().tc()
//@         && exists|p: PlanRef| #[trigger] executed_as(self.stage_map, b.stage().num_spec(), p) && headed(t.plan, p, b, tc as int) }),
//@   },
//@ entry: if nb_of(plan) is Some && nb_of(plan)->0 is Broadcast && nb_of(plan)->0.width() > 0 { lemma_broadcast(nb_of(plan)->0.width() as int, tc as int); }
//@end
}
} // verus!
fn main() {}
