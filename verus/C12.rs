//@include lib/base.rs
//@strip ::prost::alloc::vec ::prost::alloc::string ::core::option datafusion::common
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@type_is protobuf::Schema => SchemaWire
//@type_is protobuf::Partitioning => PartitioningWire
//@type_is Option<String> => Option<Text>
//@type_is Bytes => Vec<u8>
//@type_is Arc<dyn PhysicalExtensionCodec> => CodecRef
//@type_is SchemaRef => Arc<Schema>
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ dependencies
/// an identifier: sixteen bytes (uuid)
#[verifier::external_body] pub struct Uuid { _x: u128 }
pub uninterp spec fn uuid_bytes(u: Uuid) -> Seq<u8>;
#[verifier::external_body] pub struct Sixteen { _x: u128 }
impl Sixteen { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
impl Uuid {
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &Sixteen) ensures r@ == uuid_bytes(*self), r@.len() == 16 { unimplemented!() }
    /// rejects any other length
    #[verifier::external_body] pub fn from_slice(b: &Vec<u8>) -> (r: Result<Uuid, UuidError>) ensures r is Ok <==> b@.len() == 16, r is Ok ==> uuid_bytes(r->Ok_0) == b@ { unimplemented!() }
}
pub broadcast axiom fn uuids_differ(a: Uuid, b: Uuid) ensures #[trigger] uuid_bytes(a) == #[trigger] uuid_bytes(b) ==> a == b;
pub broadcast axiom fn uuids_have_sixteen_bytes(a: Uuid) ensures (#[trigger] uuid_bytes(a)).len() == 16;
#[verifier::external_body] pub struct UuidError { _x: u8 }
#[verifier::external_body] pub struct Text { _x: u8 }
/// an address, and its text (url): the text of an address reads as that address
#[verifier::external_body] pub struct Url { _x: u8 }
pub uninterp spec fn url_text(u: Url) -> Text;
#[verifier::external_body] pub struct UrlError { _x: u8 }
impl Url {
    #[verifier::external_body] pub fn to_string(&self) -> (r: Text) ensures r == url_text(*self) { unimplemented!() }
    #[verifier::external_body] pub fn parse(t: &Text) -> (r: Result<Url, UrlError>) ensures forall|u: Url| *t == #[trigger] url_text(u) ==> r == core::result::Result::<Url, UrlError>::Ok(u) { unimplemented!() }
}
#[verifier::external_body] pub struct MetricsSet { _x: u8 }
#[verifier::external_body] pub fn no_metrics() -> (r: MetricsSet) { unimplemented!() }
#[verifier::external_body] pub struct ExecutionPlanMetricsSet { _x: u8 }
#[verifier::external_body] pub fn fresh_metrics() -> (r: ExecutionPlanMetricsSet) { unimplemented!() }
#[verifier::external_body] pub struct Statistics { _x: u8 }
#[verifier::external_body] pub struct TaskContext { _x: u8 }
#[verifier::external_body] pub struct Converter { _x: u8 }
/// schemas, and what DataFusion writes them as: reading gives the schema that was written
#[verifier::external_body] pub struct Schema { _x: u8 }
#[verifier::external_body] pub struct SchemaWire { _x: u8 }
pub uninterp spec fn schema_wire(w: SchemaWire, s: Schema) -> bool;
/// DataFusion can write it
pub uninterp spec fn schema_writable(s: Schema) -> bool;
pub uninterp spec fn partitioning_writable(p: Partitioning) -> bool;
#[verifier::external_body] pub fn vx_write_schema(s: Arc<Schema>) -> (r: Result<SchemaWire>) ensures schema_writable(*s) ==> r is Ok, r is Ok ==> schema_wire(r->Ok_0, *s) { unimplemented!() }
pub open spec fn schema_read(w: SchemaWire, r: Result<Schema>) -> bool { forall|s: Schema| #[trigger] schema_wire(w, s) ==> r == core::result::Result::<Schema, DataFusionError>::Ok(s) }
#[verifier::external_body] pub fn vx_read_schema(w: &SchemaWire) -> (r: Result<Schema>) ensures schema_read(*w, r) { unimplemented!() }
/// partitionings, and what DataFusion writes them as: reading, over the schema that the partitioning is of, gives the partitioning that was written
#[verifier::external_body] pub struct PartitioningWire { _x: u8 }
#[verifier::external_body] pub struct PhysicalExprRef { _x: u8 }
#[verifier::external_body] pub struct RangePartitioning { _x: u8 }
pub uninterp spec fn ranges(r: RangePartitioning) -> usize;
#[verifier::external_body] pub fn vx_ranges(r: &RangePartitioning) -> (n: usize) ensures n == ranges(*r) { unimplemented!() }
pub enum Partitioning { RoundRobinBatch(usize), Hash(Vec<PhysicalExprRef>, usize), Range(RangePartitioning), UnknownPartitioning(usize) }
impl Partitioning {
    pub open spec fn n(&self) -> usize { match self { Partitioning::RoundRobinBatch(n) => *n, Partitioning::Hash(_, n) => *n, Partitioning::Range(x) => ranges(*x), Partitioning::UnknownPartitioning(n) => *n } }
    pub fn partition_count(&self) -> (r: usize) ensures r == self.n() { match self { Partitioning::RoundRobinBatch(n) => *n, Partitioning::Hash(_, n) => *n, Partitioning::Range(x) => vx_ranges(x), Partitioning::UnknownPartitioning(n) => *n } }
}
pub uninterp spec fn partitioning_wire(w: PartitioningWire, p: Partitioning) -> bool;
/// the partitioning's expressions are over this schema
pub uninterp spec fn over(p: Partitioning, s: Schema) -> bool;
#[verifier::external_body] pub fn serialize_partitioning<C: Codec>(p: &Partitioning, codec: &C, c: &Converter) -> (r: Result<PartitioningWire>) ensures partitioning_writable(*p) ==> r is Ok, r is Ok ==> partitioning_wire(r->Ok_0, *p) { unimplemented!() }
pub struct PhysicalPlanDecodeContext<'a, C> { pub ctx: &'a TaskContext, pub codec: &'a C }
impl<'a, C> PhysicalPlanDecodeContext<'a, C> { pub fn new(ctx: &'a TaskContext, codec: &'a C) -> Self { PhysicalPlanDecodeContext { ctx, codec } } }
pub open spec fn partitioning_read(w: PartitioningWire, s: Schema, r: Result<Option<Partitioning>>) -> bool {
    forall|p: Partitioning| (#[trigger] partitioning_wire(w, p)) && over(p, s) ==> r == core::result::Result::<Option<Partitioning>, DataFusionError>::Ok(Some(p))
}
#[verifier::external_body] pub fn parse_protobuf_partitioning<C: Codec>(w: Option<&PartitioningWire>, ctx: &PhysicalPlanDecodeContext<C>, s: &Schema, c: &Converter) -> (r: Result<Option<Partitioning>>) ensures match w { Some(x) => partitioning_read(*x, *s, r), None => r == core::result::Result::<Option<Partitioning>, DataFusionError>::Ok(None) } { unimplemented!() }
/// the properties a node advertises
pub enum EmissionType { Incremental, Final, Both }
pub enum Boundedness { Bounded, Unbounded }
pub struct EquivalenceProperties { pub schema: Arc<Schema> }
impl EquivalenceProperties { pub fn new(schema: Arc<Schema>) -> (r: Self) ensures r.schema == schema { EquivalenceProperties { schema } } }
pub struct PlanProperties { pub eq_properties: EquivalenceProperties, pub partitioning: Partitioning, pub emission: EmissionType, pub bounded: Boundedness }
impl Clone for PlanProperties { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PlanProperties {
    pub fn new(eq_properties: EquivalenceProperties, partitioning: Partitioning, emission: EmissionType, bounded: Boundedness) -> (r: Self) ensures r == (PlanProperties { eq_properties, partitioning, emission, bounded }) { PlanProperties { eq_properties, partitioning, emission, bounded } }
    pub fn output_partitioning(&self) -> (r: &Partitioning) ensures *r == self.partitioning { &self.partitioning }
}
#[verifier::external_body] pub struct WorkerConnectionPool { _x: u8 }
impl WorkerConnectionPool { pub uninterp spec fn slots(&self) -> usize; #[verifier::external_body] pub fn new(n: usize) -> (r: Self) ensures r.slots() == n { unimplemented!() } }
/// `Arc<dyn ExecutionPlan>`
#[verifier::external_body] pub struct PlanRef { _x: u8 }
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn parts_of(p: PlanRef) -> usize { p.props().partitioning.n() }
pub trait Node: Sized { spec fn of(p: PlanRef) -> Option<Self>; }
impl PlanRef { #[verifier::external_body] pub fn downcast_ref<T: Node>(&self) -> (r: Option<&T>) ensures match r { Some(x) => T::of(*self) == Some(*x), None => T::of(*self) is None } { unimplemented!() } }
#[verifier::external_body] pub fn vx_plan<T: Node>(x: T) -> (r: PlanRef) ensures T::of(r) == Some(x) { unimplemented!() }
#[verifier::external_body] pub fn vx_first(v: &[PlanRef]) -> (r: Option<PlanRef>) ensures r == (if v@.len() == 0 { None } else { Some(v@[0]) }) { unimplemented!() }
#[verifier::external_body] pub fn vx_to_vec(v: &[PlanRef]) -> (r: Vec<PlanRef>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn require_one_child(v: &[PlanRef]) -> (r: Result<PlanRef>) ensures r is Ok <==> v@.len() == 1, r is Ok ==> r->Ok_0 == v@[0] { unimplemented!() }
/// DataFusion's union: its properties, whatever they are, for the sake of everything but the partitioning
#[verifier::external_body] pub struct UnionExec { _x: u8 }
impl UnionExec {
    #[verifier::external_body] pub fn try_new(v: Vec<PlanRef>) -> (r: Result<PlanRef>) ensures union_properties(v@) is Some ==> r is Ok, r is Ok ==> union_properties(v@) is Some && r->Ok_0.props() == union_properties(v@)->0 { unimplemented!() }
}
pub uninterp spec fn union_properties(v: Seq<PlanRef>) -> Option<PlanProperties>;
impl PlanRef { #[verifier::external_body] pub fn vx_props(&self) -> (r: PlanProperties) ensures r == self.props() { unimplemented!() } pub uninterp spec fn props(&self) -> PlanProperties; #[verifier::external_body] pub fn properties(&self) -> (r: &Arc<PlanProperties>) ensures **r == self.props() { unimplemented!() } }
pub struct DistributedCodec {}
pub trait Codec {}
impl Codec for DistributedCodec {}
// ------------------------------------------------------------------ the nodes
//@struct src/stage.rs DistributedTaskContext
//@struct src/stage.rs LocalStage
//@struct src/stage.rs RemoteStage
//@enum src/stage.rs Stage
impl Stage {
    pub open spec fn tc(&self) -> usize { match self { Stage::Local(v) => v.tasks, Stage::Remote(v) => v.workers@.len() as usize } }
//@fn src/stage.rs Stage::task_count
//@ spec: ensures r == self.tc(),
//@end
//@fn src/stage.rs Stage::local_plan
//@ spec: ensures match *self { Stage::Local(v) => r is Some && *r->0 == v.plan, Stage::Remote(_) => r is None },
//@end
}
//@struct src/execution_plans/network_shuffle.rs NetworkShuffleExec
//@struct src/execution_plans/network_coalesce.rs NetworkCoalesceExec
//@struct src/execution_plans/network_broadcast.rs NetworkBroadcastExec
//@struct src/execution_plans/children_isolator_union.rs ChildWeight
//@struct src/execution_plans/children_isolator_union.rs ChildrenIsolatorUnionExec
/// C17, C21: what these two read and write; here, what they are made from
pub struct BroadcastExec { pub input: PlanRef, pub consumer_task_count: usize }
impl BroadcastExec {
    #[verifier::external_body] pub fn new(input: PlanRef, consumer_task_count: usize) -> (r: Self) requires parts_of(input) * consumer_task_count <= usize::MAX, ensures r.input == input, r.consumer_task_count == consumer_task_count { unimplemented!() }
//@fn src/execution_plans/broadcast.rs BroadcastExec::consumer_task_count
//@ spec: ensures r == self.consumer_task_count,
//@end
}
pub struct SamplerExec { pub input: PlanRef }
impl SamplerExec { #[verifier::external_body] pub fn new(input: PlanRef) -> (r: Self) ensures r.input == input { unimplemented!() } }
impl Node for NetworkShuffleExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
impl Node for NetworkCoalesceExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
impl Node for NetworkBroadcastExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
impl Node for ChildrenIsolatorUnionExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
impl Node for BroadcastExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
impl Node for SamplerExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
/// a node is of one type
pub broadcast axiom fn one_type_s(p: PlanRef) requires (#[trigger] NetworkShuffleExec::of(p)) is Some ensures NetworkCoalesceExec::of(p) is None, NetworkBroadcastExec::of(p) is None, BroadcastExec::of(p) is None, ChildrenIsolatorUnionExec::of(p) is None, SamplerExec::of(p) is None;
pub broadcast axiom fn one_type_c(p: PlanRef) requires (#[trigger] NetworkCoalesceExec::of(p)) is Some ensures NetworkShuffleExec::of(p) is None, NetworkBroadcastExec::of(p) is None, BroadcastExec::of(p) is None, ChildrenIsolatorUnionExec::of(p) is None, SamplerExec::of(p) is None;
pub broadcast axiom fn one_type_b(p: PlanRef) requires (#[trigger] NetworkBroadcastExec::of(p)) is Some ensures NetworkShuffleExec::of(p) is None, NetworkCoalesceExec::of(p) is None, BroadcastExec::of(p) is None, ChildrenIsolatorUnionExec::of(p) is None, SamplerExec::of(p) is None;
pub broadcast axiom fn one_type_x(p: PlanRef) requires (#[trigger] BroadcastExec::of(p)) is Some ensures NetworkShuffleExec::of(p) is None, NetworkCoalesceExec::of(p) is None, NetworkBroadcastExec::of(p) is None, ChildrenIsolatorUnionExec::of(p) is None, SamplerExec::of(p) is None;
pub broadcast axiom fn one_type_u(p: PlanRef) requires (#[trigger] ChildrenIsolatorUnionExec::of(p)) is Some ensures NetworkShuffleExec::of(p) is None, NetworkCoalesceExec::of(p) is None, NetworkBroadcastExec::of(p) is None, BroadcastExec::of(p) is None, SamplerExec::of(p) is None;
pub broadcast axiom fn one_type_m(p: PlanRef) requires (#[trigger] SamplerExec::of(p)) is Some ensures NetworkShuffleExec::of(p) is None, NetworkCoalesceExec::of(p) is None, NetworkBroadcastExec::of(p) is None, BroadcastExec::of(p) is None, ChildrenIsolatorUnionExec::of(p) is None;
/// the schema of a node is that of its properties (the default of `ExecutionPlan::schema`)
impl NetworkShuffleExec { pub fn schema(&self) -> (r: Arc<Schema>) ensures r == self.properties.eq_properties.schema { vx_schema(&self.properties) } }
impl NetworkCoalesceExec { pub fn schema(&self) -> (r: Arc<Schema>) ensures r == self.properties.eq_properties.schema { vx_schema(&self.properties) } }
impl NetworkBroadcastExec { pub fn schema(&self) -> (r: Arc<Schema>) ensures r == self.properties.eq_properties.schema { vx_schema(&self.properties) } }
#[verifier::external_body] fn vx_schema(p: &Arc<PlanProperties>) -> (r: Arc<Schema>) ensures r == p.eq_properties.schema { unimplemented!() }
impl NetworkShuffleExec {
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::input_stage@NetworkBoundary
//@ spec: ensures *r == self.input_stage,
//@end
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::properties@ExecutionPlan
//@ spec: ensures *r == self.properties,
//@end
//@fn src/execution_plans/network_shuffle.rs NetworkShuffleExec::children@ExecutionPlan
//@ spec: ensures stage_children(self.input_stage, r@),
//@end
}
impl NetworkCoalesceExec {
//@fn src/execution_plans/network_coalesce.rs NetworkCoalesceExec::input_stage@NetworkBoundary
//@ spec: ensures *r == self.input_stage,
//@end
//@fn src/execution_plans/network_coalesce.rs NetworkCoalesceExec::properties@ExecutionPlan
//@ spec: ensures *r == self.properties,
//@end
//@fn src/execution_plans/network_coalesce.rs NetworkCoalesceExec::children@ExecutionPlan
//@ spec: ensures stage_children(self.input_stage, r@),
//@end
}
impl NetworkBroadcastExec {
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::input_stage@NetworkBoundary
//@ spec: ensures *r == self.input_stage,
//@end
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::properties@ExecutionPlan
//@ spec: ensures *r == self.properties,
//@end
//@fn src/execution_plans/network_broadcast.rs NetworkBroadcastExec::children@ExecutionPlan
//@ spec: ensures stage_children(self.input_stage, r@),
//@end
}
impl ChildrenIsolatorUnionExec {
//@fn src/execution_plans/children_isolator_union.rs ChildrenIsolatorUnionExec::properties@ExecutionPlan
//@ spec: ensures *r == self.properties,
//@end
}
/// the plan of a stage is what a boundary has below it: nothing, where the stage is elsewhere
pub open spec fn below(s: Stage) -> Seq<PlanRef> { match s { Stage::Local(l) => seq![l.plan], Stage::Remote(_) => seq![] } }
pub open spec fn stage_children(s: Stage, v: Seq<&PlanRef>) -> bool { v.len() == below(s).len() && forall|i: int| 0 <= i < v.len() ==> *#[trigger] v[i] == below(s)[i] }
// ------------------------------------------------------------------ the wire form (prost: a message reads as it was written)
//@struct src/codec/distributed_codec.rs StageProto
//@struct src/codec/distributed_codec.rs ExecutionTaskProto
//@struct src/codec/distributed_codec.rs DistributedExecProto
//@enum src/codec/distributed_codec.rs DistributedExecNode
//@struct src/codec/distributed_codec.rs NetworkShuffleExecProto
//@struct src/codec/distributed_codec.rs ChildrenIsolatorUnionExecProto
//@struct src/codec/distributed_codec.rs ChildWeightProto
//@struct src/codec/distributed_codec.rs TaskIdxMapEntryProto
//@struct src/codec/distributed_codec.rs ChildIdxWithTaskContextProto
//@struct src/codec/distributed_codec.rs NetworkCoalesceExecProto
//@struct src/codec/distributed_codec.rs NetworkBroadcastExecProto
//@struct src/codec/distributed_codec.rs BroadcastExecProto
//@struct src/codec/distributed_codec.rs SamplerExecProto
#[verifier::external_body] pub struct ProstError { _x: u8 }
// the numbers under which each kind of node travels: all listed where they are decoded, none twice, and no number that stands for nothing (prost panics on those)
//@tags src/codec/distributed_codec.rs DistributedExecProto DistributedExecNode
pub open spec fn member(x: int, s: Seq<int>) -> bool decreases s.len() { s.len() > 0 && (s.last() == x || member(x, s.drop_last())) }
pub open spec fn all_in(a: Seq<int>, b: Seq<int>) -> bool decreases a.len() { a.len() == 0 || { member(a.last(), b) && !member(a.last(), a.drop_last()) && all_in(a.drop_last(), b) } }
pub proof fn theorem_every_node_has_a_number()
    ensures all_in(variant_tags_DistributedExecNode(), listed_tags_DistributedExecNode()), all_in(listed_tags_DistributedExecNode(), variant_tags_DistributedExecNode()),
{
    assert(all_in(variant_tags_DistributedExecNode(), listed_tags_DistributedExecNode())) by (compute);
    assert(all_in(listed_tags_DistributedExecNode(), variant_tags_DistributedExecNode())) by (compute);
}
pub uninterp spec fn bytes_of(m: DistributedExecProto) -> Seq<u8>;
impl DistributedExecProto {
    #[verifier::external_body] pub fn encode(&self, buf: &mut Vec<u8>) -> (r: Result<(), ProstError>) ensures r is Ok, final(buf)@ == old(buf)@ + bytes_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn decode(b: &[u8]) -> (r: Result<DistributedExecProto, ProstError>) ensures forall|m: DistributedExecProto| b@ == #[trigger] bytes_of(m) ==> r == core::result::Result::<DistributedExecProto, ProstError>::Ok(m) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_default_tasks(n: usize) -> (r: Vec<ExecutionTaskProto>) ensures r@.len() == n { unimplemented!() }
// ------------------------------------------------------------------ what each node is on the wire
pub open spec fn stage_wire(w: StageProto, s: Stage) -> bool { match s {
    Stage::Local(l) => w.query_id@ == uuid_bytes(l.query_id) && w.num == l.num && w.tasks@.len() == l.tasks,
    Stage::Remote(m) => w.query_id@ == uuid_bytes(m.query_id) && w.num == m.num && w.tasks@.len() == m.workers@.len() && forall|i: int| #![trigger w.tasks@[i]] #![trigger m.workers@[i]] 0 <= i < m.workers@.len() ==> w.tasks@[i].url_str == Some(url_text(m.workers@[i])),
} }
pub open spec fn boundary_wire(schema: Option<SchemaWire>, partitioning: Option<PartitioningWire>, stage: Option<StageProto>, p: PlanProperties, s: Stage) -> bool {
    schema is Some && schema_wire(schema->0, *p.eq_properties.schema) && partitioning is Some && partitioning_wire(partitioning->0, p.partitioning) && stage is Some && stage_wire(stage->0, s)
}
pub open spec fn slots_wire(w: Seq<ChildIdxWithTaskContextProto>, v: Seq<(usize, DistributedTaskContext)>) -> bool { w.len() == v.len() && forall|j: int| #![trigger w[j]] #![trigger v[j]] 0 <= j < v.len() ==> slot_wire(w[j], v[j]) }
pub open spec fn slot_wire(w: ChildIdxWithTaskContextProto, v: (usize, DistributedTaskContext)) -> bool { w.child_idx == v.0 && w.task_idx == v.1.task_index && w.task_count == v.1.task_count }
pub open spec fn weight_wire(w: ChildWeightProto, v: ChildWeight) -> bool { w.weight == v.weight && match v.max { Some(m) => w.max is Some && w.max->0 == m, None => w.max is None } }
pub open spec fn entry_wire(w: TaskIdxMapEntryProto, v: Vec<(usize, DistributedTaskContext)>) -> bool { slots_wire(w.child_ctx@, v@) }
pub open spec fn map_wire(w: Seq<TaskIdxMapEntryProto>, v: Seq<Vec<(usize, DistributedTaskContext)>>) -> bool { w.len() == v.len() && forall|t: int| #![trigger w[t]] #![trigger v[t]] 0 <= t < v.len() ==> entry_wire(w[t], v[t]) }
pub open spec fn weights_wire(w: Seq<ChildWeightProto>, v: Seq<ChildWeight>) -> bool { w.len() == v.len() && forall|t: int| #![trigger w[t]] #![trigger v[t]] 0 <= t < v.len() ==> weight_wire(w[t], v[t]) }
pub open spec fn node_wire(m: DistributedExecProto, p: PlanRef) -> bool { m.node is Some && match m.node->0 {
    DistributedExecNode::NetworkHashShuffle(w) => match NetworkShuffleExec::of(p) { Some(x) => boundary_wire(w.schema, w.partitioning, w.input_stage, *x.properties, x.input_stage), None => false },
    DistributedExecNode::NetworkCoalesceTasks(w) => match NetworkCoalesceExec::of(p) { Some(x) => boundary_wire(w.schema, w.partitioning, w.input_stage, *x.properties, x.input_stage), None => false },
    DistributedExecNode::NetworkBroadcast(w) => match NetworkBroadcastExec::of(p) { Some(x) => boundary_wire(w.schema, w.partitioning, w.input_stage, *x.properties, x.input_stage), None => false },
    DistributedExecNode::ChildrenIsolatorUnion(w) => match ChildrenIsolatorUnionExec::of(p) { Some(x) => w.partition_count == x.properties.partitioning.n() && map_wire(w.task_idx_map@, x.task_idx_map@) && weights_wire(w.child_weights@, x.child_weights@), None => false },
    DistributedExecNode::Broadcast(w) => match BroadcastExec::of(p) { Some(x) => w.consumer_task_count == x.consumer_task_count, None => false },
    DistributedExecNode::Sampler(_) => SamplerExec::of(p) is Some,
} }
// ------------------------------------------------------------------ when two nodes are the same
pub open spec fn same_stage(a: Stage, b: Stage) -> bool { match (a, b) {
    (Stage::Local(x), Stage::Local(y)) => x.query_id == y.query_id && x.num == y.num && x.plan == y.plan && x.tasks == y.tasks,
    (Stage::Remote(x), Stage::Remote(y)) => x.query_id == y.query_id && x.num == y.num && x.workers@ =~= y.workers@,
    _ => false,
} }
pub open spec fn same_map(a: Seq<Vec<(usize, DistributedTaskContext)>>, b: Seq<Vec<(usize, DistributedTaskContext)>>) -> bool { a.len() == b.len() && forall|t: int| #![trigger a[t]] #![trigger b[t]] 0 <= t < a.len() ==> a[t]@ =~= b[t]@ }
pub open spec fn same_boundary(p: PlanProperties, s: Stage, q: PlanProperties, t: Stage) -> bool { *p.eq_properties.schema == *q.eq_properties.schema && p.partitioning == q.partitioning && same_stage(s, t) }
pub open spec fn same_node(a: PlanRef, b: PlanRef) -> bool {
    (NetworkShuffleExec::of(a) is Some ==> match NetworkShuffleExec::of(b) { Some(y) => same_boundary(*NetworkShuffleExec::of(a)->0.properties, NetworkShuffleExec::of(a)->0.input_stage, *y.properties, y.input_stage) && y.worker_connections.slots() == y.input_stage.tc(), None => false })
    && (NetworkCoalesceExec::of(a) is Some ==> match NetworkCoalesceExec::of(b) { Some(y) => same_boundary(*NetworkCoalesceExec::of(a)->0.properties, NetworkCoalesceExec::of(a)->0.input_stage, *y.properties, y.input_stage) && y.worker_connections.slots() == y.input_stage.tc(), None => false })
    && (NetworkBroadcastExec::of(a) is Some ==> match NetworkBroadcastExec::of(b) { Some(y) => same_boundary(*NetworkBroadcastExec::of(a)->0.properties, NetworkBroadcastExec::of(a)->0.input_stage, *y.properties, y.input_stage) && y.worker_connections.slots() == y.input_stage.tc(), None => false })
    && (BroadcastExec::of(a) is Some ==> BroadcastExec::of(b) == BroadcastExec::of(a))
    && (SamplerExec::of(a) is Some ==> SamplerExec::of(b) == SamplerExec::of(a))
    && (ChildrenIsolatorUnionExec::of(a) is Some ==> match ChildrenIsolatorUnionExec::of(b) { Some(y) => { let x = ChildrenIsolatorUnionExec::of(a)->0;
        y.children@ == x.children@ && same_map(x.task_idx_map@, y.task_idx_map@) && x.child_weights@ =~= y.child_weights@ && y.properties.partitioning.n() == x.properties.partitioning.n()
        && *y.properties == (PlanProperties { partitioning: Partitioning::UnknownPartitioning(x.properties.partitioning.n()), ..union_properties(x.children@)->0 }) }, None => false })
}
/// what a node has below it
pub open spec fn kids(p: PlanRef) -> Seq<PlanRef> {
    if NetworkShuffleExec::of(p) is Some { below(NetworkShuffleExec::of(p)->0.input_stage) } else if NetworkCoalesceExec::of(p) is Some { below(NetworkCoalesceExec::of(p)->0.input_stage) }
    else if NetworkBroadcastExec::of(p) is Some { below(NetworkBroadcastExec::of(p)->0.input_stage) } else if BroadcastExec::of(p) is Some { seq![BroadcastExec::of(p)->0.input] }
    else if SamplerExec::of(p) is Some { seq![SamplerExec::of(p)->0.input] } else if ChildrenIsolatorUnionExec::of(p) is Some { ChildrenIsolatorUnionExec::of(p)->0.children@ } else { seq![] }
}
/// the kinds of node that the system adds
pub open spec fn ours(p: PlanRef) -> bool { NetworkShuffleExec::of(p) is Some || NetworkCoalesceExec::of(p) is Some || NetworkBroadcastExec::of(p) is Some || BroadcastExec::of(p) is Some || SamplerExec::of(p) is Some || ChildrenIsolatorUnionExec::of(p) is Some }
pub open spec fn props_writable(p: PlanProperties) -> bool { schema_writable(*p.eq_properties.schema) && partitioning_writable(p.partitioning) }
pub open spec fn writable(p: PlanRef) -> bool {
    (NetworkShuffleExec::of(p) is Some ==> props_writable(*NetworkShuffleExec::of(p)->0.properties)) && (NetworkCoalesceExec::of(p) is Some ==> props_writable(*NetworkCoalesceExec::of(p)->0.properties)) && (NetworkBroadcastExec::of(p) is Some ==> props_writable(*NetworkBroadcastExec::of(p)->0.properties))
}
/// every child that a task is to run exists
pub open spec fn map_names(u: ChildrenIsolatorUnionExec) -> bool { forall|t: int, j: int| #![trigger u.task_idx_map@[t]@[j]] 0 <= t < u.task_idx_map@.len() && 0 <= j < u.task_idx_map@[t]@.len() ==> u.task_idx_map@[t]@[j].0 < u.children@.len() }
pub open spec fn entry_names(w: TaskIdxMapEntryProto, n: nat) -> bool { forall|j: int| #![trigger w.child_ctx@[j]] 0 <= j < w.child_ctx@.len() ==> w.child_ctx@[j].child_idx < n }
/// nodes that can exist: partitionings over their schemas, broadcasts whose partitions can be counted, unions that DataFusion accepts
pub open spec fn sound(p: PlanRef) -> bool {
    (NetworkShuffleExec::of(p) is Some ==> over(NetworkShuffleExec::of(p)->0.properties.partitioning, *NetworkShuffleExec::of(p)->0.properties.eq_properties.schema))
    && (NetworkCoalesceExec::of(p) is Some ==> over(NetworkCoalesceExec::of(p)->0.properties.partitioning, *NetworkCoalesceExec::of(p)->0.properties.eq_properties.schema))
    && (NetworkBroadcastExec::of(p) is Some ==> over(NetworkBroadcastExec::of(p)->0.properties.partitioning, *NetworkBroadcastExec::of(p)->0.properties.eq_properties.schema))
    && (BroadcastExec::of(p) is Some ==> parts_of(BroadcastExec::of(p)->0.input) * BroadcastExec::of(p)->0.consumer_task_count <= usize::MAX)
    && (ChildrenIsolatorUnionExec::of(p) is Some ==> union_properties(ChildrenIsolatorUnionExec::of(p)->0.children@) is Some && map_names(ChildrenIsolatorUnionExec::of(p)->0))
}
// ------------------------------------------------------------------ the code
//@fn src/common/uuid.rs serialize_uuid
//@ spec: ensures r@ == uuid_bytes(*id), r@.len() == 16,
//@end
//@fn src/common/uuid.rs deserialize_uuid
//@ sig: pub fn $name(id: &Vec<u8>) -> (r: Result<Uuid>)
//@ subst: proto_error($..) => vx_dferr()
//@ closure 0: |err: UuidError| -> (o: DataFusionError)
//@ spec: ensures r is Ok <==> id@.len() == 16, r is Ok ==> uuid_bytes(r->Ok_0) == id@,
//@end
//@fn src/codec/distributed_codec.rs DistributedCodec::try_encode@PhysicalExtensionCodec/encode_stage_proto as encode_stage_proto
//@ spec: ensures r is Ok, stage_wire(r->Ok_0, *stage),
//@ subst: .into() =>
//@ subst: let mut tasks = Vec => let mut tasks: Vec<ExecutionTaskProto> = Vec
//@ subst: vec![ExecutionTaskProto::default(); $..] => vx_default_tasks($..)
//@ loop 0: invariant it0.seq().len() == remote.workers@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *#[trigger] it0.seq()[i] == remote.workers@[i], tasks@.len() == it0.index(), forall|i: int| 0 <= i < it0.index() ==> #[trigger] tasks@[i].url_str == Some(url_text(remote.workers@[i])),
//@end
/// what is read of a stage: `plan` is what came with it
pub open spec fn stage_read(w: StageProto, inputs: Seq<PlanRef>, r: Result<Stage>) -> bool {
    (r is Ok ==> match r->Ok_0 { Stage::Local(l) => inputs.len() > 0 && l.plan == inputs[0] && uuid_bytes(l.query_id) == w.query_id@ && l.num == w.num && l.tasks == w.tasks@.len(), Stage::Remote(m) => inputs.len() == 0 && uuid_bytes(m.query_id) == w.query_id@ && m.num == w.num && m.workers@.len() == w.tasks@.len() })
    && forall|s: Stage| #[trigger] stage_wire(w, s) && inputs == below(s) ==> r is Ok && same_stage(s, r->Ok_0)
}
//@fn src/codec/distributed_codec.rs DistributedCodec::try_decode@PhysicalExtensionCodec/parse_stage_proto as parse_stage_proto
//@ header: #[verifier::loop_isolation(false)]
//@ spec: ensures proto is None ==> r is Err, proto is Some ==> stage_read(proto->0, inputs@, r),
//@ subst: inputs.first().cloned() => vx_first(inputs)
//@ subst: proto_error($..) => vx_dferr()
//@ subst: let mut worker_urls = Vec => let mut worker_urls: Vec<Url> = Vec
//@ subst: proto.query_id.as_ref() => &proto.query_id
//@ subst: Default::default() => no_metrics()
//@ ghost: broadcast use {uuids_differ, uuids_have_sixteen_bytes};
//@ loop 0: invariant inputs@.len() == 0, it0.seq() == proto.tasks@, worker_urls@.len() == it0.index(), forall|s: Stage| #![trigger stage_wire(proto, s)] stage_wire(proto, s) && s is Remote ==> forall|i: int| 0 <= i < it0.index() ==> worker_urls@[i] == #[trigger] s->Remote_0.workers@[i],
//@   body: let ghost k = it0.index() as int; assert(task == proto.tasks@[k]); assert forall|s: Stage| #[trigger] stage_wire(proto, s) && inputs@ == below(s) implies s is Remote && task.url_str == Some(url_text(s->Remote_0.workers@[k])) by { assert(s is Remote); let m = s->Remote_0; assert(m.workers@.len() == proto.tasks@.len()); let x = m.workers@[k]; };
//@end
//@fn src/codec/distributed_codec.rs new_network_hash_shuffle_exec
//@ spec: ensures *r.properties == (PlanProperties { eq_properties: EquivalenceProperties { schema }, partitioning, emission: EmissionType::Incremental, bounded: Boundedness::Bounded }), r.input_stage == input_stage, r.worker_connections.slots() == input_stage.tc(),
//@end
//@fn src/codec/distributed_codec.rs new_network_coalesce_tasks_exec
//@ spec: ensures *r.properties == (PlanProperties { eq_properties: EquivalenceProperties { schema }, partitioning, emission: EmissionType::Incremental, bounded: Boundedness::Bounded }), r.input_stage == input_stage, r.worker_connections.slots() == input_stage.tc(),
//@end
//@fn src/codec/distributed_codec.rs new_network_broadcast_exec
//@ spec: ensures *r.properties == (PlanProperties { eq_properties: EquivalenceProperties { schema }, partitioning, emission: EmissionType::Incremental, bounded: Boundedness::Bounded }), r.input_stage == input_stage, r.worker_connections.slots() == input_stage.tc(),
//@end
pub open spec fn written(b: Seq<u8>, p: PlanRef) -> bool { exists|m: DistributedExecProto| b == #[trigger] bytes_of(m) && node_wire(m, p) }
/// what was in the buffer stays in front
pub open spec fn appended(b: Seq<u8>, c: Seq<u8>, p: PlanRef) -> bool { exists|m: DistributedExecProto| c == b + #[trigger] bytes_of(m) && node_wire(m, p) }
pub proof fn lemma_into_empty(c: Seq<u8>, p: PlanRef) requires appended(Seq::<u8>::empty(), c, p) ensures written(c, p) { let m = choose|m: DistributedExecProto| c == Seq::<u8>::empty() + #[trigger] bytes_of(m) && node_wire(m, p); assert(c =~= bytes_of(m)); }
impl DistributedCodec {
//@fn src/codec/distributed_codec.rs DistributedCodec::try_encode@PhysicalExtensionCodec
//@ sig: pub fn $name(&self, node: PlanRef, buf: &mut Vec<u8>, proto_converter: &Converter) -> (r: Result<()>)
//@ spec: ensures r is Ok ==> appended(old(buf)@, final(buf)@, node), ours(node) && writable(node) ==> r is Ok,
//@ drop: fn encode_stage_proto
//@ subst: proto_error($..) => vx_dferr()
//@ subst: node.schema().try_into()? => vx_write_schema(node.schema())?
//@ closure 0: |e: ProstError| -> (o: DataFusionError)
//@ closure 1: |e: ProstError| -> (o: DataFusionError)
//@ closure 2: |e: ProstError| -> (o: DataFusionError)
//@ closure 3: |e: ProstError| -> (o: DataFusionError)
//@ closure 8: |e: ProstError| -> (o: DataFusionError)
//@ closure 9: |e: ProstError| -> (o: DataFusionError)
//@ closure 4: |v: &Vec<(usize, DistributedTaskContext)>| -> (o: TaskIdxMapEntryProto) ensures entry_wire(o, *v)
//@ closure 5: |__vx_p5_0: &(usize, DistributedTaskContext)| -> (o: ChildIdxWithTaskContextProto) ensures slot_wire(o, *__vx_p5_0)
//@ closure 6: |cw: &ChildWeight| -> (o: ChildWeightProto) ensures weight_wire(o, *cw)
//@ closure 7: |m: usize| -> (o: u64) ensures o == m
//@end
//@fn src/codec/distributed_codec.rs DistributedCodec::try_decode@PhysicalExtensionCodec
//@ sig: pub fn $name(&self, buf: &[u8], inputs: &[PlanRef], ctx: &TaskContext, proto_converter: &Converter) -> (r: Result<PlanRef>)
//@ header: #[verifier::loop_isolation(false)]
//@ spec: ensures r is Ok && ChildrenIsolatorUnionExec::of(r->Ok_0) is Some ==> map_names(ChildrenIsolatorUnionExec::of(r->Ok_0)->0), forall|p: PlanRef| #[trigger] written(buf@, p) && sound(p) && inputs@ == kids(p) ==> r is Ok && same_node(p, r->Ok_0),
//@ drop: fn parse_stage_proto
//@ subst: proto_error($..) => vx_dferr()
//@ ghost: broadcast use {one_type_s, one_type_c, one_type_b, one_type_x, one_type_u, one_type_m};
//@ subst: s.try_into() => vx_read_schema(s)
//@ subst: Ok(Arc::new($..)) => Ok(vx_plan($..))
//@ subst: .properties().as_ref().clone() => .vx_props()
//@ subst: inputs.to_vec() => vx_to_vec(inputs)
//@ subst: inputs.first() => vx_first(inputs)
//@ subst: Default::default() => fresh_metrics()
//@ loop 0: invariant inputs@.len() <= usize::MAX, it0.seq().len() == task_idx_map@.len(), forall|t: int| 0 <= t < it0.seq().len() ==> *#[trigger] it0.seq()[t] == task_idx_map@[t], forall|t: int| #![trigger task_idx_map@[t]] 0 <= t < it0.index() ==> entry_names(task_idx_map@[t], inputs@.len()),
//@ loop 1: invariant it1.seq().len() == entry.child_ctx@.len(), forall|t: int| 0 <= t < it1.seq().len() ==> *#[trigger] it1.seq()[t] == entry.child_ctx@[t], forall|t: int| #![trigger entry.child_ctx@[t]] 0 <= t < it1.index() ==> entry.child_ctx@[t].child_idx < inputs@.len(),
//@ closure 0: |err: ProstError| -> (o: DataFusionError)
//@ closure 1: |s: &SchemaWire| -> (o: Result<Schema>) ensures schema_read(*s, o)
//@ closure 2: |s: &SchemaWire| -> (o: Result<Schema>) ensures schema_read(*s, o)
//@ closure 3: |s: &SchemaWire| -> (o: Result<Schema>) ensures schema_read(*s, o)
//@ closure 4: |cw: &ChildWeightProto| -> (o: ChildWeight) ensures weight_wire(*cw, o)
//@ closure 5: |m: u64| -> (o: usize) ensures o == m
//@ closure 6: |entry: &TaskIdxMapEntryProto| -> (o: Vec<(usize, DistributedTaskContext)>) ensures entry_wire(*entry, o)
//@ closure 7: |child_ctx: &ChildIdxWithTaskContextProto| -> (o: (usize, DistributedTaskContext)) ensures slot_wire(*child_ctx, o)
//@end
}
// ------------------------------------------------------------------ whole plans
/// a node of ours, encoded and decoded next to its children, is that node again
pub fn theorem_round_trip(codec: &DistributedCodec, node: PlanRef, ctx: &TaskContext, conv: &Converter, inputs: &[PlanRef])
    requires sound(node), ours(node), writable(node), inputs@ == kids(node),
{
    let mut buf: Vec<u8> = Vec::new();
    let ghost p = node;
    let w = codec.try_encode(node, &mut buf, conv);
    assert(w is Ok);
    proof { assert(old_empty(buf@, p)) by { lemma_into_empty(buf@, p); } }
    let r = codec.try_decode(buf.as_slice(), inputs, ctx, conv);
    assert(r is Ok && same_node(p, r->Ok_0));
}
pub open spec fn old_empty(b: Seq<u8>, p: PlanRef) -> bool { written(b, p) }
/// `Arc<dyn PhysicalExtensionCodec>`
#[verifier::external_body] pub struct CodecRef { _x: u8 }
impl Clone for CodecRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn our_codec() -> CodecRef;
#[verifier::external_body] pub fn vx_ours() -> (r: CodecRef) ensures r == our_codec() { unimplemented!() }
#[verifier::external_body] pub fn vx_codecs(v: &Vec<CodecRef>) -> (r: Vec<CodecRef>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vx_extend(v: &mut Vec<CodecRef>, w: Vec<CodecRef>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
/// DataFusion's composition: every node is written with the number of the first codec that takes it, and read by the codec of that number
pub struct ComposedPhysicalExtensionCodec { pub codecs: Vec<CodecRef> }
impl ComposedPhysicalExtensionCodec { pub fn new(codecs: Vec<CodecRef>) -> (r: Self) ensures r.codecs == codecs { ComposedPhysicalExtensionCodec { codecs } } }
impl Codec for ComposedPhysicalExtensionCodec {}
#[verifier::external_body] pub struct SessionConfig { _x: u8 }
//@struct src/codec/user_codec.rs UserProvidedCodecs
pub uninterp spec fn extension(c: SessionConfig) -> Option<Arc<UserProvidedCodecs>>;
impl SessionConfig {
    #[verifier::external_body] pub fn get_extension<T>(&self) -> (r: Option<Arc<UserProvidedCodecs>>) ensures r == extension(*self) { unimplemented!() }
    #[verifier::external_body] pub fn set_extension(&mut self, v: Arc<UserProvidedCodecs>) ensures extension(*final(self)) == Some(v) { unimplemented!() }
}
impl TaskContext { pub uninterp spec fn cfg(&self) -> SessionConfig; #[verifier::external_body] pub fn session_config(&self) -> (r: &SessionConfig) ensures *r == self.cfg() { unimplemented!() } }
pub open spec fn user_codecs(c: SessionConfig) -> Seq<CodecRef> { match extension(c) { Some(u) => u.0@, None => seq![] } }
//@fn src/codec/user_codec.rs get_distributed_user_codecs
//@ subst: v.0.clone() => vx_codecs(&v.0)
//@ spec: ensures r@ =~= user_codecs(*cfg),
//@end
//@fn src/codec/user_codec.rs set_distributed_user_codec_arc
//@ subst: prev.0.clone() => vx_codecs(&prev.0)
//@ spec: ensures user_codecs(*final(cfg)) =~= user_codecs(*old(cfg)).push(codec),
//@end
impl DistributedCodec {
//@fn src/codec/distributed_codec.rs DistributedCodec::new_combined_with_user
//@ subst: Arc::new(DistributedCodec {}) => vx_ours()
//@ subst: codecs.extend( => vx_extend(&mut codecs,
//@ spec: ensures r.codecs@ =~= all_codecs(*cfg),
//@end
}
pub open spec fn all_codecs(c: SessionConfig) -> Seq<CodecRef> { seq![our_codec()] + user_codecs(c) }
/// what DataFusion writes a plan (a partitioning) as, with these codecs
pub uninterp spec fn plan_written(p: PlanRef, codecs: Seq<CodecRef>, b: Seq<u8>) -> bool;
pub uninterp spec fn plan_read(b: Seq<u8>, codecs: Seq<CodecRef>, cfg: SessionConfig, r: Result<PlanRef>) -> bool;
#[verifier::external_body] pub struct PlanBytes { _x: u8 }
impl PlanBytes { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
impl PartitioningWire {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn encode_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn decode(b: &[u8]) -> (r: Result<PartitioningWire, ProstError>) ensures forall|w: PartitioningWire| b@ == #[trigger] w@ ==> r == core::result::Result::<PartitioningWire, ProstError>::Ok(w) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_inner(s: &Arc<Schema>) -> (r: &Schema) ensures *r == **s { unimplemented!() }
#[verifier::external_body] pub fn new_proto_converter() -> (r: Converter) { unimplemented!() }
#[verifier::external_body] pub fn physical_plan_to_bytes_with_proto_converter(p: PlanRef, c: &ComposedPhysicalExtensionCodec, k: &Converter) -> (r: Result<PlanBytes>) ensures r is Ok ==> plan_written(p, c.codecs@, r->Ok_0@) { unimplemented!() }
#[verifier::external_body] pub fn physical_plan_from_bytes_with_proto_converter(b: &[u8], ctx: &TaskContext, c: &ComposedPhysicalExtensionCodec, k: &Converter) -> (r: Result<PlanRef>) ensures plan_read(b@, c.codecs@, ctx.cfg(), r) { unimplemented!() }
//@fn src/codec/physical_plan.rs encode_execution_plan
//@ closure 0: |bytes: PlanBytes| -> (o: Vec<u8>) ensures o@ == bytes@
//@ spec: ensures r is Ok ==> plan_written(plan, all_codecs(task_ctx.cfg()), r->Ok_0@),
//@end
//@fn src/codec/physical_plan.rs decode_execution_plan
//@ spec: ensures plan_read(encoded@, all_codecs(task_ctx.cfg()), task_ctx.cfg(), r),
//@end
//@fn src/codec/physical_plan.rs encode_partitioning
//@ spec: ensures partitioning_writable(*partitioning) ==> r is Ok, r is Ok ==> exists|w: PartitioningWire| r->Ok_0@ == #[trigger] w@ && partitioning_wire(w, *partitioning),
//@end
//@fn src/codec/physical_plan.rs decode_partitioning
//@ subst: proto_error($..) => vx_dferr()
//@ subst: &schema => vx_inner(&schema)
//@ subst: protobuf::Partitioning::decode => PartitioningWire::decode
//@ closure 0: |err: ProstError| -> (o: DataFusionError)
//@ closure 1: -> (o: DataFusionError)
//@ spec: ensures forall|w: PartitioningWire, p: Partitioning| encoded@ == #[trigger] w@ && (#[trigger] partitioning_wire(w, p)) && over(p, *schema) ==> r == core::result::Result::<Partitioning, DataFusionError>::Ok(p),
//@end
pub fn theorem_partitioning_round_trip(p: &Partitioning, schema: Arc<Schema>, a: &TaskContext, b: &TaskContext)
    requires over(*p, *schema), partitioning_writable(*p),
{
    let w = encode_partitioning(p, a);
    if let Ok(w) = w { let r = decode_partitioning(w.as_slice(), schema, b); assert(r == core::result::Result::<Partitioning, DataFusionError>::Ok(*p)); } else { assert(false); }
}
} // verus!
fn main() {}
