//@include lib/base.rs
//@strip crate::work_unit_feed std::mem tokio::sync::mpsc futures::stream crate::worker ::prost::alloc::vec ::prost::alloc::string
//@type_is Box<dyn WorkUnit> => Unit
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@arcclone
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ dependencies
#[verifier::external_body] pub struct Uuid { _x: u128 }
impl Copy for Uuid {} impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Url { _x: u8 }
/// a work unit, and the bytes it is encoded to (prost)
#[verifier::external_body] pub struct Unit { _x: u8 }
impl Unit {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn encode_to_bytes(&self) -> (r: Vec<u8>) ensures r@ == self.bytes() { unimplemented!() }
}
#[verifier::external_body] pub struct PlanRef { _x: u8 }
#[verifier::external_body] pub struct MetricsSet { _x: u8 }
//@enum src/common/maybe_encoded.rs MaybeEncoded
//@struct src/protocol/worker_channel.rs WorkUnitMsg
//@struct src/protocol/worker_channel.rs WorkUnitBatch
//@enum src/protocol/worker_channel.rs CoordinatorToWorkerMsg
//@struct src/protocol/worker_channel.rs WorkUnitFeedDeclaration
/// some reading of the clock
#[verifier::external_body] pub fn now_ns() -> usize { unimplemented!() }

// ------------------------------------------------------------------ what travels
/// what a message carries, without the times it was handled
pub struct Cargo { pub id: Uuid, pub partition: usize, pub body: MaybeEncoded<Unit> }
pub open spec fn cargo(m: WorkUnitMsg) -> Cargo { Cargo { id: m.id, partition: m.partition, body: m.body } }
pub open spec fn cargos(v: Seq<WorkUnitMsg>) -> Seq<Cargo> { Seq::new(v.len(), |i: int| cargo(v[i])) }
pub open spec fn units_of(m: CoordinatorToWorkerMsg) -> Seq<Cargo> { match m { CoordinatorToWorkerMsg::WorkUnitBatch(b) => cargos(b.batch@), _ => seq![] } }
pub open spec fn is_eos(m: CoordinatorToWorkerMsg) -> bool { m is WorkUnitEos }
/// the units of a chunk, addressed to the feed `id`
pub open spec fn addressed(id: Uuid, v: Seq<(usize, Result<Unit>)>) -> Seq<Cargo> { Seq::new(v.len(), |i: int| Cargo { id, partition: v[i].0, body: MaybeEncoded::Decoded(v[i].1->Ok_0) }) }
pub open spec fn all_ok(v: Seq<(usize, Result<Unit>)>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1 is Ok }
pub open spec fn built(b: Seq<WorkUnitMsg>, id: Uuid, v: Seq<(usize, Result<Unit>)>) -> bool {
    b.len() == v.len() && forall|i: int| #![trigger b[i]] #![trigger v[i]] 0 <= i < v.len() ==> v[i].1 is Ok && cargo(b[i]) == (Cargo { id, partition: v[i].0, body: MaybeEncoded::Decoded(v[i].1->Ok_0) })
}
//@fn src/work_unit_feed/remote_work_unit_feed.rs build_work_unit_batch_msg
//@ spec: ensures r is Ok ==> r->Ok_0 is WorkUnitBatch && built(r->Ok_0->WorkUnitBatch_0.batch@, *id, work_unit_batch@),
//@    r is Err ==> !all_ok(work_unit_batch@),
//@ closure 0: |__vx_p0_0: (usize, Result<Unit>)| -> (o: Result<WorkUnitMsg>) ensures o is Ok <==> __vx_p0_0.1 is Ok, o is Ok ==> cargo(o->Ok_0) == (Cargo { id: *id, partition: __vx_p0_0.0, body: MaybeEncoded::Decoded(__vx_p0_0.1->Ok_0) })
//@end
//@fn src/work_unit_feed/remote_work_unit_feed.rs set_work_unit_send_time
//@ spec: ensures is_eos(r) == is_eos(msg), units_of(r) =~= units_of(msg),
//@ ghost: let ghost m0 = msg;
//@ loop 0: invariant it0.seq().len() == m0->WorkUnitBatch_0.batch@.len(), 0 <= it0.index() <= it0.seq().len(), forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] it0.seq()[i] == i, m0 is WorkUnitBatch, work_unit_batch.batch@.len() == m0->WorkUnitBatch_0.batch@.len(), cargos(work_unit_batch.batch@) =~= cargos(m0->WorkUnitBatch_0.batch@),
//@end
//@fn src/work_unit_feed/remote_work_unit_feed.rs set_work_unit_received_time
//@ spec: ensures is_eos(r) == is_eos(msg), units_of(r) =~= units_of(msg),
//@ ghost: let ghost m0 = msg;
//@ loop 0: invariant it0.seq().len() == m0->WorkUnitBatch_0.batch@.len(), 0 <= it0.index() <= it0.seq().len(), forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] it0.seq()[i] == i, m0 is WorkUnitBatch, work_unit_batch.batch@.len() == m0->WorkUnitBatch_0.batch@.len(), cargos(work_unit_batch.batch@) =~= cargos(m0->WorkUnitBatch_0.batch@),
//@end

// ------------------------------------------------------------------ over the wire (gRPC)
pub uninterp spec fn uuid_bytes(u: Uuid) -> Seq<u8>;
/// C13
#[verifier::external_body] pub fn serialize_uuid(u: &Uuid) -> (r: Vec<u8>) ensures r@ == uuid_bytes(*u) { unimplemented!() }
#[verifier::external_body] pub fn deserialize_uuid(b: &Vec<u8>) -> (r: Result<Uuid>) ensures r is Ok ==> uuid_bytes(r->Ok_0) == b@, (exists|u: Uuid| b@ == #[trigger] uuid_bytes(u)) ==> r is Ok { unimplemented!() }
pub broadcast axiom fn uuids_differ(a: Uuid, b: Uuid) ensures #[trigger] uuid_bytes(a) == #[trigger] uuid_bytes(b) ==> a == b;
#[verifier::external_body] pub struct Status { _x: u8 }
#[verifier::external_body] pub fn datafusion_error_to_tonic_status(e: DataFusionError) -> (r: Status) { unimplemented!() }
impl Status { #[verifier::external_body] pub fn invalid_argument(s: &str) -> Status { unimplemented!() } }
#[verifier::external_body] pub fn missing_field() -> Status { unimplemented!() }
pub mod pb { use super::*; verus! {
//@struct src/protocol/grpc/generated/worker.rs WorkUnit
//@struct src/protocol/grpc/generated/worker.rs WorkUnitBatch
//@struct src/protocol/grpc/generated/worker.rs CoordinatorToWorkerMsg
pub struct SetPlanRequest {}
pub mod coordinator_to_worker_msg { use super::super::*; use super::*; verus! {
//@enum src/protocol/grpc/generated/worker.rs coordinator_to_worker_msg::Inner
} }
pub mod set_plan_request { use super::super::*; verus! {
//@struct src/protocol/grpc/generated/worker.rs set_plan_request::WorkUnitFeedDeclaration
} }
} }
pub open spec fn body_bytes(m: MaybeEncoded<Unit>) -> Seq<u8> { match m { MaybeEncoded::Encoded(b) => b@, MaybeEncoded::Decoded(u) => u.bytes() } }
/// a message that carries the unit `c`
pub open spec fn sealed(w: pb::WorkUnit, c: Cargo) -> bool { w.id@ == uuid_bytes(c.id) && w.partition == c.partition && w.body@ == body_bytes(c.body) }
/// the unit c, its body as bytes
pub open spec fn arrived(a: Cargo, c: Cargo) -> bool { a.id == c.id && a.partition == c.partition && a.body is Encoded && a.body->Encoded_0@ == body_bytes(c.body) }
pub open spec fn unsealed(a: Cargo, w: pb::WorkUnit) -> bool { uuid_bytes(a.id) == w.id@ && a.partition == w.partition && a.body is Encoded && a.body->Encoded_0@ == w.body@ }
pub open spec fn good(w: pb::WorkUnit) -> bool { exists|u: Uuid| w.id@ == #[trigger] uuid_bytes(u) }
//@fn src/protocol/grpc/worker_client.rs encode_work_unit
//@ spec: ensures sealed(r, cargo(work_unit)),
//@end
//@fn src/protocol/grpc/worker_client.rs encode_work_unit_batch
//@ spec: ensures r.batch@.len() == batch.batch@.len(), forall|i: int| #![trigger r.batch@[i]] #![trigger batch.batch@[i]] 0 <= i < r.batch@.len() ==> sealed(r.batch@[i], cargo(batch.batch@[i])),
//@ subst: encode_work_unit) => |w: WorkUnitMsg| -> (o: pb::WorkUnit) ensures sealed(o, cargo(w)) { encode_work_unit(w) })
//@end
pub open spec fn sealed_msg(p: pb::CoordinatorToWorkerMsg, m: CoordinatorToWorkerMsg) -> bool {
    match m {
        CoordinatorToWorkerMsg::WorkUnitBatch(b) => p.inner is Some && p.inner->0 is WorkUnitBatch && p.inner->0->WorkUnitBatch_0.batch@.len() == b.batch@.len()
            && forall|i: int| #![trigger p.inner->0->WorkUnitBatch_0.batch@[i]] #![trigger b.batch@[i]] 0 <= i < b.batch@.len() ==> sealed(p.inner->0->WorkUnitBatch_0.batch@[i], cargo(b.batch@[i])),
        CoordinatorToWorkerMsg::WorkUnitEos => p.inner is Some && p.inner->0 is WorkUnitEos,
    }
}
//@fn src/protocol/grpc/worker_client.rs encode_coordinator_to_worker_msg
//@ spec: ensures sealed_msg(r, msg),
//@end
//@fn src/protocol/grpc/worker_service.rs decode_work_unit
//@ spec: ensures r is Ok ==> unsealed(cargo(r->Ok_0), work_unit), good(work_unit) ==> r is Ok,
//@ subst: .map_err(datafusion_error_to_tonic_status) => .map_err(|e: DataFusionError| datafusion_error_to_tonic_status(e))
//@end
//@fn src/protocol/grpc/worker_service.rs decode_work_unit_batch
//@ spec: ensures r is Ok ==> r->Ok_0.batch@.len() == batch.batch@.len() && forall|i: int| #![trigger r->Ok_0.batch@[i]] #![trigger batch.batch@[i]] 0 <= i < batch.batch@.len() ==> unsealed(cargo(r->Ok_0.batch@[i]), batch.batch@[i]),
//@    r is Err ==> exists|i: int| 0 <= i < batch.batch@.len() && !good(#[trigger] batch.batch@[i]),
//@ subst: decode_work_unit) => |w: pb::WorkUnit| -> (o: Result<WorkUnitMsg, Status>) ensures o is Ok ==> unsealed(cargo(o->Ok_0), w), good(w) ==> o is Ok { decode_work_unit(w) })
//@end
//@fn src/protocol/grpc/worker_service.rs decode_coordinator_to_worker_msg
//@ subst: .ok_or_else(missing($..)) => .ok_or_else(|| -> (o: Status) { missing_field() })
//@ spec: ensures r is Ok ==> msg.inner is Some && match r->Ok_0 {
//@        CoordinatorToWorkerMsg::WorkUnitBatch(b) => msg.inner->0 is WorkUnitBatch && b.batch@.len() == msg.inner->0->WorkUnitBatch_0.batch@.len()
//@            && forall|i: int| #![trigger b.batch@[i]] #![trigger msg.inner->0->WorkUnitBatch_0.batch@[i]] 0 <= i < b.batch@.len() ==> unsealed(cargo(b.batch@[i]), msg.inner->0->WorkUnitBatch_0.batch@[i]),
//@        CoordinatorToWorkerMsg::WorkUnitEos => msg.inner->0 is WorkUnitEos,
//@    },
//@    r is Err ==> msg.inner is None || msg.inner->0 is SetPlanRequest || msg.inner->0 is WorkUnitBatch && exists|i: int| 0 <= i < msg.inner->0->WorkUnitBatch_0.batch@.len() && !good(#[trigger] msg.inner->0->WorkUnitBatch_0.batch@[i]),
//@end
//@fn src/protocol/grpc/worker_client.rs encode_work_unit_feed_declaration
//@ spec: ensures r.id@ == uuid_bytes(declaration.id), r.partitions == declaration.partitions,
//@end
//@fn src/protocol/grpc/worker_service.rs decode_work_unit_feed_declaration
//@ subst: .map_err(datafusion_error_to_tonic_status) => .map_err(|e: DataFusionError| datafusion_error_to_tonic_status(e))
//@ spec: ensures r is Ok ==> uuid_bytes(r->Ok_0.id) == declaration.id@ && r->Ok_0.partitions == declaration.partitions, (exists|u: Uuid| declaration.id@ == #[trigger] uuid_bytes(u)) ==> r is Ok,
//@end
/// A message that is sent is read as the same message: the same units, in order, for the same feeds and partitions.
pub fn theorem_messages_over_the_wire(m: CoordinatorToWorkerMsg) -> (r: Result<CoordinatorToWorkerMsg, Status>)
    ensures r is Ok, is_eos(r->Ok_0) == is_eos(m), units_of(r->Ok_0).len() == units_of(m).len(),
        forall|i: int| 0 <= i < units_of(m).len() ==> arrived(#[trigger] units_of(r->Ok_0)[i], units_of(m)[i]),
{
    broadcast use uuids_differ;
    let ghost m0 = m;
    let p = encode_coordinator_to_worker_msg(m);
    let r = decode_coordinator_to_worker_msg(p);
    proof {
        if r is Err {
            let b = p.inner->0->WorkUnitBatch_0.batch@;
            let i = choose|i: int| 0 <= i < b.len() && !good(#[trigger] b[i]);
            assert(sealed(b[i], cargo(m0->WorkUnitBatch_0.batch@[i])));
            assert(false);
        }
    }
    r
}
pub fn theorem_declarations_over_the_wire(d: WorkUnitFeedDeclaration) -> (r: Result<WorkUnitFeedDeclaration, Status>)
    ensures r is Ok, r->Ok_0.id == d.id, r->Ok_0.partitions == d.partitions,
{
    broadcast use uuids_differ;
    decode_work_unit_feed_declaration(encode_work_unit_feed_declaration(d))
}

// ------------------------------------------------------------------ the worker's channels
/// one end of an unbounded channel; `chan()` names the channel
pub type Item = Result<WorkUnitMsg>;
#[verifier::external_body] pub struct WorkUnitTx { _x: u8 }
#[verifier::external_body] pub struct WorkUnitRx { _x: u8 }
/// what the channels hold (tokio): each channel keeps what was sent to it, in order, until its receiver is dropped
pub enum Sent { Unit(Cargo), Fail }
pub ghost struct World { pub made: Set<int>, pub held: Map<int, Seq<Sent>>, pub gone: Set<int> }
#[verifier::external_body] pub struct Net { _x: u8 }
impl Net { pub uninterp spec fn view(&self) -> World; }
pub open spec fn sent_of(x: Item) -> Sent { match x { Ok(m) => Sent::Unit(cargo(m)), Err(_) => Sent::Fail } }
impl WorkUnitTx {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body] pub fn send(&self, x: Item, net: &mut Net) -> (r: core::result::Result<(), Item>)
        ensures r is Ok ==> final(net)@ == (World { held: old(net)@.held.insert(self.chan(), old(net)@.held[self.chan()].push(sent_of(x))), ..old(net)@ }),
            r is Err ==> final(net)@ == (World { gone: old(net)@.gone.insert(self.chan()), ..old(net)@ }),
    { unimplemented!() }
}
impl WorkUnitRx { pub uninterp spec fn chan(&self) -> int; }
/// a channel nobody else has
#[verifier::external_body] pub fn unbounded_channel(net: &mut Net) -> (r: (WorkUnitTx, WorkUnitRx))
    ensures r.0.chan() == r.1.chan(), !old(net)@.made.contains(r.0.chan()), final(net)@ == (World { made: old(net)@.made.insert(r.0.chan()), held: old(net)@.held.insert(r.0.chan(), seq![]), gone: old(net)@.gone.remove(r.0.chan()) })
{ unimplemented!() }
/// `Mutex<Option<WorkUnitRx>>` with the receiver it was made with
#[verifier::external_body] pub struct RxSlot { _x: u8 }
impl RxSlot { pub uninterp spec fn init(&self) -> Option<WorkUnitRx>; }
pub struct Mutex {}
impl Mutex { #[verifier::external_body] pub fn new(x: Option<WorkUnitRx>) -> (r: RxSlot) ensures r.init() == x { unimplemented!() } }
/// `std::mem::take` under the lock: the receiver leaves the slot, so it can be had once
#[verifier::external_body] pub fn take_receiver(s: &RxSlot) -> (r: Option<WorkUnitRx>) ensures r is Some ==> s.init() == r { unimplemented!() }
pub type Key = (Uuid, usize);
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct HashMap<V> { _x: core::marker::PhantomData<V> }
impl<V> HashMap<V> {
    pub uninterp spec fn view(&self) -> Map<Key, V>;
    #[verifier::external_body] pub fn contains_key(&self, k: &Key) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Key, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &Key) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &Key) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn none() -> (r: Self) ensures r@ == Map::<Key, V>::empty(), r == Self::nothing() { unimplemented!() }
    pub uninterp spec fn nothing() -> Self;
    /// the keys, in the order of `into_values`
    pub uninterp spec fn order(&self) -> Seq<Key>;
    #[verifier::external_body] pub fn into_values(self) -> (r: Vec<V>)
        ensures r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(#[trigger] self.order()[i]) && r@[i] == self@[self.order()[i]],
            self.order().no_duplicates(), forall|k: Key| #[trigger] self@.contains_key(k) ==> self.order().contains(k),
    { unimplemented!() }
}
pub struct RemoteWorkUnitFeedRegistry { pub receivers: HashMap<RxSlot>, pub senders: HashMap<WorkUnitTx> }
/// the sender and the receiver of a key are the two ends of one channel that no other key has
pub open spec fn paired(g: RemoteWorkUnitFeedRegistry, w: World) -> bool {
    &&& g.receivers@.dom() =~= g.senders@.dom()
    &&& forall|k: Key| #[trigger] g.senders@.contains_key(k) ==> g.receivers@[k].init() is Some && g.receivers@[k].init()->0.chan() == g.senders@[k].chan()
    &&& fresh(g.senders@, w)
}
/// every key has a channel of its own, with nothing in it
pub open spec fn fresh(m: Map<Key, WorkUnitTx>, w: World) -> bool {
    &&& forall|k: Key| #[trigger] m.contains_key(k) ==> w.made.contains(m[k].chan()) && w.held[m[k].chan()] == Seq::<Sent>::empty() && !w.gone.contains(m[k].chan())
    &&& apart(m)
}
pub open spec fn apart(m: Map<Key, WorkUnitTx>) -> bool { forall|k: Key, l: Key| #[trigger] m.contains_key(k) && #[trigger] m.contains_key(l) && m[k].chan() == m[l].chan() ==> k == l }
impl RemoteWorkUnitFeedRegistry {
//@fn src/work_unit_feed/remote_work_unit_feed.rs RemoteWorkUnitFeedRegistry::add
//@ sig: pub fn $name(&mut self, id: Uuid, partitions: usize, net: &mut Net)
//@ spec: requires paired(*old(self), old(net)@),
//@    ensures paired(*final(self), final(net)@), forall|k: Key| #[trigger] final(self).senders@.contains_key(k) <==> old(self).senders@.contains_key(k) || k.0 == id && k.1 < partitions,
//@        forall|k: Key| #[trigger] old(self).senders@.contains_key(k) ==> final(self).senders@[k] == old(self).senders@[k],
//@ ghost: let ghost g0 = *self;
//@ subst: unbounded_channel() => unbounded_channel(net)
//@ loop 0: invariant paired(*self, net@), it0.seq().len() == partitions, 0 <= it0.index() <= it0.seq().len(), forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] it0.seq()[i] == i,
//@   forall|k: Key| #[trigger] self.senders@.contains_key(k) <==> g0.senders@.contains_key(k) || k.0 == id && k.1 < it0.index(),
//@   forall|k: Key| #[trigger] g0.senders@.contains_key(k) ==> self.senders@[k] == g0.senders@[k],
//@end
}

// ------------------------------------------------------------------ the worker hands out what arrives
pub open spec fn key_of(c: Cargo) -> Key { (c.id, c.partition) }
/// what is for key k, in order
pub open spec fn for_key(s: Seq<Cargo>, k: Key) -> Seq<Sent> decreases s.len() {
    if s.len() == 0 { seq![] } else if key_of(s.last()) == k { for_key(s.drop_last(), k).push(Sent::Unit(s.last())) } else { for_key(s.drop_last(), k) }
}
pub proof fn lemma_for_key(s: Seq<Cargo>, c: Cargo, k: Key) ensures for_key(s.push(c), k) == if key_of(c) == k { for_key(s, k).push(Sent::Unit(c)) } else { for_key(s, k) } { assert(s.push(c).drop_last() =~= s); }
/// the units that arrive before the end of the units is announced or the stream of messages breaks
pub open spec fn taken(m: Seq<Result<CoordinatorToWorkerMsg>>) -> Seq<Cargo> decreases m.len() {
    if m.len() == 0 { seq![] } else { match m[0] { Ok(x) => if is_eos(x) { seq![] } else { units_of(x) + taken(m.skip(1)) }, Err(_) => seq![] } }
}
/// the stream of messages breaks before the end of the units is announced
pub open spec fn breaks(m: Seq<Result<CoordinatorToWorkerMsg>>) -> bool decreases m.len() {
    if m.len() == 0 { false } else { match m[0] { Ok(x) => if is_eos(x) { false } else { breaks(m.skip(1)) }, Err(_) => true } }
}
pub open spec fn told(m: Seq<Result<CoordinatorToWorkerMsg>>, k: Key) -> Seq<Sent> { if breaks(m) { for_key(taken(m), k).push(Sent::Fail) } else { for_key(taken(m), k) } }
/// the same messages, up to the times in them
pub open spec fn alike(a: Seq<Result<CoordinatorToWorkerMsg>>, b: Seq<Result<CoordinatorToWorkerMsg>>) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> (a[i] is Ok <==> b[i] is Ok) && (a[i] is Ok ==> is_eos(a[i]->Ok_0) == is_eos(b[i]->Ok_0) && units_of(a[i]->Ok_0) == units_of(b[i]->Ok_0))
}
pub proof fn lemma_alike(a: Seq<Result<CoordinatorToWorkerMsg>>, b: Seq<Result<CoordinatorToWorkerMsg>>) requires alike(a, b) ensures taken(a) == taken(b), breaks(a) == breaks(b) decreases a.len() {
    if a.len() > 0 { assert(alike(a.skip(1), b.skip(1))); lemma_alike(a.skip(1), b.skip(1)); }
}
#[verifier::external_body] pub struct InStream { _x: u8 }
impl InStream {
    pub uninterp spec fn rest(&self) -> Seq<Result<CoordinatorToWorkerMsg>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<CoordinatorToWorkerMsg>>)
        ensures r is None ==> old(self).rest().len() == 0, r is Some ==> old(self).rest().len() > 0 && old(self).rest()[0] == r->0 && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
    #[verifier::external_body] pub fn map_ok<F: Fn(CoordinatorToWorkerMsg) -> CoordinatorToWorkerMsg>(self, f: F) -> (r: InStream)
        requires forall|m: CoordinatorToWorkerMsg| f.requires((m,)),
        ensures r.rest().len() == self.rest().len(), forall|i: int| #![trigger r.rest()[i]] #![trigger self.rest()[i]] 0 <= i < r.rest().len() ==> (r.rest()[i] is Ok <==> self.rest()[i] is Ok) && (self.rest()[i] is Ok ==> f.ensures((self.rest()[i]->Ok_0,), r.rest()[i]->Ok_0)),
    { unimplemented!() }
}
impl DataFusionError { #[verifier::external_body] pub fn Shared(e: Arc<DataFusionError>) -> Self { unimplemented!() } }
#[verifier::external_body] pub struct TaskDataEntries { _x: u8 }
impl TaskDataEntries { #[verifier::external_body] pub fn invalidate(&self, k: &TaskKey) { unimplemented!() } }
//@struct src/protocol/worker_channel.rs TaskKey
impl Clone for TaskKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for TaskKey {}
pub struct DistributedTaskContext { pub task_index: usize, pub task_count: usize }
#[verifier::external_body] pub struct MetricsTx { _x: u8 }
#[verifier::external_body] pub struct TaskDataMetrics { _x: u8 }
impl TaskDataMetrics { #[verifier::external_body] pub fn mark_execution_finished(&self) { unimplemented!() } }
#[verifier::external_body] pub struct PlanCell { _x: u8 }
impl PlanCell { #[verifier::external_body] pub fn get(&self) -> Option<&core::result::Result<PlanRef, Arc<DataFusionError>>> { unimplemented!() } }
#[verifier::external_body] pub struct MetricsCell { _x: u8 }
pub struct TaskData { pub metrics_tx: MetricsCell, pub final_plan: PlanCell, pub task_data_metrics: Arc<TaskDataMetrics> }
#[verifier::external_body] pub fn take_metrics_tx(c: &MetricsCell) -> Option<MetricsTx> { unimplemented!() }
#[verifier::external_body] pub fn send_metrics_via_channel(t: MetricsTx, p: &PlanRef, d: DistributedTaskContext, m: &Arc<TaskDataMetrics>) { unimplemented!() }
pub struct RequestRest { pub task_count: usize }
/// the channel holds what it was told, unless nobody listens to it any more
pub open spec fn reached(w: World, c: int, s: Seq<Sent>) -> bool { w.gone.contains(c) || w.held[c] == s }
pub open spec fn owns(m: Map<Key, WorkUnitTx>, c: int) -> bool { exists|k: Key| #[trigger] m.contains_key(k) && m[k].chan() == c }
pub open spec fn others_kept(m: Map<Key, WorkUnitTx>, w0: World, w: World) -> bool { forall|c: int| !owns(m, c) ==> #[trigger] w.held[c] == w0.held[c] }
pub open spec fn handed_out(m: Map<Key, WorkUnitTx>, w0: World, w: World, s: Seq<Cargo>) -> bool {
    others_kept(m, w0, w) && forall|k: Key| #[trigger] m.contains_key(k) ==> reached(w, m[k].chan(), for_key(s, k))
}
pub open spec fn remaining(m0: Map<Key, WorkUnitTx>, m: Map<Key, WorkUnitTx>, w: World) -> bool {
    &&& forall|k: Key| #[trigger] m.contains_key(k) ==> m0.contains_key(k) && m[k] == m0[k]
    &&& forall|k: Key| #[trigger] m0.contains_key(k) ==> m.contains_key(k) || w.gone.contains(m0[k].chan())
}
//@fn src/worker/impl_coordinator_channel.rs Worker::coordinator_channel#a2 as hand_out_units noasync
//@ sig: pub fn $name(stream: InStream, mut work_unit_senders: Option<HashMap<WorkUnitTx>>, task_data: TaskData, task_data_entries: Arc<TaskDataEntries>, key: TaskKey, request: RequestRest, net: &mut Net)
//@ spec: requires work_unit_senders is Some, fresh(work_unit_senders->0@, old(net)@),
//@   ensures forall|k: Key| #[trigger] work_unit_senders->0@.contains_key(k) ==> reached(final(net)@, work_unit_senders->0@[k].chan(), told(stream.rest(), k)),
//@      others_kept(work_unit_senders->0@, old(net)@, final(net)@),
//@ ghost: let ghost m0 = work_unit_senders->0@; let ghost w0 = net@; let ghost in0 = stream.rest(); let ghost mut done: Seq<Cargo> = seq![];
//@ subst: map_ok(set_work_unit_received_time); => map_ok(|m: CoordinatorToWorkerMsg| -> (o: CoordinatorToWorkerMsg) ensures is_eos(o) == is_eos(m), units_of(o) == units_of(m) { set_work_unit_received_time(m) }); let ghost all = stream.rest(); proof { assert(alike(all, in0)); lemma_alike(all, in0); assert(done + taken(all) =~= taken(all)); }
//@ subst: .send($..) => .send($.., net)
//@ subst: .unwrap_or_default() => .unwrap_or(HashMap::none())
//@ subst: task_data.metrics_tx.lock().unwrap().take() => take_metrics_tx(&task_data.metrics_tx)
//@ loop 0: invariant_except_break apart(m0), handed_out(m0, w0, net@, done), cur == stream.rest(),
//@     match work_unit_senders { Some(m) => remaining(m0, m@, net@) && taken(all) == done + taken(cur) && breaks(all) == breaks(cur), None => taken(all) == done && !breaks(all) },
//@   ensures others_kept(m0, w0, net@), forall|k: Key| #[trigger] m0.contains_key(k) ==> reached(net@, m0[k].chan(), told(all, k)),
//@   decreases stream.rest().len(),
//@   before: let ghost mut cur = stream.rest();
//@   ghost: let ghost prev = cur; let ghost now = msg; let ghost done0 = done;
//@   body: cur = stream.rest(); assert(done + Seq::<Cargo>::empty() =~= done);
//@ loop 1: invariant apart(m0), others_kept(m0, w0, net@), it1.seq().len() == mm.order().len(), 0 <= it1.index() <= it1.seq().len(), mm.order().no_duplicates(), remaining(m0, mm@, w1) || mm@ =~= Map::<Key, WorkUnitTx>::empty(),
//@     forall|i: int| 0 <= i < it1.seq().len() ==> mm@.contains_key(#[trigger] mm.order()[i]) && it1.seq()[i] == mm@[mm.order()[i]],
//@     forall|k: Key| #[trigger] m0.contains_key(k) ==> reached(net@, m0[k].chan(), if exists|j: int| 0 <= j < it1.index() && #[trigger] mm.order()[j] == k { for_key(done, k).push(Sent::Fail) } else { for_key(done, k) }),
//@     w1.gone.subset_of(net@.gone),
//@   before: let ghost mm = if work_unit_senders is Some { work_unit_senders->0 } else { HashMap::nothing() }; let ghost w1 = net@;
//@   ghost: let ghost j1 = it1.index() as int; let ghost k1 = mm.order()[j1]; let ghost nb = net@;
//@   body: assert(mm@.contains_key(k1) && m0.contains_key(k1)); assert(owns(m0, tx.chan())); assert forall|k: Key| #[trigger] m0.contains_key(k) && k != k1 implies m0[k].chan() != tx.chan() by { }
//@   after: assert forall|k: Key| #[trigger] m0.contains_key(k) implies reached(net@, m0[k].chan(), if exists|j: int| 0 <= j < j1 + 1 && #[trigger] mm.order()[j] == k { for_key(done, k).push(Sent::Fail) } else { for_key(done, k) }) by { if k == k1 { assert(mm.order()[j1] == k); assert(!(exists|j: int| 0 <= j < j1 && #[trigger] mm.order()[j] == k)); } else { assert((exists|j: int| 0 <= j < j1 + 1 && #[trigger] mm.order()[j] == k) == (exists|j: int| 0 <= j < j1 && #[trigger] mm.order()[j] == k)); } }
//@ loop 2: invariant apart(m0), handed_out(m0, w0, net@, done), remaining(m0, work_unit_senders@, net@), 0 <= it2.index() <= it2.seq().len(), done =~= done0 + cargos(it2.seq()).take(it2.index() as int),
//@   ghost: let ghost c = cargo(wu);
//@   after: assert forall|k: Key| #[trigger] m0.contains_key(k) implies reached(net@, m0[k].chan(), for_key(done.push(c), k)) by { lemma_for_key(done, c, k); } done = done.push(c);
//@end

// ------------------------------------------------------------------ the reader
/// a kind of unit: what it is read back to, from bytes (prost) and from memory
pub trait WorkUnitKind: Sized {
    spec fn of_bytes(b: Seq<u8>) -> Option<Self>;
    spec fn of_unit(u: Unit) -> Option<Self>;
    fn decode(b: &[u8]) -> (r: Result<Self>) ensures match Self::of_bytes(b@) { Some(t) => r == Ok::<Self, DataFusionError>(t), None => r is Err };
    fn cast(u: AnyBox) -> (r: core::result::Result<Box<Self>, AnyBox>) ensures match Self::of_unit(u.unit()) { Some(t) => r is Ok && *r->Ok_0 == t, None => r is Err };
}
#[verifier::external_body] pub struct AnyBox { _x: u8 }
impl AnyBox { pub uninterp spec fn unit(&self) -> Unit; }
impl Unit { #[verifier::external_body] pub fn into_any(self) -> (r: AnyBox) ensures r.unit() == self { unimplemented!() } }
/// what a reader of units of kind T gets for an item of its channel
pub open spec fn opened<T: WorkUnitKind>(b: MaybeEncoded<Unit>) -> Option<T> { match b { MaybeEncoded::Encoded(b) => T::of_bytes(b@), MaybeEncoded::Decoded(u) => T::of_unit(u) } }
pub open spec fn reads<T: WorkUnitKind>(x: Item, o: Result<T>) -> bool { match x { Ok(m) => match opened::<T>(m.body) { Some(t) => o == Ok::<T, DataFusionError>(t), None => o is Err }, Err(_) => o is Err } }
#[verifier::external_body] pub struct ExecutionPlanMetricsSet { _x: u8 }
impl ExecutionPlanMetricsSet { #[verifier::external_body] pub fn new() -> Self { unimplemented!() } }
#[verifier::external_body] pub struct Meter { _x: u8 }
impl Meter {
    #[verifier::external_body] pub fn add(&self, n: usize) { unimplemented!() }
    #[verifier::external_body] pub fn add_bytes(&self, n: usize) { unimplemented!() }
    #[verifier::external_body] pub fn add_nanos(&self, n: usize) { unimplemented!() }
    #[verifier::external_body] pub fn timer(&self) -> Meter { unimplemented!() }
    #[verifier::external_body] pub fn done(self) { unimplemented!() }
}
#[verifier::external_body] pub struct MetricBuilder { _x: u8 }
impl MetricBuilder {
    #[verifier::external_body] pub fn new(m: &ExecutionPlanMetricsSet) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn bytes_counter(self, s: &str) -> Meter { unimplemented!() }
    #[verifier::external_body] pub fn global_counter(self, s: &str) -> Meter { unimplemented!() }
    #[verifier::external_body] pub fn max_latency(self, s: &str) -> Meter { unimplemented!() }
    #[verifier::external_body] pub fn p50_latency(self, s: &str) -> Meter { unimplemented!() }
    #[verifier::external_body] pub fn elapsed_compute(self, p: usize) -> Meter { unimplemented!() }
}
#[verifier::external_body] pub struct SessionConfig { _x: u8 }
#[verifier::external_body] pub struct TaskContext { _x: u8 }
impl TaskContext {
    pub uninterp spec fn feeds(&self) -> Option<HashMap<RxSlot>>;
    /// the number of tasks that a feed is told to fan out to
    pub uninterp spec fn fan_out(&self) -> usize;
    #[verifier::external_body] pub fn feed_receivers(&self) -> (r: Option<Arc<HashMap<RxSlot>>>) ensures r is Some <==> self.feeds() is Some, r is Some ==> *r->0 == self.feeds()->0 { unimplemented!() }
}
/// a stream over what arrives in a channel
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Reader<T> { _x: core::marker::PhantomData<T> }
impl<T> Reader<T> {
    pub uninterp spec fn chan(&self) -> int;
    /// o is what the stream yields for the item x of the channel
    pub uninterp spec fn yields(&self, x: Item, o: Result<T>) -> bool;
    #[verifier::external_body] pub fn boxed(self) -> (r: Self) ensures r == self { unimplemented!() }
}
pub struct UnboundedReceiverStream { pub rx: WorkUnitRx }
impl UnboundedReceiverStream {
    pub fn new(rx: WorkUnitRx) -> (r: Self) ensures r.rx == rx { UnboundedReceiverStream { rx } }
    #[verifier::external_body] pub fn map<T, F: Fn(Item) -> Result<T>>(self, f: F) -> (r: Reader<T>)
        requires forall|x: Item| f.requires((x,)), ensures r.chan() == self.rx.chan(), forall|x: Item, o: Result<T>| #[trigger] r.yields(x, o) ==> f.ensures((x,), o)
    { unimplemented!() }
}
#[verifier::external_body] pub fn proto_error(s: DataFusionError) -> DataFusionError { unimplemented!() }
//@struct src/work_unit_feed/remote_work_unit_feed.rs RemoteFeedProvider
impl RemoteFeedProvider {
//@fn src/work_unit_feed/remote_work_unit_feed.rs RemoteFeedProvider::feed
//@ sig: pub fn $name<T: WorkUnitKind>(&self, partition: usize, ctx: Arc<TaskContext>) -> (r: Result<Reader<T>>)
//@ subst: ctx.session_config().get_extension::<RemoteWorkUnitFeedRxs>() => ctx.feed_receivers()
//@ subst: take(&mut *remote_feed.lock().unwrap()) => take_receiver(&*remote_feed)
//@ subst: proto_error(format!($..)) => proto_error(err)
//@ subst: work_unit.downcast::<T>() => T::cast(work_unit)
//@ spec: ensures r is Ok ==> ctx.feeds() is Some && ctx.feeds()->0@.contains_key((self.id, partition)) && ctx.feeds()->0@[(self.id, partition)].init() is Some
//@        && r->Ok_0.chan() == ctx.feeds()->0@[(self.id, partition)].init()->0.chan() && forall|x: Item, o: Result<T>| #[trigger] r->Ok_0.yields(x, o) ==> reads::<T>(x, o),
//@ closure 0: -
//@ closure 1: |work_unit_msg_or_err: Item| -> (o: Result<T>) ensures reads::<T>(work_unit_msg_or_err, o)
//@ closure 2: -
//@end
}

// ------------------------------------------------------------------ the coordinator sends the units of a task
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct UStream<T> { _x: core::marker::PhantomData<T> }
impl<T> UStream<T> {
    /// what is still to come
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body] pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: UStream<U>)
        requires forall|x: T| f.requires((x,)), ensures r.rest().len() == self.rest().len(), forall|i: int| #![trigger r.rest()[i]] 0 <= i < r.rest().len() ==> f.ensures((self.rest()[i],), r.rest()[i])
    { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        ensures r is None ==> old(self).rest().len() == 0, r is Some ==> old(self).rest().len() > 0 && old(self).rest()[0] == r->0 && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
    /// chunks that, put together, are the stream
    #[verifier::external_body] pub fn ready_chunks(self, n: usize) -> (r: UStream<Vec<T>>) requires n > 0 ensures joined(r.rest()) == self.rest() { unimplemented!() }
    /// the stream ends with the query; while the query goes on it is the same
    #[verifier::external_body] pub fn take_until(self, n: QueryEnd) -> (r: Self) ensures r.rest() == self.rest() { unimplemented!() }
}
pub open spec fn joined<T>(v: Seq<Vec<T>>) -> Seq<T> decreases v.len() { if v.len() == 0 { seq![] } else { v[0]@ + joined(v.skip(1)) } }
/// the items of s that come from stream k, where src says which stream each item comes from
pub open spec fn from_stream<T>(s: Seq<T>, src: Seq<int>, k: int) -> Seq<T> decreases s.len() {
    if s.len() == 0 { seq![] } else if src[s.len() - 1] == k { from_stream(s.drop_last(), src, k).push(s.last()) } else { from_stream(s.drop_last(), src, k) }
}
pub open spec fn merged<T>(s: Seq<T>, src: Seq<int>, v: Seq<UStream<T>>) -> bool {
    src.len() == s.len() && (forall|i: int| 0 <= i < src.len() ==> 0 <= #[trigger] src[i] < v.len()) && forall|k: int| 0 <= k < v.len() ==> #[trigger] from_stream(s, src, k) == v[k].rest()
}
/// every stream is yielded in order, whatever the interleaving
#[verifier::external_body] pub fn select_all<T>(v: Vec<UStream<T>>) -> (r: UStream<T>) ensures exists|src: Seq<int>| #[trigger] merged(r.rest(), src, v@) { unimplemented!() }
pub type Tagged = (usize, Result<Unit>);
pub open spec fn tagged(p: usize, v: Seq<Result<Unit>>) -> Seq<Tagged> { Seq::new(v.len(), |i: int| (p, v[i])) }
/// the items tagged with p
pub open spec fn of_part(s: Seq<Tagged>, p: int) -> Seq<Tagged> decreases s.len() {
    if s.len() == 0 { seq![] } else if s.last().0 == p { of_part(s.drop_last(), p).push(s.last()) } else { of_part(s.drop_last(), p) }
}
pub proof fn lemma_of_part(s: Seq<Tagged>, src: Seq<int>, n: int, p: int)
    requires src.len() >= s.len(), forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] src[i] < n, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == src[i],
    ensures of_part(s, p) == from_stream(s, src, p), decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0 == src[i] by { assert(t[i] == s[i]); }
        lemma_of_part(t, src, n, p);
        assert(s[s.len() - 1] == s.last());
    }
}
/// an item that comes from stream k is one of its items
pub proof fn lemma_from(s: Seq<Tagged>, src: Seq<int>, i: int)
    requires src.len() >= s.len(), 0 <= i < s.len(), ensures from_stream(s, src, src[i]).contains(s[i]), decreases s.len(),
{
    let f = from_stream(s, src, src[i]);
    if i == s.len() - 1 { assert(f.last() == s[i]); assert(f[f.len() - 1] == s[i]); }
    else {
        lemma_from(s.drop_last(), src, i);
        let g = from_stream(s.drop_last(), src, src[i]);
        let j = choose|j: int| 0 <= j < g.len() && g[j] == s[i];
        assert(f[j] == s[i]);
    }
}
#[verifier::external_body] pub struct Feed { _x: u8 }
impl Feed {
    pub uninterp spec fn id_of(&self) -> Uuid;
    /// what the user's provider yields for a partition when it fans out to so many tasks
    pub uninterp spec fn units(&self, partition: int, fan_out: int) -> Seq<Result<Unit>>;
    #[verifier::external_body] pub fn id(&self) -> (r: Uuid) ensures r == self.id_of() { unimplemented!() }
    #[verifier::external_body] pub fn feed(&self, partition: usize, ctx: Arc<TaskContext>) -> (r: Result<UStream<Result<Unit>>>) ensures r is Ok ==> r->Ok_0.rest() == self.units(partition as int, ctx.fan_out() as int) { unimplemented!() }
}
#[verifier::external_body] pub struct WorkUnitFeedRegistry { _x: u8 }
impl WorkUnitFeedRegistry {
    pub uninterp spec fn feed_of(&self, p: PlanRef) -> Option<Feed>;
    #[verifier::external_body] pub fn get_work_unit_feed(&self, p: &PlanRef) -> (r: Option<&Feed>) ensures match r { Some(f) => self.feed_of(*p) == Some(*f), None => self.feed_of(*p) is None } { unimplemented!() }
}
pub struct Partitioning { pub n: usize } impl Partitioning { pub fn partition_count(&self) -> (r: usize) ensures r == self.n { self.n } }
pub struct PlanProperties { pub partitioning: Partitioning }
pub uninterp spec fn parts(p: PlanRef) -> usize;
impl PlanRef { #[verifier::external_body] pub fn properties(&self) -> (r: &Arc<PlanProperties>) ensures r.partitioning.n == parts(*self) { unimplemented!() } }
pub struct DistributedWorkUnitFeedContext { pub fan_out_tasks: usize }
#[verifier::external_body] pub fn task_ctx_with_extension(c: &Arc<TaskContext>, e: DistributedWorkUnitFeedContext) -> (r: TaskContext) ensures r.fan_out() == e.fan_out_tasks { unimplemented!() }
pub enum TreeNodeRecursion { Continue, Jump, Stop }
/// the end of the channel to a worker
#[verifier::external_body] pub struct UnboundedSender { _x: u8 }
impl Clone for UnboundedSender { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// what went into it, and whether the other end is gone
#[verifier::external_body] pub struct Pipe { _x: u8 }
impl Pipe { pub uninterp spec fn sent(&self) -> Seq<Cargo>; pub uninterp spec fn gone(&self) -> bool; }
impl UnboundedSender {
    #[verifier::external_body] pub fn send(&self, m: CoordinatorToWorkerMsg, pipe: &mut Pipe) -> (r: core::result::Result<(), CoordinatorToWorkerMsg>)
        ensures r is Ok ==> final(pipe).sent() == old(pipe).sent() + units_of(m) && final(pipe).gone() == old(pipe).gone(), r is Err ==> final(pipe).sent() == old(pipe).sent() && final(pipe).gone(),
    { unimplemented!() }
}
/// the future that sends the units of one node (the block verified below)
pub struct SendJob { pub chunks: UStream<Vec<Tagged>>, pub id: Uuid, pub tx: UnboundedSender }
pub struct Boxed {} 
pub fn send_job(chunks: UStream<Vec<Tagged>>, id: Uuid, tx: UnboundedSender) -> (r: SendJob) ensures r.chunks == chunks, r.id == id, r.tx == tx { SendJob { chunks, id, tx } }
/// what is sent for a node with P partitions in task t of T: for partition p, the units of partition t*P + p of the feed
pub open spec fn sends_task(j: SendJob, f: Feed, parts: int, task: int, tasks: int) -> bool {
    &&& j.id == f.id_of()
    &&& forall|p: int| 0 <= p < parts ==> #[trigger] of_part(joined(j.chunks.rest()), p) == tagged(p as usize, f.units(parts * task + p, tasks))
    &&& forall|i: int| 0 <= i < joined(j.chunks.rest()).len() ==> (#[trigger] joined(j.chunks.rest())[i]).0 < parts
}
pub open spec fn job_of(jobs: Seq<SendJob>, jobs0: Seq<SendJob>, f: Option<Feed>, parts: int, task: int, tasks: int) -> bool {
    match f { None => jobs == jobs0, Some(f) => jobs.len() == jobs0.len() + 1 && jobs =~= jobs0.push(jobs.last()) && sends_task(jobs.last(), f, parts, task, tasks) }
}
#[verifier::external_body] pub struct QueryEnd { _x: u8 }
#[verifier::external_body] pub fn vx_query_end() -> QueryEnd { unimplemented!() }
//@const src/coordinator/query_coordinator.rs WORK_UNIT_FEED_CHUNK_SIZE
//@fn src/coordinator/query_coordinator.rs StageCoordinator::coordinator_to_worker_task#c0 as send_node_units
//@ sig: pub fn $name(plan: &PlanRef, d_ctx: DistributedTaskContext, task_i: usize, wuf_registry: &WorkUnitFeedRegistry, task_ctx: &Arc<TaskContext>, tx: &UnboundedSender, futures: &mut Vec<SendJob>) -> (r: Result<TreeNodeRecursion>)
//@ spec: requires d_ctx.task_index < d_ctx.task_count, parts(*plan) * d_ctx.task_count <= usize::MAX,
//@   ensures r is Ok ==> r->Ok_0 is Continue && job_of(final(futures)@, old(futures)@, wuf_registry.feed_of(*plan), parts(*plan) as int, d_ctx.task_index as int, d_ctx.task_count as int),
//@ entry: assert(parts(*plan) * d_ctx.task_index + parts(*plan) <= parts(*plan) * d_ctx.task_count) by (nonlinear_arith) requires d_ctx.task_index < d_ctx.task_count, parts(*plan) >= 0; assert(parts(*plan) * d_ctx.task_index <= parts(*plan) * d_ctx.task_count) by (nonlinear_arith) requires d_ctx.task_index < d_ctx.task_count, parts(*plan) >= 0;
//@ subst: self.end_stream_notifier.clone().notified_owned() => vx_query_end()
//@ subst: self.task_ctx => task_ctx
//@ subst: Vec::with_capacity => Vec::<UStream<Tagged>>::with_capacity
//@ subst: Box::pin($..) => $..
//@ subst: select_all(feeds); => select_all(feeds); proof { lemma_merged(interleaved_feed, feeds@, *wuf, partitions as int, d_ctx.task_index as int, d_ctx.task_count as int); }
//@ async 0: send_job(chunked_interleaved_feed, id, tx)
//@ closure 0: -> (o: Tagged) ensures o == (partition, $0)
//@ loop 0: invariant parts(*plan) == partitions, start_partition == partitions * d_ctx.task_index, end_partition == start_partition + partitions, t_ctx.fan_out() == d_ctx.task_count,
//@   it0.seq().len() == partitions, 0 <= it0.index() <= it0.seq().len(), feeds@.len() == it0.index(), forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] it0.seq()[i] == (i as usize, (start_partition + i) as usize),
//@   forall|k: int| 0 <= k < feeds@.len() ==> (#[trigger] feeds@[k]).rest() =~= tagged(k as usize, wuf.units(start_partition + k, d_ctx.task_count as int)),
//@ loop 1: -
//@end
pub proof fn lemma_merged(st: UStream<Tagged>, feeds: Seq<UStream<Tagged>>, f: Feed, parts: int, task: int, tasks: int)
    requires parts <= usize::MAX, feeds.len() == parts, exists|src: Seq<int>| #[trigger] merged(st.rest(), src, feeds),
        forall|k: int| 0 <= k < feeds.len() ==> (#[trigger] feeds[k]).rest() =~= tagged(k as usize, f.units(parts * task + k, tasks)),
    ensures forall|p: int| 0 <= p < parts ==> #[trigger] of_part(st.rest(), p) == tagged(p as usize, f.units(parts * task + p, tasks)),
        forall|i: int| 0 <= i < st.rest().len() ==> (#[trigger] st.rest()[i]).0 < parts,
{
    let s = st.rest();
    let src = choose|src: Seq<int>| #[trigger] merged(s, src, feeds);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 == src[i] by {
        lemma_from(s, src, i);
        let k = src[i];
        let v = from_stream(s, src, k);
        assert(v == feeds[k].rest());
        let j = choose|j: int| 0 <= j < v.len() && v[j] == s[i];
        assert(tagged(k as usize, f.units(parts * task + k, tasks))[j].0 == k as usize);
    }
    assert forall|p: int| 0 <= p < parts implies #[trigger] of_part(s, p) == tagged(p as usize, f.units(parts * task + p, tasks)) by {
        lemma_of_part(s, src, parts, p);
        assert(from_stream(s, src, p) == feeds[p].rest());
    }
}
/// the units of s, addressed, up to the first that failed
pub open spec fn until_err(s: Seq<Tagged>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 is Ok }
pub broadcast proof fn lemma_built(b: Seq<WorkUnitMsg>, id: Uuid, v: Seq<Tagged>) requires #[trigger] built(b, id, v) ensures cargos(b) =~= addressed(id, v), all_ok(v) {
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] cargos(b)[i] == addressed(id, v)[i] by { assert(cargo(b[i]) == cargos(b)[i]); assert(v[i].1 is Ok); }
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).1 is Ok by { assert(cargo(b[i]) == cargos(b)[i]); }
}
//@fn src/coordinator/query_coordinator.rs StageCoordinator::coordinator_to_worker_task#c0#a0 as send_chunks noasync
//@ sig: pub fn $name(feed: UStream<Vec<Tagged>>, id: Uuid, tx: UnboundedSender, pipe: &mut Pipe) -> (r: Result<()>)
//@ spec: ensures r is Ok && !final(pipe).gone() ==> until_err(joined(feed.rest())) && final(pipe).sent() =~= old(pipe).sent() + addressed(id, joined(feed.rest())),
//@      r is Err ==> !until_err(joined(feed.rest())),
//@ ghost: broadcast use lemma_built; let mut chunked_interleaved_feed = feed; let ghost all = joined(feed.rest()); let ghost p0 = pipe.sent(); let ghost mut done: Seq<Tagged> = seq![];
//@ subst: .send($..) => .send($.., pipe)
//@ loop 0: invariant_except_break cur == chunked_interleaved_feed.rest(), all =~= done + joined(cur), until_err(done), pipe.gone() || pipe.sent() =~= p0 + addressed(id, done),
//@   invariant all == joined(feed.rest()), ensures pipe.gone() || (all =~= done && until_err(done) && pipe.sent() =~= p0 + addressed(id, done)), decreases chunked_interleaved_feed.rest().len(),
//@   before: let ghost mut cur = chunked_interleaved_feed.rest();
//@   ghost: let ghost prev = cur; let ghost c0 = chunk@; let ghost done0 = done;
//@   body: cur = chunked_interleaved_feed.rest(); assert(joined(prev) == c0 + joined(cur)); assert forall|i: int| 0 <= i < c0.len() implies (#[trigger] c0[i]).1 == all[done.len() + i].1 by { }; done = done0 + c0; assert(addressed(id, done) =~= addressed(id, done0) + addressed(id, c0));
//@end

// ------------------------------------------------------------------ the task is told which feeds it reads
pub struct Transformed { pub data: PlanRef, pub transformed: bool }
impl Transformed {
    pub fn yes(data: PlanRef) -> (r: Self) ensures r.data == data { Transformed { data, transformed: true } }
    pub fn no(data: PlanRef) -> (r: Self) ensures r.data == data { Transformed { data, transformed: false } }
}
pub uninterp spec fn remote_of(p: PlanRef) -> PlanRef;
/// encodes the plan and decodes it (its feed is then read from the network)
#[verifier::external_body] pub fn roundtrip_pb(p: PlanRef, c: &Arc<TaskContext>) -> (r: Result<PlanRef>) ensures r is Ok ==> r->Ok_0 == remote_of(p) { unimplemented!() }
#[verifier::external_body] pub struct ChildrenIsolatorUnionExec { _x: u8 }
#[verifier::external_body] pub struct DistributedLeafExec { _x: u8 }
pub trait Node: Sized { spec fn of(p: PlanRef) -> Option<Self>; }
impl Node for ChildrenIsolatorUnionExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
impl Node for DistributedLeafExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
impl PlanRef { #[verifier::external_body] pub fn downcast_ref<T: Node>(&self) -> (r: Option<&T>) ensures match r { Some(x) => T::of(*self) == Some(*x), None => T::of(*self) is None } { unimplemented!() } }
impl ChildrenIsolatorUnionExec { pub uninterp spec fn for_task(&self, t: int) -> PlanRef; #[verifier::external_body] pub fn to_task_specialized(&self, t: usize) -> (r: PlanRef) ensures r == self.for_task(t as int) { unimplemented!() } }
impl DistributedLeafExec { pub uninterp spec fn for_task(&self, t: int) -> PlanRef; #[verifier::external_body] pub fn to_task_specialized(&self, t: usize) -> (r: PlanRef) ensures r == self.for_task(t as int) { unimplemented!() } }
pub open spec fn declares(d: Seq<WorkUnitFeedDeclaration>, d0: Seq<WorkUnitFeedDeclaration>, f: Option<Feed>, parts: int) -> bool {
    match f { None => d == d0, Some(f) => d.len() == d0.len() + 1 && d =~= d0.push(d.last()) && d.last().id == f.id_of() && d.last().partitions == parts }
}
/// what task t runs instead of the node p
pub open spec fn specialized(p: PlanRef, f: Option<Feed>, t: int) -> PlanRef {
    if f is Some { remote_of(p) } else { match ChildrenIsolatorUnionExec::of(p) { Some(c) => c.for_task(t), None => match DistributedLeafExec::of(p) { Some(l) => l.for_task(t), None => p } } }
}
//@fn src/coordinator/query_coordinator.rs StageCoordinator::task_specialized_plan#c0 as specialize_node
//@ sig: pub fn $name(plan: PlanRef, d_ctx: DistributedTaskContext, task_i: usize, wuf_registry: &WorkUnitFeedRegistry, task_ctx: &Arc<TaskContext>, work_unit_feed_declarations: &mut Vec<WorkUnitFeedDeclaration>) -> (r: Result<Transformed>)
//@ spec: ensures r is Ok ==> declares(final(work_unit_feed_declarations)@, old(work_unit_feed_declarations)@, wuf_registry.feed_of(plan), parts(plan) as int) && r->Ok_0.data == specialized(plan, wuf_registry.feed_of(plan), d_ctx.task_index as int),
//@ subst: self.task_ctx => task_ctx
//@ subst: Arc::new(ciu) => ciu
//@end
//@struct src/work_unit_feed/work_unit_feed.rs WorkUnitFeedProto
//@struct src/work_unit_feed/work_unit_feed.rs WorkUnitFeed
//@enum src/work_unit_feed/work_unit_feed.rs RemoteOrLocalProvider
pub trait WorkUnitFeedProvider: Sized {
    type WorkUnit: WorkUnitKind;
    spec fn given(&self, partition: int) -> Reader<Self::WorkUnit>;
    fn feed(&self, partition: usize, ctx: Arc<TaskContext>) -> (r: Result<Reader<Self::WorkUnit>>) ensures r is Ok ==> r->Ok_0 == self.given(partition as int);
}
/// the stream reads the channel of (id, partition)
pub open spec fn reads_channel<T: WorkUnitKind>(r: Reader<T>, ctx: TaskContext, id: Uuid, partition: usize) -> bool {
    ctx.feeds() is Some && ctx.feeds()->0@.contains_key((id, partition)) && ctx.feeds()->0@[(id, partition)].init() is Some
        && r.chan() == ctx.feeds()->0@[(id, partition)].init()->0.chan() && forall|x: Item, o: Result<T>| #[trigger] r.yields(x, o) ==> reads::<T>(x, o)
}
impl<T: WorkUnitFeedProvider> RemoteOrLocalProvider<T> {
//@fn src/work_unit_feed/work_unit_feed.rs RemoteOrLocalProvider::feed as feed
//@ sig: pub fn $name(&self, partition: usize, ctx: Arc<TaskContext>) -> (r: Result<Reader<T::WorkUnit>>)
//@ spec: ensures r is Ok ==> match self { RemoteOrLocalProvider::Local(l) => r->Ok_0 == l.given(partition as int), RemoteOrLocalProvider::Remote(m) => reads_channel(r->Ok_0, *ctx, m.id, partition) },
//@end
}
impl<T: WorkUnitFeedProvider> WorkUnitFeed<T> {
//@fn src/work_unit_feed/work_unit_feed.rs WorkUnitFeed::from_proto as from_proto
//@ spec: ensures r is Ok ==> uuid_bytes(r->Ok_0.id) == proto.id@ && r->Ok_0.provider is Remote && r->Ok_0.provider->Remote_0.id == r->Ok_0.id, (exists|u: Uuid| proto.id@ == #[trigger] uuid_bytes(u)) ==> r is Ok,
//@end
//@fn src/work_unit_feed/work_unit_feed.rs WorkUnitFeed::to_proto as to_proto
//@ spec: ensures r.id@ == uuid_bytes(self.id),
//@end
//@fn src/work_unit_feed/work_unit_feed.rs WorkUnitFeed::feed as feed
//@ sig: pub fn $name(&self, partition: usize, ctx: Arc<TaskContext>) -> (r: Result<Reader<T::WorkUnit>>)
//@ spec: ensures r is Ok ==> match self.provider { RemoteOrLocalProvider::Local(l) => r->Ok_0 == l.given(partition as int), RemoteOrLocalProvider::Remote(m) => reads_channel(r->Ok_0, *ctx, m.id, partition) },
//@end
}
/// A feed that is sent to a worker is read there from the channels of its own id, partition by partition.
pub fn theorem_feed_sent_to_worker<T: WorkUnitFeedProvider>(f: &WorkUnitFeed<T>, partition: usize, ctx: Arc<TaskContext>) -> (r: Result<Reader<T::WorkUnit>>)
    ensures r is Ok ==> reads_channel(r->Ok_0, *ctx, f.id, partition)
{
    broadcast use uuids_differ;
    WorkUnitFeed::<T>::from_proto(f.to_proto())?.feed(partition, ctx)
}
/// the units of one partition, as its channel on the worker gets them
pub open spec fn delivered(id: Uuid, p: usize, v: Seq<Result<Unit>>) -> Seq<Sent> { Seq::new(v.len(), |i: int| Sent::Unit(Cargo { id, partition: p, body: MaybeEncoded::Decoded(v[i]->Ok_0) })) }
pub proof fn lemma_delivered(id: Uuid, s: Seq<Tagged>, p: usize, v: Seq<Result<Unit>>)
    requires of_part(s, p as int) == tagged(p, v), ensures for_key(addressed(id, s), (id, p)) =~= delivered(id, p, v), decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(addressed(id, s).drop_last() =~= addressed(id, t));
        assert(key_of(addressed(id, s).last()) == (id, s.last().0));
        if s.last().0 == p {
            let w = v.drop_last();
            assert(of_part(s, p as int) == of_part(t, p as int).push(s.last()));
            assert(tagged(p, v).len() == v.len());
            assert(tagged(p, v).last() == s.last() && tagged(p, v).drop_last() =~= of_part(t, p as int));
            assert(tagged(p, w) =~= tagged(p, v).drop_last());
            lemma_delivered(id, t, p, w);
            assert(s.last().1 == v.last());
            assert(delivered(id, p, v) =~= delivered(id, p, w).push(Sent::Unit(addressed(id, s).last())));
        } else {
            lemma_delivered(id, t, p, v);
        }
    } else { assert(tagged(p, v).len() == v.len()); }
}
/// For every partition of every task: what is sent for it are the units of the provider's partition task * P + partition, in order, and nothing else.
pub proof fn theorem_units_of_a_task(j: SendJob, f: Feed, parts: int, task: int, tasks: int, p: usize)
    requires sends_task(j, f, parts, task, tasks), p < parts,
    ensures for_key(addressed(j.id, joined(j.chunks.rest())), (f.id_of(), p)) =~= delivered(f.id_of(), p, f.units(parts * task + p, tasks)),
{
    assert(of_part(joined(j.chunks.rest()), p as int) == tagged(p as usize, f.units(parts * task + p, tasks)));
    lemma_delivered(j.id, joined(j.chunks.rest()), p, f.units(parts * task + p, tasks));
}
} // verus!
fn main() {}
