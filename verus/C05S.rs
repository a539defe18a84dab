//@include lib/base.rs
//@strip tokio::sync::mpsc std::time crate::grpc::generated::worker futures::stream
//@arcclone
macro_rules! format { ($($t:tt)*) => { vx_text() } }
//@include lib/flight.rs
verus! {
global size_of usize == 8;
#[verifier::external_body] pub fn vx_ready() -> bool { unimplemented!() }
pub mod pb { use super::*; verus! {
//@struct src/protocol/grpc/generated/worker.rs FlightAppMetadata
#[verifier::external_body] pub struct ExecuteTaskRequest { _x: u8 }
} }
pub type FlightAppMetadata = pb::FlightAppMetadata;
impl pb::FlightAppMetadata {
    #[verifier::external_body] pub fn encode_to_vec(&self) -> (r: Vec<u8>) ensures meta_of(r@) == Some((self.partition, self.created_timestamp_unix_nanos)) { unimplemented!() }
}
pub enum FlightError { Tonic(Box<Status>), Other(u8) }
pub type Msg = Result<FlightData, FlightError>;
// ------------------------------------------------------------------ merging: every stream's messages, in that stream's order
/// what channels hold, and which of them nobody reads any more
pub struct World { pub held: Map<int, Seq<Msg>>, pub gone: Set<int> }
#[verifier::external_body] pub struct Net { _x: u8 }
impl Net { pub uninterp spec fn view(&self) -> World; /** the tasks started */ pub uninterp spec fn jobs(&self) -> Seq<Job>; }
#[verifier::external_body] pub struct SendError { _x: u8 }
#[verifier::external_body] pub struct Event { _x: u8 }
#[verifier::external_body] pub struct Sender { _x: u8 }
#[verifier::external_body] pub struct Receiver { _x: u8 }
impl Receiver { pub uninterp spec fn chan(&self) -> int; }
/// the reader of a channel has gone away
pub uninterp spec fn closed(c: int) -> bool;
impl Sender {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body] pub fn closed(&self) -> (r: Event) ensures closed(self.chan()) { unimplemented!() }
    #[verifier::external_body] pub fn send(&self, net: &mut Net, m: Msg) -> (r: Result<(), SendError>)
        ensures r is Ok ==> final(net)@.held == old(net)@.held.insert(self.chan(), old(net)@.held[self.chan()].push(m)), r is Err ==> closed(self.chan()) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_channel(net: &mut Net, n: usize) -> (r: (Sender, Receiver))
    ensures r.0.chan() == r.1.chan(), !old(net)@.held.contains_key(r.0.chan()), final(net)@.held == old(net)@.held.insert(r.0.chan(), seq![]), final(net).jobs() == old(net).jobs() { unimplemented!() }
#[verifier::external_body] pub struct Reservation { _x: u8 }
impl Reservation { #[verifier::external_body] pub fn grow(&self, n: usize) { unimplemented!() } #[verifier::external_body] pub fn shrink(&self, n: usize) { unimplemented!() } }
#[verifier::external_body] pub struct MemoryPool { _x: u8 }
#[verifier::external_body] pub fn vx_reservation(p: &Arc<MemoryPool>) -> Reservation { unimplemented!() }
/// a stream of messages; `rest()` is what it still produces
#[verifier::external_body] pub struct Flight { _x: u8 }
impl Flight {
    pub uninterp spec fn rest(&self) -> Seq<Msg>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Msg>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(), old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first() { unimplemented!() }
    #[verifier::external_body] pub fn map<F: Fn(Msg) -> Msg>(self, f: F) -> (r: Flight)
        requires forall|m: Msg| f.requires((m,)), ensures r.rest().len() == self.rest().len(), forall|i: int| #![trigger r.rest()[i]] #![trigger self.rest()[i]] 0 <= i < r.rest().len() ==> f.ensures((self.rest()[i],), r.rest()[i]) { unimplemented!() }
}
/// the task that empties one stream into its channel
//@fn src/protocol/grpc/spawn_select_all.rs spawn_select_all#a0 as forward noasync
//@ sig: pub fn $name(stream: Flight, in_tx: Sender, reservation: Arc<Reservation>, net: &mut Net)
//@ header: #[verifier::exec_allows_no_decreases_clause]
//@ subst: in_tx.send($..) => in_tx.send(net, $..)
//@ spec: requires old(net)@.held[in_tx.chan()] == Seq::<Msg>::empty(),
//@   ensures closed(in_tx.chan()) || final(net)@.held[in_tx.chan()] =~= stream.rest(),
//@ ghost: let mut t = stream;
//@ loop 0: invariant t.rest().len() <= stream.rest().len(), t.rest() =~= stream.rest().skip(stream.rest().len() - t.rest().len()), net@.held[in_tx.chan()] =~= stream.rest().take(stream.rest().len() - t.rest().len()),
//@end
/// a task and what it was given
pub struct Job { pub stream: Flight, pub tx: Sender, pub reservation: Arc<Reservation> }
#[verifier::external_body] pub struct Task { _x: u8 }
impl Task {
    #[verifier::external_body] pub fn spawn(net: &mut Net, j: Job) -> (r: Task) requires old(net)@.held[j.tx.chan()] == Seq::<Msg>::empty(), ensures final(net).jobs() == old(net).jobs().push(j), final(net)@ == old(net)@ { unimplemented!() }
}
pub struct ReceiverStream { pub c: Receiver }
impl ReceiverStream { pub fn new(c: Receiver) -> (r: Self) ensures r.c == c { ReceiverStream { c } } }
/// several channels read as one: `chans()` says which
#[verifier::external_body] pub struct Merged { _x: u8 }
impl Merged {
    pub uninterp spec fn chans(&self) -> Seq<int>;
    /// every message goes on as it is
    #[verifier::external_body] pub fn map<F: Fn(Msg) -> Msg>(self, f: F) -> (r: Merged)
        requires forall|m: Msg| f.requires((m,)), forall|m: Msg, d: Msg| #[trigger] f.ensures((m,), d) ==> d == m, ensures r.chans() == self.chans() { unimplemented!() }
}
#[verifier::external_body] pub fn select_all(v: Vec<ReceiverStream>) -> (r: Merged) ensures r.chans().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r.chans()[i] == v@[i].c.chan() { unimplemented!() }
/// each channel of the merged stream is filled from one of the streams, by a task of its own
pub open spec fn merges(m: Merged, v: Seq<Flight>, jobs: Seq<Job>) -> bool {
    m.chans().len() == v.len() && jobs.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] jobs[i].stream == v[i] && jobs[i].tx.chan() == m.chans()[i]) && forall|i: int, j: int| 0 <= i < j < v.len() ==> m.chans()[i] != m.chans()[j]
}
//@fn src/protocol/grpc/spawn_select_all.rs spawn_select_all
//@ sig: pub fn $name(net: &mut Net, inner: Vec<Flight>, pool: Arc<MemoryPool>, queue_size: usize) -> (r: Merged)
//@ async 0: Job { stream: t, tx: in_tx, reservation }
//@ subst: SpawnedTask::spawn($..) => Task::spawn(net, $..)
//@ subst: channel($..) => vx_channel(net, $..)
//@ subst: MemoryConsumer::new("NetworkBoundary").register($..) => vx_reservation($..)
//@ spec: requires old(net).jobs().len() == 0,
//@   ensures merges(r, inner@, final(net).jobs()),
//@ subst: let mut in_rxs = Vec::with_capacity($..) => let mut in_rxs = Vec::<ReceiverStream>::with_capacity($..)
//@ ghost: let ghost streams = inner@;
//@ loop 0: invariant it0.seq() == streams, 0 <= it0.index() <= it0.seq().len(), in_rxs@.len() == it0.index(), net.jobs().len() == it0.index(),
//@     forall|i: int| 0 <= i < it0.index() ==> #[trigger] net.jobs()[i].stream == streams[i] && net.jobs()[i].tx.chan() == in_rxs@[i].c.chan(), forall|i: int| 0 <= i < it0.index() ==> net@.held.contains_key((#[trigger] in_rxs@[i]).c.chan()),
//@     forall|i: int, j: int| 0 <= i < j < it0.index() ==> (#[trigger] in_rxs@[i]).c.chan() != (#[trigger] in_rxs@[j]).c.chan(),
//@ closure 0: |msg: Msg| -> (r: Msg) ensures r == msg,
//@ loop 1: -
//@end
//@const src/protocol/grpc/worker_service.rs RECORD_BATCH_BUFFER_SIZE
// ------------------------------------------------------------------ the worker's answer
#[verifier::external_body] pub struct Arrow { _x: u8 }
/// the messages that encode what this stream of record batches produces
pub uninterp spec fn encoding(s: Arrow) -> Seq<Msg>;
#[derive(Clone, Copy)] pub enum CompressionType { LZ4_FRAME, ZSTD }
#[verifier::external_body] pub fn build_flight_data_stream(s: Arrow, c: Option<CompressionType>) -> (r: Result<Flight, Status>) ensures r is Ok ==> r->Ok_0.rest() == encoding(s) { unimplemented!() }
pub struct Options { pub compression: String }
#[verifier::external_body] pub struct TaskContext { _x: u8 }
#[verifier::external_body] pub fn vx_options(c: &Arc<TaskContext>) -> Result<Options, Status> { unimplemented!() }
#[verifier::external_body] pub fn vx_pool(c: &Arc<TaskContext>) -> Arc<MemoryPool> { unimplemented!() }
#[verifier::external_body] pub fn now_ns<T>() -> T { unimplemented!() }
#[verifier::external_body] pub struct TaskKey { _x: u8 }
#[verifier::external_body] pub struct ProducerHead { _x: u8 }
pub struct ExecuteTaskRequest { pub task_key: TaskKey, pub target_partition_start: usize, pub target_partition_end: usize, pub producer_head: ProducerHead }
pub uninterp spec fn decoded(q: pb::ExecuteTaskRequest) -> ExecuteTaskRequest;
#[verifier::external_body] pub fn decode_execute_task_request(q: pb::ExecuteTaskRequest) -> (r: Result<ExecuteTaskRequest, Status>) ensures r is Ok ==> r->Ok_0 == decoded(q) { unimplemented!() }
pub struct Request { pub body: pb::ExecuteTaskRequest }
impl Request { pub fn into_inner(self) -> (r: pb::ExecuteTaskRequest) ensures r == self.body { self.body } }
/// the worker; stream i of what it runs is for partition start + i (C03, C10)
#[verifier::external_body] pub struct Worker { _x: u8 }
/// what the client gets: the merged messages, errors turned into statuses
pub struct Answer { pub m: Merged }
impl Merged { #[verifier::external_body] pub fn map_err<F: Fn(FlightError) -> Status>(self, f: F) -> (r: Answer) requires forall|e: FlightError| f.requires((e,)) ensures r.m == self { unimplemented!() } }
pub struct Response { pub a: Box<Answer> }
impl Response { pub fn new(a: Box<Answer>) -> (r: Self) ensures r.a == a { Response { a } } }
#[verifier::external_body] pub fn vx_zip_range<B>(a: Range<usize>, b: Vec<B>) -> (r: Vec<(usize, B)>)
    ensures r@.len() == (if a.start > a.end { 0 } else if a.end - a.start <= b@.len() { (a.end - a.start) as nat } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == ((a.start + i) as usize, b@[i]) { unimplemented!() }
pub open spec fn answers(jobs: Seq<Job>, streams: Seq<Arrow>, lo: int, n: int) -> bool {
    jobs.len() == (if n <= streams.len() { n } else { streams.len() as int }) && forall|i: int| 0 <= i < jobs.len() ==> tagged(encoding(streams[i]), (#[trigger] jobs[i]).stream.rest(), lo + i)
}
impl Worker {
    pub uninterp spec fn streams(&self, q: ExecuteTaskRequest) -> Seq<Arrow>;
    #[verifier::external_body] pub fn execute_task(&self, q: ExecuteTaskRequest) -> (r: Result<(Vec<Arrow>, Arc<TaskContext>), Status>) ensures r is Ok ==> r->Ok_0.0@ == self.streams(q) { unimplemented!() }
//@fn src/protocol/grpc/worker_service.rs Worker::execute_task@WorkerService as answer noasync
//@ sig: pub fn $name(&self, net: &mut Net, request: Request) -> (r: Result<Response, Status>)
//@ drop: .map_err(datafusion_error_to_tonic_status)
//@ subst: DistributedConfig::from_config_options($..) => vx_options(&task_ctx)
//@ subst: (task_ctx.runtime_env().memory_pool).clone() => vx_pool(&task_ctx)
//@ subst: spawn_select_all($..) => spawn_select_all(net, $..)
//@ subst: partition_range.zip($..) => vx_zip_range(partition_range, $..)
//@ subst: Box::pin($..) => Box::new($..)
//@ subst: let mut flight_streams = Vec::with_capacity($..) => let mut flight_streams = Vec::<Flight>::with_capacity($..)
//@ ghost: let ghost streams = self.streams(decoded(request.body)); let ghost lo = decoded(request.body).target_partition_start as int; let ghost n = decoded(request.body).target_partition_end - lo;
//@ loop 0: invariant it0.seq().len() == (if n <= streams.len() { n } else { streams.len() as int }), 0 <= it0.index() <= it0.seq().len(), flight_streams@.len() == it0.index(), 0 <= lo, lo + n <= usize::MAX,
//@     forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] it0.seq()[i] == ((lo + i) as usize, streams[i]),
//@     forall|i: int| 0 <= i < it0.index() ==> tagged(encoding(streams[i]), (#[trigger] flight_streams@[i]).rest(), lo + i),
//@ closure 0: |msg: Msg| -> (o: Msg) ensures (msg is Ok) == (o is Ok), msg is Ok ==> o->Ok_0.body == msg->Ok_0.body && tag(o->Ok_0) is Some && tag(o->Ok_0)->0 == partition,
//@ closure 1: |v: FlightData| -> (o: FlightData) ensures o.body == v.body, meta_of(o.app_metadata.v@) == Some((flight_data.partition, flight_data.created_timestamp_unix_nanos)),
//@ spec: requires old(net).jobs().len() == 0, decoded(request.body).target_partition_start <= decoded(request.body).target_partition_end,
//@   ensures r is Ok ==> answers(final(net).jobs(), self.streams(decoded(request.body)), decoded(request.body).target_partition_start as int, decoded(request.body).target_partition_end - decoded(request.body).target_partition_start),
//@     r is Ok ==> r->Ok_0.a.m.chans().len() == final(net).jobs().len() && forall|i: int| 0 <= i < final(net).jobs().len() ==> #[trigger] final(net).jobs()[i].tx.chan() == r->Ok_0.a.m.chans()[i],
//@ closure 2: -
//@end
}
} // verus!
fn main() {}
