//@include lib/base.rs
//@strip tokio::sync::mpsc std::time crate::grpc::generated::worker
//@arcclone
macro_rules! format { ($($t:tt)*) => { vx_text() } }
//@include lib/flight.rs
verus! {
global size_of usize == 8;
/// which branch of a `select!` is taken
#[verifier::external_body] pub fn vx_ready() -> bool { unimplemented!() }
#[verifier::external_body] pub fn drop<T>(t: T) { unimplemented!() }
#[verifier::external_body] pub struct WireKey { _x: u8 }
#[verifier::external_body] pub struct WireHead { _x: u8 }
pub mod pb { use super::*; verus! {
//@struct src/protocol/grpc/generated/worker.rs FlightAppMetadata
pub struct ExecuteTaskRequest { pub task_key: Option<WireKey>, pub target_partition_start: u64, pub target_partition_end: u64, pub producer_head: Option<WireHead> }
impl Clone for ExecuteTaskRequest { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
} }
pub type FlightAppMetadata = pb::FlightAppMetadata;
impl pb::FlightAppMetadata {
    #[verifier::external_body] pub fn decode(b: &Vec<u8>) -> (r: Result<pb::FlightAppMetadata, DecodeError>)
        ensures match meta_of(b@) { Some(m) => r is Ok && r->Ok_0.partition == m.0 && r->Ok_0.created_timestamp_unix_nanos == m.1, None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn encode_to_vec(&self) -> (r: Vec<u8>) ensures meta_of(r@) == Some((self.partition, self.created_timestamp_unix_nanos)) { unimplemented!() }
}
/// the memory a queued message holds; it goes when the message goes
#[verifier::external_body] pub struct BufferedBytes { _x: u8 }
impl BufferedBytes { #[verifier::external_body] pub fn new(r: &Arc<Reservation>, n: &Arc<Notify>, size: usize) -> BufferedBytes { unimplemented!() } }
//@type src/protocol/grpc/worker_client.rs WorkerMsg

// ------------------------------------------------------------------ channels
/// what channels hold, and which of them nobody reads any more
pub struct World { pub held: Map<int, Seq<WorkerMsg>>, pub gone: Set<int> }
#[verifier::external_body] pub struct Net { _x: u8 }
impl Net { pub uninterp spec fn view(&self) -> World; /** the tasks started to read connections */ pub uninterp spec fn jobs(&self) -> Seq<Job>; }
/// a message was put in a channel; or nobody reads that channel any more, and the message is lost
pub open spec fn sent(c: int, m: WorkerMsg, ok: bool, a: World, b: World) -> bool {
    if ok { b.held == a.held.insert(c, a.held[c].push(m)) && b.gone == a.gone } else { b.held == a.held && b.gone == a.gone.insert(c) }
}
#[verifier::external_body] pub struct SendError { _x: u8 }
#[verifier::external_body] pub struct UnboundedSender { _x: u8 }
#[verifier::external_body] pub struct UnboundedReceiver { _x: u8 }
impl UnboundedReceiver { pub uninterp spec fn chan(&self) -> int; }
impl UnboundedSender {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body] pub fn send(&self, net: &mut Net, m: WorkerMsg) -> (r: Result<(), SendError>)
        ensures sent(self.chan(), m, r is Ok, old(net)@, final(net)@), { unimplemented!() }
}
/// a channel nobody has yet
#[verifier::external_body] pub fn vx_channel(net: &mut Net) -> (r: (UnboundedSender, UnboundedReceiver))
    ensures r.0.chan() == r.1.chan(), !old(net)@.held.contains_key(r.0.chan()), final(net)@.held == old(net)@.held.insert(r.0.chan(), seq![]), final(net).jobs() == old(net).jobs(), final(net)@.gone == old(net)@.gone, !old(net)@.gone.contains(r.0.chan()) { unimplemented!() }
pub open spec fn apart(t: Seq<UnboundedSender>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i].chan() != #[trigger] t[j].chan() }
pub open spec fn fresh(t: Seq<UnboundedSender>, w: World) -> bool { forall|i: int| 0 <= i < t.len() ==> w.held.contains_key((#[trigger] t[i]).chan()) && w.held[t[i].chan()] == Seq::<WorkerMsg>::empty() }

// ------------------------------------------------------------------ the consumer's side: one connection, many partitions
/// the channel holds those messages
pub open spec fn holds(m: Seq<WorkerMsg>, d: Seq<FlightData>) -> bool {
    m.len() == d.len() && forall|i: int| #![trigger m[i]] #![trigger d[i]] 0 <= i < d.len() ==> m[i] is Ok && m[i]->Ok_0.0 == d[i]
}
/// the channel holds those messages, and then an error
pub open spec fn holds_then_fails(m: Seq<WorkerMsg>, d: Seq<FlightData>) -> bool {
    m.len() == d.len() + 1 && m.last() is Err && holds(m.drop_last(), d)
}
pub open spec fn delivered(t: Seq<UnboundedSender>, w: World, v: Seq<Item>, lo: int) -> bool {
    forall|i: int| 0 <= i < t.len() ==> w.gone.contains((#[trigger] t[i]).chan()) || holds(w.held[t[i].chan()], routed(v, lo + i))
}
pub open spec fn delivered_then_failed(t: Seq<UnboundedSender>, w: World, v: Seq<Item>, lo: int) -> bool {
    forall|i: int| 0 <= i < t.len() ==> w.gone.contains((#[trigger] t[i]).chan()) || holds_then_fails(w.held[t[i].chan()], routed(v, lo + i))
}
/// everything that came was handed to its partition; what cannot be handed on is an error for all of them
pub open spec fn all_delivered(t: Seq<UnboundedSender>, w: World, v: Seq<Item>, lo: int) -> bool {
    let k = stops(v, lo, t.len());
    if k == v.len() { delivered(t, w, v, lo) } else { delivered_then_failed(t, w, v.take(k as int), lo) }
}
/// the error went to every channel that is still read
pub open spec fn fanned(t: Seq<UnboundedSender>, e: Status, a: World, b: World) -> bool {
    a.gone.subset_of(b.gone) && forall|i: int| 0 <= i < t.len() ==> b.gone.contains((#[trigger] t[i]).chan()) || b.held[t[i].chan()] == a.held[t[i].chan()].push(Err(e))
}
pub proof fn lemma_fanned(t: Seq<UnboundedSender>, a: World, v: Seq<Item>, lo: int)
    requires delivered(t, a, v, lo), ensures forall|e: Status, b: World| #[trigger] fanned(t, e, a, b) ==> delivered_then_failed(t, b, v, lo)
{
    assert forall|e: Status, b: World| #[trigger] fanned(t, e, a, b) implies delivered_then_failed(t, b, v, lo) by {
        assert forall|i: int| 0 <= i < t.len() implies b.gone.contains((#[trigger] t[i]).chan()) || holds_then_fails(b.held[t[i].chan()], routed(v, lo + i)) by {
            if !b.gone.contains(t[i].chan()) { assert(!a.gone.contains(t[i].chan())); assert(b.held[t[i].chan()].drop_last() =~= a.held[t[i].chan()]); }
        }
    }
}
pub proof fn lemma_sent(t: Seq<UnboundedSender>, a: World, all: Seq<Item>, k: int, lo: int, n: nat)
    requires 0 <= k < all.len(), n == t.len(), delivered(t, a, all.take(k), lo), apart(t), fits(all[k], lo, n),
    ensures forall|m: WorkerMsg, ok: bool, b: World| #[trigger] sent(t[tag(all[k]->Ok_0)->0 - lo].chan(), m, ok, a, b) && m is Ok && m->Ok_0.0 == all[k]->Ok_0 ==> delivered(t, b, all.take(k + 1), lo)
{
    lemma_step(all, k);
    let j = tag(all[k]->Ok_0)->0 - lo;
    assert forall|m: WorkerMsg, ok: bool, b: World| #[trigger] sent(t[j].chan(), m, ok, a, b) && m is Ok && m->Ok_0.0 == all[k]->Ok_0 implies delivered(t, b, all.take(k + 1), lo) by {
        assert forall|i: int| 0 <= i < t.len() implies b.gone.contains((#[trigger] t[i]).chan()) || holds(b.held[t[i].chan()], routed(all.take(k + 1), lo + i)) by {
            if i != j { assert(t[i].chan() != t[j].chan()) by { if i < j { } else { assert(j < i); } } }
        }
    }
}
//@fn src/protocol/grpc/worker_client.rs fanout
//@ sig: pub fn $name(net: &mut Net, o_txs: &Vec<UnboundedSender>, err: Status)
//@ subst: .send($..) => .send(net, $..)
//@ spec: requires apart(o_txs@),
//@   ensures fanned(o_txs@, err, old(net)@, final(net)@),
//@ ghost: let ghost w0 = net@;
//@ loop 0: invariant apart(o_txs@), it0.seq().len() == o_txs@.len(), 0 <= it0.index() <= it0.seq().len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == o_txs@[i], w0.gone.subset_of(net@.gone),
//@     forall|i: int| 0 <= i < o_txs@.len() ==> net@.gone.contains((#[trigger] o_txs@[i]).chan()) || net@.held[o_txs@[i].chan()] == (if i < it0.index() { w0.held[o_txs@[i].chan()].push(Err(err)) } else { w0.held[o_txs@[i].chan()] }),
//@end
#[verifier::external_body] pub struct Event { _x: u8 }
#[verifier::external_body] pub struct Notify { _x: u8 }
impl Notify { #[verifier::external_body] pub fn new() -> Self { unimplemented!() } #[verifier::external_body] pub fn notified(&self) -> Event { unimplemented!() } #[verifier::external_body] pub fn notify_one(&self) { unimplemented!() } }
#[verifier::external_body] pub struct CancellationToken { _x: u8 }
/// every stream handed out for this request has been dropped
pub uninterp spec fn nobody_reads() -> bool;
/// how many streams are handed out for this request
pub uninterp spec fn readers() -> nat;
impl CancellationToken { #[verifier::external_body] pub fn new() -> Self { unimplemented!() } #[verifier::external_body] pub fn cancelled(&self) -> (r: Event) ensures nobody_reads() { unimplemented!() } #[verifier::external_body] pub fn cancel(&self) requires nobody_reads() { unimplemented!() } #[verifier::external_body] pub fn clone(&self) -> Self { unimplemented!() } }
/// counts the streams that are still there; each takes one off when it is dropped
#[verifier::external_body] pub struct AtomicUsize { _x: u8 }
pub enum Ordering { SeqCst, Relaxed, AcqRel, Acquire, Release }
impl AtomicUsize {
    pub uninterp spec fn initial(&self) -> nat;
    #[verifier::external_body] pub fn new(n: usize) -> (r: Self) ensures r.initial() == n { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&self, n: usize, o: Ordering) -> (r: usize) requires self.initial() == readers(), n == 1 ensures r >= 1, r == 1 ==> nobody_reads() { unimplemented!() }
}
#[verifier::external_body] pub struct Reservation { _x: u8 }
impl Reservation {
    #[verifier::external_body] pub fn size(&self) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn grow(&self, n: usize) { unimplemented!() }
    #[verifier::external_body] pub fn shrink(&self, n: usize) { unimplemented!() }
}
#[verifier::external_body] pub struct Gauge { _x: u8 }
impl Gauge { #[verifier::external_body] pub fn add(&self, n: usize) { unimplemented!() } #[verifier::external_body] pub fn add_bytes(&self, n: usize) { unimplemented!() } #[verifier::external_body] pub fn set(&self, n: usize) { unimplemented!() } }
#[verifier::external_body] pub struct Latencies { _x: u8 }
impl Latencies { #[verifier::external_body] pub fn add_duration(&mut self, d: Duration) { unimplemented!() } }
#[verifier::external_body] pub struct Duration { _x: u8 }
#[verifier::external_body] pub struct SystemTime { _x: u8 }
#[verifier::external_body] pub fn vx_since_epoch(n: u64) -> SystemTime { unimplemented!() }
impl SystemTime { #[verifier::external_body] pub fn now() -> Self { unimplemented!() } #[verifier::external_body] pub fn duration_since(&self, t: SystemTime) -> Result<Duration, SendError> { unimplemented!() } }
/// the stream of messages of a connection; `rest()` is what will still come
#[verifier::external_body] pub struct Streaming { _x: u8 }
impl Streaming {
    pub uninterp spec fn rest(&self) -> Seq<Item>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Item>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(), old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first() { unimplemented!() }
}
#[verifier::external_body] pub struct Reply { _x: u8 }
impl Reply { pub uninterp spec fn rest(&self) -> Seq<Item>; #[verifier::external_body] pub fn into_inner(self) -> (r: Streaming) ensures r.rest() == self.rest() { unimplemented!() } }
#[verifier::external_body] pub struct MetadataMap { _x: u8 }
#[verifier::external_body] pub struct Extensions { _x: u8 }
impl Extensions { #[verifier::external_body] pub fn default() -> Self { unimplemented!() } }
pub struct Request { pub meta: MetadataMap, pub body: pb::ExecuteTaskRequest }
impl Request { #[verifier::external_body] pub fn from_parts(m: MetadataMap, e: Extensions, b: pb::ExecuteTaskRequest) -> (r: Request) ensures r.meta == m, r.body == b { unimplemented!() } }
/// the connection to a worker; `answer` is what the worker sends for a request, `None` if it refuses
#[verifier::external_body] pub struct Client { _x: u8 }
impl Client {
    pub uninterp spec fn answer(&self, m: MetadataMap, b: pb::ExecuteTaskRequest) -> Option<Seq<Item>>;
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn execute_task(&mut self, q: Request) -> (r: Result<Reply, Status>)
        ensures match old(self).answer(q.meta, q.body) { Some(v) => r is Ok && r->Ok_0.rest() == v, None => r is Err } { unimplemented!() }
}
/// the task that reads the connection
//@fn src/protocol/grpc/worker_client.rs WorkerServiceClient::execute_task@WorkerChannel#a0 as demux noasync
//@ sig: pub fn $name(client: Client, request_for_task: pb::ExecuteTaskRequest, metadata_for_task: MetadataMap, per_partition_tx: Vec<UnboundedSender>, target_partition_range: Range<usize>, cancel: CancellationToken, first_poll_notify_for_task: Arc<Notify>, mem_available_notify_for_task: Arc<Notify>, memory_reservation: Arc<Reservation>, buffer_budget_bytes: usize, mut latency_metrics: Latencies, msg_count: Gauge, bytes_transferred: Gauge, max_mem_used: Gauge, mut curr_max_mem: usize, net: &mut Net)
//@ header: #[verifier::exec_allows_no_decreases_clause]
//@ subst: UNIX_EPOCH + Duration::from_nanos($..) => vx_since_epoch($..)
//@ subst: fanout($..) => fanout(net, $..)
//@ subst: o_tx.send($..) => o_tx.send(net, $..)
//@ spec: requires apart(per_partition_tx@), fresh(per_partition_tx@, old(net)@), per_partition_tx@.len() == target_partition_range.end - target_partition_range.start,
//@   ensures nobody_reads() || match client.answer(metadata_for_task, request_for_task) {
//@       Some(v) => all_delivered(per_partition_tx@, final(net)@, v, target_partition_range.start as int),
//@       None => delivered_then_failed(per_partition_tx@, final(net)@, seq![], target_partition_range.start as int),
//@     },
//@ ghost: let mut self_clone = client; let ghost lo = target_partition_range.start as int; let ghost t = per_partition_tx@; let ghost n = t.len(); let ghost w0 = net@;
//@ loop 0: invariant client.answer(metadata_for_task, request_for_task) == Some(all), lo == target_partition_range.start, t == per_partition_tx@, n == t.len(), apart(t), n == target_partition_range.end - target_partition_range.start,
//@     interleaved_stream.rest().len() <= all.len(), interleaved_stream.rest() =~= all.skip(all.len() - interleaved_stream.rest().len()),
//@     forall|i: int| 0 <= i < all.len() - interleaved_stream.rest().len() ==> fits(#[trigger] all[i], lo, n),
//@     delivered(t, net@, all.take(all.len() - interleaved_stream.rest().len()), lo),
//@   before: let ghost all = interleaved_stream.rest();
//@   ghost: let ghost wb = net@; let ghost k = all.len() - interleaved_stream.rest().len();
//@   body: if k < all.len() { lemma_fanned(t, wb, all.take(k), lo); if !fits(all[k], lo, n) { lemma_stops(all, lo, n, k); } else { lemma_sent(t, wb, all, k, lo, n); } } else { assert(all.take(k) =~= all); lemma_stops(all, lo, n, k); }
//@ loop 1: invariant true,
//@end
// ------------------------------------------------------------------ one stream per partition
/// what the task that reads the connection is given
pub struct Job { pub client: Client, pub request: pb::ExecuteTaskRequest, pub metadata: MetadataMap, pub tx: Vec<UnboundedSender>, pub range: Range<usize>, pub cancel: CancellationToken, pub first_poll: Arc<Notify>, pub mem: Arc<Notify> }
#[verifier::external_body] pub struct Task { _x: u8 }
impl Task {
    /// the task starts: what demux asks for must be there
    #[verifier::external_body] pub fn spawn(net: &mut Net, j: Job) -> (r: Task)
        requires apart(j.tx@), fresh(j.tx@, old(net)@), j.tx@.len() == j.range.end - j.range.start,
        ensures final(net).jobs() == old(net).jobs().push(j), final(net)@ == old(net)@ { unimplemented!() }
}
/// the messages in a channel
#[verifier::external_body] pub struct ChanStream { _x: u8 }
pub struct UnboundedReceiverStream {}
impl UnboundedReceiverStream { #[verifier::external_body] pub fn new(r: UnboundedReceiver) -> (s: ChanStream) ensures s.chan() == r.chan() { unimplemented!() } }
#[verifier::external_body] pub struct FlightError { _x: u8 }
impl FlightError { #[verifier::external_body] pub fn Tonic(s: Box<Status>) -> FlightError { unimplemented!() } }
#[verifier::external_body] pub struct Time { _x: u8 }
impl Time { #[verifier::external_body] pub fn new() -> Self { unimplemented!() } #[verifier::external_body] pub fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body] pub struct FlightStream { _x: u8 }
#[verifier::external_body] pub struct BatchStream { _x: u8 }
impl Job { pub fn with_elapsed_compute(self, t: Time) -> (r: Job) ensures r == self { self } }
impl ChanStream {
    pub fn flatten_stream(self) -> (r: ChanStream) ensures r == self { self }
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body] pub fn map_err<F: Fn(Status) -> FlightError>(self, f: F) -> (r: ChanStream) requires forall|s: Status| f.requires((s,)) ensures r.chan() == self.chan() { unimplemented!() }
    /// the message goes on as it is
    #[verifier::external_body] pub fn map_ok<F: Fn((FlightData, FlightAppMetadata, BufferedBytes)) -> FlightData>(self, f: F) -> (r: FlightStream)
        requires forall|m: (FlightData, FlightAppMetadata, BufferedBytes)| f.requires((m,)), forall|m: (FlightData, FlightAppMetadata, BufferedBytes), d: FlightData| #[trigger] f.ensures((m,), d) ==> d == m.0, ensures r.chan() == self.chan() { unimplemented!() }
}
impl FlightStream { pub uninterp spec fn chan(&self) -> int; }
/// decodes what is in the channel, message by message
pub struct FlightRecordBatchStream {}
impl FlightRecordBatchStream { #[verifier::external_body] pub fn new_from_flight_data(s: FlightStream) -> (r: BatchStream) ensures r.chan() == s.chan() { unimplemented!() } }
#[verifier::external_body] pub fn map_flight_to_datafusion_error(e: FlightError) -> DataFusionError { unimplemented!() }
impl BatchStream {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body] pub fn vx_map_err(self) -> (r: BatchStream) ensures r.chan() == self.chan() { unimplemented!() }
    #[verifier::external_body] pub fn with_elapsed_compute(self, t: Time) -> (r: BatchStream) ensures r.chan() == self.chan() { unimplemented!() }
    #[verifier::external_body] pub fn boxed(self) -> (r: BatchStream) ensures r.chan() == self.chan() { unimplemented!() }
}
#[verifier::external_body] pub fn on_drop_stream<F: FnOnce()>(s: BatchStream, f: F) -> (r: BatchStream) requires f.requires(()) ensures r.chan() == s.chan() { unimplemented!() }
#[verifier::external_body] pub struct TaskContext { _x: u8 }
#[verifier::external_body] pub struct HeaderMap { _x: u8 }
#[verifier::external_body] pub struct ExecutionPlanMetricsSet { _x: u8 }
#[verifier::external_body] pub struct TaskKey { _x: u8 }
#[verifier::external_body] pub struct ProducerHead { _x: u8 }
pub struct ExecuteTaskRequest { pub task_key: TaskKey, pub target_partition_start: usize, pub target_partition_end: usize, pub producer_head: ProducerHead }
pub uninterp spec fn key_code(k: TaskKey) -> WireKey;
pub uninterp spec fn head_code(h: ProducerHead) -> WireHead;
#[verifier::external_body] pub fn encode_task_key(k: TaskKey) -> (r: WireKey) ensures r == key_code(k) { unimplemented!() }
#[verifier::external_body] pub fn encode_producer_head(h: ProducerHead, ctx: &Arc<TaskContext>) -> (r: Result<WireHead>) ensures r is Ok ==> r->Ok_0 == head_code(h) { unimplemented!() }
pub uninterp spec fn meta_code(h: HeaderMap) -> MetadataMap;
impl Clone for MetadataMap { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl MetadataMap { #[verifier::external_body] pub fn from_headers(h: HeaderMap) -> (r: Self) ensures r == meta_code(h) { unimplemented!() } }
pub fn vx_range(r: &Range<usize>) -> (s: Range<usize>) ensures s == *r { Range { start: r.start, end: r.end } }
pub struct Cfg { pub worker_connection_buffer_budget_bytes: usize }
#[verifier::external_body] pub fn vx_config(ctx: &Arc<TaskContext>) -> Result<Cfg> { unimplemented!() }
#[verifier::external_body] pub fn vx_reservation(ctx: &Arc<TaskContext>) -> Reservation { unimplemented!() }
#[verifier::external_body] pub fn vx_gauge(m: &ExecutionPlanMetricsSet) -> Gauge { unimplemented!() }
impl Latencies { #[verifier::external_body] pub fn new(m: &ExecutionPlanMetricsSet) -> Self { unimplemented!() } }
/// the channel is there, and its reading starts what fills it
//@fn src/protocol/grpc/worker_client.rs WorkerServiceClient::execute_task@WorkerChannel#a1 as open_channel noasync
//@ sig: pub fn $name(first_poll_notify: Arc<Notify>, partition_receiver: UnboundedReceiver) -> (r: ChanStream)
//@ spec: ensures r.chan() == partition_receiver.chan(),
//@end
/// the task asked the worker for what was requested, over channels of its own
pub open spec fn asks(j: Job, c: Client, h: HeaderMap, q: ExecuteTaskRequest) -> bool {
    j.client == c && j.metadata == meta_code(h) && j.request.task_key == Some(key_code(q.task_key)) && j.request.producer_head == Some(head_code(q.producer_head))
        && j.request.target_partition_start == q.target_partition_start && j.request.target_partition_end == q.target_partition_end
        && j.range.start == q.target_partition_start && j.range.end == q.target_partition_end && j.tx@.len() == j.range.end - j.range.start && apart(j.tx@)
}
impl Client {
//@fn src/protocol/grpc/worker_client.rs WorkerServiceClient::execute_task@WorkerChannel as execute_streams
//@ sig: pub fn $name(&mut self, headers: HeaderMap, request: ExecuteTaskRequest, metrics: ExecutionPlanMetricsSet, ctx: &Arc<TaskContext>, net: &mut Net) -> (r: Result<Vec<BatchStream>>)
//@ async 0: Job { client: self_clone, request: request_for_task, metadata: metadata_for_task, tx: per_partition_tx, range: target_partition_range, cancel, first_poll: first_poll_notify_for_task, mem: mem_available_notify_for_task }
//@ async 1: open_channel(first_poll_notify, partition_receiver)
//@ subst: DistributedConfig::from_session_config($..) => vx_config(ctx)
//@ subst: unbounded_channel::<WorkerMsg>() => vx_channel(net)
//@ subst: MemoryConsumer::new("WorkerConnection").register($..) => vx_reservation(ctx)
//@ subst: MetricBuilder::new(&metrics).global_gauge($..) => vx_gauge(&metrics)
//@ subst: MetricBuilder::new(&metrics).bytes_counter($..) => vx_gauge(&metrics)
//@ subst: MetricBuilder::new(&metrics).global_counter($..) => vx_gauge(&metrics)
//@ subst: MetricBuilder::new(&metrics).build($..) => ()
//@ subst: NetworkLatencyMetrics::new($..) => Latencies::new($..)
//@ subst: let mut per_partition_tx = Vec::with_capacity($..) => let mut per_partition_tx = Vec::<UnboundedSender>::with_capacity($..)
//@ subst: let mut per_partition_rx = Vec::with_capacity($..) => let mut per_partition_rx = Vec::<UnboundedReceiver>::with_capacity($..)
//@ subst: let mut result = Vec::with_capacity($..) => let mut result = Vec::<BatchStream>::with_capacity($..)
//@ subst: target_partition_range.clone() => vx_range(&target_partition_range)
//@ subst: SpawnedTask::spawn($..) => Task::spawn(net, $..)
//@ subst: stream.map_err(map_flight_to_datafusion_error) => stream.vx_map_err()
//@ spec: requires request.target_partition_start <= request.target_partition_end, readers() == request.target_partition_end - request.target_partition_start,
//@   ensures r is Ok ==> final(net).jobs().len() == old(net).jobs().len() + 1 && final(net).jobs().drop_last() =~= old(net).jobs(),
//@     r is Ok ==> asks(final(net).jobs().last(), *old(self), headers, request),
//@     r is Ok ==> r->Ok_0@.len() == final(net).jobs().last().tx@.len(),
//@     r is Ok ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i]).chan() == final(net).jobs().last().tx@[i].chan(),
//@ loop 0: invariant it0.seq().len() == request.target_partition_end - request.target_partition_start, 0 <= it0.index() <= it0.seq().len(),
//@     per_partition_tx@.len() == it0.index(), per_partition_rx@.len() == it0.index(), apart(per_partition_tx@), fresh(per_partition_tx@, net@), net.jobs() == jobs0,
//@     forall|i: int| 0 <= i < it0.index() ==> (#[trigger] per_partition_rx@[i]).chan() == per_partition_tx@[i].chan(),
//@ ghost: let ghost jobs0 = net.jobs();
//@ loop 3: invariant 0 <= it3.index() <= it3.seq().len(), result@.len() == it3.index(), it3.seq() == rx, not_consumed_streams.initial() == readers(), forall|i: int| 0 <= i < it3.index() ==> (#[trigger] result@[i]).chan() == rx[i].chan(),
//@   before: let ghost rx = per_partition_rx@;
//@ closure 0: -
//@ closure 1: |__vx_p1_0: (FlightData, FlightAppMetadata, BufferedBytes)| -> (r: FlightData) ensures r == __vx_p1_0.0,
//@ closure 2: -
//@ loop 1: -
//@ loop 2: -
//@end
}
} // verus!
fn main() {}
