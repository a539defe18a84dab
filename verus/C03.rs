//@include lib/base.rs
//@strip crate::stage crate::worker crate::execution_plans::common crate::distributed_planner
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@type_is SendableRecordBatchStream => InputStream
//@arcclone
verus! {
// ------------------------------------------------------------------ dependencies
#[verifier::external_body] pub struct RecordBatch { _x: u8 }
impl Clone for RecordBatch { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct SchemaRef { _x: u8 }
#[verifier::external_body] pub struct EquivalenceProperties { _x: u8 }
#[verifier::external_body] pub struct Reservation { _x: u8 }
#[verifier::external_body] pub struct Pool { _x: u8 }
#[verifier::external_body] pub struct MemoryConsumer { _x: u8 }
#[verifier::external_body] pub struct TaskContext { _x: u8 }
#[verifier::external_body] pub struct RunningTask { _x: u8 }
pub enum Partitioning { UnknownPartitioning(usize), Other(usize) }
impl Partitioning {
    pub open spec fn pc(&self) -> usize { match *self { Partitioning::UnknownPartitioning(p) => p, Partitioning::Other(p) => p } }
    #[verifier::external_body]
    pub fn partition_count(&self) -> (r: usize) ensures r == self.pc() { unimplemented!() }
}
pub struct PlanProperties { pub eq_properties: EquivalenceProperties, pub partitioning: Partitioning }
impl Clone for PlanProperties { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PlanProperties {
    #[verifier::external_body]
    pub fn with_partitioning(self, partitioning: Partitioning) -> (r: PlanProperties) ensures r.eq_properties == self.eq_properties, r.partitioning == partitioning { unimplemented!() }
}
#[verifier::external_body] pub struct PlanRef { _x: u8 }
/// what partition `i` of plan `p` yields
pub uninterp spec fn output(p: PlanRef, i: int) -> Seq<Result<RecordBatch>>;
impl PlanRef {
    pub uninterp spec fn props(&self) -> PlanProperties;
    #[verifier::external_body]
    pub fn properties(&self) -> (r: &Arc<PlanProperties>) ensures **r == self.props() { unimplemented!() }
    #[verifier::external_body]
    pub fn schema(&self) -> SchemaRef { unimplemented!() }
    #[verifier::external_body]
    pub fn execute(&self, partition: usize, context: Arc<TaskContext>) -> (r: Result<InputStream>)
        ensures r is Ok ==> r->Ok_0.rest() == output(*self, partition as int) { unimplemented!() }
}
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl TaskContext { #[verifier::external_body] pub fn memory_pool(&self) -> &Arc<Pool> { unimplemented!() } }
impl MemoryConsumer {
    #[verifier::external_body] pub fn new(s: String) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn clone_with_new_id(&self) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn register(self, p: &Arc<Pool>) -> Reservation { unimplemented!() }
}
impl Reservation { #[verifier::external_body] pub fn grow(&self, n: usize) { unimplemented!() } }
impl RecordBatch { #[verifier::external_body] pub fn get_array_memory_size(&self) -> usize { unimplemented!() } }
#[verifier::external_body] pub fn vx_format() -> String { unimplemented!() }

/// a stream; `rest()` is what it will still yield
#[verifier::external_body] pub struct InputStream { _x: u8 }
impl InputStream {
    pub uninterp spec fn rest(&self) -> Seq<Result<RecordBatch>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<RecordBatch>>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first(),
    { unimplemented!() }
}
pub type Entry = core::result::Result<(RecordBatch, Arc<Reservation>), Arc<DataFusionError>>;
/// the entries shared with all the readers of one input partition carry its batches up to and including the first error
pub open spec fn matches_entry(e: Entry, m: Result<RecordBatch>) -> bool {
    match (e, m) { (Ok(x), Ok(b)) => x.0 == b, (Err(x), Err(y)) => *x == y, _ => false }
}
pub open spec fn entries_of(e: Seq<Entry>, items: Seq<Result<RecordBatch>>) -> bool {
    let n = upto_err(items);
    e.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] matches_entry(e[i], items[i])
}
/// number of items up to and including the first error
pub open spec fn upto_err(items: Seq<Result<RecordBatch>>) -> nat
    decreases items.len()
{
    if items.len() == 0 { 0 } else if items[0] is Err { 1 } else { 1 + upto_err(items.drop_first()) }
}
pub proof fn lemma_upto_err(items: Seq<Result<RecordBatch>>)
    ensures upto_err(items) <= items.len(),
    decreases items.len()
{ if items.len() > 0 { lemma_upto_err(items.drop_first()); } }

// ------------------------------------------------------------------ the queue
//@struct src/execution_plans/broadcast.rs BroadcastState
impl Clone for BroadcastState { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for BroadcastState {}
/// Arc<Mutex<Vec<T>>> as its one writer sees it
pub struct Writer<T> { pub v: Vec<T> }
impl<T> Writer<T> {
    pub fn lock(&mut self) -> (r: Locked<&mut Vec<T>>) ensures *r.v == old(self).v, final(self).v == *final(r.v) { Locked { v: &mut self.v } }
}
pub struct Locked<G> { pub v: G }
impl<G> Locked<G> { pub fn unwrap(self) -> (r: G) ensures r == self.v { self.v } }
/// watch::Sender as its one writer sees it: the value published last
#[verifier::external_body] pub struct Notify { _x: u8 }
impl Notify {
    pub uninterp spec fn cur(&self) -> BroadcastState;
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: &BroadcastState) ensures *r == self.cur() { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&mut self, Ghost(there): Ghost<nat>, s: BroadcastState) -> (r: core::result::Result<(), ()>)
        requires s.len <= there, // published lengths never exceed what is there
        ensures final(self).cur() == s { unimplemented!() }
}
pub struct BroadcastQueue<T> { pub entries: Writer<T>, pub notify: Notify }
impl<T> BroadcastQueue<T> {
    /// what is published is what is there
    pub open spec fn wf(&self) -> bool { self.notify.cur().len == self.entries.v@.len() && !self.notify.cur().closed }
//@fn src/execution_plans/broadcast.rs BroadcastQueue::push
//@ args: entry
//@ sig: pub fn $name(&mut self, entry: T)
//@ subst: self.notify.send( => self.notify.send(Ghost(self.entries.v@.len()),
//@ spec: requires old(self).wf(),
//@     ensures final(self).wf(), final(self).entries.v@ == old(self).entries.v@.push(entry),
//@end
//@fn src/execution_plans/broadcast.rs BroadcastQueue::drop@Drop as close
//@ sig: pub fn $name(&mut self)
//@ subst: self.notify.send( => self.notify.send(Ghost(self.entries.v@.len()),
//@ spec: requires old(self).wf(),
//@     ensures final(self).notify.cur() == (BroadcastState { len: old(self).entries.v@.len() as usize, closed: true }), final(self).entries.v@ == old(self).entries.v@,
//@end
}

/// the task that feeds the queue (the async block of `execute`)
//@fn src/execution_plans/broadcast.rs BroadcastExec::execute@ExecutionPlan#a0 as feed noasync
//@ sig: pub fn $name(mut stream: InputStream, queue: &mut BroadcastQueue<Entry>, pool: Arc<Pool>, real_partition: usize)
//@ spec: requires old(queue).wf(), old(queue).entries.v@.len() == 0,
//@    ensures final(queue).wf(), entries_of(final(queue).entries.v@, stream.rest()),
//@ subst: format!("BroadcastExec[{real_partition}]") => vx_format()
//@ entry: lemma_upto_err(stream.rest());
//@ loop 0: invariant_except_break queue.wf(),
//@       queue.entries.v@.len() + stream.rest().len() == items.len(), upto_err(items) <= items.len(),
//@       forall|i: int| 0 <= i < queue.entries.v@.len() ==> #[trigger] matches_entry(queue.entries.v@[i], items[i]),
//@       stream.rest() =~= items.skip(queue.entries.v@.len() as int), upto_err(items) == queue.entries.v@.len() + upto_err(stream.rest()),
//@     ensures queue.wf(), entries_of(queue.entries.v@, items),
//@     decreases stream.rest().len(),
//@ ghost: let ghost items = stream.rest();
//@end

// ------------------------------------------------------------------ a reader
/// Arc<Mutex<Vec<T>>> as a reader sees it: append-only, `hist()` is everything ever appended
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Shared<T> { _x: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Guard<T> { _x: core::marker::PhantomData<T> }
impl<T> Shared<T> {
    pub uninterp spec fn hist(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Locked<Guard<T>>)
        ensures r.v@.len() <= self.hist().len(), r.v@ == self.hist().take(r.v@.len() as int),
            // a length is published only after the entries are there (contract of `push`)
            forall|s: BroadcastState| #[trigger] published(self.hist(), s) ==> s.len <= r.v@.len(),
    { unimplemented!() }
}
impl<T> Guard<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self@.len() && *x == self@[i as int], None => i >= self@.len() } { unimplemented!() }
}
/// `s` was published by the writer of the queue whose final content is `h`
pub uninterp spec fn published<T>(h: Seq<T>, s: BroadcastState) -> bool;
/// contract of `push` and `close`, over the life of the queue: lengths never exceed what is there; a closed queue is complete
pub axiom fn axiom_published<T>(h: Seq<T>, s: BroadcastState)
    requires published(h, s),
    ensures s.len <= h.len(), s.closed ==> s.len == h.len();
pub open spec fn has_len<T>(h: Seq<T>, n: usize) -> bool { exists|s: BroadcastState| #[trigger] published(h, s) && s.len == n }
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body] pub struct Context { _x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct WatchStream<T> { _x: core::marker::PhantomData<T> }
impl<T> WatchStream<T> {
    pub uninterp spec fn hist(&self) -> Seq<T>;
    /// last state handed out, if any
    pub uninterp spec fn seen(&self) -> Option<BroadcastState>;
    #[verifier::external_body]
    pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<BroadcastState>>)
        ensures final(self).hist() == old(self).hist(),
            match r {
                Poll::Ready(Some(s)) => published(old(self).hist(), s) && final(self).seen() == Some(s),
                // the sender is gone: the last state handed out was the last one sent
                Poll::Ready(None) => final(self).seen() == old(self).seen() && old(self).seen() is Some && old(self).seen()->Some_0.len == old(self).hist().len(),
                Poll::Pending => final(self).seen() == old(self).seen(),
            }
    { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct BroadcastConsumer<T> { pub index: usize, pub entries: Shared<T>, pub notify: WatchStream<T>, pub state: BroadcastState }
impl<T: Clone> BroadcastConsumer<T> {
    pub open spec fn wf(&self) -> bool {
        &&& self.notify.hist() == self.entries.hist()
        &&& has_len(self.entries.hist(), self.state.len)
        &&& self.state.closed ==> self.state.len == self.entries.hist().len()
        &&& self.index <= self.entries.hist().len()
        &&& self.notify.seen() is Some ==> self.notify.seen()->Some_0.len == self.state.len
    }
//@fn src/execution_plans/broadcast.rs BroadcastConsumer::poll_next@Stream
//@ args: cx
//@ sig: pub fn $name(&mut self, cx: &mut Context) -> (r: Poll<Option<T>>)
//@ header: #[verifier::exec_allows_no_decreases_clause]
//@ subst: Pin::new(&mut self.notify) => self.notify
//@ spec: requires old(self).wf(),
//@     ensures final(self).entries.hist() == old(self).entries.hist(),
//@       match r {
//@         // the next entry, none skipped, none repeated
//@         Poll::Ready(Some(v)) => old(self).index < old(self).entries.hist().len() && cloned(old(self).entries.hist()[old(self).index as int], v) && final(self).index == old(self).index + 1 && final(self).wf(),
//@         // ended: everything was read
//@         Poll::Ready(None) => old(self).index == old(self).entries.hist().len(),
//@         Poll::Pending => final(self).index == old(self).index && final(self).wf(),
//@       },
//@ entry: axiom_published_all(self.entries.hist());
//@ loop 0: invariant self.index == old(self).index, self.entries.hist() == old(self).entries.hist(), self.notify.hist() == self.entries.hist(), self.index <= self.entries.hist().len(),
//@       self.notify.seen() is Some ==> self.notify.seen()->Some_0.len == self.state.len,
//@       self.state.len <= self.entries.hist().len(), self.state.closed ==> self.state.len == self.entries.hist().len(),
//@       has_len(self.entries.hist(), self.state.len),
//@   body: axiom_published_all(self.entries.hist());
//@end
}
pub proof fn axiom_published_all<T>(h: Seq<T>)
    ensures forall|s: BroadcastState| #[trigger] published(h, s) ==> s.len <= h.len() && (s.closed ==> s.len == h.len()),
{
    assert forall|s: BroadcastState| #[trigger] published(h, s) implies s.len <= h.len() && (s.closed ==> s.len == h.len()) by { axiom_published(h, s); }
}

// ------------------------------------------------------------------ the shared queue, before it is moved into its task
#[verifier::external_body] pub struct Subscribe { _x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Rx<T> { _x: core::marker::PhantomData<T> }
impl<T> Rx<T> {
    pub uninterp spec fn hist(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: &BroadcastState) ensures published(self.hist(), *r) { unimplemented!() }
}
impl<T> WatchStream<T> {
    #[verifier::external_body]
    pub fn new(rx: Rx<T>) -> (r: Self) ensures r.hist() == rx.hist(), r.seen() is None { unimplemented!() }
}
impl<T> Clone for Shared<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.hist() == self.hist() { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { _x: core::marker::PhantomData<T> }
impl<T> Sender<T> {
    pub uninterp spec fn hist(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn subscribe(&self) -> (r: Rx<T>) ensures r.hist() == self.hist() { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct SharedQueue<T> { pub entries: Shared<T>, pub notify: Sender<T> }
impl<T: Clone> SharedQueue<T> {
    pub open spec fn wf(&self) -> bool { self.notify.hist() == self.entries.hist() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.wf() { unimplemented!() }
//@fn src/execution_plans/broadcast.rs BroadcastQueue::new_consumer
//@ spec: requires self.wf(),
//@     ensures r.index == 0, r.wf(), r.entries.hist() == self.entries.hist(),
//@ entry: axiom_published_all(self.entries.hist());
//@end
}

// ------------------------------------------------------------------ the plan node
pub uninterp spec fn shared_err(e: Arc<DataFusionError>) -> DataFusionError;
impl DataFusionError {
    #[verifier::external_body]
    pub fn Shared(e: Arc<DataFusionError>) -> (r: Self) ensures r == shared_err(e) { unimplemented!() }
}
pub open spec fn unwrapped(e: Entry, r: Result<RecordBatch>) -> bool {
    match e { Ok(x) => r == Ok::<RecordBatch, DataFusionError>(x.0), Err(x) => r == Err::<RecordBatch, DataFusionError>(shared_err(x)) }
}
/// a reader as a stream of batches
#[verifier::external_body] pub struct OutStream { _x: u8 }
impl OutStream {
    pub uninterp spec fn rest(&self) -> Seq<Result<RecordBatch>>;
    #[verifier::external_body]
    pub fn inspect<F: Fn(&Result<RecordBatch>)>(self, f: F) -> (r: OutStream) ensures r == self { unimplemented!() }
}
impl BroadcastConsumer<Entry> {
    /// `StreamExt::map`: what the reader will still yield (contract of poll_next), through f
    #[verifier::external_body]
    pub fn map<F: Fn(Entry) -> Result<RecordBatch>>(self, f: F) -> (r: OutStream)
        requires self.wf(), forall|x: Entry| #[trigger] f.requires((x,)),
        ensures r.rest().len() == self.entries.hist().len() - self.index,
            forall|i: int| 0 <= i < r.rest().len() ==> f.ensures((self.entries.hist()[self.index + i],), #[trigger] r.rest()[i]),
    { unimplemented!() }
}
#[verifier::external_body] pub struct RecordBatchStreamAdapter { _x: u8 }
impl RecordBatchStreamAdapter {
    #[verifier::external_body]
    pub fn new(s: SchemaRef, x: OutStream) -> (r: OutStream) ensures r == x { unimplemented!() }
}
pub struct Box {}
impl Box { #[verifier::external_body] pub fn pin(s: OutStream) -> (r: OutStream) ensures r == s { unimplemented!() } }

/// crossbeam SegQueue: `all()` is everything pushed before it was shared; every element is popped at most once
#[verifier::external_body] pub struct SegQueue { _x: u8 }
impl SegQueue {
    pub uninterp spec fn all(&self) -> Seq<OutStream>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.all() == Seq::<OutStream>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: OutStream) ensures final(self).all() == old(self).all().push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&self) -> (r: Option<OutStream>) ensures r is Some ==> self.all().contains(r->Some_0) { unimplemented!() }
}
pub type StreamAndTask = (SegQueue, Arc<RunningTask>);
/// OnceLock: the value in it was made by this initialiser, or by the same one of an earlier call
#[verifier::external_body] pub struct OnceLock { _x: u8 }
impl OnceLock {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn get_or_init<F: FnOnce() -> core::result::Result<StreamAndTask, Arc<DataFusionError>>>(&self, f: F) -> (r: &core::result::Result<StreamAndTask, Arc<DataFusionError>>)
        requires f.requires(()),
        ensures f.ensures((), *r),
    { unimplemented!() }
}
pub struct SpawnedTask {}
impl SpawnedTask { #[verifier::external_body] pub fn spawn(t: RunningTask) -> RunningTask { unimplemented!() } }
/// the async block, once it has run: contract of `feed`
#[verifier::external_body]
pub fn feed_task(stream: InputStream, queue: SharedQueue<Entry>, pool: Arc<Pool>, real_partition: usize) -> (r: RunningTask)
    ensures entries_of(queue.entries.hist(), stream.rest())
{ unimplemented!() }

/// what each reader of `items` gets: all of them up to and including the first error, in order
pub open spec fn replays(s: OutStream, items: Seq<Result<RecordBatch>>) -> bool {
    &&& s.rest().len() == upto_err(items)
    &&& forall|i: int| 0 <= i < s.rest().len() ==> match items[i] {
            Ok(b) => #[trigger] s.rest()[i] == Ok::<RecordBatch, DataFusionError>(b),
            Err(e) => s.rest()[i] is Err && exists|x: Arc<DataFusionError>| *x == e && s.rest()[i]->Err_0 == shared_err(x),
        }
}
pub open spec fn reads_hist(s: OutStream, h: Seq<Entry>) -> bool {
    s.rest().len() == h.len() && forall|i: int| 0 <= i < h.len() ==> unwrapped(h[i], #[trigger] s.rest()[i])
}
pub open spec fn virtual_partitions(c: SegQueue, n: int, items: Seq<Result<RecordBatch>>) -> bool {
    c.all().len() == n && forall|i: int| 0 <= i < n ==> replays(#[trigger] c.all()[i], items)
}
pub proof fn lemma_reads_replay(s: OutStream, h: Seq<Entry>, items: Seq<Result<RecordBatch>>)
    requires reads_hist(s, h), entries_of(h, items),
    ensures replays(s, items),
{
    assert forall|i: int| 0 <= i < s.rest().len() implies match items[i] {
            Ok(b) => #[trigger] s.rest()[i] == Ok::<RecordBatch, DataFusionError>(b),
            Err(e) => s.rest()[i] is Err && exists|x: Arc<DataFusionError>| *x == e && s.rest()[i]->Err_0 == shared_err(x),
        } by {
        assert(unwrapped(h[i], s.rest()[i]));
        assert(matches_entry(h[i], items[i]));
    }
}

pub proof fn lemma_reads_replay_all()
    ensures forall|s: OutStream, h: Seq<Entry>, items: Seq<Result<RecordBatch>>| #[trigger] reads_hist(s, h) && #[trigger] entries_of(h, items) ==> replays(s, items),
{
    assert forall|s: OutStream, h: Seq<Entry>, items: Seq<Result<RecordBatch>>| #[trigger] reads_hist(s, h) && #[trigger] entries_of(h, items) implies replays(s, items) by { lemma_reads_replay(s, h, items); }
}

pub struct BroadcastExec { pub input: PlanRef, pub consumer_task_count: usize, pub properties: Arc<PlanProperties>, pub queues: Vec<OnceLock> }
impl BroadcastExec {
    #[verifier::external_body]
    pub fn schema(&self) -> SchemaRef { unimplemented!() }
    pub open spec fn n(&self) -> usize { self.input.props().partitioning.pc() }
    pub open spec fn wf(&self) -> bool { self.queues@.len() == self.n() && self.properties.partitioning == Partitioning::UnknownPartitioning((self.n() * self.consumer_task_count) as usize) }
//@fn src/execution_plans/broadcast.rs BroadcastExec::new
//@ args: input consumer_task_count
//@ spec: requires input.props().partitioning.pc() * consumer_task_count <= usize::MAX,
//@     ensures r.wf(), r.input == input, r.consumer_task_count == consumer_task_count,
//@ subst: BroadcastQueue::new() => SharedQueue::<Entry>::new()
//@ closure 0: -
//@end
//@fn src/execution_plans/broadcast.rs BroadcastExec::input_partition_count
//@ spec: ensures r == self.n(),
//@end
//@fn src/execution_plans/broadcast.rs BroadcastExec::execute@ExecutionPlan
//@ args: partition context
//@ sig: pub fn $name(&self, partition: usize, context: Arc<TaskContext>) -> (r: Result<OutStream>)
//@ spec: requires self.wf(), partition < self.properties.partitioning.pc(),
//@     ensures r is Ok ==> replays(r->Ok_0, output(self.input, partition as int % self.n() as int)),
//@ entry: lemma_reads_replay_all(); assert(self.n() > 0) by (nonlinear_arith) requires self.n() * self.consumer_task_count > 0;
//@ subst: BroadcastQueue::new() => SharedQueue::<Entry>::new()
//@ subst: as SendableRecordBatchStream =>
//@ subst: as InputStream =>
//@ subst: let consumers = => let mut consumers =
//@ subst: .map_err(Arc::new)? => .map_err(|e| -> (x: Arc<DataFusionError>) ensures *x == e { Arc::new(e) })?
//@ async 0: feed_task(stream, queue, pool, real_partition)
//@ closure 0: -> (r: core::result::Result<StreamAndTask, Arc<DataFusionError>>) ensures r is Ok ==> virtual_partitions(r->Ok_0.0, self.consumer_task_count as int, output(self.input, real_partition as int))
//@ closure 1: -> (r: Result<RecordBatch>) ensures unwrapped($0, r)
//@ closure 2: -
//@ loop 0: invariant queue.wf(), consumers.all().len() == $pat, forall|i: int| 0 <= i < consumers.all().len() ==> reads_hist(#[trigger] consumers.all()[i], queue.entries.hist()),
//@ loop 1: -
//@end
}
} // verus!
fn main() {}
