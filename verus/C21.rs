//@include lib/base.rs
//@strip std::sync futures::stream
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@type_is SendableRecordBatchStream => BoxStream
//@arcclone
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ dependencies
#[verifier::external_body] pub struct ArrayData { _x: u8 }
#[verifier::external_body] pub struct ArrayRef { _x: u8 }
#[verifier::external_body] pub struct RecordBatch { _x: u8 }
#[verifier::external_body] pub struct SchemaRef { _x: u8 }
#[verifier::external_body] pub struct TaskContext { _x: u8 }
#[verifier::external_body] pub struct Metrics { _x: u8 }
#[verifier::external_body] pub struct Gauge { _x: u8 }
#[verifier::external_body] pub struct Clock { _x: u8 }
#[verifier::external_body] pub struct Reservation { _x: u8 }
#[verifier::external_body] pub struct Timer { _x: u8 }
#[verifier::external_body] pub struct ExecutionPlanMetricsSet { _x: u8 }
#[verifier::external_body] pub struct JoinError { _x: u8 }
impl ExecutionPlanMetricsSet {
    #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> Self { unimplemented!() }
}
impl Gauge {
    #[verifier::external_body] pub fn add(&self, n: usize) { unimplemented!() }
    #[verifier::external_body] pub fn add_bytes(&self, n: usize) { unimplemented!() }
    #[verifier::external_body] pub fn set_max(&self, n: usize) { unimplemented!() }
    #[verifier::external_body] pub fn timer(&self) -> Timer { unimplemented!() }
}
impl Reservation {
    #[verifier::external_body] pub fn grow(&self, n: usize) { unimplemented!() }
    #[verifier::external_body] pub fn shrink(&self, n: usize) { unimplemented!() }
}
impl Clock { #[verifier::external_body] pub fn touch(&self) { unimplemented!() } }
/// bytes of the data a column refers to
pub uninterp spec fn col_size(a: ArrayRef) -> nat;
impl ArrayData {
    pub uninterp spec fn size(&self) -> nat;
    /// fails for types whose size arrow cannot tell: their size counts as 0
    #[verifier::external_body] pub fn get_slice_memory_size(&self) -> (r: SizeResult) ensures r.size() == self.size() { unimplemented!() }
}
pub struct SizeResult { pub r: Result<usize> }
impl SizeResult {
    pub open spec fn size(&self) -> nat { match self.r { Ok(n) => n as nat, Err(_) => 0 } }
    pub fn unwrap_or(self, d: usize) -> (r: usize) ensures r == match self.r { Ok(n) => n, Err(_) => d } { match self.r { Ok(n) => n, Err(_) => d } }
}
impl ArrayRef { #[verifier::external_body] pub fn to_data(&self) -> (r: ArrayData) ensures r.size() == col_size(*self) { unimplemented!() } }
//@fn src/execution_plans/sampler.rs column_size
//@ spec: ensures r == col_size(*arr),
//@end
impl RecordBatch {
    pub uninterp spec fn rows(&self) -> nat;
    pub uninterp spec fn cols(&self) -> Seq<ArrayRef>;
    #[verifier::external_body] pub fn num_rows(&self) -> (r: usize) ensures r == self.rows() { unimplemented!() }
    #[verifier::external_body] pub fn columns(&self) -> (r: &Vec<ArrayRef>) ensures r@ == self.cols() { unimplemented!() }
}
#[verifier::external_body] pub fn record_batch_size(b: &RecordBatch) -> usize { unimplemented!() }
pub type Item = Result<RecordBatch>;

// ------------------------------------------------------------------ figures
pub open spec fn sum(v: Seq<usize>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { sum(v.drop_last()) + v.last() as nat } }
#[verifier::external_body] pub fn vx_sum(v: Vec<usize>) -> (r: usize) requires sum(v@) <= usize::MAX, ensures r == sum(v@) { unimplemented!() }
/// rows, and bytes of column c, of the batches
pub open spec fn rows_of(v: Seq<RecordBatch>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { rows_of(v.drop_last()) + v.last().rows() } }
pub open spec fn bytes_of(v: Seq<RecordBatch>, c: int) -> nat decreases v.len() { if v.len() == 0 { 0 } else { bytes_of(v.drop_last(), c) + col_size(v.last().cols()[c]) } }
pub open spec fn shaped(v: Seq<RecordBatch>, n: nat) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).cols().len() == n }
/// rows and bytes of what is held in memory can be counted
pub open spec fn countable(v: Seq<RecordBatch>, n: nat) -> bool {
    shaped(v, n) && rows_of(v) <= usize::MAX && (forall|c: int| 0 <= c < n ==> #[trigger] bytes_of(v, c) <= usize::MAX)
}
pub proof fn lemma_fewer(v: Seq<RecordBatch>, n: nat, k: int)
    requires countable(v, n), 0 <= k <= v.len(), ensures countable(v.take(k), n) decreases v.len() - k
{
    if k == v.len() { assert(v.take(k) =~= v); } else {
        lemma_fewer(v, n, k + 1);
        assert(v.take(k + 1).drop_last() =~= v.take(k));
        let w = v.take(k + 1);
        assert forall|c: int| 0 <= c < n implies #[trigger] bytes_of(v.take(k), c) <= usize::MAX by { assert(bytes_of(w, c) <= usize::MAX); }
    }
}
pub proof fn lemma_sum_rows(v: Seq<RecordBatch>, s: Seq<usize>)
    requires v.len() == s.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] s[i] == v[i].rows(), ensures sum(s) == rows_of(v) decreases v.len()
{ if v.len() > 0 { lemma_sum_rows(v.drop_last(), s.drop_last()); } }

// ------------------------------------------------------------------ streams
/// something that yields items, and then ends
pub trait Flow: Sized {
    spec fn items(&self) -> Seq<Item>;
}
/// `StreamExt::chain`, `StreamExt::boxed`
pub struct Chain<A, B> { pub a: A, pub b: B }
impl<A: Flow, B: Flow> Flow for Chain<A, B> { open spec fn items(&self) -> Seq<Item> { self.a.items() + self.b.items() } }
#[verifier::external_body] pub struct BoxStream { _x: u8 }
impl BoxStream { pub uninterp spec fn out(&self) -> Seq<Item>; }
impl Flow for BoxStream { open spec fn items(&self) -> Seq<Item> { self.out() } }
pub trait FlowExt: Flow {
    fn chain<B: Flow>(self, b: B) -> (r: Chain<Self, B>) ensures r.items() == self.items() + b.items();
    fn boxed(self) -> (r: BoxStream) ensures r.items() == self.items();
}
impl<A: Flow> FlowExt for A {
    #[verifier::external_body] fn chain<B: Flow>(self, b: B) -> (r: Chain<Self, B>) { unimplemented!() }
    #[verifier::external_body] fn boxed(self) -> (r: BoxStream) { unimplemented!() }
}
#[verifier::external_body] pub struct Iter { _x: u8 }
impl Iter { pub uninterp spec fn out(&self) -> Seq<Item>; }
impl Flow for Iter { open spec fn items(&self) -> Seq<Item> { self.out() } }
pub mod stream { use super::*; verus! {
#[verifier::external_body] pub fn iter(v: Vec<Item>) -> (r: Iter) ensures r.items() == v@ { unimplemented!() }
} }
/// a fused stream of the input; `rest()` is what it will still yield
#[verifier::external_body] pub struct Fused { _x: u8 }
impl Fused {
    pub uninterp spec fn rest(&self) -> Seq<Item>;
    /// the next of `ready_chunks`: what is ready, at least one item, unless there is none left
    #[verifier::external_body] pub fn vx_next_chunk(&mut self, limit: usize) -> (r: Option<Vec<Item>>)
        ensures match r {
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(v) => 0 < v@.len() <= limit && old(self).rest() == v@ + final(self).rest(),
        } { unimplemented!() }
    /// it said that there is nothing left
    #[verifier::external_body] pub fn is_terminated(&self) -> (r: bool) ensures r ==> self.rest().len() == 0 { unimplemented!() }
}
impl Flow for Fused { open spec fn items(&self) -> Seq<Item> { self.rest() } }
impl BoxStream { #[verifier::external_body] pub fn fuse(self) -> (r: Fused) ensures r.rest() == self.items() { unimplemented!() } }
/// `v.iter().take_while(is_ok).count()`
#[verifier::external_body] pub fn vx_count_ok(v: &Vec<Item>) -> (r: usize)
    ensures r <= v@.len(), forall|i: int| 0 <= i < r ==> (#[trigger] v@[i]) is Ok, r < v@.len() ==> v@[r as int] is Err { unimplemented!() }
pub open spec fn oks(v: Seq<RecordBatch>) -> Seq<Item> { v.map_values(|b: RecordBatch| -> Item { Ok(b) }) }
pub open spec fn values(v: Seq<Item>) -> Seq<RecordBatch> { v.map_values(|b: Item| b->Ok_0) }
/// the batches before the first error
pub open spec fn good(v: Seq<Item>) -> Seq<RecordBatch> decreases v.len() {
    if v.len() > 0 && v[0] is Ok { seq![v[0]->Ok_0] + good(v.drop_first()) } else { seq![] }
}
pub proof fn lemma_good(v: Seq<Item>, k: int)
    requires 0 <= k <= v.len(), forall|i: int| 0 <= i < k ==> (#[trigger] v[i]) is Ok, ensures good(v).len() >= k, good(v).take(k) =~= values(v.take(k)) decreases k
{
    if k > 0 {
        assert forall|i: int| 0 <= i < k - 1 implies (#[trigger] v.drop_first()[i]) is Ok by { assert(v[i + 1] is Ok); }
        lemma_good(v.drop_first(), k - 1);
        assert(good(v) == seq![v[0]->Ok_0] + good(v.drop_first()));
        assert forall|i: int| 0 <= i < k implies good(v).take(k)[i] == values(v.take(k))[i] by {
            if i > 0 { assert(good(v.drop_first()).take(k - 1)[i - 1] == values(v.drop_first().take(k - 1))[i - 1]); }
        }
    }
}

// ------------------------------------------------------------------ the buffer
pub struct VecDeque<T> { pub v: Vec<T> }
impl<T> VecDeque<T> {
    pub fn new() -> (r: Self) ensures r.v@.len() == 0 { VecDeque { v: Vec::new() } }
    #[verifier::external_body] pub fn reserve(&mut self, n: usize) ensures final(self).v@ == old(self).v@ { unimplemented!() }
    pub fn push_back(&mut self, t: T) ensures final(self).v@ == old(self).v@.push(t) { self.v.push(t) }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v@.len() == 0) { self.v.len() == 0 }
    pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self).v@.len() == 0 ==> r is None && final(self).v@ == old(self).v@,
            old(self).v@.len() > 0 ==> r == Some(old(self).v@[0]) && final(self).v@ == old(self).v@.drop_first() { unimplemented!() }
}
pub enum Poll<T> { Ready(T), Pending }
pub struct RecordBatchPeek { pub peek: VecDeque<RecordBatch>, pub n_cols: usize, pub max_batches_peeked: Gauge, pub max_mem_used: Gauge, pub memory_reservation: Arc<Reservation>, pub first_batch_at: Arc<Clock> }
impl Flow for RecordBatchPeek { open spec fn items(&self) -> Seq<Item> { oks(self.peek.v@) } }
impl RecordBatchPeek {
    pub open spec fn counts(&self) -> bool { countable(self.peek.v@, self.n_cols as nat) }
//@fn src/execution_plans/sampler.rs RecordBatchPeek::reserve
//@ spec: ensures final(self).peek.v@ == old(self).peek.v@, final(self).n_cols == old(self).n_cols,
//@end
//@fn src/execution_plans/sampler.rs RecordBatchPeek::push
//@ subst: let _ = self.first_batch_at.set(Instant::now()) => self.first_batch_at.touch()
//@ spec: ensures final(self).peek.v@ == old(self).peek.v@.push(batch), final(self).n_cols == old(self).n_cols,
//@end
//@fn src/execution_plans/sampler.rs RecordBatchPeek::rows_ready
//@ subst: self.peek.iter().map($..).sum() => { let v: Vec<usize> = self.peek.v.iter().map($..).collect(); proof { lemma_sum_rows(self.peek.v@, v@); } vx_sum(v) }
//@ closure 0: |batch: &RecordBatch| -> (n: usize) ensures n == batch.rows()
//@ spec: requires self.counts(),
//@   ensures r == rows_of(self.peek.v@),
//@end
//@fn src/execution_plans/sampler.rs RecordBatchPeek::per_col_bytes_ready
//@ subst: self.peek.iter() => self.peek.v.iter()
//@ subst: batch.columns().iter().enumerate() => vx_enum_ref(batch.columns())
//@ ghost: assert(self.peek.v@.take(self.peek.v@.len() as int) =~= self.peek.v@); assert(self.peek.v@.take(0).len() == 0);
//@ subst: vec![0; self.n_cols] => vec![0usize; self.n_cols]
//@ spec: requires self.counts(),
//@   ensures r@.len() == self.n_cols, forall|c: int| 0 <= c < r@.len() ==> #[trigger] r@[c] == bytes_of(self.peek.v@, c),
//@ loop 0: invariant self.counts(), result@.len() == self.n_cols, it0.seq().len() == self.peek.v@.len(), 0 <= it0.index() <= it0.seq().len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.peek.v@[i],
//@     forall|c: int| 0 <= c < result@.len() ==> #[trigger] result@[c] == bytes_of(self.peek.v@.take(it0.index() as int), c),
//@   ghost: let ghost before = self.peek.v@.take(it0.index() as int); let ghost upto = self.peek.v@.take(it0.index() + 1);
//@   body: lemma_fewer(self.peek.v@, self.n_cols as nat, it0.index() + 1); assert(upto.drop_last() =~= before); assert(upto.last() == *batch); assert(countable(upto, self.n_cols as nat));
//@ loop 1: invariant self.counts(), result@.len() == self.n_cols, it1.seq().len() == self.n_cols, 0 <= it1.index() <= it1.seq().len(), batch.cols().len() == self.n_cols, forall|i: int| 0 <= i < it1.seq().len() ==> #[trigger] it1.seq()[i] == (i as usize, &batch.cols()[i]),
//@     upto.len() > 0, upto.drop_last() == before, upto.last() == *batch, countable(upto, self.n_cols as nat),
//@     forall|c: int| 0 <= c < result@.len() ==> #[trigger] result@[c] == (if c < it1.index() { bytes_of(upto, c) } else { bytes_of(before, c) }),
//@   body: assert(bytes_of(upto, i as int) <= usize::MAX);
//@end
    #[verifier::external_body] pub fn per_col_ndv(&self) -> (r: Vec<f32>) { unimplemented!() }
    #[verifier::external_body] pub fn per_col_null_pct(&self) -> (r: Vec<f32>) { unimplemented!() }
/// what is read from the buffer is what was put into it
//@fn src/execution_plans/sampler.rs RecordBatchPeek::poll_next@Stream as poll_next
//@ sig: pub fn $name(&mut self) -> (r: Poll<Option<Item>>)
//@ subst: self.as_mut().peek => self.peek
//@ spec: ensures match r {
//@     Poll::Ready(None) => old(self).items().len() == 0 && final(self).items().len() == 0,
//@     Poll::Ready(Some(x)) => old(self).items() =~= seq![x] + final(self).items(),
//@     Poll::Pending => false,
//@   },
//@end
}

// ------------------------------------------------------------------ what is reported
//@struct src/protocol/worker_channel.rs LoadInfo
#[verifier::external_body] pub struct Sender { _x: u8 }
#[verifier::external_body] pub struct Receiver { _x: u8 }
#[verifier::external_body] pub struct Flag { _x: u8 }
pub enum Ordering { Relaxed }
impl Flag {
    /// once it is set it stays so
    pub uninterp spec fn seen(&self) -> bool;
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> (r: bool) ensures r ==> self.seen() { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, b: bool, o: Ordering) { unimplemented!() }
}
pub struct LoadInfoDropHandler { pub omit: Arc<Flag>, pub plan: PlanRef, pub load_info: LoadInfo, pub bytes_ready_metric: Gauge, pub sampling_tx: Option<Sender>, pub load_info_sent_at: Arc<Clock> }
/// `vec_cast` from usize to usize
#[verifier::external_body] pub fn vec_cast(v: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@ { unimplemented!() }
/// `bytes_ready.iter().sum()`, into a metric only
#[verifier::external_body] pub fn vx_total(v: &Vec<usize>) -> usize { unimplemented!() }
/// the figures say what is in the buffer
pub open spec fn tells(i: LoadInfo, p: RecordBatchPeek) -> bool {
    &&& i.rows_ready == rows_of(p.peek.v@)
    &&& i.per_column_bytes_ready@.len() == p.n_cols && forall|c: int| 0 <= c < p.n_cols ==> #[trigger] i.per_column_bytes_ready@[c] == bytes_of(p.peek.v@, c)
}
impl LoadInfoDropHandler {
    pub open spec fn same(&self, o: &Self) -> bool { self.omit == o.omit && self.plan == o.plan && self.load_info.partition == o.load_info.partition && self.load_info.reached_eos == o.load_info.reached_eos }
//@fn src/execution_plans/sampler.rs LoadInfoDropHandler::set_per_col_bytes_ready
//@ subst: bytes_ready.iter().sum() => vx_total(&bytes_ready)
//@ spec: ensures final(self).same(old(self)), final(self).load_info.rows_ready == old(self).load_info.rows_ready, final(self).load_info.per_column_bytes_ready@ == bytes_ready@,
//@end
//@fn src/execution_plans/sampler.rs LoadInfoDropHandler::set_rows_ready
//@ spec: ensures final(self).same(old(self)), final(self).load_info.per_column_bytes_ready == old(self).load_info.per_column_bytes_ready, final(self).load_info.rows_ready == rows_ready,
//@end
//@fn src/execution_plans/sampler.rs LoadInfoDropHandler::set_per_col_ndv
//@ spec: ensures final(self).same(old(self)), final(self).load_info.per_column_bytes_ready == old(self).load_info.per_column_bytes_ready, final(self).load_info.rows_ready == old(self).load_info.rows_ready,
//@end
//@fn src/execution_plans/sampler.rs LoadInfoDropHandler::set_per_col_null_pct
//@ spec: ensures final(self).same(old(self)), final(self).load_info.per_column_bytes_ready == old(self).load_info.per_column_bytes_ready, final(self).load_info.rows_ready == old(self).load_info.rows_ready,
//@end
/// `self` is dropped, and so sent, when this returns
//@fn src/execution_plans/sampler.rs LoadInfoDropHandler::report
//@ sig: pub fn $name(&mut self, peek: &RecordBatchPeek)
//@ spec: requires peek.counts(),
//@   ensures final(self).same(old(self)), final(self).omit.seen() || tells(final(self).load_info, *peek),
//@end
}
//@fn src/execution_plans/sampler.rs zero_load_info
//@ subst: vec![0; n_cols] => vec![0usize; n_cols]
//@ subst: vec![0.0; n_cols] => vx_zeros(n_cols)
//@ spec: ensures r.partition == partition_idx, r.rows_ready == 0, !r.reached_eos, r.per_column_bytes_ready@.len() == n_cols, forall|c: int| 0 <= c < n_cols ==> #[trigger] r.per_column_bytes_ready@[c] == 0,
//@end
#[verifier::external_body] pub fn vx_zeros(n: usize) -> Vec<f32> { unimplemented!() }

// ------------------------------------------------------------------ sampling one partition
#[verifier::external_body] pub struct PlanRef { _x: u8 }
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// what partition p of the input yields
pub uninterp spec fn output(p: PlanRef, i: int) -> Seq<Item>;
impl PlanRef {
    pub uninterp spec fn width(&self) -> nat;
    pub uninterp spec fn parts(&self) -> nat;
    #[verifier::external_body] pub fn schema(&self) -> (r: SchemaRef) { unimplemented!() }
    #[verifier::external_body] pub fn vx_width(&self) -> (r: usize) ensures r == self.width() { unimplemented!() }
    #[verifier::external_body] pub fn vx_parts(&self) -> (r: usize) ensures r == self.parts() { unimplemented!() }
    #[verifier::external_body] pub fn execute(&self, partition: usize, context: Arc<TaskContext>) -> (r: Result<BoxStream>)
        ensures r is Ok ==> r->Ok_0.items() == output(*self, partition as int) && countable(good(r->Ok_0.items()), self.width()) { unimplemented!() }
}
/// At the report: the figures are those of the batches handed on so far, and "finished" is said only if nothing is left
pub fn vx_reported(r: &LoadInfoDropHandler, peek: &RecordBatchPeek, Ghost(i): Ghost<(nat, Seq<Item>, Seq<Item>)>)
    requires r.omit.seen() || tells(r.load_info, *peek),
        r.load_info.partition == i.0, peek.items() + i.2 =~= i.1,
        r.load_info.reached_eos ==> peek.items() =~= i.1,
{ }
//@fn src/execution_plans/sampler.rs PartitionSampler::kick_off#a0 as sample noasync
//@ sig: pub fn $name(mut input_stream: Fused, mut reporter: LoadInfoDropHandler, mut peek: RecordBatchPeek, elapsed_compute: Gauge, first_batch_at: Arc<Clock>) -> (r: Result<BoxStream>)
//@ spec: requires peek.peek.v@.len() == 0, countable(good(input_stream.rest()), peek.n_cols as nat), !reporter.load_info.reached_eos,
//@   ensures r is Ok, r->Ok_0.items() =~= input_stream.rest(),
//@ ghost: let ghost all = input_stream.rest(); let ghost n = peek.n_cols as nat; let ghost at = reporter.load_info.partition as nat; proof { lemma_fewer(good(all), n, 0); assert(good(all).take(0) =~= peek.peek.v@); }
//@ subst: (&mut input_stream).ready_chunks(READY_CHUNK_LIMIT).next() => input_stream.vx_next_chunk(READY_CHUNK_LIMIT)
//@ subst: batches.iter().take_while($..).count() => vx_count_ok(&batches)
//@ subst: first_batch_at.get_or_init(Instant::now) => first_batch_at.touch(); let ghost chunk = batches@; proof { assert(chunk + rest@ + input_stream.rest() =~= all); assert forall|i: int| 0 <= i < chunk.len() implies (#[trigger] all[i]) is Ok by { assert(all[i] == chunk[i]); } assert(chunk.take(chunk.len() as int) =~= chunk); assert(all.take(chunk.len() as int) =~= chunk); lemma_good(all, chunk.len() as int); lemma_fewer(good(all), n, chunk.len() as int); assert(oks(values(chunk)) =~= chunk); assert(all.skip(chunk.len() as int) =~= rest@ + input_stream.rest()); }
//@ subst: reporter.report(&peek) => reporter.report(&peek); vx_reported(&reporter, &peek, Ghost((at, all, all.skip(peek.items().len() as int))))
//@ loop 0: invariant it0.seq() == chunk, 0 <= it0.index() <= it0.seq().len(), forall|i: int| 0 <= i < chunk.len() ==> (#[trigger] chunk[i]) is Ok, peek.n_cols == n,
//@     peek.peek.v@ =~= values(chunk.take(it0.index() as int)),
//@ closure 0: -
//@end
pub const READY_CHUNK_LIMIT: usize = 1024 * 1024;
/// the task that samples, once joined
#[verifier::external_body] pub struct SpawnedTask { _x: u8 }
pub type Joined = core::result::Result<Result<BoxStream>, JoinError>;
impl SpawnedTask {
    pub uninterp spec fn out(&self) -> Joined;
    /// it ends with what the block ends with, unless it panics or is cancelled
    #[verifier::external_body] pub fn spawn(t: Result<BoxStream>) -> (r: SpawnedTask) ensures r.out() is Ok ==> r.out()->Ok_0 == t { unimplemented!() }
    #[verifier::external_body] pub fn vx_join(self) -> (r: Joined) ensures r == self.out() { unimplemented!() }
}
impl JoinError { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
impl DataFusionError { #[allow(non_snake_case)] #[verifier::external_body] pub fn Internal(s: String) -> DataFusionError { unimplemented!() } }
//@fn src/execution_plans/sampler.rs PartitionSampler::kick_off#a1 as join noasync
//@ sig: pub fn $name(task: Joined) -> (r: Result<BoxStream>)
//@ spec: ensures task is Ok ==> r == task->Ok_0, task is Err ==> r is Err,
//@ closure 0: -
//@end
/// a future that gives a stream, as a stream
pub struct Lazy { pub f: Result<BoxStream> }
impl Lazy {
    pub fn of(f: Result<BoxStream>) -> (r: Lazy) ensures r.f == f { Lazy { f } }
    #[verifier::external_body] pub fn try_flatten_stream(self) -> (r: BoxStream)
        ensures self.f is Ok ==> r.items() == self.f->Ok_0.items(), self.f is Err ==> r.items() == seq![Item::Err(self.f->Err_0)] { unimplemented!() }
}
/// the stream passes on what partition `p` of the input yields, or the task that samples it broke down
pub open spec fn passes_on(s: BoxStream, input: PlanRef, p: int) -> bool { s.items() == output(input, p) || s.items().len() == 1 && s.items()[0] is Err }
/// Mutex<Option<stream>>: streams put into it are those of one partition of one input (checked where one is put)
#[verifier::external_body] pub struct Slot { _x: u8 }
#[verifier::external_body] pub struct SlotGuard { _x: u8 }
impl Slot {
    pub uninterp spec fn of(&self) -> (PlanRef, int);
    #[verifier::external_body] pub fn empty(Ghost(of): Ghost<(PlanRef, int)>) -> (r: Slot) ensures r.of() == of { unimplemented!() }
    #[verifier::external_body] pub fn lock(&self) -> (r: SlotGuard) ensures r.of() == self.of() { unimplemented!() }
}
impl SlotGuard {
    pub uninterp spec fn of(&self) -> (PlanRef, int);
    pub fn unwrap(self) -> (r: Self) ensures r == self { self }
    pub fn expect(self, s: &str) -> (r: Self) ensures r == self { self }
    #[verifier::external_body] pub fn replace(self, s: BoxStream) requires passes_on(s, self.of().0, self.of().1) { unimplemented!() }
    #[verifier::external_body] pub fn take(self) -> (r: Option<BoxStream>) ensures r is Some ==> passes_on(r->0, self.of().0, self.of().1) { unimplemented!() }
}
pub struct SamplerMetrics { pub kick_off_to_fist_batch_p50: Latency, pub kick_off_to_fist_batch_max: Latency, pub kick_off_to_load_info_sent_p50: Latency, pub kick_off_to_load_info_sent_max: Latency,
    pub kick_off_to_execution_p50: Latency, pub kick_off_to_execution_max: Latency, pub max_batches_peeked: Gauge, pub max_mem_used: Gauge, pub bytes_ready: Gauge, pub elapsed_compute: Gauge }
impl Gauge { #[verifier::external_body] pub fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body] pub struct Latency { _x: u8 }
#[verifier::external_body] pub struct Instant { _x: u8 }
#[verifier::external_body] pub struct Delay { _x: u8 }
impl Copy for Delay {} impl Clone for Delay { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for Instant {} impl Clone for Instant { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Latency { #[verifier::external_body] pub fn add_duration(&self, d: Delay) { unimplemented!() } }
impl Instant {
    #[verifier::external_body] pub fn saturating_duration_since(&self, i: Instant) -> Delay { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> Delay { unimplemented!() }
}
impl Clock { #[verifier::external_body] pub fn get(&self) -> Option<&Instant> { unimplemented!() } #[verifier::external_body] pub fn new() -> Self { unimplemented!() } }
#[verifier::external_body] pub fn vx_metrics(s: &ExecutionPlanMetricsSet) -> (r: Arc<SamplerMetrics>) { unimplemented!() }
#[verifier::external_body] pub fn vx_flag() -> (r: Arc<Flag>) { unimplemented!() }
pub mod oneshot { use super::*; verus! { #[verifier::external_body] pub fn channel() -> (Sender, Receiver) { unimplemented!() } } }
#[verifier::external_body] pub fn vx_reservation(ctx: &Arc<TaskContext>) -> Arc<Reservation> { unimplemented!() }
#[verifier::external_body] pub fn vx_adapter(schema: SchemaRef, s: BoxStream) -> (r: BoxStream) ensures r.items() == s.items() { unimplemented!() }
pub struct PartitionSampler { pub partition_idx: usize, pub input: PlanRef, pub stream: Slot, pub execution_started: Arc<Flag>, pub metrics: Arc<SamplerMetrics>, pub kick_off_at: Arc<Clock>, pub first_batch_at: Arc<Clock>, pub load_info_sent_at: Arc<Clock> }
impl PartitionSampler {
    pub open spec fn wf(&self) -> bool { self.stream.of() == (self.input, self.partition_idx as int) }
//@fn src/execution_plans/sampler.rs PartitionSampler::start_stream
//@ subst: self.stream.lock().unwrap().take() => self.stream.lock().take()
//@ spec: requires self.wf(),
//@   ensures r is Some ==> passes_on(r->0, self.input, self.partition_idx as int),
//@end
//@fn src/execution_plans/sampler.rs PartitionSampler::kick_off
//@ sig: pub fn $name(&self, ctx: Arc<TaskContext>) -> (r: Result<Receiver>)
//@ spec: requires self.wf(),
//@ subst: let _ = self.kick_off_at.set(Instant::now()); => self.kick_off_at.touch();
//@ subst: self.input.schema().fields.len() => self.input.vx_width()
//@ subst: MemoryConsumer::new($..).register(ctx.memory_pool()) => vx_reservation(&ctx)
//@ subst: Arc::new(vx_reservation(&ctx),) => vx_reservation(&ctx)
//@ subst: Box::pin(RecordBatchStreamAdapter::new(schema, stream)) => vx_adapter(schema, stream)
//@ async 0: sample(input_stream, reporter, peek, elapsed_compute, first_batch_at)
//@ async 1: Lazy::of(join(task.vx_join()))
//@ closure 0: -
//@ loop 0: -
//@ closure 1: -
//@end
}
pub struct SamplerExec { pub input: PlanRef, pub metric_set: ExecutionPlanMetricsSet, pub partition_samplers: Vec<PartitionSampler>, pub execution_started: Arc<Flag> }
impl SamplerExec {
    /// one sampler per partition of the input
    pub open spec fn wf(&self) -> bool {
        &&& self.partition_samplers@.len() == self.input.parts()
        &&& forall|i: int| 0 <= i < self.partition_samplers@.len() ==> (#[trigger] self.partition_samplers@[i]).wf() && self.partition_samplers@[i].partition_idx == i && self.partition_samplers@[i].input == self.input
    }
//@fn src/execution_plans/sampler.rs SamplerExec::new
//@ subst: let metrics: Arc<LazyLock<_, Box<dyn FnOnce() -> SamplerExecMetrics + Send>>> = Arc::new($..) => let metrics = vx_metrics(&metric_set_clone)
//@ subst: input.properties().partitioning.partition_count() => input.vx_parts()
//@ subst: Arc::new(AtomicBool::new(false)) => vx_flag()
//@ subst: Vec::with_capacity(partitions) => Vec::<PartitionSampler>::with_capacity(partitions)
//@ subst: stream: Mutex::new(None) => stream: Slot::empty(Ghost((input, i as int)))
//@ subst: OnceLock::new() => Clock::new()
//@ spec: ensures r.wf(), r.input == input,
//@ closure 0: -
//@ loop 0: invariant it0.seq().len() == partitions, 0 <= it0.index() <= it0.seq().len(), forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] it0.seq()[i] == i, samplers@.len() == it0.index(), partitions == input.parts(),
//@    forall|i: int| 0 <= i < samplers@.len() ==> (#[trigger] samplers@[i]).wf() && samplers@[i].partition_idx == i && samplers@[i].input == input,
//@end
//@fn src/execution_plans/sampler.rs SamplerExec::execute@ExecutionPlan
//@ spec: requires self.wf(),
//@   ensures r is Ok ==> partition < self.input.parts() && passes_on(r->Ok_0, self.input, partition as int),
//@end
}
/// What a sampled partition yields once it was kicked off is what its input yields.
pub fn theorem_sampling_changes_nothing(input: PlanRef, partition: usize, ctx: Arc<TaskContext>) -> (r: Result<BoxStream>)
    requires partition < input.parts(),
    ensures r is Ok ==> passes_on(r->Ok_0, input, partition as int),
{
    let e = SamplerExec::new(input);
    let rx = e.partition_samplers[partition].kick_off(Arc::clone(&ctx))?;
    e.execute(partition, ctx)
}
/// The figures count what is handed on, once.
pub fn theorem_figures(mut reporter: LoadInfoDropHandler, peek: RecordBatchPeek) -> (r: LoadInfoDropHandler)
    requires peek.counts(), ensures r.omit.seen() || tells(r.load_info, peek)
{ reporter.report(&peek); reporter }
} // verus!
fn main() {}
