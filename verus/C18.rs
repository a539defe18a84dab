//@include lib/base.rs
//@strip watch tokio::time
verus! {
// ------------------------------------------------------------------ dependencies
#[derive(Clone, Copy)] pub struct Duration { pub nanos: u64 }
#[verifier::external_body] pub struct RecvError { _x: u8 }
#[verifier::external_body] pub struct Elapsed { _x: u8 }

/// tokio::sync::watch::Sender: `value()` is the state under its lock
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { _x: core::marker::PhantomData<T> }
/// Receiver: `saw(v)`: v is a state the channel had at some time
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Receiver<T> { _x: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Ref<T> { _x: core::marker::PhantomData<T> }
/// the future of `wait_for`, with what it resolves to
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct WaitFor<T> { _x: core::marker::PhantomData<T> }
impl<T> Sender<T> {
    pub uninterp spec fn value(&self) -> T;
    pub uninterp spec fn chan(&self) -> int;
    /// `send_modify(f)` runs f once on the state, under the lock (its argument is inlined by the extractor)
    #[verifier::external_body]
    pub fn vx_send_modify(&mut self) -> (r: &mut T)
        ensures *r == old(self).value(), final(self).value() == *final(r), final(self).chan() == old(self).chan(),
    { unimplemented!() }
}
impl<T> Receiver<T> {
    pub uninterp spec fn saw(&self, v: T) -> bool;
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body] pub fn borrow(&self) -> (r: Ref<T>) ensures self.saw(r.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn wait_for<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: WaitFor<T>)
        requires forall|v: &T| f.requires((v,)),
        ensures
            r.res() is Ok ==> old(self).saw(r.res()->Ok_0.v()) && f.ensures((&r.res()->Ok_0.v(),), true),
            forall|v: T| final(self).saw(v) == old(self).saw(v), final(self).chan() == old(self).chan(),
    { unimplemented!() }
}
impl<T> Clone for Receiver<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> WaitFor<T> { pub uninterp spec fn res(&self) -> core::result::Result<Ref<T>, RecvError>; }
impl<T> Ref<T> {
    pub uninterp spec fn v(&self) -> T;
    /// by deref, the clone of the state
    #[verifier::external_body] pub fn clone(&self) -> (r: T) ensures r == self.v() { unimplemented!() }
}
/// tokio::time::timeout: the result of the future, or `Elapsed`
#[verifier::external_body]
pub fn timeout<T>(d: Duration, f: WaitFor<T>) -> (r: core::result::Result<core::result::Result<Ref<T>, RecvError>, Elapsed>)
    ensures r is Ok ==> r->Ok_0 == f.res(),
{ unimplemented!() }
#[verifier::external_body]
pub fn channel<T>(v: T) -> (r: (Sender<T>, Receiver<T>))
    ensures r.0.value() == v, r.0.chan() == r.1.chan(),
{ unimplemented!() }
//@enum src/worker/single_write_multi_read.rs SingleWriteMultiReadError
#[verifier::reject_recursive_types(T)]
//@struct src/worker/single_write_multi_read.rs SingleWriteMultiRead
impl<T: Clone> SingleWriteMultiRead<T> {
//@fn src/worker/single_write_multi_read.rs SingleWriteMultiRead::new
//@ spec: ensures r.tx.value() is None, r.tx.chan() == r.rx.chan(),
//@end
// `&self` with the state behind the channel's lock: verified as an exclusive borrow for the one atomic step it takes
//@fn src/worker/single_write_multi_read.rs SingleWriteMultiRead::write
//@ args: item
//@ inline: send_modify
//@ sig: pub fn $name(&mut self, item: T) -> (r: Result<(), SingleWriteMultiReadError>)
//@ spec: ensures written(old(self).tx.value(), item, final(self).tx.value(), r is Ok),
//@     final(self).tx.chan() == old(self).tx.chan(), final(self).rx == old(self).rx,
//@end
//@fn src/worker/single_write_multi_read.rs SingleWriteMultiRead::read_now
//@ spec: ensures self.rx.saw(r),
//@end
//@fn src/worker/single_write_multi_read.rs SingleWriteMultiRead::read noasync
//@ closure 0: |v: &Option<T>| -> (b: bool) ensures b == (*v is Some)
//@ closure 1: |r: core::result::Result<Ref<Option<T>>, RecvError>| -> (o: core::result::Result<Option<T>, RecvError>) ensures (r is Ok ==> o is Ok && o->Ok_0 == r->Ok_0.v()) && (r is Err ==> o is Err)
//@ closure 2: |guard: Ref<Option<T>>| -> (o: Option<T>) ensures o == guard.v()
//@ spec: ensures r is Ok ==> self.rx.saw(Some(r->Ok_0)),
//@end
}
/// one write, as `write`'s contract has it
pub open spec fn written<T>(before: Option<T>, item: T, after: Option<T>, ok: bool) -> bool {
    if before is None { ok && after == Some(item) } else { !ok && after == before }
}
/// the states a cell goes through: it starts empty and changes only by `write`
pub open spec fn history<T>(h: Seq<Option<T>>, w: Seq<T>, ok: Seq<bool>) -> bool {
    h.len() == w.len() + 1 && ok.len() == w.len() && h[0] is None
    && forall|k: int| 0 <= k < w.len() ==> #[trigger] written(h[k], w[k], h[k + 1], ok[k])
}
/// every value any reader can see is the first one written, and it is the only write that succeeds
pub proof fn theorem_first_write_wins<T>(h: Seq<Option<T>>, w: Seq<T>, ok: Seq<bool>, i: int)
    requires history(h, w, ok), 0 <= i < h.len(),
    ensures i == 0 ==> h[i] is None, i > 0 ==> h[i] == Some(w[0]), i > 0 ==> ok[i - 1] == (i == 1),
    decreases i,
{
    if i > 0 { theorem_first_write_wins(h, w, ok, i - 1); assert(written(h[i - 1], w[i - 1], h[i - 1 + 1], ok[i - 1])); }
}
} // verus!
fn main() {}
