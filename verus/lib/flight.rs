// what travels between two tasks: Arrow Flight messages, each with the partition it is of (C05)
verus! {
#[verifier::external_body] pub fn vx_text() -> String { unimplemented!() }
// ------------------------------------------------------------------ what travels
#[verifier::external_body] pub struct Status { _x: u8 }
impl Clone for Status { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Status { #[verifier::external_body] pub fn internal(s: String) -> Status { unimplemented!() } #[verifier::external_body] pub fn invalid_argument(s: String) -> Status { unimplemented!() } }
#[verifier::external_body] pub struct DecodeError { _x: u8 }
impl DecodeError { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
/// an Arrow Flight message: what it carries, and the bytes of its application metadata
#[verifier::external_body] pub struct FlightBody { _x: u8 }
pub struct Meta { pub v: Vec<u8> }
impl Meta { pub fn as_ref(&self) -> (r: &Vec<u8>) ensures r@ == self.v@ { &self.v } pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() } }
pub struct FlightData { pub body: FlightBody, pub app_metadata: Meta }
impl FlightData {
    #[verifier::external_body] pub fn encoded_len(&self) -> usize { unimplemented!() }
    pub fn with_app_metadata(self, m: Vec<u8>) -> (r: FlightData) ensures r.body == self.body, r.app_metadata.v@ == m@ { FlightData { body: self.body, app_metadata: Meta { v: m } } }
    #[verifier::external_body] pub fn get_memory_size(&self) -> usize { unimplemented!() }
}
/// what prost reads from bytes
pub uninterp spec fn meta_of(b: Seq<u8>) -> Option<(u64, u64)>;
/// the partition a message says it is of
pub open spec fn tag(d: FlightData) -> Option<u64> { match meta_of(d.app_metadata.v@) { Some(m) => Some(m.0), None => None } }
pub type Item = Result<FlightData, Status>;
/// the messages of partition p, among those that came
pub open spec fn routed(v: Seq<Item>, p: int) -> Seq<FlightData> decreases v.len() {
    if v.len() == 0 { seq![] } else {
        let r = routed(v.drop_last(), p);
        if v.last() is Ok && tag(v.last()->Ok_0) is Some && tag(v.last()->Ok_0)->0 == p { r.push(v.last()->Ok_0) } else { r }
    }
}
/// a message that can be handed to a partition of the range
pub open spec fn fits(d: Item, lo: int, n: nat) -> bool { d is Ok && tag(d->Ok_0) is Some && lo <= tag(d->Ok_0)->0 < lo + n }
/// the messages in front of the first one that cannot
pub open spec fn stops(v: Seq<Item>, lo: int, n: nat) -> nat decreases v.len() {
    if v.len() == 0 { 0 } else if !fits(v[0], lo, n) { 0 } else { 1 + stops(v.drop_first(), lo, n) }
}
pub proof fn lemma_stops(v: Seq<Item>, lo: int, n: nat, k: int)
    requires 0 <= k <= v.len(), forall|i: int| 0 <= i < k ==> fits(#[trigger] v[i], lo, n), k < v.len() ==> !fits(v[k], lo, n),
    ensures stops(v, lo, n) == k decreases k
{
    if k > 0 {
        assert forall|i: int| 0 <= i < k - 1 implies fits(#[trigger] v.drop_first()[i], lo, n) by { assert(fits(v[i + 1], lo, n)); }
        lemma_stops(v.drop_first(), lo, n, k - 1);
    }
}
pub proof fn lemma_step(v: Seq<Item>, k: int)
    requires 0 <= k < v.len(), ensures forall|p: int| #[trigger] routed(v.take(k + 1), p) == (if v[k] is Ok && tag(v[k]->Ok_0) is Some && tag(v[k]->Ok_0)->0 == p { routed(v.take(k), p).push(v[k]->Ok_0) } else { routed(v.take(k), p) })
{ assert(v.take(k + 1).drop_last() =~= v.take(k)); }

// ------------------------------------------------------------------ many streams over one connection
/// what came from stream j, when `pick` says which stream each message is from
pub open spec fn picked<E>(v: Seq<Result<FlightData, E>>, pick: Seq<int>, j: int) -> Seq<Result<FlightData, E>> decreases v.len() {
    if v.len() == 0 { seq![] } else {
        let r = picked(v.drop_last(), pick.drop_last(), j);
        if pick.last() == j { r.push(v.last()) } else { r }
    }
}
/// v is those streams, interleaved in some order
pub open spec fn interleaves<E>(v: Seq<Result<FlightData, E>>, parts: Seq<Seq<Result<FlightData, E>>>, pick: Seq<int>) -> bool {
    pick.len() == v.len() && (forall|i: int| 0 <= i < pick.len() ==> 0 <= #[trigger] pick[i] < parts.len()) && forall|j: int| 0 <= j < parts.len() ==> picked(v, pick, j) == #[trigger] parts[j]
}
/// the same messages, errors in the same places
pub open spec fn like<E, F>(a: Seq<Result<FlightData, E>>, b: Seq<Result<FlightData, F>>) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> (a[i] is Ok) == (b[i] is Ok) && (a[i] is Ok ==> a[i]->Ok_0 == b[i]->Ok_0)
}
/// a stream's messages with the partition written on them: the bodies are the ones produced, in the order they were produced
pub open spec fn tagged<E>(raw: Seq<Result<FlightData, E>>, out: Seq<Result<FlightData, E>>, p: int) -> bool {
    raw.len() == out.len() && forall|i: int| #![trigger raw[i]] #![trigger out[i]] 0 <= i < raw.len() ==> (raw[i] is Ok) == (out[i] is Ok) && (raw[i] is Ok ==> out[i]->Ok_0.body == raw[i]->Ok_0.body && tag(out[i]->Ok_0) is Some && tag(out[i]->Ok_0)->0 == p)
}
/// every message that comes is of some stream, and carries that stream's partition
pub proof fn lemma_picked_tag<E>(v: Seq<Result<FlightData, E>>, pick: Seq<int>, j: int, i: int)
    requires pick.len() == v.len(), 0 <= i < v.len(), pick[i] == j,
    ensures exists|q: int| 0 <= q < picked(v, pick, j).len() && #[trigger] picked(v, pick, j)[q] == v[i] decreases v.len()
{
    let r = picked(v.drop_last(), pick.drop_last(), j);
    if i == v.len() - 1 { assert(picked(v, pick, j)[r.len() as int] == v[i]); }
    else { lemma_picked_tag(v.drop_last(), pick.drop_last(), j, i); let q = choose|q: int| 0 <= q < r.len() && #[trigger] r[q] == v.drop_last()[i]; assert(picked(v, pick, j)[q] == v[i]); }
}
/// routing by the partition written on a message is routing by the stream it came from
pub proof fn lemma_routed<E>(v: Seq<Result<FlightData, E>>, w: Seq<Item>, pick: Seq<int>, lo: int, j: int)
    requires like(v, w), pick.len() == v.len(), forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) is Ok && tag(w[i]->Ok_0) is Some && tag(w[i]->Ok_0)->0 == lo + pick[i],
    ensures routed(w, lo + j).len() == picked(v, pick, j).len(), forall|q: int| #![trigger routed(w, lo + j)[q]] #![trigger picked(v, pick, j)[q]] 0 <= q < routed(w, lo + j).len() ==> picked(v, pick, j)[q] is Ok && picked(v, pick, j)[q]->Ok_0 == routed(w, lo + j)[q], decreases v.len()
{
    if v.len() > 0 {
        assert forall|i: int| 0 <= i < w.drop_last().len() implies (#[trigger] w.drop_last()[i]) is Ok && tag(w.drop_last()[i]->Ok_0) is Some && tag(w.drop_last()[i]->Ok_0)->0 == lo + pick.drop_last()[i] by { assert(w[i] is Ok); }
        assert(like(v.drop_last(), w.drop_last())) by { assert forall|i: int| 0 <= i < v.len() - 1 implies (v.drop_last()[i] is Ok) == (w.drop_last()[i] is Ok) && (v.drop_last()[i] is Ok ==> v.drop_last()[i]->Ok_0 == w.drop_last()[i]->Ok_0) by { assert((v[i] is Ok) == (w[i] is Ok)); } }
        lemma_routed(v.drop_last(), w.drop_last(), pick.drop_last(), lo, j);
        let z = v.len() - 1; assert((v[z] is Ok) == (w[z] is Ok)); assert(w[z] is Ok);
        assert((w.last() is Ok && tag(w.last()->Ok_0) is Some && tag(w.last()->Ok_0)->0 == lo + j) == (pick.last() == j));
        assert forall|q: int| #![trigger routed(w, lo + j)[q]] #![trigger picked(v, pick, j)[q]] 0 <= q < routed(w, lo + j).len() implies picked(v, pick, j)[q] is Ok && picked(v, pick, j)[q]->Ok_0 == routed(w, lo + j)[q] by {
            let a = routed(w.drop_last(), lo + j); let b = picked(v.drop_last(), pick.drop_last(), j);
            if q < a.len() { assert(a[q] == routed(w, lo + j)[q]); assert(b[q] == picked(v, pick, j)[q]); }
        }
    }
}
/// C05: what the consumer hands to partition lo + j is exactly what the producer's stream j produced, in that order
pub proof fn theorem_never_mixed<E>(raw: Seq<Seq<Result<FlightData, E>>>, parts: Seq<Seq<Result<FlightData, E>>>, v: Seq<Result<FlightData, E>>, pick: Seq<int>, w: Seq<Item>, lo: int, j: int)
    requires raw.len() == parts.len(), forall|i: int| 0 <= i < parts.len() ==> tagged(raw[i], #[trigger] parts[i], lo + i), interleaves(v, parts, pick), like(v, w),
        forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) is Ok, 0 <= j < parts.len(),
    ensures stops(w, lo, parts.len()) == w.len(), routed(w, lo + j).len() == raw[j].len(), forall|q: int| 0 <= q < raw[j].len() ==> raw[j][q] is Ok && raw[j][q]->Ok_0.body == (#[trigger] routed(w, lo + j)[q]).body
{
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) is Ok && tag(w[i]->Ok_0) is Some && tag(w[i]->Ok_0)->0 == lo + pick[i] by {
        let s = pick[i]; assert(0 <= s < parts.len()); lemma_picked_tag(v, pick, s, i);
        let q = choose|q: int| 0 <= q < picked(v, pick, s).len() && #[trigger] picked(v, pick, s)[q] == v[i];
        assert(picked(v, pick, s) == parts[s]); assert(tagged(raw[s], parts[s], lo + s)); assert(parts[s][q] == v[i]); assert((v[i] is Ok) == (w[i] is Ok)); assert((raw[s][q] is Ok) == (parts[s][q] is Ok));
    }
    assert forall|i: int| 0 <= i < w.len() implies fits(#[trigger] w[i], lo, parts.len()) by { assert(0 <= pick[i] < parts.len()); }
    lemma_stops(w, lo, parts.len(), w.len() as int);
    lemma_routed(v, w, pick, lo, j);
    assert(picked(v, pick, j) == parts[j]); assert(tagged(raw[j], parts[j], lo + j));
    assert forall|q: int| 0 <= q < raw[j].len() implies raw[j][q] is Ok && raw[j][q]->Ok_0.body == (#[trigger] routed(w, lo + j)[q]).body by { assert((parts[j][q] is Ok) == (raw[j][q] is Ok)); }
}
} // verus!
