//@include lib/base.rs
//@arcclone
/// error texts
macro_rules! format { ($($t:tt)*) => { vx_text() } }
verus! {
#[verifier::external_body] pub fn vx_text() -> String { unimplemented!() }
pub type Str = Seq<char>;
// ------------------------------------------------------------------ names
/// header names are case-insensitive: kept in lower case, character by character
pub uninterp spec fn lc(c: char) -> char;
pub open spec fn low(s: Str) -> Str { s.map_values(|c: char| lc(c)) }
pub uninterp spec fn reserved() -> Str;
/// the dot is the only character whose lower case is the dot; the reserved prefix is in lower case
pub axiom fn axiom_lower() ensures forall|c: char| #![trigger lc(c)] (lc(c) == '.' <==> c == '.') && lc(lc(c)) == lc(c), low(reserved()) == reserved();
pub open spec fn dot() -> Str { seq!['.'] }
/// the header name of option `key` of the extension `prefix`
pub open spec fn header(prefix: Str, key: Str) -> Str { low(reserved() + prefix + dot() + key) }
pub open spec fn plain(p: Str) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] != '.' }
pub open spec fn starts(s: Str, p: Str) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
#[verifier::external_body] pub fn vx_strip_prefix<'a>(s: &'a str, p: &String) -> (r: Option<&'a str>)
    ensures match r { Some(t) => s@ == p@ + t@, None => !starts(s@, p@) } { unimplemented!() }
#[verifier::external_body] pub fn vx_starts(s: &str) -> (r: bool) ensures r == starts(s@, reserved()) { unimplemented!() }
#[verifier::external_body] pub fn vx_prefix_of<T: ConfigExtension>() -> (r: String) ensures r@ == reserved() + T::pre() + dot() { unimplemented!() }
#[verifier::external_body] pub fn vx_low(s: String) -> (r: String) ensures r@ == low(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_low_of(s: &String) -> (r: String) ensures r@ == low(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_header(prefix: &'static str, key: &String) -> (r: String) ensures r@ == reserved() + prefix@ + dot() + key@ { unimplemented!() }
#[verifier::external_body] pub fn parse_err<E>(e: E) -> DataFusionError { unimplemented!() }
// ------------------------------------------------------------------ headers
impl DataFusionError { #[allow(non_snake_case)] #[verifier::external_body] pub fn Configuration(s: String) -> DataFusionError { unimplemented!() } }
pub struct InvalidHeader {}
#[verifier::external_body] pub struct HeaderName { _x: u8 }
impl HeaderName {
    pub uninterp spec fn n(&self) -> Str;
    #[verifier::external_body] pub fn from_str(s: &String) -> (r: Result<HeaderName, InvalidHeader>) ensures r is Ok ==> r->Ok_0.n() == low(s@) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.n(), low(r@) == r@ { unimplemented!() }
}
#[verifier::external_body] pub struct HeaderValue { _x: u8 }
impl HeaderValue {
    pub uninterp spec fn v(&self) -> Str;
    #[verifier::external_body] pub fn vx_parse(s: &String) -> (r: Result<HeaderValue, InvalidHeader>) ensures r is Ok ==> r->Ok_0.v() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Result<&str, InvalidHeader>) ensures r is Ok ==> r->Ok_0@ == self.v() { unimplemented!() }
}
#[verifier::external_body] pub struct HeaderMap { _x: u8 }
/// (name, value) pairs
impl HeaderMap {
    pub uninterp spec fn has(&self, n: Str, v: Str) -> bool;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures forall|n: Str, v: Str| !(#[trigger] r.has(n, v)) { unimplemented!() }
    /// replaces what had that name
    #[verifier::external_body] pub fn insert(&mut self, n: HeaderName, v: HeaderValue)
        ensures forall|a: Str, b: Str| #[trigger] final(self).has(a, b) <==> (a == n.n() && b == v.v() || a != n.n() && old(self).has(a, b)) { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: Vec<(&HeaderName, &HeaderValue)>)
        ensures self.lists(r@) { unimplemented!() }
    #[verifier::external_body] pub fn keys(&self) -> (r: Vec<HeaderName>) ensures self.names(r@) { unimplemented!() }
    pub open spec fn lists(&self, hs: Seq<(&HeaderName, &HeaderValue)>) -> bool {
        &&& forall|i: int| 0 <= i < hs.len() ==> self.has((#[trigger] hs[i]).0.n(), hs[i].1.v())
        &&& forall|a: Str, b: Str| #[trigger] self.has(a, b) ==> exists|i: int| 0 <= i < hs.len() && pair_is(#[trigger] hs[i], a, b)
    }
    pub open spec fn names(&self, hs: Seq<HeaderName>) -> bool { forall|a: Str, b: Str| #[trigger] self.has(a, b) ==> exists|i: int| 0 <= i < hs.len() && (#[trigger] hs[i]).n() == a }
    /// that name has one value
    pub open spec fn single(&self, n: Str) -> bool { forall|a: Str, b: Str| #[trigger] self.has(n, a) && #[trigger] self.has(n, b) ==> a == b }
}
impl Clone for HeaderMap { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Default for HeaderMap { #[verifier::external_body] fn default() -> (r: Self) ensures forall|n: Str, v: Str| !(#[trigger] r.has(n, v)) { unimplemented!() } }
pub open spec fn pair_is(p: (&HeaderName, &HeaderValue), a: Str, b: Str) -> bool { p.0.n() == a && p.1.v() == b }
// ------------------------------------------------------------------ options
pub struct ConfigEntry { pub key: String, pub value: Option<String> }
/// an option of an extension: its name and, if it has one, its value
pub open spec fn entry_is(e: ConfigEntry, k: Str, v: Option<Str>) -> bool { e.key@ == k && match e.value { None => v is None, Some(x) => v == Some(x@) } }
#[verifier::external_body] pub struct ExtensionBox { _x: u8 }
impl ExtensionBox {
    pub uninterp spec fn has(&self, k: Str) -> bool;
    pub uninterp spec fn get(&self, k: Str) -> Option<Str>;
    pub uninterp spec fn list(&self) -> Seq<ConfigEntry>;
    #[verifier::external_body] pub fn entries(&self) -> (r: Vec<ConfigEntry>)
        ensures entries_of(*self, r@) { unimplemented!() }
}
/// no two options of an extension differ in the case of their letters only
pub open spec fn distinct(x: ExtensionBox) -> bool { forall|a: Str, b: Str| #[trigger] x.has(a) && #[trigger] x.has(b) && low(a) == low(b) ==> a == b }
pub trait ConfigExtension: Sized {
    spec fn pre() -> Str;
    spec fn bx(&self) -> ExtensionBox;
    fn default() -> (r: Self) ensures Self::dflt(r.bx());
    spec fn dflt(x: ExtensionBox) -> bool;
    fn entries(&self) -> (r: Vec<ConfigEntry>) ensures entries_of(self.bx(), r@), r@ == self.bx().list();
    fn set(&mut self, k: &String, v: &str) -> (r: Result<()>) ensures r is Ok ==> option_set(old(self).bx(), final(self).bx(), k@, v@);
}
pub open spec fn option_set(a: ExtensionBox, b: ExtensionBox, k: Str, v: Str) -> bool {
    forall|n: Str| #![trigger b.has(n)] #![trigger b.get(n)] b.has(n) == a.has(n) && b.get(n) == (if n == k { Some(v) } else { a.get(n) })
}
/// the names an extension is registered under, to be sent to workers
pub struct ConfigExtensionPropagationContext { pub prefixes: Vec<&'static str> }
impl Clone for ConfigExtensionPropagationContext { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Default for ConfigExtensionPropagationContext { #[verifier::external_body] fn default() -> (r: Self) ensures r.prefixes@.len() == 0 { unimplemented!() } }
//@struct src/passthrough_headers.rs PassthroughHeaders
impl Clone for PassthroughHeaders { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub trait Ext: Sized { spec fn of(c: SessionConfig) -> Option<Self>; }
#[verifier::external_body] pub struct SessionConfig { _x: u8 }
impl Ext for ConfigExtensionPropagationContext { open spec fn of(c: SessionConfig) -> Option<Self> { c.ctx() } }
impl Ext for PassthroughHeaders { open spec fn of(c: SessionConfig) -> Option<Self> { c.pass() } }
impl SessionConfig {
    pub uninterp spec fn ctx(&self) -> Option<ConfigExtensionPropagationContext>;
    pub uninterp spec fn pass(&self) -> Option<PassthroughHeaders>;
    /// the extensions of the session, by prefix
    pub uninterp spec fn ext(&self, prefix: Str) -> Option<ExtensionBox>;
    #[verifier::external_body] pub fn get_extension<T: Ext>(&self) -> (r: Option<Arc<T>>) ensures match r { Some(x) => T::of(*self) == Some(*x), None => T::of(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn set_extension<T: Ext>(&mut self, t: Arc<T>)
        ensures T::of(*final(self)) == Some(*t), forall|p: Str| #[trigger] final(self).ext(p) == old(self).ext(p) { unimplemented!() }
    #[verifier::external_body] pub fn vx_insert<T: ConfigExtension>(&mut self, t: T)
        ensures final(self).ctx() == old(self).ctx(), final(self).pass() == old(self).pass(), forall|p: Str| #[trigger] final(self).ext(p) == if p == T::pre() { Some(t.bx()) } else { old(self).ext(p) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_get_mut<T: ConfigExtension>(&mut self) -> (r: Option<&mut T>)
        ensures final(self).ctx() == old(self).ctx(), final(self).pass() == old(self).pass(), forall|p: Str| p != T::pre() ==> #[trigger] final(self).ext(p) == old(self).ext(p),
            match r { Some(x) => old(self).ext(T::pre()) == Some(x.bx()) && final(self).ext(T::pre()) == Some(final(x).bx()), None => old(self).ext(T::pre()) is None && final(self).ext(T::pre()) is None } { unimplemented!() }
    #[verifier::external_body] pub fn vx_get<T: ConfigExtension>(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.ext(T::pre()) == Some(x.bx()), None => self.ext(T::pre()) is None } { unimplemented!() }
    #[verifier::external_body] pub fn vx_extensions(&self) -> (r: Vec<(&'static str, &ExtensionBox)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self.ext((#[trigger] r@[i]).0@) == Some(*r@[i].1),
            forall|p: Str| (#[trigger] self.ext(p)) is Some ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == p { unimplemented!() }
}
#[verifier::external_body] pub fn vx_pre<T: ConfigExtension>() -> (r: &'static str) ensures r@ == T::pre() { unimplemented!() }
#[verifier::external_body] pub fn vx_contains(v: &Vec<&'static str>, p: &'static str) -> (r: bool) ensures r == listed(v@, p@) { unimplemented!() }
pub open spec fn listed(v: Seq<&'static str>, p: Str) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == p }
/// `Option::unwrap_or_default`, for what this file takes it of
pub trait VxOr: Sized { type T; spec fn dflt(x: Self::T) -> bool; spec fn some(self) -> Option<Self::T>;
    fn vx_or(self) -> (r: Self::T) ensures match self.some() { Some(x) => r == x, None => Self::dflt(r) }; }
impl VxOr for Option<Arc<ConfigExtensionPropagationContext>> { type T = Arc<ConfigExtensionPropagationContext>;
    open spec fn dflt(x: Self::T) -> bool { x.prefixes@.len() == 0 } open spec fn some(self) -> Option<Self::T> { self }
    #[verifier::external_body] fn vx_or(self) -> Self::T { unimplemented!() } }
impl VxOr for Option<HeaderMap> { type T = HeaderMap;
    open spec fn dflt(x: Self::T) -> bool { forall|n: Str, v: Str| !(#[trigger] x.has(n, v)) } open spec fn some(self) -> Option<Self::T> { self }
    #[verifier::external_body] fn vx_or(self) -> Self::T { unimplemented!() } }
/// extensions whose options are sent to workers
pub open spec fn sent(c: SessionConfig, p: Str) -> bool { c.ctx() is Some && listed(c.ctx()->0.prefixes@, p) && c.ext(p) is Some }
// ------------------------------------------------------------------ the sender
//@fn src/config_extension_ext.rs set_distributed_option_extension
//@ spec: ensures final(cfg).ext(T::pre()) == Some(t.bx()), sent(*final(cfg), T::pre()),
//@   forall|p: Str| p != T::pre() ==> #[trigger] final(cfg).ext(p) == old(cfg).ext(p),
//@   forall|p: Str| #[trigger] sent(*old(cfg), p) ==> sent(*final(cfg), p),
//@ subst: cfg.options_mut().extensions.insert(t) => cfg.vx_insert(t)
//@ subst: prev.as_ref().clone() => (*prev).clone()
//@ subst: propagation_ctx.prefixes.push(T::PREFIX) => let ghost before = propagation_ctx.prefixes@; propagation_ctx.prefixes.push(vx_pre::<T>()); assert(propagation_ctx.prefixes@.drop_last() =~= before); assert(propagation_ctx.prefixes@.last()@ == T::pre()); assert(forall|p: Str| #[trigger] listed(before, p) ==> listed(propagation_ctx.prefixes@, p)) by { assert forall|p: Str| #[trigger] listed(before, p) implies listed(propagation_ctx.prefixes@, p) by { let i = choose|i: int| 0 <= i < before.len() && (#[trigger] before[i])@ == p; assert(propagation_ctx.prefixes@[i]@ == p); } }
//@end
/// the pair comes from an option that is to be sent
pub open spec fn stems(c: SessionConfig, n: Str, v: Str) -> bool { exists|p: Str, k: Str| #[trigger] is_option(c, p, k, v) && n == header(p, k) }
pub open spec fn is_option(c: SessionConfig, p: Str, k: Str, v: Str) -> bool { sent(c, p) && c.ext(p)->0.has(k) && c.ext(p)->0.get(k) == Some(v) }
pub open spec fn well_named(c: SessionConfig) -> bool { forall|p: Str| #[trigger] sent(c, p) ==> plain(p) && distinct(c.ext(p)->0) }
pub open spec fn apart(c: SessionConfig) -> bool { forall|p: Str, q: Str| #[trigger] sent(c, p) && #[trigger] sent(c, q) && low(p) == low(q) ==> p == q }
pub proof fn lemma_header_injective(p: Str, k: Str, q: Str, l: Str)
    requires plain(p), plain(q), header(p, k) == header(q, l), ensures low(p) == low(q), low(k) == low(l)
{
    axiom_lower();
    let a = header(p, k); let b = header(q, l); let r = reserved().len() as int;
    assert(forall|i: int| 0 <= i < p.len() ==> a[r + i] == lc(#[trigger] p[i]) && a[r + i] != '.');
    assert(a[r + p.len()] == lc('.') && lc('.') == '.');
    assert(forall|i: int| 0 <= i < q.len() ==> b[r + i] == lc(#[trigger] q[i]) && b[r + i] != '.');
    assert(b[r + q.len()] == lc('.'));
    if p.len() < q.len() { assert(b[r + p.len()] == lc(q[p.len() as int])); assert(false); }
    if q.len() < p.len() { assert(a[r + q.len()] == lc(p[q.len() as int])); assert(false); }
    assert forall|i: int| 0 <= i < p.len() implies low(p)[i] == low(q)[i] by { assert(a[r + i] == lc(p[i])); assert(b[r + i] == lc(q[i])); }
    assert(low(p) =~= low(q));
    assert(a.len() == r + p.len() + 1 + k.len());
    assert forall|i: int| 0 <= i < k.len() implies low(k)[i] == low(l)[i] by { assert(a[r + p.len() + 1 + i] == lc(k[i])); assert(b[r + q.len() + 1 + i] == lc(l[i])); }
    assert(low(k) =~= low(l));
}
/// what the loop over the extensions has produced
pub open spec fn made(h: HeaderMap, c: SessionConfig, e: Seq<(&'static str, &ExtensionBox)>, i: int) -> bool {
    &&& forall|n: Str, v: Str| #[trigger] h.has(n, v) ==> stems(c, n, v)
    &&& forall|p: Str, k: Str, v: Str| #[trigger] is_option(c, p, k, v) && (exists|j: int| 0 <= j < i && (#[trigger] e[j]).0@ == p) ==> h.has(header(p, k), v)
}
pub open spec fn made_part(h: HeaderMap, c: SessionConfig, e: Seq<(&'static str, &ExtensionBox)>, i: int, en: Seq<ConfigEntry>, j: int) -> bool {
    &&& made(h, c, e, i)
    &&& forall|k: Str, v: Str| #[trigger] is_option(c, e[i].0@, k, v) && (exists|m: int| 0 <= m < j && (#[trigger] en[m]).key@ == k) ==> h.has(header(e[i].0@, k), v)
}
impl HeaderMap {
    /// `insert`, and what it means for the options already there
    pub fn vx_put(&mut self, Ghost(x): Ghost<(SessionConfig, Str, Str)>, n: HeaderName, v: HeaderValue)
        requires well_named(x.0), apart(x.0), n.n() == header(x.1, x.2), is_option(x.0, x.1, x.2, v.v()),
        ensures final(self).has(header(x.1, x.2), v.v()),
            forall|a: Str, b: Str| #[trigger] final(self).has(a, b) ==> old(self).has(a, b) || stems(x.0, a, b),
            forall|q: Str, l: Str, w: Str| #[trigger] is_option(x.0, q, l, w) && old(self).has(header(q, l), w) ==> final(self).has(header(q, l), w),
    {
        let ghost h0 = *self; let ghost (n0, v0) = (n.n(), v.v());
        self.insert(n, v);
        proof {
            assert forall|q: Str, l: Str, w: Str| #[trigger] is_option(x.0, q, l, w) && h0.has(header(q, l), w) implies self.has(header(q, l), w) by {
                if header(q, l) == n0 { lemma_header_injective(q, l, x.1, x.2); assert(sent(x.0, q) && sent(x.0, x.1)); assert(q == x.1); assert(l == x.2); assert(w == v0); }
            }
        }
    }
}
/// what is known of the entries while they are gone through
pub open spec fn entries_of(x: ExtensionBox, en: Seq<ConfigEntry>) -> bool {
    &&& forall|i: int| 0 <= i < en.len() ==> x.has((#[trigger] en[i]).key@) && entry_is(en[i], en[i].key@, x.get(en[i].key@))
    &&& forall|k: Str| #[trigger] x.has(k) ==> exists|i: int| 0 <= i < en.len() && (#[trigger] en[i]).key@ == k
}
//@fn src/config_extension_ext.rs get_config_extension_propagation_headers
//@ spec: requires well_named(*cfg), apart(*cfg),
//@   ensures r is Ok ==> (forall|n: Str, v: Str| #[trigger] r->Ok_0.has(n, v) ==> stems(*cfg, n, v)) && (forall|p: Str, k: Str, v: Str| #[trigger] is_option(*cfg, p, k, v) ==> r->Ok_0.has(header(p, k), v)),
//@ drop: fn parse_err
//@ subst: .unwrap_or_default() => .vx_or()
//@ subst: cfg.options().extensions.iter() => cfg.vx_extensions()
//@ subst: prefixes_to_send.prefixes.contains(&prefix) => vx_contains(&prefixes_to_send.prefixes, prefix)
//@ subst: &format!("{FLIGHT_METADATA_CONFIG_PREFIX}{prefix}.{key}") => &vx_header(prefix, &key)
//@ subst: value.parse() => HeaderValue::vx_parse(&value)
//@ loop 0: invariant well_named(*cfg), apart(*cfg), 0 <= it0.index() <= it0.seq().len(), prefixes_to_send.prefixes@.len() > 0, cfg.ctx() == Some(*prefixes_to_send),
//@     forall|i: int| 0 <= i < it0.seq().len() ==> cfg.ext((#[trigger] it0.seq()[i]).0@) == Some(*it0.seq()[i].1),
//@     forall|p: Str| (#[trigger] cfg.ext(p)) is Some ==> exists|i: int| 0 <= i < it0.seq().len() && (#[trigger] it0.seq()[i]).0@ == p,
//@     made(headers, *cfg, it0.seq(), it0.index()),
//@ subst: headers.insert( => headers.vx_put(Ghost((*cfg, prefix@, key@)), 
//@ loop 1: invariant made_part(headers, *cfg, it0.seq(), it0.index(), it1.seq(), it1.index()), well_named(*cfg), apart(*cfg),
//@     sent(*cfg, prefix@), cfg.ext(prefix@) == Some(*extension), prefix@ == it0.seq()[it0.index()].0@, entries_of(*extension, it1.seq()),
//@end
// ------------------------------------------------------------------ the receiver
pub enum MutOrOwned<'a, T> { Mut(&'a mut T), Owned(T) }
impl<'a, T> MutOrOwned<'a, T> {
    pub open spec fn is_now(self, t: T) -> bool { match self { MutOrOwned::Mut(w) => *w == t, MutOrOwned::Owned(w) => w == t } }
    fn as_mut(&mut self) -> (r: &mut T)
        ensures match *old(self) { MutOrOwned::Mut(v) => *r == *v && match *final(self) { MutOrOwned::Mut(w) => *w == *final(r) && *final(w) == *final(v), _ => false },
            MutOrOwned::Owned(v) => *r == v && *final(self) == MutOrOwned::<'a, T>::Owned(*final(r)) }
    { match self { MutOrOwned::Mut(v) => v, MutOrOwned::Owned(v) => v } }
}
pub open spec fn now<'a, T>(m: MutOrOwned<'a, T>) -> T { match m { MutOrOwned::Mut(w) => *w, MutOrOwned::Owned(w) => w } }
/// the values the options have after the first `i` headers
pub open spec fn taken(base: ExtensionBox, cur: ExtensionBox, pre: Str, hs: Seq<(&HeaderName, &HeaderValue)>, i: int) -> bool {
    &&& forall|n: Str| #[trigger] cur.has(n) == base.has(n)
    &&& forall|n: Str| #![trigger cur.get(n)] base.has(n) ==> match last_of(hs, header(pre, n), i) { Some(v) => cur.get(n) == Some(v), None => cur.get(n) == base.get(n) }
}
/// the value of the last of the first `i` headers with that name
pub open spec fn last_of(hs: Seq<(&HeaderName, &HeaderValue)>, a: Str, i: int) -> Option<Str> decreases i {
    if i <= 0 { None } else if hs[i - 1].0.n() == a { Some(hs[i - 1].1.v()) } else { last_of(hs, a, i - 1) }
}
pub proof fn lemma_received(base: ExtensionBox, out: ExtensionBox, pre: Str, h: HeaderMap, hs: Seq<(&HeaderName, &HeaderValue)>)
    requires taken(base, out, pre, hs, hs.len() as int), h.lists(hs), ensures received(base, out, pre, h)
{
    assert forall|n: Str| #![trigger out.get(n)] base.has(n) implies match last_of(hs, header(pre, n), hs.len() as int) { Some(v) => h.has(header(pre, n), v), None => forall|v: Str| !h.has(header(pre, n), v) } by {
        lemma_last(hs, header(pre, n), hs.len() as int);
    }
    assert forall|n: Str, v: Str| base.has(n) && #[trigger] h.has(header(pre, n), v) && h.single(header(pre, n)) implies out.get(n) == Some(v) by { let _ = out.get(n); }
}
/// the next header: one of an option, which takes its value, or of none, and nothing changes
pub open spec fn took(base: ExtensionBox, a: ExtensionBox, b: ExtensionBox, pre: Str, p: (&HeaderName, &HeaderValue)) -> bool {
    ||| a == b && (forall|n: Str| #[trigger] base.has(n) ==> header(pre, n) != p.0.n())
    ||| exists|n: Str| #[trigger] base.has(n) && header(pre, n) == p.0.n() && option_set(a, b, n, p.1.v())
}
pub proof fn lemma_step(base: ExtensionBox, prev: ExtensionBox, cur: ExtensionBox, pre: Str, hs: Seq<(&HeaderName, &HeaderValue)>, i: int)
    requires 0 <= i < hs.len(), taken(base, prev, pre, hs, i), distinct(base), took(base, prev, cur, pre, hs[i]), ensures taken(base, cur, pre, hs, i + 1)
{
    assert forall|n: Str| #![trigger cur.get(n)] base.has(n) implies match last_of(hs, header(pre, n), i + 1) { Some(v) => cur.get(n) == Some(v), None => cur.get(n) == base.get(n) } by {
        let _ = prev.get(n);
        if a_set(base, prev, cur, pre, hs[i]) {
            let m = choose|m: Str| #[trigger] base.has(m) && header(pre, m) == hs[i].0.n() && option_set(prev, cur, m, hs[i].1.v());
            if header(pre, n) == header(pre, m) { lemma_same_prefix(pre, n, m); }
        }
    }
}
pub open spec fn a_set(base: ExtensionBox, a: ExtensionBox, b: ExtensionBox, pre: Str, p: (&HeaderName, &HeaderValue)) -> bool { exists|n: Str| #[trigger] base.has(n) && header(pre, n) == p.0.n() && option_set(a, b, n, p.1.v()) }
pub proof fn lemma_same_prefix(pre: Str, n: Str, m: Str) requires header(pre, n) == header(pre, m), ensures low(n) == low(m)
{
    lemma_split(pre, n); lemma_split(pre, m);
    let a = low(reserved() + pre + dot());
    assert(low(n) =~= (a + low(n)).subrange(a.len() as int, (a.len() + low(n).len()) as int));
    assert(low(m) =~= (a + low(m)).subrange(a.len() as int, (a.len() + low(m).len()) as int));
}
pub proof fn lemma_split(pre: Str, n: Str) ensures header(pre, n) == low(reserved() + pre + dot()) + low(n)
{ assert(header(pre, n) =~= low(reserved() + pre + dot()) + low(n)); }
pub proof fn lemma_last(hs: Seq<(&HeaderName, &HeaderValue)>, a: Str, i: int) requires 0 <= i <= hs.len(),
    ensures match last_of(hs, a, i) { Some(v) => exists|j: int| 0 <= j < i && pair_is(#[trigger] hs[j], a, v), None => forall|j: int| 0 <= j < i ==> (#[trigger] hs[j]).0.n() != a }
    decreases i
{ if i > 0 { lemma_last(hs, a, i - 1); if hs[i - 1].0.n() == a { assert(pair_is(hs[i - 1], a, hs[i - 1].1.v())); } } }
pub open spec fn lows(en: Seq<(String, String)>, x: ExtensionBox) -> bool {
    &&& forall|i: int| 0 <= i < en.len() ==> (#[trigger] en[i]).0@ == low(en[i].1@) && x.has(en[i].1@)
    &&& forall|k: Str| #[trigger] x.has(k) ==> exists|i: int| 0 <= i < en.len() && (#[trigger] en[i]).1@ == k
}
/// the map collected from these pairs, asked for `k`
#[verifier::external_body] pub fn vx_get<'a>(m: &'a Vec<(String, String)>, k: &str) -> (r: Option<&'a String>)
    ensures match r { Some(v) => exists|i: int| 0 <= i < m@.len() && (#[trigger] m@[i]).0@ == k@ && m@[i].1 == *v, None => forall|i: int| 0 <= i < m@.len() ==> (#[trigger] m@[i]).0@ != k@ } { unimplemented!() }
/// what a worker's extension is after it took over the headers of the request
pub open spec fn received(base: ExtensionBox, out: ExtensionBox, pre: Str, h: HeaderMap) -> bool {
    &&& forall|n: Str| #[trigger] out.has(n) == base.has(n)
    &&& forall|n: Str, v: Str| base.has(n) && #[trigger] h.has(header(pre, n), v) && h.single(header(pre, n)) ==> out.get(n) == Some(v)
    &&& forall|n: Str| base.has(n) && (forall|v: Str| !h.has(header(pre, n), v)) ==> #[trigger] out.get(n) == base.get(n)
}
pub open spec fn base_of<T: ConfigExtension>(c: SessionConfig, b: ExtensionBox) -> bool { match c.ext(T::pre()) { Some(x) => b == x, None => T::dflt(b) } }
/// the option a header name stands for, once its prefix is off
pub fn vx_known<'a>(m: &'a Vec<(String, String)>, k: &str, Ghost(base): Ghost<ExtensionBox>, Ghost(pre): Ghost<Str>) -> (r: Option<&'a String>)
    requires lows(m@, base),
    ensures match r { Some(v) => base.has(v@) && header(pre, v@) == low(reserved() + pre + dot()) + k@, None => forall|n: Str| #[trigger] base.has(n) ==> header(pre, n) != low(reserved() + pre + dot()) + k@ }
{
    let r = vx_get(m, k);
    proof {
        let p = low(reserved() + pre + dot());
        match r {
            Some(v) => { lemma_split(pre, v@); }
            None => {
                assert forall|n: Str| #[trigger] base.has(n) implies header(pre, n) != p + k@ by {
                    lemma_split(pre, n);
                    if header(pre, n) == p + k@ {
                        assert(low(n) =~= (p + low(n)).subrange(p.len() as int, (p.len() + low(n).len()) as int));
                        assert(k@ =~= (p + k@).subrange(p.len() as int, (p.len() + k@.len()) as int));
                        let i = choose|i: int| 0 <= i < m@.len() && (#[trigger] m@[i]).1@ == n; assert(m@[i].0@ == low(n));
                    }
                }
            }
        }
    }
    r
}
pub fn vx_strip<'a>(s: &'a str, p: &String, Ghost(pre): Ghost<Str>) -> (r: Option<&'a str>)
    requires p@ == low(reserved() + pre + dot()),
    ensures match r { Some(t) => s@ == p@ + t@, None => forall|n: Str| #[trigger] header(pre, n) != s@ }
{
    let r = vx_strip_prefix(s, p);
    proof { assert forall|n: Str| r is None implies #[trigger] header(pre, n) != s@ by { lemma_split(pre, n); assert((p@ + low(n)).subrange(0, p@.len() as int) =~= p@); } }
    r
}
/// the type parameter, at an arbitrary type nothing is known of (Verus loses closures in generic functions)
#[verifier::external_body] pub struct T { _x: u8 }
impl ConfigExtension for T {
    uninterp spec fn pre() -> Str;
    uninterp spec fn bx(&self) -> ExtensionBox;
    uninterp spec fn dflt(x: ExtensionBox) -> bool;
    #[verifier::external_body] fn default() -> Self { unimplemented!() }
    #[verifier::external_body] fn entries(&self) -> Vec<ConfigEntry> { unimplemented!() }
    #[verifier::external_body] fn set(&mut self, k: &String, v: &str) -> Result<()> { unimplemented!() }
}
//@fn src/config_extension_ext.rs set_distributed_option_extension_from_headers
//@ drop: type MutOrOwned
//@ sig: pub fn $name<'a>(cfg: &'a mut SessionConfig, headers: &HeaderMap) -> (r: Result<&'a T, DataFusionError>)
//@ spec: requires forall|b: ExtensionBox| #[trigger] base_of::<T>(*old(cfg), b) ==> distinct(b),
//@   ensures r is Ok ==> exists|b: ExtensionBox| #[trigger] base_of::<T>(*old(cfg), b) && received(b, r->Ok_0.bx(), T::pre(), *headers),
//@   r is Ok ==> final(cfg).ext(T::pre()) == Some(r->Ok_0.bx()) && sent(*final(cfg), T::pre()),
//@   forall|p: Str| p != T::pre() ==> #[trigger] final(cfg).ext(p) == old(cfg).ext(p),
//@ subst: prev.as_ref().clone() => (*prev).clone()
//@ subst: T::PREFIX => vx_pre::<T>()
//@ subst: cfg.options_mut().extensions.get_mut::<T>() => cfg.vx_get_mut::<T>()
//@ subst: collect::<HashMap<_, _>>() => collect::<Vec<_>>()
//@ subst: entry.key.to_ascii_lowercase() => vx_low_of(&entry.key)
//@ subst: format!("{FLIGHT_METADATA_CONFIG_PREFIX}{}.", vx_pre::<T>()).to_ascii_lowercase() => vx_low(vx_prefix_of::<T>())
//@ subst: k.as_str().strip_prefix(&prefix) => vx_strip(k.as_str(), &prefix, Ghost(T::pre()))
//@ subst: known_keys.get(key) => vx_known(&known_keys, key, Ghost(base), Ghost(T::pre()))
//@ subst: cfg.options_mut().extensions.insert(v) => cfg.vx_insert(v)
//@ subst: cfg.options().extensions.get() => cfg.vx_get()
//@ subst: if let MutOrOwned::Owned(v) = result => proof { let out = now(result).bx(); let hs = choose|hs: Seq<(&HeaderName, &HeaderValue)>| #[trigger] headers.lists(hs) && taken(base, out, T::pre(), hs, hs.len() as int); lemma_received(base, out, T::pre(), *headers, hs); } if let MutOrOwned::Owned(v) = result
//@ closure 0: -> (r: (String, String)) ensures r.0@ == low(entry.key@), r.1 == entry.key
//@ subst: propagation_ctx.prefixes.push(vx_pre::<T>()) => let ghost before = propagation_ctx.prefixes@; propagation_ctx.prefixes.push(vx_pre::<T>()); assert(propagation_ctx.prefixes@.drop_last() =~= before); assert(propagation_ctx.prefixes@.last()@ == T::pre()); assert(listed(propagation_ctx.prefixes@, T::pre()))
//@ subst: let prefix = => assert(lows(known_keys@, base)) by { assert forall|k: Str| #[trigger] base.has(k) implies exists|i: int| 0 <= i < known_keys@.len() && (#[trigger] known_keys@[i]).1@ == k by { let i = choose|i: int| 0 <= i < base.list().len() && (#[trigger] base.list()[i]).key@ == k; assert(known_keys@[i].1@ == k); } } let prefix =
//@ subst: let known_keys => let ghost r0 = result; let ghost base = now(result).bx(); assert(base_of::<T>(*old(cfg), base)); let known_keys
//@ header: #[verifier::loop_isolation(false)]
//@ loop 0: invariant match (r0, result) { (MutOrOwned::Mut(a), MutOrOwned::Mut(b)) => *final(b) == *final(a), (MutOrOwned::Owned(_), MutOrOwned::Owned(_)) => true, _ => false },
//@     taken(base, now(result).bx(), T::pre(), it0.seq(), it0.index()), headers.lists(it0.seq()), prefix@ == low(reserved() + T::pre() + dot()), lows(known_keys@, base), distinct(base),
//@   ghost: let ghost prev = now(result).bx();
//@   after: lemma_step(base, prev, now(result).bx(), T::pre(), it0.seq(), it0.index());
//@ closure 1: -
//@ closure 2: -
//@end
// ------------------------------------------------------------------ passthrough headers
pub open spec fn unreserved(h: HeaderMap) -> bool { forall|a: Str, b: Str| #[trigger] h.has(a, b) ==> !starts(a, reserved()) }
//@fn src/passthrough_headers.rs set_passthrough_headers
//@ spec: ensures r is Ok ==> unreserved(headers) && final(cfg).pass() is Some && final(cfg).pass() == Some(PassthroughHeaders(headers)),
//@   r is Err ==> *final(cfg) == *old(cfg),
//@ subst: name.as_str().starts_with(FLIGHT_METADATA_CONFIG_PREFIX) => vx_starts(name.as_str())
//@ loop 0: invariant forall|i: int| 0 <= i < it0.index() ==> !starts((#[trigger] it0.seq()[i]).n(), reserved()), headers.names(it0.seq()), *cfg == *old(cfg),
//@end
//@fn src/passthrough_headers.rs get_passthrough_headers
//@ spec: ensures match cfg.pass() { Some(h) => r == h.0, None => forall|n: Str, v: Str| !(#[trigger] r.has(n, v)) },
//@ subst: .unwrap_or_default() => .vx_or()
//@ closure 0: -> (r: HeaderMap) ensures r == h.0
//@end
// ------------------------------------------------------------------ both ends
/// what the coordinator sends: its options and the passthrough headers, which have no reserved name
pub open spec fn request(c: SessionConfig, m: HeaderMap) -> bool {
    &&& forall|n: Str, v: Str| starts(n, reserved()) && #[trigger] m.has(n, v) ==> stems(c, n, v)
    &&& forall|p: Str, k: Str, v: Str| #[trigger] is_option(c, p, k, v) ==> m.has(header(p, k), v)
}
/// C16: an option of a sent extension has the same value on the worker as on the coordinator; one the coordinator
/// gave no value keeps the worker's
pub proof fn theorem_options(c: SessionConfig, m: HeaderMap, p: Str, base: ExtensionBox, out: ExtensionBox, k: Str)
    requires well_named(c), apart(c), request(c, m), sent(c, p), received(base, out, p, m), base.has(k), c.ext(p)->0.has(k),
    ensures match c.ext(p)->0.get(k) { Some(v) => out.get(k) == Some(v), None => out.get(k) == base.get(k) }
{
    axiom_lower();
    let n = header(p, k);
    assert(starts(n, reserved())) by { assert(n.subrange(0, reserved().len() as int) =~= low(reserved())); }
    assert forall|v: Str| m.has(n, v) implies c.ext(p)->0.get(k) == Some(v) by {
        let (q, l) = choose|q: Str, l: Str| #[trigger] is_option(c, q, l, v) && n == header(q, l);
        lemma_header_injective(q, l, p, k);
        assert(sent(c, q) && sent(c, p)); assert(q == p); assert(l == k);
    }
    match c.ext(p)->0.get(k) { Some(v) => { assert(is_option(c, p, k, v)); assert(m.has(n, v)); assert(m.single(n)); } None => {} }
}
} // verus!
fn main() {}
