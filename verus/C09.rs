//@include lib/base.rs
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@type_is Arc::new => vx_plan
//@arcclone
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ dependencies
#[verifier::external_body] pub struct Uuid { _x: u128 }
impl Copy for Uuid {} impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct MetricsSet { _x: u8 }
impl Default for MetricsSet { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
#[verifier::external_body] pub struct RemoteStage { _x: u8 }
#[verifier::external_body] pub struct PlanProperties { _x: u8 }
#[verifier::external_body] pub struct WorkerConnectionPool { _x: u8 }
#[verifier::external_body] pub struct Row { _x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Arcd<T> { x: T }
// an `Arc<dyn ExecutionPlan>`: what its partitions produce, over all the tasks that run it
#[verifier::external_body] pub struct PlanRef { _x: u8 }
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Parts = Seq<Seq<Row>>;
pub uninterp spec fn rows(p: PlanRef) -> Parts;
pub uninterp spec fn kids(p: PlanRef) -> Seq<PlanRef>;
pub uninterp spec fn pfetch(p: PlanRef) -> Option<usize>;

pub struct LocalStage { pub query_id: Uuid, pub num: usize, pub plan: PlanRef, pub tasks: usize, pub metrics_set: MetricsSet }
pub enum Stage { Local(LocalStage), Remote(RemoteStage) }
//@struct src/execution_plans/network_coalesce.rs NetworkCoalesceExec

// ------------------------------------------------------------------ nodes
pub trait Node: Sized { spec fn of(p: PlanRef) -> Option<Self>; }
pub struct ProjectionExec { pub input: PlanRef }
impl ProjectionExec { pub fn input(&self) -> (r: &PlanRef) ensures *r == self.input { &self.input } }
pub struct GlobalLimitExec { pub skip: usize, pub fetch: Option<usize> }
impl GlobalLimitExec {
    pub fn skip(&self) -> (r: usize) ensures r == self.skip { self.skip }
    pub fn fetch(&self) -> (r: Option<usize>) ensures r == self.fetch { self.fetch }
}
pub struct LocalLimitExec { pub input: PlanRef, pub fetch: usize }
impl LocalLimitExec {
    pub fn new(input: PlanRef, fetch: usize) -> (r: Self) ensures r.input == input, r.fetch == fetch { LocalLimitExec { input, fetch } }
    pub fn fetch(&self) -> (r: usize) ensures r == self.fetch { self.fetch }
}
pub struct CoalescePartitionsExec { pub fetch: Option<usize> }
pub struct SortPreservingMergeExec { pub fetch: Option<usize>, pub order: Ordering }
impl CoalescePartitionsExec { pub fn fetch(&self) -> (r: Option<usize>) ensures r == self.fetch { self.fetch } }
impl SortPreservingMergeExec { pub fn fetch(&self) -> (r: Option<usize>) ensures r == self.fetch { self.fetch } }
#[verifier::external_body] pub struct Ordering { _x: u8 }
pub uninterp spec fn node_p(p: PlanRef) -> Option<ProjectionExec>;
pub uninterp spec fn node_gl(p: PlanRef) -> Option<GlobalLimitExec>;
pub uninterp spec fn node_ll(p: PlanRef) -> Option<LocalLimitExec>;
pub uninterp spec fn node_cp(p: PlanRef) -> Option<CoalescePartitionsExec>;
pub uninterp spec fn node_spm(p: PlanRef) -> Option<SortPreservingMergeExec>;
pub uninterp spec fn node_nc(p: PlanRef) -> Option<NetworkCoalesceExec>;
impl Node for ProjectionExec { open spec fn of(p: PlanRef) -> Option<Self> { node_p(p) } }
impl Node for GlobalLimitExec { open spec fn of(p: PlanRef) -> Option<Self> { node_gl(p) } }
impl Node for LocalLimitExec { open spec fn of(p: PlanRef) -> Option<Self> { node_ll(p) } }
impl Node for CoalescePartitionsExec { open spec fn of(p: PlanRef) -> Option<Self> { node_cp(p) } }
impl Node for SortPreservingMergeExec { open spec fn of(p: PlanRef) -> Option<Self> { node_spm(p) } }
impl Node for NetworkCoalesceExec { open spec fn of(p: PlanRef) -> Option<Self> { node_nc(p) } }
impl Clone for Stage { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for NetworkCoalesceExec { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

/// first k rows
pub open spec fn cut(s: Seq<Row>, k: int) -> Seq<Row> { if k >= s.len() { s } else if k <= 0 { Seq::empty() } else { s.subrange(0, k) } }
pub open spec fn cut_all(ps: Parts, k: int) -> Parts { Seq::new(ps.len(), |i: int| cut(ps[i], k)) }
/// at least the first f rows of every partition are still there
pub open spec fn kept1(a: Seq<Row>, b: Seq<Row>, f: int) -> bool { exists|k: int| k >= f && b == #[trigger] cut(a, k) }
pub open spec fn kept(a: Parts, b: Parts, f: int) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> kept1(a[i], #[trigger] b[i], f) }

/// row j of partition i
pub type Pos = (int, int);
pub open spec fn valid(a: Parts, p: Pos) -> bool { 0 <= p.0 < a.len() && 0 <= p.1 < a[p.0].len() }
pub open spec fn at(a: Parts, p: Pos) -> Row { a[p.0][p.1] }
/// the order a plan declares for each of its partitions (every row at most every other one if it declares none)
pub uninterp spec fn le(p: PlanRef, x: Row, y: Row) -> bool;
pub open spec fn some_of(a: Parts, n: Seq<Pos>) -> bool { n.no_duplicates() && forall|i: int| 0 <= i < n.len() ==> valid(a, #[trigger] n[i]) }
/// m places every row of b in a
pub open spec fn embeds(a: Parts, b: Parts, m: spec_fn(Pos) -> Pos) -> bool {
    &&& b.len() == a.len()
    &&& forall|p: Pos| #[trigger] valid(b, p) ==> valid(a, m(p)) && at(a, m(p)) == at(b, p)
    &&& forall|p: Pos, q: Pos| #[trigger] valid(b, p) && #[trigger] valid(b, q) && m(p) == m(q) ==> p == q
}
pub open spec fn lost(a: Parts, b: Parts, m: spec_fn(Pos) -> Pos, r: Pos) -> bool { valid(a, r) && forall|p: Pos| #[trigger] valid(b, p) ==> m(p) != r }
/// b is a without some rows, and for every row that is gone there are f rows left that come no later in the order
pub open spec fn covered(b: Parts, f: int, o: spec_fn(Row, Row) -> bool, x: Row) -> bool {
    exists|n: Seq<Pos>| #[trigger] some_of(b, n) && n.len() >= f && forall|i: int| 0 <= i < n.len() ==> o(at(b, #[trigger] n[i]), x)
}
pub open spec fn enough_left(a: Parts, b: Parts, f: int, o: spec_fn(Row, Row) -> bool) -> bool {
    exists|m: spec_fn(Pos) -> Pos| #[trigger] embeds(a, b, m) && forall|r: Pos| #[trigger] lost(a, b, m, r) ==> covered(b, f, o, at(a, r))
}
pub open spec fn ord(p: PlanRef) -> spec_fn(Row, Row) -> bool { |x: Row, y: Row| le(p, x, y) }
/// what bounding a plan by f leaves of its rows
pub open spec fn holds(a: Parts, b: Parts, f: int, o: spec_fn(Row, Row) -> bool) -> bool {
    enough_left(a, b, f, o) && (a.len() == 1 ==> kept(a, b, f))
}
/// the order of a SortPreservingMergeExec
pub uninterp spec fn spm_le(o: Ordering, x: Row, y: Row) -> bool;
pub axiom fn axiom_spm_le(o: Ordering)
    ensures forall|x: Row, y: Row, z: Row| #[trigger] spm_le(o, x, y) && #[trigger] spm_le(o, y, z) ==> spm_le(o, x, z);
/// a gathering node's result: rows of its input, each at most once; all of them or n of them; by a merge: in order, the first ones
pub open spec fn chosen(p: PlanRef, ins: Parts, c: Seq<Pos>, out: Seq<Row>) -> bool {
    &&& out.len() == c.len() && some_of(ins, c)
    &&& forall|i: int| 0 <= i < c.len() ==> at(ins, #[trigger] c[i]) == out[i]
    &&& node_spm(p) is Some ==> {
        let o = node_spm(p)->0.order;
        &&& forall|i: int, j: int| 0 <= i < j < out.len() ==> spm_le(o, #[trigger] out[i], #[trigger] out[j])
        &&& forall|k: int, r: Pos| 0 <= k < out.len() && #[trigger] valid(ins, r) && !c.contains(r) ==> spm_le(o, #[trigger] out[k], at(ins, r))
    }
}
pub open spec fn all_of(ins: Parts, c: Seq<Pos>) -> bool { forall|r: Pos| #[trigger] valid(ins, r) ==> c.contains(r) }
pub open spec fn gathers(p: PlanRef, f: Option<usize>, ins: Parts, out: Seq<Row>) -> bool {
    exists|c: Seq<Pos>| #[trigger] chosen(p, ins, c, out) && match f { Some(n) => c.len() <= n && (c.len() == n || all_of(ins, c)), None => all_of(ins, c) }
}
/// what a limiting node may produce from its input
pub open spec fn gives(p: PlanRef, ins: Parts, out: Parts) -> bool {
    if node_gl(p) is Some {
        let g = node_gl(p)->0;
        ins.len() == 1 && out.len() == 1 && {
            let rest = if g.skip >= ins[0].len() { Seq::empty() } else { ins[0].subrange(g.skip as int, ins[0].len() as int) };
            out[0] == match g.fetch { Some(n) => cut(rest, n as int), None => rest }
        }
    } else if node_cp(p) is Some {
        out.len() == 1 && gathers(p, node_cp(p)->0.fetch, ins, out[0])
    } else {
        node_spm(p) is Some && out.len() == 1 && gathers(p, node_spm(p)->0.fetch, ins, out[0])
    }
}
pub open spec fn limits(p: PlanRef) -> bool { node_gl(p) is Some || node_cp(p) is Some || node_spm(p) is Some }
/// a plan's own declaration of its fetch (`ExecutionPlan::fetch`), for the nodes that matter here
pub axiom fn axiom_fetch(p: PlanRef)
    ensures
        node_cp(p) is Some ==> node_gl(p) is None && pfetch(p) == node_cp(p)->0.fetch,
        node_spm(p) is Some ==> node_gl(p) is None && node_cp(p) is None && pfetch(p) == node_spm(p)->0.fetch;
/// a projection computes each row from one row
pub uninterp spec fn projected(p: PlanRef, r: Row) -> Row;
pub open spec fn project(p: PlanRef, s: Seq<Row>) -> Seq<Row> { Seq::new(s.len(), |i: int| projected(p, s[i])) }
pub axiom fn axiom_projection(p: PlanRef)
    ensures node_p(p) is Some ==> kids(p) == seq![node_p(p)->0.input] && rows(p) == Seq::new(rows(kids(p)[0]).len(), |i: int| project(p, rows(kids(p)[0])[i]))
        && forall|x: Row, y: Row| le(kids(p)[0], x, y) ==> #[trigger] le(p, projected(p, x), projected(p, y));
/// partitions are in the order the plan declares
pub axiom fn axiom_sorted(p: PlanRef)
    ensures forall|i: int, j: int, k: int| #![trigger rows(p)[i][j], rows(p)[i][k]] 0 <= i < rows(p).len() && 0 <= j < k < rows(p)[i].len() ==> le(p, rows(p)[i][j], rows(p)[i][k]);
/// a local stage behind a NetworkCoalesceExec: the rows of the stage's plan (property C01)
pub axiom fn axiom_coalesce(p: PlanRef)
    ensures node_nc(p) is Some && node_nc(p)->0.input_stage is Local ==> rows(p) == rows(node_nc(p)->0.input_stage->Local_0.plan) && ord(p) == ord(node_nc(p)->0.input_stage->Local_0.plan);
/// same node over other children
pub open spec fn same_node(a: PlanRef, b: PlanRef) -> bool {
    &&& node_gl(a) == node_gl(b) && node_cp(a) == node_cp(b) && node_spm(a) == node_spm(b)
    &&& (node_p(a) is Some <==> node_p(b) is Some) && (node_p(a) is Some ==> forall|r: Row| projected(a, r) == projected(b, r))
}
pub enum ChildrenPropertiesMode { Recompute, Preserve }
pub struct ReplaceChildrenOptions {}
impl ReplaceChildrenOptions { pub fn new(m: ChildrenPropertiesMode) -> Self { ReplaceChildrenOptions {} } }
impl PlanRef {
    #[verifier::external_body] pub fn children(&self) -> (r: Vec<&PlanRef>)
        ensures r@.len() == kids(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == kids(*self)[i],
    { unimplemented!() }
    #[verifier::external_body] pub fn downcast_ref<T: Node>(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => T::of(*self) == Some(*x), None => T::of(*self) is None }
    { unimplemented!() }
    #[verifier::external_body] pub fn is<T: Node>(&self) -> (r: bool) ensures r == (T::of(*self) is Some) { unimplemented!() }
    #[verifier::external_body] pub fn fetch(&self) -> (r: Option<usize>) ensures r == pfetch(*self) { unimplemented!() }
    // `with_fetch`, for a plan that had no tighter fetch and n > 0: of one partition the first n rows, of several
    // ones (a top-k sort: its partitions share what they know) at least the first n of all of them in the declared order
    #[verifier::external_body] pub fn with_fetch(&self, n: Option<usize>) -> (r: Option<PlanRef>)
        requires n is Some ==> n->0 > 0,
        ensures r is Some && n is Some && (pfetch(*self) is None || n->0 <= pfetch(*self)->0) ==> holds(rows(*self), rows(r->0), n->0 as int, ord(*self)),
    { unimplemented!() }
    #[verifier::external_body] pub fn replace_children(self, c: Vec<PlanRef>, o: ReplaceChildrenOptions) -> (r: Result<PlanRef>)
        requires c@.len() == kids(self).len(),
        ensures r is Ok ==> kids(r->Ok_0) == c@ && same_node(r->Ok_0, self),
    { unimplemented!() }
}
// an `Arc` of a concrete node, used as a plan
pub trait IntoPlan: Sized { spec fn is_it(self, p: PlanRef) -> bool; }
impl IntoPlan for LocalLimitExec { open spec fn is_it(self, p: PlanRef) -> bool { node_ll(p) == Some(self) && kids(p) == seq![self.input] && rows(p) == cut_all(rows(self.input), self.fetch as int) } }
impl IntoPlan for NetworkCoalesceExec { open spec fn is_it(self, p: PlanRef) -> bool { node_nc(p) == Some(self) } }
#[verifier::external_body] pub fn vx_plan<T: IntoPlan>(x: T) -> (r: PlanRef) ensures x.is_it(r) { unimplemented!() }
pub struct Transformed { pub data: PlanRef, pub transformed: bool }
impl Transformed { pub fn yes(p: PlanRef) -> (r: Self) ensures r.data == p { Transformed { data: p, transformed: true } } pub fn no(p: PlanRef) -> (r: Self) ensures r.data == p { Transformed { data: p, transformed: false } } }

pub assume_specification<T>[ Option::<T>::is_some_and ](o: Option<T>, f: impl FnOnce(T) -> bool) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => !r };

// ------------------------------------------------------------------ lemmas
pub proof fn lemma_same(p: PlanRef, f: int)
    ensures holds(rows(p), rows(p), f, ord(p)),
{
    let a = rows(p);
    let m = |q: Pos| q;
    assert(embeds(a, a, m));
    assert forall|r: Pos| #[trigger] lost(a, a, m, r) implies covered(a, f, ord(p), at(a, r)) by { assert(valid(a, r)); assert(m(r) == r); }
    assert forall|i: int| 0 <= i < a.len() implies kept1(a[i], #[trigger] a[i], f) by {
        let k = if f > a[i].len() { f } else { a[i].len() as int };
        assert(a[i] == cut(a[i], k));
    }
}
/// a LocalLimitExec keeps enough
pub proof fn lemma_cut(p: PlanRef, f: int)
    requires f >= 0,
    ensures holds(rows(p), cut_all(rows(p), f), f, ord(p)),
{
    let a = rows(p); let b = cut_all(a, f);
    let m = |q: Pos| q;
    axiom_sorted(p);
    assert forall|q: Pos| #[trigger] valid(b, q) implies valid(a, m(q)) && at(a, m(q)) == at(b, q) by { assert(b[q.0] == cut(a[q.0], f)); }
    assert(embeds(a, b, m));
    assert forall|r: Pos| #[trigger] lost(a, b, m, r) implies covered(b, f, ord(p), at(a, r)) by {
        assert(b[r.0] == cut(a[r.0], f));
        if r.1 < f { assert(valid(b, r)); assert(m(r) == r); }
        let n = Seq::new(f as nat, |i: int| (r.0, i));
        assert(some_of(b, n));
        assert forall|i: int| 0 <= i < n.len() implies ord(p)(at(b, #[trigger] n[i]), at(a, r)) by { assert(at(b, n[i]) == a[r.0][i]); assert(le(p, a[r.0][i], a[r.0][r.1])); }
    }
    assert forall|i: int| 0 <= i < a.len() implies kept1(a[i], #[trigger] b[i], f) by { assert(b[i] == cut(a[i], f)); }
}
pub proof fn lemma_project(p: PlanRef, q: PlanRef, f: int)
    requires node_p(p) is Some, same_node(q, p), kids(q).len() == 1, holds(rows(kids(p)[0]), rows(kids(q)[0]), f, ord(kids(p)[0])),
    ensures holds(rows(p), rows(q), f, ord(p)),
{
    axiom_projection(p); axiom_projection(q);
    let k = kids(p)[0];
    let a = rows(k); let b = rows(kids(q)[0]);
    let x = rows(p); let y = rows(q);
    if a.len() == 1 {
        assert forall|i: int| 0 <= i < x.len() implies kept1(x[i], #[trigger] y[i], f) by {
            assert(kept1(a[i], b[i], f));
            let k = choose|k: int| k >= f && b[i] == #[trigger] cut(a[i], k);
            assert(project(q, b[i]) =~= cut(project(p, a[i]), k));
        }
    }
    let m = choose|m: spec_fn(Pos) -> Pos| #[trigger] embeds(a, b, m) && forall|r: Pos| #[trigger] lost(a, b, m, r) ==> covered(b, f, ord(k), at(a, r));
    assert(forall|r: Pos| valid(a, r) <==> #[trigger] valid(x, r));
    assert(forall|r: Pos| valid(b, r) <==> #[trigger] valid(y, r));
    assert forall|r: Pos| #[trigger] valid(y, r) implies valid(x, m(r)) && at(x, m(r)) == at(y, r) by { assert(valid(b, r)); }
    assert(embeds(x, y, m));
    assert forall|r: Pos| #[trigger] lost(x, y, m, r) implies covered(y, f, ord(p), at(x, r)) by {
        assert(lost(a, b, m, r)) by { assert forall|s: Pos| #[trigger] valid(b, s) implies m(s) != r by { assert(valid(y, s)); } assert(valid(x, r)); }
        let n = choose|n: Seq<Pos>| #[trigger] some_of(b, n) && n.len() >= f && forall|i: int| 0 <= i < n.len() ==> ord(k)(at(b, #[trigger] n[i]), at(a, r));
        assert forall|i: int| 0 <= i < n.len() implies valid(y, #[trigger] n[i]) by { assert(valid(b, n[i])); }
        assert(some_of(y, n));
        assert forall|i: int| 0 <= i < n.len() implies ord(p)(at(y, #[trigger] n[i]), at(x, r)) by {
            assert(ord(k)(at(b, n[i]), at(a, r)));
            assert(valid(y, n[i])); assert(valid(b, n[i]));
            assert(at(y, n[i]) == projected(p, at(b, n[i])));
            assert(at(x, r) == projected(p, at(a, r)));
            assert(le(p, projected(p, at(b, n[i])), projected(p, at(a, r))));
        }
    }
}
/// a set of positions that contains n others and one more has more than n
pub proof fn lemma_more(c: Seq<Pos>, n: Seq<Pos>, z: Pos)
    requires c.no_duplicates(), n.no_duplicates(), c.contains(z), !n.contains(z), forall|i: int| 0 <= i < n.len() ==> c.contains(#[trigger] n[i]),
    ensures c.len() > n.len(),
{
    c.unique_seq_to_set(); n.unique_seq_to_set();
    let s = n.to_set().insert(z);
    assert(s.subset_of(c.to_set())) by {
        assert forall|x: Pos| s.contains(x) implies c.to_set().contains(x) by {
            if x != z { assert(n.contains(x)); let i = choose|i: int| 0 <= i < n.len() && n[i] == x; assert(c.contains(n[i])); }
            else { assert(c.contains(z)); }
        }
    }
    assert(!n.to_set().contains(z)) by { if n.to_set().contains(z) { assert(n.contains(z)); } }
    vstd::set_lib::lemma_len_subset(s, c.to_set());
}
pub proof fn lemma_within(c: Seq<Pos>, n: Seq<Pos>)
    requires c.no_duplicates(), n.no_duplicates(), forall|i: int| 0 <= i < n.len() ==> c.contains(#[trigger] n[i]),
    ensures c.len() >= n.len(),
{
    c.unique_seq_to_set(); n.unique_seq_to_set();
    assert(n.to_set().subset_of(c.to_set())) by {
        assert forall|x: Pos| n.to_set().contains(x) implies c.to_set().contains(x) by {
            assert(n.contains(x)); let i = choose|i: int| 0 <= i < n.len() && n[i] == x; assert(c.contains(n[i]));
        }
    }
    vstd::set_lib::lemma_len_subset(n.to_set(), c.to_set());
}
/// what a gathering node makes of the bounded input, it could have made of the whole one
pub proof fn lemma_gather(p: PlanRef, q: PlanRef, n: usize, a: Parts, b: Parts, f: int, o: spec_fn(Row, Row) -> bool, out: Seq<Row>)
    requires enough_left(a, b, f, o), f >= n, same_node(q, p), gathers(q, Some(n), b, out),
        node_spm(p) is Some ==> forall|x: Row, y: Row| #[trigger] o(x, y) ==> spm_le(node_spm(p)->0.order, x, y),
    ensures gathers(p, Some(n), a, out),
{
    let m = choose|m: spec_fn(Pos) -> Pos| #[trigger] embeds(a, b, m) && forall|r: Pos| #[trigger] lost(a, b, m, r) ==> covered(b, f, o, at(a, r));
    let c = choose|c: Seq<Pos>| #[trigger] chosen(q, b, c, out) && c.len() <= n && (c.len() == n || all_of(b, c));
    let d = Seq::new(c.len(), |i: int| m(c[i]));
    assert forall|i: int| 0 <= i < d.len() implies valid(a, #[trigger] d[i]) && at(a, d[i]) == out[i] by { assert(valid(b, c[i])); }
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { assert(valid(b, c[i]) && valid(b, c[j])); }
    assert(some_of(a, d));
    if c.len() < n {
        assert forall|r: Pos| #[trigger] valid(a, r) implies d.contains(r) by {
            if lost(a, b, m, r) {
                let w = choose|w: Seq<Pos>| #[trigger] some_of(b, w) && w.len() >= f && forall|i: int| 0 <= i < w.len() ==> o(at(b, #[trigger] w[i]), at(a, r));
                assert forall|i: int| 0 <= i < w.len() implies c.contains(#[trigger] w[i]) by { assert(valid(b, w[i])); }
                lemma_within(c, w);
            }
            let s = choose|s: Pos| #[trigger] valid(b, s) && m(s) == r;
            assert(c.contains(s));
            let i = choose|i: int| 0 <= i < c.len() && c[i] == s;
            assert(d[i] == r);
        }
        assert(all_of(a, d));
    }
    if node_spm(p) is Some {
        let so = node_spm(p)->0.order;
        axiom_spm_le(so);
        assert forall|k: int, r: Pos| 0 <= k < out.len() && #[trigger] valid(a, r) && !d.contains(r) implies spm_le(so, #[trigger] out[k], at(a, r)) by {
            if lost(a, b, m, r) {
                let w = choose|w: Seq<Pos>| #[trigger] some_of(b, w) && w.len() >= f && forall|i: int| 0 <= i < w.len() ==> o(at(b, #[trigger] w[i]), at(a, r));
                if !spm_le(so, out[k], at(a, r)) {
                    assert(c.contains(c[k]));
                    assert forall|i: int| 0 <= i < w.len() implies c.contains(#[trigger] w[i]) by {
                        assert(o(at(b, w[i]), at(a, r)));
                        assert(valid(b, w[i]));
                        if !c.contains(w[i]) { assert(spm_le(so, out[k], at(b, w[i]))); assert(spm_le(so, at(b, w[i]), at(a, r))); }
                    }
                    if w.contains(c[k]) { let i = choose|i: int| 0 <= i < w.len() && w[i] == c[k]; assert(o(at(b, w[i]), at(a, r))); assert(at(b, c[k]) == out[k]); }
                    lemma_more(c, w, c[k]);
                }
            } else {
                let s = choose|s: Pos| #[trigger] valid(b, s) && m(s) == r;
                if c.contains(s) { let i = choose|i: int| 0 <= i < c.len() && c[i] == s; assert(d[i] == r); }
                assert(valid(b, s));
                assert(spm_le(so, out[k], at(b, s)));
            }
        }
    }
    assert(chosen(p, a, d, out));
}
/// the fetch is enough for the node: it gives the same results from an input bounded by it
pub open spec fn enough(p: PlanRef, f: int) -> bool {
    &&& limits(p)
    &&& (node_gl(p) is Some ==> node_gl(p)->0.fetch is Some && (f >= node_gl(p)->0.skip + node_gl(p)->0.fetch->0 || f >= usize::MAX))
    &&& (node_cp(p) is Some ==> node_cp(p)->0.fetch is Some && f >= node_cp(p)->0.fetch->0)
    &&& (node_spm(p) is Some ==> node_spm(p)->0.fetch is Some && f >= node_spm(p)->0.fetch->0)
}
/// T: no limiting node gives a result it could not have given before
pub proof fn theorem_same_results(p: PlanRef, q: PlanRef, a: Parts, b: Parts, f: int, o: spec_fn(Row, Row) -> bool, out: Parts)
    requires enough(p, f), same_node(q, p), holds(a, b, f, o), gives(q, b, out),
        node_spm(p) is Some ==> forall|x: Row, y: Row| #[trigger] o(x, y) ==> spm_le(node_spm(p)->0.order, x, y),
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).len() <= usize::MAX,
    ensures gives(p, a, out),
{
    axiom_fetch(p); axiom_fetch(q);
    if node_gl(p) is Some {
        assert(a.len() == 1);
        assert(kept1(a[0], b[0], f));
        let k = choose|k: int| k >= f && b[0] == #[trigger] cut(a[0], k);
        let g = node_gl(p)->0; let n = g.fetch->0 as int;
        let ra = if g.skip >= a[0].len() { Seq::empty() } else { a[0].subrange(g.skip as int, a[0].len() as int) };
        let rb = if g.skip >= b[0].len() { Seq::empty() } else { b[0].subrange(g.skip as int, b[0].len() as int) };
        assert(cut(ra, n) =~= cut(rb, n));
    } else if node_cp(p) is Some {
        lemma_gather(p, q, node_cp(p)->0.fetch->0, a, b, f, o, out[0]);
    } else {
        lemma_gather(p, q, node_spm(p)->0.fetch->0, a, b, f, o, out[0]);
    }
}

// ------------------------------------------------------------------ the code
//@fn src/execution_plans/network_coalesce.rs apply_fetch_through_projection
//@ args: plan fetch
//@ spec: requires fetch > 0,
//@   ensures r is Ok ==> holds(rows(plan), rows(r->Ok_0), fetch as int, ord(plan)),
//@ entry: lemma_same(plan, fetch as int); lemma_cut(plan, fetch as int);
//@   axiom_projection(plan);
//@   if node_p(plan) is Some { lemma_cut(kids(plan)[0], fetch as int); }
//@   assert forall|q: PlanRef| #![trigger rows(q)] node_p(plan) is Some && same_node(q, plan) && kids(q).len() == 1 && holds(rows(kids(plan)[0]), rows(kids(q)[0]), fetch as int, ord(kids(plan)[0])) implies holds(rows(plan), rows(q), fetch as int, ord(plan)) by { lemma_project(plan, q, fetch as int); }
//@ closure 0: |existing: usize| -> (b: bool) ensures b == (existing <= fetch)
//@ closure 1: -> (o: PlanRef) ensures rows(o) == cut_all(rows(node_p(plan)->0.input), fetch as int)
//@ closure 2: |existing: usize| -> (b: bool) ensures b == (existing <= fetch)
//@ closure 3: -> (o: PlanRef) ensures rows(o) == cut_all(rows(plan), fetch as int)
//@end
impl NetworkCoalesceExec {
//@fn src/execution_plans/network_coalesce.rs NetworkCoalesceExec::with_fetch_on_input_stage
//@ args: fetch
//@ spec: requires fetch > 0,
//@   ensures r is Ok ==> node_nc(r->Ok_0) is Some && bounded(*self, node_nc(r->Ok_0)->0, fetch as int),
//@end
}
/// the same boundary over a producer stage that is the same but for the bound
pub open spec fn bounded(a: NetworkCoalesceExec, b: NetworkCoalesceExec, f: int) -> bool {
    &&& b.properties == a.properties && b.worker_connections == a.worker_connections
    &&& (a.input_stage is Remote ==> b.input_stage == a.input_stage)
    &&& (a.input_stage is Local ==> b.input_stage is Local && {
        let (x, y) = (a.input_stage->Local_0, b.input_stage->Local_0);
        y.query_id == x.query_id && y.num == x.num && y.tasks == x.tasks && holds(rows(x.plan), rows(y.plan), f, ord(x.plan))
    })
}
//@fn src/distributed_planner/push_fetch_into_network_coalesce.rs fetch_required_from_child
//@ args: plan
//@ spec: ensures r is Some ==> enough(*plan, r->0 as int),
//@ entry: axiom_fetch(*plan);
//@ closure 0: |fetch: usize| -> (o: Option<usize>) ensures o == (if fetch + global_limit.skip <= usize::MAX { Some((fetch + global_limit.skip) as usize) } else { None::<usize> })
//@end
/// each child as it was, or a boundary whose producer stage is bounded
pub open spec fn child_ok(a: PlanRef, b: PlanRef, f: int) -> bool {
    b == a || node_nc(a) is Some && node_nc(b) is Some && bounded(node_nc(a)->0, node_nc(b)->0, f)
}
pub proof fn lemma_child(a: PlanRef, b: PlanRef, f: int)
    requires child_ok(a, b, f), node_nc(a) is Some ==> node_nc(a)->0.input_stage is Local,
    ensures holds(rows(a), rows(b), f, ord(a)),
{ lemma_same(a, f); axiom_coalesce(a); axiom_coalesce(b); }

//@fn src/distributed_planner/push_fetch_into_network_coalesce.rs push_fetch_into_network_coalesce#c0 as push_into_node
//@ sig: pub fn $name(node: PlanRef) -> (r: Result<Transformed>)
//@ spec: ensures r is Ok ==> unchanged_but_bounded(node, r->Ok_0.data),
//@ subst: .map(Transformed::yes) => .vx_yes()
//@ loop 0: invariant fetch_ok(node, fetch), fetch > 0, it0.seq().len() == kids(node).len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == kids(node)[i], __vx_v@.len() == it0.index(), forall|i: int| 0 <= i < __vx_v@.len() ==> child_ok(kids(node)[i], #[trigger] __vx_v@[i], fetch as int),
//@end
pub open spec fn fetch_ok(p: PlanRef, f: usize) -> bool { enough(p, f as int) }
/// the node itself, or the same node over children bounded by what is enough for it
pub open spec fn unchanged_but_bounded(p: PlanRef, q: PlanRef) -> bool {
    q == p || exists|f: int| #[trigger] enough(p, f) && same_node(q, p) && kids(q).len() == kids(p).len() && forall|i: int| 0 <= i < kids(p).len() ==> child_ok(kids(p)[i], #[trigger] kids(q)[i], f)
}
pub trait VxYes { spec fn val(self) -> Result<PlanRef>; fn vx_yes(self) -> (r: Result<Transformed>) ensures r is Ok ==> self.val() is Ok && r->Ok_0.data == self.val()->Ok_0; }
impl VxYes for Result<PlanRef> { open spec fn val(self) -> Result<PlanRef> { self } fn vx_yes(self) -> (r: Result<Transformed>) { match self { Ok(p) => Ok(Transformed::yes(p)), Err(e) => Err(e) } } }

/// T: a limiting node over one boundary gives only results it could give before the push-down, for every input
pub proof fn theorem_no_row_lost(p: PlanRef, q: PlanRef, out: Parts)
    requires unchanged_but_bounded(p, q), limits(p), kids(p).len() == 1, node_nc(kids(p)[0]) is Some ==> node_nc(kids(p)[0])->0.input_stage is Local,
        // a merge gets input sorted by its order (DataFusion's required_input_ordering)
        node_spm(p) is Some ==> forall|x: Row, y: Row| #[trigger] le(kids(p)[0], x, y) ==> spm_le(node_spm(p)->0.order, x, y),
        forall|i: int| 0 <= i < rows(kids(p)[0]).len() ==> (#[trigger] rows(kids(p)[0])[i]).len() <= usize::MAX,
        gives(q, rows(kids(q)[0]), out),
    ensures gives(p, rows(kids(p)[0]), out),
{
    if q != p {
        let f = choose|f: int| #[trigger] enough(p, f) && same_node(q, p) && kids(q).len() == kids(p).len() && forall|i: int| 0 <= i < kids(p).len() ==> child_ok(kids(p)[i], #[trigger] kids(q)[i], f);
        lemma_child(kids(p)[0], kids(q)[0], f);
        theorem_same_results(p, q, rows(kids(p)[0]), rows(kids(q)[0]), f, ord(kids(p)[0]), out);
    }
}
} // verus!
fn main() {}
