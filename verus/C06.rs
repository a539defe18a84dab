//@include lib/base.rs
//@include lib/net.rs
//@arcclone
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@strip std datafusion::common
// of the floating-point shares only this is used: rounded down, they add up to no more than the budget
verus! {
global size_of usize == 8;
pub type Slot = Vec<(usize, DistributedTaskContext)>;
pub open spec fn sum(s: Seq<usize>, n: int) -> int decreases n { if n <= 0 { 0 } else { sum(s, n - 1) + s[n - 1] } }
pub proof fn lemma_sum_mono(s: Seq<usize>, a: int, b: int) requires 0 <= a <= b <= s.len(), ensures 0 <= sum(s, a) <= sum(s, b) decreases b
{ if b > a { lemma_sum_mono(s, a, b - 1); } else { lemma_sum_nonneg(s, a); } }
pub proof fn lemma_sum_nonneg(s: Seq<usize>, a: int) requires 0 <= a <= s.len(), ensures 0 <= sum(s, a) decreases a { if a > 0 { lemma_sum_nonneg(s, a - 1); } }
pub proof fn lemma_sum_le(a: Seq<usize>, b: Seq<usize>, n: int) requires 0 <= n <= a.len(), a.len() == b.len(), forall|i: int| 0 <= i < n ==> a[i] <= b[i], ensures sum(a, n) <= sum(b, n) decreases n
{ if n > 0 { lemma_sum_le(a, b, n - 1); } }
pub proof fn lemma_sum_one(s: Seq<usize>, n: int, i: int) requires 0 <= i < n <= s.len(), ensures s[i] <= sum(s, n) decreases n
{ if n - 1 > i { lemma_sum_one(s, n - 1, i); } else { lemma_sum_nonneg(s, n - 1); } }
pub proof fn lemma_sum_upd(s: Seq<usize>, t: Seq<usize>, n: int, i: int) requires 0 <= n <= s.len(), 0 <= i < s.len(), t == s.update(i, t[i]), t.len() == s.len(), ensures sum(t, n) == sum(s, n) + (if i < n { t[i] - s[i] } else { 0 }) decreases n
{ if n > 0 { lemma_sum_upd(s, t, n - 1, i); } }
// ------------------------------------------------------------------ the layout
/// tasks given to child c: its share, or one when it has to go along with another child
pub open spec fn k(counts: Seq<usize>, c: int) -> int { if counts[c] == 0 { 1 } else { counts[c] as int } }
/// children without a share among the first n
pub open spec fn zeros(counts: Seq<usize>, n: int) -> int decreases n { if n <= 0 { 0 } else { zeros(counts, n - 1) + if counts[n - 1] == 0 { 1int } else { 0 } } }
pub open spec fn is_entry(e: (usize, DistributedTaskContext), c: int, i: int, n: int) -> bool { e.0 == c && e.1.task_index == i && e.1.task_count == n }
/// every entry names a child and one of its tasks
pub open spec fn named(m: Seq<Slot>, counts: Seq<usize>) -> bool {
    forall|t: int, j: int| #![trigger m[t]@[j]] 0 <= t < m.len() && 0 <= j < m[t]@.len() ==> m[t]@[j].0 < counts.len() && m[t]@[j].1.task_count == k(counts, m[t]@[j].0 as int) && m[t]@[j].1.task_index < m[t]@[j].1.task_count
}
/// no two entries are of the same task of the same child
pub open spec fn once(m: Seq<Slot>) -> bool {
    forall|t: int, j: int, u: int, l: int| #![trigger m[t]@[j], m[u]@[l]] 0 <= t < m.len() && 0 <= j < m[t]@.len() && 0 <= u < m.len() && 0 <= l < m[u]@.len()
        && m[t]@[j].0 == m[u]@[l].0 && m[t]@[j].1.task_index == m[u]@[l].1.task_index ==> t == u && j == l
}
pub open spec fn occurs(m: Seq<Slot>, c: int, i: int, n: int) -> bool { exists|t: int, j: int| 0 <= t < m.len() && 0 <= j < m[t]@.len() && is_entry(#[trigger] m[t]@[j], c, i, n) }
/// every task of every child has an entry
pub open spec fn all_there(m: Seq<Slot>, counts: Seq<usize>) -> bool { forall|c: int, i: int| #![trigger occurs(m, c, i, k(counts, c))] 0 <= c < counts.len() && 0 <= i < k(counts, c) ==> occurs(m, c, i, k(counts, c)) }
pub open spec fn laid(m: Seq<Slot>, counts: Seq<usize>) -> bool {
    named(m, counts) && once(m) && all_there(m, counts) && (forall|t: int| 0 <= t < m.len() ==> (#[trigger] m[t])@.len() <= counts.len() + 1) && sum(counts, counts.len() as int) <= m.len()
}
pub open spec fn within(counts: Seq<usize>, w: Seq<ChildWeight>) -> bool { counts.len() == w.len() && forall|c: int| 0 <= c < w.len() ==> ((#[trigger] w[c]).max is Some ==> counts[c] <= w[c].max->0) }
// ------------------------------------------------------------------ floating point
//@struct src/execution_plans/children_isolator_union.rs ChildWeight
impl Clone for ChildWeight { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for ChildWeight {}
pub assume_specification[ f64::is_finite ](x: f64) -> bool;
/// shares of a budget: rounded down, they add up to no more than it
pub uninterp spec fn shares(w: Seq<f64>, budget: usize) -> Seq<f64>;
pub uninterp spec fn fl(x: f64) -> usize;
pub open spec fn floors(x: Seq<f64>) -> Seq<usize> { x.map_values(|v: f64| fl(v)) }
#[verifier::external_body] pub fn vx_total(w: &Vec<f64>) -> f64 { unimplemented!() }
#[verifier::external_body] pub fn vx_shares(w: &Vec<f64>, budget: usize) -> (r: Vec<f64>) ensures r@.len() == w@.len(), sum(floors(r@), r@.len() as int) <= budget { unimplemented!() }
#[verifier::external_body] pub fn vx_floor(x: &f64) -> (r: usize) ensures r == fl(*x) { unimplemented!() }
#[verifier::external_body] pub fn vx_enum_sl<T>(v: &[T]) -> (r: Vec<(usize, &T)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == (i as usize, &v@[i]) { unimplemented!() }
#[verifier::external_body] pub fn vx_usum(v: &Vec<usize>) -> (r: usize) requires sum(v@, v@.len() as int) <= usize::MAX ensures r == sum(v@, v@.len() as int) { unimplemented!() }
/// `a.iter_mut().zip(b)`, with the indexes
#[verifier::external_body] pub fn vx_slots(n: usize) -> (r: Vec<Slot>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0 { unimplemented!() }
pub open spec fn among(o: Seq<usize>, c: int) -> bool { exists|i: int| 0 <= i < o.len() && #[trigger] o[i] == c }
pub open spec fn permutes(o: Seq<usize>, n: int) -> bool { o.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] o[i] < n) && forall|c: int| #![trigger among(o, c)] 0 <= c < n ==> among(o, c) }
#[verifier::external_body] pub fn vx_sort(o: &mut Vec<usize>, n: usize) requires permutes(old(o)@, n as int) ensures permutes(final(o)@, n as int) { unimplemented!() }
pub open spec fn pos(c: Seq<usize>, i: int, j: int) -> int { sum(c, i) + j }
pub proof fn lemma_pos(c: Seq<usize>, a: int, i: int, b: int, j: int)
    requires 0 <= a < c.len(), 0 <= b < c.len(), 0 <= i < c[a], 0 <= j < c[b], pos(c, a, i) == pos(c, b, j), ensures a == b, i == j
{ if a < b { lemma_sum_mono(c, a + 1, b); } else if b < a { lemma_sum_mono(c, b + 1, a); } }
/// child i's tasks take consecutive slots, one each
pub open spec fn first(m: Seq<Slot>, c: Seq<usize>, upto: int) -> bool {
    &&& forall|t: int| #![trigger m[t]] 0 <= t < upto ==> m[t]@.len() >= 1
    &&& forall|a: int, i: int| #![trigger pos(c, a, i)] 0 <= a < c.len() && 0 <= i < c[a] && pos(c, a, i) < upto ==> is_entry(m[pos(c, a, i)]@[0], a, i, c[a] as int)
    &&& forall|t: int| #![trigger m[t]] 0 <= t < upto ==> m[t]@[0].0 < c.len() && m[t]@[0].1.task_index < c[m[t]@[0].0 as int] && m[t]@[0].1.task_count == c[m[t]@[0].0 as int] && t == pos(c, m[t]@[0].0 as int, m[t]@[0].1.task_index as int)
}
pub open spec fn bare(m: Seq<Slot>, upto: int) -> bool { (forall|t: int| #![trigger m[t]] 0 <= t < upto ==> m[t]@.len() == 1) && forall|t: int| #![trigger m[t]] upto <= t < m.len() ==> m[t]@.len() == 0 }
/// children without a share go along, in turn, with those that have one
pub open spec fn alongside(m: Seq<Slot>, c: Seq<usize>, upto: int, z: int) -> bool {
    &&& forall|t: int, j: int| #![trigger m[t]@[j]] 0 <= t < m.len() && 1 <= j < m[t]@.len() ==> m[t]@[j].0 < z && c[m[t]@[j].0 as int] == 0 && m[t]@[j].1.task_index == 0 && m[t]@[j].1.task_count == 1 && t == zeros(c, m[t]@[j].0 as int) % upto
    &&& forall|t: int, j: int, l: int| #![trigger m[t]@[j], m[t]@[l]] 0 <= t < m.len() && 1 <= j < l < m[t]@.len() ==> m[t]@[j].0 < m[t]@[l].0
    &&& forall|a: int| #![trigger zeros(c, a)] 0 <= a < z && c[a] == 0 ==> sits(m, zeros(c, a) % upto, a)
    &&& forall|t: int| #![trigger m[t]] 0 <= t < m.len() ==> m[t]@.len() <= z + 1
    &&& forall|t: int| #![trigger m[t]] upto <= t < m.len() ==> m[t]@.len() == 0
}
pub open spec fn sits(m: Seq<Slot>, t: int, a: int) -> bool { exists|j: int| 1 <= j < m[t]@.len() && (#[trigger] m[t]@[j]).0 == a }
pub open spec fn capped(c: Seq<usize>, w: Seq<ChildWeight>) -> bool { forall|a: int| 0 <= a < c.len() ==> c[a] >= 1 && (#[trigger] w[a]).max is Some }
pub proof fn lemma_zeros(c: Seq<usize>, n: int) requires 0 <= n <= c.len(), ensures 0 <= zeros(c, n) <= n decreases n { if n > 0 { lemma_zeros(c, n - 1); } }
pub proof fn lemma_none(m: Seq<Slot>, c: Seq<usize>) ensures first(m, c, 0)
{ assert forall|a: int, i: int| #![trigger pos(c, a, i)] 0 <= a < c.len() && 0 <= i < c[a] implies pos(c, a, i) >= 0 by { lemma_sum_nonneg(c, a); } }
pub proof fn lemma_put(m: Seq<Slot>, m2: Seq<Slot>, c: Seq<usize>, a: int, i: int)
    requires 0 <= a < c.len(), 0 <= i < c[a], 0 <= pos(c, a, i) < m.len(), first(m, c, pos(c, a, i)), bare(m, pos(c, a, i)), m2.len() == m.len(), sum(c, c.len() as int) <= m.len(),
        forall|t: int| 0 <= t < m.len() && t != pos(c, a, i) ==> m2[t]@ == m[t]@, m2[pos(c, a, i)]@.len() == 1, is_entry(m2[pos(c, a, i)]@[0], a, i, c[a] as int)
    ensures first(m2, c, pos(c, a, i) + 1), bare(m2, pos(c, a, i) + 1)
{
    let p = pos(c, a, i);
    assert forall|b: int, j: int| #![trigger pos(c, b, j)] 0 <= b < c.len() && 0 <= j < c[b] && pos(c, b, j) < p + 1 implies is_entry(m2[pos(c, b, j)]@[0], b, j, c[b] as int) by {
        lemma_sum_nonneg(c, b);
        if pos(c, b, j) == p { lemma_pos(c, a, i, b, j); } else { assert(m2[pos(c, b, j)]@ == m[pos(c, b, j)]@); }
    }
    assert forall|t: int| #![trigger m2[t]] 0 <= t < p + 1 implies m2[t]@.len() == 1 && m2[t]@[0].0 < c.len() && m2[t]@[0].1.task_index < c[m2[t]@[0].0 as int] && m2[t]@[0].1.task_count == c[m2[t]@[0].0 as int] && t == pos(c, m2[t]@[0].0 as int, m2[t]@[0].1.task_index as int) by {
        if t != p { assert(m2[t]@ == m[t]@); }
    }
    assert forall|t: int| #![trigger m2[t]] p + 1 <= t < m2.len() implies m2[t]@.len() == 0 by { assert(m2[t]@ == m[t]@); }
}
pub proof fn lemma_along(m: Seq<Slot>, m2: Seq<Slot>, c: Seq<usize>, upto: int, a: int)
    requires 0 <= a < c.len(), c[a] == 0, 0 < upto <= m.len(), first(m, c, upto), alongside(m, c, upto, a), m2.len() == m.len(),
        forall|t: int| 0 <= t < m.len() && t != zeros(c, a) % upto ==> m2[t]@ == m[t]@, m2[zeros(c, a) % upto]@.drop_last() == m[zeros(c, a) % upto]@, m2[zeros(c, a) % upto]@.len() > 0, is_entry(m2[zeros(c, a) % upto]@.last(), a, 0, 1)
    ensures first(m2, c, upto), alongside(m2, c, upto, a + 1)
{
    lemma_zeros(c, a);
    let p = zeros(c, a) % upto;
    lemma_mod_bound(zeros(c, a), upto);
    assert(m[p]@.len() >= 1);
    assert(forall|j: int| 0 <= j < m[p]@.len() ==> m2[p]@[j] == m[p]@.index(j)) by { assert forall|j: int| 0 <= j < m[p]@.len() implies m2[p]@[j] == m[p]@.index(j) by { assert(m2[p]@.drop_last()[j] == m2[p]@[j]); } }
    assert forall|t: int| #![trigger m2[t]] 0 <= t < upto implies m2[t]@.len() >= 1 && m2[t]@[0] == m[t]@[0] by { if t != p { assert(m2[t]@ == m[t]@); } else { assert(m[p]@.len() >= 1); } }
    assert(first(m2, c, upto)) by {
        assert forall|b: int, j: int| #![trigger pos(c, b, j)] 0 <= b < c.len() && 0 <= j < c[b] && pos(c, b, j) < upto implies is_entry(m2[pos(c, b, j)]@[0], b, j, c[b] as int) by { lemma_sum_nonneg(c, b); assert(m2[pos(c, b, j)]@[0] == m[pos(c, b, j)]@[0]); }
        assert forall|t: int| #![trigger m2[t]] 0 <= t < upto implies t == pos(c, m2[t]@[0].0 as int, m2[t]@[0].1.task_index as int) && m2[t]@[0].0 < c.len() && m2[t]@[0].1.task_index < c[m2[t]@[0].0 as int] && m2[t]@[0].1.task_count == c[m2[t]@[0].0 as int] by { assert(m[t]@[0] == m2[t]@[0]); }
    }
    assert forall|t: int, j: int| #![trigger m2[t]@[j]] 0 <= t < m2.len() && 1 <= j < m2[t]@.len() implies m2[t]@[j].0 < a + 1 && c[m2[t]@[j].0 as int] == 0 && m2[t]@[j].1.task_index == 0 && m2[t]@[j].1.task_count == 1 && t == zeros(c, m2[t]@[j].0 as int) % upto by {
        if t == p && j == m2[p]@.len() - 1 { } else { assert(m2[t]@[j] == m[t]@[j]); }
    }
    assert forall|t: int, j: int, l: int| #![trigger m2[t]@[j], m2[t]@[l]] 0 <= t < m2.len() && 1 <= j < l < m2[t]@.len() implies m2[t]@[j].0 < m2[t]@[l].0 by {
        assert(m2[t]@[j] == m[t]@[j]);
        if t == p && l == m2[p]@.len() - 1 { } else { assert(m2[t]@[l] == m[t]@[l]); }
    }
    assert forall|b: int| #![trigger zeros(c, b)] 0 <= b < a + 1 && c[b] == 0 implies sits(m2, zeros(c, b) % upto, b) by {
        lemma_zeros(c, b); lemma_mod_bound(zeros(c, b), upto);
        let t = zeros(c, b) % upto;
        if b == a { let j = m2[p]@.len() - 1; assert(m2[p]@[j].0 == a); } else { assert(sits(m, t, b)); let j = choose|j: int| 1 <= j < m[t]@.len() && (#[trigger] m[t]@[j]).0 == b; assert(m2[t]@[j] == m[t]@[j]); }
    }
    assert forall|t: int| #![trigger m2[t]] 0 <= t < m2.len() implies m2[t]@.len() <= a + 2 && (t >= upto ==> m2[t]@.len() == 0) by { if t != p { assert(m2[t]@ == m[t]@); } else { assert(m[p]@.len() <= a + 1); } }
}
pub proof fn lemma_laid(m: Seq<Slot>, c: Seq<usize>)
    requires 0 < sum(c, c.len() as int) <= m.len(), first(m, c, sum(c, c.len() as int)), alongside(m, c, sum(c, c.len() as int), c.len() as int), ensures laid(m, c)
{
    let u = sum(c, c.len() as int);
    assert forall|t: int, j: int| #![trigger m[t]@[j]] 0 <= t < m.len() && 0 <= j < m[t]@.len() implies t < u && m[t]@[j].0 < c.len() && m[t]@[j].1.task_count == k(c, m[t]@[j].0 as int) && m[t]@[j].1.task_index < m[t]@[j].1.task_count by {
        if t >= u { assert(m[t]@.len() == 0); }
    }
    assert forall|t: int, j: int, v: int, l: int| #![trigger m[t]@[j], m[v]@[l]] 0 <= t < m.len() && 0 <= j < m[t]@.len() && 0 <= v < m.len() && 0 <= l < m[v]@.len()
        && m[t]@[j].0 == m[v]@[l].0 && m[t]@[j].1.task_index == m[v]@[l].1.task_index implies t == v && j == l by {
        assert(t < u && v < u);
        if j == 0 && l == 0 { let _ = m[t]; let _ = m[v]; }
        else if j == 0 { let _ = m[t]; }
        else if l == 0 { let _ = m[v]; }
        else { if j < l { assert(m[t]@[j].0 < m[t]@[l].0); } else if l < j { assert(m[t]@[l].0 < m[t]@[j].0); } }
    }
    assert forall|a: int, i: int| #![trigger occurs(m, a, i, k(c, a))] 0 <= a < c.len() && 0 <= i < k(c, a) implies occurs(m, a, i, k(c, a)) by {
        if c[a] == 0 {
            lemma_zeros(c, a); lemma_mod_bound(zeros(c, a), u);
            let t = zeros(c, a) % u;
            assert(sits(m, t, a)); let j = choose|j: int| 1 <= j < m[t]@.len() && (#[trigger] m[t]@[j]).0 == a;
            assert(is_entry(m[t]@[j], a, i, k(c, a)));
        } else {
            lemma_sum_nonneg(c, a); lemma_sum_mono(c, a + 1, c.len() as int);
            let t = pos(c, a, i); assert(t < u);
            assert(is_entry(m[t]@[0], a, i, k(c, a))); assert(m[t]@.len() >= 1);
        }
    }
}
//@fn src/execution_plans/children_isolator_union.rs split_children
//@ spec: requires children@.len() <= 0x7fff_ffff,
//@   ensures r is Ok ==> r->Ok_0@.len() == task_count_budget && task_count_budget > 0 && exists|counts: Seq<usize>| #[trigger] laid(r->Ok_0@, counts) && within(counts, children@),
//@ subst: vx_enum_ref(&children).into_iter() => vx_enum_sl(children)
//@ subst: vx_enum_ref(&child_task_counts).into_iter() => vx_enum_ref(&child_task_counts)
//@ subst: child_weights.iter().sum() => vx_total(&child_weights)
//@ subst: if total_weight > 0.0 {$..} else {$..}; => vx_shares(&child_weights, task_count_budget);
//@ subst: x.floor() as usize => vx_floor(x)
//@ subst: let allocated_task_counts: usize = child_task_counts.iter().sum(); => proof { lemma_sum_le(child_task_counts@, floors(unrounded_child_task_counts@), floors(unrounded_child_task_counts@).len() as int); } let allocated_task_counts: usize = vx_usum(&child_task_counts);
//@ subst: order.sort_by($..); => assert(permutes(order@, child_count as int)) by { assert forall|c: int| #![trigger among(order@, c)] 0 <= c < child_count implies among(order@, c) by { assert(order@[c] == c); } } vx_sort(&mut order, child_count);
//@ subst: let mut result = vec![vec![]; task_count_budget]; => proof { let w0 = children@[0].max; lemma_sum_one(child_task_counts@, child_count as int, 0); lemma_sum_nonneg(child_task_counts@, child_count as int); assert(sum(child_task_counts@, child_count as int) > 0); } let mut result = vx_slots(task_count_budget); proof { lemma_none(result@, child_task_counts@); }
//@ subst: Ok(result) => proof { lemma_laid(result@, child_task_counts@); } Ok(result)
//@ closure 0: -
//@ closure 1: -
//@ closure 2: -> (r: usize) ensures r == fl(*x)
//@ closure 3: -
//@ loop 0: invariant forall|i: int| 0 <= i < it0.index() ==> !((#[trigger] children@[i]).max == Some(0usize)), it0.seq().len() == children@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] it0.seq()[i] == (i as usize, &children@[i]),
//@ loop 1: invariant child_task_counts@.len() == children@.len(), floors(unrounded_child_task_counts@).len() == children@.len(), it1.seq().len() == children@.len(),
//@     forall|a: int| 0 <= a < it1.index() ==> ((#[trigger] children@[a]).max is Some ==> child_task_counts@[a] <= children@[a].max->0),
//@     forall|a: int| 0 <= a < children@.len() ==> #[trigger] child_task_counts@[a] <= floors(unrounded_child_task_counts@)[a],
//@ loop 2: invariant child_task_counts@.len() == children@.len(), child_count == children@.len(), within(child_task_counts@, children@), sum(child_task_counts@, child_count as int) + unallocated_task_counts == task_count_budget, permutes(order@, child_count as int),
//@     forall|i: int| 0 <= i < children@.len() ==> !((#[trigger] children@[i]).max == Some(0usize)),
//@     children@.len() > 0,
//@   ensures unallocated_task_counts == 0 || capped(child_task_counts@, children@)
//@   decreases unallocated_task_counts
//@   ghost: let ghost u0 = unallocated_task_counts;
//@ loop 3: invariant child_task_counts@.len() == children@.len(), child_count == children@.len(), within(child_task_counts@, children@), sum(child_task_counts@, child_count as int) + unallocated_task_counts == task_count_budget, permutes(order@, child_count as int),
//@     it3.seq().len() == order@.len(), forall|i: int| 0 <= i < order@.len() ==> *(#[trigger] it3.seq()[i]) == order@[i], 
//@     forall|i: int| 0 <= i < children@.len() ==> !((#[trigger] children@[i]).max == Some(0usize)), u0 > 0,
//@     made_progress ==> unallocated_task_counts < u0, !made_progress ==> unallocated_task_counts == u0 && forall|j: int| 0 <= j < it3.index() ==> children@[#[trigger] order@[j] as int].max is Some && child_task_counts@[order@[j] as int] >= 1,
//@     !made_progress && it3.index() == it3.seq().len() ==> capped(child_task_counts@, children@), children@.len() > 0,
//@   ensures made_progress ==> unallocated_task_counts < u0, !made_progress ==> capped(child_task_counts@, children@)
//@   ghost: let ghost cb = child_task_counts@;
//@   body: let x = order@[it3.index()]; assert(*it3.seq()[it3.index()] == x); lemma_sum_one(cb, child_count as int, x as int);
//@   after: if child_task_counts@ != cb { lemma_sum_upd(cb, child_task_counts@, child_count as int, order@[it3.index()] as int); } if !made_progress && it3.index() + 1 == order@.len() { assert forall|a: int| 0 <= a < child_task_counts@.len() implies child_task_counts@[a] >= 1 && (#[trigger] children@[a]).max is Some by { assert(among(order@, a)); let j = choose|j: int| 0 <= j < order@.len() && #[trigger] order@[j] == a; } }
//@ loop 4: invariant it4.seq().len() == children@.len(), child_task_counts@.len() == children@.len(), forall|i: int| 0 <= i < it4.seq().len() ==> #[trigger] it4.seq()[i] == (i as usize, &child_task_counts@[i]), result@.len() == task_count_budget, sum(child_task_counts@, children@.len() as int) <= task_count_budget,
//@     task_idx == sum(child_task_counts@, it4.index()), first(result@, child_task_counts@, task_idx as int), bare(result@, task_idx as int),
//@   body: lemma_sum_mono(child_task_counts@, it4.index() + 1, children@.len() as int);
//@ loop 5: invariant child_task_counts@.len() == children@.len(), child_idx < children@.len(), task_count == child_task_counts@[child_idx as int], result@.len() == task_count_budget, sum(child_task_counts@, child_idx + 1) <= sum(child_task_counts@, children@.len() as int) <= task_count_budget,
//@     task_idx == pos(child_task_counts@, child_idx as int, it5.index()), first(result@, child_task_counts@, task_idx as int), bare(result@, task_idx as int), it5.seq().len() == task_count,
//@   ghost: let ghost mb = result@;
//@   body: lemma_sum_nonneg(child_task_counts@, child_idx as int);
//@   after: lemma_put(mb, result@, child_task_counts@, child_idx as int, it5.index());
//@ loop 6: invariant it6.seq().len() == children@.len(), child_task_counts@.len() == children@.len(), forall|i: int| 0 <= i < it6.seq().len() ==> #[trigger] it6.seq()[i] == (i as usize, &child_task_counts@[i]), result@.len() == task_count_budget, 0 < task_idx <= result@.len(),
//@     zero_alloc_i == zeros(child_task_counts@, it6.index()), children@.len() <= 0x7fff_ffff, first(result@, child_task_counts@, task_idx as int), alongside(result@, child_task_counts@, task_idx as int, it6.index()),
//@   ghost: let ghost mb = result@;
//@   body: lemma_zeros(child_task_counts@, it6.index()); lemma_mod_bound(zeros(child_task_counts@, it6.index()), task_idx as int);
//@   after: if child_task_counts@[it6.index()] == 0 { let p = zeros(child_task_counts@, it6.index()) % (task_idx as int); assert(result@[p]@.drop_last() =~= mb[p]@); lemma_along(mb, result@, child_task_counts@, task_idx as int, it6.index()); }
//@end
// ------------------------------------------------------------------ the operator
#[verifier::external_body] #[derive(Default)] pub struct ExecutionPlanMetricsSet { _x: u8 }
impl Clone for ExecutionPlanMetricsSet { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body] pub fn vx_vclone<T: Clone>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub struct BaselineMetrics { _x: u8 }
#[verifier::external_body] pub struct Time { _x: u8 }
impl Clone for Time { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Time { #[verifier::external_body] pub fn timer(&self) -> u8 { unimplemented!() } }
impl BaselineMetrics { #[verifier::external_body] pub fn new(m: &ExecutionPlanMetricsSet, p: usize) -> Self { unimplemented!() } #[verifier::external_body] pub fn elapsed_compute(&self) -> &Time { unimplemented!() } }
/// the rest of the context is not looked at
#[verifier::external_body] pub fn task_ctx_with_extension(ctx: &TaskContext, ext: DistributedTaskContext) -> (r: TaskContext) ensures r.dtc() == ext { unimplemented!() }
#[verifier::external_body] pub struct RecordBatch { _x: u8 }
impl RecordBatch { pub uninterp spec fn rows(&self) -> usize; #[verifier::external_body] pub fn num_rows(&self) -> (r: usize) ensures r == self.rows() { unimplemented!() } #[verifier::external_body] pub fn slice(&self, a: usize, n: usize) -> (r: RecordBatch) requires a + n <= self.rows() ensures r.rows() == n { unimplemented!() } }
pub enum Poll<T> { Ready(T), Pending }
//@struct src/execution_plans/children_isolator_union.rs ObservedStream
impl ObservedStream {
//@fn src/execution_plans/children_isolator_union.rs ObservedStream::new
//@ ret: r
//@ spec: ensures r.inner == inner, r.fetch == fetch,
//@end
//@fn src/execution_plans/children_isolator_union.rs ObservedStream::limit_reached
//@ ret: r
//@ spec: requires old(self).fetch is None,
//@   ensures r == poll,
//@end
}
/// `Box::pin`; the stream passes what it reads through `limit_reached`
#[verifier::external_body] pub fn vx_pin_observed(o: ObservedStream) -> (r: SendableRecordBatchStream) ensures o.fetch is None ==> r == o.inner { unimplemented!() }
#[verifier::external_body] pub struct UnionExec { _x: u8 }
impl UnionExec {
    #[verifier::external_body] pub fn try_new(c: Vec<PlanRef>) -> Result<UnionExec> { unimplemented!() }
    #[verifier::external_body] pub fn properties(&self) -> &Arc<PlanProperties> { unimplemented!() }
}
#[verifier::external_body] pub fn vx_props(p: &Arc<PlanProperties>) -> (r: PlanProperties) ensures r == **p { unimplemented!() }
/// `iter().max()`
#[verifier::external_body] pub fn vx_max(v: &Vec<usize>) -> (r: Option<&usize>)
    ensures r is None <==> v@.len() == 0, r is Some ==> (forall|t: int| 0 <= t < v@.len() ==> #[trigger] v@[t] <= *r->0) && exists|t: int| 0 <= t < v@.len() && #[trigger] v@[t] == *r->0
{ unimplemented!() }
#[verifier::external_body] pub fn vx_zeros(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == 0 { unimplemented!() }
#[verifier::external_body] pub fn vx_usize_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { unimplemented!() }
#[verifier::external_body] pub fn vx_has(v: &Vec<usize>, x: usize) -> (r: bool) ensures r == among(v@, x as int) { unimplemented!() }
pub struct EmptyExec { pub parts: usize }
impl EmptyExec {
    pub fn new(s: SchemaRef) -> (r: EmptyExec) ensures r.parts == 1 { EmptyExec { parts: 1 } }
    pub fn with_partitions(self, n: usize) -> (r: EmptyExec) ensures r.parts == n { EmptyExec { parts: n } }
}
pub uninterp spec fn is_empty(p: PlanRef) -> bool;
#[verifier::external_body] pub fn vx_dyn(e: Arc<EmptyExec>) -> (r: PlanRef) ensures is_empty(r), pcn(r) == e.parts { unimplemented!() }
pub open spec fn pcn(p: PlanRef) -> int { p.props().partitioning.pc() as int }
/// partitions of the first j children run by a task
pub open spec fn off(m: Slot, ch: Seq<PlanRef>, j: int) -> int decreases j { if j <= 0 { 0 } else { off(m, ch, j - 1) + pcn(ch[m@[j - 1].0 as int]) } }
pub open spec fn width(m: Slot, ch: Seq<PlanRef>) -> int { off(m, ch, m@.len() as int) }
pub open spec fn sane(ch: Seq<PlanRef>) -> bool { ch.len() <= 0x3fff_ffff && forall|c: int| 0 <= c < ch.len() ==> pcn(#[trigger] ch[c]) <= 0xffff_ffff }
pub proof fn lemma_off_mono(m: Slot, ch: Seq<PlanRef>, i: int, j: int) requires 0 <= i <= j, ensures off(m, ch, i) <= off(m, ch, j) decreases j
{ if i < j { lemma_off_mono(m, ch, i, j - 1); } }
pub proof fn lemma_off_nonneg(m: Slot, ch: Seq<PlanRef>, i: int) requires 0 <= i, ensures 0 <= off(m, ch, i) decreases i { if i > 0 { lemma_off_nonneg(m, ch, i - 1); } }
pub proof fn lemma_off_max(m: Slot, ch: Seq<PlanRef>, j: int) requires 0 <= j <= m@.len(), sane(ch), forall|l: int| 0 <= l < m@.len() ==> (#[trigger] m@[l]).0 < ch.len(), ensures off(m, ch, j) <= j * 0xffff_ffff decreases j
{ if j > 0 { lemma_off_max(m, ch, j - 1); assert(pcn(ch[m@[j - 1].0 as int]) <= 0xffff_ffff); } }
/// output partition q of a task is partition p of task i of child c
pub open spec fn makes(m: Slot, ch: Seq<PlanRef>, q: int, c: int, i: int, p: int) -> bool {
    exists|j: int| 0 <= j < m@.len() && (#[trigger] m@[j]).0 == c && m@[j].1.task_index == i && off(m, ch, j) <= q < off(m, ch, j + 1) && p == q - off(m, ch, j)
}
/// every partition of every task of every child is produced, by one output partition of one task
pub proof fn theorem_at_least_once(m: Seq<Slot>, ch: Seq<PlanRef>, counts: Seq<usize>, adv: int, c: int, i: int, p: int) -> (w: (int, int))
    requires laid(m, counts), counts.len() == ch.len(), forall|t: int| #![trigger m[t]] 0 <= t < m.len() ==> width(m[t], ch) <= adv, 0 <= c < counts.len(), 0 <= i < k(counts, c), 0 <= p < pcn(ch[c])
    ensures 0 <= w.0 < m.len(), 0 <= w.1 < adv, makes(m[w.0], ch, w.1, c, i, p)
{
    assert(occurs(m, c, i, k(counts, c)));
    let (t, j) = choose|t: int, j: int| 0 <= t < m.len() && 0 <= j < m[t]@.len() && is_entry(#[trigger] m[t]@[j], c, i, k(counts, c));
    let q = off(m[t], ch, j) + p;
    lemma_off_nonneg(m[t], ch, j);
    assert(off(m[t], ch, j + 1) == off(m[t], ch, j) + pcn(ch[c]));
    lemma_off_mono(m[t], ch, j + 1, m[t]@.len() as int);
    assert(m[t]@[j].0 == c);
    (t, q)
}
pub proof fn theorem_at_most_once(m: Seq<Slot>, ch: Seq<PlanRef>, counts: Seq<usize>, t: int, q: int, u: int, r: int, c: int, i: int, p: int)
    requires laid(m, counts), 0 <= t < m.len(), 0 <= u < m.len(), makes(m[t], ch, q, c, i, p), makes(m[u], ch, r, c, i, p)
    ensures t == u, q == r
{
    let j = choose|j: int| 0 <= j < m[t]@.len() && (#[trigger] m[t]@[j]).0 == c && m[t]@[j].1.task_index == i && off(m[t], ch, j) <= q < off(m[t], ch, j + 1) && p == q - off(m[t], ch, j);
    let l = choose|j: int| 0 <= j < m[u]@.len() && (#[trigger] m[u]@[j]).0 == c && m[u]@[j].1.task_index == i && off(m[u], ch, j) <= r < off(m[u], ch, j + 1) && p == r - off(m[u], ch, j);
    assert(m[t]@[j].0 == m[u]@[l].0);
}
/// an output partition is at most one child partition
pub proof fn theorem_one_source(m: Slot, ch: Seq<PlanRef>, q: int, j: int, l: int)
    requires 0 <= j < m@.len(), 0 <= l < m@.len(), off(m, ch, j) <= q < off(m, ch, j + 1), off(m, ch, l) <= q < off(m, ch, l + 1)
    ensures j == l
{ if j < l { lemma_off_mono(m, ch, j + 1, l); } if l < j { lemma_off_mono(m, ch, l + 1, j); } }
//@struct src/execution_plans/children_isolator_union.rs ChildrenIsolatorUnionExec
pub open spec fn hidden(p: PlanRef, q: PlanRef) -> bool { is_empty(q) && pcn(q) == pcn(p) }
impl ChildrenIsolatorUnionExec {
    #[verifier::external_body] pub fn schema(&self) -> SchemaRef { unimplemented!() }
    /// what every constructed operator is: the children in an assignment that runs each of them completely
    pub open spec fn wf(self) -> bool {
        &&& exists|counts: Seq<usize>| #[trigger] laid(self.task_idx_map@, counts) && within(counts, self.child_weights@)
        &&& self.children@.len() == self.child_weights@.len()
        &&& forall|t: int| #![trigger self.task_idx_map@[t]] 0 <= t < self.task_idx_map@.len() ==> width(self.task_idx_map@[t], self.children@) <= self.advertised()
        &&& exists|t: int| 0 <= t < self.task_idx_map@.len() && width(#[trigger] self.task_idx_map@[t], self.children@) == self.advertised()
    }
    pub open spec fn advertised(self) -> int { self.properties.partitioning.pc() as int }
    pub open spec fn counts(self) -> Seq<usize> { choose|counts: Seq<usize>| #[trigger] laid(self.task_idx_map@, counts) && within(counts, self.child_weights@) }
//@fn src/execution_plans/children_isolator_union.rs ChildrenIsolatorUnionExec::from_children_and_weights
//@ sig: pub fn $name(children: Vec<PlanRef>, children_weights: Vec<ChildWeight>, task_count: usize) -> (r: Result<ChildrenIsolatorUnionExec>)
//@ spec: requires sane(children@),
//@   ensures r is Ok ==> r->Ok_0.children@ == children@, r is Ok ==> r->Ok_0.child_weights@ == children_weights@,
//@     r is Ok ==> r->Ok_0.task_idx_map@.len() == task_count,
//@     r is Ok ==> r->Ok_0.wf(),
//@ subst: vec![0; task_idx_map.len()] => vx_zeros(task_idx_map.len())
//@ subst: partition_counts.iter().max() => vx_max(&partition_counts)
//@ subst: UnionExec::try_new(children.clone())?.properties().as_ref().clone() => vx_props(UnionExec::try_new(children.clone())?.properties())
//@ subst: Ok(Self { => proof { assert forall|t: int| #![trigger task_idx_map@[t]] 0 <= t < task_idx_map@.len() implies width(task_idx_map@[t], ch) <= *partition_count by { assert(partition_counts@[t] <= *partition_count); } let t = choose|t: int| 0 <= t < partition_counts@.len() && #[trigger] partition_counts@[t] == *partition_count; assert(width(task_idx_map@[t], ch) == *partition_count); assert(0 <= t < task_idx_map@.len()); assert(exists|t: int| 0 <= t < task_idx_map@.len() && width(#[trigger] task_idx_map@[t], ch) == *partition_count); assert(children@ == ch); assert(weights@ == children_weights@); assert(properties.partitioning.pc() == *partition_count); } Ok(Self {
//@ ghost: let ghost ch = children@;
//@ loop 0: invariant children@ == ch, sane(ch), ch.len() == weights@.len(), task_idx_map@.len() == partition_counts@.len(), task_idx_map@.len() <= usize::MAX, it0.seq().len() == task_idx_map@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] it0.seq()[i] == (i as usize, &task_idx_map@[i]),
//@     exists|counts: Seq<usize>| #[trigger] laid(task_idx_map@, counts) && within(counts, weights@),
//@     forall|t: int| 0 <= t < it0.index() ==> #[trigger] partition_counts@[t] == width(task_idx_map@[t], ch), forall|t: int| it0.index() <= t < partition_counts@.len() ==> #[trigger] partition_counts@[t] == 0,
//@   after: assert(partition_counts@[it0.index()] == width(task_idx_map@[it0.index()], ch));
//@ loop 1: invariant children@ == ch, sane(ch), ch.len() == weights@.len(), t < task_idx_map@.len(), task_idx_map@.len() == partition_counts@.len(), it1.seq().len() == children_in_task@.len(), *children_in_task == task_idx_map@[t as int], forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == children_in_task@[i],
//@     exists|counts: Seq<usize>| #[trigger] laid(task_idx_map@, counts) && within(counts, weights@),
//@     partition_counts@[t as int] == off(*children_in_task, ch, it1.index()), forall|u: int| 0 <= u < t ==> #[trigger] partition_counts@[u] == width(task_idx_map@[u], ch), forall|u: int| t < u < partition_counts@.len() ==> #[trigger] partition_counts@[u] == 0,
//@   body: let m = task_idx_map@[t as int]; let j = it1.index(); assert(*it1.seq()[j] == m@[j]); let counts = choose|counts: Seq<usize>| #[trigger] laid(task_idx_map@, counts) && within(counts, weights@);
//@     assert forall|l: int| 0 <= l < m@.len() implies (#[trigger] m@[l]).0 < ch.len() by { assert(task_idx_map@[t as int]@[l].0 < counts.len()); } lemma_off_max(m, ch, j + 1); assert(m@.len() <= 0x4000_0000); assert(off(m, ch, j + 1) == off(m, ch, j) + pcn(ch[m@[j].0 as int])); assert(off(m, ch, j + 1) <= 0x4000_0000 * 0xffff_ffff) by (nonlinear_arith) requires off(m, ch, j + 1) <= (j + 1) * 0xffff_ffff, j + 1 <= 0x4000_0000;
//@end
//@fn src/execution_plans/children_isolator_union.rs ChildrenIsolatorUnionExec::child_task_counts
//@ ret: r
//@ spec: requires self.wf(),
//@   ensures r@.len() == self.children@.len(), forall|c: int| 0 <= c < r@.len() ==> #[trigger] r@[c] == k(self.counts(), c),
//@ subst: vec![0; self.children.len()] => vx_zeros(self.children.len())
//@ subst: counts[*child_idx].max(child_task_ctx.task_count) => vx_usize_max(counts[*child_idx], child_task_ctx.task_count)
//@ ghost: let ghost cs = self.counts(); let ghost m = self.task_idx_map@;
//@ entry: if m.len() == 0 { assert(cs.len() == 0) by { if cs.len() > 0 { assert(occurs(m, 0, 0, k(cs, 0))); } } }
//@ loop 0: invariant (it0.index() == it0.seq().len() ==> forall|c: int| 0 <= c < cs.len() ==> #[trigger] counts@[c] == k(cs, c)), m == self.task_idx_map@, laid(m, cs), cs.len() == self.children@.len(), counts@.len() == cs.len(), it0.seq().len() == m.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == m[i],
//@     forall|c: int| 0 <= c < cs.len() ==> #[trigger] counts@[c] == 0 || counts@[c] == k(cs, c),
//@     forall|t: int, j: int| #![trigger m[t]@[j]] 0 <= t < it0.index() && 0 <= j < m[t]@.len() ==> counts@[m[t]@[j].0 as int] == k(cs, m[t]@[j].0 as int),
//@   after: if it0.index() + 1 == m.len() { assert forall|c: int| 0 <= c < cs.len() implies #[trigger] counts@[c] == k(cs, c) by { assert(occurs(m, c, 0, k(cs, c))); let (t, j) = choose|t: int, j: int| 0 <= t < m.len() && 0 <= j < m[t]@.len() && is_entry(#[trigger] m[t]@[j], c, 0, k(cs, c)); } }
//@ loop 1: invariant m == self.task_idx_map@, laid(m, cs), cs.len() == self.children@.len(), counts@.len() == cs.len(), 0 <= it0.index() < m.len(), *children_in_task == m[it0.index()], it1.seq().len() == children_in_task@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == children_in_task@[i],
//@     forall|c: int| 0 <= c < cs.len() ==> #[trigger] counts@[c] == 0 || counts@[c] == k(cs, c),
//@     forall|t: int, j: int| #![trigger m[t]@[j]] 0 <= t < m.len() && 0 <= j < m[t]@.len() && (t < it0.index() || t == it0.index() && j < it1.index()) ==> counts@[m[t]@[j].0 as int] == k(cs, m[t]@[j].0 as int),
//@   body: assert(*it1.seq()[it1.index()] == m[it0.index()]@[it1.index()]);
//@end
//@fn src/execution_plans/children_isolator_union.rs ChildrenIsolatorUnionExec::to_task_specialized
//@ ret: r
//@ spec: requires self.wf(), task_i < self.task_idx_map@.len(),
//@   ensures r.task_idx_map@ == self.task_idx_map@, r.children@.len() == self.children@.len(), r.properties == self.properties, r.child_weights@ == self.child_weights@,
//@     forall|j: int| #![trigger self.task_idx_map@[task_i as int]@[j]] 0 <= j < self.task_idx_map@[task_i as int]@.len() ==> r.children@[self.task_idx_map@[task_i as int]@[j].0 as int] == self.children@[self.task_idx_map@[task_i as int]@[j].0 as int],
//@     forall|c: int| 0 <= c < r.children@.len() ==> #[trigger] r.children@[c] == self.children@[c] || hidden(self.children@[c], r.children@[c]),
//@ loop 0: invariant children_to_keep@.len() == it0.index(), task_i < self.task_idx_map@.len(), it0.seq().len() == self.task_idx_map@[task_i as int]@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.task_idx_map@[task_i as int]@[i],
//@     forall|i: int| 0 <= i < children_to_keep@.len() ==> #[trigger] children_to_keep@[i] == self.task_idx_map@[task_i as int]@[i].0,
//@   body: assert(*it0.seq()[it0.index()] == self.task_idx_map@[task_i as int]@[it0.index()]);
//@ subst: self.task_idx_map.clone() => vx_vclone(&self.task_idx_map)
//@ entry: let cs = self.counts(); assert(laid(self.task_idx_map@, cs));
//@ subst: Self { => proof { let m = self.task_idx_map@[task_i as int]; assert forall|j: int| #![trigger m@[j]] 0 <= j < m@.len() implies new_children@[m@[j].0 as int] == self.children@[m@[j].0 as int] by { assert(children_to_keep@[j] == m@[j].0); assert(m@[j].0 < self.counts().len()); } } Self {
//@ subst: self.child_weights.clone() => vx_vclone(&self.child_weights)
//@ closure 0: -> (r: PlanRef) ensures (exists|i: int| 0 <= i < children_to_keep@.len() && #[trigger] children_to_keep@[i] == __vx_p0_0.0) ==> r == *__vx_p0_0.1, r == *__vx_p0_0.1 || hidden(*__vx_p0_0.1, r)
//@end
//@fn src/execution_plans/children_isolator_union.rs ChildrenIsolatorUnionExec::with_new_children@ExecutionPlan
//@ subst: self.child_weights.clone() => vx_vclone(&self.child_weights)
//@ sig: pub fn $name(self: Arc<Self>, children: Vec<PlanRef>) -> (r: Result<Arc<ChildrenIsolatorUnionExec>>)
//@ spec: requires sane(children@),
//@   ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.children@ == children@ && r->Ok_0.child_weights@ == self.child_weights@ && r->Ok_0.task_idx_map@.len() == self.task_idx_map@.len(),
//@end
//@fn src/execution_plans/children_isolator_union.rs ChildrenIsolatorUnionExec::execute@ExecutionPlan
//@ sig: pub fn $name(&self, q: usize, context: Arc<TaskContext>) -> (r: Result<SendableRecordBatchStream>)
//@ subst: context.as_ref() => &*context
//@ subst: Box::pin(ObservedStream::new( => vx_pin_observed(ObservedStream::new(
//@ spec: requires self.wf(), context.dtc().task_index < self.task_idx_map@.len(), sane(self.children@),
//@   ensures r is Ok ==> ({ let m = self.task_idx_map@[context.dtc().task_index as int];
//@       (forall|j: int| #![trigger m@[j]] 0 <= j < m@.len() && off(m, self.children@, j) <= q < off(m, self.children@, j + 1) ==> r->Ok_0.local_src() == Some((self.children@[m@[j].0 as int], (q - off(m, self.children@, j)) as usize)) && r->Ok_0.local_ctx() == m@[j].1)
//@       && (q >= width(m, self.children@) ==> r->Ok_0.src() == Seq::<Src>::empty() && r->Ok_0.local_src() is None) }),
//@ subst: self.task_idx_map[d_ctx.task_index].clone() => vx_vclone(&self.task_idx_map[d_ctx.task_index])
//@ ghost: let mut partition = q; let ghost p0 = q; let ghost m = self.task_idx_map@[context.dtc().task_index as int]; let ghost ch = self.children@;
//@ entry: let cs = self.counts(); assert(laid(self.task_idx_map@, cs)); assert(m@.len() <= cs.len() + 1); assert forall|j: int| #![trigger m@[j]] 0 <= j < m@.len() implies m@[j].0 < ch.len() by { assert(self.task_idx_map@[context.dtc().task_index as int]@[j].0 < cs.len()); } lemma_off_nonneg(m, ch, m@.len() as int);
//@ loop 0: invariant p0 == q, m == self.task_idx_map@[context.dtc().task_index as int], sane(ch), ch == self.children@, it0.seq() == m@, m@.len() <= 0x4000_0000, 0 <= off(m, ch, it0.index()) <= p0, (forall|j: int| #![trigger m@[j]] 0 <= j < it0.index() ==> off(m, ch, j + 1) <= p0), partition == p0 - off(m, ch, it0.index()), forall|j: int| #![trigger m@[j]] 0 <= j < m@.len() ==> m@[j].0 < ch.len(),
//@   body: let j = it0.index(); let e = m@[j]; assert(off(m, ch, j + 1) == off(m, ch, j) + pcn(ch[e.0 as int]));
//@     assert forall|i: int| #![trigger m@[i]] 0 <= i < m@.len() && off(m, ch, i) <= p0 < off(m, ch, i + 1) && off(m, ch, j) <= p0 < off(m, ch, j + 1) implies i == j by { if i < j { lemma_off_mono(m, ch, i + 1, j); } if j < i { lemma_off_mono(m, ch, j + 1, i); } }
//@     lemma_off_mono(m, ch, j + 1, m@.len() as int);
//@end
}
} // verus!
fn main() {}
