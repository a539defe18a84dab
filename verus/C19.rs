//@include lib/base.rs
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@arcclone
verus! {
// ------------------------------------------------------------------ dependencies
pub assume_specification[ usize::checked_ilog2 ](x: usize) -> (r: Option<u32>)
    ensures r == (if x == 0 { None::<u32> } else { Some(vstd::arithmetic::logarithm::log(2, x as int) as u32) }), x > 0 ==> 0 <= vstd::arithmetic::logarithm::log(2, x as int) < 64,
    opens_invariants none
;
pub enum Precision<T> { Exact(T), Inexact(T), Absent }
impl<T> Precision<T> {
    pub open spec fn val(self) -> Option<T> { match self { Precision::Exact(v) => Some(v), Precision::Inexact(v) => Some(v), Precision::Absent => None } }
    #[verifier::external_body]
    pub fn get_value(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.val() == Some(*x), None => self.val() is None } { unimplemented!() }
}
impl<T: Copy> Clone for Precision<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Copy> Copy for Precision<T> {}
impl<T> Default for Precision<T> { #[verifier::external_body] fn default() -> (r: Self) ensures r == Precision::<T>::Absent { unimplemented!() } }
pub struct ColumnStatistics { pub byte_size: Precision<usize> }
pub struct Statistics { pub num_rows: Precision<usize>, pub total_byte_size: Precision<usize>, pub column_statistics: Vec<ColumnStatistics> }
/// a float estimate as a number of bytes: Rust's saturating cast
pub uninterp spec fn f32_usize(v: f32) -> usize;
#[verifier::external_body] pub fn vx_f32_usize(v: f32) -> (r: usize) ensures r == f32_usize(v) { unimplemented!() }

/// `Arc<dyn ExecutionPlan>`: a finite tree
#[verifier::external_body] pub struct PlanRef { _x: u8 }
pub uninterp spec fn kids(p: PlanRef) -> Seq<PlanRef>;
pub uninterp spec fn height(p: PlanRef) -> nat;
pub uninterp spec fn stats_of(p: PlanRef) -> Statistics;
pub uninterp spec fn cpu_formula(p: PlanRef) -> Complexity;
pub uninterp spec fn memory_formula(p: PlanRef) -> Complexity;
pub uninterp spec fn network_formula(p: PlanRef) -> Complexity;
#[verifier::external_body] pub fn complexity_cpu(p: &PlanRef) -> (r: Complexity) ensures r == cpu_formula(*p) { unimplemented!() }
#[verifier::external_body] pub fn complexity_memory(p: &PlanRef) -> (r: Complexity) ensures r == memory_formula(*p) { unimplemented!() }
#[verifier::external_body] pub fn complexity_network(p: &PlanRef) -> (r: Complexity) ensures r == network_formula(*p) { unimplemented!() }
pub axiom fn axiom_finite_tree(p: PlanRef)
    ensures forall|i: int| 0 <= i < kids(p).len() ==> height(#[trigger] kids(p)[i]) < height(p);
impl PlanRef {
    #[verifier::external_body] pub fn children(&self) -> (r: Vec<&PlanRef>)
        ensures r@.len() == kids(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == kids(*self)[i],
    { unimplemented!() }
}
/// statistics of a node, from those of its children in order
#[verifier::external_body]
pub fn plan_statistics(node: &PlanRef, children_stats: &[Arc<Statistics>]) -> (r: Result<Arc<Statistics>>)
    requires children_stats@.len() == kids(*node).len(), forall|i: int| 0 <= i < children_stats@.len() ==> *(#[trigger] children_stats@[i]) == stats_of(kids(*node)[i]),
    ensures r is Ok ==> *r->Ok_0 == stats_of(*node),
{ unimplemented!() }

// ------------------------------------------------------------------ specification
pub open spec fn sat(x: int) -> int { if x > usize::MAX as int { usize::MAX as int } else { x } }
pub open spec fn ilog(x: int) -> int { if x <= 0 { 0 } else { vstd::arithmetic::logarithm::log(2, x) } }
pub open spec fn col_bytes(s: Statistics, i: usize) -> Option<int> {
    if i < s.column_statistics@.len() && s.column_statistics@[i as int].byte_size.val() is Some { Some(s.column_statistics@[i as int].byte_size.val()->0 as int) } else { None }
}
pub open spec fn all_bytes(s: Statistics) -> Option<int> { if s.total_byte_size.val() is Some { Some(s.total_byte_size.val()->0 as int) } else { None } }
pub open spec fn linear_cost(l: LinearComplexity, out: Statistics, ins: Seq<Arc<Statistics>>) -> Option<int> {
    match l {
        LinearComplexity::Column(i) => if ins.len() == 0 { None } else { col_bytes(*ins[0], i) },
        LinearComplexity::ColumnFromLeft(i) => if ins.len() == 0 { None } else { col_bytes(*ins[0], i) },
        LinearComplexity::ColumnFromRight(i) => if ins.len() == 0 { None } else { col_bytes(*ins.last(), i) },
        LinearComplexity::AllColumns => if ins.len() == 0 { None } else { all_bytes(*ins[0]) },
        LinearComplexity::AllColumnsFromLeft => if ins.len() == 0 { None } else { all_bytes(*ins[0]) },
        LinearComplexity::AllColumnsFromRight => if ins.len() == 0 { None } else { all_bytes(*ins.last()) },
        LinearComplexity::AllOutputColumns => all_bytes(out),
    }
}
/// exact arithmetic, capped at the largest machine number
pub open spec fn spec_cost(c: Complexity, out: Statistics, ins: Seq<Arc<Statistics>>) -> Option<int>
    decreases c
{
    match c {
        Complexity::Constant(v) => Some(f32_usize(v) as int),
        Complexity::Linear(l) => linear_cost(l, out, ins),
        Complexity::Log(n, m) => both(spec_cost(*n, out, ins), spec_cost(*m, out, ins), |a: int, b: int| sat(a * ilog(b))),
        Complexity::Plus(n, m) => both(spec_cost(*n, out, ins), spec_cost(*m, out, ins), |a: int, b: int| sat(a + b)),
        Complexity::Multiply(n, m) => both(spec_cost(*n, out, ins), spec_cost(*m, out, ins), |a: int, b: int| sat(a * b)),
    }
}
pub open spec fn both(a: Option<int>, b: Option<int>, f: spec_fn(int, int) -> int) -> Option<int> {
    if a is Some && b is Some { Some(f(a->0, b->0)) } else { None }
}
pub open spec fn leq(a: Option<int>, b: Option<int>) -> bool { (a is Some <==> b is Some) && (a is Some ==> 0 <= a->0 <= b->0) }
pub open spec fn stats_leq(a: Statistics, b: Statistics) -> bool {
    &&& a.column_statistics@.len() == b.column_statistics@.len()
    &&& leq(all_bytes(a), all_bytes(b))
    &&& forall|i: usize| leq(#[trigger] col_bytes(a, i), col_bytes(b, i))
}
/// more data never costs less
pub proof fn theorem_cost_monotone(c: Complexity, o1: Statistics, o2: Statistics, i1: Seq<Arc<Statistics>>, i2: Seq<Arc<Statistics>>)
    requires stats_leq(o1, o2), i1.len() == i2.len(), forall|k: int| 0 <= k < i1.len() ==> stats_leq(*#[trigger] i1[k], *i2[k]),
    ensures leq(spec_cost(c, o1, i1), spec_cost(c, o2, i2)),
    decreases c
{
    match c {
        Complexity::Constant(v) => {}
        Complexity::Linear(l) => { if i1.len() > 0 { assert(stats_leq(*i1[0], *i2[0])); assert(stats_leq(*i1.last(), *i2.last())); } }
        Complexity::Log(n, m) => {
            theorem_cost_monotone(*n, o1, o2, i1, i2); theorem_cost_monotone(*m, o1, o2, i1, i2);
            if spec_cost(*n, o1, i1) is Some && spec_cost(*m, o1, i1) is Some {
                let (a, b, x, y) = (spec_cost(*n, o1, i1)->0, spec_cost(*n, o2, i2)->0, spec_cost(*m, o1, i1)->0, spec_cost(*m, o2, i2)->0);
                if x > 0 { vstd::arithmetic::logarithm::lemma_log_is_ordered(2, x, y); vstd::arithmetic::logarithm::lemma_log_nonnegative(2, x); }
                if y > 0 { vstd::arithmetic::logarithm::lemma_log_nonnegative(2, y); }
                assert(0 <= a * ilog(x) <= b * ilog(y)) by (nonlinear_arith) requires 0 <= a <= b, 0 <= ilog(x) <= ilog(y);
            }
        }
        Complexity::Plus(n, m) => { theorem_cost_monotone(*n, o1, o2, i1, i2); theorem_cost_monotone(*m, o1, o2, i1, i2); }
        Complexity::Multiply(n, m) => {
            theorem_cost_monotone(*n, o1, o2, i1, i2); theorem_cost_monotone(*m, o1, o2, i1, i2);
            if spec_cost(*n, o1, i1) is Some && spec_cost(*m, o1, i1) is Some {
                let (a, b, x, y) = (spec_cost(*n, o1, i1)->0, spec_cost(*n, o2, i2)->0, spec_cost(*m, o1, i1)->0, spec_cost(*m, o2, i2)->0);
                assert(0 <= a * x <= b * y) by (nonlinear_arith) requires 0 <= a <= b, 0 <= x <= y;
            }
        }
    }
}
pub open spec fn add(a: Option<usize>, b: Option<usize>) -> Option<usize> {
    if a is Some && b is Some { Some(sat(a->0 as int + b->0 as int) as usize) } else if a is Some { a } else { b }
}
pub open spec fn is_stats(a: Arc<Statistics>, p: PlanRef) -> bool { *a == stats_of(p) }
pub open spec fn kid_stats(p: PlanRef) -> Seq<Arc<Statistics>> { Seq::new(kids(p).len(), |i: int| Arc::new(stats_of(kids(p)[i]))) }
pub proof fn lemma_kid_stats(p: PlanRef)
    ensures forall|c: Complexity, o: Statistics, s: Seq<Arc<Statistics>>|
        s.len() == kids(p).len() && (forall|i: int| 0 <= i < s.len() ==> is_stats(#[trigger] s[i], kids(p)[i])) ==> #[trigger] spec_cost(c, o, s) == spec_cost(c, o, kid_stats(p)),
{
    assert forall|c: Complexity, o: Statistics, s: Seq<Arc<Statistics>>|
        s.len() == kids(p).len() && (forall|i: int| 0 <= i < s.len() ==> is_stats(#[trigger] s[i], kids(p)[i])) implies #[trigger] spec_cost(c, o, s) == spec_cost(c, o, kid_stats(p)) by {
        assert(s =~= kid_stats(p)) by { assert forall|i: int| 0 <= i < s.len() implies s[i] == kid_stats(p)[i] by { assert(is_stats(s[i], kids(p)[i])); } }
    }
}
pub open spec fn own(c: Complexity, p: PlanRef) -> Option<usize> {
    let v = spec_cost(c, stats_of(p), kid_stats(p));
    if v is Some { Some(v->0 as usize) } else { None }
}
pub open spec fn formula(kind: int, p: PlanRef) -> Complexity { if kind == 0 { cpu_formula(p) } else if kind == 1 { memory_formula(p) } else { network_formula(p) } }
/// the costs of all nodes of a plan, each counted once
pub open spec fn total(kind: int, p: PlanRef) -> Option<usize>
    decreases height(p), 1nat, 0nat
{ add(subtotal(kind, p, kids(p).len()), own(formula(kind, p), p)) }
pub open spec fn subtotal(kind: int, p: PlanRef, n: nat) -> Option<usize>
    decreases height(p), 0nat, n
{
    if n == 0 || n > kids(p).len() { None }
    else if height(kids(p)[n as int - 1]) < height(p) { add(subtotal(kind, p, (n - 1) as nat), total(kind, kids(p)[n as int - 1])) }
    else { None }
}

// ------------------------------------------------------------------ the code
//@enum src/distributed_planner/statistics/complexity.rs Complexity
//@enum src/distributed_planner/statistics/complexity.rs LinearComplexity
impl Complexity {
//@fn src/distributed_planner/statistics/complexity.rs Complexity::cost
//@ spec: ensures
//@     match r { Some(v) => spec_cost(*self, **output_stat, input_stats@) == Some(v as int), None => spec_cost(*self, **output_stat, input_stats@) is None },
//@     decreases *self,
//@ subst: *v as usize => vx_f32_usize(*v)
//@end
}
//@struct src/distributed_planner/statistics/cost.rs Cost
impl Default for Cost { #[verifier::external_body] fn default() -> (r: Self) ensures r.cpu is Absent, r.memory is Absent, r.network is Absent { unimplemented!() } }
impl Cost {
//@fn src/distributed_planner/statistics/cost.rs Cost::add_assign@AddAssign
//@ spec: ensures
//@     final(self).cpu.val() == add(old(self).cpu.val(), rhs.cpu.val()),
//@     final(self).memory.val() == add(old(self).memory.val(), rhs.memory.val()),
//@     final(self).network.val() == add(old(self).network.val(), rhs.network.val()),
//@end
}
//@fn src/distributed_planner/statistics/cost.rs sum_precision
//@ spec: ensures r.val() == add(one.val(), other.val()),
//@end
//@fn src/distributed_planner/statistics/cost.rs inexact_or_absent
//@ spec: ensures r.val() == value,
//@end
//@fn src/distributed_planner/statistics/cost.rs f
//@ spec: ensures r is Ok ==> {
//@         &&& r->Ok_0.0.cpu.val() == total(0, *plan)
//@         &&& r->Ok_0.0.memory.val() == total(1, *plan)
//@         &&& r->Ok_0.0.network.val() == total(2, *plan)
//@         &&& *r->Ok_0.1 == stats_of(*plan)
//@     },
//@     decreases height(*plan),
//@ subst: acc_cost += cost => acc_cost.add_assign(cost)
//@ subst: acc_cost += new_cost => acc_cost.add_assign(new_cost)
//@ entry: axiom_finite_tree(*plan); lemma_kid_stats(*plan);
//@ loop 0: invariant
//@     it0.seq().len() == kids(*plan).len(), forall|i: int| 0 <= i < kids(*plan).len() ==> *(#[trigger] it0.seq()[i]) == kids(*plan)[i], forall|i: int| 0 <= i < kids(*plan).len() ==> height(#[trigger] kids(*plan)[i]) < height(*plan),
//@     child_stats@.len() == it0.index(), acc_cost.cpu.val() == subtotal(0, *plan, it0.index() as nat), acc_cost.memory.val() == subtotal(1, *plan, it0.index() as nat), acc_cost.network.val() == subtotal(2, *plan, it0.index() as nat),
//@     forall|i: int| 0 <= i < child_stats@.len() ==> is_stats(#[trigger] child_stats@[i], kids(*plan)[i]),
//@end
//@fn src/distributed_planner/statistics/cost.rs calculate_cost
//@ spec: ensures r is Ok ==> r->Ok_0.cpu.val() == total(0, *plan) && r->Ok_0.memory.val() == total(1, *plan) && r->Ok_0.network.val() == total(2, *plan),
//@ closure 0: -> (o: Cost) ensures o == $0.0
//@end
// ------------------------------------------------------------------ how far a running stage has come: the rows its leaves are expected to yield
#[verifier::external_body] pub fn vx_leaf_stats(p: &PlanRef) -> (r: Result<Arc<Statistics>>) ensures r is Ok ==> *r->Ok_0 == stats_of(*p) { unimplemented!() }
pub enum TreeNodeRecursion { Continue, Jump, Stop }
pub open spec fn capped(a: int) -> int { if a > usize::MAX { usize::MAX as int } else { a } }
//@fn src/coordinator/prepare_dynamic_plan.rs estimated_driver_path_leaf_rows#c0 as count_leaf_rows
//@ sig: pub fn $name(plan: &PlanRef, total: &mut Option<usize>) -> (r: Result<TreeNodeRecursion>)
//@ spec: ensures r is Ok ==> r->Ok_0 is Continue && *final(total) == if kids(*plan).len() == 0 { add(*old(total), stats_of(*plan).num_rows.val()) } else { *old(total) }, r is Err ==> *final(total) == *old(total),
//@ subst: StatisticsContext::new().compute(plan.as_ref(), &StatisticsArgs::new()) => vx_leaf_stats(plan)
//@ subst: &mut total_rows => total.as_mut()
//@ subst: total_rows = Some( => *total = Some(
//@end
} // verus!
fn main() {}
