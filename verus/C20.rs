//@include lib/base.rs
//@strip datafusion::common::tree_node
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@type_is Self => PlanRef
//@arcclone
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ dependencies
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TreeNodeRecursion { Continue, Jump, Stop }
pub assume_specification[<TreeNodeRecursion as PartialEq>::eq](a: &TreeNodeRecursion, b: &TreeNodeRecursion) -> (r: bool) ensures r == (*a == *b);
pub struct Transformed { pub data: PlanRef, pub transformed: bool, pub tnr: TreeNodeRecursion }
impl Transformed { pub fn no(data: PlanRef) -> (r: Self) ensures r == (Transformed { data, transformed: false, tnr: TreeNodeRecursion::Continue }) { Transformed { data, transformed: false, tnr: TreeNodeRecursion::Continue } } }
//@struct src/stage.rs DistributedTaskContext
impl Clone for DistributedTaskContext { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for DistributedTaskContext {}
pub type Ctx = DistributedTaskContext;
#[verifier::external_body] pub struct PlanRef { _x: u8 }
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the children of a node, from left to right
pub uninterp spec fn kids(p: PlanRef) -> Seq<PlanRef>;
/// plans are finite trees
pub uninterp spec fn rank(p: PlanRef) -> nat;
pub broadcast axiom fn kids_are_smaller(p: PlanRef, i: int) requires 0 <= i < kids(p).len() ensures #[trigger] rank(kids(p)[i]) < rank(p);
pub struct ChildrenIsolatorUnionExec { pub children: Vec<PlanRef>, pub task_idx_map: Vec<Vec<(usize, Ctx)>> }
pub uninterp spec fn union_of(p: PlanRef) -> Option<ChildrenIsolatorUnionExec>;
/// how many tasks a child of the union runs in (C06)
pub uninterp spec fn child_tasks(u: ChildrenIsolatorUnionExec) -> Seq<usize>;
impl ChildrenIsolatorUnionExec { #[verifier::external_body] pub fn child_task_counts(&self) -> (r: Vec<usize>) ensures r@ == child_tasks(*self) { unimplemented!() } }
/// C06: the children named for a task exist, each at most once; the union's children are the node's
pub broadcast axiom fn unions_are_sound(p: PlanRef) requires #[trigger] union_of(p) is Some
    ensures union_of(p)->0.children@ == kids(p), child_tasks(union_of(p)->0).len() == kids(p).len(), forall|t: int, j: int| #![trigger union_of(p)->0.task_idx_map@[t]@[j]] 0 <= t < union_of(p)->0.task_idx_map@.len() && 0 <= j < union_of(p)->0.task_idx_map@[t]@.len() ==> union_of(p)->0.task_idx_map@[t]@[j].0 < kids(p).len() && union_of(p)->0.task_idx_map@[t]@[j].1.task_index < union_of(p)->0.task_idx_map@[t]@[j].1.task_count,
        forall|t: int, i: int, j: int| #![trigger union_of(p)->0.task_idx_map@[t]@[i], union_of(p)->0.task_idx_map@[t]@[j]] 0 <= t < union_of(p)->0.task_idx_map@.len() && 0 <= i < j < union_of(p)->0.task_idx_map@[t]@.len() ==> union_of(p)->0.task_idx_map@[t]@[i].0 != union_of(p)->0.task_idx_map@[t]@[j].0;
pub struct InputStage { pub n: usize }
impl InputStage { pub fn task_count(&self) -> (r: usize) ensures r == self.n { self.n } }
pub struct Boundary { pub stage: InputStage }
impl Boundary { pub fn input_stage(&self) -> (r: &InputStage) ensures *r == self.stage { &self.stage } }
pub uninterp spec fn boundary_of(p: PlanRef) -> Option<Boundary>;
pub struct HashJoinExec { pub l: PlanRef, pub r: PlanRef }
pub struct NestedLoopJoinExec { pub l: PlanRef, pub r: PlanRef }
pub struct CrossJoinExec { pub l: PlanRef, pub r: PlanRef }
impl HashJoinExec { pub fn right(&self) -> (r: &PlanRef) ensures *r == self.r { &self.r } }
impl NestedLoopJoinExec { pub fn right(&self) -> (r: &PlanRef) ensures *r == self.r { &self.r } }
impl CrossJoinExec { pub fn right(&self) -> (r: &PlanRef) ensures *r == self.r { &self.r } }
pub trait Node: Sized { spec fn of(p: PlanRef) -> Option<Self>; }
impl Node for ChildrenIsolatorUnionExec { open spec fn of(p: PlanRef) -> Option<Self> { union_of(p) } }
impl Node for HashJoinExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
impl Node for NestedLoopJoinExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
impl Node for CrossJoinExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
/// a join's children are its build side and its probe side
pub broadcast axiom fn hash_sides(p: PlanRef) requires #[trigger] HashJoinExec::of(p) is Some ensures kids(p) =~= seq![HashJoinExec::of(p)->0.l, HashJoinExec::of(p)->0.r];
pub broadcast axiom fn loop_sides(p: PlanRef) requires #[trigger] NestedLoopJoinExec::of(p) is Some ensures kids(p) =~= seq![NestedLoopJoinExec::of(p)->0.l, NestedLoopJoinExec::of(p)->0.r];
pub broadcast axiom fn cross_sides(p: PlanRef) requires #[trigger] CrossJoinExec::of(p) is Some ensures kids(p) =~= seq![CrossJoinExec::of(p)->0.l, CrossJoinExec::of(p)->0.r];
impl PlanRef {
    #[verifier::external_body] pub fn downcast_ref<T: Node>(&self) -> (r: Option<&T>) ensures match r { Some(x) => T::of(*self) == Some(*x), None => T::of(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn children(&self) -> (r: Vec<&PlanRef>) ensures r@.len() == kids(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == kids(*self)[i] { unimplemented!() }
    #[verifier::external_body] pub fn is_network_boundary(&self) -> (r: bool) ensures r == (boundary_of(*self) is Some) { unimplemented!() }
    #[verifier::external_body] pub fn as_network_boundary(&self) -> (r: Option<&Boundary>) ensures match r { Some(x) => boundary_of(*self) == Some(*x), None => boundary_of(*self) is None } { unimplemented!() }
}

// ------------------------------------------------------------------ reading walks
/// the function that is walked over the plan: what it was called with, and what it will answer
#[verifier::external_body] #[verifier::reject_recursive_types(C)] pub struct Visitor<C> { _x: core::marker::PhantomData<C> }
impl<C> Visitor<C> {
    pub uninterp spec fn seen(&self) -> Seq<(PlanRef, C)>;
    /// its answer, after the calls so far
    pub uninterp spec fn answers(&self, seen: Seq<(PlanRef, C)>) -> TreeNodeRecursion;
    pub open spec fn same(&self, o: Self) -> bool { forall|s: Seq<(PlanRef, C)>| #[trigger] self.answers(s) == o.answers(s) }
    #[verifier::external_body] pub fn visit(&mut self, p: &PlanRef, c: C) -> (r: Result<TreeNodeRecursion>)
        ensures final(self).seen() == old(self).seen().push((*p, c)), final(self).same(*old(self)), r is Ok ==> r->Ok_0 == old(self).answers(final(self).seen())
    { unimplemented!() }
}
/// the children that a task executes, and the task that each of them runs as
pub open spec fn runs(p: PlanRef, c: Ctx) -> Seq<(PlanRef, Ctx)> {
    match union_of(p) {
        Some(u) => if c.task_index >= u.task_idx_map@.len() { seq![] } else { Seq::new(u.task_idx_map@[c.task_index as int]@.len(), |j: int| (kids(p)[u.task_idx_map@[c.task_index as int]@[j].0 as int], u.task_idx_map@[c.task_index as int]@[j].1)) },
        None => if boundary_of(p) is Some { seq![] } else { Seq::new(kids(p).len(), |j: int| (kids(p)[j], c)) },
    }
}
/// the task exists, here and in every isolated union that it reaches
pub open spec fn in_plan(p: PlanRef, c: Ctx) -> bool decreases rank(p) via in_plan_ends {
    (union_of(p) is Some ==> c.task_index < union_of(p)->0.task_idx_map@.len()) && forall|j: int| 0 <= j < runs(p, c).len() ==> in_plan((#[trigger] runs(p, c)[j]).0, runs(p, c)[j].1)
}
#[via_fn] proof fn in_plan_ends(p: PlanRef, c: Ctx) { lemma_runs(p, c); }
pub proof fn lemma_runs(p: PlanRef, c: Ctx) ensures forall|j: int| 0 <= j < runs(p, c).len() ==> rank((#[trigger] runs(p, c)[j]).0) < rank(p)
{ broadcast use unions_are_sound; assert forall|j: int| 0 <= j < runs(p, c).len() implies rank((#[trigger] runs(p, c)[j]).0) < rank(p) by {
    match union_of(p) { Some(u) => { let x = u.task_idx_map@[c.task_index as int]@[j]; kids_are_smaller(p, x.0 as int); }, None => { kids_are_smaller(p, j); } } } }
/// the walk, as documented: a node first, then, unless the function says otherwise, what the task runs below it, from left to right
pub open spec fn walk<C>(v: Visitor<C>, runs: spec_fn(PlanRef, C) -> Seq<(PlanRef, C)>, p: PlanRef, c: C, seen: Seq<(PlanRef, C)>) -> (TreeNodeRecursion, Seq<(PlanRef, C)>) decreases rank(p), 1nat, 0nat {
    let seen1 = seen.push((p, c));
    match v.answers(seen1) {
        TreeNodeRecursion::Stop => (TreeNodeRecursion::Stop, seen1),
        TreeNodeRecursion::Jump => (TreeNodeRecursion::Continue, seen1),
        TreeNodeRecursion::Continue => walk_from(v, runs, rank(p), runs(p, c), 0, seen1),
    }
}
pub open spec fn walk_from<C>(v: Visitor<C>, runs: spec_fn(PlanRef, C) -> Seq<(PlanRef, C)>, bound: nat, below: Seq<(PlanRef, C)>, i: nat, seen: Seq<(PlanRef, C)>) -> (TreeNodeRecursion, Seq<(PlanRef, C)>) decreases bound, 0nat, below.len() - i {
    if i >= below.len() || rank(below[i as int].0) >= bound { (TreeNodeRecursion::Continue, seen) } else {
        let w = walk(v, runs, below[i as int].0, below[i as int].1, seen);
        if w.0 is Stop { w } else { walk_from(v, runs, bound, below, i + 1, w.1) }
    }
}
pub proof fn lemma_walk_same<C>(v: Visitor<C>, w: Visitor<C>, runs: spec_fn(PlanRef, C) -> Seq<(PlanRef, C)>, p: PlanRef, c: C, seen: Seq<(PlanRef, C)>) requires v.same(w) ensures walk(v, runs, p, c, seen) == walk(w, runs, p, c, seen) decreases rank(p), 1nat, 0nat
{ if v.answers(seen.push((p, c))) is Continue { lemma_from_same(v, w, runs, rank(p), runs(p, c), 0, seen.push((p, c))); } }
pub proof fn lemma_from_same<C>(v: Visitor<C>, w: Visitor<C>, runs: spec_fn(PlanRef, C) -> Seq<(PlanRef, C)>, bound: nat, below: Seq<(PlanRef, C)>, i: nat, seen: Seq<(PlanRef, C)>) requires v.same(w) ensures walk_from(v, runs, bound, below, i, seen) == walk_from(w, runs, bound, below, i, seen) decreases bound, 0nat, below.len() - i
{ if i >= below.len() || rank(below[i as int].0) >= bound {} else { let x = below[i as int]; lemma_walk_same(v, w, runs, x.0, x.1, seen); let r = walk(v, runs, x.0, x.1, seen); if !(r.0 is Stop) { lemma_from_same(v, w, runs, bound, below, i + 1, r.1); } } }
/// the walk never tells its caller to jump
pub proof fn lemma_no_jump<C>(v: Visitor<C>, runs: spec_fn(PlanRef, C) -> Seq<(PlanRef, C)>, p: PlanRef, c: C, seen: Seq<(PlanRef, C)>) ensures !(walk(v, runs, p, c, seen).0 is Jump)
{ if v.answers(seen.push((p, c))) is Continue { lemma_no_jump_from(v, runs, rank(p), runs(p, c), 0, seen.push((p, c))); } }
pub proof fn lemma_no_jump_from<C>(v: Visitor<C>, runs: spec_fn(PlanRef, C) -> Seq<(PlanRef, C)>, bound: nat, below: Seq<(PlanRef, C)>, i: nat, seen: Seq<(PlanRef, C)>) ensures !(walk_from(v, runs, bound, below, i, seen).0 is Jump) decreases below.len() - i
{ if i >= below.len() || rank(below[i as int].0) >= bound {} else { let x = below[i as int]; let r = walk(v, runs, x.0, x.1, seen); if !(r.0 is Stop) { lemma_no_jump_from(v, runs, bound, below, i + 1, r.1); } } }
pub open spec fn task_runs() -> spec_fn(PlanRef, Ctx) -> Seq<(PlanRef, Ctx)> { |p: PlanRef, c: Ctx| runs(p, c) }
//@fn src/common/recursion.rs Arc::apply_with_dt_ctx@TreeNodeExt/recurse as recurse_dt
//@ sig: fn $name(plan: &PlanRef, ctx: Ctx, f: &mut Visitor<Ctx>) -> (r: Result<TreeNodeRecursion>)
//@ spec: requires in_plan(*plan, ctx),
//@   ensures r is Ok ==> final(f).same(*old(f)) && (r->Ok_0, final(f).seen()) == walk(*old(f), task_runs(), *plan, ctx, old(f).seen()),
//@   decreases rank(*plan),
//@ subst: f(plan, ctx) => f.visit(plan, ctx)
//@ subst: recurse( => recurse_dt(
//@ subst: f.visit(plan, ctx)? => { let __vx_r = f.visit(plan, ctx)?; proof { v1 = *f; lemma_runs(*plan, ctx); lemma_no_jump(v0, task_runs(), *plan, ctx, f.seen()); } __vx_r }
//@ ghost: broadcast use {unions_are_sound, kids_are_smaller}; let ghost v0 = *f; let ghost mut v1 = *f; proof { reveal_with_fuel(walk, 2); reveal_with_fuel(walk_from, 2); }
//@ loop 0: invariant_except_break !(__vx_t is Stop), walk_from(v0, task_runs(), rank(*plan), runs(*plan, ctx), 0, v1.seen()) == walk_from(v0, task_runs(), rank(*plan), runs(*plan, ctx), it0.index() as nat, f.seen()),
//@   invariant in_plan(*plan, ctx), union_of(*plan) == Some(*ciu), ctx.task_index < ciu.task_idx_map@.len(), v0.same(*f), v1.seen() == v0.seen().push((*plan, ctx)), it0.seq().len() == runs(*plan, ctx).len(), forall|j: int| 0 <= j < it0.seq().len() ==> *#[trigger] it0.seq()[j] == ciu.task_idx_map@[ctx.task_index as int]@[j],
//@     !(__vx_t is Jump), forall|j: int| 0 <= j < runs(*plan, ctx).len() ==> rank((#[trigger] runs(*plan, ctx)[j]).0) < rank(*plan) && in_plan(runs(*plan, ctx)[j].0, runs(*plan, ctx)[j].1),
//@   ensures walk_from(v0, task_runs(), rank(*plan), runs(*plan, ctx), 0, v1.seen()) == (__vx_t, f.seen()),
//@   body: unions_are_sound(*plan); let ghost e = union_of(*plan)->0.task_idx_map@[ctx.task_index as int]@[it0.index() as int]; assert(*it0.seq()[it0.index() as int] == e); assert(e.0 < kids(*plan).len()); let ghost x = runs(*plan, ctx)[it0.index() as int]; assert(x == (kids(*plan)[e.0 as int], e.1)); lemma_walk_same(*f, v0, task_runs(), x.0, x.1, f.seen()); lemma_no_jump(v0, task_runs(), x.0, x.1, f.seen());
//@ loop 1: invariant_except_break !(__vx_t is Stop), walk_from(v0, task_runs(), rank(*plan), runs(*plan, ctx), 0, v1.seen()) == walk_from(v0, task_runs(), rank(*plan), runs(*plan, ctx), it1.index() as nat, f.seen()),
//@   invariant in_plan(*plan, ctx), union_of(*plan) is None, boundary_of(*plan) is None, v0.same(*f), v1.seen() == v0.seen().push((*plan, ctx)), it1.seq().len() == runs(*plan, ctx).len(), forall|j: int| 0 <= j < it1.seq().len() ==> *#[trigger] it1.seq()[j] == kids(*plan)[j],
//@     !(__vx_t is Jump), forall|j: int| 0 <= j < runs(*plan, ctx).len() ==> rank((#[trigger] runs(*plan, ctx)[j]).0) < rank(*plan) && in_plan(runs(*plan, ctx)[j].0, runs(*plan, ctx)[j].1),
//@   ensures walk_from(v0, task_runs(), rank(*plan), runs(*plan, ctx), 0, v1.seen()) == (__vx_t, f.seen()),
//@   body: let ghost x = runs(*plan, ctx)[it1.index() as int]; lemma_walk_same(*f, v0, task_runs(), x.0, x.1, f.seen()); lemma_no_jump(v0, task_runs(), x.0, x.1, f.seen());
//@end
// ------------------------------------------------------------------ the driver path
/// what feeds a node's output: its probe side if it is a join that buffers its build side, otherwise every child
pub open spec fn feeds(p: PlanRef) -> Seq<(PlanRef, ())> {
    if HashJoinExec::of(p) is Some || NestedLoopJoinExec::of(p) is Some || CrossJoinExec::of(p) is Some { seq![(kids(p)[1], ())] } else { Seq::new(kids(p).len(), |j: int| (kids(p)[j], ())) }
}
pub open spec fn path_runs() -> spec_fn(PlanRef, ()) -> Seq<(PlanRef, ())> { |p: PlanRef, c: ()| feeds(p) }
//@fn src/common/recursion.rs Arc::apply_driver_path@TreeNodeExt/recurse as recurse_path
//@ sig: fn $name(plan: &PlanRef, f: &mut Visitor<()>) -> (r: Result<TreeNodeRecursion>)
//@ spec: ensures r is Ok ==> final(f).same(*old(f)) && (r->Ok_0, final(f).seen()) == walk(*old(f), path_runs(), *plan, (), old(f).seen()),
//@   decreases rank(*plan),
//@ subst: f(plan) => f.visit(plan, ())
//@ subst: recurse( => recurse_path(
//@ subst: f.visit(plan, ())? => { let __vx_r = f.visit(plan, ())?; proof { v1 = *f; lemma_feeds(*plan); if feeds(*plan).len() == 1 { let x = feeds(*plan)[0]; lemma_walk_same(*f, v0, path_runs(), x.0, x.1, f.seen()); lemma_no_jump(v0, path_runs(), x.0, x.1, f.seen()); } } __vx_r }
//@ ghost: broadcast use {kids_are_smaller, hash_sides, loop_sides, cross_sides}; let ghost v0 = *f; let ghost mut v1 = *f; proof { reveal_with_fuel(walk, 2); reveal_with_fuel(walk_from, 3); }
//@ loop 0: invariant_except_break !(__vx_t is Stop), walk_from(v0, path_runs(), rank(*plan), feeds(*plan), 0, v1.seen()) == walk_from(v0, path_runs(), rank(*plan), feeds(*plan), it0.index() as nat, f.seen()),
//@   invariant feeds(*plan) == Seq::new(kids(*plan).len(), |j: int| (kids(*plan)[j], ())), v0.same(*f), it0.seq().len() == kids(*plan).len(), forall|j: int| 0 <= j < it0.seq().len() ==> *#[trigger] it0.seq()[j] == kids(*plan)[j],
//@     !(__vx_t is Jump), forall|j: int| 0 <= j < feeds(*plan).len() ==> rank((#[trigger] feeds(*plan)[j]).0) < rank(*plan),
//@   ensures walk_from(v0, path_runs(), rank(*plan), feeds(*plan), 0, v1.seen()) == (__vx_t, f.seen()),
//@   body: let ghost x = feeds(*plan)[it0.index() as int]; lemma_walk_same(*f, v0, path_runs(), x.0, x.1, f.seen()); lemma_no_jump(v0, path_runs(), x.0, x.1, f.seen());
//@end
pub proof fn lemma_feeds(p: PlanRef) ensures forall|j: int| 0 <= j < feeds(p).len() ==> rank((#[trigger] feeds(p)[j]).0) < rank(p)
{ broadcast use {kids_are_smaller, hash_sides, loop_sides, cross_sides}; assert forall|j: int| 0 <= j < feeds(p).len() implies rank((#[trigger] feeds(p)[j]).0) < rank(p) by { if HashJoinExec::of(p) is Some || NestedLoopJoinExec::of(p) is Some || CrossJoinExec::of(p) is Some { kids_are_smaller(p, 1); } else { kids_are_smaller(p, j); } } }

// ------------------------------------------------------------------ rewriting walks
/// the function that rewrites the nodes: what it was called with, and what it will answer
#[verifier::external_body] #[verifier::reject_recursive_types(C)] pub struct Rewriter<C> { _x: core::marker::PhantomData<C> }
impl<C> Rewriter<C> {
    pub uninterp spec fn seen(&self) -> Seq<(PlanRef, C)>;
    pub uninterp spec fn answers(&self, seen: Seq<(PlanRef, C)>) -> Transformed;
    pub open spec fn same(&self, o: Self) -> bool { forall|s: Seq<(PlanRef, C)>| #[trigger] self.answers(s) == o.answers(s) }
    #[verifier::external_body] pub fn call(&mut self, p: PlanRef, c: C) -> (r: Result<Transformed>)
        ensures final(self).seen() == old(self).seen().push((p, c)), final(self).same(*old(self)), r is Ok ==> r->Ok_0 == old(self).answers(final(self).seen())
    { unimplemented!() }
}
pub open spec fn rev<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
// `stack.extend(items)`, where the items are a list or a reversed list
pub trait Items<T>: Sized { spec fn items(self) -> Seq<T>; }
impl<T> Items<T> for Vec<T> { open spec fn items(self) -> Seq<T> { self@ } }
pub struct Rev<T> { pub v: Vec<T> }
impl<T> Items<T> for Rev<T> { open spec fn items(self) -> Seq<T> { rev(self.v@) } }
pub trait VxRev<T>: Sized { fn vx_rev(self) -> (r: Rev<T>) ensures r == (Rev { v: self.vec() }); spec fn vec(self) -> Vec<T>; }
impl<T> VxRev<T> for Vec<T> { open spec fn vec(self) -> Vec<T> { self } fn vx_rev(self) -> (r: Rev<T>) { Rev { v: self } } }
#[verifier::external_body] pub fn vx_extend<T, I: Items<T>>(stack: &mut Vec<T>, x: I) ensures final(stack)@ == old(stack)@ + x.items() { unimplemented!() }
// `v.iter().map(f)`
#[verifier::external_body] pub fn vx_map_children<'a, X, F: Fn(&'a PlanRef) -> X>(v: Vec<&'a PlanRef>, f: F) -> (r: Vec<X>) requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],)), ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i]) { unimplemented!() }
// `vec![x; n]`
#[verifier::external_body] pub fn vx_fill<X: Copy>(x: X, n: usize) -> (r: Vec<X>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }

/// as which task each child runs, if it runs at all
pub open spec fn child_runs(p: PlanRef, c: Ctx, i: int) -> Option<Ctx> {
    match union_of(p) {
        Some(u) => if exists|j: int| 0 <= j < u.task_idx_map@[c.task_index as int]@.len() && (#[trigger] u.task_idx_map@[c.task_index as int]@[j]).0 == i { Some(u.task_idx_map@[c.task_index as int]@[choose|j: int| 0 <= j < u.task_idx_map@[c.task_index as int]@.len() && (#[trigger] u.task_idx_map@[c.task_index as int]@[j]).0 == i].1) } else { None },
        None => if boundary_of(p) is Some { None } else { Some(c) },
    }
}
pub open spec fn children_run(p: PlanRef, c: Ctx) -> Seq<Option<Ctx>> { Seq::new(kids(p).len(), |i: int| child_runs(p, c, i)) }
/// in how many tasks each child runs
pub open spec fn children_counts(p: PlanRef, c: usize) -> Seq<usize> {
    match union_of(p) { Some(u) => child_tasks(u), None => Seq::new(kids(p).len(), |i: int| match boundary_of(p) { Some(b) => b.stage.n, None => c }) }
}
/// one answer of a closure: what to do next, the node, the stack, and the calls of the function so far
#[verifier::ext_equal] pub struct Step<E, C> { pub tnr: TreeNodeRecursion, pub data: PlanRef, pub stack: Seq<E>, pub seen: Seq<(PlanRef, C)> }
/// the top of the stack is the node's own entry; `None`: not this task's, neither it nor what is below it is visited; otherwise its children's entries take its place, the first child's on top
pub open spec fn step_dt(v: Rewriter<Ctx>) -> spec_fn(PlanRef, Seq<Option<Ctx>>, Seq<(PlanRef, Ctx)>) -> Step<Option<Ctx>, Ctx> {
    |p: PlanRef, stack: Seq<Option<Ctx>>, seen: Seq<(PlanRef, Ctx)>| { let s = stack.drop_last(); match stack.last() {
        None => Step { tnr: TreeNodeRecursion::Jump, data: p, stack: s, seen },
        Some(c) => { let seen1 = seen.push((p, c)); let t = v.answers(seen1);
            if !(t.tnr is Continue) { Step { tnr: t.tnr, data: t.data, stack: s, seen: seen1 } }
            else if boundary_of(t.data) is Some { Step { tnr: TreeNodeRecursion::Jump, data: t.data, stack: s, seen: seen1 } }
            else { Step { tnr: t.tnr, data: t.data, stack: s + rev(children_run(t.data, c)), seen: seen1 } } },
    } }
}
pub open spec fn step_tc(v: Rewriter<usize>) -> spec_fn(PlanRef, Seq<usize>, Seq<(PlanRef, usize)>) -> Step<usize, usize> {
    |p: PlanRef, stack: Seq<usize>, seen: Seq<(PlanRef, usize)>| { let s = stack.drop_last(); let c = stack.last(); let seen1 = seen.push((p, c)); let t = v.answers(seen1);
        Step { tnr: t.tnr, data: t.data, stack: if t.tnr is Continue { s + rev(children_counts(t.data, c)) } else { s }, seen: seen1 } }
}
//@fn src/common/recursion.rs Arc::transform_down_with_dt_ctx@TreeNodeExt#c0 as down_dt
//@ sig: fn $name(node: PlanRef, stack: &mut Vec<Option<Ctx>>, f: &mut Rewriter<Ctx>) -> (r: Result<Transformed>)
//@ spec: requires old(stack)@.len() > 0,
//@     old(stack)@.last() is Some ==> ({ let t = old(f).answers(old(f).seen().push((node, old(stack)@.last()->0))); union_of(t.data) is Some ==> old(stack)@.last()->0.task_index < union_of(t.data)->0.task_idx_map@.len() }),
//@   ensures r is Ok ==> final(f).same(*old(f)) && (Step { tnr: r->Ok_0.tnr, data: r->Ok_0.data, stack: final(stack)@, seen: final(f).seen() }) =~= step_dt(*old(f))(node, old(stack)@, old(f).seen())
//@     && r->Ok_0.transformed == (old(stack)@.last() is Some && old(f).answers(final(f).seen()).transformed),
//@ subst: f(node, dt_ctx) => f.call(node, dt_ctx)
//@ subst: stack.extend( => vx_extend(stack,
//@ subst: node.children().iter().map( => vx_map_children(node.children(),
//@ subst: child_ctxs.into_iter() => child_ctxs
//@ subst: .rev() => .vx_rev()
//@ subst: vec![None; ciu.children.len()] => vx_fill(None::<Ctx>, ciu.children.len())
//@ closure 0: -> (o: Option<Ctx>) ensures o == Some(dt_ctx)
//@ loop 0: invariant union_of(transformed.data) == Some(*ciu), dt_ctx.task_index < ciu.task_idx_map@.len(), child_ctxs@.len() == kids(transformed.data).len(), it0.seq().len() == ciu.task_idx_map@[dt_ctx.task_index as int]@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *#[trigger] it0.seq()[j] == ciu.task_idx_map@[dt_ctx.task_index as int]@[j],
//@     forall|j: int| 0 <= j < it0.index() ==> child_ctxs@[(#[trigger] ciu.task_idx_map@[dt_ctx.task_index as int]@[j]).0 as int] == Some(ciu.task_idx_map@[dt_ctx.task_index as int]@[j].1),
//@     forall|i: int| 0 <= i < child_ctxs@.len() && (forall|j: int| 0 <= j < it0.index() ==> (#[trigger] ciu.task_idx_map@[dt_ctx.task_index as int]@[j]).0 != i) ==> #[trigger] child_ctxs@[i] is None,
//@   body: unions_are_sound(transformed.data); let ghost e = ciu.task_idx_map@[dt_ctx.task_index as int]@[it0.index() as int]; assert(*it0.seq()[it0.index() as int] == e); assert(e.0 < kids(transformed.data).len());
//@ ghost: broadcast use unions_are_sound;
//@end
//@fn src/common/recursion.rs Arc::transform_up_with_task_count@TreeNodeExt#c0 as up_enter
//@ sig: fn $name(node: PlanRef, stack: &mut Vec<usize>) -> (r: Result<Transformed>)
//@ spec: requires old(stack)@.len() > 0,
//@   ensures r is Ok ==> r->Ok_0 == (Transformed { data: node, transformed: false, tnr: TreeNodeRecursion::Continue }) && final(stack)@ == old(stack)@ + rev(children_counts(node, old(stack)@.last())),
//@ subst: stack.borrow().last() => stack.last()
//@ subst: stack.borrow_mut().extend( => vx_extend(stack,
//@ subst: child_tcs.into_iter() => child_tcs
//@ subst: .rev() => .vx_rev()
//@ subst: vec![nb.input_stage().task_count(); node.children().len()] => vx_fill(nb.input_stage().task_count(), node.children().len())
//@ subst: vec![cur; node.children().len()] => vx_fill(cur, node.children().len())
//@ ghost: broadcast use unions_are_sound;
//@end
//@fn src/common/recursion.rs Arc::transform_up_with_task_count@TreeNodeExt#c1 as up_leave
//@ sig: fn $name(node: PlanRef, stack: &mut Vec<usize>, f: &mut Rewriter<usize>) -> (r: Result<Transformed>)
//@ spec: requires old(stack)@.len() > 0,
//@   ensures r is Ok ==> final(stack)@ == old(stack)@.drop_last() && final(f).seen() == old(f).seen().push((node, old(stack)@.last())) && final(f).same(*old(f)) && r->Ok_0 == old(f).answers(final(f).seen()),
//@ subst: stack.borrow_mut().pop() => stack.pop()
//@ subst: f(node, tc) => f.call(node, tc)
//@end
//@fn src/common/recursion.rs Arc::transform_down_with_task_count@TreeNodeExt#c0 as down_enter
//@ sig: fn $name(node: PlanRef, stack: &mut Vec<usize>, f: &mut Rewriter<usize>) -> (r: Result<Transformed>)
//@ spec: requires old(stack)@.len() > 0,
//@   ensures r is Ok ==> final(f).same(*old(f)) && (Step { tnr: r->Ok_0.tnr, data: r->Ok_0.data, stack: final(stack)@, seen: final(f).seen() }) =~= step_tc(*old(f))(node, old(stack)@, old(f).seen()) && r->Ok_0.transformed == old(f).answers(final(f).seen()).transformed,
//@ subst: stack.borrow_mut().pop() => stack.pop()
//@ subst: f(node, tc) => f.call(node, tc)
//@ subst: stack.borrow_mut().extend( => vx_extend(stack,
//@ subst: child_tcs.into_iter() => child_tcs
//@ subst: .rev() => .vx_rev()
//@ subst: vec![nb.input_stage().task_count(); transformed.data.children().len()] => vx_fill(nb.input_stage().task_count(), transformed.data.children().len())
//@ subst: vec![tc; transformed.data.children().len()] => vx_fill(tc, transformed.data.children().len())
//@ ghost: broadcast use unions_are_sound;
//@end
//@fn src/common/recursion.rs Arc::transform_down_with_task_count@TreeNodeExt#c1 as down_leave
//@ sig: fn $name(node: PlanRef) -> (r: Result<Transformed>)
//@ spec: ensures r is Ok && r->Ok_0 == (Transformed { data: node, transformed: false, tnr: TreeNodeRecursion::Continue }),
//@end

// ------------------------------------------------------------------ DataFusion's traversals, driving those closures
/// `TreeNode::transform_down`: a node, then its children from left to right (bounded by `fuel` levels, for every bound)
pub open spec fn df_down<E, C>(fuel: nat, step: spec_fn(PlanRef, Seq<E>, Seq<(PlanRef, C)>) -> Step<E, C>, p: PlanRef, stack: Seq<E>, seen: Seq<(PlanRef, C)>) -> (bool, Seq<E>, Seq<(PlanRef, C)>) decreases fuel, 1nat, 0nat {
    let s = step(p, stack, seen);
    match s.tnr {
        TreeNodeRecursion::Stop => (true, s.stack, s.seen),
        TreeNodeRecursion::Jump => (false, s.stack, s.seen),
        TreeNodeRecursion::Continue => if kids(s.data).len() == 0 { (false, s.stack, s.seen) } else if fuel == 0 { (true, s.stack, s.seen) } else { df_down_from((fuel - 1) as nat, step, kids(s.data), 0, s.stack, s.seen) },
    }
}
pub open spec fn df_down_from<E, C>(fuel: nat, step: spec_fn(PlanRef, Seq<E>, Seq<(PlanRef, C)>) -> Step<E, C>, below: Seq<PlanRef>, i: nat, stack: Seq<E>, seen: Seq<(PlanRef, C)>) -> (bool, Seq<E>, Seq<(PlanRef, C)>) decreases fuel, 2nat, below.len() - i {
    if i >= below.len() { (false, stack, seen) } else { let r = df_down(fuel, step, below[i as int], stack, seen); if r.0 { r } else { df_down_from(fuel, step, below, i + 1, r.1, r.2) } }
}
/// the same walk, as documented: every node gets the context that its parent hands down to it; `None` is not visited, and an empty list means that the walk does not go below the node
pub open spec fn doc_down<C>(fuel: nat, v: Rewriter<C>, below: spec_fn(PlanRef, C) -> Seq<Option<C>>, p: PlanRef, c: Option<C>, seen: Seq<(PlanRef, C)>) -> (bool, Seq<(PlanRef, C)>) decreases fuel, 1nat, 0nat {
    match c { None => (false, seen), Some(c) => {
        let seen1 = seen.push((p, c)); let t = v.answers(seen1);
        match t.tnr {
            TreeNodeRecursion::Stop => (true, seen1),
            TreeNodeRecursion::Jump => (false, seen1),
            TreeNodeRecursion::Continue => if below(t.data, c).len() == 0 { (false, seen1) } else if fuel == 0 { (true, seen1) } else { doc_down_from((fuel - 1) as nat, v, below, kids(t.data), below(t.data, c), 0, seen1) },
        }
    } }
}
pub open spec fn doc_down_from<C>(fuel: nat, v: Rewriter<C>, below: spec_fn(PlanRef, C) -> Seq<Option<C>>, ps: Seq<PlanRef>, cs: Seq<Option<C>>, i: nat, seen: Seq<(PlanRef, C)>) -> (bool, Seq<(PlanRef, C)>) decreases fuel, 2nat, ps.len() - i {
    if i >= ps.len() { (false, seen) } else { let r = doc_down(fuel, v, below, ps[i as int], cs[i as int], seen); if r.0 { r } else { doc_down_from(fuel, v, below, ps, cs, i + 1, r.1) } }
}
/// the closure works with the top of the stack only, and leaves its children's entries there
pub open spec fn disciplined<E, C>(step: spec_fn(PlanRef, Seq<E>, Seq<(PlanRef, C)>) -> Step<E, C>, v: Rewriter<C>, below: spec_fn(PlanRef, C) -> Seq<Option<C>>, means: spec_fn(E) -> Option<C>, entries: spec_fn(PlanRef, C) -> Seq<E>) -> bool {
    forall|p: PlanRef, s: Seq<E>, e: E, seen: Seq<(PlanRef, C)>| { let r = #[trigger] step(p, s.push(e), seen); match means(e) {
        None => r.tnr is Jump && r.stack =~= s && r.seen == seen,
        Some(c) => { let t = v.answers(seen.push((p, c)));
            &&& r.seen == seen.push((p, c))
            &&& !(t.tnr is Continue) ==> r.tnr == t.tnr && r.stack =~= s
            &&& t.tnr is Continue && below(t.data, c).len() == 0 ==> (r.tnr is Jump || r.tnr is Continue && kids(r.data).len() == 0) && r.stack =~= s
            &&& t.tnr is Continue && below(t.data, c).len() > 0 ==> r.tnr is Continue && r.data == t.data && r.stack =~= s + rev(entries(t.data, c)) && entries(t.data, c).len() == kids(t.data).len() && below(t.data, c) =~= Seq::new(kids(t.data).len(), |i: int| means(entries(t.data, c)[i]))
        },
    } }
}
/// so every node is called with the context that its parent hands down to it, and with that one only
pub proof fn lemma_down<E, C>(fuel: nat, step: spec_fn(PlanRef, Seq<E>, Seq<(PlanRef, C)>) -> Step<E, C>, v: Rewriter<C>, below: spec_fn(PlanRef, C) -> Seq<Option<C>>, means: spec_fn(E) -> Option<C>, entries: spec_fn(PlanRef, C) -> Seq<E>, p: PlanRef, s: Seq<E>, e: E, seen: Seq<(PlanRef, C)>)
    requires disciplined(step, v, below, means, entries),
    ensures ({ let a = df_down(fuel, step, p, s.push(e), seen); let b = doc_down(fuel, v, below, p, means(e), seen); a.0 == b.0 && a.2 == b.1 && (!a.0 ==> a.1 =~= s) }),
    decreases fuel, 1nat, 0nat,
{
    let r = step(p, s.push(e), seen);
    if means(e) is Some { let c = means(e)->0; let t = v.answers(seen.push((p, c)));
        if t.tnr is Continue && below(t.data, c).len() > 0 && fuel > 0 { let es = entries(t.data, c); assert(r.stack =~= s + rev(es.subrange(0, es.len() as int))) by { assert(es.subrange(0, es.len() as int) =~= es); }; lemma_down_from((fuel - 1) as nat, step, v, below, means, entries, kids(t.data), es, 0, s, r.seen); }
    }
}
pub proof fn lemma_down_from<E, C>(fuel: nat, step: spec_fn(PlanRef, Seq<E>, Seq<(PlanRef, C)>) -> Step<E, C>, v: Rewriter<C>, below: spec_fn(PlanRef, C) -> Seq<Option<C>>, means: spec_fn(E) -> Option<C>, entries: spec_fn(PlanRef, C) -> Seq<E>, ps: Seq<PlanRef>, es: Seq<E>, i: nat, s: Seq<E>, seen: Seq<(PlanRef, C)>)
    requires disciplined(step, v, below, means, entries), es.len() == ps.len(), i <= ps.len(),
    ensures ({ let a = df_down_from(fuel, step, ps, i, s + rev(es.subrange(i as int, es.len() as int)), seen); let b = doc_down_from(fuel, v, below, ps, Seq::new(ps.len(), |k: int| means(es[k])), i, seen); a.0 == b.0 && a.2 == b.1 && (!a.0 ==> a.1 =~= s) }),
    decreases fuel, 2nat, ps.len() - i,
{
    let stack = s + rev(es.subrange(i as int, es.len() as int));
    if i < ps.len() {
        let rest = s + rev(es.subrange(i as int + 1, es.len() as int));
        assert(stack =~= rest.push(es[i as int]));
        lemma_down(fuel, step, v, below, means, entries, ps[i as int], rest, es[i as int], seen);
        let r = df_down(fuel, step, ps[i as int], stack, seen);
        if !r.0 { assert(r.1 =~= rest); lemma_down_from(fuel, step, v, below, means, entries, ps, es, i + 1, s, r.2); }
    } else { assert(stack =~= s); }
}
/// `transform_down_with_dt_ctx`: every node is called with the task that its parent's task runs it as; what the task does not run, and what is behind a network boundary, is not visited
pub open spec fn below_dt() -> spec_fn(PlanRef, Ctx) -> Seq<Option<Ctx>> { |p: PlanRef, c: Ctx| if boundary_of(p) is Some { seq![] } else { children_run(p, c) } }
pub proof fn theorem_down_with_dt_ctx(fuel: nat, v: Rewriter<Ctx>, p: PlanRef, c: Ctx, seen: Seq<(PlanRef, Ctx)>)
    ensures ({ let a = df_down(fuel, step_dt(v), p, seq![Some(c)], seen); let b = doc_down(fuel, v, below_dt(), p, Some(c), seen); a.0 == b.0 && a.2 == b.1 })
{
    let means = |e: Option<Ctx>| e; let entries = |p: PlanRef, c: Ctx| children_run(p, c);
    assert(disciplined(step_dt(v), v, below_dt(), means, entries)) by {
        assert forall|p: PlanRef, s: Seq<Option<Ctx>>, e: Option<Ctx>, seen: Seq<(PlanRef, Ctx)>| { let r = #[trigger] step_dt(v)(p, s.push(e), seen); e is Some ==> ({ let t = v.answers(seen.push((p, e->0))); t.tnr is Continue && below_dt()(t.data, e->0).len() == 0 ==> r.stack =~= s }) } by {}
        assert(forall|s: Seq<Option<Ctx>>, e: Option<Ctx>| #[trigger] s.push(e).drop_last() =~= s);
    }
    lemma_down(fuel, step_dt(v), v, below_dt(), means, entries, p, seq![], Some(c), seen);
    assert(seq![Some(c)] =~= Seq::<Option<Ctx>>::empty().push(Some(c)));
}
/// `transform_down_with_task_count`: every node is called with the number of tasks of its stage
pub open spec fn below_tc() -> spec_fn(PlanRef, usize) -> Seq<Option<usize>> { |p: PlanRef, c: usize| Seq::new(kids(p).len(), |i: int| Some(children_counts(p, c)[i])) }
pub proof fn theorem_down_with_task_count(fuel: nat, v: Rewriter<usize>, p: PlanRef, c: usize, seen: Seq<(PlanRef, usize)>)
    ensures ({ let a = df_down(fuel, step_tc(v), p, seq![c], seen); let b = doc_down(fuel, v, below_tc(), p, Some(c), seen); a.0 == b.0 && a.2 == b.1 })
{
    broadcast use unions_are_sound;
    let means = |e: usize| Some(e); let entries = |p: PlanRef, c: usize| children_counts(p, c);
    assert(disciplined(step_tc(v), v, below_tc(), means, entries)) by { assert(forall|s: Seq<usize>, e: usize| #[trigger] s.push(e).drop_last() =~= s); }
    lemma_down(fuel, step_tc(v), v, below_tc(), means, entries, p, seq![], c, seen);
    assert(seq![c] =~= Seq::<usize>::empty().push(c));
}
/// `TreeNode::transform_down_up` with the closures of `transform_up_with_task_count`: on the way down `up_enter`, on the way up `up_leave`; the node that is left has the rewritten children
pub uninterp spec fn rebuilt(p: PlanRef, children: Seq<PlanRef>) -> PlanRef;
pub struct Up { pub stopped: bool, pub data: PlanRef, pub stack: Seq<usize>, pub seen: Seq<(PlanRef, usize)> }
pub struct Ups { pub stopped: bool, pub data: Seq<PlanRef>, pub stack: Seq<usize>, pub seen: Seq<(PlanRef, usize)> }
pub open spec fn df_up(v: Rewriter<usize>, p: PlanRef, stack: Seq<usize>, seen: Seq<(PlanRef, usize)>) -> Up decreases rank(p), 1nat, 0nat {
    let r = df_up_from(rank(p), v, kids(p), 0, stack + rev(children_counts(p, stack.last())), seen);
    if r.stopped { Up { stopped: true, data: p, stack: r.stack, seen: r.seen } } else { let q = rebuilt(p, r.data); let seen1 = r.seen.push((q, r.stack.last())); let t = v.answers(seen1); Up { stopped: t.tnr is Stop, data: t.data, stack: r.stack.drop_last(), seen: seen1 } }
}
pub open spec fn df_up_from(bound: nat, v: Rewriter<usize>, ps: Seq<PlanRef>, i: nat, stack: Seq<usize>, seen: Seq<(PlanRef, usize)>) -> Ups decreases bound, 0nat, ps.len() - i {
    if i >= ps.len() || rank(ps[i as int]) >= bound { Ups { stopped: false, data: seq![], stack, seen } } else {
        let r = df_up(v, ps[i as int], stack, seen);
        if r.stopped { Ups { stopped: true, data: seq![], stack: r.stack, seen: r.seen } } else { let q = df_up_from(bound, v, ps, i + 1, r.stack, r.seen); Ups { data: seq![r.data] + q.data, ..q } }
    }
}
/// the same walk, as documented: the children first, each with the number of tasks of its stage, then the node
pub open spec fn doc_up(v: Rewriter<usize>, p: PlanRef, c: usize, seen: Seq<(PlanRef, usize)>) -> Up decreases rank(p), 1nat, 0nat {
    let r = doc_up_from(rank(p), v, kids(p), children_counts(p, c), 0, seen);
    if r.stopped { Up { stopped: true, data: p, stack: seq![], seen: r.seen } } else { let q = rebuilt(p, r.data); let seen1 = r.seen.push((q, c)); let t = v.answers(seen1); Up { stopped: t.tnr is Stop, data: t.data, stack: seq![], seen: seen1 } }
}
pub open spec fn doc_up_from(bound: nat, v: Rewriter<usize>, ps: Seq<PlanRef>, cs: Seq<usize>, i: nat, seen: Seq<(PlanRef, usize)>) -> Ups decreases bound, 0nat, ps.len() - i {
    if i >= ps.len() || rank(ps[i as int]) >= bound { Ups { stopped: false, data: seq![], stack: seq![], seen } } else {
        let r = doc_up(v, ps[i as int], cs[i as int], seen);
        if r.stopped { Ups { stopped: true, data: seq![], stack: seq![], seen: r.seen } } else { let q = doc_up_from(bound, v, ps, cs, i + 1, r.seen); Ups { data: seq![r.data] + q.data, ..q } }
    }
}
/// `transform_up_with_task_count`: every node is called with the number of tasks of its stage (the function is one that does not jump: none of the callers' does)
pub proof fn theorem_up(v: Rewriter<usize>, p: PlanRef, s: Seq<usize>, c: usize, seen: Seq<(PlanRef, usize)>)
    ensures ({ let a = df_up(v, p, s.push(c), seen); let b = doc_up(v, p, c, seen); a.stopped == b.stopped && a.seen == b.seen && a.data == b.data && (!a.stopped ==> a.stack =~= s) }),
    decreases rank(p), 1nat, 0nat,
{
    broadcast use {unions_are_sound, kids_are_smaller};
    let es = children_counts(p, c);
    assert(es.len() == kids(p).len());
    assert(s.push(c).last() == c); assert(es.subrange(0, es.len() as int) =~= es);
    lemma_up_from(rank(p), v, kids(p), es, 0, s.push(c), seen);
    assert(s.push(c).drop_last() =~= s);
    let r = df_up_from(rank(p), v, kids(p), 0, s.push(c) + rev(es), seen);
    if !r.stopped { assert(r.stack =~= s.push(c)); assert(r.stack.drop_last() =~= s); }
}
pub proof fn lemma_up_from(bound: nat, v: Rewriter<usize>, ps: Seq<PlanRef>, es: Seq<usize>, i: nat, s: Seq<usize>, seen: Seq<(PlanRef, usize)>)
    requires es.len() == ps.len(), i <= ps.len(), forall|j: int| 0 <= j < ps.len() ==> rank(#[trigger] ps[j]) < bound,
    ensures ({ let a = df_up_from(bound, v, ps, i, s + rev(es.subrange(i as int, es.len() as int)), seen); let b = doc_up_from(bound, v, ps, es, i, seen); a.stopped == b.stopped && a.seen == b.seen && a.data == b.data && (!a.stopped ==> a.stack =~= s) }),
    decreases bound, 0nat, ps.len() - i,
{
    let stack = s + rev(es.subrange(i as int, es.len() as int));
    if i < ps.len() {
        let rest = s + rev(es.subrange(i as int + 1, es.len() as int));
        assert(stack =~= rest.push(es[i as int]));
        theorem_up(v, ps[i as int], rest, es[i as int], seen);
        let r = df_up(v, ps[i as int], stack, seen);
        if !r.stopped { assert(r.stack =~= rest); lemma_up_from(bound, v, ps, es, i + 1, s, r.seen); }
    } else { assert(stack =~= s); }
}
// DataFusion's traversals with those closures
#[verifier::external_body] pub fn vx_transform_down(p: PlanRef, stack: Vec<Option<Ctx>>, f: &mut Rewriter<Ctx>) -> (r: Result<Transformed>)
    ensures r is Ok ==> exists|fuel: nat| final(f).seen() == (#[trigger] df_down(fuel, step_dt(*old(f)), p, stack@, old(f).seen())).2
{ unimplemented!() }
#[verifier::external_body] pub fn vx_transform_down_tc(p: PlanRef, stack: RefCell<Vec<usize>>, f: &mut Rewriter<usize>) -> (r: Result<Transformed>)
    ensures r is Ok ==> exists|fuel: nat| final(f).seen() == (#[trigger] df_down(fuel, step_tc(*old(f)), p, stack.v@, old(f).seen())).2
{ unimplemented!() }
#[verifier::external_body] pub fn vx_transform_up(p: PlanRef, stack: RefCell<Vec<usize>>, f: &mut Rewriter<usize>) -> (r: Result<Transformed>)
    ensures r is Ok ==> final(f).seen() == df_up(*old(f), p, stack.v@, old(f).seen()).seen && r->Ok_0.data == df_up(*old(f), p, stack.v@, old(f).seen()).data
{ unimplemented!() }
pub struct RefCell<T> { pub v: T }
impl<T> RefCell<T> { pub fn new(v: T) -> (r: Self) ensures r.v == v { RefCell { v } } }
impl PlanRef {
//@fn src/common/recursion.rs Arc::transform_down_with_dt_ctx@TreeNodeExt
//@ sig: fn $name(self, dt_ctx: Ctx, f: &mut Rewriter<Ctx>) -> (r: Result<Transformed>)
//@ spec: ensures r is Ok ==> exists|fuel: nat| final(f).seen() == (#[trigger] doc_down(fuel, *old(f), below_dt(), self, Some(dt_ctx), old(f).seen())).1,
//@ subst: self.transform_down($..) => { proof { assert forall|n: nat| (#[trigger] df_down(n, step_dt(*f), self, seq![Some(dt_ctx)], f.seen())).2 == doc_down(n, *f, below_dt(), self, Some(dt_ctx), f.seen()).1 by { theorem_down_with_dt_ctx(n, *f, self, dt_ctx, f.seen()); } assert(stack@ =~= seq![Some(dt_ctx)]); } vx_transform_down(self, stack, f) }
//@ loop 0: -
//@ closure 0: -
//@ closure 1: -
//@end
//@fn src/common/recursion.rs Arc::transform_down_with_task_count@TreeNodeExt
//@ sig: fn $name(self, task_count: usize, f: &mut Rewriter<usize>) -> (r: Result<Transformed>)
//@ spec: ensures r is Ok ==> exists|fuel: nat| final(f).seen() == (#[trigger] doc_down(fuel, *old(f), below_tc(), self, Some(task_count), old(f).seen())).1,
//@ subst: self.transform_down_up($..) => { proof { assert forall|n: nat| (#[trigger] df_down(n, step_tc(*f), self, seq![task_count], f.seen())).2 == doc_down(n, *f, below_tc(), self, Some(task_count), f.seen()).1 by { theorem_down_with_task_count(n, *f, self, task_count, f.seen()); } assert(stack.v@ =~= seq![task_count]); } vx_transform_down_tc(self, stack, f) }
//@ closure 0: -
//@ closure 1: -
//@end
//@fn src/common/recursion.rs Arc::transform_up_with_task_count@TreeNodeExt
//@ sig: fn $name(self, task_count: usize, f: &mut Rewriter<usize>) -> (r: Result<Transformed>)
//@ spec: ensures r is Ok ==> final(f).seen() == doc_up(*old(f), self, task_count, old(f).seen()).seen && r->Ok_0.data == doc_up(*old(f), self, task_count, old(f).seen()).data,
//@ subst: self.transform_down_up($..) => { proof { theorem_up(*f, self, seq![], task_count, f.seen()); assert(stack.v@ =~= Seq::<usize>::empty().push(task_count)); } vx_transform_up(self, stack, f) }
//@ closure 0: -
//@ closure 1: -
//@end
//@fn src/common/recursion.rs Arc::apply_with_dt_ctx@TreeNodeExt
//@ sig: fn $name(&self, ctx: Ctx, f: &mut Visitor<Ctx>) -> (r: Result<TreeNodeRecursion>)
//@ spec: requires in_plan(*self, ctx),
//@   ensures r is Ok ==> (r->Ok_0, final(f).seen()) == walk(*old(f), task_runs(), *self, ctx, old(f).seen()),
//@ drop: fn recurse
//@ subst: recurse(self, ctx, &mut f) => recurse_dt(self, ctx, f)
//@end
//@fn src/common/recursion.rs Arc::apply_driver_path@TreeNodeExt
//@ sig: fn $name(&self, f: &mut Visitor<()>) -> (r: Result<TreeNodeRecursion>)
//@ spec: ensures r is Ok ==> (r->Ok_0, final(f).seen()) == walk(*old(f), path_runs(), *self, (), old(f).seen()),
//@ drop: fn recurse
//@ subst: recurse(self, &mut f) => recurse_path(self, f)
//@end
}
} // verus!
fn main() {}
