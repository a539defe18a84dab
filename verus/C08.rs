//@include lib/base.rs
//@strip datafusion::common
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@type_is Arc::new => vx_plan
//@arcclone
macro_rules! assert_or_internal_err { ($c:expr, $($t:tt)*) => { if !$c { return vx_err(); } } }
verus! {
// ------------------------------------------------------------------ dependencies
#[verifier::external_body] pub struct PlanRef { _x: u8 }
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn kids(p: PlanRef) -> Seq<PlanRef>;
/// same operator, perhaps over other children
pub uninterp spec fn same_op(a: PlanRef, b: PlanRef) -> bool;
pub uninterp spec fn part_count(p: PlanRef) -> nat;
pub uninterp spec fn height(p: PlanRef) -> nat;
#[verifier::external_body] pub struct Key { _x: u8 }
impl Clone for Key { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[derive(PartialEq, Eq, Clone, Copy)] pub enum PartitionMode { Partitioned, CollectLeft, Auto }
#[derive(PartialEq, Eq, Clone, Copy)] pub enum JoinType { Inner, Left, Right, Full, LeftSemi, RightSemi, LeftAnti, RightAnti, LeftMark, RightMark }
impl vstd::std_specs::cmp::PartialEqSpecImpl for PartitionMode { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &PartitionMode) -> bool { *self == *o } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for JoinType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &JoinType) -> bool { *self == *o } }
#[verifier::external_body] pub struct RangePartitioning { _x: u8 }
pub enum Partitioning { RoundRobinBatch(usize), Hash(Vec<Key>, usize), UnknownPartitioning(usize), Range(RangePartitioning) }
pub struct RepartitionExec { pub input: PlanRef, pub partitioning: Partitioning }
impl RepartitionExec {
    #[verifier::external_body] pub fn try_new(input: PlanRef, partitioning: Partitioning) -> (r: Result<RepartitionExec>) ensures r is Ok ==> r->Ok_0 == (RepartitionExec { input, partitioning }) { unimplemented!() }
}
pub struct CoalescePartitionsExec { pub input: PlanRef, pub fetch: Option<usize> }
impl CoalescePartitionsExec {
    pub fn new(input: PlanRef) -> (r: Self) ensures r == (CoalescePartitionsExec { input, fetch: None }) { CoalescePartitionsExec { input, fetch: None } }
    pub fn with_fetch(self, fetch: Option<usize>) -> (r: Self) ensures r == (CoalescePartitionsExec { input: self.input, fetch }) { CoalescePartitionsExec { input: self.input, fetch } }
    pub fn input(&self) -> (r: &PlanRef) ensures *r == self.input { &self.input }
    pub fn fetch(&self) -> (r: Option<usize>) ensures r == self.fetch { self.fetch }
}
pub struct BroadcastExec { pub input: PlanRef }
impl BroadcastExec { pub fn new(input: PlanRef, consumer_task_count: usize) -> (r: Self) ensures r.input == input { BroadcastExec { input } } }
/// filter, projection, null equality and the rest of a join
#[verifier::external_body] pub struct Rest { _x: u8 }
impl Clone for Rest { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct HashJoinExec { pub left: PlanRef, pub right: PlanRef, pub on: Vec<(Key, Key)>, pub mode: PartitionMode, pub null_aware: bool, pub jt: JoinType, pub rest: Rest }
pub struct NestedLoopJoinExec { pub left: PlanRef, pub right: PlanRef, pub jt: JoinType, pub rest: Rest }
#[verifier::external_body] pub struct CrossJoinExec { _x: u8 }
impl HashJoinExec {
    pub fn join_type(&self) -> (r: &JoinType) ensures *r == self.jt { &self.jt }
    pub fn partition_mode(&self) -> (r: &PartitionMode) ensures *r == self.mode { &self.mode }
    pub fn left(&self) -> (r: &PlanRef) ensures *r == self.left { &self.left }
    pub fn right(&self) -> (r: &PlanRef) ensures *r == self.right { &self.right }
    pub fn on(&self) -> (r: &Vec<(Key, Key)>) ensures *r == self.on { &self.on }
    #[verifier::external_body] pub fn builder(&self) -> (r: HashJoinExecBuilder) ensures r.j == *self { unimplemented!() }
}
pub struct HashJoinExecBuilder { pub j: HashJoinExec }
impl HashJoinExecBuilder {
    #[verifier::external_body] pub fn with_partition_mode(self, mode: PartitionMode) -> (r: Self) ensures r.j == (HashJoinExec { mode, ..self.j }) { unimplemented!() }
    #[verifier::external_body] pub fn with_new_children(self, c: Vec<PlanRef>) -> (r: Result<Self>) requires c@.len() == 2, ensures r is Ok ==> r->Ok_0.j == (HashJoinExec { left: c@[0], right: c@[1], ..self.j }) { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> (r: Result<HashJoinExec>) ensures r is Ok ==> r->Ok_0 == self.j { unimplemented!() }
}
/// the same join with its inputs exchanged, and its columns in the order they had
pub uninterp spec fn swapped(j: NestedLoopJoinExec) -> PlanRef;
impl NestedLoopJoinExec {
    pub fn join_type(&self) -> (r: &JoinType) ensures *r == self.jt { &self.jt }
    pub fn left(&self) -> (r: &PlanRef) ensures *r == self.left { &self.left }
    pub fn right(&self) -> (r: &PlanRef) ensures *r == self.right { &self.right }
    #[verifier::external_body] pub fn swap_inputs(&self) -> (r: Result<PlanRef>) ensures r is Ok ==> r->Ok_0 == swapped(*self) { unimplemented!() }
}
pub trait Node: Sized { spec fn of(p: PlanRef) -> Option<Self>; }
pub uninterp spec fn node_hj(p: PlanRef) -> Option<HashJoinExec>;
pub uninterp spec fn node_nlj(p: PlanRef) -> Option<NestedLoopJoinExec>;
pub uninterp spec fn node_cj(p: PlanRef) -> Option<CrossJoinExec>;
pub uninterp spec fn node_rep(p: PlanRef) -> Option<RepartitionExec>;
pub uninterp spec fn node_bc(p: PlanRef) -> Option<BroadcastExec>;
pub uninterp spec fn node_cp(p: PlanRef) -> Option<CoalescePartitionsExec>;
impl Node for HashJoinExec { open spec fn of(p: PlanRef) -> Option<Self> { node_hj(p) } }
impl Node for NestedLoopJoinExec { open spec fn of(p: PlanRef) -> Option<Self> { node_nlj(p) } }
impl Node for CrossJoinExec { open spec fn of(p: PlanRef) -> Option<Self> { node_cj(p) } }
impl Node for RepartitionExec { open spec fn of(p: PlanRef) -> Option<Self> { node_rep(p) } }
impl Node for BroadcastExec { open spec fn of(p: PlanRef) -> Option<Self> { node_bc(p) } }
impl Node for CoalescePartitionsExec { open spec fn of(p: PlanRef) -> Option<Self> { node_cp(p) } }
/// joins have two children, and a concrete node is of one kind
pub open spec fn join_shape(p: PlanRef) -> bool {
    &&& (node_hj(p) is Some || node_nlj(p) is Some || node_cj(p) is Some ==> kids(p).len() == 2)
    &&& (node_hj(p) is Some ==> node_nlj(p) is None && node_cj(p) is None && node_hj(p)->0.left == kids(p)[0] && node_hj(p)->0.right == kids(p)[1])
    &&& (node_nlj(p) is Some ==> node_hj(p) is None && node_cj(p) is None && node_nlj(p)->0.left == kids(p)[0] && node_nlj(p)->0.right == kids(p)[1])
}
#[verifier::external_body] pub fn vx_plan<T: Node>(x: T) -> (r: PlanRef) ensures T::of(r) == Some(x) { unimplemented!() }
#[verifier::external_body] pub fn vx_owned(v: Vec<&PlanRef>) -> (r: Vec<PlanRef>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *v@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_unzip<A, B>(v: Vec<(A, B)>) -> (r: (Vec<A>, Vec<B>))
    ensures r.0@.len() == v@.len(), r.1@.len() == v@.len(), forall|i: int| #![trigger v@[i]] #![trigger r.0@[i]] #![trigger r.1@[i]] 0 <= i < v@.len() ==> v@[i] == (r.0@[i], r.1@[i]),
{ unimplemented!() }
pub enum ChildrenPropertiesMode { Recompute, Same }
pub struct ReplaceChildrenOptions {}
impl ReplaceChildrenOptions { pub fn new(m: ChildrenPropertiesMode) -> Self { ReplaceChildrenOptions {} } }
pub struct Layout { pub n: usize }
impl Layout { pub fn partition_count(&self) -> (r: usize) ensures r == self.n { self.n } }
impl PlanRef {
    #[verifier::external_body] pub fn children(&self) -> (r: Vec<&PlanRef>) ensures r@.len() == kids(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == kids(*self)[i], join_shape(*self) { unimplemented!() }
    #[verifier::external_body] pub fn downcast_ref<T: Node>(&self) -> (r: Option<&T>) ensures match T::of(*self) { Some(x) => r is Some && *r->Some_0 == x, None => r is None }, join_shape(*self) { unimplemented!() }
    #[verifier::external_body] pub fn is<T: Node>(&self) -> (r: bool) ensures r == (T::of(*self) is Some) { unimplemented!() }
    #[verifier::external_body] pub fn output_partitioning(&self) -> (r: &Layout) ensures r.n == part_count(*self) { unimplemented!() }
    #[verifier::external_body] pub fn replace_children(self, c: Vec<PlanRef>, o: ReplaceChildrenOptions) -> (r: Result<PlanRef>)
        requires c@.len() == kids(self).len(),
        ensures r is Ok ==> same_op(self, r->Ok_0) && kids(r->Ok_0) == c@
            && (node_nlj(self) is Some ==> node_nlj(r->Ok_0) == Some(NestedLoopJoinExec { left: c@[0], right: c@[1], ..node_nlj(self)->0 })) { unimplemented!() }
    /// DataFusion's top-down rewrite, for a function that neither jumps nor stops: a node is handed to the function, then the children of the result are
    #[verifier::external_body] pub fn transform_down<F: Fn(PlanRef) -> Result<Transformed>>(self, f: F) -> (r: Result<Transformed>)
        requires forall|p: PlanRef| f.requires((p,)),
        ensures r is Ok ==> forall|step: spec_fn(PlanRef, PlanRef) -> bool| (forall|a: PlanRef, t: Transformed| #[trigger] f.ensures((a,), Ok(t)) ==> step(a, t.data)) ==> #[trigger] top_down(step, self, r->Ok_0.data) { unimplemented!() }
}
pub struct Transformed { pub data: PlanRef, pub transformed: bool }
impl Transformed {
    pub fn yes(data: PlanRef) -> (r: Self) ensures r.data == data, r.transformed { Transformed { data, transformed: true } }
    pub fn no(data: PlanRef) -> (r: Self) ensures r.data == data, !r.transformed { Transformed { data, transformed: false } }
}
/// `b` is `a` rewritten from the root down, each node by `step`
pub open spec fn top_down(step: spec_fn(PlanRef, PlanRef) -> bool, a: PlanRef, b: PlanRef) -> bool
    decreases height(b)
{
    exists|m: PlanRef| #[trigger] step(a, m) && same_op(m, b) && kids(m).len() == kids(b).len()
        && forall|i: int| 0 <= i < kids(b).len() ==> height(#[trigger] kids(b)[i]) < height(b) && top_down(step, kids(m)[i], kids(b)[i])
}
pub struct DistributedConfig { pub broadcast_joins: bool }
pub struct ExecutionOptions { pub target_partitions: usize }
#[verifier::external_body] pub struct OtherOptions { _x: u8 }
pub struct ConfigOptions { pub execution: ExecutionOptions, pub other: OtherOptions }
pub uninterp spec fn dcfg(c: ConfigOptions) -> Option<DistributedConfig>;
impl DistributedConfig {
    #[verifier::external_body] pub fn from_config_options(cfg: &ConfigOptions) -> (r: Result<&DistributedConfig>)
        ensures match dcfg(*cfg) { Some(d) => r is Ok && *r->Ok_0 == d, None => r is Err } { unimplemented!() }
}

// ------------------------------------------------------------------ what the passes may do
/// the kinds of joins that put out a row for pairs and probe rows only: rows of the build side may be in several tasks
pub open spec fn keeps_probe_rows(t: JoinType) -> bool { t is Inner || t is Right || t is RightSemi || t is RightAnti || t is RightMark }
/// joins that gather their whole build side in every task, and can be given all of it by a broadcast
pub open spec fn broadcastable(p: PlanRef) -> bool {
    ||| node_hj(p) is Some && node_hj(p)->0.mode is CollectLeft && keeps_probe_rows(node_hj(p)->0.jt)
    ||| node_nlj(p) is Some && keeps_probe_rows(node_nlj(p)->0.jt)
    ||| node_cj(p) is Some
}
/// a gathering without a limit: what it gathers
pub open spec fn ungathered(p: PlanRef) -> PlanRef { if node_cp(p) is Some && node_cp(p)->0.fetch is None { node_cp(p)->0.input } else { p } }
/// gathers all of a broadcast of `p`'s rows; a limit stays on the side where there is one of it
pub open spec fn reads_broadcast_of(q: PlanRef, p: PlanRef) -> bool {
    node_cp(q) is Some && node_cp(q)->0.fetch is None && node_bc(node_cp(q)->0.input) is Some && node_bc(node_cp(q)->0.input)->0.input == ungathered(p)
}
pub open spec fn broadcast_step(p: PlanRef, q: PlanRef) -> bool {
    if broadcastable(p) { same_op(p, q) && kids(q).len() == 2 && reads_broadcast_of(kids(q)[0], kids(p)[0]) && kids(q)[1] == kids(p)[1] } else { q == p }
}
pub open spec fn both_single(l: PlanRef, r: PlanRef) -> bool { part_count(l) == 1 && part_count(r) == 1 }
/// a shuffle of `p` by one side of the join keys
pub open spec fn keyed(q: PlanRef, p: PlanRef, on: Seq<(Key, Key)>, left: bool, n: usize) -> bool {
    node_rep(q) is Some && node_rep(q)->0.input == p && node_rep(q)->0.partitioning is Hash && ({
        let (k, m) = (node_rep(q)->0.partitioning->Hash_0@, node_rep(q)->0.partitioning->Hash_1);
        m == n && k.len() == on.len() && forall|i: int| 0 <= i < on.len() ==> #[trigger] k[i] == (if left { on[i].0 } else { on[i].1 })
    })
}
/// the same join, but each task sees the build and the probe rows of its own keys
pub open spec fn partitioned(j: HashJoinExec, q: PlanRef, n: usize) -> bool {
    node_hj(q) is Some && ({
        let k = node_hj(q)->0;
        &&& k == (HashJoinExec { left: k.left, right: k.right, mode: PartitionMode::Partitioned, ..j })
        &&& keyed(k.left, ungathered(j.left), j.on@, true, n)
        &&& keyed(k.right, j.right, j.on@, false, n)
    })
}
pub open spec fn normalize_step(p: PlanRef, q: PlanRef, broadcasts: bool, n: usize) -> bool {
    if node_hj(p) is Some && node_hj(p)->0.mode is CollectLeft && !keeps_probe_rows(node_hj(p)->0.jt) && !node_hj(p)->0.null_aware && !both_single(node_hj(p)->0.left, node_hj(p)->0.right) {
        partitioned(node_hj(p)->0, q, n)
    } else if node_nlj(p) is Some && broadcasts && !keeps_probe_rows(node_nlj(p)->0.jt) && !(node_nlj(p)->0.jt is Full) && !both_single(node_nlj(p)->0.left, node_nlj(p)->0.right) {
        q == swapped(node_nlj(p)->0) || q == swapped(NestedLoopJoinExec { left: ungathered(node_nlj(p)->0.left), ..node_nlj(p)->0 })
    } else { q == p }
}
pub open spec fn normalize_fn(broadcasts: bool, n: usize) -> spec_fn(PlanRef, PlanRef) -> bool { |p: PlanRef, q: PlanRef| normalize_step(p, q, broadcasts, n) }
pub open spec fn broadcast_fn() -> spec_fn(PlanRef, PlanRef) -> bool { |p: PlanRef, q: PlanRef| broadcast_step(p, q) }

//@fn src/distributed_planner/insert_broadcast.rs is_left_broadcast_safe
//@ spec: ensures r == keeps_probe_rows(*join_type),
//@end
//@fn src/distributed_planner/insert_broadcast.rs can_broadcast_left_input
//@ sig: pub fn $name(plan: &PlanRef) -> (r: bool)
//@ spec: ensures r == broadcastable(*plan),
//@end
//@fn src/distributed_planner/insert_broadcast.rs insert_broadcast_execs
//@ spec: ensures dcfg(*cfg) is None ==> r is Err,
//@   dcfg(*cfg) is Some && !dcfg(*cfg)->0.broadcast_joins ==> r is Ok && r->Ok_0 == plan,
//@   r is Ok && dcfg(*cfg)->0.broadcast_joins ==> top_down(broadcast_fn(), plan, r->Ok_0),
//@ closure 0: |node: PlanRef| -> (o: Result<Transformed>) ensures o is Ok ==> broadcast_step(node, o->Ok_0.data)
//@ closure 1: -> (o: PlanRef) ensures o == $0.data
//@ subst: node.as_ref() => &node
//@ subst: build_child.clone() => (**build_child).clone()
//@ subst: children.into_iter().cloned().collect() => vx_owned(children)
//@end
//@fn src/distributed_planner/normalize_collect_joins.rs both_sides_use_single_partition
//@ spec: ensures r == both_single(*left, *right),
//@end
//@fn src/distributed_planner/normalize_collect_joins.rs collect_left_to_partitioned
//@ spec: ensures r is Ok ==> partitioned(*join, r->Ok_0, target_partitions),
//@ closure 0: |$0: &(Key, Key)| -> (o: (Key, Key)) ensures o == *$0
//@ subst: join.on().iter().map($..).unzip() => vx_unzip(join.on().iter().map($..).collect::<Vec<_>>())
//@end
//@fn src/distributed_planner/normalize_collect_joins.rs normalize_collect_joins
//@ spec: ensures dcfg(*cfg) is None ==> r is Err,
//@   r is Ok ==> top_down(normalize_fn(dcfg(*cfg)->0.broadcast_joins, cfg.execution.target_partitions), plan, r->Ok_0),
//@ closure 0: |node: PlanRef| -> (o: Result<Transformed>) ensures o is Ok ==> normalize_step(node, o->Ok_0.data, d_cfg.broadcast_joins, target_partitions)
//@ closure 1: -> (o: PlanRef) ensures o == $0.data
//@end
} // verus!
fn main() {}
