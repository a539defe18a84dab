verus! {
global size_of usize == 8;
//@enum src/events/desired_task_count.rs TaskCountAnnotation
impl Copy for TaskCountAnnotation {}
impl Clone for TaskCountAnnotation { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
use TaskCountAnnotation::*;
/// std::cmp::max / min on counts
#[verifier::external_body] pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { unimplemented!() }
#[verifier::external_body] pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { unimplemented!() }

pub open spec fn tc(a: TaskCountAnnotation) -> usize { match a { Desired(v) => v, Maximum(v) => v } }
pub open spec fn spec_merge(a: TaskCountAnnotation, b: TaskCountAnnotation) -> TaskCountAnnotation {
    match (a, b) {
        (Desired(x), Desired(y)) => Desired(if x >= y { x } else { y }),
        (Desired(_), Maximum(y)) => Maximum(y),
        (Maximum(x), Desired(_)) => Maximum(x),
        (Maximum(x), Maximum(y)) => Maximum(if x <= y { x } else { y }),
    }
}
impl TaskCountAnnotation {
//@fn src/events/desired_task_count.rs TaskCountAnnotation::as_usize
//@ spec: ensures r == tc(*self),
//@end
//@fn src/events/desired_task_count.rs TaskCountAnnotation::limit
//@ spec: requires limit >= 1,
//@   ensures 1 <= tc(r) <= limit, r is Maximum <==> self is Maximum, tc(r) == if tc(self) == 0 { 1 } else if tc(self) <= limit { tc(self) } else { limit },
//@end
//@fn src/events/desired_task_count.rs TaskCountAnnotation::merge
//@ spec: ensures r == spec_merge(self, other),
//@end
}

// ------------------------------------------------------------------ dependencies
#[verifier::external_body] pub struct Uuid { _x: u128 }
impl Copy for Uuid {} impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct MetricsSet { _x: u8 }
impl Default for MetricsSet { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
#[verifier::external_body] pub struct SessionConfig { _x: u8 }
#[verifier::external_body] pub struct RemoteStage { _x: u8 }
#[verifier::external_body] pub struct PlanProperties { _x: u8 }
#[verifier::external_body] pub struct Hashed { _x: u8 }
pub enum Partitioning { RoundRobinBatch(usize), Hash(Hashed, usize), UnknownPartitioning(usize), Range(Hashed) }
pub struct DistributedConfig { pub broadcast_joins: bool, pub max_tasks_per_stage: usize }
#[verifier::external_body] pub struct WorkerResolverExtension { _x: u8 }
#[verifier::external_body] pub struct Url { _x: u8 }
impl WorkerResolverExtension {
    /// number of workers the resolver knows
    pub uninterp spec fn workers(&self) -> usize;
}
#[verifier::external_body] pub fn vx_urls(r: &WorkerResolverExtension) -> (o: Result<Vec<Url>>) ensures o is Ok ==> o->Ok_0@.len() == r.workers() { unimplemented!() }
pub struct LocalStage { pub query_id: Uuid, pub num: usize, pub plan: PlanRef, pub tasks: usize, pub metrics_set: MetricsSet }
pub enum Stage { Local(LocalStage), Remote(RemoteStage) }

/// `Arc<dyn ExecutionPlan>`: a finite tree
#[verifier::external_body] pub struct PlanRef { _x: u8 }
pub uninterp spec fn kids(p: PlanRef) -> Seq<PlanRef>;
pub uninterp spec fn height(p: PlanRef) -> nat;
pub axiom fn axiom_finite_tree(p: PlanRef)
    ensures forall|i: int| 0 <= i < kids(p).len() ==> height(#[trigger] kids(p)[i]) < height(p);
/// `downcast_ref::<T>()`: which concrete node a plan is
pub trait Node: Sized { spec fn of(p: PlanRef) -> Option<Self>; }
pub uninterp spec fn is_boundary(p: PlanRef) -> bool;
/// a node differs from another one in its children only
pub open spec fn same_node(a: PlanRef, b: PlanRef) -> bool {
    &&& HashJoinExec::of(a) == HashJoinExec::of(b)
    &&& NestedLoopJoinExec::of(a) == NestedLoopJoinExec::of(b)
    &&& CrossJoinExec::of(a) == CrossJoinExec::of(b)
    &&& ChildrenIsolatorUnionExec::of(a) is Some <==> ChildrenIsolatorUnionExec::of(b) is Some
    &&& kids(a).len() == kids(b).len()
    &&& is_boundary(a) == is_boundary(b)
    &&& orig(a) == orig(b)
}
pub enum ChildrenPropertiesMode { Recompute, Preserve }
pub struct ReplaceChildrenOptions {}
impl ReplaceChildrenOptions { pub fn new(m: ChildrenPropertiesMode) -> Self { ReplaceChildrenOptions {} } }
impl PlanRef {
    #[verifier::external_body] pub fn children(&self) -> (r: Vec<&PlanRef>)
        ensures r@.len() == kids(*self).len(), forall|i: int| #![trigger r@[i]] #![trigger kids(*self)[i]] 0 <= i < r@.len() ==> *r@[i] == kids(*self)[i],
    { unimplemented!() }
    #[verifier::external_body] pub fn downcast_ref<T: Node>(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => T::of(*self) == Some(*x), None => T::of(*self) is None }
    { unimplemented!() }
    #[verifier::external_body] pub fn is<T: Node>(&self) -> (r: bool) ensures r == (T::of(*self) is Some) { unimplemented!() }
    #[verifier::external_body] pub fn is_network_boundary(&self) -> (r: bool) ensures r == is_boundary(*self) { unimplemented!() }
    #[verifier::external_body] pub fn properties(&self) -> &Arc<PlanProperties> { unimplemented!() }
    #[verifier::external_body] pub fn replace_children(self, c: Vec<PlanRef>, o: ReplaceChildrenOptions) -> (r: Result<PlanRef>)
        requires c@.len() == kids(self).len(),
        ensures r is Ok ==> kids(r->Ok_0) == c@ && same_node(r->Ok_0, self) && forall|i: int| 0 <= i < c@.len() ==> height(#[trigger] c@[i]) < height(r->Ok_0),
    { unimplemented!() }
}
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[derive(PartialEq, Eq, Clone, Copy)] pub enum PartitionMode { Partitioned, CollectLeft, Auto }
#[derive(PartialEq, Eq, Clone, Copy)] pub enum JoinType { Inner, Left, Right, Full, LeftSemi, RightSemi, LeftAnti, RightAnti, LeftMark, RightMark }
impl vstd::std_specs::cmp::PartialEqSpecImpl for PartitionMode { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &PartitionMode) -> bool { *self == *o } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for JoinType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &JoinType) -> bool { *self == *o } }
pub struct HashJoinExec { pub mode: PartitionMode, pub null_aware: bool, pub jt: JoinType }
impl HashJoinExec { pub fn join_type(&self) -> (r: &JoinType) ensures *r == self.jt { &self.jt } pub fn partition_mode(&self) -> (r: &PartitionMode) ensures *r == self.mode { &self.mode } }
pub struct NestedLoopJoinExec { pub jt: JoinType }
impl NestedLoopJoinExec { pub fn join_type(&self) -> (r: &JoinType) ensures *r == self.jt { &self.jt } }
#[verifier::external_body] pub struct ChildrenIsolatorUnionExec { _x: u8 }
#[verifier::external_body] pub struct CrossJoinExec { _x: u8 }
pub struct RepartitionExec { pub part: Partitioning }
impl RepartitionExec { pub fn partitioning(&self) -> (r: &Partitioning) ensures *r == self.part { &self.part } }
#[verifier::external_body] pub struct BroadcastExec { _x: u8 }
#[verifier::external_body] pub struct CoalescePartitionsExec { _x: u8 }
#[verifier::external_body] pub struct SortPreservingMergeExec { _x: u8 }
#[verifier::external_body] pub struct NetworkShuffleExec { _x: u8 }
#[verifier::external_body] pub struct NetworkBroadcastExec { _x: u8 }
#[verifier::external_body] pub struct NetworkCoalesceExec { _x: u8 }
#[verifier::external_body] pub struct KeyExprs { _x: u8 }
pub enum Distribution { UnspecifiedDistribution, SinglePartition, HashPartitioned(KeyExprs), KeyPartitioned(KeyExprs) }
pub uninterp spec fn node_nbc(p: PlanRef) -> Option<NetworkBroadcastExec>;
pub uninterp spec fn node_nsh(p: PlanRef) -> Option<NetworkShuffleExec>;
impl Node for NetworkBroadcastExec { open spec fn of(p: PlanRef) -> Option<Self> { node_nbc(p) } }
impl Node for NetworkShuffleExec { open spec fn of(p: PlanRef) -> Option<Self> { node_nsh(p) } }
pub uninterp spec fn node_hj(p: PlanRef) -> Option<HashJoinExec>;
pub uninterp spec fn node_nlj(p: PlanRef) -> Option<NestedLoopJoinExec>;
pub uninterp spec fn node_cj(p: PlanRef) -> Option<CrossJoinExec>;
pub uninterp spec fn node_ciu(p: PlanRef) -> Option<ChildrenIsolatorUnionExec>;
pub uninterp spec fn node_rep(p: PlanRef) -> Option<RepartitionExec>;
pub uninterp spec fn node_bc(p: PlanRef) -> Option<BroadcastExec>;
pub uninterp spec fn node_cp(p: PlanRef) -> Option<CoalescePartitionsExec>;
pub uninterp spec fn node_spm(p: PlanRef) -> Option<SortPreservingMergeExec>;
impl Node for HashJoinExec { open spec fn of(p: PlanRef) -> Option<Self> { node_hj(p) } }
impl Node for NestedLoopJoinExec { open spec fn of(p: PlanRef) -> Option<Self> { node_nlj(p) } }
impl Node for CrossJoinExec { open spec fn of(p: PlanRef) -> Option<Self> { node_cj(p) } }
impl Node for ChildrenIsolatorUnionExec { open spec fn of(p: PlanRef) -> Option<Self> { node_ciu(p) } }
impl Node for RepartitionExec { open spec fn of(p: PlanRef) -> Option<Self> { node_rep(p) } }
impl Node for BroadcastExec { open spec fn of(p: PlanRef) -> Option<Self> { node_bc(p) } }
impl Node for CoalescePartitionsExec { open spec fn of(p: PlanRef) -> Option<Self> { node_cp(p) } }
impl Node for SortPreservingMergeExec { open spec fn of(p: PlanRef) -> Option<Self> { node_spm(p) } }

pub struct TypeId { pub k: u8 }
pub trait Boundary { spec fn kind() -> u8; }
impl Boundary for NetworkShuffleExec { open spec fn kind() -> u8 { 1 } }
impl Boundary for NetworkBroadcastExec { open spec fn kind() -> u8 { 2 } }
impl Boundary for NetworkCoalesceExec { open spec fn kind() -> u8 { 3 } }
impl TypeId { #[verifier::external_body] pub fn of<T: Boundary>() -> (r: TypeId) ensures r.k == T::kind() { unimplemented!() } }
/// an `Arc` of a concrete node, used as a plan
pub trait IntoPlan: Sized { spec fn pl(self) -> PlanRef; spec fn boundary() -> bool; }
impl IntoPlan for PlanRef { open spec fn pl(self) -> PlanRef { self } open spec fn boundary() -> bool { false } }
pub uninterp spec fn shuffle_plan(x: NetworkShuffleExec) -> PlanRef;
pub uninterp spec fn broadcast_plan(x: NetworkBroadcastExec) -> PlanRef;
pub uninterp spec fn coalesce_plan(x: NetworkCoalesceExec) -> PlanRef;
impl IntoPlan for Arc<NetworkShuffleExec> { open spec fn pl(self) -> PlanRef { shuffle_plan(*self) } open spec fn boundary() -> bool { true } }
impl IntoPlan for Arc<NetworkBroadcastExec> { open spec fn pl(self) -> PlanRef { broadcast_plan(*self) } open spec fn boundary() -> bool { true } }
impl IntoPlan for Arc<NetworkCoalesceExec> { open spec fn pl(self) -> PlanRef { coalesce_plan(*self) } open spec fn boundary() -> bool { true } }
impl NetworkShuffleExec { #[verifier::external_body] pub fn from_stage(s: Stage, p: Arc<PlanProperties>) -> Self { unimplemented!() } }
impl NetworkBroadcastExec { #[verifier::external_body] pub fn from_stage(s: Stage, p: Arc<PlanProperties>) -> Self { unimplemented!() } }
impl NetworkCoalesceExec { #[verifier::external_body] pub fn try_from_stage(s: Stage, p: Arc<PlanProperties>, consumer_tasks: usize) -> (r: Result<Self>)
    requires consumer_tasks == 1,   // the operator above folds everything into one task
{ unimplemented!() } }

/// a session handler's wish for a node
pub uninterp spec fn wish(p: PlanRef) -> Option<TaskCountAnnotation>;
pub struct DesiredTaskCountEvent<'a> { pub plan: &'a PlanRef, pub session_config: &'a SessionConfig }
pub struct DesiredTaskCountEventResponse { pub task_count: TaskCountAnnotation }
pub struct DesiredTaskCountHandlers {}
impl DesiredTaskCountHandlers {
    #[verifier::external_body] pub fn handle(ev: DesiredTaskCountEvent) -> (r: Option<Result<DesiredTaskCountEventResponse>>)
        ensures match r { None => wish(*ev.plan) is None, Some(Ok(v)) => wish(*ev.plan) == Some(v.task_count), Some(Err(_)) => true },
    { unimplemented!() }
}
pub assume_specification<T, E>[ Option::<core::result::Result<T, E>>::transpose ](o: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
    ensures r == match o { None => Ok(None), Some(Ok(v)) => Ok(Some(v)), Some(Err(e)) => Err(e) };
/// `Box::pin(future)` of a sequentialised call
pub struct Box {}
impl Box { #[verifier::external_body] pub fn pin<T>(s: T) -> (r: T) ensures r == s { unimplemented!() } }
#[verifier::external_body]
pub fn try_join_all<T>(v: Vec<Result<T>>) -> (r: Result<Vec<T>>)
    ensures r is Ok ==> r->Ok_0@.len() == v@.len() && forall|i: int| #![trigger r->Ok_0@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> v@[i] is Ok && r->Ok_0@[i] == v@[i]->Ok_0,
{ unimplemented!() }

// ------------------------------------------------------------------ specification
/// the count noted for a node on the way up
pub uninterp spec fn up(p: PlanRef) -> TaskCountAnnotation;
pub open spec fn keeps_probe_rows(t: JoinType) -> bool { t is Inner || t is Right || t is RightSemi || t is RightAnti || t is RightMark }
/// rows an operator may stop after
pub uninterp spec fn fetch_of(p: PlanRef) -> Option<usize>;
pub uninterp spec fn part_count(p: PlanRef) -> nat;
pub uninterp spec fn dists(p: PlanRef) -> Seq<Distribution>;
/// stops after some number of rows of its only partition
pub open spec fn limits(p: PlanRef) -> bool { fetch_of(p) is Some && part_count(p) == 1 }
/// gathers what a broadcast hands to every task
pub open spec fn reads_bc(p: PlanRef) -> bool { node_cp(p) is Some && forall|i: int| 0 <= i < kids(p).len() ==> node_nbc(#[trigger] kids(p)[i]) is Some }
/// a shuffle of the same stage is below
pub open spec fn reads_sh(p: PlanRef) -> bool
    decreases height(p)
{
    if is_boundary(p) { node_nsh(p) is Some } else { exists|i: int| 0 <= i < kids(p).len() && height(#[trigger] kids(p)[i]) < height(p) && reads_sh(kids(p)[i]) }
}
/// an operator that relies on a lone partition of the optimizer's plan, which nothing in the stage keeps together
pub open spec fn needs_lone(p: PlanRef, done: Seq<PlanRef>) -> bool {
    exists|i: int| #![trigger needs_lone_at(p, done, i)] #![trigger dists(p)[i]] 0 <= i < kids(p).len() && needs_lone_at(p, done, i)
}
pub open spec fn needs_lone_at(p: PlanRef, done: Seq<PlanRef>, i: int) -> bool {
    match dists(p)[i] {
        Distribution::UnspecifiedDistribution => false,
        Distribution::SinglePartition => !reads_bc(done[i]),
        _ => part_count(kids(p)[i]) == 1 && !reads_sh(done[i]),
    }
}
/// joins that gather their build side once, where that side cannot be shared: one task only
pub open spec fn single(p: PlanRef, broadcasts: bool) -> bool {
    ||| node_hj(p) is Some && node_hj(p)->0.mode is CollectLeft && (!broadcasts || node_hj(p)->0.null_aware || !keeps_probe_rows(node_hj(p)->0.jt))
    ||| node_nlj(p) is Some && (!broadcasts || !keeps_probe_rows(node_nlj(p)->0.jt))
    ||| node_cj(p) is Some && !broadcasts
    ||| needs_lone(orig(p), kids(p))
}
pub open spec fn is_union(p: PlanRef) -> bool { node_ciu(p) is Some }
pub open spec fn atleast1(n: usize) -> int { if n == 0 { 1 } else { n as int } }
/// the node of the optimizer's plan that a node was made from
pub uninterp spec fn orig(p: PlanRef) -> PlanRef;
/// what holds between a node and its children
pub open spec fn noted(p: PlanRef, max: usize, broadcasts: bool) -> bool {
    is_boundary(p) || {
        &&& 1 <= tc(up(p)) <= max
        &&& (kids(p).len() > 0 && !is_union(p) && single(p, broadcasts) ==> up(p) == Maximum(1))
        &&& (limits(orig(p)) ==> up(p) == Maximum(1))
        &&& (!is_union(p) && wish(orig(p)) is Some && wish(orig(p))->0 is Maximum ==> up(p) is Maximum && tc(up(p)) <= atleast1(tc(wish(orig(p))->0)))
        &&& (!is_union(p) ==> forall|i: int| 0 <= i < kids(p).len() ==> (#[trigger] up(kids(p)[i])) is Maximum ==> up(p) is Maximum && tc(up(p)) <= atleast1(tc(up(kids(p)[i]))))
    }
}
/// the plan as the optimizer made it: no boundary in it yet, and no copy of another node
pub open spec fn fresh(p: PlanRef) -> bool
    decreases height(p)
{
    !is_boundary(p) && orig(p) == p && kids(p).len() <= 0xffff_ffff && forall|i: int| 0 <= i < kids(p).len() ==> height(#[trigger] kids(p)[i]) < height(p) && fresh(kids(p)[i])
}
pub open spec fn is_noted(r: Result<PlanRef>, max: usize, b: bool) -> bool { r is Ok ==> all_noted(r->Ok_0, max, b) }
pub open spec fn all_noted(p: PlanRef, max: usize, b: bool) -> bool
    decreases height(p)
{
    noted(p, max, b) && (is_boundary(p) || forall|i: int| 0 <= i < kids(p).len() ==> height(#[trigger] kids(p)[i]) < height(p) && all_noted(kids(p)[i], max, b))
}
/// q is reached from p inside one stage, not through an isolated union
pub open spec fn same_stage(p: PlanRef, path: Seq<int>) -> Option<PlanRef>
    decreases path.len()
{
    if path.len() == 0 { Some(p) }
    else if is_boundary(p) || is_union(p) || !(0 <= path[0] < kids(p).len()) { None }
    else { same_stage(kids(p)[path[0]], path.drop_first()) }
}
/// no operator of a stage runs in more tasks than the maximum noted for any operator below it in the stage
pub proof fn theorem_smallest_maximum(p: PlanRef, path: Seq<int>, max: usize, b: bool)
    requires all_noted(p, max, b), !is_boundary(p), same_stage(p, path) is Some, up(same_stage(p, path)->0) is Maximum,
    ensures tc(up(p)) <= atleast1(tc(up(same_stage(p, path)->0))), up(p) is Maximum, tc(up(p)) <= max,
    decreases path.len()
{
    if path.len() > 0 {
        let k = kids(p)[path[0]];
        assert(same_stage(p, path) == same_stage(k, path.drop_first()));
        assert(up(k) is Maximum ==> up(p) is Maximum && tc(up(p)) <= atleast1(tc(up(k))));
        if is_boundary(k) { assert(path.drop_first().len() == 0 || same_stage(k, path.drop_first()) is None); }
        else { theorem_smallest_maximum(k, path.drop_first(), max, b); }
    }
}
/// a stage with an operator that cannot be split runs in one task
pub proof fn theorem_single_join(p: PlanRef, path: Seq<int>, max: usize, b: bool)
    requires all_noted(p, max, b), !is_boundary(p), same_stage(p, path) is Some, !is_boundary(same_stage(p, path)->0), !is_union(same_stage(p, path)->0),
        kids(same_stage(p, path)->0).len() > 0 && single(same_stage(p, path)->0, b) || limits(orig(same_stage(p, path)->0)),
    ensures tc(up(p)) == 1,
{
    lemma_noted_below(p, path, max, b);
    theorem_smallest_maximum(p, path, max, b);
}
pub proof fn lemma_noted_below(p: PlanRef, path: Seq<int>, max: usize, b: bool)
    requires all_noted(p, max, b), same_stage(p, path) is Some,
    ensures all_noted(same_stage(p, path)->0, max, b),
    decreases path.len()
{ if path.len() > 0 { lemma_noted_below(kids(p)[path[0]], path.drop_first(), max, b); } }
/// combining wishes does not depend on their order, never exceeds a maximum, and is the largest wish without one
pub proof fn theorem_merge(a: TaskCountAnnotation, b: TaskCountAnnotation, c: TaskCountAnnotation)
    ensures
        spec_merge(a, b) == spec_merge(b, a),
        spec_merge(spec_merge(a, b), c) == spec_merge(a, spec_merge(b, c)),
        a is Maximum ==> tc(spec_merge(a, b)) <= tc(a) && spec_merge(a, b) is Maximum,
        a is Desired && b is Desired ==> tc(spec_merge(a, b)) == if tc(a) >= tc(b) { tc(a) } else { tc(b) },
{}
// ------------------------------------------------------------------ what needs its rows in one place
/// `v.into_iter().any(f)`
#[verifier::external_body] pub fn vx_any<T, F: Fn(T) -> bool>(v: Vec<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((v@[i],)),
    ensures r ==> exists|i: int| 0 <= i < v@.len() && #[trigger] f.ensures((v@[i],), true), !r ==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> f.ensures((v@[i],), false),
{ unimplemented!() }
/// `v.into_iter().all(f)`
#[verifier::external_body] pub fn vx_all<T, F: Fn(T) -> bool>(v: Vec<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((v@[i],)),
    ensures !r ==> exists|i: int| 0 <= i < v@.len() && #[trigger] f.ensures((v@[i],), false), r ==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> f.ensures((v@[i],), true),
{ unimplemented!() }
#[verifier::external_body] pub fn vx_refs<'a>(v: &'a [PlanRef]) -> (r: Vec<&'a PlanRef>) ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < r@.len() ==> *r@[i] == v@[i] { unimplemented!() }
pub struct PerChild { pub v: Vec<Distribution> }
impl PerChild { pub fn into_per_child(self) -> (r: Vec<Distribution>) ensures r@ == self.v@ { self.v } }
pub struct Layout { pub n: usize }
impl Layout { pub fn partition_count(&self) -> (r: usize) ensures r == self.n { self.n } }
impl PlanRef {
    #[verifier::external_body] pub fn fetch(&self) -> (r: Option<usize>) ensures r == fetch_of(*self) { unimplemented!() }
    /// `properties().partitioning`, `output_partitioning()`
    #[verifier::external_body] pub fn output_partitioning(&self) -> (r: &Layout) ensures r.n == part_count(*self) { unimplemented!() }
    /// one requirement per child
    #[verifier::external_body] pub fn input_distribution_requirements(&self) -> (r: PerChild) ensures r.v@ == dists(*self), r.v@.len() == kids(*self).len() { unimplemented!() }
}
//@fn src/distributed_planner/inject_network_boundaries.rs has_lone_partition
//@ spec: ensures r == (part_count(*plan) == 1),
//@ subst: plan.properties().partitioning => plan.output_partitioning()
//@end
//@fn src/distributed_planner/inject_network_boundaries.rs limits_lone_partition
//@ spec: ensures r == limits(*plan),
//@end
//@fn src/distributed_planner/inject_network_boundaries.rs reads_broadcast
//@ spec: ensures r == reads_bc(*plan),
//@ closure 0: -> (o: bool) ensures o == (node_nbc(*$0) is Some)
//@ subst: plan.children().into_iter().all($..) => vx_all(plan.children(), $..)
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn src/distributed_planner/inject_network_boundaries.rs reads_shuffle
//@ spec: ensures r == reads_sh(*plan),
//@ entry: axiom_finite_tree(*plan);
//@ subst: plan.children().into_iter().any(reads_shuffle) => vx_any(plan.children(), |k: &PlanRef| -> (o: bool) ensures o == reads_sh(*k) { reads_shuffle(k) })
//@end
//@fn src/distributed_planner/inject_network_boundaries.rs needs_lone_partition
//@ spec: requires kids(*plan).len() == processed_children@.len(),
//@   ensures r == needs_lone(*plan, processed_children@),
//@ closure 0: -> (o: bool) ensures o == match $0.0.0 { Distribution::UnspecifiedDistribution => false, Distribution::SinglePartition => !reads_bc(*$0.1), _ => part_count(*$0.0.1) == 1 && !reads_sh(*$0.1) }
//@ subst: plan.input_distribution_requirements().into_per_child().into_iter().zip(plan.children()).zip(processed_children).any($..) => vx_any(vx_zip(vx_zip(plan.input_distribution_requirements().into_per_child(), plan.children()), vx_refs(processed_children)), $..)
//@end
} // verus!
