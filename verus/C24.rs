//@include lib/base.rs
//@strip datafusion::common datafusion::physical_plan::aggregates
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@type_is Arc::new => vx_plan
//@arcclone
verus! {
// ------------------------------------------------------------------ dependencies
#[verifier::external_body] pub struct PlanRef { _x: u8 }
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn kids(p: PlanRef) -> Seq<PlanRef>;
pub uninterp spec fn boundary(p: PlanRef) -> bool;
/// same operator, perhaps over other children
pub uninterp spec fn same_op(a: PlanRef, b: PlanRef) -> bool;
pub axiom fn axiom_same_op(a: PlanRef) ensures same_op(a, a);
pub uninterp spec fn height(p: PlanRef) -> nat;
pub axiom fn axiom_height(p: PlanRef) ensures forall|i: int| 0 <= i < kids(p).len() ==> height(#[trigger] kids(p)[i]) < height(p);
#[verifier::external_body] pub struct HashExprs { _x: u8 }
#[verifier::external_body] pub struct RangePartitioning { _x: u8 }
pub enum Partitioning { RoundRobinBatch(usize), Hash(HashExprs, usize), UnknownPartitioning(usize), Range(RangePartitioning) }
pub struct RepartitionExec { pub input: PlanRef, pub partitioning: Partitioning }
impl RepartitionExec {
    pub fn input(&self) -> (r: &PlanRef) ensures *r == self.input { &self.input }
    pub fn partitioning(&self) -> (r: &Partitioning) ensures *r == self.partitioning { &self.partitioning }
    #[verifier::external_body] pub fn children(&self) -> (r: Vec<&PlanRef>) ensures r@.len() == 1, *r@[0] == self.input { unimplemented!() }
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum AggregateMode { Partial, Final, FinalPartitioned, Single, SinglePartitioned, PartialReduce }
impl vstd::std_specs::cmp::PartialEqSpecImpl for AggregateMode { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
pub assume_specification [ <AggregateMode as PartialEq>::eq ](a: &AggregateMode, b: &AggregateMode) -> (r: bool);
/// a list of expressions
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Exprs<T> { x: T }
impl<T> Exprs<T> {
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Exprs<T>) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Exprs<T>) ensures r == *self { unimplemented!() }
}
pub struct AggrFns; pub struct Filters;
#[verifier::external_body] pub struct SchemaRef { _x: u8 }
impl Clone for SchemaRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct PhysicalGroupBy { _x: u8 }
impl PhysicalGroupBy {
    /// columns that a partial aggregation's output starts with: the group-by expressions, then the grouping id if there are grouping sets
    pub uninterp spec fn out_cols(self) -> nat;
    /// the input column each group-by key is (None: some other expression)
    pub uninterp spec fn key_cols(self) -> Seq<Option<int>>;
    /// every row is counted once, under its own keys (no grouping sets)
    pub uninterp spec fn plain(self) -> bool;
    /// groups rows that are already grouped by `p`: by exactly the columns `p` puts out, each row once
    pub open spec fn regroups(self, p: PhysicalGroupBy) -> bool {
        self.plain() && self.key_cols() =~= Seq::new(p.out_cols(), |i: int| Some(i))
    }
    // datafusion-physical-plan, aggregates/mod.rs: the grouping the Final aggregation uses
    #[verifier::external_body] pub fn as_final(&self) -> (r: PhysicalGroupBy) ensures r.regroups(*self) { unimplemented!() }
}
pub struct AggregateExec { pub mode: AggregateMode, pub group_by: PhysicalGroupBy, pub aggr_expr: Exprs<AggrFns>, pub filter_expr: Exprs<Filters>, pub input: PlanRef, pub input_schema: SchemaRef }
impl AggregateExec {
    pub fn mode(&self) -> (r: &AggregateMode) ensures *r == self.mode { &self.mode }
    pub fn group_expr(&self) -> (r: &PhysicalGroupBy) ensures *r == self.group_by { &self.group_by }
    pub fn aggr_expr(&self) -> (r: &Exprs<AggrFns>) ensures *r == self.aggr_expr { &self.aggr_expr }
    pub fn filter_expr(&self) -> (r: &Exprs<Filters>) ensures *r == self.filter_expr { &self.filter_expr }
    pub fn input(&self) -> (r: &PlanRef) ensures *r == self.input { &self.input }
    #[verifier::external_body] pub fn input_schema(&self) -> (r: SchemaRef) ensures r == self.input_schema { unimplemented!() }
    #[verifier::external_body]
    pub fn try_new(mode: AggregateMode, group_by: PhysicalGroupBy, aggr_expr: Exprs<AggrFns>, filter_expr: Exprs<Filters>, input: PlanRef, input_schema: SchemaRef) -> (r: Result<AggregateExec>)
        ensures r is Ok ==> r->Ok_0 == (AggregateExec { mode, group_by, aggr_expr, filter_expr, input, input_schema }) { unimplemented!() }
}
pub trait Node: Sized { spec fn of(p: PlanRef) -> Option<Self>; }
pub uninterp spec fn repartition_of(p: PlanRef) -> Option<RepartitionExec>;
pub uninterp spec fn agg_of(p: PlanRef) -> Option<AggregateExec>;
impl Node for RepartitionExec { open spec fn of(p: PlanRef) -> Option<Self> { repartition_of(p) } }
impl Node for AggregateExec { open spec fn of(p: PlanRef) -> Option<Self> { agg_of(p) } }
#[verifier::external_body] pub fn vx_plan<T: Node>(x: T) -> (r: PlanRef) ensures T::of(r) == Some(x) { unimplemented!() }
pub enum ChildrenPropertiesMode { Recompute, Same }
pub struct ReplaceChildrenOptions {}
impl ReplaceChildrenOptions { pub fn new(m: ChildrenPropertiesMode) -> Self { ReplaceChildrenOptions {} } }
impl PlanRef {
    #[verifier::external_body] pub fn is_network_boundary(&self) -> (r: bool) ensures r == boundary(*self) { unimplemented!() }
    #[verifier::external_body] pub fn children(&self) -> (r: Vec<&PlanRef>) ensures r@.len() == kids(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == kids(*self)[i] { unimplemented!() }
    #[verifier::external_body] pub fn downcast_ref<T: Node>(&self) -> (r: Option<&T>) ensures match T::of(*self) { Some(x) => r is Some && *r->Some_0 == x, None => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn replace_children(self, c: Vec<PlanRef>, o: ReplaceChildrenOptions) -> (r: Result<PlanRef>)
        ensures r is Ok ==> same_op(self, r->Ok_0) && kids(r->Ok_0) == c@ { unimplemented!() }
    /// DataFusion's bottom-up rewrite, for a function that neither jumps nor stops: every node is first given its rewritten children, then handed to the function
    #[verifier::external_body] pub fn transform_up<F: Fn(PlanRef) -> Result<Transformed>>(self, f: F) -> (r: Result<Transformed>)
        requires forall|p: PlanRef| f.requires((p,)),
        ensures r is Ok ==> forall|step: spec_fn(PlanRef, PlanRef) -> bool| (forall|a: PlanRef, t: Transformed| #[trigger] f.ensures((a,), Ok(t)) ==> step(a, t.data)) ==> #[trigger] bottom_up(step, self, r->Ok_0.data) { unimplemented!() }
}
pub struct Transformed { pub data: PlanRef, pub transformed: bool }
impl Transformed {
    pub fn yes(data: PlanRef) -> (r: Self) ensures r.data == data, r.transformed { Transformed { data, transformed: true } }
    pub fn no(data: PlanRef) -> (r: Self) ensures r.data == data, !r.transformed { Transformed { data, transformed: false } }
}
/// `b` is `a` rewritten from the leaves up, each node (over its rewritten children) by `step`
pub open spec fn bottom_up(step: spec_fn(PlanRef, PlanRef) -> bool, a: PlanRef, b: PlanRef) -> bool
    decreases height(a)
{
    exists|m: PlanRef| #[trigger] same_op(a, m) && kids(m).len() == kids(a).len() && step(m, b)
        && forall|i: int| 0 <= i < kids(a).len() ==> height(#[trigger] kids(a)[i]) < height(a) && bottom_up(step, kids(a)[i], kids(m)[i])
}
pub struct DistributedConfig { pub partial_reduce: bool }
#[verifier::external_body] pub struct ConfigOptions { _x: u8 }
pub uninterp spec fn dcfg(c: ConfigOptions) -> Option<DistributedConfig>;
impl DistributedConfig {
    #[verifier::external_body] pub fn from_config_options(cfg: &ConfigOptions) -> (r: Result<&DistributedConfig>)
        ensures match dcfg(*cfg) { Some(d) => r is Ok && *r->Ok_0 == d, None => r is Err } { unimplemented!() }
}

// ------------------------------------------------------------------ what the pass may do
/// a boundary over a hash repartition over a partial aggregation
pub open spec fn site(p: PlanRef) -> bool {
    boundary(p) && kids(p).len() == 1 && repartition_of(kids(p)[0]) is Some && ({
        let r = repartition_of(kids(p)[0])->0;
        r.partitioning is Hash && agg_of(r.input) is Some && agg_of(r.input)->0.mode == AggregateMode::Partial
    })
}
/// the same boundary, reading a reduction of what it read before: same aggregates, same filters, grouped by the partial aggregation's own output columns
pub open spec fn reduced(p: PlanRef, q: PlanRef) -> bool {
    same_op(p, q) && kids(q).len() == 1 && agg_of(kids(q)[0]) is Some && ({
        let a = agg_of(kids(q)[0])->0;
        let partial = agg_of(repartition_of(kids(p)[0])->0.input)->0;
        &&& a.mode == AggregateMode::PartialReduce
        &&& a.input == kids(p)[0]
        &&& a.group_by.regroups(partial.group_by)
        &&& a.aggr_expr == partial.aggr_expr && a.filter_expr == partial.filter_expr && a.input_schema == partial.input_schema
    })
}
pub open spec fn step(p: PlanRef, q: PlanRef) -> bool { q == p || site(p) && reduced(p, q) }
pub open spec fn step_fn() -> spec_fn(PlanRef, PlanRef) -> bool { |p: PlanRef, q: PlanRef| step(p, q) }

//@fn src/common/children_helpers.rs require_one_child
//@ sig: pub fn $name(children: Vec<&PlanRef>) -> (r: Result<PlanRef>)
//@ spec: ensures children@.len() == 1 ==> r is Ok && r->Ok_0 == *children@[0], children@.len() != 1 ==> r is Err,
//@ subst: children.as_ref() => &children
//@ subst: .borrow() =>
//@end

//@fn src/distributed_planner/partial_reduce_below_network_shuffles.rs partial_reduce_below_network_shuffles
//@ args: plan cfg
//@ spec: ensures dcfg(*cfg) is None ==> r is Err,
//@   // switched off: nothing is changed
//@   dcfg(*cfg) is Some && !dcfg(*cfg)->0.partial_reduce ==> r is Ok && r->Ok_0 == plan,
//@   // switched on: nodes are changed at the sites only, and there only as `reduced` says
//@   r is Ok ==> r->Ok_0 == plan || bottom_up(step_fn(), plan, r->Ok_0),
//@ closure 0: |plan: PlanRef| -> (o: Result<Transformed>) ensures o is Ok ==> step(plan, o->Ok_0.data), o is Ok && site(plan) ==> reduced(plan, o->Ok_0.data)
//@end
} // verus!
fn main() {}
