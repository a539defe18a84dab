//@include lib/base.rs
//@strip datafusion::common::tree_node
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@arcclone
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ dependencies
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TreeNodeRecursion { Continue, Jump, Stop }
pub assume_specification[<TreeNodeRecursion as PartialEq>::eq](a: &TreeNodeRecursion, b: &TreeNodeRecursion) -> (r: bool) ensures r == (*a == *b);
pub struct Transformed { pub data: PlanRef, pub transformed: bool, pub tnr: TreeNodeRecursion }
impl Transformed {
    pub fn new(data: PlanRef, transformed: bool, tnr: TreeNodeRecursion) -> (r: Self) ensures r == (Transformed { data, transformed, tnr }) { Transformed { data, transformed, tnr } }
    pub fn no(data: PlanRef) -> (r: Self) ensures r == (Transformed { data, transformed: false, tnr: TreeNodeRecursion::Continue }) { Transformed { data, transformed: false, tnr: TreeNodeRecursion::Continue } }
    pub fn yes(data: PlanRef) -> (r: Self) ensures r == (Transformed { data, transformed: true, tnr: TreeNodeRecursion::Continue }) { Transformed { data, transformed: true, tnr: TreeNodeRecursion::Continue } }
}
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Uuid { _x: u8 }
#[verifier::external_body] pub struct Text { _x: u8 }
pub uninterp spec fn digits(n: u64) -> Text;
#[verifier::external_body] pub fn vx_text(n: u64) -> (r: Text) ensures r == digits(n) { unimplemented!() }
#[verifier::external_body] pub struct Label { _x: u8 }
pub uninterp spec fn label(name: Seq<char>, value: Text) -> Label;
impl Label { #[verifier::external_body] pub fn new(name: &str, value: Text) -> (r: Label) ensures r == label(name@, value) { unimplemented!() } }
#[verifier::external_body] pub struct MetricValue { _x: u8 }
impl Clone for MetricValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vx_same_value(a: &MetricValue, b: &MetricValue) -> (r: bool) ensures r == same_value(*a, *b) { unimplemented!() }
/// the kind, name and amount of two metrics are equal
pub uninterp spec fn same_value(a: MetricValue, b: MetricValue) -> bool;
pub struct MetricV { pub value: MetricValue, pub partition: Option<usize>, pub labels: Seq<Label> }
/// a (shared) metric
#[verifier::external_body] pub struct Metric { _x: u8 }
impl Metric {
    pub uninterp spec fn view(&self) -> MetricV;
    #[verifier::external_body] pub fn labels(&self) -> (r: &Labels) ensures r@ == self@.labels { unimplemented!() }
    #[verifier::external_body] pub fn value(&self) -> (r: &MetricValue) ensures *r == self@.value { unimplemented!() }
    #[verifier::external_body] pub fn partition(&self) -> (r: Option<usize>) ensures r == self@.partition { unimplemented!() }
    #[verifier::external_body] pub fn new_with_labels(value: MetricValue, partition: Option<usize>, labels: Vec<Label>) -> (r: Metric) ensures r@ == (MetricV { value, partition, labels: labels@ }) { unimplemented!() }
}
#[verifier::external_body] pub struct Labels { _x: u8 }
impl Labels { pub uninterp spec fn view(&self) -> Seq<Label>; #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<Label>) ensures r@ == self@ { unimplemented!() } }
pub fn same_partition(a: Option<usize>, b: Option<usize>) -> (r: bool) ensures r == (a == b) { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x == y, _ => false } }
#[verifier::external_body] pub struct MetricsSet { _x: u8 }
impl Clone for MetricsSet { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct SetIter { pub v: Vec<Metric> }
impl SetIter {
    #[verifier::external_body] pub fn any<F: Fn(&Metric) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.v@.len() ==> #[trigger] f.requires((&self.v@[i],)),
        ensures r ==> exists|i: int| #![trigger self.v@[i]] 0 <= i < self.v@.len() && f.ensures((&self.v@[i],), true), !r ==> forall|i: int| #![trigger self.v@[i]] 0 <= i < self.v@.len() ==> f.ensures((&self.v@[i],), false)
    { unimplemented!() }
}
/// sharing a metric
pub fn vx_same(m: Metric) -> (r: Metric) ensures r == m { m }
pub open spec fn views(v: Seq<Metric>) -> Seq<MetricV> { v.map_values(|m: Metric| m@) }
pub broadcast axiom fn a_set_is_its_metrics(a: MetricsSet, b: MetricsSet) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
impl MetricsSet {
    pub uninterp spec fn view(&self) -> Seq<MetricV>;
    #[verifier::external_body] pub fn new() -> (r: MetricsSet) ensures r@ == Seq::<MetricV>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, m: Metric) ensures final(self)@ == old(self)@.push(m@) { unimplemented!() }
    /// the metrics of the set, one after the other
    #[verifier::external_body] pub fn vx_all(&self) -> (r: Vec<Metric>) ensures views(r@) == self@, r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i]@ == self@[i] { unimplemented!() }
    pub fn iter(&self) -> (r: SetIter) ensures r.v@.len() == self@.len(), forall|i: int| #![trigger r.v@[i]] #![trigger self@[i]] 0 <= i < r.v@.len() ==> r.v@[i]@ == self@[i] { SetIter { v: self.vx_all() } }
}
/// the set of these metrics
pub uninterp spec fn set_of(s: Seq<MetricV>) -> MetricsSet;
pub broadcast axiom fn sets(s: Seq<MetricV>) ensures (#[trigger] set_of(s))@ == s;
pub uninterp spec fn none() -> MetricsSet;
pub axiom fn none_is_empty() ensures none()@ == Seq::<MetricV>::empty();
pub trait OrEmpty { spec fn or_none(self) -> MetricsSet; fn vx_or(self) -> (r: MetricsSet) ensures r == self.or_none(); }
impl OrEmpty for Option<MetricsSet> {
    open spec fn or_none(self) -> MetricsSet { match self { Some(m) => m, None => none() } }
    fn vx_or(self) -> MetricsSet { match self { Some(m) => m, None => { let r = MetricsSet::new(); proof { none_is_empty(); a_set_is_its_metrics(r, none()); } r } } }
}
//@struct src/stage.rs DistributedTaskContext
impl Clone for DistributedTaskContext { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for DistributedTaskContext {}
pub type Ctx = DistributedTaskContext;
#[verifier::external_body] pub struct PlanRef { _x: u8 }
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the children of a node, from left to right
pub uninterp spec fn kids(p: PlanRef) -> Seq<PlanRef>;
/// plans are finite trees
pub uninterp spec fn rank(p: PlanRef) -> nat;
pub broadcast axiom fn kids_are_smaller(p: PlanRef, i: int) requires 0 <= i < kids(p).len() ensures #[trigger] rank(kids(p)[i]) < rank(p);
/// what the node itself reports
pub uninterp spec fn reports(p: PlanRef) -> Option<MetricsSet>;
/// where the node is in memory
pub uninterp spec fn id_of(p: PlanRef) -> usize;
/// the node over other children
pub uninterp spec fn with_kids(p: PlanRef, k: Seq<PlanRef>) -> PlanRef;
pub broadcast axiom fn same_kids(p: PlanRef) ensures #[trigger] with_kids(p, kids(p)) == p;
pub struct ChildrenIsolatorUnionExec { pub children: Vec<PlanRef>, pub task_idx_map: Vec<Vec<(usize, Ctx)>> }
pub uninterp spec fn union_of(p: PlanRef) -> Option<ChildrenIsolatorUnionExec>;
/// C06: the children named for a task exist
pub broadcast axiom fn unions_are_sound(p: PlanRef) requires #[trigger] union_of(p) is Some
    ensures union_of(p)->0.children@ == kids(p), forall|t: int, j: int| #![trigger union_of(p)->0.task_idx_map@[t]@[j]] 0 <= t < union_of(p)->0.task_idx_map@.len() && 0 <= j < union_of(p)->0.task_idx_map@[t]@.len() ==> union_of(p)->0.task_idx_map@[t]@[j].0 < kids(p).len();
//@struct src/stage.rs LocalStage
//@struct src/stage.rs RemoteStage
//@enum src/stage.rs Stage
#[verifier::external_body] pub struct Url { _x: u8 }
#[verifier::external_body] pub struct Statistics { _x: u8 }
pub struct Boundary { pub stage: Stage, pub plan: PlanRef }
pub uninterp spec fn boundary_of(p: PlanRef) -> Option<Boundary>;
/// the boundary reading another stage
pub uninterp spec fn reading(b: Boundary, s: Stage) -> PlanRef;
impl Boundary {
    pub fn input_stage(&self) -> (r: &Stage) ensures *r == self.stage { &self.stage }
    #[verifier::external_body] pub fn with_input_stage(&self, s: Stage) -> (r: Result<PlanRef>) ensures r is Ok ==> r->Ok_0 == reading(*self, s) { unimplemented!() }
}
pub trait Node: Sized { spec fn of(p: PlanRef) -> Option<Self>; }
impl Node for ChildrenIsolatorUnionExec { open spec fn of(p: PlanRef) -> Option<Self> { union_of(p) } }
pub struct ReplaceChildrenOptions { _x: u8 }
pub enum ChildrenPropertiesMode { Recompute, Preserve }
impl ReplaceChildrenOptions { pub fn new(m: ChildrenPropertiesMode) -> Self { ReplaceChildrenOptions { _x: 0 } } }
impl PlanRef {
    #[verifier::external_body] pub fn downcast_ref<T: Node>(&self) -> (r: Option<&T>) ensures match r { Some(x) => T::of(*self) == Some(*x), None => T::of(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn children(&self) -> (r: Vec<&PlanRef>) ensures r@.len() == kids(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == kids(*self)[i] { unimplemented!() }
    #[verifier::external_body] pub fn is_network_boundary(&self) -> (r: bool) ensures r == (boundary_of(*self) is Some) { unimplemented!() }
    #[verifier::external_body] pub fn as_network_boundary(&self) -> (r: Option<&Boundary>) ensures match r { Some(x) => boundary_of(*self) == Some(*x), None => boundary_of(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn metrics(&self) -> (r: Option<MetricsSet>) ensures r == reports(*self) { unimplemented!() }
    /// `metrics()`, to be taken one by one
    pub fn metrics_each(&self) -> (r: Option<Vec<Metric>>) ensures r is Some == (reports(*self) is Some), r is Some ==> r->0@.len() == reports(*self)->0@.len() && views(r->0@) == reports(*self)->0@ { match self.metrics() { None => None, Some(m) => Some(m.vx_all()) } }
    #[verifier::external_body] pub fn replace_children(self, k: Vec<PlanRef>, o: ReplaceChildrenOptions) -> (r: Result<PlanRef>) ensures r is Ok ==> r->Ok_0 == with_kids(self, k@) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_address(p: &PlanRef) -> (r: usize) ensures r == id_of(*p) { unimplemented!() }

// ------------------------------------------------------------------ the wrapper
//@struct src/execution_plans/metrics.rs MetricsWrapperExec
/// the plan node that a wrapper is
pub uninterp spec fn plan_of(w: MetricsWrapperExec) -> PlanRef;
pub open spec fn wrap(p: PlanRef, m: MetricsSet) -> PlanRef { plan_of(MetricsWrapperExec { inner: p, metrics: m }) }
/// a wrapper stands for the node inside: same children, same boundary (`downcast_delegate`); over other children, it is the wrapper of the node over these
pub broadcast axiom fn wrappers(w: MetricsWrapperExec) ensures kids(#[trigger] plan_of(w)) == kids(w.inner), boundary_of(plan_of(w)) == boundary_of(w.inner), union_of(plan_of(w)) == union_of(w.inner), forall|k: Seq<PlanRef>| #[trigger] with_kids(plan_of(w), k) == plan_of(MetricsWrapperExec { inner: with_kids(w.inner, k), metrics: w.metrics });
#[verifier::external_body] pub fn vx_node(w: MetricsWrapperExec) -> (r: PlanRef) ensures r == plan_of(w) { unimplemented!() }
//@fn src/execution_plans/metrics.rs MetricsWrapperExec::new as new_wrapper
//@ sig: pub fn $name(inner: PlanRef, metrics: MetricsSet) -> (r: MetricsWrapperExec)
//@ spec: ensures r == (MetricsWrapperExec { inner, metrics }),
//@ subst: Self { => MetricsWrapperExec {
//@end
//@fn src/execution_plans/metrics.rs MetricsWrapperExec::children@ExecutionPlan as wrapper_children
//@ sig: pub fn $name(this: &MetricsWrapperExec) -> (r: Vec<&PlanRef>)
//@ spec: ensures r@.len() == kids(this.inner).len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == kids(this.inner)[i],
//@ subst: self. => this.
//@end
//@fn src/execution_plans/metrics.rs MetricsWrapperExec::with_new_children@ExecutionPlan as wrapper_with_new_children
//@ sig: pub fn $name(this: MetricsWrapperExec, children: Vec<PlanRef>) -> (r: Result<PlanRef>)
//@ spec: ensures r is Ok ==> r->Ok_0 == plan_of(MetricsWrapperExec { inner: with_kids(this.inner, children@), metrics: this.metrics }),
//@ subst: self. => this.
//@ subst: children.clone() => children
//@ subst: Arc::new($..) => vx_node($..)
//@end
/// the metrics that a node counts itself and that the wrapper does not have
pub open spec fn unseen(m: Seq<MetricV>, l: MetricV) -> bool { forall|i: int| 0 <= i < m.len() ==> !(same_value((#[trigger] m[i]).value, l.value) && m[i].partition == l.partition) }
pub open spec fn more(m: Seq<MetricV>, l: Seq<MetricV>, n: nat) -> Seq<MetricV> decreases n { if n == 0 { m } else if unseen(m, l[n - 1]) { more(m, l, (n - 1) as nat).push(l[n - 1]) } else { more(m, l, (n - 1) as nat) } }
//@fn src/execution_plans/metrics.rs MetricsWrapperExec::metrics@ExecutionPlan as wrapper_metrics
//@ sig: pub fn $name(this: &MetricsWrapperExec) -> (r: Option<MetricsSet>)
//@ spec: ensures r is Some, r->0@ == (match reports(this.inner) { None => this.metrics@, Some(l) => more(this.metrics@, l@, l@.len()) }),
//@ subst: self. => this.
//@ subst: this.inner.metrics() => this.inner.metrics_each()
//@ subst: wrapped.value() == local_metric.value() => vx_same_value(wrapped.value(), local_metric.value())
//@ subst: wrapped.partition() == local_metric.partition() => same_partition(wrapped.partition(), local_metric.partition())
//@ closure 0: |wrapped: &Metric| -> (b: bool) ensures b == (same_value(wrapped@.value, local_metric@.value) && wrapped@.partition == local_metric@.partition)
//@ loop 0: invariant reports(this.inner) is Some, views(it0.seq()) == reports(this.inner)->0@, it0.seq().len() == reports(this.inner)->0@.len(), all_metrics@ == more(this.metrics@, reports(this.inner)->0@, it0.index() as nat),
//@   body: assert(views(it0.seq())[it0.index() as int] == it0.seq()[it0.index() as int]@);
//@end

// ------------------------------------------------------------------ one order for both sides
/// the nodes of a plan up to its boundaries: a node before what is below it, from left to right
pub open spec fn pre(p: PlanRef) -> Seq<PlanRef> decreases rank(p), 1nat, 0nat { seq![p] + if boundary_of(p) is Some { seq![] } else { pre_kids(rank(p), kids(p), kids(p).len()) } }
pub open spec fn pre_kids(bound: nat, k: Seq<PlanRef>, n: nat) -> Seq<PlanRef> decreases bound, 0nat, n { if n == 0 || n > k.len() || rank(k[n - 1]) >= bound { seq![] } else { pre_kids(bound, k, (n - 1) as nat) + pre(k[n - 1]) } }
pub open spec fn own(p: PlanRef) -> MetricsSet { reports(p).or_none() }
pub open spec fn owns(s: Seq<PlanRef>) -> Seq<MetricsSet> { s.map_values(|p: PlanRef| own(p)) }
pub proof fn lemma_owns(a: Seq<PlanRef>, b: Seq<PlanRef>) ensures owns(a + b) =~= owns(a) + owns(b) {}

//@fn src/metrics/task_metrics_collector.rs collect_plan_metrics#c0 as note_node
//@ sig: pub fn $name(metrics: &mut Vec<MetricsSet>, node: &PlanRef) -> (r: Result<TreeNodeRecursion>)
//@ spec: ensures final(metrics)@ == old(metrics)@.push(own(*node)), r is Ok, !(r->Ok_0 is Stop), kids(*node).len() > 0 ==> r->Ok_0 == (if boundary_of(*node) is Some { TreeNodeRecursion::Jump } else { TreeNodeRecursion::Continue }),
//@ subst: .unwrap_or_default() => .vx_or()
//@end
/// DataFusion's `apply`, over `note_node`: a node, then its children unless the function says otherwise
pub fn vx_apply(plan: &PlanRef, metrics: &mut Vec<MetricsSet>) -> (r: Result<TreeNodeRecursion>)
    ensures r is Ok, r->Ok_0 is Continue, final(metrics)@ =~= old(metrics)@ + owns(pre(*plan)),
    decreases rank(*plan),
{
    broadcast use kids_are_smaller;
    match note_node(metrics, plan)? {
        TreeNodeRecursion::Stop => Ok(TreeNodeRecursion::Stop),
        TreeNodeRecursion::Jump => Ok(TreeNodeRecursion::Continue),
        TreeNodeRecursion::Continue => {
            let ghost m1 = metrics@; let k = plan.children(); let mut i = 0; let mut t = TreeNodeRecursion::Continue;
            while i < k.len()
                invariant i <= k.len(), k@.len() == kids(*plan).len(), forall|j: int| 0 <= j < k@.len() ==> *#[trigger] k@[j] == kids(*plan)[j], metrics@ == m1 + owns(pre_kids(rank(*plan), kids(*plan), i as nat)), t is Continue,
                decreases k.len() - i,
            {
                broadcast use kids_are_smaller;
                t = vx_apply(k[i], metrics)?;
                proof { lemma_owns(pre_kids(rank(*plan), kids(*plan), i as nat), pre(kids(*plan)[i as int])); }
                i += 1;
                if t == TreeNodeRecursion::Stop { return Ok(t); }
            }
            proof { lemma_owns(seq![*plan], pre_kids(rank(*plan), kids(*plan), kids(*plan).len())); }
            Ok(t)
        }
    }
}
//@fn src/metrics/task_metrics_collector.rs collect_plan_metrics
//@ spec: ensures r is Ok, r->Ok_0@ == owns(pre(*plan)),
//@ subst: plan.apply($..)? => vx_apply(plan, &mut metrics)?
//@ closure 0: -
//@end

// ------------------------------------------------------------------ marking metrics with their task
//@const src/metrics/mod.rs DISTRIBUTED_DATAFUSION_TASK_ID_LABEL
//@enum src/metrics/task_metrics_rewriter.rs DistributedMetricsFormat
//@struct src/metrics/task_metrics_rewriter.rs RewriteCtx
impl Clone for DistributedMetricsFormat { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for DistributedMetricsFormat {}
/// `derive(Default)`
impl RewriteCtx { pub fn default() -> (r: RewriteCtx) ensures r.task_id is None { RewriteCtx { task_id: None } } }
pub open spec fn marked_metric(m: MetricV, task: u64) -> MetricV { MetricV { value: m.value, partition: m.partition, labels: m.labels.push(label(DISTRIBUTED_DATAFUSION_TASK_ID_LABEL@, digits(task))) } }
pub open spec fn marked(s: Seq<MetricV>, task: u64) -> Seq<MetricV> { s.map_values(|m: MetricV| marked_metric(m, task)) }
pub open spec fn by_ctx(c: RewriteCtx, s: MetricsSet) -> MetricsSet { match c.task_id { Some(t) => set_of(marked(s@, t)), None => s } }
pub open spec fn ctx_of(f: DistributedMetricsFormat, task: u64) -> RewriteCtx { match f { DistributedMetricsFormat::Aggregated => RewriteCtx { task_id: None }, DistributedMetricsFormat::PerTask => RewriteCtx { task_id: Some(task) } } }
//@fn src/metrics/task_metrics_rewriter.rs RewriteCtx::from_task_id as ctx_from_task_id
//@ spec: ensures r == (RewriteCtx { task_id: Some(task_id) }),
//@end
//@fn src/metrics/task_metrics_rewriter.rs DistributedMetricsFormat::to_rewrite_ctx as to_rewrite_ctx
//@ sig: pub fn $name(this: DistributedMetricsFormat, task_id: u64) -> (r: RewriteCtx)
//@ spec: ensures r == ctx_of(this, task_id),
//@ subst: self => this
//@ subst: RewriteCtx::from_task_id => ctx_from_task_id
//@end
//@fn src/metrics/task_metrics_rewriter.rs annotate_metrics_set_with_task_id
//@ spec: ensures r@ =~= marked(metrics_set@, task_id),
//@ subst: metrics_set.iter() => metrics_set.vx_all()
//@ subst: Arc::new($..) => vx_same($..)
//@ subst: task_id.to_string() => vx_text(task_id)
//@ loop 0: invariant views(it0.seq()) == metrics_set@, it0.seq().len() == metrics_set@.len(), result@ =~= marked(metrics_set@.take(it0.index() as int), task_id),
//@   body: assert(views(it0.seq())[it0.index() as int] == it0.seq()[it0.index() as int]@); assert(metrics_set@.take(it0.index() as int + 1) =~= metrics_set@.take(it0.index() as int).push(metrics_set@[it0.index() as int]));
//@end
//@fn src/metrics/task_metrics_rewriter.rs RewriteCtx::maybe_rewrite_node_metics as mark_by_ctx
//@ sig: pub fn $name(this: &RewriteCtx, node_metrics: MetricsSet) -> (r: MetricsSet)
//@ spec: ensures r == by_ctx(*this, node_metrics),
//@ subst: self. => this.
//@ entry: broadcast use {sets, a_set_is_its_metrics};
//@end

// ------------------------------------------------------------------ attaching a list
/// the plan, its i-th node wearing the i-th set
pub open spec fn dressed(p: PlanRef, s: Seq<MetricsSet>, at: nat) -> PlanRef decreases rank(p), 1nat, 0nat { wrap(if boundary_of(p) is Some { p } else { with_kids(p, dressed_kids(rank(p), kids(p), kids(p).len(), s, at + 1)) }, s[at as int]) }
pub open spec fn dressed_kids(bound: nat, k: Seq<PlanRef>, n: nat, s: Seq<MetricsSet>, at: nat) -> Seq<PlanRef> decreases bound, 0nat, n { if n == 0 || n > k.len() || rank(k[n - 1]) >= bound { seq![] } else { dressed_kids(bound, k, (n - 1) as nat, s, at).push(dressed(k[n - 1], s, at + pre_kids(bound, k, (n - 1) as nat).len())) } }
pub open spec fn all_by_ctx(c: RewriteCtx, s: Seq<MetricsSet>) -> Seq<MetricsSet> { s.map_values(|m: MetricsSet| by_ctx(c, m)) }
//@fn src/metrics/task_metrics_rewriter.rs rewrite_local_plan_with_metrics#c0 as dress_node
//@ sig: pub fn $name(idx: &mut usize, ctx: &RewriteCtx, metrics: &Vec<MetricsSet>, node: PlanRef) -> (r: Result<Transformed>)
//@ spec: ensures r is Ok <==> *old(idx) < metrics@.len(), r is Ok ==> *final(idx) == *old(idx) + 1 && r->Ok_0 == (Transformed { data: wrap(node, by_ctx(*ctx, metrics@[*old(idx) as int])), transformed: true, tnr: if boundary_of(node) is Some { TreeNodeRecursion::Jump } else { TreeNodeRecursion::Continue } }),
//@ subst: idx >= => *idx >=
//@ subst: metrics[idx] => metrics[*idx]
//@ subst: idx += 1 => *idx += 1
//@ subst: ctx.maybe_rewrite_node_metics( => mark_by_ctx(ctx, 
//@ subst: MetricsWrapperExec::new => new_wrapper
//@ subst: Arc::new($..) => vx_node($..)
//@end
/// DataFusion's `transform_down`, over `dress_node`: the node first, then the children of what it became
pub fn vx_down_dress(idx: &mut usize, ctx: &RewriteCtx, metrics: &Vec<MetricsSet>, plan: PlanRef) -> (r: Result<Transformed>)
    ensures r is Ok ==> *final(idx) == *old(idx) + pre(plan).len() && *final(idx) <= metrics@.len() && r->Ok_0.data == dressed(plan, all_by_ctx(*ctx, metrics@), *old(idx) as nat) && r->Ok_0.tnr is Continue && r->Ok_0.transformed,
    decreases rank(plan),
{
    broadcast use {kids_are_smaller, wrappers, same_kids};
    let ghost at = *idx as nat; let ghost sets = all_by_ctx(*ctx, metrics@);
    let t = dress_node(idx, ctx, metrics, plan.clone())?;
    match t.tnr {
        TreeNodeRecursion::Stop => Ok(t),
        TreeNodeRecursion::Jump => Ok(Transformed { data: t.data, transformed: t.transformed, tnr: TreeNodeRecursion::Continue }),
        TreeNodeRecursion::Continue => {
            let mut out: Vec<PlanRef> = Vec::new(); let mut changed = t.transformed; let mut below = false; let mut i = 0;
            let n = t.data.children().len();
            while i < n
                invariant i <= n, n == kids(plan).len(), kids(t.data) == kids(plan), out@ == dressed_kids(rank(plan), kids(plan), i as nat, sets, at + 1), sets == all_by_ctx(*ctx, metrics@), *idx == at + 1 + pre_kids(rank(plan), kids(plan), i as nat).len(), *idx <= metrics@.len(), i > 0 ==> below,
                decreases n - i,
            {
                broadcast use kids_are_smaller;
                let k = t.data.children()[i].clone();
                let w = vx_down_dress(idx, ctx, metrics, k)?;
                out.push(w.data); below = below || w.transformed;
                i += 1;
                if w.tnr == TreeNodeRecursion::Stop { return vx_err(); }
            }
            if below { let d = t.data.replace_children(out, ReplaceChildrenOptions::new(ChildrenPropertiesMode::Recompute))?; Ok(Transformed { data: d, transformed: true, tnr: TreeNodeRecursion::Continue }) }
            else { proof { assert(kids(plan) =~= out@); } Ok(Transformed { data: t.data, transformed: changed, tnr: TreeNodeRecursion::Continue }) }
        }
    }
}
//@fn src/metrics/task_metrics_rewriter.rs rewrite_local_plan_with_metrics
//@ spec: ensures r is Ok ==> pre(plan).len() <= metrics@.len() && r->Ok_0 == dressed(plan, all_by_ctx(ctx, metrics@), 0),
//@ subst: plan.transform_down($..)? => vx_down_dress(&mut idx, &ctx, &metrics, plan)?
//@ closure 0: -
//@end
/// two plans of the same shape, up to boundaries
pub open spec fn alike(p: PlanRef, q: PlanRef) -> bool decreases rank(p) via alike_ends { (boundary_of(p) is Some) == (boundary_of(q) is Some) && (boundary_of(p) is None ==> kids(p).len() == kids(q).len() && forall|i: int| 0 <= i < kids(p).len() ==> alike(#[trigger] kids(p)[i], kids(q)[i])) }
#[via_fn] proof fn alike_ends(p: PlanRef, q: PlanRef) { broadcast use kids_are_smaller; }
/// `q`, each node wearing what the node of `p` at the same place reports
pub open spec fn worn(q: PlanRef, p: PlanRef, c: RewriteCtx) -> PlanRef decreases rank(q), 1nat, 0nat { wrap(if boundary_of(q) is Some { q } else { with_kids(q, worn_kids(rank(q), kids(q), kids(p), kids(q).len(), c)) }, by_ctx(c, own(p))) }
pub open spec fn worn_kids(bound: nat, k: Seq<PlanRef>, l: Seq<PlanRef>, n: nat, c: RewriteCtx) -> Seq<PlanRef> decreases bound, 0nat, n { if n == 0 || n > k.len() || rank(k[n - 1]) >= bound { seq![] } else { worn_kids(bound, k, l, (n - 1) as nat, c).push(worn(k[n - 1], l[n - 1], c)) } }
pub proof fn lemma_alike_len(p: PlanRef, q: PlanRef) requires alike(p, q) ensures pre(p).len() == pre(q).len() decreases rank(p), 1nat, 0nat
{ if boundary_of(p) is None { lemma_alike_len_kids(p, q, kids(p).len()); } }
pub proof fn lemma_alike_len_kids(p: PlanRef, q: PlanRef, n: nat) requires alike(p, q), boundary_of(p) is None, n <= kids(p).len() ensures pre_kids(rank(p), kids(p), n).len() == pre_kids(rank(q), kids(q), n).len() decreases rank(p), 0nat, n
{ broadcast use kids_are_smaller; if n > 0 { let a = kids(p)[n - 1]; assert(alike(a, kids(q)[n - 1])); assert(rank(kids(q)[n - 1]) < rank(q)); assert(rank(a) < rank(p)); lemma_alike_len(a, kids(q)[n - 1]); lemma_alike_len_kids(p, q, (n - 1) as nat); } }
/// a list that was read off one plan, attached to a plan of the same shape: every node wears what the node at its place reported
pub proof fn theorem_same_place(q: PlanRef, p: PlanRef, c: RewriteCtx, s: Seq<MetricsSet>, at: nat)
    requires alike(p, q), at + pre(p).len() <= s.len(), forall|i: int| 0 <= i < pre(p).len() ==> s[at + i] == #[trigger] owns(pre(p))[i],
    ensures dressed(q, all_by_ctx(c, s), at) == worn(q, p, c),
    decreases rank(p), 1nat, 0nat,
{
    assert(owns(pre(p))[0] == own(p)); assert(s[at + 0int] == owns(pre(p))[0int]);
    if boundary_of(p) is None {
        let t = pre_kids(rank(p), kids(p), kids(p).len());
        assert forall|i: int| 0 <= i < t.len() implies s[at + 1 + i] == #[trigger] owns(t)[i] by { assert(owns(pre(p))[i + 1] == owns(t)[i]); assert(s[at + (i + 1)] == owns(pre(p))[i + 1]); }
        lemma_same_place_kids(q, p, c, s, at, kids(p).len());
    }
}
pub proof fn lemma_same_place_kids(q: PlanRef, p: PlanRef, c: RewriteCtx, s: Seq<MetricsSet>, at: nat, n: nat)
    requires alike(p, q), boundary_of(p) is None, n <= kids(p).len(), at + 1 + pre_kids(rank(p), kids(p), n).len() <= s.len(), forall|i: int| 0 <= i < pre_kids(rank(p), kids(p), n).len() ==> s[at + 1 + i] == #[trigger] owns(pre_kids(rank(p), kids(p), n))[i],
    ensures dressed_kids(rank(q), kids(q), n, all_by_ctx(c, s), at + 1) == worn_kids(rank(q), kids(q), kids(p), n, c),
    decreases rank(p), 0nat, n,
{
    broadcast use kids_are_smaller;
    if n > 0 {
        let m = (n - 1) as nat; let a = kids(p)[n - 1]; let b = kids(q)[n - 1]; assert(alike(a, b)); assert(rank(a) < rank(p) && rank(b) < rank(q));
        let l = pre_kids(rank(p), kids(p), m); let t = pre_kids(rank(p), kids(p), n); assert(t == l + pre(a));
        assert forall|i: int| 0 <= i < l.len() implies s[at + 1 + i] == #[trigger] owns(l)[i] by { assert(owns(t)[i] == owns(l)[i]); }
        assert forall|i: int| 0 <= i < pre(a).len() implies s[at + 1 + l.len() + i] == #[trigger] owns(pre(a))[i] by { assert(owns(t)[l.len() + i] == owns(pre(a))[i]); assert(s[at + 1 + (l.len() + i)] == owns(t)[l.len() + i]); }
        lemma_same_place_kids(q, p, c, s, at, m);
        theorem_same_place(b, a, c, s, at + 1 + l.len());
        lemma_alike_len_kids(p, q, m);
    }
}

// ------------------------------------------------------------------ what a task reports
/// the children that a task executes, and the task that each of them runs as (as in C20)
pub open spec fn runs(p: PlanRef, c: Ctx) -> Seq<(PlanRef, Ctx)> {
    match union_of(p) {
        Some(u) => if c.task_index >= u.task_idx_map@.len() { seq![] } else { Seq::new(u.task_idx_map@[c.task_index as int]@.len(), |j: int| (kids(p)[u.task_idx_map@[c.task_index as int]@[j].0 as int], u.task_idx_map@[c.task_index as int]@[j].1)) },
        None => if boundary_of(p) is Some { seq![] } else { Seq::new(kids(p).len(), |j: int| (kids(p)[j], c)) },
    }
}
pub proof fn lemma_runs(p: PlanRef, c: Ctx) ensures forall|j: int| 0 <= j < runs(p, c).len() ==> rank((#[trigger] runs(p, c)[j]).0) < rank(p)
{ broadcast use unions_are_sound; assert forall|j: int| 0 <= j < runs(p, c).len() implies rank((#[trigger] runs(p, c)[j]).0) < rank(p) by {
    match union_of(p) { Some(u) => { let x = u.task_idx_map@[c.task_index as int]@[j]; kids_are_smaller(p, x.0 as int); }, None => { kids_are_smaller(p, j); } } } }
/// the task exists, here and in every isolated union that it reaches
pub open spec fn in_plan(p: PlanRef, c: Ctx) -> bool decreases rank(p) via in_plan_ends {
    (union_of(p) is Some ==> c.task_index < union_of(p)->0.task_idx_map@.len()) && forall|j: int| 0 <= j < runs(p, c).len() ==> in_plan((#[trigger] runs(p, c)[j]).0, runs(p, c)[j].1)
}
#[via_fn] proof fn in_plan_ends(p: PlanRef, c: Ctx) { lemma_runs(p, c); }
/// the nodes that the task runs: a node before what is below it, in order
pub open spec fn run_by(p: PlanRef, c: Ctx) -> Seq<PlanRef> decreases rank(p), 1nat, 0nat { seq![p] + run_below(rank(p), runs(p, c), runs(p, c).len()) }
pub open spec fn run_below(bound: nat, k: Seq<(PlanRef, Ctx)>, n: nat) -> Seq<PlanRef> decreases bound, 0nat, n { if n == 0 || n > k.len() || rank(k[n - 1].0) >= bound { seq![] } else { run_below(bound, k, (n - 1) as nat) + run_by(k[n - 1].0, k[n - 1].1) } }

//@fn src/worker/impl_coordinator_channel.rs send_metrics_via_channel#c0 as note_run
//@ sig: pub fn $name(pre_order_plan_metrics: &mut Vec<MetricsSet>, node: &PlanRef, _vx: Ctx) -> (r: Result<TreeNodeRecursion>)
//@ spec: ensures final(pre_order_plan_metrics)@ == old(pre_order_plan_metrics)@.push(own(*node)), r is Ok, r->Ok_0 is Continue,
//@ subst: .unwrap_or_default() => .vx_or()
//@end
//@fn src/common/recursion.rs Arc::apply_with_dt_ctx@TreeNodeExt/recurse as recurse_note
//@ sig: fn $name(plan: &PlanRef, ctx: Ctx, f: &mut Vec<MetricsSet>) -> (r: Result<TreeNodeRecursion>)
//@ spec: requires in_plan(*plan, ctx),
//@   ensures r is Ok, r->Ok_0 is Continue, final(f)@ =~= old(f)@ + owns(run_by(*plan, ctx)),
//@   decreases rank(*plan),
//@ subst: f(plan, ctx)? => { let __vx_r = note_run(f, plan, ctx)?; proof { m1 = f@; lemma_runs(*plan, ctx); lemma_owns(seq![*plan], run_below(rank(*plan), runs(*plan, ctx), runs(*plan, ctx).len())); } __vx_r }
//@ subst: recurse( => recurse_note(
//@ ghost: broadcast use {unions_are_sound, kids_are_smaller}; let ghost m0 = f@; let ghost mut m1 = f@;
//@ loop 0: invariant_except_break __vx_t is Continue, f@ == m1 + owns(run_below(rank(*plan), runs(*plan, ctx), it0.index() as nat)),
//@   invariant m1 == m0.push(own(*plan)), in_plan(*plan, ctx), union_of(*plan) == Some(*ciu), ctx.task_index < ciu.task_idx_map@.len(), it0.seq().len() == runs(*plan, ctx).len(), forall|j: int| 0 <= j < it0.seq().len() ==> *#[trigger] it0.seq()[j] == ciu.task_idx_map@[ctx.task_index as int]@[j],
//@     forall|j: int| 0 <= j < runs(*plan, ctx).len() ==> rank((#[trigger] runs(*plan, ctx)[j]).0) < rank(*plan) && in_plan(runs(*plan, ctx)[j].0, runs(*plan, ctx)[j].1),
//@   ensures __vx_t is Continue, f@ == m1 + owns(run_below(rank(*plan), runs(*plan, ctx), runs(*plan, ctx).len())),
//@   body: unions_are_sound(*plan); let ghost e = union_of(*plan)->0.task_idx_map@[ctx.task_index as int]@[it0.index() as int]; assert(*it0.seq()[it0.index() as int] == e); assert(e.0 < kids(*plan).len()); let ghost x = runs(*plan, ctx)[it0.index() as int]; assert(x == (kids(*plan)[e.0 as int], e.1)); lemma_owns(run_below(rank(*plan), runs(*plan, ctx), it0.index() as nat), run_by(x.0, x.1));
//@ loop 1: invariant_except_break __vx_t is Continue, f@ == m1 + owns(run_below(rank(*plan), runs(*plan, ctx), it1.index() as nat)),
//@   invariant m1 == m0.push(own(*plan)), in_plan(*plan, ctx), union_of(*plan) is None, boundary_of(*plan) is None, it1.seq().len() == runs(*plan, ctx).len(), forall|j: int| 0 <= j < it1.seq().len() ==> *#[trigger] it1.seq()[j] == kids(*plan)[j],
//@     forall|j: int| 0 <= j < runs(*plan, ctx).len() ==> rank((#[trigger] runs(*plan, ctx)[j]).0) < rank(*plan) && in_plan(runs(*plan, ctx)[j].0, runs(*plan, ctx)[j].1),
//@   ensures __vx_t is Continue, f@ == m1 + owns(run_below(rank(*plan), runs(*plan, ctx), runs(*plan, ctx).len())),
//@   body: let ghost x = runs(*plan, ctx)[it1.index() as int]; lemma_owns(run_below(rank(*plan), runs(*plan, ctx), it1.index() as nat), run_by(x.0, x.1));
//@end
//@struct src/protocol/worker_channel.rs TaskMetrics
#[verifier::external_body] pub struct TaskDataMetrics { _x: u8 }
impl TaskDataMetrics { pub uninterp spec fn set(&self) -> MetricsSet; #[verifier::external_body] pub fn to_metrics_set(&self) -> (r: MetricsSet) ensures r == self.set() { unimplemented!() } }
/// what was sent to the coordinator
#[verifier::external_body] pub struct Outbox { _x: u8 }
impl Outbox { pub uninterp spec fn view(&self) -> Seq<TaskMetrics>; }
#[verifier::external_body] pub struct Sender { _x: u8 }
impl Sender { #[verifier::external_body] pub fn send(self, net: &mut Outbox, m: TaskMetrics) -> (r: core::result::Result<(), TaskMetrics>) ensures final(net)@ == old(net)@.push(m) { unimplemented!() } }
//@fn src/worker/impl_coordinator_channel.rs send_metrics_via_channel
//@ sig: pub fn $name(metrics_tx: Sender, plan: &PlanRef, dt_ctx: Ctx, task_data_metrics: &Arc<TaskDataMetrics>, net: &mut Outbox)
//@ spec: requires in_plan(*plan, dt_ctx),
//@   ensures final(net)@.len() == old(net)@.len() + 1, final(net)@.drop_last() =~= old(net)@, final(net)@.last().pre_order_plan_metrics@ == owns(run_by(*plan, dt_ctx)), final(net)@.last().task_metrics == task_data_metrics.set(),
//@ subst: vec![] => Vec::<MetricsSet>::new()
//@ subst: plan.apply_with_dt_ctx($..) => recurse_note(plan, dt_ctx, &mut pre_order_plan_metrics)
//@ closure 0: -
//@ subst: metrics_tx.send($..) => metrics_tx.send(net, $..)
//@end

// ------------------------------------------------------------------ gathering what the tasks of a stage report
pub type Found = Map<usize, Seq<MetricV>>;
pub open spec fn found(m: Found, id: usize) -> Seq<MetricV> { if m.dom().contains(id) { m[id] } else { seq![] } }
/// `HashMap<usize, MetricsSet>`
#[verifier::external_body] pub struct NodeMap { _x: u8 }
impl NodeMap {
    pub uninterp spec fn view(&self) -> Found;
    #[verifier::external_body] pub fn vx_new() -> (r: NodeMap) ensures r@ == Map::<usize, Seq<MetricV>>::empty() { unimplemented!() }
    /// `entry(id).or_default()`
    #[verifier::external_body] pub fn entry_or_default(&mut self, id: usize) -> (r: &mut MetricsSet) ensures r@ == found(old(self)@, id), final(self)@ == old(self)@.insert(id, final(r)@) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, id: &usize) -> (r: Option<MetricsSet>) ensures final(self)@ == old(self)@.remove(*id), match r { Some(s) => old(self)@.dom().contains(*id) && s@ == old(self)@[*id], None => !old(self)@.dom().contains(*id) } { unimplemented!() }
}
//@fn src/metrics/task_metrics_rewriter.rs stage_metrics_rewriter#c0 as gather_node
//@ sig: pub fn $name(node_metrics_map: &mut NodeMap, per_task_counter: &mut usize, task_metrics: &TaskMetrics, format: DistributedMetricsFormat, task_id: usize, node: &PlanRef, _ctx: Ctx) -> (r: Result<TreeNodeRecursion>)
//@ spec: ensures r is Ok <==> *old(per_task_counter) < task_metrics.pre_order_plan_metrics@.len(),
//@   r is Ok ==> r->Ok_0 is Continue && *final(per_task_counter) == *old(per_task_counter) + 1 && final(node_metrics_map)@ =~= old(node_metrics_map)@.insert(id_of(*node), found(old(node_metrics_map)@, id_of(*node)) + by_ctx(ctx_of(format, task_id as u64), task_metrics.pre_order_plan_metrics@[*old(per_task_counter) as int])@),
//@ subst: per_task_counter >= => *per_task_counter >=
//@ subst: [per_task_counter] => [*per_task_counter]
//@ subst: per_task_counter += 1 => *per_task_counter += 1
//@ subst: format.to_rewrite_ctx($..) => to_rewrite_ctx(format, $..)
//@ subst: rewrite_ctx.maybe_rewrite_node_metics($..) => mark_by_ctx(&rewrite_ctx, $..)
//@ subst: Arc::as_ptr(node) as *const () as usize => vx_address(node)
//@ subst: node_metrics_map.entry(id).or_default() => node_metrics_map.entry_or_default(id)
//@ subst: node_metrics.iter().map(Arc::clone) => node_metrics.vx_all()
//@ loop 0: invariant views(it0.seq()) == node_metrics@, it0.seq().len() == node_metrics@.len(), entry@ =~= e0 + node_metrics@.take(it0.index() as int),
//@   before: let ghost e0 = entry@; proof { assert(node_metrics@.take(node_metrics@.len() as int) =~= node_metrics@); }
//@   body: assert(views(it0.seq())[it0.index() as int] == it0.seq()[it0.index() as int]@); assert(node_metrics@.take(it0.index() as int + 1) =~= node_metrics@.take(it0.index() as int).push(node_metrics@[it0.index() as int]));
//@end
/// what has been found for every node after these nodes, in this order, were given the sets of the list from `at` on
pub open spec fn gathered(m: Found, nodes: Seq<PlanRef>, s: Seq<MetricsSet>, at: nat, c: RewriteCtx) -> Found decreases nodes.len() {
    if nodes.len() == 0 { m } else { let g = gathered(m, nodes.drop_last(), s, at, c); g.insert(id_of(nodes.last()), found(g, id_of(nodes.last())) + by_ctx(c, s[at + nodes.len() - 1])@) }
}
pub proof fn lemma_gathered(m: Found, a: Seq<PlanRef>, b: Seq<PlanRef>, s: Seq<MetricsSet>, at: nat, c: RewriteCtx) ensures gathered(gathered(m, a, s, at, c), b, s, at + a.len(), c) == gathered(m, a + b, s, at, c) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { lemma_gathered(m, a, b.drop_last(), s, at, c); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); } }
pub proof fn lemma_gathered_one(m: Found, p: PlanRef, s: Seq<MetricsSet>, at: nat, c: RewriteCtx) ensures gathered(m, seq![p], s, at, c) == m.insert(id_of(p), found(m, id_of(p)) + by_ctx(c, s[at as int])@)
{ assert(seq![p].drop_last() =~= seq![]); reveal_with_fuel(gathered, 2); }
//@fn src/common/recursion.rs Arc::apply_with_dt_ctx@TreeNodeExt/recurse as recurse_gather
//@ sig: fn $name(node_metrics_map: &mut NodeMap, per_task_counter: &mut usize, task_metrics: &TaskMetrics, format: DistributedMetricsFormat, task_id: usize, plan: &PlanRef, ctx: Ctx, f: ()) -> (r: Result<TreeNodeRecursion>)
//@ spec: requires in_plan(*plan, ctx),
//@   ensures r is Ok ==> r->Ok_0 is Continue && *final(per_task_counter) == *old(per_task_counter) + run_by(*plan, ctx).len() && *final(per_task_counter) <= task_metrics.pre_order_plan_metrics@.len() && final(node_metrics_map)@ == gathered(old(node_metrics_map)@, run_by(*plan, ctx), task_metrics.pre_order_plan_metrics@, *old(per_task_counter) as nat, ctx_of(format, task_id as u64)),
//@     r is Err ==> *old(per_task_counter) + run_by(*plan, ctx).len() > task_metrics.pre_order_plan_metrics@.len(),
//@   decreases rank(*plan),
//@ subst: f(plan, ctx)? => { let __vx_r = gather_node(node_metrics_map, per_task_counter, task_metrics, format, task_id, plan, ctx)?; proof { lemma_gathered_one(g0, *plan, ss, at, cc); lemma_runs(*plan, ctx); lemma_gathered(g0, seq![*plan], run_below(rank(*plan), runs(*plan, ctx), runs(*plan, ctx).len()), ss, at, cc); } __vx_r }
//@ subst: recurse( => recurse_gather(node_metrics_map, per_task_counter, task_metrics, format, task_id, 
//@ ghost: broadcast use {unions_are_sound, kids_are_smaller}; let ghost g0 = node_metrics_map@; let ghost at = *per_task_counter as nat; let ghost ss = task_metrics.pre_order_plan_metrics@; let ghost cc = ctx_of(format, task_id as u64);
//@ loop 0: invariant_except_break __vx_t is Continue, *per_task_counter == at + 1 + run_below(rank(*plan), runs(*plan, ctx), it0.index() as nat).len(), *per_task_counter <= ss.len(), node_metrics_map@ == gathered(gathered(g0, seq![*plan], ss, at, cc), run_below(rank(*plan), runs(*plan, ctx), it0.index() as nat), ss, at + 1, cc),
//@   invariant in_plan(*plan, ctx), union_of(*plan) == Some(*ciu), ctx.task_index < ciu.task_idx_map@.len(), it0.seq().len() == runs(*plan, ctx).len(), forall|j: int| 0 <= j < it0.seq().len() ==> *#[trigger] it0.seq()[j] == ciu.task_idx_map@[ctx.task_index as int]@[j],
//@     ss == task_metrics.pre_order_plan_metrics@, cc == ctx_of(format, task_id as u64), at == *old(per_task_counter), forall|j: int| 0 <= j < runs(*plan, ctx).len() ==> rank((#[trigger] runs(*plan, ctx)[j]).0) < rank(*plan) && in_plan(runs(*plan, ctx)[j].0, runs(*plan, ctx)[j].1),
//@   ensures __vx_t is Continue, *per_task_counter == at + 1 + run_below(rank(*plan), runs(*plan, ctx), runs(*plan, ctx).len()).len(), *per_task_counter <= ss.len(), node_metrics_map@ == gathered(gathered(g0, seq![*plan], ss, at, cc), run_below(rank(*plan), runs(*plan, ctx), runs(*plan, ctx).len()), ss, at + 1, cc),
//@   body: unions_are_sound(*plan); let ghost e = union_of(*plan)->0.task_idx_map@[ctx.task_index as int]@[it0.index() as int]; assert(*it0.seq()[it0.index() as int] == e); assert(e.0 < kids(*plan).len()); let ghost x = runs(*plan, ctx)[it0.index() as int]; assert(x == (kids(*plan)[e.0 as int], e.1)); lemma_gathered(gathered(g0, seq![*plan], ss, at, cc), run_below(rank(*plan), runs(*plan, ctx), it0.index() as nat), run_by(x.0, x.1), ss, at + 1, cc); lemma_below_grows(*plan, ctx, it0.index() as nat + 1);
//@ loop 1: invariant_except_break __vx_t is Continue, *per_task_counter == at + 1 + run_below(rank(*plan), runs(*plan, ctx), it1.index() as nat).len(), *per_task_counter <= ss.len(), node_metrics_map@ == gathered(gathered(g0, seq![*plan], ss, at, cc), run_below(rank(*plan), runs(*plan, ctx), it1.index() as nat), ss, at + 1, cc),
//@   invariant in_plan(*plan, ctx), union_of(*plan) is None, boundary_of(*plan) is None, it1.seq().len() == runs(*plan, ctx).len(), forall|j: int| 0 <= j < it1.seq().len() ==> *#[trigger] it1.seq()[j] == kids(*plan)[j],
//@     ss == task_metrics.pre_order_plan_metrics@, cc == ctx_of(format, task_id as u64), at == *old(per_task_counter), forall|j: int| 0 <= j < runs(*plan, ctx).len() ==> rank((#[trigger] runs(*plan, ctx)[j]).0) < rank(*plan) && in_plan(runs(*plan, ctx)[j].0, runs(*plan, ctx)[j].1),
//@   ensures __vx_t is Continue, *per_task_counter == at + 1 + run_below(rank(*plan), runs(*plan, ctx), runs(*plan, ctx).len()).len(), *per_task_counter <= ss.len(), node_metrics_map@ == gathered(gathered(g0, seq![*plan], ss, at, cc), run_below(rank(*plan), runs(*plan, ctx), runs(*plan, ctx).len()), ss, at + 1, cc),
//@   body: let ghost x = runs(*plan, ctx)[it1.index() as int]; lemma_gathered(gathered(g0, seq![*plan], ss, at, cc), run_below(rank(*plan), runs(*plan, ctx), it1.index() as nat), run_by(x.0, x.1), ss, at + 1, cc); lemma_below_grows(*plan, ctx, it1.index() as nat + 1);
//@end
pub proof fn lemma_below_grows(p: PlanRef, c: Ctx, n: nat) requires n <= runs(p, c).len() ensures run_below(rank(p), runs(p, c), n).len() <= run_below(rank(p), runs(p, c), runs(p, c).len()).len(), decreases runs(p, c).len() - n
{ lemma_runs(p, c); if n < runs(p, c).len() { lemma_below_grows(p, c, n + 1); assert(rank(runs(p, c)[n as int].0) < rank(p)); } }

// ------------------------------------------------------------------ the stage, each node wearing what was found for it
pub open spec fn ids(s: Seq<PlanRef>) -> Seq<usize> { s.map_values(|p: PlanRef| id_of(p)) }
pub open spec fn settled(p: PlanRef, m: Found) -> PlanRef decreases rank(p), 1nat, 0nat { wrap(if boundary_of(p) is Some { p } else { with_kids(p, settled_kids(rank(p), kids(p), kids(p).len(), m)) }, set_of(found(m, id_of(p)))) }
pub open spec fn settled_kids(bound: nat, k: Seq<PlanRef>, n: nat, m: Found) -> Seq<PlanRef> decreases bound, 0nat, n { if n == 0 || n > k.len() || rank(k[n - 1]) >= bound { seq![] } else { settled_kids(bound, k, (n - 1) as nat, m).push(settled(k[n - 1], m)) } }
pub open spec fn agree(m: Found, n: Found, s: Seq<PlanRef>) -> bool { forall|i: int| 0 <= i < s.len() ==> found(m, id_of(#[trigger] s[i])) == found(n, id_of(s[i])) }
pub proof fn lemma_settled(p: PlanRef, m: Found, n: Found) requires agree(m, n, pre(p)) ensures settled(p, m) == settled(p, n) decreases rank(p), 1nat, 0nat
{ assert(pre(p)[0] == p); if boundary_of(p) is None { assert forall|i: int| 0 <= i < pre_kids(rank(p), kids(p), kids(p).len()).len() implies found(m, id_of(#[trigger] pre_kids(rank(p), kids(p), kids(p).len())[i])) == found(n, id_of(pre_kids(rank(p), kids(p), kids(p).len())[i])) by { assert(pre(p)[i + 1] == pre_kids(rank(p), kids(p), kids(p).len())[i]); } lemma_settled_kids(p, kids(p).len(), m, n); } }
pub proof fn lemma_settled_kids(p: PlanRef, l: nat, m: Found, n: Found) requires l <= kids(p).len(), agree(m, n, pre_kids(rank(p), kids(p), l)) ensures settled_kids(rank(p), kids(p), l, m) == settled_kids(rank(p), kids(p), l, n) decreases rank(p), 0nat, l
{ broadcast use kids_are_smaller; if l > 0 { let a = kids(p)[l - 1]; assert(rank(a) < rank(p)); let t = pre_kids(rank(p), kids(p), (l - 1) as nat); assert(pre_kids(rank(p), kids(p), l) == t + pre(a));
    assert forall|i: int| 0 <= i < t.len() implies found(m, id_of(#[trigger] t[i])) == found(n, id_of(t[i])) by { assert((t + pre(a))[i] == t[i]); }
    assert forall|i: int| 0 <= i < pre(a).len() implies found(m, id_of(#[trigger] pre(a)[i])) == found(n, id_of(pre(a)[i])) by { assert((t + pre(a))[t.len() + i] == pre(a)[i]); }
    lemma_settled_kids(p, (l - 1) as nat, m, n); lemma_settled(a, m, n); } }
/// the map without these nodes
pub open spec fn without(m: Found, s: Seq<PlanRef>) -> Found { m.remove_keys(ids(s).to_set()) }
pub proof fn lemma_without(m: Found, s: Seq<PlanRef>, t: Seq<PlanRef>) ensures without(without(m, s), t) =~= without(m, s + t)
{ assert forall|k: usize| #[trigger] ids(s + t).to_set().contains(k) <==> (ids(s).to_set().contains(k) || ids(t).to_set().contains(k)) by {
    if ids(s).contains(k) { let i = choose|i: int| 0 <= i < ids(s).len() && ids(s)[i] == k; assert(ids(s + t)[i] == k); }
    if ids(t).contains(k) { let i = choose|i: int| 0 <= i < ids(t).len() && ids(t)[i] == k; assert(ids(s + t)[s.len() + i] == k); }
    if ids(s + t).contains(k) { let i = choose|i: int| 0 <= i < ids(s + t).len() && ids(s + t)[i] == k; if i < s.len() { assert(ids(s)[i] == k); } else { assert(ids(t)[i - s.len()] == k); } }
} }
/// no node stands at two places
pub open spec fn distinct(s: Seq<PlanRef>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> id_of(s[i]) != id_of(s[j]) }
pub proof fn lemma_agree_without(m: Found, s: Seq<PlanRef>, t: Seq<PlanRef>) requires distinct(s + t) ensures agree(m, without(m, s), t), distinct(t), distinct(s)
{ assert forall|i: int| 0 <= i < t.len() implies found(m, id_of(#[trigger] t[i])) == found(without(m, s), id_of(t[i])) by { assert((s + t)[s.len() + i] == t[i]); if ids(s).contains(id_of(t[i])) { let j = choose|j: int| 0 <= j < ids(s).len() && ids(s)[j] == id_of(t[i]); assert((s + t)[j] == s[j]); } }
  assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies id_of(t[i]) != id_of(t[j]) by { assert((s + t)[s.len() + i] == t[i] && (s + t)[s.len() + j] == t[j]); }
  assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies id_of(s[i]) != id_of(s[j]) by { assert((s + t)[i] == s[i] && (s + t)[j] == s[j]); } }
pub proof fn lemma_below_distinct(p: PlanRef, n: nat) requires n <= kids(p).len(), boundary_of(p) is None, distinct(pre(p)) ensures distinct(seq![p] + pre_kids(rank(p), kids(p), n)) decreases kids(p).len() - n
{ broadcast use kids_are_smaller; if n < kids(p).len() { lemma_below_distinct(p, n + 1); let t = pre_kids(rank(p), kids(p), n); assert(rank(kids(p)[n as int]) < rank(p)); assert(seq![p] + pre_kids(rank(p), kids(p), n + 1) =~= (seq![p] + t) + pre(kids(p)[n as int])); lemma_agree_without(Map::empty(), seq![p] + t, pre(kids(p)[n as int])); } else { assert(seq![p] + pre_kids(rank(p), kids(p), n) == pre(p)); } }
//@fn src/metrics/task_metrics_rewriter.rs stage_metrics_rewriter#c1 as settle_node
//@ sig: pub fn $name(node_metrics_map: &mut NodeMap, plan: PlanRef) -> (r: Result<Transformed>)
//@ spec: ensures r is Ok, r->Ok_0 == (Transformed { data: wrap(plan, set_of(found(old(node_metrics_map)@, id_of(plan)))), transformed: true, tnr: if boundary_of(plan) is Some { TreeNodeRecursion::Jump } else { TreeNodeRecursion::Continue } }), final(node_metrics_map)@ =~= old(node_metrics_map)@.remove(id_of(plan)),
//@ subst: Arc::as_ptr(&plan) as *const () as usize => vx_address(&plan)
//@ subst: .unwrap_or_default() => .vx_or()
//@ subst: MetricsWrapperExec::new => new_wrapper
//@ subst: Arc::new($..) => vx_node($..)
//@ entry: broadcast use {sets, a_set_is_its_metrics}; none_is_empty();
//@end
/// DataFusion's `transform_down`, over `settle_node`
pub fn vx_down_settle(node_metrics_map: &mut NodeMap, plan: PlanRef) -> (r: Result<Transformed>)
    requires distinct(pre(plan)),
    ensures r is Ok ==> final(node_metrics_map)@ =~= without(old(node_metrics_map)@, pre(plan)) && r->Ok_0.data == settled(plan, old(node_metrics_map)@) && r->Ok_0.tnr is Continue && r->Ok_0.transformed,
    decreases rank(plan),
{
    broadcast use {kids_are_smaller, wrappers, same_kids};
    let ghost m0 = node_metrics_map@;
    let t = settle_node(node_metrics_map, plan.clone())?;
    proof { assert(ids(seq![plan])[0] == id_of(plan)); assert(node_metrics_map@ =~= without(m0, seq![plan])); }
    match t.tnr {
        TreeNodeRecursion::Stop => Ok(t),
        TreeNodeRecursion::Jump => { proof { assert(pre(plan) =~= seq![plan]); } Ok(Transformed { data: t.data, transformed: t.transformed, tnr: TreeNodeRecursion::Continue }) },
        TreeNodeRecursion::Continue => {
            let mut out: Vec<PlanRef> = Vec::new(); let changed = t.transformed; let mut below = false; let mut i = 0;
            let n = t.data.children().len();
            proof { assert(seq![plan] + pre_kids(rank(plan), kids(plan), 0) =~= seq![plan]); }
            while i < n
                invariant i <= n, n == kids(plan).len(), kids(t.data) == kids(plan), boundary_of(plan) is None, distinct(pre(plan)), out@ == settled_kids(rank(plan), kids(plan), i as nat, m0), node_metrics_map@ =~= without(m0, seq![plan] + pre_kids(rank(plan), kids(plan), i as nat)), i > 0 ==> below,
                decreases n - i,
            {
                broadcast use kids_are_smaller;
                let k = t.data.children()[i].clone();
                let ghost s = seq![plan] + pre_kids(rank(plan), kids(plan), i as nat);
                proof { lemma_below_distinct(plan, i as nat + 1); assert(rank(k) < rank(plan)); assert(seq![plan] + pre_kids(rank(plan), kids(plan), i as nat + 1) =~= s + pre(k)); lemma_agree_without(m0, s, pre(k)); lemma_settled(k, m0, without(m0, s)); lemma_without(m0, s, pre(k)); }
                let w = vx_down_settle(node_metrics_map, k)?;
                out.push(w.data); below = below || w.transformed;
                i += 1;
                if w.tnr == TreeNodeRecursion::Stop { return vx_err(); }
            }
            if below { let d = t.data.replace_children(out, ReplaceChildrenOptions::new(ChildrenPropertiesMode::Recompute))?; Ok(Transformed { data: d, transformed: true, tnr: TreeNodeRecursion::Continue }) }
            else { proof { assert(kids(plan) =~= out@); } Ok(Transformed { data: t.data, transformed: changed, tnr: TreeNodeRecursion::Continue }) }
        }
    }
}
//@struct src/protocol/worker_channel.rs TaskKey
/// what the tasks reported so far
#[verifier::external_body] pub struct MetricsStore { _x: u8 }
impl MetricsStore { pub uninterp spec fn of(&self, k: TaskKey) -> Option<TaskMetrics>; #[verifier::external_body] pub fn get(&self, k: &TaskKey) -> (r: Option<TaskMetrics>) ensures r == self.of(*k) { unimplemented!() } }
pub open spec fn task_of(s: LocalStage, t: int) -> Ctx { DistributedTaskContext { task_index: t as usize, task_count: s.tasks } }
pub open spec fn list_of(s: LocalStage, st: MetricsStore, t: int) -> Option<TaskMetrics> { st.of(TaskKey { query_id: s.query_id, stage_id: s.num, task_number: t as usize }) }
/// the first `n` tasks of the stage have a set for every node that they run
pub open spec fn complete(s: LocalStage, st: MetricsStore, n: nat) -> bool { forall|t: int| 0 <= t < n ==> (#[trigger] list_of(s, st, t)) is Some && list_of(s, st, t)->0.pre_order_plan_metrics@.len() >= run_by(s.plan, task_of(s, t)).len() }
pub open spec fn from_tasks(s: LocalStage, st: MetricsStore, f: DistributedMetricsFormat, n: nat) -> Found decreases n {
    if n == 0 { Map::empty() } else { gathered(from_tasks(s, st, f, (n - 1) as nat), run_by(s.plan, task_of(s, n - 1)), list_of(s, st, n - 1)->0.pre_order_plan_metrics@, 0, ctx_of(f, (n - 1) as u64)) }
}
/// a stage as it is built: every task exists in its plan, and no node stands at two places
pub open spec fn sound(s: LocalStage) -> bool { distinct(pre(s.plan)) && forall|t: int| 0 <= t < s.tasks ==> in_plan(s.plan, #[trigger] task_of(s, t)) }
//@fn src/metrics/task_metrics_rewriter.rs stage_metrics_rewriter
//@ sig: pub fn $name(stage: &LocalStage, metrics_collection: Arc<MetricsStore>, format: DistributedMetricsFormat) -> (r: Result<PlanRef>)
//@ spec: requires sound(*stage),
//@   ensures r is Ok ==> complete(*stage, *metrics_collection, stage.tasks as nat) && r->Ok_0 == settled(stage.plan, from_tasks(*stage, *metrics_collection, format, stage.tasks as nat)),
//@ subst: let mut node_metrics_map: HashMap<usize, MetricsSet> = HashMap::new(); => let mut node_metrics_map = NodeMap::vx_new();
//@ subst: stage.plan.apply_with_dt_ctx($..)? => recurse_gather(&mut node_metrics_map, &mut per_task_counter, &task_metrics, format, task_id, &stage.plan, d_ctx, ())?
//@ subst: (stage.plan).clone().transform_down($..) => vx_down_settle(&mut node_metrics_map, stage.plan.clone())
//@ closure 2: |v: Transformed| -> (d: PlanRef) ensures d == v.data
//@ closure 0: -
//@ closure 1: -
//@ loop 0: invariant sound(*stage), complete(*stage, *metrics_collection, task_id as nat), node_metrics_map@ == from_tasks(*stage, *metrics_collection, format, task_id as nat),
//@   body: assert(task_of(*stage, task_id as int).task_index == task_id);
//@ loop 1: -
//@end

/// what the list has for a node, where the task runs it
pub open spec fn picked(id: usize, nodes: Seq<PlanRef>, s: Seq<MetricsSet>, c: RewriteCtx) -> Seq<MetricV> decreases nodes.len() {
    if nodes.len() == 0 { seq![] } else { picked(id, nodes.drop_last(), s, c) + if id_of(nodes.last()) == id { by_ctx(c, s[nodes.len() - 1])@ } else { seq![] } }
}
/// what the tasks, one after the other, reported for a node
pub open spec fn of_node(s: LocalStage, st: MetricsStore, f: DistributedMetricsFormat, id: usize, n: nat) -> Seq<MetricV> decreases n {
    if n == 0 { seq![] } else { of_node(s, st, f, id, (n - 1) as nat) + picked(id, run_by(s.plan, task_of(s, n - 1)), list_of(s, st, n - 1)->0.pre_order_plan_metrics@, ctx_of(f, (n - 1) as u64)) }
}
pub proof fn lemma_picked(m: Found, id: usize, nodes: Seq<PlanRef>, s: Seq<MetricsSet>, c: RewriteCtx) ensures found(gathered(m, nodes, s, 0, c), id) =~= found(m, id) + picked(id, nodes, s, c) decreases nodes.len()
{ if nodes.len() > 0 { lemma_picked(m, id, nodes.drop_last(), s, c); } }
/// a node of the stage wears what each task reported for it, in task order, and nothing else
pub proof fn theorem_own_reports(s: LocalStage, st: MetricsStore, f: DistributedMetricsFormat, id: usize, n: nat) ensures found(from_tasks(s, st, f, n), id) =~= of_node(s, st, f, id, n) decreases n
{ if n > 0 { theorem_own_reports(s, st, f, id, (n - 1) as nat); lemma_picked(from_tasks(s, st, f, (n - 1) as nat), id, run_by(s.plan, task_of(s, n - 1)), list_of(s, st, n - 1)->0.pre_order_plan_metrics@, ctx_of(f, (n - 1) as u64)); } }
/// of a task that runs the node: the set at the node's place; of one that does not: nothing
pub proof fn theorem_one_place(id: usize, nodes: Seq<PlanRef>, s: Seq<MetricsSet>, c: RewriteCtx, k: int)
    requires distinct(nodes), k < nodes.len(), k >= 0 ==> id_of(nodes[k]) == id, k < 0 ==> forall|i: int| 0 <= i < nodes.len() ==> id_of(#[trigger] nodes[i]) != id,
    ensures picked(id, nodes, s, c) =~= (if k < 0 { seq![] } else { by_ctx(c, s[k])@ }),
    decreases nodes.len(),
{
    if nodes.len() > 0 {
        let d = nodes.drop_last(); let l = nodes.len() - 1;
        assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies id_of(d[i]) != id_of(d[j]) by { assert(nodes[i] == d[i] && nodes[j] == d[j]); }
        assert forall|i: int| 0 <= i < d.len() && (k < 0 || k == l) implies id_of(#[trigger] d[i]) != id by { assert(nodes[i] == d[i]); if k == l { assert(id_of(nodes[i]) != id_of(nodes[l])); } }
        if k >= 0 && k < l { assert(d[k] == nodes[k]); assert(id_of(nodes[k]) != id_of(nodes[l])); }
        theorem_one_place(id, d, s, c, if k == l { -1 } else { k });
    }
}

// ------------------------------------------------------------------ the whole plan
pub struct DistributedExec { pub base_plan: PlanRef, pub metrics_store: Option<Arc<MetricsStore>>, pub vx_state: u8 }
impl Node for DistributedExec { uninterp spec fn of(p: PlanRef) -> Option<Self>; }
impl DistributedExec {
    pub uninterp spec fn ran(&self) -> PlanRef;
    pub uninterp spec fn shown(&self) -> PlanRef;
    #[verifier::external_body] pub fn head_stage(&self) -> (r: Result<PlanRef>) ensures r is Ok ==> r->Ok_0 == self.ran() { unimplemented!() }
    #[verifier::external_body] pub fn plan_for_viz(&self) -> (r: Result<PlanRef>) ensures r is Ok ==> r->Ok_0 == self.shown() { unimplemented!() }
    #[verifier::external_body] pub async fn wait_for_metrics(&self) { unimplemented!() }
}
pub open spec fn with_reports(s: LocalStage, st: MetricsStore, f: DistributedMetricsFormat) -> LocalStage { LocalStage { query_id: s.query_id, num: s.num, plan: settled(s.plan, from_tasks(s, st, f, s.tasks as nat)), tasks: s.tasks, metrics_set: s.metrics_set } }
//@fn src/metrics/task_metrics_rewriter.rs rewrite_distributed_plan_with_metrics#c0 as report_stage
//@ sig: pub fn $name(metrics_collection: &Arc<MetricsStore>, format: DistributedMetricsFormat, plan: PlanRef) -> (r: Result<Transformed>)
//@ spec: requires boundary_of(plan) is Some && boundary_of(plan)->0.stage is Local ==> sound(boundary_of(plan)->0.stage->Local_0),
//@   ensures r is Ok ==> match boundary_of(plan) {
//@     None => r->Ok_0 == (Transformed { data: plan, transformed: false, tnr: TreeNodeRecursion::Continue }),
//@     Some(b) => b.stage is Local && complete(b.stage->Local_0, **metrics_collection, b.stage->Local_0.tasks as nat) && r->Ok_0 == (Transformed { data: wrap(reading(b, Stage::Local(with_reports(b.stage->Local_0, **metrics_collection, format))), own(plan)), transformed: true, tnr: TreeNodeRecursion::Continue }),
//@   },
//@ subst: .unwrap_or_default() => .vx_or()
//@ subst: MetricsWrapperExec::new => new_wrapper
//@ subst: Arc::new($..) => vx_node($..)
//@end
pub fn vx_store(s: &Option<Arc<MetricsStore>>) -> (r: Option<Arc<MetricsStore>>) ensures r == *s { match s { Some(a) => Some(a.clone()), None => None } }
pub fn vx_one(p: PlanRef) -> (r: Vec<PlanRef>) ensures r@ == seq![p] { let r = vec![p]; assert(r@ =~= seq![p]); r }
/// DataFusion's `transform_down`, over `report_stage`
pub uninterp spec fn reported(p: PlanRef, st: MetricsStore, f: DistributedMetricsFormat) -> PlanRef;
#[verifier::external_body] pub fn vx_down_report(plan: PlanRef, st: &Arc<MetricsStore>, f: DistributedMetricsFormat) -> (r: Result<Transformed>) ensures r is Ok ==> r->Ok_0.data == reported(plan, **st, f) { unimplemented!() }
//@fn src/metrics/task_metrics_rewriter.rs rewrite_distributed_plan_with_metrics noasync
//@ spec: ensures r is Ok ==> r->Ok_0 == match DistributedExec::of(plan) {
//@     Some(d) => match d.metrics_store { Some(st) => with_kids(plan, seq![reported(dressed(d.shown(), all_by_ctx(ctx_of(format, 0), owns(pre(d.ran()))), 0), *st, format)]), None => plan },
//@     None => plan,
//@   },
//@ subst: .await =>
//@ subst: distributed_exec.wait_for_metrics() => ()
//@ subst: format.to_rewrite_ctx($..) => to_rewrite_ctx(format, $..)
//@ subst: dist_exec_plan_with_metrics.transform_down($..) => vx_down_report(dist_exec_plan_with_metrics, &metrics_collection, format)
//@ subst: distributed_exec.metrics_store.clone() => vx_store(&distributed_exec.metrics_store)
//@ subst: vec![transformed.data] => vx_one(transformed.data)
//@ closure 0: -
//@end

// ------------------------------------------------------------------ waiting for the reports
impl Stage {
    pub open spec fn n(self) -> int { match self { Stage::Local(l) => l.tasks as int, Stage::Remote(r) => r.workers@.len() as int } }
    pub open spec fn key(self, t: int) -> TaskKey { match self { Stage::Local(l) => TaskKey { query_id: l.query_id, stage_id: l.num, task_number: t as usize }, Stage::Remote(r) => TaskKey { query_id: r.query_id, stage_id: r.num, task_number: t as usize } } }
    pub fn query_id(&self) -> (r: Uuid) ensures r == self.key(0).query_id { match self { Stage::Local(v) => v.query_id, Stage::Remote(v) => v.query_id } }
}
//@fn src/stage.rs Stage::num as stage_num
//@ sig: pub fn $name(this: &Stage) -> (r: usize)
//@ spec: ensures r == this.key(0).stage_id,
//@ subst: self => this
//@ subst: Self:: => Stage::
//@end
//@fn src/stage.rs Stage::task_count as stage_task_count
//@ sig: pub fn $name(this: &Stage) -> (r: usize)
//@ spec: ensures r == this.n(),
//@ subst: self => this
//@ subst: Self:: => Stage::
//@end
/// every task of a boundary's input is waited for
//@fn src/coordinator/distributed.rs DistributedExec::wait_for_metrics#c0 as expect_stage
//@ sig: pub fn $name(expected_keys: &mut Vec<TaskKey>, plan: &PlanRef) -> (r: Result<TreeNodeRecursion>)
//@ spec: ensures r is Ok, r->Ok_0 is Continue, final(expected_keys)@ =~= old(expected_keys)@ + match boundary_of(*plan) { Some(b) => Seq::new(b.stage.n() as nat, |t: int| b.stage.key(t)), None => seq![] },
//@ subst: stage.task_count() => stage_task_count(stage)
//@ subst: stage.num() => stage_num(stage)
//@ loop 0: invariant boundary_of(*plan) is Some, boundary_of(*plan)->0.stage == *stage, expected_keys@ =~= old(expected_keys)@ + Seq::new(i as nat, |t: int| stage.key(t)), stage.n() <= usize::MAX,
//@end
/// the keys of the tasks that have reported
#[verifier::external_body] pub struct Reported { _x: u8 }
impl Reported { pub uninterp spec fn has(&self, k: TaskKey) -> bool; #[verifier::external_body] pub fn contains_key(&self, k: &TaskKey) -> (r: bool) ensures r == self.has(*k) { unimplemented!() } }
pub struct KeyIter { pub v: Vec<TaskKey> }
impl KeyIter {
    #[verifier::external_body] pub fn all<F: Fn(&TaskKey) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.v@.len() ==> #[trigger] f.requires((&self.v@[i],)),
        ensures r ==> forall|i: int| #![trigger self.v@[i]] 0 <= i < self.v@.len() ==> f.ensures((&self.v@[i],), true), !r ==> exists|i: int| #![trigger self.v@[i]] 0 <= i < self.v@.len() && f.ensures((&self.v@[i],), false)
    { unimplemented!() }
    #[verifier::external_body] pub fn any<F: Fn(&TaskKey) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.v@.len() ==> #[trigger] f.requires((&self.v@[i],)),
        ensures r ==> exists|i: int| #![trigger self.v@[i]] 0 <= i < self.v@.len() && f.ensures((&self.v@[i],), true), !r ==> forall|i: int| #![trigger self.v@[i]] 0 <= i < self.v@.len() ==> f.ensures((&self.v@[i],), false)
    { unimplemented!() }
}
#[verifier::external_body] pub fn vx_keys(v: &Vec<TaskKey>) -> (r: KeyIter) ensures r.v@ == v@ { unimplemented!() }
//@fn src/coordinator/distributed.rs DistributedExec::wait_for_metrics#c1 as all_reported
//@ sig: pub fn $name(expected_keys: &Vec<TaskKey>, map: &Reported) -> (r: bool)
//@ spec: ensures r <==> forall|i: int| 0 <= i < expected_keys@.len() ==> map.has(#[trigger] expected_keys@[i]),
//@ subst: expected_keys.iter() => vx_keys(expected_keys)
//@ closure 0: |key: &TaskKey| -> (b: bool) ensures b == map.has(*key)
//@end
} // verus!
fn main() {}
