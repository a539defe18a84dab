//@include lib/base.rs
//@type_is Arc<dyn ExecutionPlan> => PlanRef
//@type_is impl IntoIterator<Item = PlanRef> => Vec<PlanRef>
//@type_is Arc::new(distributed_leaf) => leaf_plan(distributed_leaf)
//@arcclone
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ dependencies
#[verifier::external_body] pub struct SessionConfig { _x: u8 }
#[verifier::external_body] pub struct Schema { _x: u8 }
impl Schema { #[verifier::external_body] pub fn eq(&self, o: &Schema) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
pub struct EqProps { pub s: Schema }
impl EqProps { pub fn schema(&self) -> (r: &Schema) ensures *r == self.s { &self.s } }
#[verifier::external_body] pub struct Partitioning { _x: u8 }
impl Partitioning {
    pub uninterp spec fn count(&self) -> usize;
    #[verifier::external_body] pub fn partition_count(&self) -> (r: usize) ensures r == self.count() { unimplemented!() }
}
pub struct PlanProperties { pub partitioning: Partitioning, pub eq_properties: EqProps }
#[verifier::external_body] pub struct Ordering { _x: u8 }
#[verifier::external_body] pub struct ScanSettings { _x: u8 }
// a row of a stored file: which file and where in it
#[verifier::external_body] pub struct Stored { _x: u8 }
#[verifier::external_body] pub struct PartitionedFile { _x: u8 }
pub uninterp spec fn stored(f: PartitionedFile) -> Multiset<Stored>;
use vstd::multiset::Multiset;
pub open spec fn stored_all(fs: Seq<PartitionedFile>) -> Multiset<Stored> decreases fs.len() {
    if fs.len() == 0 { Multiset::empty() } else { stored_all(fs.drop_last()).add(stored(fs.last())) }
}
#[verifier::external_body] pub struct FileGroup { _x: u8 }
impl FileGroup {
    pub uninterp spec fn fs(&self) -> Seq<PartitionedFile>;
    #[verifier::external_body] pub fn new(f: Vec<PartitionedFile>) -> (r: Self) ensures r.fs() == f@ { unimplemented!() }
}
impl Clone for FileGroup { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn total(gs: Seq<FileGroup>) -> Multiset<Stored> decreases gs.len() {
    if gs.len() == 0 { Multiset::empty() } else { total(gs.drop_last()).add(stored_all(gs.last().fs())) }
}
pub open spec fn joined(gs: Seq<FileGroup>) -> Seq<PartitionedFile> decreases gs.len() {
    if gs.len() == 0 { Seq::empty() } else { joined(gs.drop_last()) + gs.last().fs() }
}
// `groups.into_iter().flat_map(FileGroup::into_inner).collect()`
#[verifier::external_body] pub fn vx_files(g: Vec<FileGroup>) -> (r: Vec<PartitionedFile>) ensures r@ == joined(g@) { unimplemented!() }
// a file scan; `rest` stands for its other settings (schema, projection, filters, limit, ...)
pub struct FileScanConfig { pub file_groups: Vec<FileGroup>, pub output_partitioning: Option<Partitioning>, pub output_ordering: Vec<Ordering>, pub rest: ScanSettings }
impl Clone for FileScanConfig { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// DataFusion: rows are moved between groups, none is lost or repeated
pub struct FileGroupPartitioner { pub target: usize, pub keep_order: bool }
impl FileGroupPartitioner {
    #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn with_target_partitions(self, n: usize) -> (r: Self) ensures r.target == n, r.keep_order == self.keep_order { unimplemented!() }
    #[verifier::external_body] pub fn with_repartition_file_min_size(self, n: usize) -> (r: Self) ensures r.target == self.target, r.keep_order == self.keep_order { unimplemented!() }
    #[verifier::external_body] pub fn with_preserve_order_within_groups(self, b: bool) -> (r: Self) ensures r.target == self.target, r.keep_order == b { unimplemented!() }
    #[verifier::external_body] pub fn repartition_file_groups(&self, g: &Vec<FileGroup>) -> (r: Option<Vec<FileGroup>>)
        ensures r is Some ==> total(r->0@) == total(g@) && r->0@.len() <= (if g@.len() > self.target { g@.len() } else { self.target as nat }) && (self.keep_order ==> ordered(g@, r->0@)),
    { unimplemented!() }
}
/// no group mixes the files of several ordered groups, or reorders those of one
pub uninterp spec fn ordered(a: Seq<FileGroup>, b: Seq<FileGroup>) -> bool;
pub axiom fn axiom_ordered(a: Seq<FileGroup>, b: Seq<FileGroup>, g: FileGroup)
    ensures ordered(a, a), ordered(a, b) && g.fs().len() == 0 ==> ordered(a, b.push(g));

#[verifier::external_body] pub struct PlanRef { _x: u8 }
impl Clone for PlanRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn props(p: PlanRef) -> PlanProperties;
pub uninterp spec fn scan_of(p: PlanRef) -> Option<FileScanConfig>;
pub uninterp spec fn leaf_of(p: PlanRef) -> DistributedLeafExec;
#[verifier::external_body] pub fn leaf_plan(d: DistributedLeafExec) -> (r: PlanRef) ensures leaf_of(r) == d { unimplemented!() }
#[verifier::external_body] pub struct DataSourceExec { _x: u8 }
#[verifier::external_body] pub struct DataSource { _x: u8 }
impl DataSourceExec {
    pub uninterp spec fn src(&self) -> DataSource;
    #[verifier::external_body] pub fn data_source(&self) -> (r: &DataSource) ensures *r == self.src() { unimplemented!() }
    #[verifier::external_body] pub fn from_data_source(c: FileScanConfig) -> (r: PlanRef) ensures scan_of(r) == Some(c), props(r).partitioning.count() == c.file_groups@.len(), props(r).eq_properties.s == schema_of(c.rest) { unimplemented!() }
}
pub uninterp spec fn schema_of(s: ScanSettings) -> Schema;
pub uninterp spec fn scan_in(d: DataSource) -> Option<FileScanConfig>;
impl DataSource { #[verifier::external_body] pub fn downcast_ref<T>(&self) -> (r: Option<&FileScanConfig>) ensures match r { Some(c) => scan_in(*self) == Some(*c), None => scan_in(*self) is None } { unimplemented!() } }
impl PlanRef {
    #[verifier::external_body] pub fn properties(&self) -> (r: &Arc<PlanProperties>) ensures **r == props(*self) { unimplemented!() }
    #[verifier::external_body] pub fn downcast_ref<T>(&self) -> (r: Option<&DataSourceExec>) ensures r is Some ==> scan_of(*self) == scan_in(r->0.src()) { unimplemented!() }
    // a file scan has one partition per file group
    #[verifier::external_body] pub fn output_partitioning(&self) -> (r: &Partitioning) ensures scan_of(*self) is Some ==> r.count() == scan_of(*self)->0.file_groups@.len() { unimplemented!() }
    #[verifier::external_body] pub fn execute(&self, partition: usize, context: Arc<TaskContext>) -> (r: Result<SendableRecordBatchStream>) ensures r is Ok ==> r->Ok_0.of() == (*self, partition) && r->Ok_0.ctx() == *context { unimplemented!() }
}
#[verifier::external_body] pub struct TaskContext { _x: u8 }
#[verifier::external_body] pub struct SendableRecordBatchStream { _x: u8 }
impl SendableRecordBatchStream { pub uninterp spec fn of(&self) -> (PlanRef, usize); pub uninterp spec fn ctx(&self) -> TaskContext; }
pub struct DistributedTaskContext { pub task_index: usize, pub task_count: usize }
pub uninterp spec fn d_ctx_of(c: TaskContext) -> DistributedTaskContext;
impl DistributedTaskContext { #[verifier::external_body] pub fn from_ctx(c: &Arc<TaskContext>) -> (r: Arc<DistributedTaskContext>) ensures *r == d_ctx_of(**c) { unimplemented!() } }

//@struct src/execution_plans/distributed_leaf.rs DistributedLeafExec
pub struct ScaleUpLeafNodeEvent<'a> { pub plan: &'a PlanRef, pub task_count: usize, pub session_config: &'a SessionConfig }
pub struct ScaleUpLeafNodeEventResponse { pub plan: PlanRef }
impl ScaleUpLeafNodeEventResponse {
//@fn src/events/scale_up_leaf_node.rs ScaleUpLeafNodeEventResponse::new
//@ args: plan
//@ spec: ensures r.plan == plan,
//@end
}
// `v.into_iter().map(f)`
#[verifier::external_body] pub fn vx_map_all<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i]),
{ unimplemented!() }
#[verifier::external_body] pub fn vx_resize(v: &mut Vec<FileGroup>, n: usize)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> if i < old(v)@.len() { #[trigger] final(v)@[i] == old(v)@[i] } else { final(v)@[i].fs().len() == 0 },
{ unimplemented!() }

// ------------------------------------------------------------------ specification
/// group g of n, when items are dealt out one by one
pub open spec fn dealt<T>(items: Seq<T>, n: int, g: int) -> Seq<T> decreases items.len() {
    if items.len() == 0 { Seq::empty() } else {
        let r = dealt(items.drop_last(), n, g);
        if (items.len() - 1) % n == g { r.push(items.last()) } else { r }
    }
}
pub proof fn lemma_dealt_len<T>(items: Seq<T>, n: int, g: int)
    requires n > 0, items.len() <= n, 0 <= g < n,
    ensures dealt(items, n, g) == if g < items.len() { seq![items[g]] } else { Seq::empty() },
    decreases items.len(),
{
    if items.len() > 0 {
        lemma_dealt_len(items.drop_last(), n, g);
        lemma_small_mod((items.len() - 1) as nat, n as nat);
        assert(dealt(items, n, g) =~= if g < items.len() { seq![items[g]] } else { Seq::empty() });
    }
}
pub open spec fn scans(vs: Seq<PlanRef>) -> Seq<FileScanConfig> { Seq::new(vs.len(), |i: int| scan_of(vs[i])->0) }
/// what all the tasks scan together
pub open spec fn together(cs: Seq<FileScanConfig>) -> Multiset<Stored> decreases cs.len() {
    if cs.len() == 0 { Multiset::empty() } else { together(cs.drop_last()).add(total(cs.last().file_groups@)) }
}
pub proof fn lemma_total_push(gs: Seq<FileGroup>, g: FileGroup)
    ensures total(gs.push(g)) == total(gs).add(stored_all(g.fs())),
{ assert(gs.push(g).drop_last() =~= gs); }
pub proof fn lemma_together_update(cs: Seq<FileScanConfig>, i: int, c: FileScanConfig, m: Multiset<Stored>)
    requires 0 <= i < cs.len(), total(c.file_groups@) == total(cs[i].file_groups@).add(m),
    ensures together(cs.update(i, c)) == together(cs).add(m),
    decreases cs.len(),
{
    if i == cs.len() - 1 {
        assert(cs.update(i, c).drop_last() =~= cs.drop_last());
        assert(together(cs.update(i, c)) =~= together(cs).add(m));
    } else {
        assert(cs.update(i, c).drop_last() =~= cs.drop_last().update(i, c));
        lemma_together_update(cs.drop_last(), i, c, m);
        assert(together(cs.update(i, c)) =~= together(cs).add(m));
    }
}
pub proof fn lemma_together_empty(cs: Seq<FileScanConfig>)
    requires forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).file_groups@.len() == 0,
    ensures together(cs) == Multiset::<Stored>::empty(),
    decreases cs.len(),
{
    if cs.len() > 0 {
        lemma_together_empty(cs.drop_last());
        assert(cs.last().file_groups@.len() == 0);
        assert(together(cs) =~= Multiset::empty());
    }
}
pub proof fn lemma_total_pad(a: Seq<FileGroup>, b: Seq<FileGroup>)
    requires a.len() <= b.len(), forall|i: int| 0 <= i < b.len() ==> if i < a.len() { #[trigger] b[i] == a[i] } else { b[i].fs().len() == 0 },
    ensures total(b) == total(a), forall|o: Seq<FileGroup>| #[trigger] ordered(o, a) ==> ordered(o, b),
    decreases b.len() - a.len(),
{
    if a.len() == b.len() { assert(a =~= b); }
    else {
        lemma_total_pad(a, b.drop_last());
        assert(b.last().fs().len() == 0);
        assert(total(b) =~= total(a));
        assert forall|o: Seq<FileGroup>| #[trigger] ordered(o, a) implies ordered(o, b) by {
            axiom_ordered(o, b.drop_last(), b.last());
            assert(b.drop_last().push(b.last()) =~= b);
        }
    }
}
/// the groups one task scans: every T-th one
pub open spec fn share(gs: Seq<FileGroup>, upto: int, t: int, n: int) -> Seq<FileGroup> decreases upto {
    if upto <= 0 { Seq::empty() } else {
        let r = share(gs, upto - 1, t, n);
        if (upto - 1) % n == t { r.push(gs[upto - 1]) } else { r }
    }
}
pub open spec fn same_scan(a: FileScanConfig, b: FileScanConfig) -> bool { a.output_partitioning == b.output_partitioning && a.output_ordering == b.output_ordering && a.rest == b.rest }
/// groups keep to themselves: one group of the scan, whole, or nothing
pub open spec fn whole(gs: Seq<FileGroup>, rs: Seq<FileGroup>) -> bool {
    rs.len() >= gs.len() && forall|g: int| 0 <= g < rs.len() ==> (#[trigger] rs[g]).fs() == if g < gs.len() { gs[g].fs() } else { Seq::empty() }
}
pub proof fn lemma_whole_total(gs: Seq<FileGroup>, rs: Seq<FileGroup>)
    requires whole(gs, rs),
    ensures total(rs) == total(gs),
    decreases rs.len(),
{
    if rs.len() == gs.len() {
        if gs.len() > 0 {
            assert forall|g: int| 0 <= g < rs.drop_last().len() implies (#[trigger] rs.drop_last()[g]).fs() == gs.drop_last()[g].fs() by { assert(rs[g].fs() == gs[g].fs()); }
            lemma_whole_total(gs.drop_last(), rs.drop_last());
            assert(rs.last().fs() == gs.last().fs());
        }
        assert(total(rs) =~= total(gs));
    } else {
        assert forall|g: int| 0 <= g < rs.drop_last().len() implies (#[trigger] rs.drop_last()[g]).fs() == if g < gs.len() { gs[g].fs() } else { Seq::empty() } by { assert(rs.drop_last()[g] == rs[g]); }
        lemma_whole_total(gs, rs.drop_last());
        assert(rs.last().fs() =~= Seq::empty());
        assert(total(rs) =~= total(gs));
    }
}
/// how many of the first `upto` groups a task gets
pub open spec fn nshare(upto: int, t: int, n: int) -> int { if upto % n > t { upto / n + 1 } else { upto / n } }
pub proof fn lemma_share_len(gs: Seq<FileGroup>, upto: int, t: int, n: int)
    requires 0 <= t < n, 0 <= upto,
    ensures share(gs, upto, t, n).len() == nshare(upto, t, n),
    decreases upto,
{
    if upto > 0 {
        lemma_share_len(gs, upto - 1, t, n);
        let q = (upto - 1) / n; let m = (upto - 1) % n;
        lemma_fundamental_div_mod(upto - 1, n);
        if m == n - 1 { assert(upto == n * (q + 1)) by(nonlinear_arith) requires upto - 1 == n * q + m, m == n - 1; lemma_fundamental_div_mod_converse(upto, n, q + 1, 0); }
        else { lemma_fundamental_div_mod_converse(upto, n, q, m + 1); }
    } else { lemma_small_mod(0, n as nat); lemma_div_of0(n); }
}
/// the tasks' scans, once every group is dealt out
pub open spec fn spread(c: FileScanConfig, gs: Seq<FileGroup>, upto: int, cs: Seq<FileScanConfig>) -> bool {
    forall|t: int| 0 <= t < cs.len() ==> same_scan(c, #[trigger] cs[t]) && cs[t].file_groups@ == share(gs, upto, t, cs.len() as int)
}
/// what a scaled leaf must be
pub open spec fn split_ok(p: PlanRef, tasks: int, leaf: DistributedLeafExec) -> bool {
    let c = scan_of(p)->0;
    &&& leaf.original == p && leaf.variants@.len() == tasks
    // the same width everywhere: the groups are dealt out one by one, and come out even
    &&& exists|gs: Seq<FileGroup>, cs: Seq<FileScanConfig>| #[trigger] spread(c, gs, gs.len() as int, cs) && cs.len() == tasks
        && gs.len() >= tasks && gs.len() % (tasks as nat) == 0
        && (forall|t: int| 0 <= t < tasks ==> scan_of(#[trigger] leaf.variants@[t]) == Some(cs[t]) && cs[t].file_groups@.len() == cs[0].file_groups@.len())
        // every stored row once, over all tasks
        && together(cs) == total(c.file_groups@)
        && (c.output_partitioning is Some ==> whole(c.file_groups@, gs))
        && (c.output_partitioning is None && c.output_ordering@.len() > 0 ==> ordered(c.file_groups@, gs))
}
pub proof fn lemma_dealt_whole(a: Seq<FileGroup>, rs: Seq<FileGroup>)
    requires a.len() <= rs.len(), forall|g: int| 0 <= g < rs.len() ==> (#[trigger] rs[g]).fs() == joined(dealt(a, rs.len() as int, g)),
    ensures whole(a, rs),
{
    assert forall|g: int| 0 <= g < rs.len() implies (#[trigger] rs[g]).fs() == if g < a.len() { a[g].fs() } else { Seq::empty() } by {
        lemma_dealt_len(a, rs.len() as int, g);
        if g < a.len() {
            let one = seq![a[g]];
            assert(one.drop_last() =~= Seq::<FileGroup>::empty());
            assert(joined(one.drop_last()) =~= Seq::empty());
            assert(joined(one) =~= a[g].fs());
        }
    }
}
pub proof fn lemma_even(n: int, t: int)
    requires n >= 0, t >= 1,
    ensures ({ let g = if spec_div_ceil(n, t) < 1 { 1 } else { spec_div_ceil(n, t) }; g * t >= n && g * t <= n + t && (g * t) % t == 0 && g * t >= t }),
{
    let g = if spec_div_ceil(n, t) < 1 { 1 } else { spec_div_ceil(n, t) };
    lemma_fundamental_div_mod(n, t); lemma_mod_bound(n, t); lemma_div_pos_is_pos(n, t);
    lemma_mod_multiples_basic(g, t);
    let q = n / t;
    assert(g * t >= n && g * t <= n + t && g * t >= t) by(nonlinear_arith) requires n == t * q + n % t, 0 <= n % t < t, t >= 1, q >= 0, g == q + 1 || (g == q && n % t == 0 && q >= 1);
}
/// what padding with empty groups leaves as it was
pub fn vx_pad(v: &mut Vec<FileGroup>, n: usize)
    requires n >= old(v)@.len(),
    ensures final(v)@.len() == n, total(final(v)@) == total(old(v)@),
        forall|o: Seq<FileGroup>| #[trigger] ordered(o, old(v)@) ==> ordered(o, final(v)@),
        forall|o: Seq<FileGroup>| #[trigger] whole(o, old(v)@) ==> whole(o, final(v)@),
{
    let ghost a = v@;
    vx_resize(v, n);
    proof {
        lemma_total_pad(a, v@);
        assert forall|o: Seq<FileGroup>| #[trigger] whole(o, a) implies whole(o, v@) by {
            assert forall|g: int| 0 <= g < v@.len() implies (#[trigger] v@[g]).fs() == if g < o.len() { o[g].fs() } else { Seq::empty() } by {
                if g < a.len() { assert(a[g].fs() == if g < o.len() { o[g].fs() } else { Seq::empty() }); } else { assert(v@[g].fs() =~= Seq::empty()); }
            }
        }
    }
}
// ------------------------------------------------------------------ the code
//@fn src/events/defaults/file_scan_config.rs rebalance_round_robin
//@ sig: pub fn $name(items: Vec<FileGroup>, target_groups: usize) -> (r: Vec<Vec<FileGroup>>)
//@ spec: requires target_groups > 0,
//@   ensures r@.len() == target_groups, forall|g: int| 0 <= g < target_groups ==> (#[trigger] r@[g])@ == dealt(items@, target_groups as int, g),
//@ subst: Vec<Vec<T>> => Vec<Vec<FileGroup>>
//@ closure 0: -> (o: Vec<FileGroup>) ensures o@.len() == 0
//@ loop 0: invariant target_groups > 0, groups@.len() == target_groups, it0.seq().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> #[trigger] it0.seq()[i] == (i as usize, all[i]), it0.seq().len() <= usize::MAX, forall|g: int| 0 <= g < target_groups ==> (#[trigger] groups@[g])@ == dealt(all.take(it0.index() as int), target_groups as int, g),
//@   before: let ghost all = items@; proof { assert(all.take(all.len() as int) =~= all); }
//@   body: assert(all.take(it0.index() + 1).drop_last() =~= all.take(it0.index() as int)); assert(all.take(it0.index() + 1).last() == all[it0.index() as int]);
//@end
impl DistributedLeafExec {
//@fn src/execution_plans/distributed_leaf.rs DistributedLeafExec::try_new
//@ args: original variants
//@ sig: pub fn $name(original: PlanRef, variants0: Vec<PlanRef>) -> (r: Result<Self>)
//@ ghost: let variants = variants0;
//@ subst: let mut properties = None => let mut properties: Option<Arc<PlanProperties>> = None
//@ spec: ensures r is Ok ==> r->Ok_0.original == original && r->Ok_0.variants@ == variants0@ && variants0@.len() > 0 && *r->Ok_0.properties == props(variants0@[0])
//@     && forall|i: int| 0 <= i < variants0@.len() ==> props(#[trigger] variants0@[i]).partitioning.count() == props(variants0@[0]).partitioning.count() && props(variants0@[i]).eq_properties.s == props(variants0@[0]).eq_properties.s,
//@   variants0@.len() > 0 && (forall|i: int| 0 <= i < variants0@.len() ==> props(#[trigger] variants0@[i]).partitioning.count() == props(variants0@[0]).partitioning.count() && props(variants0@[i]).eq_properties.s == props(variants0@[0]).eq_properties.s) ==> r is Ok,
//@ loop 0: invariant it0.seq() == variants0@, __vx_v@ == variants0@.take(it0.index() as int), it0.index() > 0 <==> properties is Some, properties is Some ==> *properties->0 == props(variants0@[0]),
//@     forall|i: int| 0 <= i < it0.index() ==> props(#[trigger] variants0@[i]).partitioning.count() == props(variants0@[0]).partitioning.count() && props(variants0@[i]).eq_properties.s == props(variants0@[0]).eq_properties.s,
//@   after: assert(variants0@.take(it0.index() + 1) =~= variants0@.take(it0.index() as int).push(variants0@[it0.index() as int]));
//@end
//@fn src/execution_plans/distributed_leaf.rs DistributedLeafExec::to_task_specialized
//@ args: task_i
//@ spec: requires task_i < self.variants@.len(),
//@   ensures r == self.variants@[task_i as int],
//@end
//@fn src/execution_plans/distributed_leaf.rs DistributedLeafExec::execute@ExecutionPlan
//@ args: partition context
//@ spec: ensures r is Ok ==> {
//@     let d = d_ctx_of(*context);
//@     &&& r->Ok_0.ctx() == *context && r->Ok_0.of().1 == partition
//@     &&& d.task_count == 1 ==> r->Ok_0.of().0 == self.original
//@     &&& d.task_count != 1 ==> d.task_index < self.variants@.len() && r->Ok_0.of().0 == self.variants@[d.task_index as int]
//@   },
//@end
}
//@fn src/events/defaults/file_scan_config.rs file_scan_config_scale_up_leaf_node
//@ args: ev
//@ spec: requires ev.task_count >= 1, scan_of(*ev.plan) is Some ==> scan_of(*ev.plan)->0.file_groups@.len() * ev.task_count < 0x1_0000_0000_0000 && scan_of(*ev.plan)->0.file_groups@.len() >= 1,
//@   ensures r is Some ==> r->0 is Ok && split_ok(*ev.plan, ev.task_count as int, leaf_of(r->0->Ok_0.plan)),
//@ subst: groups.into_iter().flat_map(FileGroup::into_inner).collect() => vx_files(groups)
//@ subst: file_scans.into_iter().map( => vx_map_all(file_scans,
//@ subst: as _ => 
//@ subst: rebalanced.resize_with(groups_per_task * ev.task_count, $..) => { proof { axiom_ordered(file_scan.file_groups@, file_scan.file_groups@, arbitrary()); lemma_even(rebalanced@.len() as int, ev.task_count as int); if file_scan.output_partitioning is Some { lemma_dealt_whole(file_scan.file_groups@, rebalanced@); lemma_whole_total(file_scan.file_groups@, rebalanced@); } } vx_pad(&mut rebalanced, groups_per_task * ev.task_count) }
//@ entry: if scan_of(*ev.plan) is Some { let P = scan_of(*ev.plan)->0.file_groups@.len() as int; let T = ev.task_count as int; assert(P <= P * T && T <= P * T && P * T >= 1) by(nonlinear_arith) requires P >= 1, T >= 1; }
//@ closure 0: |groups: Vec<FileGroup>| -> (o: FileGroup) ensures o.fs() == joined(groups@)
//@ closure 1: -> (o: Vec<FileGroup>) ensures o@ == file_scan.file_groups@
//@ closure 2: -> (o: FileGroup) ensures o.fs().len() == 0
//@ closure 3: |file_scan: FileScanConfig| -> (o: PlanRef) ensures scan_of(o) == Some(file_scan), props(o).partitioning.count() == file_scan.file_groups@.len(), props(o).eq_properties.s == schema_of(file_scan.rest)
//@ loop 0: invariant T == ev.task_count, T >= 1, scan_of(*ev.plan) == Some(*file_scan), gs.len() <= 0x2_0000_0000_0000, it0.seq().len() == gs.len(), forall|i: int| 0 <= i < gs.len() ==> #[trigger] it0.seq()[i] == (i as usize, gs[i]),
//@   file_scans@.len() == T, spread(*file_scan, gs, it0.index() as int, file_scans@), together(file_scans@) == total(gs.take(it0.index() as int)),
//@   forall|t: int| 0 <= t < T ==> (#[trigger] file_scans@[t]).file_groups@.len() == nshare(it0.index() as int, t, T),
//@   before: let ghost gs = rebalanced@; let ghost T = ev.task_count as int; proof { assert(gs.take(gs.len() as int) =~= gs); assert(gs.take(0) =~= Seq::empty()); lemma_together_empty(file_scans@); lemma_small_mod(0, T as nat); lemma_div_of0(T); }
//@   ghost: let ghost k = it0.index() as int; let ghost old_scans = file_scans@;
//@   after: lemma_total_push(old_scans[k % T].file_groups@, gs[k]); lemma_together_update(old_scans, k % T, file_scans@[k % T], stored_all(gs[k].fs())); lemma_total_push(gs.take(k), gs[k]); assert(gs.take(k + 1) =~= gs.take(k).push(gs[k])); assert(file_scans@ =~= old_scans.update(k % T, file_scans@[k % T]));
//@      assert forall|t: int| 0 <= t < T implies (#[trigger] file_scans@[t]).file_groups@.len() == nshare(k + 1, t, T) by { lemma_share_len(gs, k + 1, t, T); }
//@end
} // verus!
fn main() {}
