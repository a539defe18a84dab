//! Random plans with nested boundaries are prepared, and compared node by node with what they were.
use super::common::*;
use super::plans::*;
use crate::coordinator::vp_inject::rebuild;
use crate::distributed_planner::vp_inject::prepare;
use crate::execution_plans::{ChildWeight, ChildrenIsolatorUnionExec};
use crate::stage::RemoteStage;
use crate::*;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{Result, exec_err};
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::EquivalenceProperties;
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, Partitioning, PhysicalExpr, PlanProperties};
use std::sync::Arc;
type P = Arc<dyn ExecutionPlan>;

#[derive(Debug)]
struct Node { id: usize, below: Vec<P>, props: Arc<PlanProperties> }
fn node(id: usize, parts: usize, below: Vec<P>) -> P { Arc::new(Node { id, below, props: Arc::new(PlanProperties::new(EquivalenceProperties::new(tag_schema()), Partitioning::UnknownPartitioning(parts), EmissionType::Incremental, Boundedness::Bounded)) }) }
fn parts(p: &P) -> usize { p.output_partitioning().partition_count() }
impl DisplayAs for Node { fn fmt_as(&self, _t: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Node {} ({} partitions)", self.id, self.props.partitioning.partition_count()) } }
impl ExecutionPlan for Node {
    fn name(&self) -> &str { "Node" }
    fn properties(&self) -> &Arc<PlanProperties> { &self.props }
    fn children(&self) -> Vec<&P> { self.below.iter().collect() }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, c: Vec<P>) -> Result<P> { Ok(node(self.id, self.props.partitioning.partition_count(), c)) }
    fn execute(&self, _p: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { exec_err!("not run") }
}
fn union(p: &P) -> Option<&ChildrenIsolatorUnionExec> { p.downcast_ref::<ChildrenIsolatorUnionExec>() }
fn counts(p: &P, c: usize) -> Vec<usize> {
    if let Some(u) = union(p) { return (0..u.children.len()).map(|i| u.task_idx_map.iter().flatten().filter(|x| x.0 == i).count()).collect(); }
    vec![c; p.children().len()]
}
fn plan(rng: &mut Rng, depth: usize, tasks: usize, id: &mut usize) -> P {
    *id += 1;
    let me = *id;
    let width = 1 + rng.below(4) as usize;
    if depth == 0 || rng.below(8) == 0 { return node(me, width, vec![]); }
    let from = 1 + rng.below(3) as usize;
    let mut kid = |rng: &mut Rng, t: usize| plan(rng, depth - 1, t, id);
    let made: Result<P> = match rng.below(9) {
        0 | 1 => { let n = 1 + rng.below(2) as usize; let below = (0..n).map(|_| kid(rng, tasks)).collect(); Ok(node(me, width, below)) }
        2 | 3 => { let c = kid(rng, from); NetworkCoalesceExec::try_new(c, from, tasks).map(|b| Arc::new(b) as P) }
        4 | 5 => { let c = kid(rng, from); RepartitionExec::try_new(c.clone(), Partitioning::Hash(vec![col(&c)], width)).and_then(|r| NetworkShuffleExec::try_new(Arc::new(r), from)).map(|b| Arc::new(b) as P) }
        6 | 7 => { let c = kid(rng, from); NetworkBroadcastExec::try_new(Arc::new(BroadcastExec::new(c, 1)), from).map(|b| Arc::new(b) as P) }
        _ => {
            let n = 1 + rng.below(3) as usize;
            let w: Vec<ChildWeight> = (0..n).map(|_| if rng.below(2) == 0 { ChildWeight::desired(rng.below(7) as f64) } else { ChildWeight::maximum(1 + rng.below(3) as usize) }).collect();
            ChildrenIsolatorUnionExec::from_children_and_weights((0..n).map(|_| node(0, 2, vec![])).collect::<Vec<_>>(), w, tasks).and_then(|u| {
                let u = Arc::new(u) as P;
                let below: Vec<P> = counts(&u, tasks).into_iter().map(|t| kid(rng, t)).collect();
                u.with_new_children(below)
            })
        }
    };
    made.unwrap_or_else(|_| node(me, width, vec![]))
}
/// what is below a repartition or broadcast head, and what is said of the head
fn head(p: &P) -> (String, P) {
    if let Some(r) = p.downcast_ref::<RepartitionExec>() { return (format!("repartition {}", r.partitioning()), Arc::clone(r.input())); }
    if p.downcast_ref::<BroadcastExec>().is_some() { let c = Arc::clone(p.children()[0]); return (format!("broadcast {}", parts(p)), c); }
    (String::new(), Arc::clone(p))
}
struct Seen { elide: bool, nums: Vec<usize>, queries: Vec<uuid::Uuid> }
/// is `new` what `old` has to become when `tasks` tasks run it?
fn same(old: &P, new: &P, tasks: usize, s: &mut Seen) -> std::result::Result<(), String> {
    let Some(b) = old.as_network_boundary() else {
        if old.name() != new.name() || old.downcast_ref::<Node>().map(|n| n.id) != new.downcast_ref::<Node>().map(|n| n.id) { return Err(format!("{} has become {}", show(old), show(new))); }
        if parts(old) != parts(new) { return Err(format!("{} now has {} partitions", show(old), parts(new))); }
        if let (Some(x), Some(y)) = (union(old), union(new)) { if format!("{:?}", x.task_idx_map) != format!("{:?}", y.task_idx_map) { return Err(format!("{} assigns its children differently", show(new))); } }
        if old.children().len() != new.children().len() { return Err(format!("{} has lost or gained children", show(old))); }
        for ((x, y), t) in old.children().into_iter().zip(new.children()).zip(counts(old, tasks)) { same(x, y, t, s)?; }
        return Ok(());
    };
    let Stage::Local(from) = b.input_stage() else { return Err("a stage without a plan".to_string()) };
    if s.elide && tasks == 1 && from.tasks == 1 { return same(&from.plan, new, 1, s); }
    let Some(nb) = new.as_network_boundary() else { return Err(format!("the boundary of {} tasks reading {} was removed: {} has become {}", tasks, from.tasks, show(old), show(new))) };
    if old.name() != new.name() { return Err(format!("{} has become {}", old.name(), new.name())); }
    let Stage::Local(to) = nb.input_stage() else { return Err(format!("{} reads from elsewhere", new.name())) };
    if to.tasks != from.tasks { return Err(format!("a stage of {} tasks has become one of {}", from.tasks, to.tasks)); }
    if parts(old) != parts(new) { return Err(format!("{} had {} partitions, now {}", old.name(), parts(old), parts(new))); }
    if !s.elide && (to.num != from.num || to.query_id != from.query_id) { return Err(format!("stage {} has become stage {}", from.num, to.num)); }
    s.nums.push(to.num);
    s.queries.push(to.query_id);
    let (head_is, below_new) = if old.name() == "NetworkCoalesceExec" { (String::new(), Arc::clone(&to.plan)) } else { head(&to.plan) };
    let (want, below_old) = match old.name() {
        "NetworkCoalesceExec" => (String::new(), Arc::clone(&from.plan)),
        "NetworkShuffleExec" => { let c = head(&from.plan).1; (format!("repartition {}", Partitioning::Hash(vec![col(&c)], parts(old) * tasks)), c) }
        _ => (format!("broadcast {}", parts(old) * tasks), head(&from.plan).1),
    };
    if head_is != want { return Err(format!("stage {} under a {} that {tasks} task(s) read: head is '{head_is}', should be '{want}'", to.num, old.name())); }
    same(&below_old, &below_new, from.tasks, s)
}
/// the plan with its stages running elsewhere, and what they run
fn sent(p: &P, out: &mut Vec<(usize, P)>) -> P {
    if let Some(b) = p.as_network_boundary() {
        let Stage::Local(l) = b.input_stage() else { unreachable!() };
        let below = sent(&l.plan, out);
        out.push((l.num, below));
        let workers = (0..l.tasks).map(|i| url::Url::parse(&format!("http://w{i}")).unwrap()).collect();
        return b.with_input_stage(Stage::Remote(RemoteStage { query_id: l.query_id, num: l.num, workers, runtime_stats: None })).unwrap();
    }
    let below: Vec<P> = p.children().into_iter().map(|c| sent(c, out)).collect();
    if below.is_empty() { return Arc::clone(p); }
    Arc::clone(p).with_new_children(below).unwrap()
}
pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 60_000 } else { 8_000 };
    let mut s = Search::new(&format!("{rounds} random plans of up to 7 levels with shuffles, broadcasts, coalesces and isolated unions, up to 3 tasks a stage: prepared, and (sent away) put together again"));
    let mut rng = Rng::new(seed ^ 0xC23);
    for round in 0..rounds {
        let depth = 1 + rng.below(6) as usize;
        let p = plan(&mut rng, depth, 1, &mut 0);
        let q = match prepare(Arc::clone(&p)) { Ok(q) => q, Err(e) => { s.fail(format!("round {round}: {}: {e}", show(&p))); return s; } };
        let mut seen = Seen { elide: true, nums: vec![], queries: vec![] };
        s.case();
        if let Err(e) = same(&p, &q, 1, &mut seen) { s.fail(format!("round {round}: {e}; plan {}; prepared {}", show(&p), show(&q))); return s; }
        let mut nums = seen.nums.clone();
        nums.sort();
        nums.dedup();
        if nums.len() != seen.nums.len() { s.fail(format!("round {round}: stages are numbered {:?}; plan {}; prepared {}", seen.nums, show(&p), show(&q))); return s; }
        if seen.queries.windows(2).any(|w| w[0] != w[1]) || seen.queries.iter().any(|u| u.is_nil()) { s.fail(format!("round {round}: stages of one query carry ids {:?}; prepared {}", seen.queries, show(&q))); return s; }
        let mut stages = vec![];
        let away = sent(&q, &mut stages);
        let back = match rebuild(stages, &away) { Ok(b) => b, Err(e) => { s.fail(format!("round {round}: put together again: {e}; prepared {}", show(&q))); return s; } };
        s.case();
        let mut seen = Seen { elide: false, nums: vec![], queries: vec![] };
        if let Err(e) = same(&q, &back, 1, &mut seen) { s.fail(format!("round {round}: put together again: {e}; prepared {}; is {}", show(&q), show(&back))); return s; }
    }
    s
}
