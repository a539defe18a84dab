//! Walks over random plans, against an independent reading of the documentation.
use super::common::*;
use super::plans::*;
use crate::common::TreeNodeExt;
use crate::execution_plans::{ChildWeight, ChildrenIsolatorUnionExec};
use crate::*;
use datafusion::common::tree_node::{Transformed, TreeNodeRecursion};
use datafusion::common::{JoinType, NullEquality, Result, exec_err};
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::EquivalenceProperties;
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::joins::{CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode};
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, Partitioning, PhysicalExpr, PlanProperties};
use std::sync::Arc;
type P = Arc<dyn ExecutionPlan>;
type D = DistributedTaskContext;

#[derive(Debug)]
struct Node { id: usize, below: Vec<P>, props: Arc<PlanProperties> }
impl Node { fn new(id: usize, below: Vec<P>) -> P { Arc::new(Node { id, below, props: Arc::new(PlanProperties::new(EquivalenceProperties::new(tag_schema()), Partitioning::UnknownPartitioning(2), EmissionType::Incremental, Boundedness::Bounded)) }) } }
impl DisplayAs for Node { fn fmt_as(&self, _t: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Node {}", self.id) } }
impl ExecutionPlan for Node {
    fn name(&self) -> &str { "Node" }
    fn properties(&self) -> &Arc<PlanProperties> { &self.props }
    fn children(&self) -> Vec<&P> { self.below.iter().collect() }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, c: Vec<P>) -> Result<P> { Ok(Node::new(self.id, c)) }
    fn execute(&self, _p: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { exec_err!("not run") }
}
/// name, and the first node at or below it that has an identity
fn label(p: &P) -> String {
    let mut q = p.clone();
    loop {
        if let Some(n) = q.downcast_ref::<Node>() { return format!("{} {}", p.name(), n.id); }
        let c = match q.children().first() { Some(c) => Arc::clone(c), None => return p.name().to_string() };
        q = c;
    }
}
fn plan(rng: &mut Rng, depth: usize, tasks: usize, id: &mut usize) -> P {
    *id += 1;
    let me = *id;
    if depth == 0 || rng.below(8) == 0 { return Node::new(me, vec![]); }
    let kind = rng.below(9);
    let mut kid = |rng: &mut Rng, t: usize| plan(rng, depth - 1, t, id);
    match kind {
        0 | 1 => { let n = 1 + rng.below(3) as usize; let below = (0..n).map(|_| kid(rng, tasks)).collect(); Node::new(me, below) }
        2 => { let t = 1 + rng.below(3) as usize; let c = kid(rng, t); match NetworkCoalesceExec::try_new(c, t, tasks) { Ok(b) => Arc::new(b), Err(_) => Node::new(me, vec![]) } }
        3 | 4 | 5 => {
            let n = 1 + rng.below(4) as usize;
            let w: Vec<ChildWeight> = (0..n).map(|_| if rng.below(2) == 0 { ChildWeight::desired(rng.below(7) as f64) } else { ChildWeight::maximum(1 + rng.below(3) as usize) }).collect();
            let empty: Vec<P> = (0..n).map(|_| Node::new(0, vec![])).collect();
            let Ok(u) = ChildrenIsolatorUnionExec::from_children_and_weights(empty, w, tasks) else { return Node::new(me, vec![]) };
            let below: Vec<P> = counts(&(Arc::new(u.clone()) as P), tasks).into_iter().map(|t| kid(rng, t)).collect();
            (Arc::new(u) as P).with_new_children(below).unwrap()
        }
        k => {
            let (l, r) = (kid(rng, tasks), kid(rng, tasks));
            let j: P = match k {
                6 => Arc::new(HashJoinExec::try_new(l.clone(), r.clone(), vec![(col(&l), col(&r))], None, &JoinType::Inner, None, PartitionMode::CollectLeft, NullEquality::NullEqualsNothing, false).unwrap()),
                7 => Arc::new(NestedLoopJoinExec::try_new(l, r, None, &JoinType::Inner, None).unwrap()),
                _ => Arc::new(CrossJoinExec::new(l, r)),
            };
            Node::new(me, vec![j])
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Say { Go, Skip, End, Fail }
/// what the function does at its k-th call: its answer, and whether (and how) it replaces the node
type Script = Vec<(Say, u8)>;
fn at(s: &Script, k: usize) -> (Say, u8) { s.get(k).copied().unwrap_or((Say::Go, 0)) }
fn replaced(p: &P, how: u8) -> P {
    let id = 100_000 + how as usize;
    match how {
        1 => Node::new(id, vec![Arc::clone(p)]),
        2 if union(p).is_none() && boundary(p).is_none() => Node::new(id, p.children().into_iter().rev().cloned().collect()),
        3 => Node::new(id, vec![]),
        _ => Arc::clone(p),
    }
}
fn tnr(s: Say) -> Result<TreeNodeRecursion> { match s { Say::Go => Ok(TreeNodeRecursion::Continue), Say::Skip => Ok(TreeNodeRecursion::Jump), Say::End => Ok(TreeNodeRecursion::Stop), Say::Fail => exec_err!("as the script says") } }
/// the reference: `Err(())` ends the walk (with an error or a stop)
struct Ref<'a> { script: &'a Script, log: Vec<String> }
fn boundary(p: &P) -> Option<usize> { p.as_network_boundary().map(|b| b.input_stage().task_count()) }
fn union(p: &P) -> Option<&ChildrenIsolatorUnionExec> { p.downcast_ref::<ChildrenIsolatorUnionExec>() }
fn counts(p: &P, c: usize) -> Vec<usize> {
    if let Some(u) = union(p) { return (0..u.children.len()).map(|i| u.task_idx_map.iter().flatten().filter(|x| x.0 == i).count()).collect(); }
    vec![boundary(p).unwrap_or(c); p.children().len()]
}
impl Ref<'_> {
    fn call(&mut self, p: &P, c: String) -> (Say, u8) { let a = at(self.script, self.log.len()); self.log.push(format!("{} [{c}]", label(p))); a }
    fn read(&mut self, p: &P, c: D) -> std::result::Result<(), ()> {
        match self.call(p, format!("{}/{}", c.task_index, c.task_count)).0 { Say::End | Say::Fail => return Err(()), Say::Skip => return Ok(()), Say::Go => {} }
        if let Some(u) = union(p) { for (i, k) in u.task_idx_map[c.task_index].clone() { self.read(&u.children[i], k)?; } return Ok(()); }
        if boundary(p).is_some() { return Ok(()); }
        for k in p.children() { self.read(k, c)?; }
        Ok(())
    }
    fn path(&mut self, p: &P) -> std::result::Result<(), ()> {
        match self.call(p, String::new()).0 { Say::End | Say::Fail => return Err(()), Say::Skip => return Ok(()), Say::Go => {} }
        let joined = p.is::<HashJoinExec>() || p.is::<NestedLoopJoinExec>() || p.is::<CrossJoinExec>();
        for (i, k) in p.children().into_iter().enumerate() { if !joined || i == 1 { self.path(k)?; } }
        Ok(())
    }
    fn down(&mut self, p: &P, c: D) -> std::result::Result<(), ()> {
        let (say, how) = self.call(p, format!("{}/{}", c.task_index, c.task_count));
        match say { Say::End | Say::Fail => return Err(()), Say::Skip => return Ok(()), Say::Go => {} }
        let p = &replaced(p, how);
        if boundary(p).is_some() { return Ok(()); }
        for (i, k) in p.children().into_iter().enumerate() {
            let as_task = match union(p) { Some(u) => u.task_idx_map[c.task_index].iter().find(|x| x.0 == i).map(|x| x.1), None => Some(c) };
            if let Some(t) = as_task { self.down(k, t)?; }
        }
        Ok(())
    }
    fn down_counts(&mut self, p: &P, c: usize) -> std::result::Result<(), ()> {
        let (say, how) = self.call(p, c.to_string());
        match say { Say::End | Say::Fail => return Err(()), Say::Skip => return Ok(()), Say::Go => {} }
        let p = &replaced(p, how);
        for (k, n) in p.children().into_iter().zip(counts(p, c)) { self.down_counts(k, n)?; }
        Ok(())
    }
    fn up_counts(&mut self, p: &P, c: usize) -> std::result::Result<(), ()> {
        for (k, n) in p.children().into_iter().zip(counts(p, c)) { self.up_counts(k, n)?; }
        match self.call(p, c.to_string()).0 { Say::End | Say::Fail => Err(()), _ => Ok(()) }
    }
}
pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 60_000 } else { 8_000 };
    let mut s = Search::new(&format!("{rounds} random plans of up to 6 levels (isolated unions, boundaries, joins), up to 4 tasks, five walks each, with random answers"));
    let mut rng = Rng::new(seed ^ 0xC20);
    for round in 0..rounds {
        let tasks = 1 + rng.below(4) as usize;
        let depth = 1 + rng.below(5) as usize;
        let p = plan(&mut rng, depth, tasks, &mut 0);
        let d = D { task_index: rng.below(tasks as u64) as usize, task_count: tasks };
        let wild = rng.below(3);
        let script: Script = (0..40).map(|_| if wild == 0 || rng.below(4) != 0 { (Say::Go, 0) } else { (match rng.below(16) { 0 => Say::End, 1 => Say::Fail, 2..=7 => Say::Skip, _ => Say::Go }, rng.below(5) as u8) }).collect();
        let calm: Script = script.iter().map(|x| (if x.0 == Say::Skip { Say::Go } else { x.0 }, 0)).collect();
        let small: Script = script.iter().map(|x| (x.0, if x.1 == 1 { 0 } else { x.1 })).collect();
        for walk in 0..5 {
            let used = if walk == 4 { &calm } else if walk == 3 || walk == 2 { &script } else { &small };
            let mut r = Ref { script: used, log: vec![] };
            let ends = match walk { 0 => r.read(&p, d), 1 => r.path(&p), 2 => r.down(&p, d), 3 => r.down_counts(&p, tasks), _ => r.up_counts(&p, tasks) }.is_err();
            let mut log: Vec<String> = vec![];
            let name = ["apply_with_dt_ctx", "apply_driver_path", "transform_down_with_dt_ctx", "transform_down_with_task_count", "transform_up_with_task_count"][walk];
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let log = &mut log;
                let mut read = |q: &P, c: String| { let a = at(used, log.len()); log.push(format!("{} [{c}]", label(q))); a };
                let change = |q: P, a: (Say, u8)| -> Result<Transformed<P>> { let t = tnr(a.0)?; let go = t == TreeNodeRecursion::Continue; let n = if go { replaced(&q, a.1) } else { q }; Ok(Transformed::new(n, go && a.1 % 4 != 0, t)) };
                match walk {
                    0 => p.apply_with_dt_ctx(d, |q, c| tnr(read(q, format!("{}/{}", c.task_index, c.task_count)).0)),
                    1 => p.apply_driver_path(|q| tnr(read(q, String::new()).0)),
                    2 => p.clone().transform_down_with_dt_ctx(d, |q, c| { let a = read(&q, format!("{}/{}", c.task_index, c.task_count)); change(q, a) }).map(|t| t.tnr),
                    3 => p.clone().transform_down_with_task_count(tasks, |q, c| { let a = read(&q, c.to_string()); change(q, a) }).map(|t| t.tnr),
                    _ => p.clone().transform_up_with_task_count(tasks, |q, c| { let a = read(&q, c.to_string()); change(q, a) }).map(|t| t.tnr),
                }
            }));
            s.case();
            let what = || format!("round {round}: {name}, task {} of {}, over {}; the function answers {used:?}", d.task_index, d.task_count, show(&p));
            match got {
                Err(_) => { s.fail(format!("{}: panics ({})", what(), LAST_PANIC.lock().unwrap().clone())); return s; },
                Ok(t) => {
                    if log != r.log { { s.fail(format!("{}: calls {log:?}, expected {:?}", what(), r.log)); return s; }; }
                    let ended = !matches!(t, Ok(TreeNodeRecursion::Continue | TreeNodeRecursion::Jump));
                    if ended != ends { { s.fail(format!("{}: returns {t:?}", what())); return s; }; }
                }
            }
        }
    }
    s
}
