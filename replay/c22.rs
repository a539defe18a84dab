//! Metrics of random plans, reported by every task and put back on the plan.
use super::common::*;
use super::plans::*;
use crate::coordinator::MetricsStore;
use crate::coordinator::vp_inject::executed;
use crate::execution_plans::{ChildWeight, ChildrenIsolatorUnionExec, MetricsWrapperExec};
use crate::metrics::vp_inject::{RewriteCtx, rewrite_local_plan_with_metrics, stage_metrics_rewriter};
use crate::metrics::{collect_plan_metrics, rewrite_distributed_plan_with_metrics};
use crate::stage::{LocalStage, RemoteStage};
use crate::worker::vp_inject::report;
use crate::*;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{Result, exec_err};
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::EquivalenceProperties;
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::metrics::{Count, Label, Metric, MetricValue, MetricsSet};
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, Partitioning, PhysicalExpr, PlanProperties};
use std::collections::BTreeMap;
use std::sync::Arc;
use uuid::Uuid;
type P = Arc<dyn ExecutionPlan>;
type D = DistributedTaskContext;

#[derive(Debug)]
struct Node { id: usize, below: Vec<P>, set: Option<MetricsSet>, props: Arc<PlanProperties> }
impl Node { fn new(id: usize, below: Vec<P>, set: Option<MetricsSet>) -> P { Arc::new(Node { id, below, set, props: Arc::new(PlanProperties::new(EquivalenceProperties::new(tag_schema()), Partitioning::UnknownPartitioning(2), EmissionType::Incremental, Boundedness::Bounded)) }) } }
impl DisplayAs for Node { fn fmt_as(&self, _t: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Node {}", self.id) } }
impl ExecutionPlan for Node {
    fn name(&self) -> &str { "Node" }
    fn properties(&self) -> &Arc<PlanProperties> { &self.props }
    fn children(&self) -> Vec<&P> { self.below.iter().collect() }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, c: Vec<P>) -> Result<P> { Ok(Node::new(self.id, c, self.set.clone())) }
    fn execute(&self, _p: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { exec_err!("not run") }
    fn metrics(&self) -> Option<MetricsSet> { self.set.clone() }
}
#[derive(Debug, Clone)]
enum Kind { Node, Union(Vec<ChildWeight>, usize), Net { num: usize, tasks: usize, readers: usize } }
#[derive(Debug, Clone)]
struct Sh { id: usize, kind: Kind, below: Vec<Sh> }
/// what node `id` counts in copy `c` of the plan
fn counted(id: usize, c: usize) -> Option<MetricsSet> {
    if id % 5 == 0 { return None; }
    let mut s = MetricsSet::new();
    for j in 0..(id % 4) {
        let n = Count::new();
        n.add(if id % 7 == 0 { j } else { id * 1000 + c * 10 + j });
        let labels = if id % 3 == 0 { vec![Label::new("file", format!("f{j}"))] } else { vec![] };
        let v = if j == 0 { MetricValue::OutputRows(n) } else { MetricValue::Count { name: format!("m{id}_{j}").into(), count: n } };
        s.push(Arc::new(Metric::new_with_labels(v, if j == 2 { None } else { Some(j) }, labels)));
    }
    Some(s)
}
fn sets_of(u: &ChildrenIsolatorUnionExec) -> Vec<usize> { (0..u.children.len()).map(|i| u.task_idx_map.iter().flatten().filter(|x| x.0 == i).count()).collect() }
fn union(w: &[ChildWeight], below: Vec<P>, tasks: usize) -> Result<ChildrenIsolatorUnionExec> { ChildrenIsolatorUnionExec::from_children_and_weights(below, w.to_vec(), tasks) }
fn shape(rng: &mut Rng, depth: usize, tasks: usize, id: &mut usize, num: &mut usize) -> Sh {
    *id += 1;
    let me = *id;
    let leaf = Sh { id: me, kind: Kind::Node, below: vec![] };
    if depth == 0 || rng.below(7) == 0 { return leaf; }
    match rng.below(6) {
        0 | 1 | 2 => { let n = 1 + rng.below(3) as usize; Sh { below: (0..n).map(|_| shape(rng, depth - 1, tasks, id, num)).collect(), ..leaf } }
        3 => {
            *num += 1;
            let (n, t) = (*num, 1 + rng.below(3) as usize);
            Sh { kind: Kind::Net { num: n, tasks: t, readers: tasks }, below: vec![shape(rng, depth - 1, t, id, num)], ..leaf }
        }
        _ => {
            let n = 1 + rng.below(4) as usize;
            let w: Vec<ChildWeight> = (0..n).map(|_| if rng.below(2) == 0 { ChildWeight::desired(rng.below(7) as f64) } else { ChildWeight::maximum(1 + rng.below(3) as usize) }).collect();
            let Ok(u) = union(&w, (0..n).map(|_| Node::new(0, vec![], None)).collect(), tasks) else { return leaf };
            Sh { kind: Kind::Union(w, tasks), below: sets_of(&u).into_iter().map(|t| shape(rng, depth - 1, t, id, num)).collect(), ..leaf }
        }
    }
}
/// a copy of the plan; boundaries read either the plan below them or workers
fn build(s: &Sh, q: Uuid, copy: &dyn Fn(usize) -> Option<usize>, shown: bool) -> P {
    match &s.kind {
        Kind::Node => Node::new(s.id, s.below.iter().map(|k| build(k, q, copy, shown)).collect(), copy(s.id).and_then(|c| counted(s.id, c))),
        Kind::Union(w, tasks) => Arc::new(union(w, s.below.iter().map(|k| build(k, q, copy, shown)).collect(), *tasks).unwrap()),
        Kind::Net { num, tasks, readers } => {
            let below = build(&s.below[0], q, copy, true);
            let b = NetworkCoalesceExec::try_new(Arc::clone(&below), *tasks, *readers).unwrap();
            let stage = if shown { Stage::Local(LocalStage { query_id: q, num: *num, plan: below, tasks: *tasks, metrics_set: MetricsSet::new() }) } else { Stage::Remote(RemoteStage { query_id: q, num: *num, workers: urls(*tasks), runtime_stats: None }) };
            b.with_input_stage(stage).unwrap()
        }
    }
}
fn line(m: &Metric, task: Option<usize>) -> String {
    let mut l: Vec<String> = m.labels().iter().map(|l| format!("{}={}", l.name(), l.value())).collect();
    if let Some(t) = task { l.push(format!("task_id={t}")); }
    format!("{}={} at {:?} [{}]", m.value().name(), m.value().as_usize(), m.partition(), l.join(","))
}
fn lines(s: &MetricsSet) -> Vec<String> { s.iter().map(|m| line(m, None)).collect() }
/// which tasks run which node of a stage
fn runners(s: &Sh, c: D, t: usize, out: &mut BTreeMap<usize, Vec<usize>>) {
    out.entry(s.id).or_default().push(t);
    match &s.kind {
        Kind::Node => for k in &s.below { runners(k, c, t, out) },
        Kind::Net { .. } => {}
        Kind::Union(w, tasks) => { let u = union(w, s.below.iter().map(|_| Node::new(0, vec![], None)).collect(), *tasks).unwrap(); for (i, d) in u.task_idx_map[c.task_index].clone() { runners(&s.below[i], d, t, out); } }
    }
}
/// what every node should show; `by` gives the tasks (or the head) that ran it
fn expect(s: &Sh, by: &BTreeMap<usize, Vec<usize>>, per_task: bool, out: &mut Vec<(usize, Vec<String>)>) {
    let mut all = vec![];
    if matches!(s.kind, Kind::Node) { for t in by.get(&s.id).cloned().unwrap_or_default() { if let Some(m) = counted(s.id, t) { all.extend(m.iter().map(|x| line(x, per_task.then_some(t)))); } } }
    out.push((s.id, all));
    if let Kind::Net { tasks, .. } = &s.kind {
        let mut by = BTreeMap::new();
        for t in 0..*tasks { runners(&s.below[0], D { task_index: t, task_count: *tasks }, t, &mut by); }
        expect(&s.below[0], &by, per_task, out);
    } else { for k in &s.below { expect(k, by, per_task, out); } }
}
fn read(p: &P, s: &Sh, out: &mut Vec<(usize, Vec<String>)>) -> std::result::Result<(), String> {
    let same = match &s.kind { Kind::Node => p.downcast_ref::<Node>().is_some_and(|n| n.id == s.id), Kind::Union(..) => p.is::<ChildrenIsolatorUnionExec>(), Kind::Net { num, tasks, .. } => p.as_network_boundary().is_some_and(|b| b.input_stage().num() == *num && b.input_stage().task_count() == *tasks) };
    if !same || p.children().len() != s.below.len() { return Err(format!("node {} became {}", s.id, show(p))); }
    out.push((s.id, p.metrics().map(|m| lines(&m)).unwrap_or_default()));
    for (k, l) in p.children().into_iter().zip(&s.below) { read(k, l, out)?; }
    Ok(())
}
/// the nodes of a stage, up to boundaries
fn size(s: &Sh) -> usize { 1 + if matches!(s.kind, Kind::Net { .. }) { 0 } else { s.below.iter().map(size).sum() } }
fn nets<'a>(s: &'a Sh, out: &mut Vec<&'a Sh>) { if matches!(s.kind, Kind::Net { .. }) { out.push(s); } for k in &s.below { nets(k, out); } }
fn list(s: &Sh, q: Uuid, t: usize, tasks: usize) -> TaskMetrics { report(&build(s, q, &|_| Some(t), false), D { task_index: t, task_count: tasks }) }
/// a task that ran each node
fn ran_first(s: &Sh, c: D, out: &mut BTreeMap<usize, usize>) {
    let mut all = vec![]; nets(s, &mut all);
    let mut by = BTreeMap::new(); runners(s, c, 0, &mut by);
    for n in all { if let Kind::Net { tasks, .. } = n.kind { for t in 0..tasks { runners(&n.below[0], D { task_index: t, task_count: tasks }, t, &mut by); } } }
    for (i, t) in by { out.insert(i, t[0]); }
}
fn one(rng: &mut Rng, round: usize) -> std::result::Result<usize, String> {
    let q = Uuid::from_u128(round as u128 + 1);
    let (mut id, mut num) = (rng.below(9) as usize, 0);
    let depth = 1 + rng.below(5) as usize;
    let s = shape(rng, depth, 1, &mut id, &mut num);
    let per_task = rng.below(2) == 0;
    let format = || if per_task { DistributedMetricsFormat::PerTask } else { DistributedMetricsFormat::Aggregated };
    // in-process workers leave their counts on the plan that is shown
    let in_process = rng.below(2) == 0;
    let mut ran = BTreeMap::new(); ran_first(&s, D { task_index: 0, task_count: 1 }, &mut ran);
    let shown = build(&s, q, &|i| if in_process { ran.get(&i).copied() } else { None }, true);
    let head = build(&s, q, &|_| Some(0), false);
    let got = lists_of(&collect_plan_metrics(&head).map_err(|e| e.to_string())?);
    let mut want = vec![]; up_to_boundaries(&s, &mut want);
    if got != want { return Err(format!("collect_plan_metrics gives {got:?}, expected {want:?}, over {s:?}")); }
    // a list that is too short, one that is too long
    let full = collect_plan_metrics(&head).map_err(|e| e.to_string())?;
    let keep = rng.below(full.len() as u64) as usize;
    if let Ok(p) = rewrite_local_plan_with_metrics(RewriteCtx::default(), Arc::clone(&shown), full[..keep].to_vec()) { return Err(format!("{keep} sets were enough for {} nodes: {}", full.len(), show(&p))); }
    let mut stages = vec![]; nets(&s, &mut stages);
    let store = Arc::new(MetricsStore::new());
    let (mut all, mut cases) = (vec![], 2);
    for n in &stages {
        let Kind::Net { num, tasks, .. } = n.kind else { unreachable!() };
        for t in 0..tasks {
            let mut l = list(&n.below[0], q, t, tasks);
            let mut by = BTreeMap::new(); runners(&n.below[0], D { task_index: t, task_count: tasks }, t, &mut by);
            if l.pre_order_plan_metrics.len() != by.len() { return Err(format!("task {t} of stage {num} reports {} sets and runs {} nodes, over {s:?}", l.pre_order_plan_metrics.len(), by.len())); }
            if rng.below(12) == 0 { l.pre_order_plan_metrics.push(counted(1, 77).unwrap()); }
            all.push((TaskKey { query_id: q, stage_id: num, task_number: t }, l));
        }
        // without one of the lists, or with one that is too short
        let small = MetricsStore::new();
        let bad = rng.below(tasks as u64) as usize;
        let drop = rng.below(2) == 0;
        for (k, l) in all.iter().filter(|x| x.0.stage_id == num) {
            if k.task_number != bad { small.insert(k.clone(), l.clone()); continue; }
            if !drop { let mut l = l.clone(); let mut by = BTreeMap::new(); runners(&n.below[0], D { task_index: bad, task_count: tasks }, bad, &mut by); l.pre_order_plan_metrics.truncate(rng.below(by.len() as u64) as usize); small.insert(k.clone(), l); }
            else { small.insert(TaskKey { query_id: Uuid::from_u128(9_999_999), ..k.clone() }, l.clone()); }
        }
        let p = build(&n.below[0], q, &|_| None, true);
        let stage = LocalStage { query_id: q, num, plan: p, tasks, metrics_set: MetricsSet::new() };
        if let Ok(p) = stage_metrics_rewriter(&stage, Arc::new(small), format()) { return Err(format!("the metrics of task {bad} of {tasks} are {}, and no error: {}, over {s:?}", if drop { "missing" } else { "too few" }, show(&p))); }
        cases += 1;
    }
    let late = round % 64 == 0 && !all.is_empty();
    let exec: P = Arc::new(executed(Arc::clone(&shown), Arc::clone(&shown), head, Some(Arc::clone(&store))));
    // reports come in any order
    for i in (1..all.len()).rev() { all.swap(i, rng.below(i as u64 + 1) as usize); }
    let last = if late { all.pop() } else { None };
    for (k, l) in all { store.insert(k, l); }
    let done = block_on(async {
        let f = tokio::spawn(rewrite_distributed_plan_with_metrics(exec, format()));
        if let Some((k, l)) = last { tokio::time::sleep(std::time::Duration::from_millis(3)).await; store.insert(k, l); }
        tokio::time::timeout(std::time::Duration::from_secs(20), f).await
    });
    let p = match done { Err(_) => return Err(format!("all tasks have reported and the plan still waits, over {s:?}")), Ok(Err(e)) => return Err(format!("panics ({e}; {}), over {s:?}", LAST_PANIC.lock().unwrap().clone())), Ok(Ok(Err(e))) => return Err(format!("fails ({e}), over {s:?}")), Ok(Ok(Ok(p))) => p };
    let inner = Arc::clone(p.children()[0]);
    let mut got = vec![]; read(&inner, &s, &mut got).map_err(|e| format!("{e}, over {s:?}"))?;
    let mut by = BTreeMap::new(); runners(&s, D { task_index: 0, task_count: 1 }, 0, &mut by);
    let mut want = vec![]; expect(&s, &by, per_task, &mut want);
    if got != want { let d = got.iter().zip(&want).find(|(a, b)| a != b); return Err(format!("(node, metrics) shown and expected: {d:?} ({}), over {s:?}", if per_task { "per task" } else { "aggregated" })); }
    Ok(cases + 1)
}
fn lists_of(v: &[MetricsSet]) -> Vec<Vec<String>> { v.iter().map(lines).collect() }
fn up_to_boundaries(s: &Sh, out: &mut Vec<Vec<String>>) {
    out.push(if matches!(s.kind, Kind::Node) { counted(s.id, 0).map(|m| lines(&m)).unwrap_or_default() } else { vec![] });
    if !matches!(s.kind, Kind::Net { .. }) { for k in &s.below { up_to_boundaries(k, out); } }
}
/// a wrapper shows what it was given, and what the node inside counted besides
fn wrapped(rng: &mut Rng) -> std::result::Result<(), String> {
    let mut set = |rng: &mut Rng| { let mut s = MetricsSet::new(); for _ in 0..rng.below(5) { let n = Count::new(); n.add(rng.below(2) as usize); s.push(Arc::new(Metric::new_with_labels(if rng.below(2) == 0 { MetricValue::OutputRows(n) } else { MetricValue::Count { name: "c".into(), count: n } }, match rng.below(3) { 0 => None, p => Some(p as usize) }, vec![Label::new("n", rng.below(100).to_string())]))); } s };
    let (given, own) = (set(rng), set(rng));
    let inside = if rng.below(4) == 0 { None } else { Some(own) };
    let got = MetricsWrapperExec::new(Node::new(1, vec![], inside.clone()), given.clone()).metrics().map(|m| lines(&m)).unwrap_or_default();
    let mut want = lines(&given);
    for m in inside.iter().flat_map(|s| s.iter()) { if !given.iter().any(|g| g.value().name() == m.value().name() && g.value().as_usize() == m.value().as_usize() && g.partition() == m.partition()) { want.push(line(m, None)); } }
    if got != want { return Err(format!("a node that counted {:?}, given {:?}, shows {got:?}", inside.map(|s| lines(&s)), lines(&given))); }
    Ok(())
}
/// a task on a worker reports once, what it ran, when the messages of the coordinator are over
async fn at_the_end(rng: &mut Rng) -> std::result::Result<(), String> {
    use futures::StreamExt;
    let (nodes, parts, tasks) = (1 + rng.below(3) as usize, 1 + rng.below(3) as usize, 1 + rng.below(3) as usize);
    let (asked, run, broken) = (rng.below(4) > 0, rng.below(4) > 0, rng.below(3) == 0);
    let mut plan: P = Arc::new(Tag::new(1, parts, None, None));
    for i in 1..nodes { plan = Arc::new(Tag::new(1 + i, parts, None, Some(plan))); }
    let case = format!("a task of {tasks} that {} {} with {nodes} nodes and {parts} partitions, asked to report: {asked}, whose coordinator {}", if run { "runs" } else { "is sent but does not run" }, show(&plan), if broken { "fails" } else { "ends" });
    let mut cfg = datafusion::prelude::SessionConfig::new();
    crate::config_extension_ext::set_distributed_option_extension(&mut cfg, DistributedConfig::default());
    cfg.set_distributed_metrics_collection(asked).unwrap();
    let h = crate::config_extension_ext::get_config_extension_propagation_headers(&cfg).unwrap();
    let w = Worker::default();
    let url = url::Url::parse("http://w0:1").unwrap();
    let key = TaskKey { query_id: Uuid::from_u128(1), stage_id: 1, task_number: rng.below(tasks as u64) as usize };
    let (tx, rx) = futures::channel::mpsc::unbounded();
    let q = SetPlanRequest { task_key: key, task_count: tasks, plan: MaybeEncoded::Decoded(plan), work_unit_feed_declarations: vec![], target_worker_url: url.clone(), query_start_time_ns: 0 };
    let reply = w.coordinator_channel(h.clone(), q, rx.boxed()).await.map_err(|e| format!("{case}: {e}"))?;
    if run {
        let ctx = datafusion::prelude::SessionContext::new().task_ctx();
        let r = ExecuteTaskRequest { task_key: key, target_partition_start: 0, target_partition_end: parts, producer_head: ProducerHead::None };
        let sts = w.to_local_worker_context(url).to_worker_channel().execute_task(h, r, Default::default(), &ctx).await.map_err(|e| format!("{case}: {e}"))?;
        for mut st in sts { while let Some(b) = st.next().await { b.map_err(|e| format!("{case}: {e}"))?; } }
    }
    if broken { let _ = tx.unbounded_send(Err(datafusion::error::DataFusionError::Execution("gone".into()))); }
    drop(tx);
    let (mut ends, mut lists) = (0, vec![]);
    let all = tokio::time::timeout(std::time::Duration::from_secs(60), reply.collect::<Vec<_>>()).await.map_err(|_| format!("{case}: the reply does not end"))?;
    for m in all {
        match m.map_err(|e| format!("{case}: {e}"))? {
            WorkerToCoordinatorMsg::TaskMetrics(m) => lists.push(m.pre_order_plan_metrics.len()),
            WorkerToCoordinatorMsg::LoadInfoEos => ends += 1,
            WorkerToCoordinatorMsg::LoadInfo(_) => return Err(format!("{case}: a load report without a sampler")),
        }
    }
    let want = if asked && run { vec![nodes] } else { vec![] };
    if lists != want || ends != 1 { return Err(format!("{case}: reports {lists:?} (nodes per report), expected {want:?}; {ends} ends of load reports")); }
    Ok(())
}
pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 40_000 } else { 5_000 };
    let mut s = Search::new(&format!("{rounds} random plans of up to 6 levels (isolated unions, nested boundaries, nodes with and without metrics), up to 3 tasks per stage, both formats, complete, missing, short, long and late lists; {} tasks on a worker, run or not, whose coordinator ends or fails", rounds / 20));
    let mut rng = Rng::new(seed ^ 0xC22);
    for _ in 0..2_000 { s.case(); if let Err(e) = wrapped(&mut rng) { s.fail(e); return s; } }
    for _ in 0..rounds / 20 { s.case(); if let Err(e) = block_on(at_the_end(&mut rng)) { s.fail(e); return s; } }
    for round in 0..rounds {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&mut rng, round))) {
            Ok(Ok(n)) => for _ in 0..n { s.case() },
            Ok(Err(e)) => { s.case(); s.fail(format!("round {round}: {e}")); return s; }
            Err(_) => { s.case(); s.fail(format!("round {round}: panics ({})", LAST_PANIC.lock().unwrap().clone())); return s; }
        }
    }
    s
}
