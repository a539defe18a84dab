//! C17: each task is sent to one worker, the one its readers will contact.
use super::common::*;
use super::plans::*;
use crate::coordinator::vp_inject::prepare;
use crate::distributed_planner::inject_network_boundaries::{inject_network_boundaries, CardinalityBasedNetworkBoundaryBuilder};
use crate::events::{random_routing, single_task_child_url_routing, single_task_coordinator_routing};
use crate::execution_plans::SamplerExec;
use crate::*;
use async_trait::async_trait;
use datafusion::arrow::array::RecordBatch;
use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
use datafusion::common::Result;
use datafusion::error::DataFusionError;
use datafusion::execution::{SessionStateBuilder, TaskContext};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use datafusion::prelude::{SessionConfig, SessionContext};
use futures::stream::{self, BoxStream, StreamExt};
use http::HeaderMap;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use url::Url;

/// one plan that a worker got
#[derive(Clone)]
struct Got { at: String, target: String, task: usize, tasks: usize, stage: usize, query: u128, plan: Arc<dyn ExecutionPlan> }
#[derive(Clone, Default)]
struct Log { got: Arc<Mutex<Vec<Got>>>, amount: usize }
struct LogChannel { url: Url, log: Log }
#[async_trait]
impl ChannelResolver for Log {
    async fn get_worker_client_for_url(&self, url: &Url) -> Result<Box<dyn WorkerChannel>, DataFusionError> { Ok(Box::new(LogChannel { url: url.clone(), log: self.clone() })) }
}
#[async_trait]
impl WorkerChannel for LogChannel {
    async fn coordinator_channel(&mut self, _h: HeaderMap, s: SetPlanRequest, _c: BoxStream<'static, CoordinatorToWorkerMsg>, _m: ExecutionPlanMetricsSet, _t: &Arc<TaskContext>) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
        let MaybeEncoded::Decoded(plan) = s.plan else { return Err(DataFusionError::Internal("encoded".into())) };
        let (cols, parts) = (plan.schema().fields().len(), plan.output_partitioning().partition_count());
        self.log.got.lock().unwrap().push(Got { at: self.url.to_string(), target: s.target_worker_url.to_string(), task: s.task_key.task_number, tasks: s.task_count, stage: s.task_key.stage_id, query: s.task_key.query_id.as_u128(), plan });
        let amount = self.log.amount;
        let mut out: Vec<Result<WorkerToCoordinatorMsg>> = (0..parts).map(|p| Ok(WorkerToCoordinatorMsg::LoadInfo(LoadInfo { partition: p, rows_ready: amount, per_column_bytes_ready: vec![amount * 8; cols], per_column_ndv_percentage: vec![0.5; cols], per_column_null_percentage: vec![0.; cols], rows_pulled_from_leaf: amount, reached_eos: true }))).collect();
        out.push(Ok(WorkerToCoordinatorMsg::LoadInfoEos));
        Ok(stream::iter(out).boxed())
    }
    async fn execute_task(&mut self, _h: HeaderMap, _r: ExecuteTaskRequest, _m: ExecutionPlanMetricsSet, _t: &Arc<TaskContext>) -> Result<Vec<BoxStream<'static, Result<RecordBatch>>>> { Ok(vec![]) }
    async fn get_worker_info(&mut self, _r: GetWorkerInfoRequest) -> Result<GetWorkerInfoResponse> { Ok(GetWorkerInfoResponse { version: "".into() }) }
}
fn context(cfg: SessionConfig) -> Arc<TaskContext> {
    SessionContext::from(SessionStateBuilder::new().with_default_features().with_config(cfg).with_distributed_planner().build()).task_ctx()
}
/// the boundaries of one plan that point at planned stages
fn remotes(p: &Arc<dyn ExecutionPlan>, out: &mut Vec<(u128, usize, Vec<String>)>, local: &mut usize) {
    p.apply(|n| {
        if let Some(nb) = n.as_network_boundary() {
            match nb.input_stage() {
                Stage::Remote(r) => out.push((r.query_id.as_u128(), r.num, r.workers.iter().map(|u| u.to_string()).collect())),
                Stage::Local(_) => *local += 1,
            }
            return Ok(TreeNodeRecursion::Jump);
        }
        Ok(TreeNodeRecursion::Continue)
    }).unwrap();
}

pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 20000 } else { 2500 };
    let mut s = Search::new(&format!("{rounds} random plans of depth 5 dispatched statically and dynamically to 0..=6 logging workers, with the default routing, with custom routing (any number of addresses) and with a worker that coordinates; default routing of 0..=12 tasks over 0..=6 workers; plans without partitions"));
    let mut r = Rng::new(seed);
    block_on(async {
        routing(&mut s);
        if s.failed() { return; }
        for dynamic in [false, true] {
            for tasks in 1..=3 {
                s.case();
                let p: Arc<dyn ExecutionPlan> = Arc::new(CoalescePartitionsExec::new(Arc::new(Tag::new(1, 0, Some(TaskCountAnnotation::Desired(tasks)), None))));
                dispatch(&mut s, p, 3, 0, dynamic, None, 5, false).await;
                if s.failed() { return; }
            }
        }
        for i in 0..rounds {
            s.case();
            let p = Gen { r: &mut r, next: 0, shape: Shape { big: false, ..Shape::ALL } }.plan(5);
            let custom = if r.chance(1, 4) { Some(r.below(4) as i64 - 1) } else { None };
            let (workers, max, amount, me) = (r.below(7) as usize, *r.pick(&[0usize, 0, 2, 3, 5]), *r.pick(&[0usize, 1, 1000, 1 << 24, 1 << 40]), r.chance(1, 5));
            dispatch(&mut s, p, workers, max, i % 2 == 1, custom, amount, me).await;
            if s.failed() { return; }
        }
    });
    s
}

async fn dispatch(s: &mut Search, plan: Arc<dyn ExecutionPlan>, workers: usize, max: usize, dynamic: bool, custom: Option<i64>, amount: usize, me: bool) {
    let log = Log { amount, ..Default::default() };
    let mut cfg = tag_session(workers, max, true);
    crate::protocol::set_distributed_channel_resolver(&mut cfg, log.clone());
    // custom routing: task t of n goes to address (3 t + n) mod 5 of its own list; `custom` addresses too many or too few
    let pool = urls(5);
    if let Some(off) = custom {
        let pool = pool.clone();
        cfg.set_distributed_route_tasks_handler(move |ev: RouteTasksEvent| {
            let n = (ev.task_count as i64 + off).max(0) as usize;
            Some(Ok(RouteTasksEventResponse::new((0..n).map(|t| pool[(3 * t + ev.task_count) % 5].clone()).collect())))
        });
    }
    let _ = me;
    let shown = format!("{} {workers} workers, limit {max}, routing {custom:?}, {amount} rows per sample: {}", if dynamic { "dynamic" } else { "static" }, show(&plan));
    let ctx = context(cfg.clone());
    let f = async {
        let planned = if dynamic { plan } else { inject_network_boundaries(plan, CardinalityBasedNetworkBoundaryBuilder, ctx.session_config()).await? };
        let mut stages = 0;
        planned.apply(|n| { stages += n.is_network_boundary() as usize; Ok(TreeNodeRecursion::Continue) })?;
        Ok::<_, DataFusionError>((stages, prepare(&ctx, &planned, dynamic).await?))
    };
    let r = match futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(f)).await {
        Err(_) => return s.fail(format!("{shown} panics at {}", LAST_PANIC.lock().unwrap())),
        Ok(r) => r,
    };
    let got = log.got.lock().unwrap().clone();
    // what was sent is in order even if planning failed later
    let mut stages: BTreeMap<(u128, usize), BTreeMap<usize, Got>> = BTreeMap::new();
    for g in &got {
        if g.at != g.target { return s.fail(format!("{shown}: a plan for {} was sent to {}", g.target, g.at)); }
        if let Some(o) = stages.entry((g.query, g.stage)).or_default().insert(g.task, g.clone()) { return s.fail(format!("{shown}: task {} of stage {} was sent to {} and to {}", g.task, g.stage, o.at, g.at)); }
    }
    let (n_stages, (head, viz)) = match r {
        Ok(x) => x,
        Err(e) => {
            let e = e.to_string();
            let no_workers = workers == 0 && custom.is_none();
            let bad = custom.is_some_and(|c| c != 0);
            s.check(no_workers || bad || e.contains("must have same") || e.contains("schema"), || format!("{shown}: {e}"));
            return;
        }
    };
    for (k, t) in &stages {
        let n = t.values().next().unwrap().tasks;
        let all: Vec<usize> = t.keys().copied().collect();
        s.check(all == (0..n).collect::<Vec<_>>() && t.values().all(|g| g.tasks == n), || format!("{shown}: stage {} of {n} tasks got plans for the tasks {all:?}", k.1));
        if custom.is_some() {
            for g in t.values() { s.check(g.at == pool[(3 * g.task + n) % 5].to_string(), || format!("{shown}: task {} of stage {} was routed to {} but sent to {}", g.task, k.1, pool[(3 * g.task + n) % 5], g.at)); }
        } else if n > 1 || workers > 0 {
            let known: BTreeSet<String> = urls(workers).iter().map(|u| u.to_string()).collect();
            let mut per: BTreeMap<&str, usize> = known.iter().map(|k| (k.as_str(), 0)).collect();
            for g in t.values() { match per.get_mut(g.at.as_str()) { Some(c) => *c += 1, None => { return s.fail(format!("{shown}: task {} was sent to the unknown {}", g.task, g.at)); } } }
            let (lo, hi) = (per.values().min().unwrap_or(&0), per.values().max().unwrap_or(&0));
            s.check(hi - lo <= 1, || format!("{shown}: the {n} tasks of stage {} are spread {per:?}", k.1));
        }
    }
    // readers contact the address that got the plan
    let mut seen = BTreeSet::new();
    for (who, p) in std::iter::once(("the head stage".to_string(), &head)).chain(got.iter().map(|g| (format!("task {} of stage {}", g.task, g.stage), &g.plan))) {
        let (mut out, mut local) = (vec![], 0);
        remotes(p, &mut out, &mut local);
        s.check(local == 0, || format!("{shown}: {who} reads a stage that was not dispatched"));
        for (q, num, w) in out {
            seen.insert((q, num));
            let sent: Vec<String> = stages.get(&(q, num)).map(|t| t.values().map(|g| g.at.clone()).collect()).unwrap_or_default();
            s.check(sent == w, || format!("{shown}: {who} reads stage {num} at {w:?}, its tasks were sent to {sent:?}"));
        }
    }
    s.check(stages.keys().all(|k| seen.contains(k)), || format!("{shown}: {} stages were dispatched, {} are read", stages.len(), seen.len()));
    if !dynamic { s.check(n_stages == stages.len(), || format!("{shown}: {n_stages} stages planned, {} dispatched", stages.len())); }
    let cap = if max == 0 { workers.max(1) } else { max };
    for (k, t) in &stages { s.check(!t.is_empty() && t.len() <= cap, || format!("{shown}: stage {} has {} tasks, the limit is {cap}", k.1, t.len())); }
    // the plan shown has the same stages with the same numbers of tasks
    let mut shown_stages = BTreeMap::new();
    viz.apply(|n| { if let Some(nb) = n.as_network_boundary() { shown_stages.insert(nb.input_stage().num(), nb.input_stage().task_count()); } Ok(TreeNodeRecursion::Continue) }).unwrap();
    let real: BTreeMap<usize, usize> = stages.iter().map(|(k, t)| (k.1, t.len())).collect();
    s.check(shown_stages == real, || format!("{shown}: stages shown {shown_stages:?}, dispatched {real:?}"));
    let _ = SamplerExec::new;
}

/// the built-in routing handlers
fn routing(s: &mut Search) {
    for workers in 0..=6usize {
        for tasks in 0..=12usize {
            for _ in 0..8 {
                s.case();
                let ctx = context(tag_session(workers, 0, true));
                let plan: Arc<dyn ExecutionPlan> = Arc::new(Tag::new(1, 1, None, None));
                let ev = RouteTasksEvent { task_ctx: ctx, plan: &plan, task_count: tasks };
                let shown = format!("{tasks} tasks over {workers} workers");
                match random_routing(ev) {
                    None => s.fail(format!("{shown}: not routed")),
                    Some(Err(e)) => s.check(workers == 0, || format!("{shown}: {e}")),
                    Some(Ok(r)) => {
                        if workers == 0 { return s.fail(format!("{shown}: routed to {:?}", r.urls)); }
                        let known = urls(workers);
                        let per: Vec<usize> = known.iter().map(|k| r.urls.iter().filter(|u| *u == k).count()).collect();
                        s.check(r.urls.len() == tasks && per.iter().sum::<usize>() == tasks && per.iter().max().unwrap() - per.iter().min().unwrap() <= 1, || format!("{shown}: {:?}", r.urls));
                    }
                }
            }
        }
    }
    // a coordinator that is a worker takes single tasks only
    for tasks in 0..=3usize {
        for me in [false, true] {
            s.case();
            let mut cfg = tag_session(3, 0, true);
            let own = Url::parse("http://me:1").unwrap();
            if me { cfg.set_extension(Arc::new(LocalWorkerContext { self_url: own.clone(), local_worker: Worker::default() })); }
            let ctx = context(cfg);
            let plan: Arc<dyn ExecutionPlan> = Arc::new(Tag::new(1, 1, None, None));
            let r = single_task_coordinator_routing(RouteTasksEvent { task_ctx: ctx, plan: &plan, task_count: tasks });
            let want = me && tasks == 1;
            match r { None => s.check(!want, || format!("{tasks} tasks, own worker {me}: not taken")), Some(r) => s.check(want && r.is_ok_and(|r| r.urls == vec![own.clone()]), || format!("{tasks} tasks, own worker {me}: taken")) }
        }
        // a single task joins the only worker of a stage below it
        for below in 0..=3usize {
            s.case();
            let props = Arc::clone(Tag::new(1, 1, None, None).properties());
            let mk = |n| -> Arc<dyn ExecutionPlan> { Arc::new(NetworkCoalesceExec::try_from_stage(remote(n), Arc::clone(&props), 1).unwrap()) };
            let plan: Arc<dyn ExecutionPlan> = Arc::new(CoalescePartitionsExec::new(mk(below)));
            let r = single_task_child_url_routing(RouteTasksEvent { task_ctx: context(tag_session(3, 0, true)), plan: &plan, task_count: tasks });
            match r { None => {}, Some(Err(e)) => s.fail(e.to_string()), Some(Ok(r)) => s.check(tasks == 1 && r.urls.len() == 1 && urls(below).contains(&r.urls[0]), || format!("{tasks} tasks over a stage of {below}: {:?}", r.urls)) }
        }
    }
}
