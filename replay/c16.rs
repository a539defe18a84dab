//! C16: options and headers reach the workers exactly as the user set them.
use super::common::*;
use super::plans::*;
use crate::config_extension_ext::{get_config_extension_propagation_headers, set_distributed_option_extension, set_distributed_option_extension_from_headers};
use crate::coordinator::vp_inject::prepare;
use crate::distributed_planner::inject_network_boundaries::{inject_network_boundaries, CardinalityBasedNetworkBoundaryBuilder};
use crate::passthrough_headers::{get_passthrough_headers, set_passthrough_headers};
use crate::*;
use async_trait::async_trait;
use datafusion::arrow::array::RecordBatch;
use datafusion::common::Result;
use datafusion::config::{ConfigEntry, ConfigExtension, ExtensionOptions};
use datafusion::error::DataFusionError;
use datafusion::execution::{SessionStateBuilder, TaskContext};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::prelude::{SessionConfig, SessionContext};
use futures::stream::{self, BoxStream, StreamExt};
use http::{HeaderMap, HeaderName, HeaderValue};
use std::any::Any;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use url::Url;

/// options by name; the default has every known name with a default value
type Options = BTreeMap<String, Option<String>>;
macro_rules! extensions {
    ($($t:ident $prefix:literal [$($key:literal $dflt:expr),*];)*) => {
        $(
            #[derive(Clone, Debug)]
            struct $t(Options);
            impl Default for $t { fn default() -> Self { $t([$(($key.to_string(), { let d: Option<&str> = $dflt; d.map(|x| x.to_string()) })),*].into_iter().collect()) } }
            impl ConfigExtension for $t { const PREFIX: &'static str = $prefix; }
            impl ExtensionOptions for $t {
                fn as_any(&self) -> &dyn Any { self }
                fn as_any_mut(&mut self) -> &mut dyn Any { self }
                fn cloned(&self) -> Box<dyn ExtensionOptions> { Box::new(self.clone()) }
                fn set(&mut self, k: &str, v: &str) -> Result<()> {
                    match self.0.get_mut(k) { Some(x) => { *x = Some(v.to_string()); Ok(()) } None => Err(DataFusionError::Configuration(format!("unknown option {k}"))) }
                }
                fn entries(&self) -> Vec<ConfigEntry> { self.0.iter().map(|(k, v)| ConfigEntry { key: k.clone(), value: v.clone(), description: "" }).collect() }
            }
        )*
        const COUNT: usize = [$($prefix),*].len();
        const PREFIXES: [&str; COUNT] = [$($prefix),*];
        fn defaults() -> Vec<Options> { vec![$($t::default().0),*] }
        fn register(i: usize, cfg: &mut SessionConfig, o: Options) { let mut n = 0; $( if i == n { set_distributed_option_extension(cfg, $t(o.clone())); } n += 1; )* let _ = n; }
        fn receive(i: usize, cfg: &mut SessionConfig, h: &HeaderMap) -> Result<Options> { let mut n = 0; $( if i == n { return set_distributed_option_extension_from_headers::<$t>(cfg, h).map(|t| t.0.clone()); } n += 1; )* let _ = n; unreachable!() }
        fn present(i: usize, cfg: &SessionConfig) -> Option<Options> { let mut n = 0; $( if i == n { return cfg.options().extensions.get::<$t>().map(|t| t.0.clone()); } n += 1; )* let _ = n; None }
    };
}
extensions! {
    A "a" ["k" Some("0"), "a.k" Some("1"), "a.a.k" None, "x" None, "b.k" Some("2")];
    B "b" ["k" Some("zero"), "a.k" Some("one"), "b.k" Some("")];
    Al "al" ["k" Some("0"), "pha.k" None, "l.k" Some("d")];
    Alpha "alpha" ["k" Some("0"), "long_name_of_an_option" Some("true"), "n-1" None];
    Upper "Upper" ["Key" Some("0"), "lower" Some("1"), "MixedCase.Sub" None];
    Res "x-datafusion-distributed-config-a" ["k" Some("5"), "a.k" None];
}
fn value(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "a.k".into(),
        2 => "x-datafusion-distributed-config-a.k".into(),
        3 => format!("{}", r.below(1000)),
        4 => "true".into(),
        5 => "a b, c; d=\"e\" % ~!".into(),
        6 => "v".repeat(200),
        _ => (0..r.range(1, 8)).map(|_| (33 + r.below(94) as u8) as char).collect(),
    }
}
fn pass(r: &mut Rng) -> HeaderMap {
    let names = ["a.k", "k", "alpha.k", "upper.key", "x-custom", "x-datafusion-distributed-config", "x-datafusion-distributed-other", "xx-datafusion-distributed-config-a.k", "b.k", "authorization"];
    let mut h = HeaderMap::new();
    for _ in 0..r.below(4) { h.append(HeaderName::from_static(*r.pick(&names[..])), HeaderValue::from_str(&value(r)).unwrap()); }
    h
}

pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 60000 } else { 8000 };
    let mut s = Search::new(&format!("{rounds} random configurations of up to {COUNT} extensions (prefixes that contain one another, repeated prefixes in keys, upper case, options without a value) with random values of printable characters, random pass-through headers whose names resemble options, and workers that know any of the extensions; values that no header can carry; headers of plans sent by the coordinator; sessions of tasks on a worker"));
    let mut r = Rng::new(seed);
    for _ in 0..rounds {
        s.case();
        one(&mut s, &mut r);
        if s.failed() { return s; }
    }
    // a value no header can carry makes the query fail rather than change it
    for v in ["\n", "line\nbreak", "\u{0}"] {
        s.case();
        let mut cfg = SessionConfig::new();
        let mut o = defaults()[0].clone();
        o.insert("k".into(), Some(v.into()));
        register(0, &mut cfg, o);
        s.check(get_config_extension_propagation_headers(&cfg).is_err(), || format!("the value {v:?} is sent as a header"));
    }
    for n in ["x-datafusion-distributed-config-", "x-datafusion-distributed-config-a.k", "x-datafusion-distributed-config-zzz"] {
        s.case();
        let mut h = HeaderMap::new();
        h.insert("x-ok", HeaderValue::from_static("1"));
        h.insert(HeaderName::from_static(n), HeaderValue::from_static("evil"));
        let mut cfg = SessionConfig::new();
        let e = set_passthrough_headers(&mut cfg, h);
        s.check(e.is_err() && get_passthrough_headers(&cfg).is_empty(), || format!("pass-through header {n} is accepted"));
    }
    block_on(async {
        for _ in 0..(rounds / 100) {
            s.case();
            sent(&mut s, &mut r).await;
            session(&mut s, &mut r).await;
            if s.failed() { return; }
        }
    });
    s
}
fn client(r: &mut Rng, cfg: &mut SessionConfig) -> Vec<Option<Options>> {
    let mut out = vec![];
    for (i, d) in defaults().into_iter().enumerate() {
        if r.chance(1, 3) { out.push(None); continue; }
        let mut o = d;
        for v in o.values_mut() { match r.below(3) { 0 => *v = Some(value(r)), 1 => *v = None, _ => {} } }
        register(i, cfg, o.clone());
        out.push(Some(o));
    }
    out
}
fn one(s: &mut Search, r: &mut Rng) {
    let mut cfg = SessionConfig::new();
    let set = client(r, &mut cfg);
    // extensions that are present but not to be propagated
    let p = pass(r);
    if let Err(e) = set_passthrough_headers(&mut cfg, p.clone()) { return s.fail(format!("pass-through headers {p:?} are refused: {e}")); }
    let shown = format!("options {:?}, pass-through {p:?}", set.iter().enumerate().filter_map(|(i, o)| o.as_ref().map(|o| (PREFIXES[i], o))).collect::<Vec<_>>());
    let mut h = match get_config_extension_propagation_headers(&cfg) { Ok(h) => h, Err(e) => return s.fail(format!("{shown}: {e}")) };
    let got = get_passthrough_headers(&cfg);
    s.check(got == p, || format!("{shown}: the pass-through headers are {got:?}"));
    h.extend(got);
    received(s, r, &shown, &set, &h);
}
/// a worker that gets the headers `h`
fn received(s: &mut Search, r: &mut Rng, shown: &str, set: &[Option<Options>], h: &HeaderMap) {
    let mut w = SessionConfig::new();
    for (i, d) in defaults().into_iter().enumerate() {
        if r.chance(1, 4) { continue; }
        // the worker may have values of its own for it already
        let mut base = d.clone();
        if r.chance(1, 3) { for v in base.values_mut() { if r.chance(1, 2) { *v = Some("worker".into()); } } register(i, &mut w, base.clone()); }
        let mut want = base;
        if let Some(o) = &set[i] { for (k, v) in o { if v.is_some() { want.insert(k.clone(), v.clone()); } } }
        match receive(i, &mut w, h) {
            Err(e) => return s.fail(format!("{shown}: worker fails to take the options of {}: {e}", PREFIXES[i])),
            Ok(o) => s.check(o == want && present(i, &w).as_ref() == Some(&want), || format!("{shown}: the worker has {o:?} for {}, expected {want:?}", PREFIXES[i])),
        }
    }
}

#[derive(Clone, Default)]
struct Log(Arc<Mutex<Vec<HeaderMap>>>);
#[async_trait]
impl ChannelResolver for Log { async fn get_worker_client_for_url(&self, _u: &Url) -> Result<Box<dyn WorkerChannel>, DataFusionError> { Ok(Box::new(self.clone())) } }
#[async_trait]
impl WorkerChannel for Log {
    async fn coordinator_channel(&mut self, h: HeaderMap, _s: SetPlanRequest, _c: BoxStream<'static, CoordinatorToWorkerMsg>, _m: ExecutionPlanMetricsSet, _t: &Arc<TaskContext>) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
        self.0.lock().unwrap().push(h);
        Ok(stream::empty().boxed())
    }
    async fn execute_task(&mut self, h: HeaderMap, _r: ExecuteTaskRequest, _m: ExecutionPlanMetricsSet, _t: &Arc<TaskContext>) -> Result<Vec<BoxStream<'static, Result<RecordBatch>>>> {
        self.0.lock().unwrap().push(h);
        Ok((_r.target_partition_start.._r.target_partition_end).map(|_| stream::empty().boxed()).collect())
    }
    async fn get_worker_info(&mut self, _r: GetWorkerInfoRequest) -> Result<GetWorkerInfoResponse> { Ok(GetWorkerInfoResponse { version: "".into() }) }
}
/// what the coordinator sends along with a plan, and a reader with its request
async fn sent(s: &mut Search, r: &mut Rng) {
    let log = Log::default();
    let mut cfg = tag_session(3, 0, true);
    crate::protocol::set_distributed_channel_resolver(&mut cfg, log.clone());
    let set = client(r, &mut cfg);
    let p = pass(r);
    set_passthrough_headers(&mut cfg, p.clone()).unwrap();
    let shown = format!("dispatch with options {set:?}, pass-through {p:?}");
    let ctx = SessionContext::from(SessionStateBuilder::new().with_default_features().with_config(cfg).with_distributed_planner().build()).task_ctx();
    let plan: Arc<dyn ExecutionPlan> = Arc::new(CoalescePartitionsExec::new(Arc::new(Tag::new(1, 2, Some(TaskCountAnnotation::Desired(2)), None))));
    let plan = inject_network_boundaries(plan, CardinalityBasedNetworkBoundaryBuilder, ctx.session_config()).await.unwrap();
    let (head, _) = match prepare(&ctx, &plan, false).await { Ok(x) => x, Err(e) => return s.fail(format!("{shown}: {e}")) };
    let hs = std::mem::take(&mut *log.0.lock().unwrap());
    s.check(hs.len() == 2, || format!("{shown}: {} plans sent", hs.len()));
    for h in hs {
        received(s, r, &shown, &set, &h);
        for k in p.keys() { s.check(h.get_all(k).iter().collect::<Vec<_>>() == p.get_all(k).iter().collect::<Vec<_>>(), || format!("{shown}: pass-through header {k} became {:?}", h.get_all(k).iter().collect::<Vec<_>>())); }
    }
    if let Ok(st) = head.execute(0, Arc::clone(&ctx)) { let _ = drain(st).await; }
    let hs = std::mem::take(&mut *log.0.lock().unwrap());
    s.check(!hs.is_empty(), || format!("{shown}: nothing was read"));
    for h in hs { for k in p.keys() { s.check(h.get_all(k).iter().collect::<Vec<_>>() == p.get_all(k).iter().collect::<Vec<_>>(), || format!("{shown}: the reader's request has {:?} for pass-through header {k}", h.get_all(k).iter().collect::<Vec<_>>())); } }
}

type Seen = (SessionConfig, HeaderMap);
#[derive(Clone, Default)]
struct Keep(Arc<Mutex<Vec<Seen>>>);
#[async_trait]
impl WorkerSessionBuilder for Keep {
    async fn build_session_state(&self, ctx: WorkerQueryContext) -> Result<datafusion::execution::SessionState, DataFusionError> {
        let st = ctx.builder.build();
        self.0.lock().unwrap().push((st.config().clone(), ctx.headers));
        Ok(st)
    }
}
fn entries(c: &SessionConfig) -> BTreeMap<String, Option<String>> {
    DistributedConfig::from_config_options(c.options()).map(|d| d.entries().into_iter().map(|e| (e.key, e.value)).collect()).unwrap_or_default()
}
/// the session a worker makes for a task
async fn session(s: &mut Search, r: &mut Rng) {
    let mut cfg = SessionConfig::new();
    set_distributed_option_extension(&mut cfg, DistributedConfig::default());
    cfg.set_distributed_shuffle_batch_size(if r.chance(1, 3) { 0 } else { 1 + r.below(20000) as usize }).unwrap();
    cfg.set_distributed_metrics_collection(r.chance(1, 2)).unwrap();
    cfg.set_distributed_max_tasks_per_stage(r.below(9) as usize).unwrap();
    cfg.set_distributed_partial_reduce(r.chance(1, 2)).unwrap();
    let set = client(r, &mut cfg);
    let mut h = get_config_extension_propagation_headers(&cfg).unwrap();
    h.extend(pass(r));
    let keep = Keep::default();
    let w = Worker::from_session_builder(keep.clone());
    let tasks = r.range(1, 5) as usize;
    let key = TaskKey { query_id: uuid::Uuid::from_u128(r.next() as u128), stage_id: r.below(4) as usize, task_number: r.below(tasks as u64) as usize };
    let url = Url::parse(&format!("http://w{}:1", r.below(9))).unwrap();
    let shown = format!("task {key:?} of {tasks} at {url} with options {:?} and {set:?}, headers {h:?}", entries(&cfg));
    let q = SetPlanRequest { task_key: key, task_count: tasks, plan: MaybeEncoded::Decoded(Arc::new(Tag::new(1, 1, None, None))), work_unit_feed_declarations: vec![], target_worker_url: url.clone(), query_start_time_ns: 0 };
    if let Err(e) = w.coordinator_channel(h.clone(), q, stream::empty().boxed()).await { return s.fail(format!("{shown}: the worker refuses: {e}")); }
    let Some((c, got)) = keep.0.lock().unwrap().pop() else { return s.fail(format!("{shown}: no session was made")) };
    s.check(got == h, || format!("{shown}: the session builder gets the headers {got:?}"));
    s.check(entries(&c) == entries(&cfg), || format!("{shown}: the session has the options {:?}", entries(&c)));
    let n = DistributedConfig::from_config_options(cfg.options()).unwrap().shuffle_batch_size;
    let want = if n == 0 { SessionConfig::new().batch_size() } else { n };
    s.check(c.batch_size() == want, || format!("{shown}: the session has batches of {} rows", c.batch_size()));
    let d = c.get_extension::<DistributedTaskContext>();
    s.check(d.as_ref().is_some_and(|d| d.task_index == key.task_number && d.task_count == tasks), || format!("{shown}: the session is for {d:?}"));
    s.check(c.get_extension::<LocalWorkerContext>().is_some_and(|l| l.self_url == url), || format!("{shown}: the session has another address"));
}
