//! C12: plans survive encoding and decoding unchanged.
use super::common::*;
use crate::codec::vp_inject as raw;
use crate::codec::{DistributedCodec, decode_execution_plan, decode_partitioning, encode_execution_plan, encode_partitioning, set_distributed_user_codec};
use crate::execution_plans::{BroadcastExec, ChildWeight, ChildrenIsolatorUnionExec, NetworkBroadcastExec, NetworkCoalesceExec, SamplerExec};
use crate::stage::{LocalStage, RemoteStage};
use crate::worker::WorkerConnectionPool;
use crate::*;
use datafusion::arrow::compute::SortOptions;
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef, TimeUnit};
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{Result, exec_err};
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::expressions::{Column, NotExpr};
use datafusion::physical_expr::{EquivalenceProperties, LexOrdering, PhysicalExpr, PhysicalSortExpr};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::empty::EmptyExec;
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::sorts::sort::SortExec;
use datafusion::physical_plan::union::UnionExec;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, Partitioning, PlanProperties};
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_proto::physical_plan::{DeduplicatingProtoConverter, PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;
use url::Url;
use uuid::Uuid;

type P = Arc<dyn ExecutionPlan>;
/// leaves of two users, each with a codec of its own
#[derive(Debug, Clone)]
struct Mine { user: u8, id: u64, props: Arc<PlanProperties> }
impl Mine { fn new(user: u8, id: u64, n: usize, schema: SchemaRef) -> Self { Mine { user, id, props: Arc::new(PlanProperties::new(EquivalenceProperties::new(schema), Partitioning::UnknownPartitioning(n), EmissionType::Incremental, Boundedness::Bounded)) } } }
impl DisplayAs for Mine { fn fmt_as(&self, _t: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Mine {} {}", self.user, self.id) } }
impl ExecutionPlan for Mine {
    fn name(&self) -> &str { "Mine" }
    fn properties(&self) -> &Arc<PlanProperties> { &self.props }
    fn children(&self) -> Vec<&P> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<P>) -> Result<P> { Ok(self) }
    fn execute(&self, _p: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { exec_err!("no") }
}
#[derive(Debug)]
struct MineCodec(u8);
thread_local! { static SCHEMAS: std::cell::RefCell<Vec<SchemaRef>> = const { std::cell::RefCell::new(vec![]) }; }
impl PhysicalExtensionCodec for MineCodec {
    fn try_decode(&self, buf: &[u8], _i: &[P], _c: &TaskContext, _p: &dyn PhysicalProtoConverterExtension) -> Result<P> {
        if buf.len() != 25 || buf[0] != self.0 { return exec_err!("not of user {}", self.0); }
        let w = |i: usize| u64::from_le_bytes(buf[i..i + 8].try_into().unwrap());
        Ok(Arc::new(Mine::new(self.0, w(1), w(9) as usize, SCHEMAS.with(|s| s.borrow()[w(17) as usize].clone()))))
    }
    fn try_encode(&self, node: P, buf: &mut Vec<u8>, _p: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        let Some(m) = node.downcast_ref::<Mine>() else { return exec_err!("not a leaf") };
        if m.user != self.0 { return exec_err!("not of user {}", self.0); }
        let at = SCHEMAS.with(|s| { s.borrow_mut().push(m.schema()); s.borrow().len() - 1 });
        buf.push(m.user);
        for v in [m.id, m.properties().output_partitioning().partition_count() as u64, at as u64] { buf.extend(v.to_le_bytes()); }
        Ok(())
    }
}
fn num(r: &mut Rng) -> usize { match r.below(6) { 0 => 0, 1 => 1, 2 => r.below(100) as usize, 3 => u32::MAX as usize + r.below(5) as usize, 4 => usize::MAX - r.below(3) as usize, _ => r.next() as usize } }
fn id(r: &mut Rng) -> Uuid { match r.below(4) { 0 => Uuid::nil(), 1 => Uuid::from_u128(r.below(3) as u128), _ => Uuid::from_u128((r.next() as u128) << 64 | r.next() as u128) } }
fn url(r: &mut Rng) -> Url { let u = ["http://w0:1", "https://user:pw@host.example:8443/a/b?x=%20y&z#f", "http://[::1]:9/", "grpc://x/%E2%82%AC", "http://h/a b", "http://w1:1", "http://h/a/", "HTTP://H:80//b/../c//", "unix:/tmp/x.sock", "mem:w 3", "http://h/?#"]; Url::parse(*r.pick::<&str>(&u)).unwrap() }
fn schema(r: &mut Rng) -> SchemaRef {
    let n = r.range(1, 4);
    let types = [DataType::Int64, DataType::Utf8, DataType::Boolean, DataType::Float64, DataType::Timestamp(TimeUnit::Nanosecond, Some("+02:00".into())), DataType::List(Arc::new(Field::new("item", DataType::Int32, true))), DataType::Decimal128(20, 3), DataType::Dictionary(Box::new(DataType::Int32), Box::new(DataType::Utf8))];
    let f = (0..n).map(|i| { let f = Field::new(*r.pick(&["a", "a", "", "b c", "é"]), r.pick(&types).clone(), r.chance(1, 2)); if r.chance(1, 4) { f.with_metadata([(format!("k{i}"), "v".to_string())].into()) } else { f } }).collect::<Vec<_>>();
    let s = Schema::new(f);
    Arc::new(if r.chance(1, 4) { s.with_metadata([("m".to_string(), "n".to_string())].into()) } else { s })
}
fn col(r: &mut Rng, s: &SchemaRef) -> Arc<dyn PhysicalExpr> { let i = r.below(s.fields().len() as u64) as usize; Arc::new(Column::new(s.field(i).name(), i)) }
fn partitioning(r: &mut Rng, s: &SchemaRef, small: bool) -> Partitioning {
    let n = if small { r.range(1, 9) as usize } else { num(r) };
    match r.below(4) {
        0 => Partitioning::RoundRobinBatch(n),
        1 => Partitioning::UnknownPartitioning(n),
        _ => { let k = r.below(3); Partitioning::Hash((0..k + 1).map(|_| { let c = col(r, s); if r.chance(1, 4) { Arc::new(NotExpr::new(c)) as _ } else { c } }).collect(), n) }
    }
}
fn props(p: Partitioning, s: &SchemaRef) -> Arc<PlanProperties> { Arc::new(PlanProperties::new(EquivalenceProperties::new(s.clone()), p, EmissionType::Incremental, Boundedness::Bounded)) }
/// `small`: what is above allocates something per partition, or adds partitions up
fn stage(r: &mut Rng, s: &SchemaRef, depth: u64) -> Stage {
    if r.chance(1, 2) { Stage::Local(LocalStage { query_id: id(r), num: num(r), plan: plan(r, s, depth, false), tasks: r.below(6) as usize, metrics_set: Default::default() }) }
    else { Stage::Remote(RemoteStage { query_id: id(r), num: num(r), workers: (0..r.below(5)).map(|_| url(r)).collect(), runtime_stats: None }) }
}
fn node(r: &mut Rng, s: &SchemaRef, depth: u64, small: bool) -> P {
    let d = depth.saturating_sub(1);
    match r.below(6) {
        0 => { let st = stage(r, s, d); Arc::new(NetworkShuffleExec { properties: props(partitioning(r, s, small), s), worker_connections: WorkerConnectionPool::new(st.task_count()), input_stage: st }) }
        1 => { let st = stage(r, s, d); Arc::new(NetworkCoalesceExec { properties: props(partitioning(r, s, small), s), worker_connections: WorkerConnectionPool::new(st.task_count()), input_stage: st }) }
        2 => { let st = stage(r, s, d); Arc::new(NetworkBroadcastExec { properties: props(partitioning(r, s, small), s), worker_connections: WorkerConnectionPool::new(st.task_count()), input_stage: st }) }
        3 => { let c = plan(r, s, d, true); let n = c.output_partitioning().partition_count(); let k = if small { r.below(5) as usize } else { num(r) / n.max(1) }; Arc::new(BroadcastExec::new(c, k)) }
        4 => Arc::new(SamplerExec::new(plan(r, s, d, true))),
        _ => {
            let k = r.range(1, 3) as usize;
            let children: Vec<P> = (0..k).map(|_| plan(r, s, d.min(2), true)).collect();
            let mut p = UnionExec::try_new(children.clone()).unwrap().properties().as_ref().clone();
            p.partitioning = Partitioning::UnknownPartitioning(if small { r.below(9) as usize } else { num(r) });
            let w = [1.0, 0.0, -0.0, 0.1, f64::NAN, f64::INFINITY, f64::MIN_POSITIVE, 1e300];
            Arc::new(ChildrenIsolatorUnionExec {
                properties: Arc::new(p), metrics: Default::default(), children,
                child_weights: (0..k).map(|_| ChildWeight { weight: *r.pick(&w), max: if r.chance(1, 2) { Some(num(r)) } else { None } }).collect(),
                task_idx_map: (0..r.below(4)).map(|_| (0..r.below(4)).map(|_| (r.below(k as u64) as usize, DistributedTaskContext { task_index: num(r), task_count: num(r) })).collect()).collect(),
            })
        }
    }
}
fn plan(r: &mut Rng, s: &SchemaRef, depth: u64, small: bool) -> P {
    if depth == 0 { return match r.below(3) { 0 => Arc::new(EmptyExec::new(s.clone())), 1 => Arc::new(EmptyExec::new(s.clone()).with_partitions(r.range(1, 5) as usize)), _ => Arc::new(Mine::new(r.range(1, 2) as u8, r.next(), r.range(1, 5) as usize, s.clone())) }; }
    match r.below(8) {
        0 => Arc::new(CoalescePartitionsExec::new(plan(r, s, depth - 1, true))),
        1 => { let c = plan(r, s, depth - 1, true); let n = r.range(1, 5) as usize; let h = col(r, s); Arc::new(RepartitionExec::try_new(c, Partitioning::Hash(vec![h], n)).unwrap()) }
        2 => { let c = plan(r, s, depth - 1, true); let e = col(r, s); Arc::new(SortExec::new(LexOrdering::new(vec![PhysicalSortExpr { expr: e, options: SortOptions { descending: r.chance(1, 2), nulls_first: r.chance(1, 2) } }]).unwrap(), c)) }
        _ => node(r, s, depth, small),
    }
}
fn show(p: &P) -> String { format!("{}[{}]", kind(p), p.children().iter().map(|c| show(c)).collect::<Vec<_>>().join(", ")) }
fn show_stage(s: &Stage) -> String {
    match s {
        Stage::Local(l) => format!("stage {} of {} here in {} tasks", l.num, l.query_id, l.tasks),
        Stage::Remote(m) => format!("stage {} of {} at {:?}", m.num, m.query_id, m.workers.iter().map(|u| u.to_string()).collect::<Vec<_>>()),
    }
}
/// everything that a node is, but its children
fn kind(p: &P) -> String {
    let parts = format!("{:?}", p.output_partitioning());
    if let Some(x) = p.downcast_ref::<NetworkShuffleExec>() { return format!("shuffle of {} into {parts}, {:?}", show_stage(&x.input_stage), x.worker_connections); }
    if let Some(x) = p.downcast_ref::<NetworkCoalesceExec>() { return format!("coalesce of {} into {parts}, {:?}", show_stage(&x.input_stage), x.worker_connections); }
    if let Some(x) = p.downcast_ref::<NetworkBroadcastExec>() { return format!("broadcast of {} into {parts}, {:?}", show_stage(&x.input_stage), x.worker_connections); }
    if let Some(x) = p.downcast_ref::<BroadcastExec>() { return format!("broadcast to {} of {parts}", x.consumer_task_count()); }
    if p.downcast_ref::<SamplerExec>().is_some() { return format!("sampler of {parts}"); }
    if let Some(x) = p.downcast_ref::<ChildrenIsolatorUnionExec>() { return format!("union of {parts}: weights {:?}, map {:?}", x.child_weights.iter().map(|w| ((w.weight + 0.0).to_bits(), w.max)).collect::<Vec<_>>(), x.task_idx_map); }
    if let Some(x) = p.downcast_ref::<Mine>() { return format!("leaf {} of user {}, {parts}", x.id, x.user); }
    format!("{} {parts} {}", p.name(), datafusion::physical_plan::displayable(p.as_ref()).one_line())
}
fn same(a: &P, b: &P) -> Result<(), String> {
    if kind(a) != kind(b) { return Err(format!("{} arrives as {}", kind(a), kind(b))); }
    if a.schema() != b.schema() { return Err(format!("the schema {:?} of {} arrives as {:?}", a.schema(), kind(a), b.schema())); }
    let (x, y) = (a.children(), b.children());
    if x.len() != y.len() { return Err(format!("{} arrives with {} children instead of {}", kind(a), y.len(), x.len())); }
    x.iter().zip(y).try_for_each(|(x, y)| same(x, y))
}
fn whole(s: &mut Search, r: &mut Rng, a: &TaskContext, b: &TaskContext) {
    s.case();
    SCHEMAS.with(|s| s.borrow_mut().clear());
    let sc = schema(r);
    let d = r.range(1, 4);
    let p = plan(r, &sc, d, false);
    let got = catch_unwind(AssertUnwindSafe(|| { let e = encode_execution_plan(Arc::clone(&p), a).map_err(|e| format!("is not written: {e}"))?; decode_execution_plan(&e, b).map_err(|e| format!("is not read: {e}")) }));
    match got {
        Err(_) => s.fail(format!("{}: panics ({})", show(&p), LAST_PANIC.lock().unwrap())),
        Ok(Err(e)) => s.fail(format!("{} {e}", show(&p))),
        Ok(Ok(q)) => { let what = same(&p, &q); s.check(what.is_ok(), || format!("in the plan {}: {}", show(&p), what.unwrap_err())); }
    }
    s.case();
    let h = partitioning(r, &sc, false);
    match catch_unwind(AssertUnwindSafe(|| decode_partitioning(&encode_partitioning(&h, a)?, sc.clone(), b))) {
        Err(_) => s.fail(format!("the partitioning {h:?}: panics ({})", LAST_PANIC.lock().unwrap())),
        Ok(Err(e)) => s.fail(format!("the partitioning {h:?}: {e}")),
        Ok(Ok(q)) => s.check(format!("{h:?}") == format!("{q:?}"), || format!("the partitioning {h:?} arrives as {q:?}")),
    }
}
/// one message of the system's own codec, as it is and damaged
fn alone(s: &mut Search, r: &mut Rng, ctx: &TaskContext) {
    let sc = schema(r);
    let p = node(r, &sc, 2, false);
    let k = DeduplicatingProtoConverter::default();
    let kids: Vec<P> = p.children().into_iter().cloned().collect();
    let front: Vec<u8> = (0..r.below(4)).map(|_| r.next() as u8).collect();
    let mut buf = front.clone();
    s.case();
    if let Err(e) = DistributedCodec.try_encode(Arc::clone(&p), &mut buf, &k) { return s.fail(format!("{} is not written: {e}", show(&p))); }
    s.check(buf.starts_with(&front), || format!("writing {} behind {front:?} gives {buf:?}", show(&p)));
    let buf = buf[front.len().min(buf.len())..].to_vec();
    let read = |b: &[u8], kids: &[P]| catch_unwind(AssertUnwindSafe(|| DistributedCodec.try_decode(b, kids, ctx, &k)));
    match read(&buf, &kids) {
        Err(_) => return s.fail(format!("{}: panics ({})", show(&p), LAST_PANIC.lock().unwrap())),
        Ok(Err(e)) => return s.fail(format!("{} is not read: {e}", show(&p))),
        Ok(Ok(q)) => { let what = same(&p, &q); s.check(what.is_ok(), || format!("{}: {}", show(&p), what.unwrap_err())); }
    }
    // the kinds of node that are not the system's are left to other codecs
    let other: P = Arc::new(EmptyExec::new(sc.clone()));
    s.check(DistributedCodec.try_encode(other, &mut vec![], &k).is_err(), || "an EmptyExec is written by the system's codec".into());
    // --- a part missing, or not what it should be
    let bytes = |r: &mut Rng| -> Vec<u8> { let n = *r.pick(&[0u64, 1, 15, 17, 32]); (0..n).map(|_| r.next() as u8).collect() };
    for what in 0..7 {
        let Some(bad) = raw::damaged(&buf, what, bytes(r)) else { continue };
        if what >= 5 && !kids.is_empty() { continue; } // a stage with its plan has no addresses
        s.case();
        match read(&bad, &kids) {
            Err(_) => return s.fail(format!("{} with part {what} damaged: panics ({})", show(&p), LAST_PANIC.lock().unwrap())),
            Ok(q) => s.check(q.is_err(), || format!("{} with part {what} damaged (0 schema, 1 partitioning, 2 stage, 3 kind of partitioning, 4 identifier, 5 no address, 6 bad address) is accepted", show(&p))),
        }
    }
    let leaf = |n: usize| -> Vec<P> { (0..n).map(|i| Arc::new(EmptyExec::new(sc.clone()).with_partitions(i + 2)) as P).collect() };
    let n = r.below(4) as usize;
    let over = match r.below(3) { 0 => n as u64, 1 => u64::MAX, _ => n as u64 + r.below(1 << 40) };
    let k2 = r.below(3) as usize;
    let map: Vec<Vec<(u64, u64, u64)>> = (0..=k2).map(|i| if i == k2 { vec![(over, 0, 1)] } else { (0..n as u64).map(|c| (c, 0, 1)).collect() }).collect();
    for (what, bad, kids) in [
        ("no node", raw::nothing(), leaf(n)), ("a broadcast over other than one child", raw::broadcast(2), leaf(if n == 1 { 0 } else { n })), ("a sampler over other than one child", raw::sampler(), leaf(if n == 1 { 2 } else { n })),
        ("a broadcast to more than can be counted", raw::broadcast(u64::MAX - r.below(5)), leaf(1)), ("a union of nothing", raw::union(1, vec![], vec![]), vec![]), ("a union that runs a child it does not have", raw::union(1, map, (0..n).map(|_| (1.0, None)).collect()), leaf(n)),
    ] {
        s.case();
        match read(&bad, &kids) {
            Err(_) => return s.fail(format!("{what} ({} children): panics ({})", kids.len(), LAST_PANIC.lock().unwrap())),
            Ok(q) => s.check(q.is_err(), || format!("{what} ({} children) is accepted", kids.len())),
        }
    }
    // --- any bytes
    for _ in 0..6 {
        let mut bad = buf.clone();
        match r.below(3) {
            0 => bad.truncate(r.below(bad.len() as u64 + 1) as usize),
            1 => for _ in 0..=r.below(3) { if !bad.is_empty() { let i = r.below(bad.len() as u64) as usize; bad[i] ^= 1 << r.below(8); } },
            _ => { bad = (0..r.below(40)).map(|_| r.next() as u8).collect(); }
        }
        s.case();
        if read(&bad, &leaf(kids.len())).is_err() { return s.fail(format!("the bytes {bad:?} (from {}): panics ({})", show(&p), LAST_PANIC.lock().unwrap())); }
    }
}
pub fn run(seed: u64, thorough: bool) -> Search {
    let rounds = if thorough { 30_000 } else { 4_000 };
    let mut s = Search::new(&format!("{rounds} random plans of up to 4 levels (every node of the system, some of DataFusion's, leaves of two user codecs; values of every size, schemas of 1..=4 columns), written and read as a whole; as many single nodes, written and read by the system's codec, then read again with parts missing, damaged or out of range, and from 6 cut, flipped or random byte strings each"));
    let mut r = Rng::new(seed ^ 0xC12);
    let ctx = || { let mut c = SessionConfig::new(); set_distributed_user_codec(&mut c, MineCodec(1)); set_distributed_user_codec(&mut c, MineCodec(2)); SessionContext::new_with_config(c).task_ctx() };
    let (a, b) = (ctx(), ctx());
    for _ in 0..rounds {
        whole(&mut s, &mut r, &a, &b);
        if s.failed() { return s; }
        alone(&mut s, &mut r, &a);
        if s.failed() { return s; }
    }
    s
}
