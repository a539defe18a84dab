//! Whole SQL queries over sorted and unsorted parquet tables: distributed over an in-memory cluster, and on one node.
#![allow(dead_code)]
use super::common::*;
use crate::test_utils::in_memory_channel_resolver::{InMemoryChannelResolver, InMemoryWorkerResolver};
use crate::*;
use datafusion::arrow::array::{ArrayRef, Int64Array, RecordBatch, StringArray};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::arrow::util::display::{ArrayFormatter, FormatOptions};
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::prelude::*;
use std::sync::Arc;

/// A table in a directory of parquet files: a, b, c (few values, null at times), v (a number of its own for every row of the table) and s (a string); every file is in the order of `order`.
#[derive(Clone, Debug)]
pub struct Table { pub name: String, pub dir: String, pub order: Option<Vec<(&'static str, bool)>>, pub rows: usize, pub files: usize }
pub fn schema() -> SchemaRef {
    Arc::new(Schema::new(vec![Field::new("a", DataType::Int64, true), Field::new("b", DataType::Int64, true), Field::new("c", DataType::Utf8, true), Field::new("v", DataType::Int64, false)]))
}
type Row = (Option<i64>, Option<i64>, Option<&'static str>, i64);
fn int(r: &mut Rng, k: u64) -> Option<i64> { if r.chance(1, 8) { None } else { Some(r.below(k) as i64) } }
/// ascending, nulls last
fn nl<T: Ord>(o: &Option<T>) -> (bool, &Option<T>) { (o.is_none(), o) }
pub fn table(r: &mut Rng, name: &str, files: usize, max: u64, order: Option<Vec<(&'static str, bool)>>) -> Table {
    let dir = format!("{name}-{}", r.next());
    std::fs::create_dir_all(&dir).unwrap();
    let k = r.range(1, 6);
    let mut rows = 0;
    for f in 0..files {
        let mut data: Vec<Row> = (0..r.below(max)).map(|i| (int(r, k), int(r, 4), match r.below(5) { 0 => None, i => Some(["x", "y", "z", "w"][i as usize - 1]) }, (f as u64 + i * files as u64) as i64)).collect();
        rows += data.len();
        if let Some(o) = &order {
            data.sort_by(|x, y| {
                for (c, _) in o {
                    let q = match *c { "a" => nl(&x.0).cmp(&nl(&y.0)), "b" => nl(&x.1).cmp(&nl(&y.1)), "c" => nl(&x.2).cmp(&nl(&y.2)), _ => x.3.cmp(&y.3) };
                    if q != std::cmp::Ordering::Equal { return q; }
                }
                std::cmp::Ordering::Equal
            });
        }
        let b = RecordBatch::try_new(schema(), vec![
            Arc::new(Int64Array::from(data.iter().map(|d| d.0).collect::<Vec<_>>())) as ArrayRef, Arc::new(Int64Array::from(data.iter().map(|d| d.1).collect::<Vec<_>>())),
            Arc::new(StringArray::from(data.iter().map(|d| d.2).collect::<Vec<_>>())), Arc::new(Int64Array::from(data.iter().map(|d| d.3).collect::<Vec<_>>())),
        ]).unwrap();
        let p = parquet::file::properties::WriterProperties::builder().set_max_row_group_row_count(Some(r.range(2, 20) as usize)).build();
        let mut w = parquet::arrow::ArrowWriter::try_new(std::fs::File::create(format!("{dir}/{f}.parquet")).unwrap(), schema(), Some(p)).unwrap();
        w.write(&b).unwrap();
        w.close().unwrap();
    }
    Table { name: name.into(), dir, order, rows, files }
}
#[derive(Clone, Debug)]
pub struct Cluster { pub workers: usize, pub leaf_tasks: usize, pub target: usize, pub batch: usize, pub broadcast: bool, pub unions: bool, pub partial_reduce: bool, pub prefer_sorted: bool, pub partitioned_joins: bool, pub merge_joins: bool, pub dynamic: bool, pub split_files: bool }
impl Cluster {
    pub fn random(r: &mut Rng) -> Cluster {
        Cluster {
            workers: if r.chance(1, 8) { 1 } else { r.range(2, 4) as usize }, leaf_tasks: if r.chance(1, 8) { 1 } else { r.range(2, 4) as usize }, target: r.range(1, 4) as usize, batch: *r.pick(&[2, 7, 64, 8192]), broadcast: r.chance(2, 3), unions: r.chance(2, 3),
            partial_reduce: r.chance(1, 3), prefer_sorted: r.chance(1, 2), partitioned_joins: r.chance(1, 2), merge_joins: r.chance(1, 5), dynamic: r.chance(1, 4), split_files: r.chance(1, 2),
        }
    }
    async fn session(&self, cfg: SessionConfig, distributed: bool, tables: &[Table]) -> SessionContext {
        let mut cfg = cfg;
        let o = cfg.options_mut();
        o.optimizer.prefer_existing_sort = self.prefer_sorted;
        o.optimizer.prefer_hash_join = !self.merge_joins;
        if self.split_files { o.optimizer.repartition_file_min_size = 1; }
        if self.partitioned_joins { o.optimizer.hash_join_single_partition_threshold = 0; o.optimizer.hash_join_single_partition_threshold_rows = 0; }
        o.execution.collect_statistics = true;
        let ctx = if distributed {
            let b = SessionStateBuilder::new().with_default_features().with_config(cfg).with_distributed_planner()
                .with_distributed_worker_resolver(InMemoryWorkerResolver::new(self.workers))
                .with_distributed_channel_resolver(InMemoryChannelResolver::default())
                .with_distributed_desired_task_count_handler({
                    let n = self.leaf_tasks;
                    move |ev: DesiredTaskCountEvent<'_>| ev.plan.is::<datafusion::datasource::source::DataSourceExec>().then(|| Ok(DesiredTaskCountEventResponse::desired(n)))
                });
            let b = b.with_distributed_broadcast_joins(self.broadcast).unwrap().with_distributed_children_isolator_unions(self.unions).unwrap()
                .with_distributed_partial_reduce(self.partial_reduce).unwrap().with_distributed_dynamic_task_count(self.dynamic).unwrap();
            SessionContext::from(b.build())
        } else { SessionContext::new_with_config(cfg) };
        for t in tables {
            let mut o = ParquetReadOptions::default();
            if let Some(s) = &t.order { o = o.file_sort_order(vec![s.iter().map(|(c, _)| col(*c).sort(true, false)).collect()]); }
            ctx.register_parquet(&t.name, &format!("{}/", t.dir), o).await.unwrap();
        }
        ctx
    }
    /// the plan, and what is wrong with its result: `ordered` compares the rows one by one
    pub async fn differs(&self, tables: &[Table], q: &str, ordered: bool) -> (String, Option<String>) {
        let plain = Cluster { prefer_sorted: false, partitioned_joins: false, merge_joins: false, ..self.clone() };
        let single = plain.session(SessionConfig::new().with_target_partitions(1), false, &tables.iter().map(|t| Table { order: None, ..t.clone() }).collect::<Vec<_>>()).await;
        let want = match single.sql(q).await { Ok(d) => d.collect().await, Err(e) => Err(e) };
        // the query is not one DataFusion supports
        let Ok(want) = want else { return (format!("unsupported: {}", want.unwrap_err()), None) };
        let ctx = self.session(SessionConfig::new().with_target_partitions(self.target).with_batch_size(self.batch), true, tables).await;
        let plan = match async { ctx.sql(q).await?.create_physical_plan().await }.await { Ok(p) => p, Err(e) => {
            // does plain DataFusion plan it with these settings?
            let s = self.session(SessionConfig::new().with_target_partitions(self.target).with_batch_size(self.batch), false, tables).await;
            let ok = async { s.sql(q).await?.create_physical_plan().await }.await.is_ok();
            return (String::new(), ok.then(|| format!("planning fails: {e}")));
        } };
        let shown = datafusion::physical_plan::displayable(plan.as_ref()).indent(true).to_string();
        if ordered && let Some(name) = claims_order(&plan) { return (shown, Some(format!("the plan's {name}, which mixes rows of several tasks, claims they are in order"))); }
        let task = ctx.task_ctx();
        let got = match tokio::spawn(async move { tokio::time::timeout(std::time::Duration::from_secs(60), datafusion::physical_plan::collect(plan, task)).await }).await {
            Ok(Ok(Ok(g))) => g,
            Ok(Ok(Err(e))) => {
                let s = self.session(SessionConfig::new().with_target_partitions(self.target).with_batch_size(self.batch), false, tables).await;
                let ok = async { s.sql(q).await?.collect().await }.await.is_ok();
                return (shown, ok.then(|| format!("fails: {}", e.strip_backtrace().lines().take(3).collect::<Vec<_>>().join(" "))));
            }
            Ok(Err(_)) => return (shown, Some("does not end within 60 s".into())),
            Err(e) => return (shown, Some(format!("panics: {e}"))),
        };
        let (mut g, mut w) = (rows(&got), rows(&want));
        if !ordered { g.sort(); w.sort(); }
        if g == w { return (shown, None); }
        // what DataFusion itself gets wrong with these settings is not at issue
        let s = self.session(SessionConfig::new().with_target_partitions(self.target).with_batch_size(self.batch), false, tables).await;
        let mut alone = match async { s.sql(q).await?.collect().await }.await { Ok(b) => rows(&b), Err(_) => return (shown, None) };
        if !ordered { alone.sort(); }
        if alone != w { return (shown, None); }
        let at = g.iter().zip(&w).position(|(x, y)| x != y).unwrap_or(g.len().min(w.len()));
        (shown, Some(format!("{} rows instead of {}, row {at} is {:?} instead of {:?}", g.len(), w.len(), g.get(at), w.get(at))))
    }
}
/// a boundary that reads one partition from several tasks and says its rows are in some order
fn claims_order(p: &Arc<dyn ExecutionPlan>) -> Option<String> {
    if (p.is::<NetworkShuffleExec>() || p.is::<NetworkBroadcastExec>()) && datafusion::physical_plan::ExecutionPlanProperties::output_ordering(p).is_some() { return Some(p.name().into()); }
    p.children().into_iter().find_map(claims_order)
}
pub fn rows(batches: &[RecordBatch]) -> Vec<String> {
    let mut out = vec![];
    for b in batches {
        let o = FormatOptions::default().with_null("NULL");
        let cols: Vec<ArrayFormatter> = b.columns().iter().map(|c| ArrayFormatter::try_new(c, &o).unwrap()).collect();
        for i in 0..b.num_rows() { out.push(cols.iter().map(|c| c.value(i).to_string()).collect::<Vec<_>>().join("|")); }
    }
    out
}
pub fn runtime() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().worker_threads(6).thread_stack_size(16 << 20).enable_all().build().unwrap() }
/// random queries over random tables in random clusters, each against one node; the tables change every fifth query
pub fn search(seed: u64, cases: usize, bound: &str, ordered: bool, tables: fn(&mut Rng) -> Vec<Table>, query: fn(&mut Rng) -> String) -> Search {
    let mut s = Search::new(bound);
    let rt = runtime();
    let mut r = Rng::new(seed);
    let mut t: Vec<Table> = vec![];
    let drop_all = |t: &[Table]| for x in t { let _ = std::fs::remove_dir_all(&x.dir); };
    for i in 0..cases {
        if i % 5 == 0 { drop_all(&t); t = tables(&mut r); }
        let c = Cluster::random(&mut r);
        let q = query(&mut r);
        s.case();
        let (plan, w) = rt.block_on(c.differs(&t, &q, ordered));
        if let Some(w) = w { s.fail(format!("{q} with {c:?} over {t:?}: {w}: {}", plan.replace('\n', "; "))); break; }
    }
    drop_all(&t);
    s
}
