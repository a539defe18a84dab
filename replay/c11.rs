//! C11: spreading a file scan over tasks keeps every stored byte exactly once.
use super::common::*;
use crate::events::file_scan_config_scale_up_leaf_node as scale_up;
use crate::events::ScaleUpLeafNodeEvent;
use crate::execution_plans::DistributedLeafExec;
use crate::*;
use datafusion::arrow::array::{Int64Array, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::catalog::memory::{DataSourceExec, MemorySourceConfig};
use datafusion::datasource::listing::PartitionedFile;
use datafusion::datasource::object_store::ObjectStoreUrl;
use datafusion::datasource::physical_plan::{FileGroup, FileScanConfig, FileScanConfigBuilder, ParquetSource};
use datafusion::execution::TaskContext;
use datafusion::physical_expr::expressions::col;
use datafusion::physical_expr::{LexOrdering, Partitioning, PhysicalSortExpr};
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use datafusion::prelude::SessionConfig;
use futures::StreamExt;
use std::collections::BTreeMap;
use std::sync::Arc;

type P = Arc<dyn ExecutionPlan>;
fn schema() -> SchemaRef { Arc::new(Schema::new(vec![Field::new("x", DataType::Int64, false)])) }
/// name, start, end
type Piece = (String, i64, i64);
fn pieces(g: &FileGroup) -> Vec<Piece> {
    g.files().iter().map(|f| {
        let (a, b) = f.range.as_ref().map_or((0, f.object_meta.size as i64), |r| (r.start, r.end));
        (f.object_meta.location.to_string(), a, b)
    }).filter(|p| p.1 < p.2).collect()
}
/// the byte ranges of each file, merged where they touch; None if two overlap
fn cover(ps: impl Iterator<Item = Piece>) -> Option<BTreeMap<String, Vec<(i64, i64)>>> {
    let mut m: BTreeMap<String, Vec<(i64, i64)>> = BTreeMap::new();
    for (f, a, b) in ps { m.entry(f).or_default().push((a, b)); }
    for v in m.values_mut() {
        v.sort();
        let mut w: Vec<(i64, i64)> = vec![];
        for (a, b) in v.drain(..) {
            match w.last_mut() {
                Some(l) if a < l.1 => return None,
                Some(l) if a == l.1 => l.1 = b,
                _ => w.push((a, b)),
            }
        }
        *v = w;
    }
    Some(m)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Plain, Ordered, Declared }
fn size(r: &mut Rng) -> u64 { match r.below(6) { 0 => r.below(4), 1 => r.below(60), 2 => 1 + r.below(1 << 20), 3 => 1 << 40, _ => 1 + r.below(2000) } }
fn layout(r: &mut Rng, name: &str, groups: usize, ranges: bool, full: bool) -> Vec<FileGroup> {
    let mut n = 0;
    (0..groups).map(|_| {
        let k = if full { r.range(1, 3) } else { r.below(4) };
        FileGroup::new((0..k).flat_map(|_| {
            n += 1;
            let f = format!("{name}{n}.parquet");
            let s = if full { 1 + size(r) } else { size(r) };
            if ranges && s > 1 && r.chance(1, 2) {
                let cut = 1 + r.below(s - 1) as i64;
                let mut v = vec![PartitionedFile::new(f.clone(), s).with_range(0, cut)];
                if r.chance(2, 3) { v.push(PartitionedFile::new(f, s).with_range(cut, s as i64)); }
                v
            } else { vec![PartitionedFile::new(f, s)] }
        }).collect())
    }).collect()
}
fn scan(groups: Vec<FileGroup>, kind: Kind, limit: Option<usize>) -> P {
    let p = groups.len();
    let x = || col("x", &schema()).unwrap();
    let mut b = FileScanConfigBuilder::new(ObjectStoreUrl::local_filesystem(), Arc::new(ParquetSource::new(schema()))).with_file_groups(groups).with_limit(limit);
    if kind == Kind::Ordered { b = b.with_output_ordering(vec![LexOrdering::new(vec![PhysicalSortExpr::new_default(x())]).unwrap()]); }
    if kind == Kind::Declared { b = b.with_output_partitioning(Some(Partitioning::Hash(vec![x()], p))); }
    DataSourceExec::from_data_source(b.build())
}
fn config(p: &P) -> Option<&FileScanConfig> { p.downcast_ref::<DataSourceExec>()?.data_source().downcast_ref::<FileScanConfig>() }
fn show(p: &P) -> String { config(p).map_or("?".into(), |c| format!("{:?}", c.file_groups.iter().map(pieces).collect::<Vec<_>>())) }

fn split(p: &P, tasks: usize) -> Result<Vec<P>, String> {
    let cfg = SessionConfig::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scale_up(ScaleUpLeafNodeEvent { plan: p, task_count: tasks, session_config: &cfg })));
    let r = r.map_err(|_| format!("panicked at {}", LAST_PANIC.lock().unwrap()))?.ok_or("no answer for a file scan")?.map_err(|e| format!("failed: {e}"))?;
    let leaf = r.plan.downcast_ref::<DistributedLeafExec>().ok_or("no leaf for several tasks")?;
    if !Arc::ptr_eq(leaf.original(), p) { return Err("another plan is kept as the original".into()); }
    Ok(leaf.variants().to_vec())
}
fn judge(p: &P, kind: Kind, tasks: usize, vs: &[P]) -> Result<(), String> {
    let c = config(p).unwrap();
    if vs.len() != tasks { return Err(format!("{} variants", vs.len())); }
    let cs = vs.iter().map(|v| config(v).ok_or("a task gets no file scan")).collect::<Result<Vec<_>, _>>()?;
    let width = vs[0].output_partitioning().partition_count();
    for (v, d) in vs.iter().zip(&cs) {
        if v.output_partitioning().partition_count() != width || d.file_groups.len() != width { return Err("different widths".into()); }
        if v.schema() != p.schema() || d.limit != c.limit || d.output_ordering != c.output_ordering || d.output_partitioning != c.output_partitioning || d.batch_size != c.batch_size || d.object_store_url != c.object_store_url {
            return Err("other scan settings".into());
        }
        if kind == Kind::Declared && format!("{:?}", v.output_partitioning()) != format!("{:?}", p.output_partitioning()) { return Err("the declared partitioning is lost".into()); }
    }
    let want = cover(c.file_groups.iter().flat_map(pieces)).unwrap();
    match cover(cs.iter().flat_map(|d| d.file_groups.iter().flat_map(pieces))) {
        None => return Err("some bytes are scanned twice".into()),
        Some(got) if got != want => return Err("the tasks together do not scan the original files".into()),
        _ => {}
    }
    // place of each piece in the scan: group, and position in it
    if kind != Kind::Plain {
        let at = |f: &Piece| c.file_groups.iter().enumerate().find_map(|(g, fg)| pieces(fg).iter().position(|o| o.0 == f.0 && o.1 <= f.1 && f.2 <= o.2).map(|i| (g, i, f.1))).unwrap();
        for g in cs.iter().flat_map(|d| &d.file_groups) {
            let places: Vec<_> = pieces(g).iter().map(at).collect();
            if places.windows(2).any(|w| w[0] >= w[1]) || places.iter().any(|x| x.0 != places[0].0) { return Err("a group is reordered or mixed with another".into()); }
        }
    }
    if kind == Kind::Declared {
        let whole: Vec<_> = c.file_groups.iter().map(pieces).filter(|g| !g.is_empty()).collect();
        for g in cs.iter().flat_map(|d| &d.file_groups).map(pieces).filter(|g| !g.is_empty()) {
            if !whole.contains(&g) { return Err("a declared partition is torn apart".into()); }
        }
    }
    Ok(())
}
/// task and partition in which each declared partition ends up
fn places(p: &P, vs: &[P]) -> Vec<Option<(usize, usize)>> {
    config(p).unwrap().file_groups.iter().map(|g| {
        let g = pieces(g);
        vs.iter().enumerate().find_map(|(t, v)| config(v).unwrap().file_groups.iter().position(|h| pieces(h) == g).map(|j| (t, j)))
    }).collect()
}
fn values(v: &[i64]) -> P { MemorySourceConfig::try_new_exec(&[vec![RecordBatch::try_new(schema(), vec![Arc::new(Int64Array::from(v.to_vec()))]).unwrap()]], schema(), None).unwrap() }
fn pick(r: &mut Rng) -> Result<(), String> {
    let n = r.range(1, 5) as usize;
    let leaf = DistributedLeafExec::try_new(values(&[-1]), (0..n).map(|i| values(&[i as i64]))).map_err(|e| e.to_string())?;
    let (task_index, task_count) = (r.below(7) as usize, r.range(1, 6) as usize);
    let ctx = Arc::new(TaskContext::default().with_session_config(SessionConfig::new().with_extension(Arc::new(DistributedTaskContext { task_index, task_count }))));
    let out = leaf.execute(0, ctx).map(|mut s| futures::executor::block_on(async { let mut v = vec![]; while let Some(b) = s.next().await { v.extend(b.unwrap().column(0).as_any().downcast_ref::<Int64Array>().unwrap().values().iter().copied()); } v }));
    let ok = match &out {
        Ok(v) if task_count == 1 => *v == [-1],
        Ok(v) => task_index < n && *v == [task_index as i64],
        Err(_) => task_count != 1 && task_index >= n,
    };
    if !ok { return Err(format!("a leaf of {n} variants, run as task {task_index} of {task_count}, gives {:?}", out.map_err(|e| e.to_string()))); }
    if task_index < n {
        let v = leaf.to_task_specialized(task_index);
        if !Arc::ptr_eq(&v, &leaf.variants()[task_index]) { return Err(format!("task {task_index} is sent another task's variant")); }
    }
    Ok(())
}
pub fn run(seed: u64, thorough: bool) -> Search {
    let n = if thorough { 60000 } else { 6000 };
    let mut s = Search::new(&format!("{n} random scans of up to 4 groups of up to 3 files (sizes 0 to 2^40, some already cut), plain, ordered or with a declared partitioning, split over 1 to 6 tasks; as many leaves executed as task 0..6 of 1..6; a sixth as many stages of up to 7 tasks with leaves in up to 3 levels of unions, cut into tasks by the coordinator"));
    let mut r = Rng::new(seed);
    for _ in 0..n {
        s.case();
        let kind = *r.pick(&[Kind::Plain, Kind::Ordered, Kind::Declared]);
        let (groups, tasks) = (r.range(1, 4) as usize, r.range(1, 6) as usize);
        let limit = r.chance(1, 4).then_some(7);
        let cut = r.chance(1, 4);
        let p = scan(layout(&mut r, "a", groups, cut, false), kind, limit);
        let vs = match split(&p, tasks).and_then(|vs| judge(&p, kind, tasks, &vs).map(|_| vs)) {
            Ok(vs) => vs,
            Err(e) => { s.fail(format!("a {kind:?} scan of {} over {tasks} tasks: {e}", show(&p))); return s; }
        };
        drop(vs);
        if kind == Kind::Declared {
            // the partitions of two tables partitioned alike must meet in the same tasks
            let a = scan(layout(&mut r, "a", groups, false, true), kind, None);
            let b = scan(layout(&mut r, "b", groups, false, true), kind, None);
            if let (Ok(x), Ok(y)) = (split(&a, tasks), split(&b, tasks)) {
                if places(&a, &x) != places(&b, &y) { s.fail(format!("partitions of {} and {} do not meet over {tasks} tasks", show(&a), show(&b))); return s; }
            }
        }
        if let Err(e) = pick(&mut r) { s.fail(e); return s; }
        if r.chance(1, 6) { if let Err(e) = super::nested::nested_case(&mut r) { s.fail(e); return s; } }
    }
    s
}
