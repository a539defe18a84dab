//! C21: a sampled plan yields what it would yield unsampled, and the figures count what is passed on once.
use super::common::*;
use crate::LoadInfo;
use crate::execution_plans::sampler::vp_inject::{kick_off, sampler};
use datafusion::arrow::array::{Array, Int64Array, RecordBatch, StringArray};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::Result;
use datafusion::error::DataFusionError;
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::EquivalenceProperties;
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, Partitioning, PhysicalExpr, PlanProperties};
use datafusion::prelude::SessionContext;
use futures::StreamExt;
use std::collections::HashSet;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;

/// a batch of rows starting at `.0`, a failure, or a pause
#[derive(Clone, Debug)]
enum It { Rows(i64, usize), Err(String), Pend }
fn schema() -> SchemaRef { Arc::new(Schema::new(vec![Field::new("a", DataType::Int64, true), Field::new("b", DataType::Utf8, true), Field::new("c", DataType::Int64, false)])) }
fn batch(from: i64, n: usize) -> RecordBatch {
    let r = from..from + n as i64;
    RecordBatch::try_new(schema(), vec![
        Arc::new(Int64Array::from_iter(r.clone().map(|v| (v % 3 != 0).then_some(v % 5)))),
        Arc::new(StringArray::from_iter(r.clone().map(|v| (v % 4 != 1).then(|| "x".repeat((v % 7) as usize))))),
        Arc::new(Int64Array::from_iter_values(r)),
    ]).unwrap()
}
#[derive(Debug)]
struct Source { items: Vec<Vec<It>>, props: Arc<PlanProperties>, runs: Mutex<Vec<usize>>, broken: Option<usize> }
impl DisplayAs for Source { fn fmt_as(&self, _t: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Source") } }
impl ExecutionPlan for Source {
    fn name(&self) -> &str { "Source" }
    fn properties(&self) -> &Arc<PlanProperties> { &self.props }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn execute(&self, p: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        self.runs.lock().unwrap()[p] += 1;
        if self.broken == Some(p) { return Err(DataFusionError::Execution(format!("broken {p}"))); }
        let mut it = self.items[p].clone().into_iter();
        Ok(Box::pin(RecordBatchStreamAdapter::new(schema(), futures::stream::poll_fn(move |cx| match it.next() {
            None => Poll::Ready(None),
            Some(It::Rows(v, n)) => Poll::Ready(Some(Ok(batch(v, n)))),
            Some(It::Err(e)) => Poll::Ready(Some(Err(DataFusionError::Execution(e)))),
            Some(It::Pend) => { cx.waker().wake_by_ref(); Poll::Pending }
        }))))
    }
}
fn show(r: &Result<RecordBatch>) -> String {
    match r {
        Ok(b) => { let c = b.column(2).as_any().downcast_ref::<Int64Array>().unwrap(); format!("{}+{}", if b.num_rows() == 0 { -1 } else { c.value(0) }, b.num_rows()) }
        Err(e) => { let t = e.to_string(); format!("error {}", t.rsplit(": ").next().unwrap_or("")) }
    }
}
/// what is to be passed on: everything up to the first error
fn expected(items: &[It]) -> Vec<String> {
    let mut out = vec![];
    for i in items {
        match i {
            It::Rows(v, n) => out.push(format!("{}+{}", if *n == 0 { -1 } else { *v }, n)),
            It::Err(e) => { out.push(format!("error {e}")); break; }
            It::Pend => {}
        }
    }
    out
}
fn upto_error(v: Vec<String>) -> Vec<String> {
    let n = v.iter().position(|x| x.starts_with("error")).map_or(v.len(), |i| i + 1);
    v.into_iter().take(n).collect()
}
fn figures(info: &LoadInfo, batches: &[RecordBatch]) -> std::result::Result<(), String> {
    let rows: usize = batches.iter().map(|b| b.num_rows()).sum();
    if info.rows_ready != rows { return Err(format!("{} rows reported, {rows} handed on", info.rows_ready)); }
    if info.per_column_bytes_ready.len() != 3 || info.per_column_ndv_percentage.len() != 3 || info.per_column_null_percentage.len() != 3 { return Err("figures for a wrong number of columns".into()); }
    for c in 0..3 {
        let bytes: usize = batches.iter().map(|b| b.column(c).to_data().get_slice_memory_size().unwrap()).sum();
        if info.per_column_bytes_ready[c] != bytes { return Err(format!("column {c}: {} bytes reported, {bytes} handed on", info.per_column_bytes_ready[c])); }
        let nulls: usize = batches.iter().map(|b| b.column(c).null_count()).sum();
        let want = if rows == 0 { 0. } else { nulls as f32 / rows as f32 };
        if (info.per_column_null_percentage[c] - want).abs() > 1e-5 { return Err(format!("column {c}: null share {} reported, {want} is right", info.per_column_null_percentage[c])); }
        if rows <= 1000 {
            let mut seen = HashSet::new();
            for b in batches { for r in 0..b.num_rows() { if !b.column(c).is_null(r) { seen.insert(format!("{:?}", datafusion::common::ScalarValue::try_from_array(b.column(c), r).unwrap())); } } }
            let want = if rows == 0 { 0. } else { seen.len() as f32 / rows as f32 };
            if (info.per_column_ndv_percentage[c] - want).abs() > 1e-5 { return Err(format!("column {c}: share of distinct values {} reported, {want} is right", info.per_column_ndv_percentage[c])); }
        }
    }
    Ok(())
}
/// the figures are those of what was ready first; `finished` is said only of a partition that is
fn figures_fit(info: &LoadInfo, items: &[It]) -> std::result::Result<(), String> {
    let real: Vec<&It> = items.iter().skip_while(|x| matches!(x, It::Pend)).collect();
    let chunk: Vec<&It> = real.iter().take_while(|x| !matches!(x, It::Pend)).copied().collect();
    let failing = chunk.iter().any(|x| matches!(x, It::Err(_)));
    let ready: Vec<RecordBatch> = chunk.iter().take_while(|x| matches!(x, It::Rows(..))).filter_map(|x| match x { It::Rows(v, n) => Some(batch(*v, *n)), _ => None }).collect();
    if info.reached_eos && chunk.len() != real.len() { return Err("a partition with more to come is reported as finished".into()); }
    if info.reached_eos && failing { return Err("a failing partition is reported as finished".into()); }
    if failing {
        // what is reported of a partition that fails is some of what it passes on before
        if !(0..=ready.len()).any(|k| figures(info, &ready[..k]).is_ok()) { return figures(info, &ready); }
        return Ok(());
    }
    if chunk.len() == real.len() && !info.reached_eos { return Err("a finished partition is not reported as such".into()); }
    figures(info, &ready)
}

pub fn run(seed: u64, thorough: bool) -> Search {
    let n = if thorough { 20000 } else { 1500 };
    let mut s = Search::new(&format!("{n} plans: 1 to 4 partitions of up to 7 items (batches of 0 to 1200 rows, errors, pauses), sampled and then read, at once or after the report"));
    let mut rng = Rng::new(seed);
    for case in 0..n {
        s.case();
        let parts = 1 + rng.below(4) as usize;
        let mut next = 0i64;
        let items: Vec<Vec<It>> = (0..parts).map(|p| {
            let len = rng.below(8);
            (0..len).map(|k| match rng.below(if case % 3 == 0 { 12 } else { 8 }) {
                0 | 1 => It::Pend,
                8 => It::Err(format!("e{p}_{k}")),
                2 => It::Rows(next, 0),
                3 if rng.below(20) == 0 => { let f = next; next += 1200; It::Rows(f, 1200) }
                _ => { let m = 1 + rng.below(4) as usize; let f = next; next += m as i64; It::Rows(f, m) }
            }).collect()
        }).collect();
        let broken = (rng.below(40) == 0).then(|| rng.below(parts as u64) as usize);
        let source = Arc::new(Source { items: items.clone(), runs: Mutex::new(vec![0; parts]), broken, props: Arc::new(PlanProperties::new(EquivalenceProperties::new(schema()), Partitioning::UnknownPartitioning(parts), EmissionType::Incremental, Boundedness::Bounded)) });
        let node = sampler(source.clone());
        let plan: Arc<dyn ExecutionPlan> = if rng.below(2) == 0 { Arc::clone(&node) } else { Arc::new(CoalescePartitionsExec::new(Arc::clone(&node))) };
        let wait = rng.below(3) != 0;
        let order: Vec<usize> = { let mut o: Vec<usize> = (0..parts).collect(); for i in (1..parts).rev() { o.swap(i, rng.below(i as u64 + 1) as usize); } o };
        let what = format!("items {items:?}, {}", if wait { "read after the report" } else { "read at once" });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            block_on(async move {
                tokio::time::timeout(Duration::from_secs(20), async move {
                    let ctx = SessionContext::new().task_ctx();
                    let rxs = match kick_off(plan, Arc::clone(&ctx)) {
                        Ok(r) => r,
                        Err(e) => return if source.broken.is_some() { Ok(()) } else { Err(format!("sampling could not start: {e}")) },
                    };
                    if source.broken.is_some() { return Err("an input that cannot start is sampled without an error".into()); }
                    if rxs.len() != items.len() { return Err(format!("{} reports for {} partitions", rxs.len(), items.len())); }
                    let mut reports = vec![];
                    if wait {
                        for (p, rx) in rxs.into_iter().enumerate() {
                            let Ok(info) = rx.await else { return Err(format!("no report for partition {p}")); };
                            if info.partition != p { return Err(format!("the report of partition {p} says partition {}", info.partition)); }
                            if let Err(e) = figures_fit(&info, &items[p]) { return Err(format!("partition {p}: {e}")); }
                            reports.push(info);
                        }
                    } else {
                        for (p, rx) in rxs.into_iter().enumerate() { let it = items[p].clone(); reports.clear(); tokio::spawn(async move { if let Ok(i) = rx.await { let _ = figures_fit(&i, &it); } }); }
                    }
                    for p in order {
                        let stream = node.execute(p, Arc::clone(&ctx)).map_err(|e| format!("partition {p} cannot be read: {e}"))?;
                        let got: Vec<String> = stream.map(|r| show(&r)).collect().await;
                        let want = expected(&items[p]);
                        if upto_error(got.clone()) != want { return Err(format!("partition {p} passes on {got:?} instead of {want:?}")); }
                        if node.execute(p, Arc::clone(&ctx)).is_ok() { return Err(format!("partition {p} can be read twice")); }
                    }
                    let runs = source.runs.lock().unwrap().clone();
                    if runs.iter().any(|r| *r != 1) { return Err(format!("partitions of the input were run {runs:?} times")); }
                    let held = ctx.memory_pool().reserved();
                    if held != 0 { return Err(format!("{held} bytes are still reserved after everything was read")); }
                    Ok(())
                }).await.unwrap_or_else(|_| Err("it hangs".into()))
            })
        }));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => s.fail(format!("{what}: {e}")),
            Err(_) => s.fail(format!("{what}: panic {}", LAST_PANIC.lock().unwrap().clone())),
        }
    }
    s
}
