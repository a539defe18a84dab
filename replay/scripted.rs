//! A plan node whose partitions yield scripted items.
#![allow(dead_code)]
use datafusion::arrow::array::{Int64Array, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::common::Result;
use datafusion::error::DataFusionError;
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::EquivalenceProperties;
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, Partitioning, PhysicalExpr, PlanProperties};
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::prelude::SessionContext;
use futures::{Stream, StreamExt as _};
use std::sync::{Arc, Mutex};
use std::task::Poll;

#[derive(Clone, Debug)]
pub enum Item { Row(i64), Err(String), Pend }

/// A source whose partitions yield scripted items and which counts how often each is executed.
#[derive(Debug)]
pub struct Scripted { pub items: Vec<Vec<Item>>, pub props: Arc<PlanProperties>, pub runs: Mutex<Vec<usize>>, pub fail_execute: bool }
pub fn vschema() -> SchemaRef { Arc::new(Schema::new(vec![Field::new("v", DataType::Int64, false)])) }
pub fn vbatch(v: i64) -> RecordBatch { RecordBatch::try_new(vschema(), vec![Arc::new(Int64Array::from(vec![v]))]).unwrap() }
pub fn vof(b: &RecordBatch) -> i64 { b.column(0).as_any().downcast_ref::<Int64Array>().unwrap().value(0) }
impl Scripted {
    pub fn new(items: Vec<Vec<Item>>) -> Arc<Self> {
        let n = items.len();
        Arc::new(Scripted { items, runs: Mutex::new(vec![0; n]), fail_execute: false, props: Arc::new(PlanProperties::new(EquivalenceProperties::new(vschema()), Partitioning::UnknownPartitioning(n), EmissionType::Incremental, Boundedness::Bounded)) })
    }
}
impl DisplayAs for Scripted { fn fmt_as(&self, _t: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Scripted") } }
impl ExecutionPlan for Scripted {
    fn name(&self) -> &str { "Scripted" }
    fn properties(&self) -> &Arc<PlanProperties> { &self.props }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> { Ok(TreeNodeRecursion::Continue) }
    fn with_new_children(self: Arc<Self>, _c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn execute(&self, partition: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        self.runs.lock().unwrap()[partition] += 1;
        if self.fail_execute { return Err(DataFusionError::Execution(format!("no{partition}"))); }
        Ok(Box::pin(RecordBatchStreamAdapter::new(vschema(), scripted_stream(self.items[partition].clone()))))
    }
}
pub fn scripted_stream(items: Vec<Item>) -> impl Stream<Item = Result<RecordBatch>> + Send + 'static {
    let mut it = items.into_iter();
    futures::stream::poll_fn(move |cx| match it.next() {
        None => Poll::Ready(None),
        Some(Item::Row(v)) => Poll::Ready(Some(Ok(vbatch(v)))),
        Some(Item::Err(e)) => Poll::Ready(Some(Err(DataFusionError::Execution(e)))),
        Some(Item::Pend) => { cx.waker().wake_by_ref(); Poll::Pending }
    })
}
pub fn expected(items: &[Item]) -> Vec<String> {
    let mut out = vec![];
    for i in items {
        match i {
            Item::Row(v) => out.push(v.to_string()),
            Item::Err(e) => { out.push(format!("error {e}")); break; }
            Item::Pend => {}
        }
    }
    out
}
pub fn show(r: Result<RecordBatch>) -> String {
    match r { Ok(b) => vof(&b).to_string(), Err(e) => { let t = e.to_string(); format!("error {}", t.rsplit(": ").next().unwrap_or("")) } }
}

