//! Injected into src/coordinator/distributed.rs for C22.
use super::*;
/// a node whose query has run
pub(crate) fn executed(base: Arc<dyn ExecutionPlan>, shown: Arc<dyn ExecutionPlan>, head: Arc<dyn ExecutionPlan>, store: Option<Arc<MetricsStore>>) -> DistributedExec {
    let mut d = DistributedExec::new(base);
    *d.plan_for_viz.lock().unwrap() = Some(shown);
    *d.head_stage.lock().unwrap() = Some(head);
    d.metrics_store = store;
    d
}
