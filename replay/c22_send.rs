//! Injected into src/worker/impl_coordinator_channel.rs for C22.
use super::*;
/// what the worker reports for a task
pub(crate) fn report(plan: &Arc<dyn ExecutionPlan>, ctx: DistributedTaskContext) -> TaskMetrics {
    let (tx, mut rx) = tokio::sync::oneshot::channel();
    send_metrics_via_channel(tx, plan, ctx, &Arc::new(TaskDataMetrics::new(1)));
    rx.try_recv().expect("nothing was sent")
}
