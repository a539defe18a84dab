//! Injected into src/coordinator/mod.rs for C17.
use crate::coordinator::distributed::PreparedPlan;
use crate::coordinator::prepare_dynamic_plan::prepare_dynamic_plan;
use crate::coordinator::prepare_static_plan::prepare_static_plan;
use crate::coordinator::query_coordinator::QueryCoordinator;
use datafusion::common::Result;
use datafusion::execution::TaskContext;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::physical_plan::ExecutionPlan;
use std::sync::Arc;
/// plans a query as `DistributedExec` does; gives the head stage and the plan that is shown
pub(crate) async fn prepare(ctx: &Arc<TaskContext>, plan: &Arc<dyn ExecutionPlan>, dynamic: bool) -> Result<(Arc<dyn ExecutionPlan>, Arc<dyn ExecutionPlan>)> {
    let q = QueryCoordinator::new(Arc::clone(ctx), &ExecutionPlanMetricsSet::new(), None);
    let r = if dynamic { prepare_dynamic_plan(&q, plan).await } else { prepare_static_plan(&q, plan) };
    let guard = q.end_query_guard();
    drop(guard);
    q.drain_pending_tasks().await?;
    r.map(|PreparedPlan { head_stage, plan_for_viz }| (head_stage, plan_for_viz))
}
