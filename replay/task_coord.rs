//! Injected into src/coordinator/query_coordinator.rs for C06 and C11.
use super::*;
/// what the coordinator sends to task `t` of a stage with `tasks` tasks
pub(crate) fn plan_of_task(plan: &Arc<dyn ExecutionPlan>, t: usize, tasks: usize, ctx: &Arc<TaskContext>) -> Result<Arc<dyn ExecutionPlan>> {
    let set = ExecutionPlanMetricsSet::new();
    let st = StageCoordinator {
        plan,
        query_id: Uuid::from_u128(7),
        stage_id: 0,
        task_count: tasks,
        task_ctx: ctx,
        metrics_set: &set,
        metrics: &CoordinatorToWorkerMetrics::new(&set),
        metrics_store: &None,
        end_stream_notifier: &Arc::new(Notify::new()),
        join_set: &Mutex::new(JoinSet::new()),
    };
    st.task_specialized_plan(t).map(|x| x.0)
}
