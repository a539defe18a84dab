//! Injected into src/coordinator/prepare_dynamic_plan.rs for C23.
use super::*;
/// stores the plans of a query's stages as a dynamic preparation does, and puts the plan together again
pub(crate) fn rebuild(stages: Vec<(usize, Arc<dyn ExecutionPlan>)>, head: &Arc<dyn ExecutionPlan>) -> Result<Arc<dyn ExecutionPlan>> {
    let r = PlanReconstructor::default();
    for (n, p) in stages { r.insert(n, p, MetricsSet::new()); }
    r.reconstruct(head)
}
