//! Injected into src/execution_plans/sampler.rs for C21.
use super::*;
pub(crate) fn sampler(input: Arc<dyn ExecutionPlan>) -> Arc<dyn ExecutionPlan> { Arc::new(SamplerExec::new(input)) }
pub(crate) fn kick_off(plan: Arc<dyn ExecutionPlan>, ctx: Arc<TaskContext>) -> Result<Vec<oneshot::Receiver<LoadInfo>>> { SamplerExec::kick_off_first_sampler(plan, ctx) }
