//! Injected into src/distributed_planner/mod.rs for C10 and the properties that run whole plans.
use datafusion::common::Result;
use datafusion::physical_plan::ExecutionPlan;
use std::sync::Arc;
pub(crate) fn prepare(p: Arc<dyn ExecutionPlan>) -> Result<Arc<dyn ExecutionPlan>> { super::prepare_network_boundaries::prepare_network_boundaries(p) }
