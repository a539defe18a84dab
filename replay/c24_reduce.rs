use super::*;
use datafusion::common::Result;
use datafusion::config::ConfigOptions;
use datafusion::physical_plan::ExecutionPlan;
use std::sync::Arc;
pub(crate) fn reduce(plan: Arc<dyn ExecutionPlan>, on: bool) -> Result<Arc<dyn ExecutionPlan>> {
    let mut cfg = ConfigOptions::default();
    let mut d = DistributedConfig::default();
    d.partial_reduce = on;
    cfg.extensions.insert(d);
    partial_reduce_below_network_shuffles::partial_reduce_below_network_shuffles(plan, &cfg)
}
