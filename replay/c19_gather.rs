//! Injected into src/coordinator/prepare_dynamic_plan.rs for C19.
use super::*;
pub(crate) async fn gather(infos: Vec<Vec<LoadInfo>>, plan: &Arc<dyn ExecutionPlan>) -> Result<Statistics> {
    let streams: Vec<_> = infos.into_iter().map(futures::stream::iter).collect();
    gather_runtime_statistics(streams, plan).await.map(|x| x.0)
}
