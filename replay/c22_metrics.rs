//! Injected into src/metrics/mod.rs for C22.
pub(crate) use super::task_metrics_rewriter::{RewriteCtx, rewrite_local_plan_with_metrics, stage_metrics_rewriter};
