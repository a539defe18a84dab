//! Injected into src/coordinator/mod.rs for C23.
pub(crate) use super::prepare_dynamic_plan::vp_inject::rebuild;
