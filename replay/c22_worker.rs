//! Injected into src/worker/mod.rs for C22.
pub(crate) use super::impl_coordinator_channel::vp_inject::report;
