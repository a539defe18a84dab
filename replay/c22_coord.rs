//! Injected into src/coordinator/mod.rs for C22.
pub(crate) use super::distributed::vp_inject::executed;
