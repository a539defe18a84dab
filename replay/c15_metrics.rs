//! the conversions under search, which live in private modules
pub(crate) use super::generated::worker as pb;
pub use super::metrics_proto::{df_metrics_set_to_proto, metrics_set_proto_to_df};
