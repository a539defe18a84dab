//! the conversions under search, which live in a private module
pub use super::errors::{datafusion_error_to_tonic_status, map_flight_to_datafusion_error, map_status_to_datafusion_error};
