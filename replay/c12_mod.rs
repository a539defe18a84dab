pub use super::distributed_codec::vp_inject::*;
