//! Stand-in for `mpz-core`.
pub use mpzsim::core::*;
