//! Stand-in for `mpz-common`.
pub use mpzsim::common::*;
