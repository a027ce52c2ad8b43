//! Stand-in for `mpz-hash`.
pub use mpzsim::hash::*;
