//! Stand-in for `mpz-memory-core`.
pub use mpzsim::memory::*;
