//! Stand-in for `mpz-circuits`.
pub use mpzsim::circuits::*;
