//! Stand-in for `mpz-fields`.
pub use mpzsim::fields::*;
