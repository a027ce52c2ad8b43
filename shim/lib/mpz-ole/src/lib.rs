//! Stand-in for `mpz-ole`.
pub use mpzsim::ot::ole::*;
