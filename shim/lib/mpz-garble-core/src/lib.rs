//! Stand-in for `mpz-garble-core`.
pub use mpzsim::ot::Delta;
