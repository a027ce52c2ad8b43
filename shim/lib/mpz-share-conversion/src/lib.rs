//! Stand-in for `mpz-share-conversion`.
pub use mpzsim::share::*;
