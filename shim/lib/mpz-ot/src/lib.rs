//! Stand-in for `mpz-ot`.
pub use mpzsim::ot::{chou_orlandi, cot, ferret, ideal, kos, rcot, rot};
