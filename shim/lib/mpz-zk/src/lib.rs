//! Stand-in for `mpz-zk`.
pub use mpzsim::vm::{Prover, Verifier, ZkConfig};
