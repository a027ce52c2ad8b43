//! Stand-in for `mpz-garble`.
/// Protocols.
pub mod protocol {
    /// Semi-honest.
    pub mod semihonest {
        pub use mpzsim::vm::{Evaluator, Garbler};
    }
}
