//! Stand-in for `mpz-ideal-vm`.
pub use mpzsim::vm::IdealVm;
