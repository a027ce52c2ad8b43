//! Stand-in for `mpz-vm-core`.
pub use mpzsim::vm::{Call, CallBuilder, CallError, Callable, CallableExt, Execute, Vm, VmError, VmExt, mask_blind, mask_private};
/// Memory.
pub mod memory {
    pub use mpzsim::memory::*;
}
/// Everything usual.
pub mod prelude {
    pub use mpzsim::memory::{Array, FromRaw, Memory, MemoryExt, Repr, StaticSize, ToRaw, Vector, View, ViewExt};
    pub use mpzsim::vm::{Callable, CallableExt, Execute, Vm, VmExt};
}
