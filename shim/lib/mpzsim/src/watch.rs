//! What monitors see of a computation, and the faults they can inject.
//!
//! Everything is per thread: a case runs both parties on one thread.
use std::cell::RefCell;

/// Which side and kind of computation.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[allow(missing_docs)]
pub enum Role {
    Ideal,
    Garbler,
    Evaluator,
    Prover,
    Verifier,
}
/// An observed event.
#[derive(Debug, Clone)]
#[allow(missing_docs)]
pub enum Event {
    /// A value was decoded: the party of this machine now knows it.
    Decode { role: Role, ptr: usize, bits: Vec<bool> },
    /// A circuit was evaluated.
    Eval { role: Role, call: usize },
    /// A private value was committed.
    Private { role: Role, ptr: usize, bits: Vec<bool> },
}
/// A hook on the result of an evaluation.
pub type Fault = Box<dyn FnMut(Role, usize, &mut Vec<bool>)>;
/// A hook on a share conversion's result at the receiver (which conversion, which element, big-endian bytes).
pub type ShareFault = Box<dyn FnMut(usize) -> bool>;
/// A hook on private values sent to the peer.
pub type InputFault = Box<dyn FnMut(Role, usize, &mut Vec<bool>)>;

thread_local! {
    static LOG: RefCell<Option<Vec<Event>>> = const { RefCell::new(None) };
    static FAULT: RefCell<Option<Fault>> = const { RefCell::new(None) };
    static SHARE: RefCell<Option<ShareFault>> = const { RefCell::new(None) };
    static ZERO: RefCell<Option<ShareFault>> = const { RefCell::new(None) };
    static INPUT: RefCell<Option<InputFault>> = const { RefCell::new(None) };
    static ASSIGN: RefCell<Option<InputFault>> = const { RefCell::new(None) };
}
thread_local! {
    static AGREE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// The prover of a proof claims whatever the verifier's side of it comes to, and takes part in
/// every opening: the strongest lie which a sound proof system leaves.
pub fn set_agree(on: bool) {
    AGREE.set(on);
}
pub(crate) fn agree() -> bool {
    AGREE.get()
}
/// Starts recording.
pub fn start() {
    LOG.set(Some(vec![]));
}
/// Stops recording.
pub fn take() -> Vec<Event> {
    LOG.take().unwrap_or_default()
}
/// Sets the evaluation fault.
pub fn set_fault(f: Option<Fault>) {
    FAULT.set(f);
}
/// Sets the share fault.
pub fn set_share_fault(f: Option<ShareFault>) {
    SHARE.set(f);
}
/// Sets which shares come out as zero.
pub fn set_share_zero(f: Option<ShareFault>) {
    ZERO.set(f);
}
/// Sets a hook on the private values a machine is given.
pub fn set_assign_fault(f: Option<InputFault>) {
    ASSIGN.set(f);
}
/// Sets the input fault.
pub fn set_input_fault(f: Option<InputFault>) {
    INPUT.set(f);
}
pub(crate) fn log(e: impl FnOnce() -> Event) {
    LOG.with_borrow_mut(|l| {
        if let Some(l) = l {
            l.push(e())
        }
    })
}
pub(crate) fn fault(r: Role, call: usize, out: &mut Vec<bool>) {
    FAULT.with_borrow_mut(|f| {
        if let Some(f) = f {
            f(r, call, out)
        }
    })
}
pub(crate) fn input_fault(r: Role, ptr: usize, bits: &mut Vec<bool>) {
    INPUT.with_borrow_mut(|f| {
        if let Some(f) = f {
            f(r, ptr, bits)
        }
    })
}
pub(crate) fn share_fault(n: usize) -> bool {
    SHARE.with_borrow_mut(|f| f.as_mut().is_some_and(|f| f(n)))
}
pub(crate) fn share_zero(n: usize) -> bool {
    ZERO.with_borrow_mut(|f| f.as_mut().is_some_and(|f| f(n)))
}
pub(crate) fn assign_fault(r: Role, ptr: usize, bits: &mut Vec<bool>) {
    ASSIGN.with_borrow_mut(|f| {
        if let Some(f) = f {
            f(r, ptr, bits)
        }
    })
}
