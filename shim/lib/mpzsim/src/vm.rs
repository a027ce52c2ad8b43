//! `mpz-vm-core` and the machines.
use crate::{
    circuits::Circuit,
    common::Context,
    core::bitvec::BitVec,
    memory::{self, DecodeFuture, DecodeOp, FromRaw, Memory, Repr, Slice, ToRaw, View, binary::Binary},
    watch::{self, Event, Role},
};
use async_trait::async_trait;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

/// Error of a machine.
#[derive(Debug, thiserror::Error)]
#[error("vm: {kind}: {source}")]
pub struct VmError {
    kind: &'static str,
    source: Box<dyn std::error::Error + Send + Sync>,
}
macro_rules! ctors {
    ($($n:ident),*) => {$(
        /// An error.
        pub fn $n<E: Into<Box<dyn std::error::Error + Send + Sync>>>(e: E) -> Self {
            VmError { kind: stringify!($n), source: e.into() }
        }
    )*};
}
impl VmError {
    ctors!(memory, execute, call, view, flush, preprocess);
}
impl From<CallError> for VmError {
    fn from(e: CallError) -> Self {
        VmError::call(e)
    }
}

/// Not a call.
#[derive(Debug, Clone, thiserror::Error)]
#[error("call: {0}")]
pub struct CallError(String);
/// A circuit with its inputs.
#[derive(Debug, Clone)]
pub struct Call {
    circ: Arc<Circuit>,
    inputs: Vec<Slice>,
}
impl Call {
    /// Builder.
    pub fn builder(circ: Arc<Circuit>) -> CallBuilder {
        CallBuilder::new(circ)
    }
    /// Parts.
    pub fn into_parts(self) -> (Arc<Circuit>, Vec<Slice>) {
        (self.circ, self.inputs)
    }
}
/// Builds calls.
#[derive(Debug)]
pub struct CallBuilder(Call);
impl CallBuilder {
    /// Of a circuit.
    pub fn new(circ: Arc<Circuit>) -> Self {
        CallBuilder(Call { circ, inputs: vec![] })
    }
    /// The next input.
    pub fn arg<T: ToRaw>(mut self, v: T) -> Self {
        self.0.inputs.push(v.to_raw());
        self
    }
    /// Finishes.
    pub fn build(self) -> Result<Call, CallError> {
        let n: usize = self.0.inputs.iter().map(|s| s.len()).sum();
        if n != self.0.circ.inputs_len() {
            return Err(CallError(format!("{n} bits of input for {:?}", self.0.circ)));
        }
        Ok(self.0)
    }
}
/// Calls circuits.
pub trait Callable<M> {
    /// Calls.
    fn call_raw(&mut self, call: Call) -> Result<Slice, VmError>;
}
/// Typed calls.
pub trait CallableExt<M>: Callable<M> {
    /// Calls.
    fn call<T: FromRaw<M>>(&mut self, call: Call) -> Result<T, VmError> {
        self.call_raw(call).map(T::from_raw)
    }
}
impl<M, V: Callable<M> + ?Sized> CallableExt<M> for V {}

/// Runs.
#[async_trait]
pub trait Execute {
    /// Whether `flush` has something to do.
    fn wants_flush(&self) -> bool;
    /// Exchanges.
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    /// Whether `preprocess` has something to do.
    fn wants_preprocess(&self) -> bool;
    /// Preprocesses.
    async fn preprocess(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    /// Whether `execute` has something to do.
    fn wants_execute(&self) -> bool;
    /// Executes.
    async fn execute(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    /// All of it.
    async fn execute_all(&mut self, ctx: &mut Context) -> Result<(), VmError> {
        if self.wants_flush() {
            self.flush(ctx).await?;
        }
        if self.wants_preprocess() {
            self.preprocess(ctx).await?;
        }
        if self.wants_execute() {
            self.execute(ctx).await?;
        }
        if self.wants_flush() {
            self.flush(ctx).await?;
        }
        Ok(())
    }
}
/// A machine.
pub trait Vm<M>: Memory<M, Error = VmError> + View<M, Error = VmError> + Callable<M> + Execute {}
impl<M, V: Memory<M, Error = VmError> + View<M, Error = VmError> + Callable<M> + Execute + ?Sized> Vm<M> for V {}

/// Masks a value with a one-time pad known to this party.
pub fn mask_private<V: Vm<Binary> + ?Sized, T: Repr<Binary>>(vm: &mut V, value: T, otp: T::Clear) -> Result<T, VmError> {
    let s = value.to_raw();
    let pad = vm.alloc_raw(s.len())?;
    vm.mark_private_raw(pad)?;
    let mut b = vec![];
    memory::ClearValue::to_bits(&otp, &mut b);
    vm.assign_raw(pad, BitVec(b))?;
    vm.commit_raw(pad)?;
    let call = Call::builder(Arc::new(crate::circuits::circuits::xor(s.len()))).arg(s).arg(pad).build()?;
    vm.call_raw(call).map(T::from_raw)
}
/// Masks a value with a one-time pad known to the other party.
pub fn mask_blind<V: Vm<Binary> + ?Sized, T: Repr<Binary>>(vm: &mut V, value: T) -> Result<T, VmError> {
    let s = value.to_raw();
    let pad = vm.alloc_raw(s.len())?;
    vm.mark_blind_raw(pad)?;
    vm.commit_raw(pad)?;
    let call = Call::builder(Arc::new(crate::circuits::circuits::xor(s.len()))).arg(s).arg(pad).build()?;
    vm.call_raw(call).map(T::from_raw)
}
/// The same as methods.
pub trait VmExt: Vm<Binary> {
    /// Masks a value with a one-time pad known to this party.
    fn mask_private<T: Repr<Binary>>(&mut self, value: T, otp: T::Clear) -> Result<T, VmError> {
        mask_private(self, value, otp)
    }
    /// Masks a value with a one-time pad known to the other party.
    fn mask_blind<T: Repr<Binary>>(&mut self, value: T) -> Result<T, VmError> {
        mask_blind(self, value)
    }
}
impl<V: Vm<Binary> + ?Sized> VmExt for V {}

const PUB: u8 = 1;
const PRIV: u8 = 2;
const BLIND: u8 = 4;
const ASSIGNED: u8 = 8;
const COMMITTED: u8 = 16;
const OUT: u8 = 32;
const DECODED: u8 = 64;
const HAVE: u8 = 128;

#[derive(Debug)]
struct Pending {
    id: usize,
    call: Call,
    out: Slice,
    pre: bool,
}
#[derive(Serialize, Deserialize, Default)]
struct Exchange {
    inputs: Vec<(usize, Vec<bool>)>,
    decodes: Vec<(usize, usize, Vec<bool>)>,
}
/// The state of a machine.
#[derive(Debug)]
pub struct Machine {
    role: Role,
    val: Vec<bool>,
    fl: Vec<u8>,
    calls: Vec<Pending>,
    ncalls: usize,
    send: Vec<Slice>,
    expect: usize,
    ops: Vec<(Slice, DecodeOp<BitVec>)>,
    peer_ops: Vec<(usize, usize, Vec<bool>)>,
}
fn scramble(b: &mut [u8]) {
    let mut x = 0x9e37_79b9_7f4a_7c15u64;
    for c in b {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *c ^= x as u8;
    }
}
pub(crate) async fn put<T: Serialize>(ctx: &mut Context, v: &T) -> std::io::Result<()> {
    let mut b = bincode::serialize(v).expect("serializes");
    scramble(&mut b);
    ctx.io_mut().put_bytes(&b).await
}
pub(crate) async fn take<T: for<'a> Deserialize<'a>>(ctx: &mut Context) -> std::io::Result<T> {
    let mut b = ctx.io_mut().take_bytes().await.ok_or(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))??;
    scramble(&mut b);
    bincode::deserialize(&b).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))
}
impl Machine {
    fn new(role: Role) -> Self {
        Machine { role, val: vec![], fl: vec![], calls: vec![], ncalls: 0, send: vec![], expect: 0, ops: vec![], peer_ops: vec![] }
    }
    fn check(&self, s: Slice) -> Result<std::ops::Range<usize>, VmError> {
        let r = s.to_range();
        if r.end > self.fl.len() || r.end < r.start {
            return Err(VmError::memory(format!("{s} is not allocated")));
        }
        Ok(r)
    }
    fn all(&self, s: Slice, f: u8) -> bool {
        self.check(s).is_ok_and(|r| self.fl[r].iter().all(|x| x & f == f))
    }
    fn mark(&mut self, s: Slice, f: u8) -> Result<(), VmError> {
        let r = self.check(s)?;
        for x in &mut self.fl[r] {
            if *x & (PUB | PRIV | BLIND | OUT) != 0 {
                return Err(VmError::view(format!("visibility of {s} is already set")));
            }
            *x |= f;
        }
        Ok(())
    }
    fn ready(&self, s: Slice) -> bool {
        self.all(s, COMMITTED | HAVE)
    }
    fn ready_ops(&self) -> bool {
        self.ops.iter().any(|(s, _)| self.ready(*s))
    }
    fn wants(&self) -> bool {
        !self.send.is_empty() || self.expect > 0 || self.ready_ops()
    }
    fn bits(&self, s: Slice) -> Vec<bool> {
        self.val[s.to_range()].to_vec()
    }
    fn can_run(&self) -> bool {
        self.calls.iter().any(|c| c.call.inputs.iter().all(|s| self.ready(*s)))
    }
    fn run(&mut self) {
        let mut calls = std::mem::take(&mut self.calls);
        loop {
            let before = calls.len();
            calls.retain(|c| {
                if !c.call.inputs.iter().all(|s| self.ready(*s)) {
                    return true;
                }
                let mut input = Vec::with_capacity(c.call.circ.inputs_len());
                c.call.inputs.iter().for_each(|s| input.extend_from_slice(&self.val[s.to_range()]));
                let mut out = c.call.circ.run(&input);
                watch::fault(self.role, c.id, &mut out);
                watch::log(|| Event::Eval { role: self.role, call: c.id });
                for (i, b) in c.out.to_range().zip(out) {
                    self.val[i] = b;
                    self.fl[i] |= COMMITTED | HAVE;
                }
                false
            });
            if calls.len() == before {
                break;
            }
        }
        self.calls = calls;
    }
    async fn exchange(&mut self, ctx: &mut Context) -> Result<(), VmError> {
        let mut ex = Exchange::default();
        for s in std::mem::take(&mut self.send) {
            let mut b = self.bits(s);
            watch::input_fault(self.role, s.ptr, &mut b);
            ex.inputs.push((s.ptr, b));
            self.fl[s.to_range()].iter_mut().for_each(|f| *f |= HAVE);
        }
        for (s, _) in &self.ops {
            if self.ready(*s) {
                // the verifier and the evaluator assert nothing
                let b = if matches!(self.role, Role::Verifier | Role::Evaluator) { vec![] } else { self.bits(*s) };
                ex.decodes.push((s.ptr, s.size, b));
            }
        }
        put(ctx, &ex).await.map_err(VmError::flush)?;
        let got: Exchange = take(ctx).await.map_err(VmError::flush)?;
        for (ptr, b) in got.inputs {
            let s = Slice { ptr, size: b.len() };
            let r = self.check(s)?;
            for (i, b) in r.zip(b) {
                if self.fl[i] & BLIND == 0 || self.fl[i] & HAVE != 0 {
                    return Err(VmError::flush(format!("unexpected input at {i}")));
                }
                self.val[i] = b;
                self.fl[i] |= HAVE;
                if self.fl[i] & COMMITTED != 0 {
                    self.expect -= 1;
                }
            }
        }
        self.peer_ops.extend(got.decodes);
        self.resolve()
    }
    fn resolve(&mut self) -> Result<(), VmError> {
        let ops = std::mem::take(&mut self.ops);
        for (s, op) in ops {
            let theirs = self.peer_ops.iter().position(|(p, n, b)| *p == s.ptr && *n == s.size && (b.is_empty() || b.len() == s.size));
            let agreed = self.role == Role::Verifier && watch::agree() && self.ready(s);
            if agreed && theirs.is_none() {
                self.peer_ops.push((s.ptr, s.size, vec![]));
            }
            let theirs = if agreed { theirs.or(Some(self.peer_ops.len() - 1)) } else { theirs };
            let Some(k) = theirs.filter(|_| self.ready(s)) else {
                // a party which does not take part in an opening is noticed
                if self.ready(s) && self.role == Role::Ideal {
                    return Err(VmError::flush(format!("the other party does not open {s}")));
                }
                self.ops.push((s, op));
                continue;
            };
            let (_, _, claimed) = self.peer_ops.remove(k);
            let mut v = self.bits(s);
            match self.role {
                // what the prover claims must follow from its inputs
                Role::Verifier if claimed != v && !agreed => return Err(VmError::execute(format!("proof of {s} does not verify"))),
                // the garbler decides what the evaluator decodes
                Role::Evaluator if !claimed.is_empty() => v = claimed,
                _ => {}
            }
            let r = s.to_range();
            self.val[r.clone()].copy_from_slice(&v);
            self.fl[r].iter_mut().for_each(|f| *f |= DECODED);
            watch::log(|| Event::Decode { role: self.role, ptr: s.ptr, bits: v.clone() });
            op.set(BitVec(v));
        }
        Ok(())
    }
}
impl Memory<Binary> for Machine {
    type Error = VmError;
    fn is_alloc_raw(&self, s: Slice) -> bool {
        self.check(s).is_ok()
    }
    fn alloc_raw(&mut self, size: usize) -> Result<Slice, VmError> {
        let ptr = self.fl.len();
        self.fl.resize(ptr + size, 0);
        self.val.resize(ptr + size, false);
        Ok(Slice { ptr, size })
    }
    fn is_assigned_raw(&self, s: Slice) -> bool {
        self.all(s, ASSIGNED)
    }
    fn assign_raw(&mut self, s: Slice, mut data: BitVec) -> Result<(), VmError> {
        let r = self.check(s)?;
        if self.fl[r.clone()].iter().all(|f| f & PRIV != 0) {
            watch::assign_fault(self.role, s.ptr, &mut data.0);
        }
        if data.len() != s.size {
            return Err(VmError::memory(format!("{} bits for {s}", data.len())));
        }
        for (i, b) in r.zip(data.0) {
            if self.fl[i] & (BLIND | OUT) != 0 || self.fl[i] & (PUB | PRIV) == 0 {
                return Err(VmError::memory(format!("{s} can not be assigned")));
            }
            if self.fl[i] & (ASSIGNED | COMMITTED) != 0 {
                return Err(VmError::memory(format!("{s} is already assigned")));
            }
            self.val[i] = b;
            self.fl[i] |= ASSIGNED;
        }
        Ok(())
    }
    fn is_committed_raw(&self, s: Slice) -> bool {
        self.all(s, COMMITTED)
    }
    fn commit_raw(&mut self, s: Slice) -> Result<(), VmError> {
        let r = self.check(s)?;
        let mut run: Option<usize> = None;
        for i in r.clone() {
            let f = self.fl[i];
            if f & COMMITTED != 0 {
                return Err(VmError::memory(format!("{s} is already committed")));
            }
            if f & (PUB | PRIV | BLIND) == 0 {
                return Err(VmError::memory(format!("{s} has no visibility")));
            }
            if f & (PUB | PRIV) != 0 && f & ASSIGNED == 0 {
                return Err(VmError::memory(format!("{s} is not assigned")));
            }
            self.fl[i] |= COMMITTED;
            match f & (PUB | PRIV | BLIND) {
                PUB => self.fl[i] |= HAVE,
                PRIV => {
                    run.get_or_insert(i);
                    if i + 1 < r.end && self.fl[i + 1] & PRIV != 0 {
                        continue;
                    }
                }
                _ if f & HAVE == 0 => self.expect += 1,
                _ => {}
            }
            if let Some(a) = run.take() {
                let t = Slice { ptr: a, size: i + 1 - a };
                watch::log(|| Event::Private { role: self.role, ptr: a, bits: self.bits(t) });
                self.send.push(t);
            }
        }
        Ok(())
    }
    fn get_raw(&self, s: Slice) -> Result<Option<BitVec>, VmError> {
        let r = self.check(s)?;
        let known = self.fl[r].iter().all(|f| f & DECODED != 0 || f & ASSIGNED != 0);
        Ok(known.then(|| BitVec(self.bits(s))))
    }
    fn decode_raw(&mut self, s: Slice) -> Result<DecodeFuture<BitVec>, VmError> {
        self.check(s)?;
        let (op, f) = DecodeOp::new();
        if self.all(s, DECODED) {
            op.set(BitVec(self.bits(s)));
        } else {
            self.ops.push((s, op));
        }
        Ok(f)
    }
}
impl View<Binary> for Machine {
    type Error = VmError;
    fn mark_public_raw(&mut self, s: Slice) -> Result<(), VmError> {
        self.mark(s, PUB)
    }
    fn mark_private_raw(&mut self, s: Slice) -> Result<(), VmError> {
        match self.role {
            Role::Verifier => Err(VmError::view("the verifier has no private inputs")),
            _ => self.mark(s, PRIV),
        }
    }
    fn mark_blind_raw(&mut self, s: Slice) -> Result<(), VmError> {
        match self.role {
            Role::Prover => Err(VmError::view("the prover has no blind inputs")),
            _ => self.mark(s, BLIND),
        }
    }
}
impl Callable<Binary> for Machine {
    fn call_raw(&mut self, call: Call) -> Result<Slice, VmError> {
        for s in &call.inputs {
            self.check(*s)?;
        }
        let out = self.alloc_raw(call.circ.outputs_len())?;
        self.fl[out.to_range()].iter_mut().for_each(|f| *f |= OUT);
        self.calls.push(Pending { id: self.ncalls, call, out, pre: false });
        self.ncalls += 1;
        Ok(out)
    }
}
#[async_trait]
impl Execute for Machine {
    fn wants_flush(&self) -> bool {
        self.wants()
    }
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError> {
        self.exchange(ctx).await
    }
    fn wants_preprocess(&self) -> bool {
        self.role != Role::Ideal && self.calls.iter().any(|c| !c.pre)
    }
    async fn preprocess(&mut self, ctx: &mut Context) -> Result<(), VmError> {
        let n = self.calls.iter().filter(|c| !c.pre).count() as u64;
        self.calls.iter_mut().for_each(|c| c.pre = true);
        put(ctx, &n).await.map_err(VmError::preprocess)?;
        let m: u64 = take(ctx).await.map_err(VmError::preprocess)?;
        if n != m {
            return Err(VmError::preprocess(format!("{n} calls, and {m} at the other side")));
        }
        Ok(())
    }
    fn wants_execute(&self) -> bool {
        self.can_run()
    }
    async fn execute(&mut self, ctx: &mut Context) -> Result<(), VmError> {
        self.run();
        if self.ready_ops() {
            self.exchange(ctx).await?;
        }
        Ok(())
    }
}

macro_rules! machine {
    ($n:ident [$($g:ident),*]) => {
        /// A machine.
        pub struct $n<$($g),*> {
            m: Machine,
            p: std::marker::PhantomData<fn() -> ($($g,)*)>,
        }
        impl<$($g),*> std::fmt::Debug for $n<$($g),*> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($n))
            }
        }
        impl<$($g),*> Memory<Binary> for $n<$($g),*> {
            type Error = VmError;
            fn is_alloc_raw(&self, s: Slice) -> bool { self.m.is_alloc_raw(s) }
            fn alloc_raw(&mut self, size: usize) -> Result<Slice, VmError> { self.m.alloc_raw(size) }
            fn is_assigned_raw(&self, s: Slice) -> bool { self.m.is_assigned_raw(s) }
            fn assign_raw(&mut self, s: Slice, d: BitVec) -> Result<(), VmError> { self.m.assign_raw(s, d) }
            fn is_committed_raw(&self, s: Slice) -> bool { self.m.is_committed_raw(s) }
            fn commit_raw(&mut self, s: Slice) -> Result<(), VmError> { self.m.commit_raw(s) }
            fn get_raw(&self, s: Slice) -> Result<Option<BitVec>, VmError> { self.m.get_raw(s) }
            fn decode_raw(&mut self, s: Slice) -> Result<DecodeFuture<BitVec>, VmError> { self.m.decode_raw(s) }
        }
        impl<$($g),*> View<Binary> for $n<$($g),*> {
            type Error = VmError;
            fn mark_public_raw(&mut self, s: Slice) -> Result<(), VmError> { self.m.mark_public_raw(s) }
            fn mark_private_raw(&mut self, s: Slice) -> Result<(), VmError> { self.m.mark_private_raw(s) }
            fn mark_blind_raw(&mut self, s: Slice) -> Result<(), VmError> { self.m.mark_blind_raw(s) }
        }
        impl<$($g),*> Callable<Binary> for $n<$($g),*> {
            fn call_raw(&mut self, c: Call) -> Result<Slice, VmError> { self.m.call_raw(c) }
        }
        #[async_trait]
        impl<$($g: 'static),*> Execute for $n<$($g),*> {
            fn wants_flush(&self) -> bool { self.m.wants_flush() }
            async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError> { self.m.flush(ctx).await }
            fn wants_preprocess(&self) -> bool { self.m.wants_preprocess() }
            async fn preprocess(&mut self, ctx: &mut Context) -> Result<(), VmError> { self.m.preprocess(ctx).await }
            fn wants_execute(&self) -> bool { self.m.wants_execute() }
            async fn execute(&mut self, ctx: &mut Context) -> Result<(), VmError> { self.m.execute(ctx).await }
        }
    };
}
machine!(IdealVm []);
machine!(Garbler [T]);
machine!(Evaluator [T]);
machine!(Prover [T]);
machine!(Verifier [T]);
macro_rules! new {
    ($n:ident, $r:ident [$($g:ident),*] $($a:ident : $t:ty),*) => {
        impl<$($g),*> $n<$($g),*> {
            /// New.
            pub fn new($($a: $t),*) -> Self {
                $(let _ = $a;)*
                Self { m: Machine::new(Role::$r), p: std::marker::PhantomData }
            }
        }
    };
}
/// Options of the proving machines.
#[derive(Debug, Default, Clone)]
pub struct ZkConfig;
new!(IdealVm, Ideal []);
new!(Garbler, Garbler [T] cot: T, seed: [u8; 16], delta: crate::ot::Delta);
new!(Evaluator, Evaluator [T] cot: T);
new!(Prover, Prover [T] config: ZkConfig, rcot: T);
new!(Verifier, Verifier [T] config: ZkConfig, delta: crate::ot::Delta, rcot: T);
impl Default for IdealVm {
    fn default() -> Self {
        Self::new()
    }
}
