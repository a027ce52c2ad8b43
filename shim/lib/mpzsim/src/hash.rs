//! `mpz-hash`.
use crate::{
    circuits::Circuit,
    memory::{Array, FromRaw, MemoryExt, Slice, ToRaw, Vector, ViewExt, bits_of, binary::{Binary, U8, U32}, bytes_of},
    vm::{Call, Vm, VmError},
};
use std::sync::Arc;

macro_rules! error {
    ($n:ident) => {
        /// Error of a hash.
        #[derive(Debug, thiserror::Error)]
        #[error("hash: {0}")]
        pub struct $n(String);
        impl From<VmError> for $n {
            fn from(e: VmError) -> Self {
                $n(e.to_string())
            }
        }
    };
}
fn call(vm: &mut (impl Vm<Binary> + ?Sized), first: Option<Slice>, parts: &[Slice], out: usize, f: impl Fn(&[u8]) -> Vec<u8> + Send + Sync + 'static) -> Result<Slice, VmError> {
    let n: usize = first.iter().chain(parts).map(|s| s.len()).sum();
    let mut b = Call::builder(Arc::new(Circuit::native(n, out * 8, move |x| bits_of(&f(&bytes_of(x))))));
    for s in first.iter().chain(parts) {
        b = b.arg(*s);
    }
    vm.call_raw(b.build()?)
}

/// SHA-256.
pub mod sha256 {
    use super::*;
    error!(Sha256Error);
    const IV: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    /// SHA-256 over values of a machine.
    #[derive(Debug, Clone)]
    pub struct Sha256 {
        state: Array<U32, 8>,
        blocks: usize,
        parts: Vec<Slice>,
    }
    fn compress(st: &[u8], data: &[u8]) -> [u32; 8] {
        let mut s: [u32; 8] = std::array::from_fn(|i| u32::from_le_bytes(st[4 * i..4 * i + 4].try_into().unwrap()));
        for b in data.chunks_exact(64) {
            sha2::compress256(&mut s, &[*sha2::digest::generic_array::GenericArray::from_slice(b)]);
        }
        s
    }
    fn take(parts: &mut Vec<Slice>, mut bits: usize) -> Vec<Slice> {
        let mut r = vec![];
        while bits > 0 {
            let s = parts[0];
            if s.len() <= bits {
                r.push(parts.remove(0));
                bits -= s.len();
            } else {
                let a = s.to_range();
                r.push(Slice::from_range_unchecked(a.start..a.start + bits));
                parts[0] = Slice::from_range_unchecked(a.start + bits..a.end);
                bits = 0;
            }
        }
        r
    }
    impl Sha256 {
        /// From the start.
        pub fn new_with_init(vm: &mut (impl Vm<Binary> + ?Sized)) -> Result<Self, Sha256Error> {
            let state: Array<U32, 8> = vm.alloc()?;
            vm.mark_public(state)?;
            vm.assign(state, IV)?;
            vm.commit(state)?;
            Ok(Self::new_from_state(state, 0))
        }
        /// After `blocks` blocks.
        pub fn new_from_state(state: Array<U32, 8>, blocks: usize) -> Self {
            Sha256 { state, blocks, parts: vec![] }
        }
        /// The state after the compressed blocks.
        pub fn state(&self) -> Option<(Array<U32, 8>, usize)> {
            Some((self.state, self.blocks))
        }
        /// Appends data.
        pub fn update(&mut self, v: &Vector<U8>) {
            self.parts.push(v.to_raw());
        }
        fn len(&self) -> usize {
            self.parts.iter().map(|s| s.len() / 8).sum()
        }
        /// Compresses the full blocks.
        pub fn compress(&mut self, vm: &mut (impl Vm<Binary> + ?Sized)) -> Result<(), Sha256Error> {
            let n = self.len() / 64;
            if n > 0 {
                let p = take(&mut self.parts, n * 512);
                let s = call(vm, Some(self.state.to_raw()), &p, 32, |b| compress(&b[..32], &b[32..]).iter().flat_map(|w| w.to_le_bytes()).collect())?;
                self.state = Array::from_raw(s);
                self.blocks += n;
            }
            Ok(())
        }
        /// Finishes.
        pub fn finalize(&mut self, vm: &mut (impl Vm<Binary> + ?Sized)) -> Result<Array<U8, 32>, Sha256Error> {
            let total = self.blocks * 64 + self.len();
            let p = std::mem::take(&mut self.parts);
            let s = call(vm, Some(self.state.to_raw()), &p, 32, move |b| {
                let mut d = b[32..].to_vec();
                d.push(0x80);
                while (d.len() + 8) % 64 != 0 {
                    d.push(0);
                }
                d.extend((total as u64 * 8).to_be_bytes());
                compress(&b[..32], &d).iter().flat_map(|w| w.to_be_bytes()).collect()
            })?;
            Ok(Array::from_raw(s))
        }
    }
}
macro_rules! plain {
    ($m:ident $n:ident $e:ident [$($new:ident),*] $f:expr) => {
        /// A hash.
        pub mod $m {
            use super::*;
            error!($e);
            /// A hash over values of a machine.
            #[derive(Debug, Clone)]
            pub struct $n(Vec<Slice>);
            impl $n {
                $(/// From the start.
                pub fn $new(_: &mut (impl Vm<Binary> + ?Sized)) -> Result<Self, $e> {
                    Ok($n(vec![]))
                })*
                /// Appends data.
                pub fn update(&mut self, _: &mut (impl Vm<Binary> + ?Sized), v: &Vector<U8>) -> Result<(), $e> {
                    self.0.push(v.to_raw());
                    Ok(())
                }
                /// Finishes.
                pub fn finalize(&mut self, vm: &mut (impl Vm<Binary> + ?Sized)) -> Result<Array<U8, 32>, $e> {
                    Ok(Array::from_raw(call(vm, None, &self.0, 32, $f)?))
                }
            }
        }
    };
}
plain!(blake3 Blake3 Blake3Error [new] |b| ::blake3::hash(b).as_bytes().to_vec());
plain!(keccak256 Keccak256 Keccak256Error [new_with_init] |b| {
    use tiny_keccak::Hasher;
    let (mut k, mut o) = (tiny_keccak::Keccak::v256(), [0u8; 32]);
    k.update(b);
    k.finalize(&mut o);
    o.to_vec()
});
