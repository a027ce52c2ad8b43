//! Stand-in for `ghash`.
use generic_array::{GenericArray, typenum::U16};
/// A block.
pub type Block = GenericArray<u8, U16>;
/// The universal hash of GCM (NIST SP 800-38D).
#[derive(Clone)]
pub struct GHash {
    h: u128,
    y: u128,
}
fn mul(x: u128, y: u128) -> u128 {
    let (mut z, mut v) = (0u128, y);
    for i in 0..128 {
        if x >> (127 - i) & 1 == 1 {
            z ^= v;
        }
        v = (v >> 1) ^ if v & 1 == 1 { 0xe1 << 120 } else { 0 };
    }
    z
}
/// Traits.
pub mod universal_hash {
    use super::*;
    /// Key set-up.
    pub trait KeyInit: Sized {
        /// From a key.
        fn new(key: &Block) -> Self;
    }
    impl KeyInit for GHash {
        fn new(key: &Block) -> Self {
            GHash { h: u128::from_be_bytes(key.as_slice().try_into().unwrap()), y: 0 }
        }
    }
    /// Hashing.
    pub trait UniversalHash: Sized {
        /// Absorbs blocks.
        fn update(&mut self, blocks: &[Block]);
        /// Absorbs data, padded with zeros.
        fn update_padded(&mut self, data: &[u8]);
        /// The result.
        fn finalize(self) -> Block;
    }
    impl UniversalHash for GHash {
        fn update(&mut self, blocks: &[Block]) {
            for b in blocks {
                self.y = mul(self.y ^ u128::from_be_bytes(b.as_slice().try_into().unwrap()), self.h);
            }
        }
        fn update_padded(&mut self, data: &[u8]) {
            for c in data.chunks(16) {
                let mut b = Block::default();
                b[..c.len()].copy_from_slice(c);
                self.update(&[b]);
            }
        }
        fn finalize(self) -> Block {
            self.y.to_be_bytes().into()
        }
    }
}
