//! `mpz-core`.
use serde::{Deserialize, Serialize};

/// A block of 128 bits.
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Block(pub [u8; 16]);
impl Block {
    /// All zeros.
    pub const ZERO: Self = Block([0; 16]);
    /// Random.
    pub fn random<R: rand_core::RngCore + ?Sized>(rng: &mut R) -> Self {
        let mut b = [0; 16];
        rng.fill_bytes(&mut b);
        Block(b)
    }
    /// Bytes.
    pub fn to_bytes(self) -> [u8; 16] {
        self.0
    }
    /// Reverses all bits.
    pub fn reverse_bits(self) -> Self {
        Block(u128::from_be_bytes(self.0).reverse_bits().to_be_bytes())
    }
}
impl From<[u8; 16]> for Block {
    fn from(b: [u8; 16]) -> Self {
        Block(b)
    }
}
impl rand::distr::Distribution<Block> for rand::distr::StandardUniform {
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> Block {
        Block(rng.random())
    }
}
/// Bits.
pub mod bitvec {
    use super::*;
    /// A vector of bits.
    #[derive(Debug, Default, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct BitVec(pub Vec<bool>);
    impl BitVec {
        /// Length.
        pub fn len(&self) -> usize {
            self.0.len()
        }
        /// Whether it has no bits.
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
    }
    impl FromIterator<bool> for BitVec {
        fn from_iter<I: IntoIterator<Item = bool>>(i: I) -> Self {
            BitVec(i.into_iter().collect())
        }
    }
}
