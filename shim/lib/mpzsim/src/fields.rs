//! `mpz-fields`.
use crate::core::Block;
use eccore::{Curve, U, from_be, to_be};
use rand_core::RngCore;
use serde::{Deserialize, Serialize};
use std::ops::{Add, Mul, Neg, Sub};

/// A finite field.
pub trait Field:
    Copy + Send + Sync + 'static + PartialEq + std::fmt::Debug + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self> + Serialize + for<'a> Deserialize<'a>
{
    /// Zero.
    fn zero() -> Self;
    /// One.
    fn one() -> Self;
    /// The inverse, none for zero.
    fn inverse(self) -> Option<Self>;
    /// Big-endian bytes.
    fn to_be_bytes(&self) -> Vec<u8>;
    /// Little-endian bytes.
    fn to_le_bytes(&self) -> Vec<u8> {
        let mut v = self.to_be_bytes();
        v.reverse();
        v
    }
    /// Random.
    fn random(rng: &mut dyn RngCore) -> Self;
}
/// Sampling.
pub trait UniformRand: Sized {
    /// Random.
    fn rand<R: RngCore>(rng: &mut R) -> Self;
}
impl<F: Field> UniformRand for F {
    fn rand<R: RngCore>(rng: &mut R) -> Self {
        F::random(rng)
    }
}

/// The base field of P-256.
pub mod p256 {
    use super::*;
    use ::p256::NistP256;
    /// Element.
    #[derive(Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub struct P256(pub(crate) U);
    impl std::fmt::Debug for P256 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "P256")
        }
    }
    fn f() -> &'static eccore::Field {
        NistP256::p()
    }
    fn lift(g: impl FnOnce(&U, &U) -> U, a: &P256, b: &P256) -> P256 {
        P256(f().dec(&g(&f().enc(&a.0), &f().enc(&b.0))))
    }
    impl Add for P256 {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            lift(|a, b| f().add(a, b), &self, &o)
        }
    }
    impl Sub for P256 {
        type Output = Self;
        fn sub(self, o: Self) -> Self {
            lift(|a, b| f().sub(a, b), &self, &o)
        }
    }
    impl Mul for P256 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            lift(|a, b| f().mul(a, b), &self, &o)
        }
    }
    impl Neg for P256 {
        type Output = Self;
        fn neg(self) -> Self {
            Self::zero() - self
        }
    }
    /// Out of range.
    #[derive(Debug)]
    pub struct P256Error;
    impl TryFrom<[u8; 32]> for P256 {
        type Error = P256Error;
        /// From little-endian bytes.
        fn try_from(mut b: [u8; 32]) -> Result<Self, P256Error> {
            b.reverse();
            let u = from_be(&b);
            if eccore::cmp(&u, &NistP256::P).is_lt() { Ok(P256(u)) } else { Err(P256Error) }
        }
    }
    impl Field for P256 {
        fn zero() -> Self {
            P256([0; 4])
        }
        fn one() -> Self {
            P256([1, 0, 0, 0])
        }
        fn inverse(self) -> Option<Self> {
            if self == Self::zero() { None } else { Some(P256(f().dec(&f().inv(&f().enc(&self.0))))) }
        }
        fn to_be_bytes(&self) -> Vec<u8> {
            to_be(&self.0).to_vec()
        }
        fn random(rng: &mut dyn RngCore) -> Self {
            loop {
                let mut b = [0u8; 32];
                rng.fill_bytes(&mut b);
                if let Ok(x) = Self::try_from(b) {
                    return x;
                }
            }
        }
    }
}
/// GF(2^128) with x^128 + x^7 + x^2 + x + 1.
pub mod gf2_128 {
    use super::*;
    /// Element; bit i is the coefficient of x^i.
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Gf2_128(pub u128);
    impl Gf2_128 {
        /// From coefficients.
        pub fn new(v: u128) -> Self {
            Gf2_128(v)
        }
        /// Coefficients.
        pub fn to_inner(self) -> u128 {
            self.0
        }
    }
    impl From<Block> for Gf2_128 {
        fn from(b: Block) -> Self {
            Gf2_128(u128::from_be_bytes(b.0))
        }
    }
    impl From<Gf2_128> for Block {
        fn from(b: Gf2_128) -> Self {
            Block(b.0.to_be_bytes())
        }
    }
    impl Add for Gf2_128 {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            Gf2_128(self.0 ^ o.0)
        }
    }
    impl Sub for Gf2_128 {
        type Output = Self;
        fn sub(self, o: Self) -> Self {
            Gf2_128(self.0 ^ o.0)
        }
    }
    impl Neg for Gf2_128 {
        type Output = Self;
        fn neg(self) -> Self {
            self
        }
    }
    impl Mul for Gf2_128 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            let (mut a, mut b, mut r) = (self.0, o.0, 0u128);
            while b != 0 {
                if b & 1 == 1 {
                    r ^= a;
                }
                a = (a << 1) ^ if a >> 127 == 1 { 0x87 } else { 0 };
                b >>= 1;
            }
            Gf2_128(r)
        }
    }
    impl Field for Gf2_128 {
        fn zero() -> Self {
            Gf2_128(0)
        }
        fn one() -> Self {
            Gf2_128(1)
        }
        fn inverse(self) -> Option<Self> {
            if self.0 == 0 {
                return None;
            }
            // a^(2^128 - 2)
            let (mut r, mut s) = (Self::one(), self);
            for _ in 1..128 {
                s = s * s;
                r = r * s;
            }
            Some(r)
        }
        fn to_be_bytes(&self) -> Vec<u8> {
            self.0.to_be_bytes().to_vec()
        }
        fn random(rng: &mut dyn RngCore) -> Self {
            let mut b = [0u8; 16];
            rng.fill_bytes(&mut b);
            Gf2_128(u128::from_le_bytes(b))
        }
    }
}
