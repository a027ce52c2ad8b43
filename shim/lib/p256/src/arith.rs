//! Keys and points.
use crate::NistP256;
use eccore::{cmp, from_be, is_zero, to_be, Curve, Point, U};
use generic_array::{typenum::U32, GenericArray};
use std::ops::{Add, Mul};

/// A coordinate.
pub type FieldBytes = GenericArray<u8, U32>;

/// Generic parts.
pub mod elliptic_curve {
    /// Not a key or point.
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("crypto error")
        }
    }
    impl std::error::Error for Error {}
    /// Encodings of points.
    pub mod sec1 {
        use crate::EncodedPoint;
        /// As an encoding.
        pub trait ToEncodedPoint {
            /// As an encoding.
            fn to_encoded_point(&self, compress: bool) -> EncodedPoint;
        }
        /// From an encoding.
        pub trait FromEncodedPoint: Sized {
            /// From an encoding.
            fn from_encoded_point(p: &EncodedPoint) -> super::CtOption<Self>;
        }
    }
    /// An option.
    pub struct CtOption<T>(pub(crate) Option<T>);
    impl<T> CtOption<T> {
        /// The value.
        pub fn unwrap(self) -> T {
            self.0.unwrap()
        }
        /// Whether there is a value.
        pub fn is_some(&self) -> bool {
            self.0.is_some()
        }
    }
    impl<T> From<CtOption<T>> for Option<T> {
        fn from(c: CtOption<T>) -> Self {
            c.0
        }
    }
}
use elliptic_curve::{
    sec1::{FromEncodedPoint, ToEncodedPoint},
    CtOption, Error,
};

type P = Point<NistP256>;

/// A number below the order.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Scalar(U);
/// A number below the order which is not zero.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct NonZeroScalar(Scalar);
impl NonZeroScalar {
    /// Random.
    pub fn random(r: &mut impl rand_core06::RngCore) -> Self {
        loop {
            let mut b = [0u8; 32];
            r.fill_bytes(&mut b);
            let k = from_be(&b);
            if !is_zero(&k) && cmp(&k, &NistP256::N).is_lt() {
                return NonZeroScalar(Scalar(k));
            }
        }
    }
}
impl NonZeroScalar {
    /// From bytes.
    pub fn from_repr(b: FieldBytes) -> CtOption<Self> {
        let k = from_be(&b);
        CtOption((!is_zero(&k) && cmp(&k, &NistP256::N).is_lt()).then_some(NonZeroScalar(Scalar(k))))
    }
}
impl AsRef<Scalar> for NonZeroScalar {
    fn as_ref(&self) -> &Scalar {
        &self.0
    }
}
/// A point.
#[derive(Debug, Clone, Copy)]
pub struct ProjectivePoint(P);
impl ProjectivePoint {
    /// As coordinates.
    pub fn to_affine(&self) -> AffinePoint {
        AffinePoint(self.0)
    }
}
impl Add for ProjectivePoint {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        ProjectivePoint(self.0.add(&o.0))
    }
}
impl Mul<&Scalar> for ProjectivePoint {
    type Output = Self;
    fn mul(self, k: &Scalar) -> Self {
        ProjectivePoint(self.0.mul(&k.0))
    }
}
impl Mul<Scalar> for ProjectivePoint {
    type Output = Self;
    fn mul(self, k: Scalar) -> Self {
        self * &k
    }
}
impl FromEncodedPoint for ProjectivePoint {
    fn from_encoded_point(p: &EncodedPoint) -> CtOption<Self> {
        CtOption(P::from_sec1(p.as_bytes()).map(ProjectivePoint))
    }
}
impl ToEncodedPoint for ProjectivePoint {
    fn to_encoded_point(&self, compress: bool) -> EncodedPoint {
        self.to_affine().to_encoded_point(compress)
    }
}
/// A point.
#[derive(Debug, Clone, Copy)]
pub struct AffinePoint(P);
impl ToEncodedPoint for AffinePoint {
    fn to_encoded_point(&self, compress: bool) -> EncodedPoint {
        EncodedPoint::of(self.0.to_sec1(compress))
    }
}
/// An encoded point.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct EncodedPoint([u8; 65], usize, Option<(FieldBytes, FieldBytes)>);
impl EncodedPoint {
    fn of(v: Vec<u8>) -> Self {
        let c = (v.len() == 65).then(|| (*FieldBytes::from_slice(&v[1..33]), *FieldBytes::from_slice(&v[33..])));
        let mut a = [0; 65];
        a[..v.len()].copy_from_slice(&v);
        EncodedPoint(a, v.len(), c)
    }
    /// From coordinates.
    pub fn from_affine_coordinates(x: &FieldBytes, y: &FieldBytes, _: bool) -> Self {
        Self::of([&[4u8][..], x, y].concat())
    }
    /// X.
    pub fn x(&self) -> Option<&FieldBytes> {
        self.2.as_ref().map(|c| &c.0)
    }
    /// Y.
    pub fn y(&self) -> Option<&FieldBytes> {
        self.2.as_ref().map(|c| &c.1)
    }
    /// Bytes.
    pub fn to_bytes(&self) -> Box<[u8]> {
        self.0[..self.1].into()
    }
    /// Bytes.
    pub fn as_bytes(&self) -> &[u8] {
        &self.0[..self.1]
    }
}
impl From<PublicKey> for EncodedPoint {
    fn from(k: PublicKey) -> Self {
        k.to_encoded_point(false)
    }
}
impl From<&PublicKey> for EncodedPoint {
    fn from(k: &PublicKey) -> Self {
        k.to_encoded_point(false)
    }
}
/// A public key: a point other than the neutral one.
#[derive(Debug, Clone, Copy)]
pub struct PublicKey(AffinePoint);
impl PartialEq for PublicKey {
    fn eq(&self, o: &Self) -> bool {
        self.0 .0.coords() == o.0 .0.coords()
    }
}
impl Eq for PublicKey {}
impl PublicKey {
    /// From a point.
    pub fn from_affine(p: AffinePoint) -> Result<Self, Error> {
        if p.0.is_identity() {
            Err(Error)
        } else {
            Ok(PublicKey(p))
        }
    }
    /// From an encoding.
    pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> {
        Self::from_affine(AffinePoint(P::from_sec1(b).ok_or(Error)?))
    }
    /// Of a secret.
    pub fn from_secret_scalar(k: &NonZeroScalar) -> Self {
        PublicKey(AffinePoint(P::generator().mul(&k.0 .0)))
    }
    /// As a point.
    pub fn to_projective(&self) -> ProjectivePoint {
        ProjectivePoint(self.0 .0)
    }
    /// As a point.
    pub fn as_affine(&self) -> &AffinePoint {
        &self.0
    }
}
impl ToEncodedPoint for PublicKey {
    fn to_encoded_point(&self, compress: bool) -> EncodedPoint {
        self.0.to_encoded_point(compress)
    }
}
impl serde::Serialize for PublicKey {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        serde::Serialize::serialize(&self.0 .0.to_sec1(false), s)
    }
}
impl<'de> serde::Deserialize<'de> for PublicKey {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = <Vec<u8> as serde::Deserialize>::deserialize(d)?;
        Self::from_sec1_bytes(&v).map_err(serde::de::Error::custom)
    }
}
/// A secret key.
#[derive(Clone)]
pub struct SecretKey(NonZeroScalar);
impl std::fmt::Debug for SecretKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SecretKey { .. }")
    }
}
impl SecretKey {
    /// Random.
    pub fn random(r: &mut impl rand_core06::RngCore) -> Self {
        SecretKey(NonZeroScalar::random(r))
    }
    /// From bytes.
    pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
        let k = from_be(b);
        if b.len() != 32 || is_zero(&k) || !cmp(&k, &NistP256::N).is_lt() {
            return Err(Error);
        }
        Ok(SecretKey(NonZeroScalar(Scalar(k))))
    }
    /// Bytes.
    pub fn to_bytes(&self) -> FieldBytes {
        to_be(&self.0 .0 .0).into()
    }
    /// Its public key.
    pub fn public_key(&self) -> PublicKey {
        PublicKey::from_secret_scalar(&self.0)
    }
    /// The number.
    pub fn to_nonzero_scalar(&self) -> NonZeroScalar {
        self.0
    }
}
/// Diffie-Hellman.
pub mod ecdh {
    use super::*;
    /// The common secret.
    pub struct SharedSecret(FieldBytes);
    impl SharedSecret {
        /// The x coordinate.
        pub fn raw_secret_bytes(&self) -> &FieldBytes {
            &self.0
        }
    }
    /// The common secret.
    pub fn diffie_hellman(k: impl std::borrow::Borrow<NonZeroScalar>, p: impl std::borrow::Borrow<AffinePoint>) -> SharedSecret {
        let q = p.borrow().0.mul(&k.borrow().0 .0);
        SharedSecret(to_be(&q.coords().expect("not neutral").0).into())
    }
}
