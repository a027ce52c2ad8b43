//! Short Weierstrass curves over 256-bit primes and ECDSA on them, for the
//! `k256` and `p256` stand-ins. Not constant time.

use sha2::{Digest, Sha256};
use std::{cmp::Ordering, fmt, marker::PhantomData};

pub use signature;

/// A 256-bit integer, little-endian limbs.
pub type U = [u64; 4];

/// From big-endian bytes.
pub fn from_be(b: &[u8]) -> U {
    assert_eq!(b.len(), 32);
    let mut u = [0; 4];
    for i in 0..4 {
        u[3 - i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    u
}
/// To big-endian bytes.
pub fn to_be(u: &U) -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..4 {
        b[8 * i..8 * i + 8].copy_from_slice(&u[3 - i].to_be_bytes());
    }
    b
}
/// Compares.
pub fn cmp(a: &U, b: &U) -> Ordering {
    a.iter().rev().cmp(b.iter().rev())
}
fn add_raw(a: &U, b: &U) -> (U, bool) {
    let (mut o, mut c) = ([0; 4], 0u128);
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    (o, c != 0)
}
fn sub_raw(a: &U, b: &U) -> (U, bool) {
    let (mut o, mut bo) = ([0; 4], false);
    for i in 0..4 {
        let (x, p) = a[i].overflowing_sub(b[i]);
        let (y, q) = x.overflowing_sub(bo as u64);
        o[i] = y;
        bo = p || q;
    }
    (o, bo)
}
/// Whether zero.
pub fn is_zero(a: &U) -> bool {
    *a == [0; 4]
}

/// Arithmetic modulo an odd prime above 2^255.
#[derive(Debug, Clone, Copy)]
pub struct Field {
    /// Modulus.
    pub m: U,
    inv: u64,
    r2: U,
    one: U,
}

impl Field {
    /// For a modulus.
    pub fn new(m: U) -> Self {
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
        }
        // 2^256 mod m = 2^256 - m as m > 2^255.
        let one = sub_raw(&[0; 4], &m).0;
        let mut f = Field { m, inv: inv.wrapping_neg(), r2: [0; 4], one };
        let mut r2 = one;
        for _ in 0..256 {
            r2 = f.add(&r2, &r2);
        }
        f.r2 = r2;
        f
    }
    /// a + b.
    pub fn add(&self, a: &U, b: &U) -> U {
        let (s, c) = add_raw(a, b);
        if c || cmp(&s, &self.m) != Ordering::Less {
            sub_raw(&s, &self.m).0
        } else {
            s
        }
    }
    /// a - b.
    pub fn sub(&self, a: &U, b: &U) -> U {
        let (s, bo) = sub_raw(a, b);
        if bo {
            add_raw(&s, &self.m).0
        } else {
            s
        }
    }
    /// -a.
    pub fn neg(&self, a: &U) -> U {
        self.sub(&[0; 4], a)
    }
    /// Montgomery product.
    pub fn mul(&self, a: &U, b: &U) -> U {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += t[j] as u128 + a[i] as u128 * b[j] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let q = t[0].wrapping_mul(self.inv);
            let mut c = (t[0] as u128 + q as u128 * self.m[0] as u128) >> 64;
            for j in 1..4 {
                c += t[j] as u128 + q as u128 * self.m[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[3] = c as u64;
            t[4] = t[5] + (c >> 64) as u64;
        }
        let o = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || cmp(&o, &self.m) != Ordering::Less {
            sub_raw(&o, &self.m).0
        } else {
            o
        }
    }
    /// Into Montgomery form.
    pub fn enc(&self, a: &U) -> U {
        self.mul(a, &self.r2)
    }
    /// Out of Montgomery form.
    pub fn dec(&self, a: &U) -> U {
        self.mul(a, &[1, 0, 0, 0])
    }
    /// One.
    pub fn one(&self) -> U {
        self.one
    }
    /// Power.
    pub fn pow(&self, a: &U, e: &U) -> U {
        let mut o = self.one;
        for i in (0..256).rev() {
            o = self.mul(&o, &o);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                o = self.mul(&o, a);
            }
        }
        o
    }
    /// Inverse.
    pub fn inv(&self, a: &U) -> U {
        self.pow(a, &sub_raw(&self.m, &[2, 0, 0, 0]).0)
    }
    /// Square root, for moduli which are 3 mod 4.
    pub fn sqrt(&self, a: &U) -> Option<U> {
        let mut e = add_raw(&self.m, &[1, 0, 0, 0]).0;
        for _ in 0..2 {
            for i in 0..4 {
                e[i] = e[i] >> 1 | if i < 3 { e[i + 1] << 63 } else { 0 };
            }
        }
        let s = self.pow(a, &e);
        (self.mul(&s, &s) == *a).then_some(s)
    }
    /// Any 256-bit integer reduced.
    pub fn reduce(&self, a: &U) -> U {
        if cmp(a, &self.m) != Ordering::Less {
            sub_raw(a, &self.m).0
        } else {
            *a
        }
    }
}

/// A curve.
pub trait Curve: Copy + Clone + fmt::Debug + PartialEq + Eq + 'static {
    /// Prime.
    const P: U;
    /// Order.
    const N: U;
    /// Coefficient.
    const A: U;
    /// Coefficient.
    const B: U;
    /// Generator.
    const GX: U;
    /// Generator.
    const GY: U;
    /// Whether signatures are kept with a low s.
    const LOW_S: bool;
    /// Coordinate field.
    fn p() -> &'static Field;
    /// Scalar field.
    fn n() -> &'static Field;
}

/// A point, in Jacobian coordinates (Montgomery form); z = 0 is infinity.
#[derive(Debug, Clone, Copy)]
pub struct Point<C> {
    x: U,
    y: U,
    z: U,
    c: PhantomData<C>,
}

impl<C: Curve> Point<C> {
    /// Infinity.
    pub fn identity() -> Self {
        Point { x: C::p().one(), y: C::p().one(), z: [0; 4], c: PhantomData }
    }
    /// The generator.
    pub fn generator() -> Self {
        Self::affine(&C::GX, &C::GY).unwrap()
    }
    /// From coordinates, if on the curve.
    pub fn affine(x: &U, y: &U) -> Option<Self> {
        let f = C::p();
        if cmp(x, &f.m) != Ordering::Less || cmp(y, &f.m) != Ordering::Less {
            return None;
        }
        let (x, y) = (f.enc(x), f.enc(y));
        (f.mul(&y, &y) == Self::rhs(&x)).then_some(Point { x, y, z: f.one(), c: PhantomData })
    }
    fn rhs(x: &U) -> U {
        let f = C::p();
        let x3 = f.mul(&f.mul(x, x), x);
        f.add(&f.add(&x3, &f.mul(&f.enc(&C::A), x)), &f.enc(&C::B))
    }
    /// Whether infinity.
    pub fn is_identity(&self) -> bool {
        is_zero(&self.z)
    }
    /// Coordinates.
    pub fn coords(&self) -> Option<(U, U)> {
        if self.is_identity() {
            return None;
        }
        let f = C::p();
        let zi = f.inv(&self.z);
        let z2 = f.mul(&zi, &zi);
        Some((f.dec(&f.mul(&self.x, &z2)), f.dec(&f.mul(&self.y, &f.mul(&z2, &zi)))))
    }
    /// 2P.
    pub fn double(&self) -> Self {
        if self.is_identity() || is_zero(&self.y) {
            return Self::identity();
        }
        let f = C::p();
        let y2 = f.mul(&self.y, &self.y);
        let s = f.mul(&self.x, &y2);
        let s = f.add(&f.add(&s, &s), &f.add(&s, &s));
        let x2 = f.mul(&self.x, &self.x);
        let z2 = f.mul(&self.z, &self.z);
        let m = f.add(
            &f.add(&x2, &f.add(&x2, &x2)),
            &f.mul(&f.enc(&C::A), &f.mul(&z2, &z2)),
        );
        let x = f.sub(&f.mul(&m, &m), &f.add(&s, &s));
        let y4 = f.mul(&y2, &y2);
        let y4x8 = {
            let a = f.add(&y4, &y4);
            let b = f.add(&a, &a);
            f.add(&b, &b)
        };
        let y = f.sub(&f.mul(&m, &f.sub(&s, &x)), &y4x8);
        let yz = f.mul(&self.y, &self.z);
        Point { x, y, z: f.add(&yz, &yz), c: PhantomData }
    }
    /// P + Q.
    pub fn add(&self, o: &Self) -> Self {
        if self.is_identity() {
            return *o;
        }
        if o.is_identity() {
            return *self;
        }
        let f = C::p();
        let (z1, z2) = (f.mul(&self.z, &self.z), f.mul(&o.z, &o.z));
        let (u1, u2) = (f.mul(&self.x, &z2), f.mul(&o.x, &z1));
        let s1 = f.mul(&self.y, &f.mul(&z2, &o.z));
        let s2 = f.mul(&o.y, &f.mul(&z1, &self.z));
        if u1 == u2 {
            return if s1 == s2 { self.double() } else { Self::identity() };
        }
        let (h, r) = (f.sub(&u2, &u1), f.sub(&s2, &s1));
        let h2 = f.mul(&h, &h);
        let h3 = f.mul(&h2, &h);
        let v = f.mul(&u1, &h2);
        let x = f.sub(&f.sub(&f.mul(&r, &r), &h3), &f.add(&v, &v));
        let y = f.sub(&f.mul(&r, &f.sub(&v, &x)), &f.mul(&s1, &h3));
        Point { x, y, z: f.mul(&h, &f.mul(&self.z, &o.z)), c: PhantomData }
    }
    /// -P.
    pub fn neg(&self) -> Self {
        Point { y: C::p().neg(&self.y), ..*self }
    }
    /// kP.
    pub fn mul(&self, k: &U) -> Self {
        let mut o = Self::identity();
        for i in (0..256).rev() {
            o = o.double();
            if k[i / 64] >> (i % 64) & 1 == 1 {
                o = o.add(self);
            }
        }
        o
    }
    /// SEC1.
    pub fn to_sec1(&self, compress: bool) -> Vec<u8> {
        match self.coords() {
            None => vec![0],
            Some((x, y)) if compress => {
                let mut v = vec![2 + (y[0] & 1) as u8];
                v.extend(to_be(&x));
                v
            }
            Some((x, y)) => {
                let mut v = vec![4];
                v.extend(to_be(&x));
                v.extend(to_be(&y));
                v
            }
        }
    }
    /// From SEC1; infinity is no key.
    pub fn from_sec1(b: &[u8]) -> Option<Self> {
        match (b.first()?, b.len()) {
            (4, 65) => Self::affine(&from_be(&b[1..33]), &from_be(&b[33..])),
            (t @ (2 | 3), 33) => {
                let f = C::p();
                let x = from_be(&b[1..]);
                if cmp(&x, &f.m) != Ordering::Less {
                    return None;
                }
                let xm = f.enc(&x);
                let y = f.dec(&f.sqrt(&Self::rhs(&xm))?);
                let y = if (y[0] & 1) as u8 == t & 1 { y } else { sub_raw(&f.m, &y).0 };
                Self::affine(&x, &y)
            }
            _ => None,
        }
    }
}

impl<C: Curve> PartialEq for Point<C> {
    fn eq(&self, o: &Self) -> bool {
        self.coords() == o.coords()
    }
}
impl<C: Curve> Eq for Point<C> {}

fn bits2int(h: &[u8]) -> U {
    from_be(&h[..32])
}

/// Nonces of RFC 6979 with SHA-256.
fn rfc6979<C: Curve>(d: &U, hash: &U) -> impl FnMut() -> U {
    use hmac::{Hmac, Mac};
    let mac = |k: &[u8], parts: &[&[u8]]| -> [u8; 32] {
        let mut m = <Hmac<Sha256> as Mac>::new_from_slice(k).unwrap();
        for p in parts {
            m.update(p);
        }
        m.finalize().into_bytes().into()
    };
    let x = to_be(d);
    let h = to_be(&C::n().reduce(hash));
    let (mut v, mut k) = ([1u8; 32], [0u8; 32]);
    k = mac(&k, &[&v, &[0], &x, &h]);
    v = mac(&k, &[&v]);
    k = mac(&k, &[&v, &[1], &x, &h]);
    v = mac(&k, &[&v]);
    move || loop {
        v = mac(&k, &[&v]);
        let t = from_be(&v);
        if !is_zero(&t) && cmp(&t, &C::N) == Ordering::Less {
            return t;
        }
        k = mac(&k, &[&v, &[0]]);
        v = mac(&k, &[&v]);
    }
}

/// ECDSA.
pub mod ecdsa {
    use super::*;
    use signature::hazmat::{PrehashSigner, PrehashVerifier};

    pub use signature::{self, Error};

    /// A signature.
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Signature<C> {
        r: U,
        s: U,
        c: PhantomData<C>,
    }
    impl<C: Curve> Signature<C> {
        /// From r and s.
        pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
            if b.len() != 64 {
                return Err(Error::new());
            }
            let (r, s) = (from_be(&b[..32]), from_be(&b[32..]));
            for v in [&r, &s] {
                if is_zero(v) || cmp(v, &C::N) != Ordering::Less {
                    return Err(Error::new());
                }
            }
            Ok(Signature { r, s, c: PhantomData })
        }
        /// To r and s.
        pub fn to_bytes(&self) -> [u8; 64] {
            let mut o = [0; 64];
            o[..32].copy_from_slice(&to_be(&self.r));
            o[32..].copy_from_slice(&to_be(&self.s));
            o
        }
        /// To r and s.
        pub fn to_vec(&self) -> Vec<u8> {
            self.to_bytes().to_vec()
        }
    }

    /// Which of the candidate keys signed.
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct RecoveryId(u8);
    impl RecoveryId {
        /// As a byte.
        pub fn to_byte(self) -> u8 {
            self.0
        }
    }

    fn high<C: Curve>(s: &U) -> bool {
        let (neg, _) = sub_raw(&C::N, s);
        cmp(s, &neg) == Ordering::Greater
    }

    /// A signing key.
    #[derive(Clone)]
    pub struct SigningKey<C: Curve> {
        d: U,
        key: VerifyingKey<C>,
    }
    impl<C: Curve> SigningKey<C> {
        /// From a scalar.
        pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
            if b.len() != 32 {
                return Err(Error::new());
            }
            let d = from_be(b);
            if is_zero(&d) || cmp(&d, &C::N) != Ordering::Less {
                return Err(Error::new());
            }
            Ok(SigningKey { d, key: VerifyingKey(Point::generator().mul(&d)) })
        }
        /// A random key.
        pub fn random(rng: &mut impl rand_core06::RngCore) -> Self {
            loop {
                let mut b = [0; 32];
                rng.fill_bytes(&mut b);
                if let Ok(k) = Self::from_slice(&b) {
                    return k;
                }
            }
        }
        /// The scalar.
        pub fn to_bytes(&self) -> [u8; 32] {
            to_be(&self.d)
        }
        /// The verifying key.
        pub fn verifying_key(&self) -> &VerifyingKey<C> {
            &self.key
        }
        /// Signs a digest.
        pub fn sign_prehash_recoverable(
            &self,
            prehash: &[u8],
        ) -> Result<(Signature<C>, RecoveryId), Error> {
            if prehash.len() < 32 {
                return Err(Error::new());
            }
            let f = C::n();
            let z = f.reduce(&bits2int(prehash));
            let mut nonce = rfc6979::<C>(&self.d, &z);
            loop {
                let k = nonce();
                let (x, y) = Point::<C>::generator().mul(&k).coords().unwrap();
                let r = f.reduce(&x);
                if is_zero(&r) {
                    continue;
                }
                let rd = f.mul(&f.enc(&r), &f.enc(&self.d));
                let s = f.mul(&f.inv(&f.enc(&k)), &f.add(&f.enc(&z), &rd));
                let mut s = f.dec(&s);
                if is_zero(&s) {
                    continue;
                }
                let mut id = (y[0] & 1) as u8 | ((cmp(&x, &C::N) != Ordering::Less) as u8) << 1;
                if C::LOW_S && high::<C>(&s) {
                    s = sub_raw(&C::N, &s).0;
                    id ^= 1;
                }
                return Ok((Signature { r, s, c: PhantomData }, RecoveryId(id)));
            }
        }
    }
    impl<C: Curve> signature::Signer<Signature<C>> for SigningKey<C> {
        fn try_sign(&self, msg: &[u8]) -> Result<Signature<C>, Error> {
            self.sign_prehash(&Sha256::digest(msg))
        }
    }
    impl<C: Curve> PrehashSigner<Signature<C>> for SigningKey<C> {
        fn sign_prehash(&self, prehash: &[u8]) -> Result<Signature<C>, Error> {
            Ok(self.sign_prehash_recoverable(prehash)?.0)
        }
    }

    /// A verifying key.
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct VerifyingKey<C: Curve>(Point<C>);
    impl<C: Curve> VerifyingKey<C> {
        /// From SEC1.
        pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> {
            Point::from_sec1(b).map(VerifyingKey).ok_or_else(Error::new)
        }
        /// To SEC1, compressed.
        pub fn to_sec1_bytes(&self) -> Box<[u8]> {
            self.0.to_sec1(true).into()
        }
    }
    impl<C: Curve> PrehashVerifier<Signature<C>> for VerifyingKey<C> {
        fn verify_prehash(&self, prehash: &[u8], sig: &Signature<C>) -> Result<(), Error> {
            if prehash.len() < 32 || C::LOW_S && high::<C>(&sig.s) {
                return Err(Error::new());
            }
            let f = C::n();
            let z = f.reduce(&bits2int(prehash));
            let si = f.inv(&f.enc(&sig.s));
            let u1 = f.dec(&f.mul(&f.enc(&z), &si));
            let u2 = f.dec(&f.mul(&f.enc(&sig.r), &si));
            let p = Point::generator().mul(&u1).add(&self.0.mul(&u2));
            match p.coords() {
                Some((x, _)) if f.reduce(&x) == sig.r => Ok(()),
                _ => Err(Error::new()),
            }
        }
    }
    impl<C: Curve> signature::Verifier<Signature<C>> for VerifyingKey<C> {
        fn verify(&self, msg: &[u8], sig: &Signature<C>) -> Result<(), Error> {
            self.verify_prehash(&Sha256::digest(msg), sig)
        }
    }
}
