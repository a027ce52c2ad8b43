//! Plain elliptic-curve arithmetic for judging signatures (any short Weierstrass curve).

use num_bigint::BigUint;
use std::sync::OnceLock;

pub struct C {
    pub p: BigUint,
    pub a: BigUint,
    pub b: BigUint,
    pub n: BigUint,
    pub g: (BigUint, BigUint),
}
fn bu(h: &str) -> BigUint {
    BigUint::parse_bytes(h.as_bytes(), 16).unwrap()
}
pub fn k256() -> &'static C {
    static S: OnceLock<C> = OnceLock::new();
    S.get_or_init(|| C {
        p: bu("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
        a: bu("0"),
        b: bu("7"),
        n: bu("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
        g: (bu("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), bu("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")),
    })
}
pub fn p256() -> &'static C {
    static S: OnceLock<C> = OnceLock::new();
    S.get_or_init(|| C {
        p: bu("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
        a: bu("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"),
        b: bu("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
        n: bu("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
        g: (bu("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), bu("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")),
    })
}
pub type P = Option<(BigUint, BigUint)>;
impl C {
    fn inv(&self, x: &BigUint) -> BigUint {
        x.modpow(&(&self.p - 2u8), &self.p)
    }
    fn sub(&self, a: &BigUint, b: &BigUint) -> BigUint {
        ((a % &self.p) + &self.p - (b % &self.p)) % &self.p
    }
    pub fn on(&self, x: &BigUint, y: &BigUint) -> bool {
        *x < self.p && *y < self.p && y * y % &self.p == (x * x % &self.p * x + &self.a * x + &self.b) % &self.p
    }
    /// u1*G + u2*Q in Jacobian coordinates, affine result.
    pub fn mul2(&self, u1: &BigUint, u2: &BigUint, q: &(BigUint, BigUint)) -> P {
        let mut acc = None;
        for i in (0..u1.bits().max(u2.bits())).rev() {
            acc = self.dbl(acc);
            if u1.bit(i) {
                acc = self.add(acc, &self.g);
            }
            if u2.bit(i) {
                acc = self.add(acc, q);
            }
        }
        let (x, y, z) = acc?;
        let zi = self.inv(&z);
        let z2 = &zi * &zi % &self.p;
        Some((x * &z2 % &self.p, y * &z2 % &self.p * zi % &self.p))
    }
    pub fn base(&self, k: &BigUint) -> P {
        self.mul2(k, &BigUint::from(0u8), &self.g)
    }
    fn dbl(&self, q: Option<(BigUint, BigUint, BigUint)>) -> Option<(BigUint, BigUint, BigUint)> {
        let (x, y, z) = q?;
        let p = &self.p;
        if y == BigUint::from(0u8) {
            return None;
        }
        let yy = &y * &y % p;
        let s = BigUint::from(4u8) * &x * &yy % p;
        let zz = &z * &z % p;
        let m = (BigUint::from(3u8) * &x * &x + &self.a * (&zz * &zz % p)) % p;
        let x3 = self.sub(&(&m * &m), &(BigUint::from(2u8) * &s));
        let y3 = self.sub(&(&m * self.sub(&s, &x3)), &(BigUint::from(8u8) * &yy * &yy));
        let z3 = BigUint::from(2u8) * y * z % p;
        Some((x3, y3, z3))
    }
    fn add(&self, q: Option<(BigUint, BigUint, BigUint)>, g: &(BigUint, BigUint)) -> Option<(BigUint, BigUint, BigUint)> {
        let p = &self.p;
        let Some((x, y, z)) = q else { return Some((g.0.clone(), g.1.clone(), BigUint::from(1u8))) };
        let zz = &z * &z % p;
        let u = &g.0 * &zz % p;
        let s = &g.1 * &zz % p * &z % p;
        let h = self.sub(&u, &x);
        let r = self.sub(&s, &y);
        if h == BigUint::from(0u8) {
            return if r == BigUint::from(0u8) { self.dbl(Some((x, y, z))) } else { None };
        }
        let hh = &h * &h % p;
        let hhh = &h * &hh % p;
        let v = &x * &hh % p;
        let x3 = self.sub(&self.sub(&(&r * &r), &hhh), &(BigUint::from(2u8) * &v));
        let y3 = self.sub(&(&r * self.sub(&v, &x3)), &(&y * &hhh));
        let z3 = &z * &h % p;
        Some((x3, y3, z3))
    }
    /// The point with abscissa `x` and the given parity.
    pub fn lift(&self, x: &BigUint, odd: bool) -> P {
        if *x >= self.p {
            return None;
        }
        let rhs = (x * x % &self.p * x + &self.a * x + &self.b) % &self.p;
        // p = 3 mod 4 for both curves
        let y = rhs.modpow(&((&self.p + 1u8) >> 2), &self.p);
        if &y * &y % &self.p != rhs {
            return None;
        }
        if y == BigUint::from(0u8) && odd {
            return None;
        }
        Some((x.clone(), if y.bit(0) == odd { y } else { &self.p - y }))
    }
    /// SEC 1 octet string: compressed or uncompressed.
    pub fn decode(&self, b: &[u8]) -> P {
        match (b.first()?, b.len()) {
            (2 | 3, 33) => self.lift(&BigUint::from_bytes_be(&b[1..]), b[0] == 3),
            (4, 65) => {
                let (x, y) = (BigUint::from_bytes_be(&b[1..33]), BigUint::from_bytes_be(&b[33..]));
                self.on(&x, &y).then_some((x, y))
            }
            _ => None,
        }
    }
    pub fn sinv(&self, x: &BigUint) -> BigUint {
        x.modpow(&(&self.n - 2u8), &self.n)
    }
    /// r and s of a fixed-size signature, when in range.
    pub fn scalars(&self, sig: &[u8]) -> Option<(BigUint, BigUint)> {
        if sig.len() != 64 {
            return None;
        }
        let (r, s) = (BigUint::from_bytes_be(&sig[..32]), BigUint::from_bytes_be(&sig[32..]));
        let ok = |x: &BigUint| x.bits() > 0 && *x < self.n;
        (ok(&r) && ok(&s)).then_some((r, s))
    }
    pub fn verify(&self, q: &(BigUint, BigUint), digest: &[u8], sig: &[u8]) -> bool {
        let Some((r, s)) = self.scalars(sig) else { return false };
        let z = BigUint::from_bytes_be(digest);
        let w = self.sinv(&s);
        match self.mul2(&(z * &w % &self.n), &(&r * &w % &self.n), q) {
            Some((x, _)) => x % &self.n == r,
            None => false,
        }
    }
    pub fn recover(&self, digest: &[u8], sig: &[u8], odd: bool) -> P {
        let (r, s) = self.scalars(sig)?;
        let point = self.lift(&r, odd)?;
        let z = BigUint::from_bytes_be(digest) % &self.n;
        let ri = self.sinv(&r);
        let u1 = (&self.n - z) * &ri % &self.n;
        self.mul2(&u1, &(s * ri % &self.n), &point)
    }
}
pub fn fixed(x: &BigUint) -> Vec<u8> {
    let b = x.to_bytes_be();
    let mut v = vec![0; 32 - b.len()];
    v.extend(b);
    v
}
