//! Independent X.509 / SCT builder and signer used by the certificate monitors: DER is written by
//! hand, ECDSA and RSA signatures are computed with big integers (no code of the library under test,
//! and no code of the library it verifies with, takes part in producing them).

use num_bigint::BigUint;
use ring::signature::KeyPair;
use sha2::Digest;
use std::sync::OnceLock;
use vfw::R;

// ------------------------------------------------------------------ DER

pub fn tlv(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    let n = c.len();
    if n < 0x80 {
        v.push(n as u8);
    } else {
        let b = n.to_be_bytes();
        let s = b.iter().position(|x| *x != 0).unwrap();
        v.push(0x80 | (8 - s) as u8);
        v.extend_from_slice(&b[s..]);
    }
    v.extend_from_slice(c);
    v
}
pub fn seq(parts: &[&[u8]]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
pub fn int(b: &[u8]) -> Vec<u8> {
    let s = b.iter().position(|x| *x != 0).unwrap_or(b.len());
    let mut v = b[s..].to_vec();
    if v.is_empty() || v[0] & 0x80 != 0 {
        v.insert(0, 0);
    }
    tlv(2, &v)
}
pub fn bits(b: &[u8]) -> Vec<u8> {
    tlv(3, &[&[0u8][..], b].concat())
}
pub fn oid(arcs: &[u64]) -> Vec<u8> {
    let mut v = vec![];
    let mut push = |mut n: u64| {
        let mut t = vec![(n & 0x7f) as u8];
        n >>= 7;
        while n > 0 {
            t.push((n & 0x7f) as u8 | 0x80);
            n >>= 7;
        }
        t.reverse();
        v.extend(t);
    };
    push(arcs[0] * 40 + arcs[1]);
    for a in &arcs[2..] {
        push(*a);
    }
    tlv(6, &v)
}

/// Strict DER: reads one TLV, minimal lengths only.
pub fn read_tlv(b: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    let tag = *b.first()?;
    let l = *b.get(1)?;
    let (len, off) = if l < 0x80 {
        (l as usize, 2)
    } else {
        let n = (l & 0x7f) as usize;
        if n == 0 || n > 7 {
            return None;
        }
        let d = b.get(2..2 + n)?;
        if d[0] == 0 {
            return None;
        }
        let len = d.iter().fold(0usize, |a, x| a << 8 | *x as usize);
        if len < 0x80 {
            return None;
        }
        (len, 2 + n)
    };
    let end = off.checked_add(len)?;
    if b.len() < end {
        return None;
    }
    Some((tag, &b[off..end], &b[end..]))
}

// ------------------------------------------------------------------ hashes

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum H {
    Sha1,
    Sha256,
    Sha384,
    Sha512,
}
impl H {
    pub fn hash(self, m: &[u8]) -> Vec<u8> {
        match self {
            H::Sha1 => ring::digest::digest(&ring::digest::SHA1_FOR_LEGACY_USE_ONLY, m).as_ref().to_vec(),
            H::Sha256 => sha2::Sha256::digest(m).to_vec(),
            H::Sha384 => sha2::Sha384::digest(m).to_vec(),
            H::Sha512 => sha2::Sha512::digest(m).to_vec(),
        }
    }
    fn digest_info(self) -> &'static [u8] {
        match self {
            H::Sha1 => &[0x30, 0x21, 0x30, 9, 6, 5, 0x2b, 0x0e, 3, 2, 0x1a, 5, 0, 4, 0x14],
            H::Sha256 => &[0x30, 0x31, 0x30, 13, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 1, 5, 0, 4, 0x20],
            H::Sha384 => &[0x30, 0x41, 0x30, 13, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 2, 5, 0, 4, 0x30],
            H::Sha512 => &[0x30, 0x51, 0x30, 13, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 3, 5, 0, 4, 0x40],
        }
    }
}

// ------------------------------------------------------------------ elliptic curves

pub struct Curve {
    pub bits: u32,
    p: BigUint,
    n: BigUint,
    gx: BigUint,
    gy: BigUint,
    pub oid: Vec<u8>,
    pub len: usize,
}
fn bu(h: &str) -> BigUint {
    BigUint::parse_bytes(h.as_bytes(), 16).unwrap()
}
pub fn p256() -> &'static Curve {
    static C: OnceLock<Curve> = OnceLock::new();
    C.get_or_init(|| Curve {
        bits: 256,
        p: bu("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
        n: bu("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
        gx: bu("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
        gy: bu("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
        oid: oid(&[1, 2, 840, 10045, 3, 1, 7]),
        len: 32,
    })
}
pub fn p384() -> &'static Curve {
    static C: OnceLock<Curve> = OnceLock::new();
    C.get_or_init(|| Curve {
        bits: 384,
        p: bu("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff"),
        n: bu("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
        gx: bu("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"),
        gy: bu("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"),
        oid: oid(&[1, 3, 132, 0, 34]),
        len: 48,
    })
}
pub fn p521() -> &'static Curve {
    static C: OnceLock<Curve> = OnceLock::new();
    C.get_or_init(|| Curve {
        bits: 521,
        p: bu("1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"),
        n: bu("1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409"),
        gx: bu("c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66"),
        gy: bu("11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650"),
        oid: oid(&[1, 3, 132, 0, 35]),
        len: 66,
    })
}
type Jac = (BigUint, BigUint, BigUint);
impl Curve {
    fn sub(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a + &self.p - b) % &self.p
    }
    fn dbl(&self, q: &Jac) -> Jac {
        let p = &self.p;
        let (x, y, z) = q;
        // a = -3
        let delta = z * z % p;
        let gamma = y * y % p;
        let beta = x * &gamma % p;
        let alpha = BigUint::from(3u8) * self.sub(x, &delta) * ((x + &delta) % p) % p;
        let x3 = self.sub(&(&alpha * &alpha % p), &(BigUint::from(8u8) * &beta % p));
        let yz = (y + z) % p;
        let z3 = self.sub(&self.sub(&(&yz * &yz % p), &gamma), &delta);
        let y3 = self.sub(
            &(&alpha * self.sub(&(BigUint::from(4u8) * &beta % p), &x3) % p),
            &(BigUint::from(8u8) * &gamma % p * &gamma % p),
        );
        (x3, y3, z3)
    }
    fn add_aff(&self, q: &Jac, gx: &BigUint, gy: &BigUint) -> Jac {
        let p = &self.p;
        let (x1, y1, z1) = q;
        let z0 = BigUint::from(0u8);
        if *z1 == z0 {
            return (gx.clone(), gy.clone(), BigUint::from(1u8));
        }
        let z1z1 = z1 * z1 % p;
        let u2 = gx * &z1z1 % p;
        let s2 = gy * z1 % p * &z1z1 % p;
        let h = self.sub(&u2, x1);
        let r = self.sub(&s2, y1);
        if h == z0 {
            return if r == z0 { self.dbl(q) } else { (BigUint::from(1u8), BigUint::from(1u8), z0) };
        }
        let hh = &h * &h % p;
        let hhh = &h * &hh % p;
        let v = x1 * &hh % p;
        let x3 = self.sub(&self.sub(&(&r * &r % p), &hhh), &(BigUint::from(2u8) * &v % p));
        let y3 = self.sub(&(&r * self.sub(&v, &x3) % p), &(y1 * &hhh % p));
        let z3 = z1 * &h % p;
        (x3, y3, z3)
    }
    pub fn mul(&self, k: &BigUint, x: &BigUint, y: &BigUint) -> (BigUint, BigUint) {
        let mut acc: Jac = (BigUint::from(1u8), BigUint::from(1u8), BigUint::from(0u8));
        for i in (0..k.bits()).rev() {
            acc = self.dbl(&acc);
            if k.bit(i) {
                acc = self.add_aff(&acc, x, y);
            }
        }
        let zi = acc.2.modpow(&(&self.p - BigUint::from(2u8)), &self.p);
        let zi2 = &zi * &zi % &self.p;
        (&acc.0 * &zi2 % &self.p, &acc.1 * &zi2 % &self.p * &zi % &self.p)
    }
    pub fn base(&self, k: &BigUint) -> (BigUint, BigUint) {
        self.mul(k, &self.gx, &self.gy)
    }
    fn fixed(&self, x: &BigUint) -> Vec<u8> {
        let b = x.to_bytes_be();
        let mut v = vec![0u8; self.len - b.len()];
        v.extend(b);
        v
    }
    fn scalar(&self, r: &mut R) -> BigUint {
        loop {
            let k = BigUint::from_bytes_be(&r.bytes(self.len + 8)) % &self.n;
            if k > BigUint::from(1u8) {
                return k;
            }
        }
    }
    fn sign(&self, d: &BigUint, digest: &[u8], r: &mut R) -> Vec<u8> {
        let mut z = BigUint::from_bytes_be(digest);
        let dl = digest.len() as u32 * 8;
        if dl > self.bits {
            z >>= dl - self.bits;
        }
        loop {
            let k = self.scalar(r);
            let (x, _) = self.base(&k);
            let rr = x % &self.n;
            let ki = k.modpow(&(&self.n - BigUint::from(2u8)), &self.n);
            let s = ki * ((&z + &rr * d) % &self.n) % &self.n;
            if rr.bits() > 0 && s.bits() > 0 {
                return seq(&[&int(&rr.to_bytes_be()), &int(&s.to_bytes_be())]);
            }
        }
    }
}

// ------------------------------------------------------------------ keys

pub enum Kind {
    Ec(&'static Curve, BigUint),
    Ed(ring::signature::Ed25519KeyPair),
    Rsa { n: BigUint, d: BigUint, bits: usize, ring: Option<ring::signature::RsaKeyPair>, n_bytes: Vec<u8>, e_bytes: Vec<u8> },
}
pub struct Key {
    pub name: String,
    pub kind: Kind,
    /// SubjectPublicKeyInfo
    pub spki: Vec<u8>,
    /// Raw public key (EC point, RSAPublicKey, Ed25519 bytes)
    pub raw: Vec<u8>,
    fast: Option<(ring::signature::EcdsaKeyPair, H)>,
}

/// What a signature is made with.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sig {
    Ecdsa(H),
    Ed25519,
    Pkcs1(H),
    Pss(H),
}

fn rsa_parse(der: &[u8]) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let (_, mut c, _) = read_tlv(der).unwrap();
    let mut ints = vec![];
    while let Some((2, v, rest)) = read_tlv(c) {
        ints.push(v.to_vec());
        c = rest;
    }
    (ints[1].clone(), ints[2].clone(), ints[3].clone())
}

impl Key {
    pub fn ec(curve: &'static Curve, r: &mut R, name: &str) -> Key {
        let d = curve.scalar(r);
        let (x, y) = curve.base(&d);
        let raw = [&[4u8][..], &curve.fixed(&x), &curve.fixed(&y)].concat();
        let spki = seq(&[&seq(&[&oid(&[1, 2, 840, 10045, 2, 1]), &curve.oid]), &bits(&raw)]);
        let rng = ring::rand::SystemRandom::new();
        let fast = match curve.bits {
            256 => Some((&ring::signature::ECDSA_P256_SHA256_ASN1_SIGNING, H::Sha256)),
            384 => Some((&ring::signature::ECDSA_P384_SHA384_ASN1_SIGNING, H::Sha384)),
            _ => None,
        }
        .map(|(a, h)| (ring::signature::EcdsaKeyPair::from_private_key_and_public_key(a, &curve.fixed(&d), &raw, &rng).expect("own EC key"), h));
        Key { name: name.into(), kind: Kind::Ec(curve, d), spki, raw, fast }
    }
    pub fn ed(r: &mut R, name: &str) -> Key {
        let kp = ring::signature::Ed25519KeyPair::from_seed_unchecked(&r.bytes(32)).unwrap();
        let raw = kp.public_key().as_ref().to_vec();
        let spki = seq(&[&seq(&[&oid(&[1, 3, 101, 112])]), &bits(&raw)]);
        Key { name: name.into(), kind: Kind::Ed(kp), spki, raw, fast: None }
    }
    pub fn rsa(der: &[u8], name: &str) -> Key {
        let (n, e, d) = rsa_parse(der);
        let raw = seq(&[&int(&n), &int(&e)]);
        let spki = seq(&[&seq(&[&oid(&[1, 2, 840, 113549, 1, 1, 1]), &[5, 0]]), &bits(&raw)]);
        let nn = BigUint::from_bytes_be(&n);
        let bits = nn.bits() as usize;
        Key {
            name: name.into(),
            kind: Kind::Rsa { n: nn, d: BigUint::from_bytes_be(&d), bits, ring: ring::signature::RsaKeyPair::from_der(der).ok(), n_bytes: n, e_bytes: e },
            spki,
            raw,
            fast: None,
        }
    }
    /// The signature kinds this key can make.
    pub fn can(&self) -> Vec<Sig> {
        match &self.kind {
            Kind::Ec(..) => vec![Sig::Ecdsa(H::Sha256), Sig::Ecdsa(H::Sha384), Sig::Ecdsa(H::Sha512), Sig::Ecdsa(H::Sha1)],
            Kind::Ed(_) => vec![Sig::Ed25519],
            Kind::Rsa { .. } => vec![
                Sig::Pkcs1(H::Sha256), Sig::Pkcs1(H::Sha384), Sig::Pkcs1(H::Sha512), Sig::Pss(H::Sha256), Sig::Pss(H::Sha384), Sig::Pss(H::Sha512),
                Sig::Pkcs1(H::Sha1),
            ],
        }
    }
    /// A signature kind that the verifier supports for certificates by this key.
    pub fn usual(&self, r: &mut R) -> Sig {
        match &self.kind {
            Kind::Ec(c, _) if c.bits == 256 => Sig::Ecdsa(H::Sha256),
            Kind::Ec(c, _) if c.bits == 384 => Sig::Ecdsa(H::Sha384),
            Kind::Ec(..) => Sig::Ecdsa(H::Sha512),
            Kind::Ed(_) => Sig::Ed25519,
            Kind::Rsa { .. } => *r.pick(&[Sig::Pkcs1(H::Sha256), Sig::Pkcs1(H::Sha384), Sig::Pkcs1(H::Sha512)]),
        }
    }
    pub fn sign(&self, how: Sig, m: &[u8], r: &mut R) -> Vec<u8> {
        let rng = ring::rand::SystemRandom::new();
        match (&self.kind, how) {
            (Kind::Ec(c, d), Sig::Ecdsa(h)) => {
                if let Some((kp, fh)) = &self.fast {
                    if *fh == h && r.chance(9, 10) {
                        return kp.sign(&rng, m).unwrap().as_ref().to_vec();
                    }
                }
                c.sign(d, &h.hash(m), r)
            }
            (Kind::Ed(kp), Sig::Ed25519) => kp.sign(m).as_ref().to_vec(),
            (Kind::Rsa { n, d, bits, ring, .. }, Sig::Pkcs1(h)) => {
                if let (Some(kp), true) = (ring, r.chance(9, 10)) {
                    let e: Option<&'static dyn ring::signature::RsaEncoding> = match h {
                        H::Sha256 => Some(&ring::signature::RSA_PKCS1_SHA256),
                        H::Sha384 => Some(&ring::signature::RSA_PKCS1_SHA384),
                        H::Sha512 => Some(&ring::signature::RSA_PKCS1_SHA512),
                        H::Sha1 => None,
                    };
                    if let Some(e) = e {
                        let mut out = vec![0; kp.public().modulus_len()];
                        kp.sign(e, &rng, m, &mut out).unwrap();
                        return out;
                    }
                }
                let k = bits.div_ceil(8);
                let t = [h.digest_info(), &h.hash(m)].concat();
                let mut em = vec![0, 1];
                em.resize(k - t.len() - 1, 0xff);
                em.push(0);
                em.extend(t);
                rsa_private(n, d, &em, k)
            }
            (Kind::Rsa { n, d, bits, .. }, Sig::Pss(h)) => {
                let mh = h.hash(m);
                if bits.div_ceil(8) < 2 * mh.len() + 2 {
                    return r.bytes(bits.div_ceil(8)); // the key is too small for this hash
                }
                let salt = r.bytes(mh.len());
                let em_bits = bits - 1;
                let em_len = em_bits.div_ceil(8);
                let hh = h.hash(&[&[0u8; 8][..], &mh, &salt].concat());
                let mut db = vec![0u8; em_len - salt.len() - hh.len() - 2];
                db.push(1);
                db.extend(&salt);
                let mut mask = vec![];
                let mut i = 0u32;
                while mask.len() < db.len() {
                    mask.extend(h.hash(&[&hh[..], &i.to_be_bytes()].concat()));
                    i += 1;
                }
                for (a, b) in db.iter_mut().zip(&mask) {
                    *a ^= b;
                }
                db[0] &= 0xff >> (8 * em_len - em_bits);
                db.extend(&hh);
                db.push(0xbc);
                rsa_private(n, d, &db, bits.div_ceil(8))
            }
            _ => r.bytes(64),
        }
    }
}
fn rsa_private(n: &BigUint, d: &BigUint, em: &[u8], k: usize) -> Vec<u8> {
    let b = BigUint::from_bytes_be(em).modpow(d, n).to_bytes_be();
    let mut v = vec![0u8; k - b.len()];
    v.extend(b);
    v
}

/// AlgorithmIdentifier of a signature.
pub fn alg_id(s: Sig) -> Vec<u8> {
    let ec = |n: u64| seq(&[&oid(&[1, 2, 840, 10045, 4, 3, n])]);
    let rsa = |n: u64| seq(&[&oid(&[1, 2, 840, 113549, 1, 1, n]), &[5, 0]]);
    match s {
        Sig::Ecdsa(H::Sha1) => seq(&[&oid(&[1, 2, 840, 10045, 4, 1])]),
        Sig::Ecdsa(H::Sha256) => ec(2),
        Sig::Ecdsa(H::Sha384) => ec(3),
        Sig::Ecdsa(H::Sha512) => ec(4),
        Sig::Ed25519 => seq(&[&oid(&[1, 3, 101, 112])]),
        Sig::Pkcs1(H::Sha1) => rsa(5),
        Sig::Pkcs1(H::Sha256) => rsa(11),
        Sig::Pkcs1(H::Sha384) => rsa(12),
        Sig::Pkcs1(H::Sha512) => rsa(13),
        Sig::Pss(h) => {
            let (ho, len) = match h {
                H::Sha1 => (oid(&[1, 3, 14, 3, 2, 26]), 20u8),
                H::Sha256 => (oid(&[2, 16, 840, 1, 101, 3, 4, 2, 1]), 32),
                H::Sha384 => (oid(&[2, 16, 840, 1, 101, 3, 4, 2, 2]), 48),
                H::Sha512 => (oid(&[2, 16, 840, 1, 101, 3, 4, 2, 3]), 64),
            };
            let hid = seq(&[&ho, &[5, 0]]);
            let mgf = seq(&[&oid(&[1, 2, 840, 113549, 1, 1, 8]), &hid]);
            seq(&[
                &oid(&[1, 2, 840, 113549, 1, 1, 10]),
                &seq(&[&tlv(0xa0, &hid), &tlv(0xa1, &mgf), &tlv(0xa2, &int(&[len]))]),
            ])
        }
    }
}

/// All keys the monitors use; fixed, so that key generation costs are paid once.
pub struct Pool {
    pub p256: Vec<Key>,
    pub p384: Vec<Key>,
    pub p521: Vec<Key>,
    pub ed: Vec<Key>,
    pub rsa: Vec<Key>,
    pub small_rsa: Vec<Key>,
}
pub fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let mut r = R::new(77, "key pool", 0);
        Pool {
            p256: (0..8).map(|i| Key::ec(p256(), &mut r, &format!("p256-{i}"))).collect(),
            p384: (0..6).map(|i| Key::ec(p384(), &mut r, &format!("p384-{i}"))).collect(),
            p521: (0..1).map(|i| Key::ec(p521(), &mut r, &format!("p521-{i}"))).collect(),
            ed: (0..4).map(|i| Key::ed(&mut r, &format!("ed-{i}"))).collect(),
            rsa: vec![
                Key::rsa(include_bytes!("../keys/rsa2048-1.der"), "rsa2048-1"),
                Key::rsa(include_bytes!("../keys/rsa2048-2.der"), "rsa2048-2"),
                Key::rsa(include_bytes!("../keys/rsa3072-1.der"), "rsa3072-1"),
                Key::rsa(include_bytes!("../keys/rsa4096-1.der"), "rsa4096-1"),
            ],
            small_rsa: vec![Key::rsa(include_bytes!("../keys/rsa1024-1.der"), "rsa1024-1")],
        }
    })
}
/// Distinct, verifiable keys in random order.
pub fn some_keys(r: &mut R, n: usize) -> Vec<&'static Key> {
    let p = pool();
    let mut all: Vec<&'static Key> = p.p256.iter().chain(&p.p384).chain(&p.ed).chain(&p.rsa[..2]).collect();
    r.shuffle(&mut all);
    all.truncate(n);
    all
}

// ------------------------------------------------------------------ certificates

#[derive(Clone, Debug)]
pub struct Spec {
    pub v3: bool,
    pub serial: Vec<u8>,
    /// Contents of the Name (without the outer SEQUENCE).
    pub issuer: Vec<u8>,
    pub subject: Vec<u8>,
    pub not_before: i64,
    pub not_after: i64,
    /// None: no basic constraints extension.
    pub ca: Option<(bool, Option<u8>)>,
    pub eku: Option<Vec<Vec<u64>>>,
    pub key_usage: Option<u8>,
    pub dns: Option<Vec<String>>,
    pub ips: Vec<Vec<u8>>,
    pub permitted: Vec<String>,
    pub excluded: Vec<String>,
    pub unknown_critical: bool,
    pub unknown_noncritical: bool,
    pub sig: Sig,
    /// Outer signatureAlgorithm differs from the inner one.
    pub outer_sig: Option<Sig>,
}

pub const SERVER_AUTH: &[u64] = &[1, 3, 6, 1, 5, 5, 7, 3, 1];
pub const CLIENT_AUTH: &[u64] = &[1, 3, 6, 1, 5, 5, 7, 3, 2];

/// Civil date from unix time.
pub fn civil(t: i64) -> (i64, u32, u32, u32, u32, u32) {
    let days = t.div_euclid(86400);
    let s = t.rem_euclid(86400);
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (if m <= 2 { y + 1 } else { y }, m, d, (s / 3600) as u32, (s / 60 % 60) as u32, (s % 60) as u32)
}
pub fn time(t: i64) -> Vec<u8> {
    let (y, mo, d, h, mi, s) = civil(t);
    if (1950..2050).contains(&y) {
        tlv(0x17, format!("{:02}{mo:02}{d:02}{h:02}{mi:02}{s:02}Z", y % 100).as_bytes())
    } else {
        tlv(0x18, format!("{y:04}{mo:02}{d:02}{h:02}{mi:02}{s:02}Z").as_bytes())
    }
}
/// Name contents with a common name.
pub fn name(cn: &str) -> Vec<u8> {
    tlv(0x31, &seq(&[&oid(&[2, 5, 4, 3]), &tlv(0x0c, cn.as_bytes())]))
}
pub fn ext(id: &[u64], critical: bool, v: &[u8]) -> Vec<u8> {
    if critical { seq(&[&oid(id), &[1, 1, 0xff], &tlv(4, v)]) } else { seq(&[&oid(id), &tlv(4, v)]) }
}

impl Spec {
    pub fn tbs(&self, spki: &[u8]) -> Vec<u8> {
        let mut exts = vec![];
        if let Some((ca, plen)) = self.ca {
            let mut c = vec![];
            if ca {
                c.extend([1, 1, 0xff]);
            }
            if let Some(p) = plen {
                c.extend(int(&[p]));
            }
            exts.push(ext(&[2, 5, 29, 19], true, &tlv(0x30, &c)));
        }
        if let Some(ku) = self.key_usage {
            exts.push(ext(&[2, 5, 29, 15], true, &tlv(3, &[0, ku])));
        }
        if let Some(ekus) = &self.eku {
            let c: Vec<u8> = ekus.iter().flat_map(|o| oid(o)).collect();
            exts.push(ext(&[2, 5, 29, 37], false, &tlv(0x30, &c)));
        }
        if self.dns.is_some() || !self.ips.is_empty() {
            let mut c = vec![];
            for d in self.dns.iter().flatten() {
                c.extend(tlv(0x82, d.as_bytes()));
            }
            for i in &self.ips {
                c.extend(tlv(0x87, i));
            }
            exts.push(ext(&[2, 5, 29, 17], false, &tlv(0x30, &c)));
        }
        if !self.permitted.is_empty() || !self.excluded.is_empty() {
            let sub = |v: &[String]| -> Vec<u8> { v.iter().flat_map(|d| seq(&[&tlv(0x82, d.as_bytes())])).collect() };
            let mut c = vec![];
            if !self.permitted.is_empty() {
                c.extend(tlv(0xa0, &sub(&self.permitted)));
            }
            if !self.excluded.is_empty() {
                c.extend(tlv(0xa1, &sub(&self.excluded)));
            }
            exts.push(ext(&[2, 5, 29, 30], true, &tlv(0x30, &c)));
        }
        if self.unknown_critical {
            exts.push(ext(&[1, 3, 6, 1, 4, 1, 99999, 1], true, &[5, 0]));
        }
        if self.unknown_noncritical {
            exts.push(ext(&[1, 3, 6, 1, 4, 1, 99999, 2], false, &[5, 0]));
        }
        let mut t = vec![];
        if self.v3 {
            t.extend(tlv(0xa0, &int(&[2])));
        }
        t.extend(int(&self.serial));
        t.extend(alg_id(self.sig));
        t.extend(tlv(0x30, &self.issuer));
        t.extend(seq(&[&time(self.not_before), &time(self.not_after)]));
        t.extend(tlv(0x30, &self.subject));
        t.extend_from_slice(spki);
        if !exts.is_empty() {
            t.extend(tlv(0xa3, &tlv(0x30, &exts.concat())));
        }
        tlv(0x30, &t)
    }
    /// Signs the certificate for the subject key with the issuer's key.
    pub fn build(&self, subject: &Key, issuer: &Key, r: &mut R) -> Vec<u8> {
        let tbs = self.tbs(&subject.spki);
        let sig = issuer.sign(self.sig, &tbs, r);
        assemble(&tbs, self.outer_sig.unwrap_or(self.sig), &sig)
    }
    pub fn ca_spec(r: &mut R, subject: &str, issuer: &str, sig: Sig, now: i64) -> Spec {
        Spec {
            v3: true,
            serial: { let n = r.range(1, 16); let mut s = r.bytes(n); s[0] = (s[0] & 0x7f) | 1; s },
            issuer: name(issuer),
            subject: name(subject),
            not_before: now - r.range(1, 40_000_000) as i64,
            not_after: now + r.range(1, 40_000_000) as i64,
            ca: Some((true, None)),
            eku: None,
            key_usage: r.bool().then_some(0x06),
            dns: None,
            ips: vec![],
            permitted: vec![],
            excluded: vec![],
            unknown_critical: false,
            unknown_noncritical: r.chance(1, 4),
            sig,
            outer_sig: None,
        }
    }
    pub fn ee_spec(r: &mut R, subject: &str, issuer: &str, sig: Sig, now: i64, dns: Vec<String>) -> Spec {
        let mut s = Spec::ca_spec(r, subject, issuer, sig, now);
        s.ca = if r.bool() { None } else { Some((false, None)) };
        s.key_usage = r.bool().then_some(0xa0);
        s.eku = match r.below(3) {
            0 => None,
            1 => Some(vec![SERVER_AUTH.to_vec()]),
            _ => Some(vec![CLIENT_AUTH.to_vec(), SERVER_AUTH.to_vec()]),
        };
        s.dns = Some(dns);
        s
    }
}
pub fn assemble(tbs: &[u8], alg: Sig, sig: &[u8]) -> Vec<u8> {
    seq(&[tbs, &alg_id(alg), &bits(sig)])
}
/// The trust anchor for a key and name.
pub fn anchor(subject: &[u8], key: &Key) -> rustls_pki_types::TrustAnchor<'static> {
    let (_, spki, _) = read_tlv(&key.spki).unwrap();
    rustls_pki_types::TrustAnchor {
        subject: subject.to_vec().into(),
        subject_public_key_info: spki.to_vec().into(),
        name_constraints: None,
    }
}

// ------------------------------------------------------------------ certificate transparency

pub struct CtLog {
    pub key: &'static Key,
    pub id: [u8; 32],
}
impl CtLog {
    pub fn new(key: &'static Key) -> Self {
        let mut id = [0; 32];
        id.copy_from_slice(&H::Sha256.hash(&key.spki));
        CtLog { key, id }
    }
    pub fn leak(&self) -> &'static sct::Log<'static> {
        Box::leak(Box::new(sct::Log {
            description: "log", url: "https://log.example", operated_by: "nobody", key: &self.key.raw, id: self.id, max_merge_delay: 86400,
        }))
    }
}
pub struct SctSpec {
    pub version: u8,
    pub id: [u8; 32],
    pub timestamp: u64,
    pub exts: Vec<u8>,
    pub alg: u16,
}
impl SctSpec {
    pub fn signed(&self, cert: &[u8]) -> Vec<u8> {
        let mut m = vec![0u8, 0];
        m.extend(self.timestamp.to_be_bytes());
        m.extend([0, 0]);
        m.extend(&(cert.len() as u32).to_be_bytes()[1..]);
        m.extend(cert);
        m.extend((self.exts.len() as u16).to_be_bytes());
        m.extend(&self.exts);
        m
    }
    pub fn encode(&self, sig: &[u8]) -> Vec<u8> {
        let mut m = vec![self.version];
        m.extend(self.id);
        m.extend(self.timestamp.to_be_bytes());
        m.extend((self.exts.len() as u16).to_be_bytes());
        m.extend(&self.exts);
        m.extend(self.alg.to_be_bytes());
        m.extend((sig.len() as u16).to_be_bytes());
        m.extend(sig);
        m
    }
}
