//! C07: the recorded handshake proves the server's identity over this session.

use crate::{
    chain::{self, DEFECTS, Defect, World, acceptable, recase},
    pki::{self, H, Key, Kind, Sig, Spec},
};
use serde_json::json;
use tlsn_core::{
    connection::{
        CertBinding, CertBindingV1_2, DnsName, HandshakeData, HandshakeVerificationError as E, KeyType, ServerEphemKey, ServerName, ServerSignature, SignatureAlgorithm as A, TranscriptLength,
    },
    fixtures::ConnectionFixture,
    webpki::{CertificateDer, RootCertStore, ServerCertVerifier},
};
use vfw::{Cx, Fail, R, ensure, ensure_eq, quiet};

pub const ALGS: [A; 11] = [
    A::ECDSA_NISTP256_SHA256,
    A::ECDSA_NISTP256_SHA384,
    A::ECDSA_NISTP384_SHA256,
    A::ECDSA_NISTP384_SHA384,
    A::ED25519,
    A::RSA_PKCS1_2048_8192_SHA256,
    A::RSA_PKCS1_2048_8192_SHA384,
    A::RSA_PKCS1_2048_8192_SHA512,
    A::RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
    A::RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
    A::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
];
/// What the algorithm means, written down from its name.
fn meaning(a: A) -> (Sig, &'static str) {
    match a {
        A::ECDSA_NISTP256_SHA256 => (Sig::Ecdsa(H::Sha256), "p256"),
        A::ECDSA_NISTP256_SHA384 => (Sig::Ecdsa(H::Sha384), "p256"),
        A::ECDSA_NISTP384_SHA256 => (Sig::Ecdsa(H::Sha256), "p384"),
        A::ECDSA_NISTP384_SHA384 => (Sig::Ecdsa(H::Sha384), "p384"),
        A::ED25519 => (Sig::Ed25519, "ed"),
        A::RSA_PKCS1_2048_8192_SHA256 => (Sig::Pkcs1(H::Sha256), "rsa"),
        A::RSA_PKCS1_2048_8192_SHA384 => (Sig::Pkcs1(H::Sha384), "rsa"),
        A::RSA_PKCS1_2048_8192_SHA512 => (Sig::Pkcs1(H::Sha512), "rsa"),
        A::RSA_PSS_2048_8192_SHA256_LEGACY_KEY => (Sig::Pss(H::Sha256), "rsa"),
        A::RSA_PSS_2048_8192_SHA384_LEGACY_KEY => (Sig::Pss(H::Sha384), "rsa"),
        A::RSA_PSS_2048_8192_SHA512_LEGACY_KEY => (Sig::Pss(H::Sha512), "rsa"),
    }
}
pub fn fits(a: A, k: &Key) -> bool {
    k.name.starts_with(meaning(a).1) && !matches!(k.kind, Kind::Rsa { bits, .. } if bits < 2048)
}

/// Root certificates for the trusted names and keys of a world.
pub fn roots(r: &mut R, w: &World) -> RootCertStore {
    RootCertStore {
        roots: w
            .roots
            .iter()
            .map(|(subject, key)| {
                let how = key.usual(r);
                let mut s = Spec::ca_spec(r, "", "", how, w.now);
                s.subject = subject.clone();
                s.issuer = subject.clone();
                CertificateDer(s.build(key, key, r))
            })
            .collect(),
    }
}
pub fn message(client_random: &[u8], server_random: &[u8], key: &[u8]) -> Vec<u8> {
    [client_random, server_random, &[3, 0, 23, key.len() as u8], key].concat()
}

/// A session whose server is `w`'s end entity.
pub struct Identity {
    pub w: World,
    pub alg: A,
    pub roots: RootCertStore,
    pub hd: HandshakeData,
    pub eph: ServerEphemKey,
    pub name: ServerName,
}
pub fn dns(s: &str) -> Result<ServerName, String> {
    DnsName::try_from(s).map(ServerName::Dns).map_err(|_| format!("legal name {s:?} was not accepted"))
}
pub fn identity_of(r: &mut R, w: World) -> Result<Identity, String> {
    let fit: Vec<A> = ALGS.into_iter().filter(|a| fits(*a, w.ee.key)).collect();
    let alg = *r.pick(&fit);
    let (cr, sr): ([u8; 32], [u8; 32]) = (r.arr(), r.arr());
    let mut key = r.bytes(65);
    key[0] = 4;
    let sig = w.ee.key.sign(meaning(alg).0, &message(&cr, &sr, &key), r);
    let eph = ServerEphemKey { typ: KeyType::SECP256R1, key };
    let hd = HandshakeData {
        certs: w.chain().into_iter().map(CertificateDer).collect(),
        sig: ServerSignature { alg, sig },
        binding: CertBinding::V1_2(CertBindingV1_2 { client_random: cr, server_random: sr, server_ephemeral_key: eph.clone() }),
    };
    Ok(Identity { roots: roots(r, &w), alg, hd, eph, name: dns(&w.host)?, w })
}
pub fn identity(r: &mut R, depth: usize) -> Result<Identity, String> {
    let w = chain::world(r, depth, None);
    identity_of(r, w)
}

fn judge(id: &Identity, time: u64) -> Result<Result<(), E>, String> {
    let v = ServerCertVerifier::new(&id.roots).map_err(|e| format!("sound roots refused: {e}"))?;
    quiet(|| id.hd.verify(&v, time, &id.eph, &id.name))
}
fn class(e: &E) -> &'static str {
    match e {
        E::InvalidEndEntityCertificate => "certificate",
        E::MissingCerts => "no certificates",
        E::InvalidServerSignature => "signature",
        E::InvalidServerEphemeralKey => "ephemeral key",
        E::ServerCert(_) => "chain",
    }
}
fn binding(hd: &mut HandshakeData) -> &mut CertBindingV1_2 {
    #[allow(irrefutable_let_patterns)]
    let CertBinding::V1_2(b) = &mut hd.binding else { unreachable!() };
    b
}

pub fn c07(cx: &mut Cx) {
    cx.rule("Recorded handshakes of servers whose certificate chains, keys and signatures are made by an independent DER writer and signer (RSA, P-256, P-384, Ed25519; every signature algorithm of the data model), intact or with one defect in the chain, the time, the name, the ephemeral key, the randoms, the algorithm or the signature. The verdict is compared with an independent path search and the construction. Non-trivial = a distinct handshake.");
    cx.assume("path limits of the certificate library and key-usage bits are not exercised");
    cx.cases("genuine", 500, 10_000, |r, _, o| {
        let depth = r.below(4);
        let mut w = chain::world(r, depth, None);
        chain::decorate(&mut w, r);
        if r.chance(1, 5) {
            w.host = recase(r, &w.host);
        }
        ensure!(acceptable(&w.ee, &w.inters, &w.roots, w.now, &w.host), "HARNESS model refuses a sound world");
        let mut id = identity_of(r, w)?;
        o.key(&id.hd.sig.sig);
        o.see(format!("algorithm/{}", id.alg));
        o.see(format!("chain/{depth} intermediates"));
        let now = id.w.now as u64;
        judge(&id, now)?.map_err(|e| format!("genuine handshake refused ({}): {e}", id.alg))?;
        // it still does after it was stored
        id.hd = if r.bool() { serde_json::from_slice(&serde_json::to_vec(&id.hd).unwrap()).map_err(|e| e.to_string())? } else { bincode::deserialize(&bincode::serialize(&id.hd).unwrap()).map_err(|e| e.to_string())? };
        judge(&id, now)?.map_err(|e| format!("stored handshake refused ({}): {e}", id.alg))?;
        o.evals(1);
        Ok(())
    });
    cx.cases("chain defects", 1_100, 20_000, |r, idx, o| {
        let Defect { w, what, .. } = chain::defective(r, idx as usize % DEFECTS);
        let id = identity_of(r, w)?;
        o.key(&id.hd.sig.sig);
        o.input(json!({"defect": what, "host": id.w.host}));
        match judge(&id, id.w.now as u64)? {
            Ok(()) => Err(Fail::from(format!("accepted although: {what}"))),
            Err(e) => {
                ensure_eq!(class(&e), "chain", "class of the refusal ({what})");
                o.see(format!("defect/{what}"));
                Ok(())
            }
        }
    });
    cx.cases("certificate graphs", 400, 10_000, |r, _, o| {
        let w = chain::graph(r);
        let want = acceptable(&w.ee, &w.inters, &w.roots, w.now, &w.host);
        let id = identity_of(r, w)?;
        o.see(if want { "graph/accepted" } else { "graph/refused" });
        o.key(&id.hd.sig.sig);
        let got = judge(&id, id.w.now as u64)?;
        ensure_eq!(got.is_ok(), want, "verdict on a certificate graph ({got:?})");
        Ok(())
    });
    cx.cases("times and names", 250, 6_000, |r, _, o| {
        let depth = r.below(3);
        let mut id = identity(r, depth)?;
        let mut times: Vec<i64> = vec![0];
        for n in std::iter::once(&id.w.ee).chain(&id.w.inters) {
            for t in [n.spec.not_before, n.spec.not_after] {
                times.extend([t - 1, t, t + 1]);
            }
        }
        for _ in 0..3 {
            let t = *r.pick(&times);
            let want = acceptable(&id.w.ee, &id.w.inters, &id.w.roots, t, &id.w.host);
            let got = judge(&id, t as u64)?;
            ensure_eq!(got.is_ok(), want, "verdict at time {t} ({got:?})");
            o.evals(1);
            o.see(if want { "time/inside" } else { "time/outside" });
        }
        for t in [u64::MAX, u64::MAX - 1, i64::MAX as u64, 1 << 40] {
            ensure!(judge(&id, t)?.is_err(), "accepted at time {t}");
        }
        let (first, tail) = id.w.host.split_once('.').map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
        let base = id.w.host.clone();
        let cands = [
            base.clone(), format!("{base}."), recase(r, &base), format!("a.{base}"), tail.clone(), format!("{first}x.{tail}"), format!("x{first}.{tail}"), format!("{base}x"),
            format!("{}.{tail}", chain::label(r)), format!("{}.{first}.{tail}", chain::label(r)), chain::domain(r),
        ];
        let now = id.w.now;
        for c in &cands {
            id.name = dns(c)?;
            let want = acceptable(&id.w.ee, &id.w.inters, &id.w.roots, now, c);
            let got = judge(&id, now as u64)?;
            ensure_eq!(got.is_ok(), want, "verdict for name {c:?} against {:?} ({got:?})", id.w.ee.spec.dns);
            o.evals(1);
            o.see(if want { "name/matches" } else { "name/differs" });
        }
        o.key(&id.hd.sig.sig);
        Ok(())
    });
    cx.cases("algorithms and keys", 11 * 24, 11 * 400, |r, idx, o| {
        let alg = ALGS[idx as usize % 11];
        let p = pki::pool();
        let key = match (idx as usize / 11) % 8 {
            0 => &p.p256[r.below(8)],
            1 => &p.p384[r.below(6)],
            2 => &p.ed[r.below(4)],
            3 => &p.rsa[r.below(4)],
            4 => &p.small_rsa[0],
            5 => &p.p521[0],
            _ => p.p256.iter().chain(&p.p384).chain(&p.ed).chain(&p.rsa).find(|k| fits(alg, k)).unwrap(),
        };
        let depth = r.below(2);
        let w = chain::world(r, depth, Some(key));
        let all = chain::world(r, 0, None);
        let mut id = identity_of(r, all)?;
        id.w = w;
        id.roots = roots(r, &id.w);
        id.name = dns(&id.w.host)?;
        id.hd.certs = id.w.chain().into_iter().map(CertificateDer).collect();
        let b = binding(&mut id.hd);
        let m = message(&b.client_random, &b.server_random, &b.server_ephemeral_key.key);
        // the right kind of signature when the key can make it, otherwise any that it can
        let can = key.can();
        let how = if can.contains(&meaning(alg).0) { meaning(alg).0 } else { *r.pick(&can) };
        id.hd.sig = ServerSignature { alg, sig: key.sign(how, &m, r) };
        let want = fits(alg, key);
        o.key(&id.hd.sig.sig);
        o.see(format!("grid/{}/{alg}", key.name.split('-').next().unwrap()));
        let got = judge(&id, id.w.now as u64)?;
        ensure_eq!(got.is_ok(), want, "verdict for a signature {alg} by {} ({got:?})", key.name);
        if let Err(e) = got {
            ensure_eq!(class(&e), "signature", "class of the refusal");
        }
        // every other algorithm identifier is wrong for this signature
        if want {
            for other in ALGS {
                if other != alg {
                    id.hd.sig.alg = other;
                    let got = judge(&id, id.w.now as u64)?;
                    ensure!(matches!(&got, Err(E::InvalidServerSignature)), "a signature made as {alg} was judged {got:?} as {other}");
                    o.evals(1);
                }
            }
        }
        Ok(())
    });
    cx.cases("altered session", 900, 20_000, |r, idx, o| {
        let depth = r.below(2);
        let mut id = identity(r, depth)?;
        let b = binding(&mut id.hd).clone();
        let key = id.w.ee.key;
        let how = meaning(id.alg).0;
        let (cr, sr, ek) = (b.client_random.to_vec(), b.server_random.to_vec(), b.server_ephemeral_key.key.clone());
        let bit = |r: &mut R, v: &mut [u8]| {
            let i = r.below(v.len());
            v[i] ^= 1 << r.below(8)
        };
        let mut now = id.w.now as u64;
        let (what, want) = match idx % 18 {
            0 => { bit(r, &mut binding(&mut id.hd).client_random); ("client random", "signature") }
            1 => { bit(r, &mut binding(&mut id.hd).server_random); ("server random", "signature") }
            2 => { let b = binding(&mut id.hd); std::mem::swap(&mut b.client_random, &mut b.server_random); ("randoms exchanged", "signature") }
            3 => { bit(r, &mut id.eph.key); ("ephemeral key of the session", "ephemeral key") }
            4 => { bit(r, &mut binding(&mut id.hd).server_ephemeral_key.key); ("ephemeral key of the record", "ephemeral key") }
            5 => { bit(r, &mut id.eph.key); binding(&mut id.hd).server_ephemeral_key = id.eph.clone(); ("both ephemeral keys", "signature") }
            6 => {
                if r.bool() { id.eph.key.pop(); } else { id.eph.key.push(0); }
                if r.bool() { binding(&mut id.hd).server_ephemeral_key = id.eph.clone(); ("length of both ephemeral keys", "signature") } else { ("length of the ephemeral key", "ephemeral key") }
            }
            7 => { bit(r, &mut id.hd.sig.sig); ("signature bit", "signature") }
            8 => { let n = r.below(id.hd.sig.sig.len()); id.hd.sig.sig.truncate(n); ("signature cut", "signature") }
            9 => { id.hd.sig.sig.push(r.u8()); ("signature extended", "signature") }
            10 => {
                let other = pki::some_keys(r, 18).into_iter().find(|k| k.spki != key.spki && fits(id.alg, k));
                let Some(other) = other else { return Ok(()) };
                id.hd.sig.sig = other.sign(how, &message(&cr, &sr, &ek), r);
                ("signed by another key", "signature")
            }
            11 => {
                let m = match r.below(7) {
                    0 => [&cr[..], &sr].concat(),
                    1 => [&sr[..], &cr, &[3, 0, 23, 65], &ek].concat(),
                    2 => [&cr[..], &sr, &ek].concat(),
                    3 => [&cr[..], &[3, 0, 23, 65], &ek].concat(),
                    4 => [&cr[..], &sr, &[3, 0, 24, 65], &ek].concat(),
                    5 => [&[3, 0, 23, 65][..], &ek, &cr, &sr].concat(),
                    _ => H::Sha256.hash(&message(&cr, &sr, &ek)),
                };
                id.hd.sig.sig = key.sign(how, &m, r);
                ("signature over something else", "signature")
            }
            12 => { id.hd.certs.clear(); ("no certificates", "no certificates") }
            13 => { let n = id.w.ee.spec.not_after as u64; now = n + r.range(1, 1 << 20) as u64; ("after expiry", "chain") }
            14 => { let n = id.w.ee.spec.not_before as u64; now = n - r.range(1, (n as usize).min(1 << 20)) as u64; ("before validity", "chain") }
            15 => {
                let k = r.below(id.hd.certs.len());
                bit(r, &mut id.hd.certs[k].0);
                ("certificate byte", "chain")
            }
            16 if id.hd.certs.len() > 1 => { id.hd.certs.rotate_left(1); ("chain rotated", "chain") }
            _ => {
                // the same server, but the handshake of another session
                let other = identity_of(r, World { now: id.w.now, host: id.w.host.clone(), ee: id.w.ee.clone(), inters: id.w.inters.clone(), roots: id.w.roots.clone() })?;
                if r.bool() {
                    id.hd.sig = other.hd.sig;
                    ("signature of another session", "signature")
                } else {
                    id.eph = other.eph;
                    ("ephemeral key of another session", "ephemeral key")
                }
            }
        };
        o.input(json!({"altered": what, "alg": id.alg.to_string()}));
        o.key([&id.hd.sig.sig[..], what.as_bytes(), &id.eph.key].concat());
        match judge(&id, now)? {
            Ok(()) => Err(Fail::from(format!("accepted although altered: {what}"))),
            Err(e) => {
                ensure_eq!(class(&e), want, "class of the refusal ({what}: {e})");
                o.see(format!("altered/{what}"));
                Ok(())
            }
        }
    });
    cx.cases("root stores", 60, 1_000, |r, _, o| {
        let mut id = identity(r, r.clone().below(2))?;
        id.roots = roots(r, &id.w);
        o.key(&id.roots.roots[0].0);
        // PEM form of the same root
        use std::fmt::Write;
        let der = id.roots.roots[0].0.clone();
        let mut pem = String::from("-----BEGIN CERTIFICATE-----\n");
        for line in base64(&der).as_bytes().chunks(64) {
            writeln!(pem, "{}", std::str::from_utf8(line).unwrap()).unwrap();
        }
        pem.push_str("-----END CERTIFICATE-----\n");
        let got = CertificateDer::from_pem_slice(pem.as_bytes()).map_err(|e| e.to_string())?;
        ensure_eq!(got.0, der, "certificate read from PEM");
        ensure!(quiet(|| CertificateDer::from_pem_slice(&pem.as_bytes()[5..]))?.is_err(), "PEM without its first line");
        ensure!(RootCertStore::empty().roots.is_empty(), "empty store");
        // anything that is not a certificate is named in the refusal
        let at = r.below(id.roots.roots.len() + 1);
        let mut bad = id.roots.roots[0].0.clone();
        let cut = r.below(bad.len());
        bad.truncate(cut);
        let mut broken = id.roots.clone();
        broken.roots.insert(at, CertificateDer(bad.clone()));
        match quiet(|| ServerCertVerifier::new(&broken))? {
            Ok(_) => return Err(Fail::from("a truncated root was accepted")),
            Err(tlsn_core::webpki::ServerCertVerifierError::InvalidRootCertificate { cert, .. }) => ensure_eq!(cert.0, bad, "certificate blamed"),
            Err(e) => return Err(Fail::from(format!("refusal of a truncated root: {e:?}"))),
        }
        o.see("root refused");
        // no roots: nothing is trusted
        id.roots = RootCertStore::empty();
        ensure!(judge(&id, id.w.now as u64)?.is_err(), "accepted without roots");
        o.see("no roots");
        Ok(())
    });
    cx.cases("recorded handshakes", 2, 2, |_, idx, o| {
        let len = TranscriptLength { sent: 1, received: 1 };
        let f = if idx == 0 { ConnectionFixture::tlsnotary(len) } else { ConnectionFixture::appliedzkp(len) };
        let key = f.server_ephemeral_key().clone();
        let ca = RootCertStore { roots: vec![f.server_cert_data.certs.last().unwrap().clone()] };
        let v = ServerCertVerifier::new(&ca).map_err(|e| e.to_string())?;
        f.server_cert_data.verify(&v, f.connection_info.time, &key, &f.server_name).map_err(|e| format!("real handshake refused: {e}"))?;
        let all = RootCertStore::mozilla();
        ensure!(all.roots.len() > 50, "Mozilla store of {} roots", all.roots.len());
        let m = ServerCertVerifier::new(&all).map_err(|e| format!("Mozilla roots refused: {e}"))?;
        let s = ServerCertVerifier::mozilla();
        let a = f.server_cert_data.verify(&m, f.connection_info.time, &key, &f.server_name).is_ok();
        let b = f.server_cert_data.verify(&s, f.connection_info.time, &key, &f.server_name).is_ok();
        ensure_eq!(a, b, "the two Mozilla verifiers agree");
        let mut bad = f.server_cert_data.clone();
        for cut in 0..bad.certs.len() {
            let mut c = bad.clone();
            c.certs[cut].0.truncate(100);
            if cut + 1 < c.certs.len() {
                ensure!(c.verify(&v, f.connection_info.time, &key, &f.server_name).is_err(), "cut certificate {cut} accepted");
            }
        }
        binding(&mut bad).client_random[31] ^= 1;
        ensure!(bad.verify(&v, f.connection_info.time, &key, &f.server_name).is_err(), "altered random accepted");
        ensure!(f.server_cert_data.verify(&v, f.connection_info.time, &key, &dns("example.org")?).is_err(), "other name accepted");
        o.key([idx as u8]);
        o.see("recorded handshake");
        Ok(())
    });
    for a in ALGS {
        cx.require(&format!("algorithm/{a}"), 3);
    }
    cx.require("graph/accepted", 20);
    cx.require("graph/refused", 20);
    cx.require("time/outside", 20);
    cx.require("time/inside", 20);
}

pub fn base64(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() { s.push(T[(n >> (18 - 6 * i)) as usize & 63] as char) } else { s.push('=') }
        }
    }
    s
}
