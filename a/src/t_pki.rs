//! T09-T12: certificate chains, certificate transparency, recorded handshakes, handshake signatures.

use crate::{chain::*, pki::*};
use rustls_pki_types::TrustAnchor;
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use tls_core::{
    Error,
    anchors::RootCertStore,
    cert::ServerCertDetails,
    dns::ServerName,
    handshake::HandshakeData,
    ke::ServerKxDetails,
    key::Certificate,
    msgs::{
        base::PayloadU16,
        enums::SignatureScheme,
        handshake::{DigitallySignedStruct, DistinguishedNames, Random},
    },
    verify::*,
};
use vfw::{serde_json::json, *};

fn at(t: i64) -> SystemTime {
    if t >= 0 { UNIX_EPOCH + Duration::from_secs(t as u64) } else { UNIX_EPOCH - Duration::from_secs(-t as u64) }
}
fn store(roots: Vec<TrustAnchor<'static>>) -> RootCertStore {
    RootCertStore { roots }
}
fn class(e: &Error) -> &'static str {
    match e {
        Error::InvalidCertificateEncoding => "encoding",
        Error::InvalidCertificateSignature => "signature",
        Error::InvalidCertificateSignatureType => "signature type",
        Error::InvalidCertificateData(_) => "data",
        Error::NoCertificatesPresented => "none",
        Error::InvalidSct(_) => "sct",
        Error::PeerMisbehavedError(_) => "misbehaved",
        Error::FailedToGetCurrentTime => "time",
        _ => "other",
    }
}

fn verify(w: &World, ocsp: &[u8], scts: &[Vec<u8>], now: SystemTime) -> Result<Result<(), Error>, String> {
    let v = WebPkiVerifier::new(store(w.anchors()), None);
    verify_with(&v, w, &w.host, ocsp, scts, now)
}
fn verify_with(v: &impl ServerCertVerifier, w: &World, host: &str, ocsp: &[u8], scts: &[Vec<u8>], now: SystemTime) -> Result<Result<(), Error>, String> {
    let chain: Vec<Certificate> = w.chain().into_iter().map(Certificate).collect();
    let sn = ServerName::try_from(host).map_err(|_| format!("legal name {host:?} was not accepted"))?;
    quiet(|| v.verify_server_cert(&chain[0], &chain[1..], &sn, &mut scts.iter().map(|s| s.as_slice()), ocsp, now).map(|_| ()))
}

// ------------------------------------------------------------------ T09

pub fn t09(cx: &mut Cx) {
    cx.rule("Certificate worlds built by an independent DER writer and signer (RSA, P-256, P-384, Ed25519 keys; 0..4 intermediates in any order with decoys, twins and foreign roots), intact or with one named defect at a random place, judged by an independent path search; plus single byte changes, boundary times and name variants. Non-trivial = a distinct world.");
    cx.assume("path limits of the certificate library (6 intermediates, signature budget) are not exercised; key-usage bits are always set correctly");
    cx.cases("sound", 700, 12_000, |r, _, obs| {
        let depth = r.below(5);
        let mut w = world(r, depth, None);
        decorate(&mut w, r);
        ensure!(acceptable(&w.ee, &w.inters, &w.roots, w.now, &w.host), "HARNESS model refuses a sound world");
        if r.chance(1, 5) {
            w.host = recase(r, &w.host);
        }
        if r.chance(1, 5) {
            w.host.push('.');
        }
        let n = r.len(40);
        let ocsp = r.bytes(n);
        let scts: Vec<Vec<u8>> = (0..r.below(3)).map(|_| r.bytes(20)).collect();
        obs.input(json!({"depth": depth, "host": w.host, "ee_key": w.ee.key.name, "inters": w.inters.len(), "roots": w.roots.len()}));
        obs.key(&w.ee.der);
        obs.see(format!("sound depth {depth}"));
        obs.see(format!("ee key {}", w.ee.key.name.split('-').next().unwrap()));
        let nanos = r.below(1_000_000_000) as u32;
        let t = at(w.now) + Duration::new(0, nanos.min(if w.now == w.ee.spec.not_after { 0 } else { nanos }));
        match verify(&w, &ocsp, &scts, t)? {
            Ok(()) => Ok(()),
            Err(e) => Err(Fail::from(format!("valid chain refused: depth {depth}: {e:?}"))),
        }
    });

    cx.cases("defect", 2_600, 40_000, |r, idx, obs| {
        let Defect { w, what, want, depth, on_ee } = defective(r, idx as usize % DEFECTS);
        ensure!(!acceptable(&w.ee, &w.inters, &w.roots, w.now, &w.host), "HARNESS model accepts a defective world: {what}");
        obs.see(format!("defect {what}"));
        obs.see(format!("defect depth {depth}"));
        obs.key(&w.ee.der);
        obs.key([what.as_bytes(), &w.inters.iter().flat_map(|n| n.der.clone()).collect::<Vec<_>>()].concat());
        obs.input(json!({"defect": what, "depth": depth, "on_end_entity": on_ee, "host": w.host}));
        match verify(&w, &[], &[], at(w.now))? {
            Ok(()) => Err(Fail::from(format!("chain with a defect was accepted ({what}): depth {depth}"))),
            Err(e) => {
                let got = class(&e);
                let ok = match want {
                    "any" => matches!(got, "data" | "encoding"),
                    "signature*" => matches!(got, "signature" | "signature type"),
                    x => got == x,
                };
                ensure!(ok, "refused with an error of the wrong class ({what}): {e:?} instead of {want}");
                obs.see(format!("refused as {got}"));
                Ok(())
            }
        }
    });

    cx.cases("graph", 800, 20_000, |r, _, obs| {
        let w = graph(r);
        let now = w.now;
        let want = acceptable(&w.ee, &w.inters, &w.roots, w.now, &w.host);
        obs.see(if want { "graph accepted" } else { "graph refused" });
        obs.key(&w.ee.der);
        let got = verify(&w, &[], &[], at(now))?;
        ensure_eq!(got.is_ok(), want, "verdict on a certificate graph ({got:?})");
        Ok(())
    });

    cx.cases("time and name", 500, 8_000, |r, _, obs| {
        let depth = r.below(3);
        let mut w = world(r, depth, None);
        // boundary times over all certificates
        let mut times: Vec<i64> = vec![];
        for n in std::iter::once(&w.ee).chain(&w.inters) {
            for t in [n.spec.not_before, n.spec.not_after] {
                times.extend([t - 1, t, t + 1]);
            }
        }
        let t = *r.pick(&times);
        let want = acceptable(&w.ee, &w.inters, &w.roots, t, &w.host);
        let got = verify(&w, &[], &[], at(t))?;
        ensure_eq!(got.is_ok(), want, "verdict at a boundary time {t} ({got:?})");
        obs.see(if want { "time inside" } else { "time outside" });
        // a fraction of a second before a certificate's first valid second, or after a second outside all of them
        let frac = Duration::new(0, *r.pick(&[1u32, 500_000_000, 999_000_000, 999_999_999]));
        if !want || acceptable(&w.ee, &w.inters, &w.roots, t + 1, &w.host) {
            let got = verify(&w, &[], &[], at(t) + frac)?;
            ensure_eq!(got.is_ok(), want, "verdict {frac:?} after the boundary time {t} ({got:?})");
            obs.see(if want { "fraction inside" } else { "fraction outside" });
        }
        // names
        let (first, tail) = w.host.split_once('.').map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
        let base = w.host.clone();
        let cands = [
            base.clone(), format!("{base}."), recase(r, &base), format!("a.{base}"), tail.clone(), format!("{first}x.{tail}"), format!("x{first}.{tail}"),
            format!("{base}x"), format!("{}.{tail}", label(r)), format!("{}.{first}.{tail}", label(r)), domain(r),
        ];
        for c in &cands {
            if ServerName::try_from(c.as_str()).is_err() {
                continue;
            }
            let want = acceptable(&w.ee, &w.inters, &w.roots, w.now, c);
            let v = WebPkiVerifier::new(store(w.anchors()), None);
            let got = verify_with(&v, &w, c, &[], &[], at(w.now))?;
            ensure_eq!(got.is_ok(), want, "verdict for name {c:?} against {:?} ({got:?})", w.ee.spec.dns);
            obs.evals(1);
            obs.see(if want { "name matches" } else { "name differs" });
        }
        obs.key(&w.ee.der);
        // before the epoch
        let got = verify(&w, &[], &[], at(-(r.range(1, 100000) as i64)))?;
        ensure!(got.is_err(), "accepted at a time before 1970");
        // no subject alternative name at all
        w.ee.spec.dns = None;
        w.ee.spec.subject = name(&w.host);
        w.ee.der = w.ee.spec.build(w.ee.key, w.ee.signer, r);
        let got = verify(&w, &[], &[], at(w.now))?;
        ensure!(matches!(&got, Err(e) if class(e) == "data"), "certificate without alternative names: {got:?}");
        // IP alternative names only
        w.ee.spec.ips = vec![r.bytes(4)];
        w.ee.der = w.ee.spec.build(w.ee.key, w.ee.signer, r);
        let got = verify(&w, &[], &[], at(w.now))?;
        ensure!(got.is_err(), "certificate with only IP names accepted for {:?}", w.host);
        Ok(())
    });

    cx.cases("byte change", 120, 2_500, |r, _, obs| {
        let depth = r.below(3);
        let w = world(r, depth, None);
        ensure!(verify(&w, &[], &[], at(w.now))?.is_ok(), "valid chain refused");
        let total: usize = 1 + depth;
        for _ in 0..24 {
            let mut m = World { now: w.now, host: w.host.clone(), ee: w.ee.clone(), inters: w.inters.clone(), roots: w.roots.clone() };
            let k = r.below(total);
            let n = if k == 0 { &mut m.ee } else { &mut m.inters[k - 1] };
            let p = r.below(n.der.len());
            match r.below(6) {
                0 => n.der.truncate(p),
                1 => n.der.push(r.u8()),
                2 => n.der.insert(p, r.u8()),
                3 => {
                    n.der.remove(p);
                }
                _ => n.der[p] ^= 1 << r.below(8),
            }
            let orig = if k == 0 { &w.ee.der } else { &w.inters[k - 1].der };
            if n.der == *orig {
                continue;
            }
            obs.key(&n.der);
            obs.evals(1);
            obs.see("altered certificate");
            let pos = p;
            let got = verify(&m, &[], &[], at(m.now))?;
            ensure!(got.is_err(), "a certificate altered at byte {pos} of certificate {k} is still accepted");
        }
        Ok(())
    });

    cx.cases("garbage", 1_500, 40_000, |r, _, obs| {
        let n = r.len(200);
        let b = r.bytes(n);
        let w = world(r, 0, None);
        let v = WebPkiVerifier::new(store(w.anchors()), None);
        let sn = ServerName::try_from(w.host.as_str()).unwrap();
        obs.key(&b);
        let ee = Certificate(b);
        let got = quiet(|| v.verify_server_cert(&ee, &[], &sn, &mut std::iter::empty(), &[], at(w.now)).map(|_| ()))?;
        ensure!(got.is_err(), "random bytes accepted as a certificate");
        ensure!(matches!(class(got.as_ref().unwrap_err()), "encoding" | "data"), "random bytes: {got:?}");
        obs.see("garbage refused");
        Ok(())
    });
    for d in 0..5 {
        cx.require(&format!("sound depth {d}"), 20);
    }
    cx.require("graph accepted", 60);
    cx.require("graph refused", 60);
    cx.require("time inside", 50);
    cx.require("time outside", 50);
    cx.require("name matches", 300);
    cx.require("name differs", 300);
    for d in ["expired", "not yet valid", "missing intermediate", "name not in certificate", "name constraint", "path length", "signature over other bytes"] {
        cx.require(&format!("defect {d}"), 50);
    }
}

// ------------------------------------------------------------------ T10

#[derive(Debug, Clone, Copy, PartialEq)]
enum S {
    Good,
    UnknownLog,
    UnknownVersion,
    BadSig,
    OtherCert,
    OtherLogKey,
    Future,
    WrongAlg,
    Truncated,
    Trailing,
    Empty,
    AlteredTime,
    AlteredExts,
}
const ALL_S: &[S] = &[
    S::Good, S::UnknownLog, S::UnknownVersion, S::BadSig, S::OtherCert, S::OtherLogKey, S::Future, S::WrongAlg, S::Truncated, S::Trailing, S::Empty,
    S::AlteredTime, S::AlteredExts,
];

pub fn t10(cx: &mut Cx) {
    cx.rule("Lists of 0..4 timestamps of 13 kinds (good, unknown log or version, forged in five ways, from the future, malformed) under 0..3 logs with P-256, P-384 and RSA keys, policy dates before, at and after the time of checking, with chains that are good or bad; the expected verdict is the sequential RFC 6962 rule; non-trivial = a distinct timestamp list.");
    let p = pool();
    let log_keys: Vec<&'static Key> = vec![&p.p256[0], &p.p256[1], &p.p384[0], &p.rsa[0], &p.rsa[2], &p.p384[1]];
    let logs: Vec<CtLog> = log_keys.iter().map(|k| CtLog::new(k)).collect();
    let static_logs: Vec<&'static sct::Log<'static>> = logs.iter().map(|l| l.leak()).collect();
    // all ordered subsets we use are leaked once
    let mut sets: Vec<(&'static [&'static sct::Log<'static>], Vec<usize>)> = vec![];
    {
        let mut r = R::new(5, "log sets", 0);
        sets.push((Box::leak(Box::new([])), vec![]));
        for _ in 0..24 {
            let n = r.range(1, 3);
            let mut ix: Vec<usize> = (0..logs.len()).collect();
            r.shuffle(&mut ix);
            ix.truncate(n);
            let v: Vec<_> = ix.iter().map(|i| static_logs[*i]).collect();
            sets.push((Box::leak(v.into_boxed_slice()), ix));
        }
    }
    cx.cases("lists", 2_500, 40_000, |r, idx, obs| {
        let spare: Vec<&'static Key> = pool().ed.iter().collect();
        let ee_key = *r.pick(&spare);
        let mut w = world(r, r.clone().below(2), Some(ee_key));
        let (set, ix) = if r.chance(1, 12) { &sets[0] } else { &sets[1 + r.below(sets.len() - 1)] };
        let alg_of = |k: &Key, r: &mut R| -> (u16, Sig) {
            match &k.kind {
                Kind::Ec(c, _) if c.bits == 256 => (0x0403, Sig::Ecdsa(H::Sha256)),
                Kind::Ec(..) => (0x0503, Sig::Ecdsa(H::Sha384)),
                _ => if r.bool() { (0x0401, Sig::Pkcs1(H::Sha256)) } else { (0x0501, Sig::Pkcs1(H::Sha384)) },
            }
        };
        let known = |r: &mut R| -> usize { if ix.is_empty() { 0 } else { *r.pick(ix) } };
        let unknown: Vec<usize> = (0..logs.len()).filter(|i| !ix.contains(i)).collect();
        let n = match r.below(6) {
            0 => 0,
            1 | 2 => 1,
            3 | 4 => 2,
            _ if r.chance(1, 6) => r.range(5, 20),
            _ => r.range(3, 4),
        };
        // the time of checking has a fraction of a second, unless that would leave the validity
        let frac = if w.now == w.ee.spec.not_after { 0 } else { *r.pick(&[0u32, 0, 1, 999_999, 1_000_000, 1_999_999, 500_000_000, 999_999_999]) };
        let now = at(w.now) + Duration::new(0, frac);
        let ms = w.now as u64 * 1000 + frac as u64 / 1_000_000;
        let mut list = vec![];
        let mut kinds = vec![];
        for j in 0..n {
            let kind = if j == 0 && n == 1 { ALL_S[idx as usize % ALL_S.len()] } else if if n > 4 && j + 1 < n { r.chance(15, 16) } else { r.bool() } { *r.pick(if n > 4 { &[S::UnknownLog, S::UnknownVersion][..] } else { &[S::Good, S::UnknownLog, S::UnknownVersion][..] }) } else { *r.pick(ALL_S) };
            let li = if kind == S::UnknownLog { *r.pick(&unknown) } else { known(r) };
            let log = &logs[li];
            let (alg, how) = alg_of(log.key, r);
            let ne = if r.chance(1, 4) { r.len(50) } else { 0 };
            let mut spec = SctSpec {
                version: 0,
                id: log.id,
                timestamp: match r.below(4) {
                    0 => ms,
                    1 => 0,
                    _ => ms - (r.u64() % ms),
                },
                exts: r.bytes(ne),
                alg,
            };
            match kind {
                S::UnknownLog if r.bool() => spec.id = r.arr(),
                S::UnknownVersion => spec.version = r.range(1, 255) as u8,
                S::Future => spec.timestamp = ms + if r.bool() { 1 } else { 1 + r.u64() % (1 << 40) },
                S::WrongAlg => spec.alg = *r.pick(&[0x0403u16, 0x0503, 0x0401, 0x0501, 0x0804, 0x0203, 0, 0xffff].iter().copied().filter(|a| *a != alg).collect::<Vec<_>>()),
                _ => {}
            }
            let cert = if kind == S::OtherCert { if w.inters.is_empty() { [w.ee.der.clone(), vec![0]].concat() } else { w.inters[0].der.clone() } } else { w.ee.der.clone() };
            let signer = if kind == S::OtherLogKey { log_keys.iter().find(|k| k.spki != log.key.spki && std::mem::discriminant(&k.kind) == std::mem::discriminant(&log.key.kind)).copied().unwrap_or(log.key) } else { log.key };
            let mut sig = signer.sign(how, &spec.signed(&cert), r);
            match kind {
                S::BadSig => {
                    let k = r.below(sig.len());
                    sig[k] ^= 1 << r.below(8);
                }
                S::AlteredTime => spec.timestamp = spec.timestamp.wrapping_sub(1) & ((1 << 40) - 1),
                S::AlteredExts => spec.exts.push(r.u8()),
                S::UnknownVersion if r.bool() => sig.truncate(3),
                _ => {}
            }
            let mut e = spec.encode(&sig);
            match kind {
                S::Truncated => { let k = r.range(1, e.len() - 1); e.truncate(k); }
                S::Trailing => { let k = r.range(1, 4); e.extend(r.bytes(k)); }
                S::Empty => e.clear(),
                _ => {}
            }
            list.push(e);
            kinds.push(kind);
        }
        let deadline = match r.below(8) {
            0 => now,
            1 => at(w.now - 1 - r.below(1000) as i64),
            2 => at(w.now + 1),
            3 => now - Duration::new(0, *r.pick(&[1u32, 999_999, 1_000_000, 999_999_999])),
            4 => now + Duration::new(0, *r.pick(&[1u32, 999_999, 1_000_000, 999_999_999])),
            _ => at(w.now + 1 + r.below(1_000_000) as i64),
        };
        let in_force = !ix.is_empty() && deadline >= now;
        // sequential rule
        let mut verdict: Result<(), bool> = Ok(());
        if in_force {
            for k in &kinds {
                match k {
                    S::Good => {
                        verdict = Ok(());
                        break;
                    }
                    S::UnknownLog | S::UnknownVersion => verdict = Err(false),
                    _ => {
                        verdict = Err(true);
                        break;
                    }
                }
            }
        }
        let policy = CertificateTransparencyPolicy::new(set, deadline);
        let spoil = r.below(8);
        let mut roots = w.anchors();
        let mut host = w.host.clone();
        if spoil == 0 {
            roots.clear();
        } else if spoil == 1 {
            host = "not-in-it.example".into();
        }
        let v = WebPkiVerifier::new(store(roots), Some(policy));
        let got = verify_with(&v, &w, &host, &[], &list, now)?;
        obs.see(format!("list {}", if in_force { "in force" } else if ix.is_empty() { "no logs" } else { "expired policy" }));
        for k in &kinds {
            obs.see(format!("timestamp {k:?}"));
        }
        obs.key(list.concat());
        obs.input(json!({"kinds": format!("{kinds:?}"), "logs": ix, "in_force": in_force, "deadline": format!("{deadline:?}"), "now": format!("{now:?}")}));
        w.inters.clear();
        if spoil < 2 {
            ensure!(got.is_err(), "timestamps {kinds:?} made an unacceptable certificate acceptable");
            obs.see("bad chain still refused");
            return Ok(());
        }
        match (&verdict, &got) {
            (Ok(()), Ok(())) => obs.see("accepted"),
            (Err(_), Err(Error::InvalidSct(_))) => obs.see("refused"),
            _ => return Err(Fail::from(format!("timestamp policy verdict ({kinds:?}, in force {in_force}): got {got:?}"))),
        }
        Ok(())
    });
    cx.require("accepted", 200);
    cx.require("refused", 200);
    for k in ALL_S {
        cx.require(&format!("timestamp {k:?}"), 20);
    }
    cx.require("list expired policy", 50);
    cx.require("list no logs", 50);
}

// ------------------------------------------------------------------ TLS signature schemes

/// How a scheme signs in TLS 1.2, if the verifier supports it: None = not advertised.
fn scheme_sig(s: u16) -> Option<Sig> {
    Some(match s {
        0x0403 => Sig::Ecdsa(H::Sha256),
        0x0503 => Sig::Ecdsa(H::Sha384),
        0x0807 => Sig::Ed25519,
        0x0401 => Sig::Pkcs1(H::Sha256),
        0x0501 => Sig::Pkcs1(H::Sha384),
        0x0601 => Sig::Pkcs1(H::Sha512),
        0x0804 => Sig::Pss(H::Sha256),
        0x0805 => Sig::Pss(H::Sha384),
        0x0806 => Sig::Pss(H::Sha512),
        _ => return None,
    })
}
const SCHEMES: &[u16] = &[0x0403, 0x0503, 0x0807, 0x0401, 0x0501, 0x0601, 0x0804, 0x0805, 0x0806];

/// Does a genuine signature `how` by key verify when declared as `scheme`?
fn scheme_accepts(scheme: u16, k: &Key, how: Sig, tls13: bool) -> bool {
    let Some(want) = scheme_sig(scheme) else { return false };
    if want != how {
        return false;
    }
    match (&k.kind, want) {
        (Kind::Ec(c, _), Sig::Ecdsa(h)) => {
            if tls13 {
                (c.bits == 256 && h == H::Sha256) || (c.bits == 384 && h == H::Sha384)
            } else {
                c.bits == 256 || c.bits == 384
            }
        }
        (Kind::Ed(_), Sig::Ed25519) => true,
        (Kind::Rsa { bits, .. }, Sig::Pss(_)) => *bits >= 2048,
        (Kind::Rsa { bits, .. }, Sig::Pkcs1(_)) => *bits >= 2048 && !tls13,
        _ => false,
    }
}
fn expected_alg(scheme: u16, k: &Key) -> SignatureAlgorithm {
    use SignatureAlgorithm::*;
    let p256 = matches!(&k.kind, Kind::Ec(c, _) if c.bits == 256);
    match (scheme, p256) {
        (0x0403, true) => ECDSA_NISTP256_SHA256,
        (0x0403, false) => ECDSA_NISTP384_SHA256,
        (0x0503, true) => ECDSA_NISTP256_SHA384,
        (0x0503, false) => ECDSA_NISTP384_SHA384,
        (0x0807, _) => ED25519,
        (0x0401, _) => RSA_PKCS1_2048_8192_SHA256,
        (0x0501, _) => RSA_PKCS1_2048_8192_SHA384,
        (0x0601, _) => RSA_PKCS1_2048_8192_SHA512,
        (0x0804, _) => RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
        (0x0805, _) => RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
        _ => RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
    }
}

// ------------------------------------------------------------------ T11

pub fn t11(cx: &mut Cx) {
    cx.rule("Recorded handshakes with a freshly built chain (0..2 intermediates), every supported key kind and TLS 1.2 scheme, and key-exchange parameters of 0..400 bytes; intact or with one change to a random, the parameters, the signature, its scheme, its signer, the chain, the name, the time or the timestamps; non-trivial = a distinct handshake.");
    let p = pool();
    let log = CtLog::new(&p.p256[7]);
    let logs: &'static [&'static sct::Log<'static>] = Box::leak(Box::new([log.leak()]));
    cx.cases("handshakes", 3_200, 50_000, |r, idx, obs| {
        let ee_key: &'static Key = match r.below(6) {
            0 | 1 => &p.p256[r.below(4)],
            2 | 3 => &p.p384[r.below(3)],
            4 => &p.ed[r.below(2)],
            _ => &p.rsa[r.below(2)],
        };
        let depth = r.below(3);
        let w = world(r, depth, Some(ee_key));
        let fits: Vec<u16> = SCHEMES.iter().copied().filter(|s| scheme_accepts(*s, ee_key, scheme_sig(*s).unwrap(), false)).collect();
        let scheme = *r.pick(&fits);
        let how = scheme_sig(scheme).unwrap();
        let mut cr: [u8; 32] = r.arr();
        let mut sr: [u8; 32] = r.arr();
        let np = if r.bool() { 69 } else { r.len(400) };
        let mut params = r.bytes(np);
        let signed = [&cr[..], &sr, &params].concat();
        let mut sig = ee_key.sign(how, &signed, r);
        let mut chain: Vec<Certificate> = w.chain().into_iter().map(Certificate).collect();
        let mut now = w.now;
        let mut host = w.host.clone();
        let mut sch = scheme;
        let mut want: Result<(), &str> = Ok(());
        // timestamps
        let use_ct = r.chance(1, 4);
        let mut scts: Option<Vec<Vec<u8>>> = None;
        let mk_sct = |r: &mut R, cert: &[u8], t: u64| {
            let s = SctSpec { version: 0, id: log.id, timestamp: t, exts: vec![], alg: 0x0403 };
            let sig = log.key.sign(Sig::Ecdsa(H::Sha256), &s.signed(cert), r);
            s.encode(&sig)
        };
        if use_ct {
            scts = match r.below(3) {
                0 => None,
                1 => Some(vec![]),
                _ => Some(vec![mk_sct(r, &w.ee.der, now as u64 * 1000)]),
            };
        } else if r.bool() {
            scts = Some((0..r.below(3)).map(|_| r.bytes(20)).collect());
        }
        let what = match idx % 20 {
            0 => { cr[r.below(32)] ^= 1 << r.below(8); want = Err("signature"); "client random" }
            1 => { sr[r.below(32)] ^= 1 << r.below(8); want = Err("signature"); "server random" }
            2 if cr != sr => { std::mem::swap(&mut cr, &mut sr); want = Err("signature"); "randoms swapped" }
            3 if !params.is_empty() => { let k = r.below(params.len()); params[k] ^= 1 << r.below(8); want = Err("signature"); "parameters" }
            4 => { if params.is_empty() || r.bool() { params.push(r.u8()) } else { params.pop(); } want = Err("signature"); "parameter length" }
            5 => { let k = r.below(sig.len()); sig[k] ^= 1 << r.below(8); want = Err("signature"); "signature bit" }
            6 => { match r.below(3) { 0 => { sig.pop(); } 1 => sig.push(r.u8()), _ => sig.clear() } want = Err("signature"); "signature length" }
            7 => { sch = *r.pick(&SCHEMES.iter().copied().filter(|s| *s != scheme).collect::<Vec<_>>()); want = Err("scheme"); "scheme" }
            8 => { sch = loop { let s = r.u16(); if scheme_sig(s).is_none() { break s } }; want = Err("misbehaved"); "unadvertised scheme" }
            9 => {
                let other: &'static Key = match &ee_key.kind {
                    Kind::Ec(c, _) if c.bits == 256 => &p.p256[5],
                    Kind::Ec(..) => &p.p384[5],
                    Kind::Ed(_) => &p.ed[3],
                    _ => if ee_key.name == p.rsa[0].name { &p.rsa[1] } else { &p.rsa[0] },
                };
                sig = other.sign(how, &signed, r);
                want = Err("signature");
                "signed by another key"
            }
            10 => { chain.clear(); want = Err("none"); "empty chain" }
            11 => { host = format!("x{host}"); if w.ee.spec.dns.iter().flatten().any(|d| name_matches(d, &host)) { return Ok(()); } want = Err("data"); "other name" }
            12 => { now = w.ee.spec.not_after + 1; want = Err("data"); "expired" }
            13 => { now = w.ee.spec.not_before - 1; want = Err("data"); "not yet valid" }
            14 if depth > 0 => { chain.rotate_left(1); want = Err("any"); "chain rotated" }
            15 if depth > 0 => { chain.truncate(depth); want = Err("data"); "last intermediate missing" }
            16 => { let k = r.below(chain.len()); let b = r.below(chain[k].0.len()); chain[k].0[b] ^= 1 << r.below(8); want = Err("any"); "certificate byte" }
            17 if use_ct => {
                scts = Some(vec![match r.below(3) { 0 => mk_sct(r, b"another certificate", now as u64 * 1000), 1 => mk_sct(r, &w.ee.der, now as u64 * 1000 + 1), _ => r.bytes(30) }]);
                want = Err("sct");
                "forged timestamp"
            }
            18 => { let mut m = signed.clone(); m.remove(r.below(m.len())); sig = ee_key.sign(how, &m, r); want = Err("signature"); "signature omits a byte" }
            _ => "intact",
        };
        if use_ct && want == Ok(()) && scts.as_ref().is_some_and(|s| !s.is_empty()) {
            obs.see("valid timestamp");
        }
        let ns = r.len(30);
        let hd = HandshakeData::new(
            ServerCertDetails::new(chain.clone(), r.bytes(ns), scts.map(|v| v.into_iter().map(PayloadU16::new).collect())),
            ServerKxDetails::new(params.clone(), DigitallySignedStruct::new(SignatureScheme::from(sch), sig.clone())),
            Random(cr),
            Random(sr),
        );
        ensure!(hd.client_random().0 == cr && hd.server_random().0 == sr && hd.server_kx_details().kx_params() == params, "stored handshake data differ");
        ensure!(hd.server_kx_details().kx_sig().sig.0 == sig && hd.server_cert_details().cert_chain() == chain.as_slice(), "stored handshake data differ");
        let policy = use_ct.then(|| CertificateTransparencyPolicy::new(logs, at(now + 1000)));
        let v = WebPkiVerifier::new(store(w.anchors()), policy);
        let sn = ServerName::try_from(host.as_str()).unwrap();
        let got = quiet(|| hd.verify(&v, at(now), &sn))?;
        obs.see(format!("handshake {what}"));
        obs.see(format!("scheme {scheme:04x}"));
        obs.key(&sig);
        obs.input(json!({"what": what, "key": ee_key.name, "scheme": scheme, "depth": depth, "params": np}));
        match (want, &got) {
            (Ok(()), Ok(())) => Ok(()),
            (Ok(()), Err(e)) => Err(Fail::from(format!("an intact handshake was refused: {} scheme {scheme:04x}: {e:?}", ee_key.name))),
            (Err(_), Ok(())) => Err(Fail::from(format!("a handshake with a change was accepted ({what}): {} scheme {scheme:04x}->{sch:04x}", ee_key.name))),
            (Err(c), Err(e)) => {
                let g = class(e);
                let ok = match c {
                    "any" => true,
                    "scheme" => matches!(g, "signature" | "signature type"),
                    c => c == g,
                };
                ensure!(ok, "refused with an error of the wrong class ({what}): {e:?}");
                Ok(())
            }
        }
    });
    cx.require("handshake intact", 150);
    for s in SCHEMES {
        cx.require(&format!("scheme {s:04x}"), 30);
    }
    for s in ["client random", "server random", "parameters", "signature bit", "empty chain", "forged timestamp", "other name", "expired"] {
        cx.require(&format!("handshake {s}"), 20);
    }
    cx.require("valid timestamp", 15);
}

// ------------------------------------------------------------------ T12

struct Plain;
impl ServerCertVerifier for Plain {
    fn verify_server_cert(
        &self, _: &Certificate, _: &[Certificate], _: &ServerName, _: &mut (dyn Iterator<Item = &[u8]> + Send), _: &[u8], _: SystemTime,
    ) -> Result<ServerCertVerified, Error> {
        Ok(ServerCertVerified::assertion())
    }
}
struct PlainClient;
impl ClientCertVerifier for PlainClient {
    fn client_auth_root_subjects(&self) -> Option<DistinguishedNames> {
        Some(vec![])
    }
}

pub fn t12(cx: &mut Cx) {
    cx.rule("Genuine and altered handshake signatures by P-256, P-384, P-521, Ed25519, RSA-1024..4096 keys under all ways of signing, declared as every scheme code point, checked as TLS 1.2 and TLS 1.3 through the verifier, its trait defaults for servers and clients, and the algorithm-reporting entry point; non-trivial = a distinct signature.");
    cx.assume("certificates carry the public key only; chain checks are T09");
    let p = pool();
    let certs: Vec<(&'static Key, Certificate)> = {
        let mut r = R::new(3, "t12 certs", 0);
        p.p256[..3].iter().chain(&p.p384[..3]).chain(&p.ed[..2]).chain(&p.rsa).chain(&p.small_rsa).chain(&p.p521)
            .map(|k| {
                let how = p.p256[0].usual(&mut r);
                (k, Certificate(Spec::ee_spec(&mut r, "s", "i", how, 1_700_000_000, vec!["a.example".into()]).build(k, &p.p256[0], &mut r)))
            })
            .collect()
    };
    let v = WebPkiVerifier::new(store(vec![]), None);
    cx.cases("advertised", 1, 1, |_, _, obs| {
        let want: Vec<u16> = SCHEMES.to_vec();
        for (who, l) in [
            ("verifier", v.supported_verify_schemes()), ("static", WebPkiVerifier::verification_schemes()), ("server default", Plain.supported_verify_schemes()),
            ("client default", PlainClient.supported_verify_schemes()),
        ] {
            let mut got: Vec<u16> = l.iter().map(|s| s.get_u16()).collect();
            let n = got.len();
            got.sort();
            got.dedup();
            ensure_eq!(got.len(), n, "{who} advertises a scheme twice");
            let mut w = want.clone();
            w.sort();
            ensure_eq!(got, w, "schemes advertised by the {who}");
            obs.see("advertised list");
        }
        ensure!(v.request_scts(), "timestamps are not requested");
        ensure!(PlainClient.client_auth_mandatory() == Some(true) && PlainClient.offer_client_auth(), "client authentication defaults");
        obs.key("adv");
        Ok(())
    });
    cx.cases("matrix", 3_500, 60_000, |r, idx, obs| {
        let (k, cert) = &certs[idx as usize % certs.len()];
        let how = *r.pick(&k.can());
        let n = r.len(300);
        let msg = r.bytes(n);
        let sig = k.sign(how, &msg, r);
        let mut declared: Vec<u16> = SCHEMES.to_vec();
        declared.extend([0x0603, 0x0203, 0x0201, 0x0808, 0x0809, 0x080a, 0x080b, r.u16(), r.u16()]);
        obs.key(&sig);
        obs.see(format!("signed {:?} by {}", how, k.name.split('-').next().unwrap()));
        obs.input(json!({"key": k.name, "how": format!("{how:?}"), "len": n}));
        let call = |s: u16, m: &[u8], sg: &[u8], c: &Certificate, obs: &mut Obs| -> Result<(bool, bool, Option<SignatureAlgorithm>, bool), Fail> {
            let d = DigitallySignedStruct::new(SignatureScheme::from(s), sg.to_vec());
            let a = quiet(|| v.verify_tls12_signature(m, c, &d).map(|_| ()))?;
            let b = quiet(|| v.verify_tls13_signature(m, c, &d).map(|_| ()))?;
            let a2 = quiet(|| Plain.verify_tls12_signature(m, c, &d).map(|_| ()))?;
            let b2 = quiet(|| Plain.verify_tls13_signature(m, c, &d).map(|_| ()))?;
            let a3 = quiet(|| PlainClient.verify_tls12_signature(m, c, &d).map(|_| ()))?;
            let b3 = quiet(|| PlainClient.verify_tls13_signature(m, c, &d).map(|_| ()))?;
            let det = quiet(|| verify_sig_determine_alg(c, m, &d))?;
            ensure!(a.is_ok() == a2.is_ok() && a.is_ok() == a3.is_ok() && a.is_ok() == det.is_ok(), "TLS 1.2 entry points disagree on scheme {s:04x}: {a:?} {a2:?} {a3:?} {det:?}");
            ensure!(b.is_ok() == b2.is_ok() && b.is_ok() == b3.is_ok(), "TLS 1.3 entry points disagree on scheme {s:04x}");
            obs.evals(7);
            let mis = matches!(&a, Err(Error::PeerMisbehavedError(_)));
            if scheme_sig(s).is_none() {
                ensure!(mis && matches!(&b, Err(Error::PeerMisbehavedError(_))), "unadvertised scheme {s:04x}: {a:?} / {b:?}");
            }
            Ok((a.is_ok(), b.is_ok(), det.ok(), mis))
        };
        for s in &declared {
            let (a, b, det, _) = call(*s, &msg, &sig, cert, obs)?;
            let wa = scheme_accepts(*s, k, how, false);
            let wb = scheme_accepts(*s, k, how, true);
            ensure_eq!(a, wa, "TLS 1.2: {how:?} by {} declared as {s:04x}", k.name);
            ensure_eq!(b, wb, "TLS 1.3: {how:?} by {} declared as {s:04x}", k.name);
            if let Some(d) = det {
                ensure_eq!(d, expected_alg(*s, k), "algorithm reported for {how:?} by {}", k.name);
                obs.see(format!("reported {d:?}"));
            }
            obs.see(if wa { "tls12 accepted" } else { "tls12 refused" });
            obs.see(if wb { "tls13 accepted" } else { "tls13 refused" });
            if wa {
                // alterations
                for j in 0..3 {
                    let mut m2 = msg.clone();
                    let mut s2 = sig.clone();
                    let mut c2 = cert.clone();
                    match (j, r.below(4)) {
                        (0, 0) => m2.push(r.u8()),
                        (0, _) if !m2.is_empty() => { let k = r.below(m2.len()); m2[k] ^= 1 << r.below(8); }
                        (0, _) => m2.push(0),
                        (1, 0) => { s2.pop(); }
                        (1, 1) => s2.push(r.u8()),
                        (1, _) => { let k = r.below(s2.len()); s2[k] ^= 1 << r.below(8); }
                        _ => {
                            let others: Vec<_> = certs.iter().filter(|(o, _)| o.spki != k.spki).collect();
                            c2 = r.pick(&others).1.clone();
                        }
                    }
                    let (a, b, _, _) = call(*s, &m2, &s2, &c2, obs)?;
                    ensure!(!a && !b, "altered {} still verifies: {how:?} by {} as {s:04x}", ["message", "signature", "certificate"][j], k.name);
                    obs.see("altered refused");
                }
            }
        }
        Ok(())
    });
    cx.cases("code points", 64, 64, |r, idx, obs| {
        // every scheme code point once, with a signature that is genuine for the key
        let (k, cert) = &certs[idx as usize % certs.len()];
        let how = k.can()[0];
        let sig = k.sign(how, b"m", r);
        for lo in 0..1024u32 {
            let s = (idx as u32 * 1024 + lo) as u16;
            let d = DigitallySignedStruct::new(SignatureScheme::from(s), sig.clone());
            let a = quiet(|| v.verify_tls12_signature(b"m", cert, &d).is_ok())?;
            let b = quiet(|| v.verify_tls13_signature(b"m", cert, &d).is_ok())?;
            ensure_eq!((a, b), (scheme_accepts(s, k, how, false), scheme_accepts(s, k, how, true)), "scheme {s:04x} with {how:?} by {}", k.name);
        }
        obs.add("code point checked", 1024);
        obs.evals(2048);
        obs.key(idx.to_be_bytes());
        Ok(())
    });
    cx.cases("bad certificates", 400, 6_000, |r, _, obs| {
        let (k, cert) = r.pick(&certs);
        let how = k.can()[0];
        let sig = k.sign(how, b"msg", r);
        let mut c = cert.clone();
        let cut = r.below(c.0.len());
        match r.below(3) {
            0 => c.0.truncate(cut),
            1 => c.0.push(0),
            _ => c.0 = r.bytes(cut),
        }
        obs.key(&c.0);
        let s = *r.pick(SCHEMES);
        let d = DigitallySignedStruct::new(SignatureScheme::from(s), sig);
        for e in [
            quiet(|| v.verify_tls12_signature(b"msg", &c, &d).map(|_| ()))?,
            quiet(|| v.verify_tls13_signature(b"msg", &c, &d).map(|_| ()))?,
            quiet(|| verify_sig_determine_alg(&c, b"msg", &d).map(|_| ()))?,
        ] {
            ensure!(e.is_err(), "a signature verified under a malformed certificate");
            obs.see("malformed certificate refused");
        }
        Ok(())
    });
    cx.cases("tls13 message", 200, 2_000, |r, _, obs| {
        let alg = *r.pick(&[&ring::digest::SHA256, &ring::digest::SHA384, &ring::digest::SHA512]);
        let n = r.len(100);
        let d = ring::digest::digest(alg, &r.bytes(n));
        let want = |w: &str| [&[0x20u8; 64][..], format!("TLS 1.3, {w} CertificateVerify").as_bytes(), &[0], d.as_ref()].concat();
        ensure_eq!(construct_tls13_client_verify_message(&d), want("client"), "client verify message");
        ensure_eq!(construct_tls13_server_verify_message(&d), want("server"), "server verify message");
        obs.key(d.as_ref());
        obs.see("verify message");
        Ok(())
    });
    cx.require("tls12 accepted", 500);
    cx.require("tls13 accepted", 300);
    cx.require("altered refused", 1500);
    for a in ["ECDSA_NISTP256_SHA256", "ECDSA_NISTP256_SHA384", "ECDSA_NISTP384_SHA256", "ECDSA_NISTP384_SHA384", "ED25519", "RSA_PKCS1_2048_8192_SHA512", "RSA_PSS_2048_8192_SHA256_LEGACY_KEY"] {
        cx.require(&format!("reported {a}"), 20);
    }
}
