//! C10-C13: attestations, requests, presentations, signatures.

use crate::{
    chain::acceptable,
    ecc,
    t_conn::{self, Identity},
    t_hash::{Custom, alg_id, ref_hash, ref_root, tweak},
    t_transcript::{self, DIRS, set_of},
};
use num_bigint::BigUint;
use serde_json::{Value, json};
use std::sync::{
    Arc,
    atomic::{AtomicUsize, Ordering},
};
use tlsn_attestation::{
    Attestation, AttestationConfig, AttestationProof, CryptoProvider, Extension, Header, InvalidExtension, Secrets,
    presentation::{Presentation, PresentationOutput},
    request::{Request, RequestConfig},
    signing::*,
};
use tlsn_core::{
    connection::{ConnectionInfo, TlsVersion},
    hash::HashAlgId,
    transcript::{Transcript, TranscriptCommitment},
    webpki::{RootCertStore, ServerCertVerifier},
};
use vfw::{CaseResult, Cx, Fail, Obs, R, ensure, ensure_eq, quiet};

// ------------------------------------------------------------------ C13

const ALGS: [SignatureAlgId; 3] = [SignatureAlgId::SECP256K1, SignatureAlgId::SECP256R1, SignatureAlgId::SECP256K1ETH];

fn signer(alg: SignatureAlgId, key: &[u8]) -> Result<Box<dyn Signer + Send + Sync>, SignerError> {
    Ok(match alg.as_u8() {
        1 => Box::new(Secp256k1Signer::new(key)?),
        2 => Box::new(Secp256r1Signer::new(key)?),
        _ => Box::new(Secp256k1EthSigner::new(key)?),
    })
}
fn verifier(alg: SignatureAlgId) -> Box<dyn SignatureVerifier> {
    match alg.as_u8() {
        1 => Box::new(Secp256k1Verifier {}),
        2 => Box::new(Secp256r1Verifier {}),
        _ => Box::new(Secp256k1EthVerifier {}),
    }
}
fn curve(alg: SignatureAlgId) -> &'static ecc::C {
    if alg.as_u8() == 2 { ecc::p256() } else { ecc::k256() }
}
fn digest(alg: SignatureAlgId, m: &[u8]) -> Vec<u8> {
    ref_hash(if alg.as_u8() == 3 { 3 } else { 1 }, &[m])
}
/// The standard's verdict.
fn reference(alg: SignatureAlgId, key: &VerifyingKey, m: &[u8], sig: &[u8]) -> bool {
    let c = curve(alg);
    let want_key = if alg.as_u8() == 2 { KeyAlgId::P256 } else { KeyAlgId::K256 };
    if key.alg != want_key {
        return false;
    }
    let Some(q) = c.decode(&key.data) else { return false };
    let sig = if alg.as_u8() == 3 {
        if sig.len() != 65 {
            return false;
        }
        &sig[..64]
    } else {
        sig
    };
    // the Bitcoin and Ethereum rule: only the lower half of s
    if alg.as_u8() != 2 && c.scalars(sig).is_some_and(|(_, s)| s > &c.n >> 1) {
        return false;
    }
    c.verify(&q, &digest(alg, m), sig)
}
fn secret(r: &mut R, alg: SignatureAlgId) -> Vec<u8> {
    let n = &curve(alg).n;
    let d = match r.below(20) {
        0 => BigUint::from(1u8 + r.below(5) as u8),
        1 => n - (1u8 + r.below(5) as u8),
        2 => BigUint::from(1u8) << r.below(250),
        _ => BigUint::from_bytes_be(&r.bytes(40)) % (n - 1u8) + 1u8,
    };
    ecc::fixed(&d)
}
fn msg(r: &mut R) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => *r.pick(&[1, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 135, 136, 137, 200, 1000]),
        _ => r.len(200),
    };
    r.bytes(n)
}

pub fn c13(cx: &mut Cx) {
    cx.rule("Signatures of random and boundary keys over random messages, judged by independent curve arithmetic (and ring for P-256), then altered in key, key type, algorithm, message or signature; the verifier's verdict must equal the standard's. Non-trivial = a distinct signature or alteration.");
    cx.assume("a recoverable signature is verified against a given key, so its recovery byte is checked when signing, not when verifying");
    cx.cases("sign", 150, 3_000, |r, idx, o| {
        let alg = ALGS[idx as usize % 3];
        let c = curve(alg);
        let sk = secret(r, alg);
        let s = signer(alg, &sk).map_err(|e| format!("legal key refused: {e}"))?;
        let m = msg(r);
        ensure_eq!(s.alg_id(), alg, "algorithm of the signer");
        let vk = s.verifying_key();
        let q = c.base(&BigUint::from_bytes_be(&sk)).unwrap();
        ensure_eq!(vk.alg, if alg.as_u8() == 2 { KeyAlgId::P256 } else { KeyAlgId::K256 }, "key algorithm");
        ensure_eq!(c.decode(&vk.data), Some(q.clone()), "verifying key is the public key");
        let sig = s.sign(&m).map_err(|e| format!("signing failed: {e}"))?;
        ensure_eq!(sig.alg, alg, "algorithm of the signature");
        let d = digest(alg, &m);
        o.key(&sig.data);
        o.see(format!("signed/{alg}"));
        let raw = if alg.as_u8() == 3 {
            ensure_eq!(sig.data.len(), 65, "length of a recoverable signature");
            let v = sig.data[64];
            ensure!(v == 27 || v == 28, "recovery byte {v}");
            ensure_eq!(c.recover(&d, &sig.data[..64], v == 28), Some(q.clone()), "key recovered with v = {v}");
            o.see(format!("recovery/{v}"));
            &sig.data[..64]
        } else {
            &sig.data[..]
        };
        ensure_eq!(raw.len(), 64, "length of the signature");
        ensure!(c.verify(&q, &d, raw), "signature does not verify by independent arithmetic");
        if alg.as_u8() == 2 {
            let pk = [&[4u8][..], &ecc::fixed(&q.0), &ecc::fixed(&q.1)].concat();
            ring::signature::UnparsedPublicKey::new(&ring::signature::ECDSA_P256_SHA256_FIXED, &pk).verify(&m, raw).map_err(|_| "ring refuses the signature")?;
        } else {
            ensure!(c.scalars(raw).unwrap().1 <= &c.n >> 1, "s in the upper half");
        }
        let v = verifier(alg);
        ensure_eq!(v.alg_id(), alg, "algorithm of the verifier");
        v.verify(&vk, &m, &sig.data).map_err(|e| format!("own signature refused: {e}"))?;
        // the other encodings of the same key are the same key
        let long = [&[4u8][..], &ecc::fixed(&q.0), &ecc::fixed(&q.1)].concat();
        let short = [&[2 + q.1.bit(0) as u8][..], &ecc::fixed(&q.0)].concat();
        for data in [long, short] {
            v.verify(&VerifyingKey { alg: vk.alg, data }, &m, &sig.data).map_err(|e| format!("signature refused under another encoding of its key: {e}"))?;
        }
        // stored forms
        let s2: Signature = bincode::deserialize(&bincode::serialize(&sig).unwrap()).map_err(|e| e.to_string())?;
        let k2: VerifyingKey = serde_json::from_value(serde_json::to_value(&vk).unwrap()).map_err(|e| e.to_string())?;
        ensure!(s2.alg == sig.alg && s2.data == sig.data && k2 == vk, "signature or key changed by storing");
        // an independently made signature is accepted, too
        let k = BigUint::from_bytes_be(&r.bytes(40)) % (&c.n - 1u8) + 1u8;
        let (x, y) = c.base(&k).unwrap();
        let rr = x % &c.n;
        let mut ss = c.sinv(&k) * ((BigUint::from_bytes_be(&d) + &rr * BigUint::from_bytes_be(&sk)) % &c.n) % &c.n;
        let mut odd = y.bit(0);
        if alg.as_u8() != 2 && ss > &c.n >> 1 {
            ss = &c.n - ss;
            odd = !odd;
        }
        let mut mine = [ecc::fixed(&rr), ecc::fixed(&ss)].concat();
        if alg.as_u8() == 3 {
            mine.push(27 + odd as u8);
        }
        v.verify(&vk, &m, &mine).map_err(|e| format!("a standard signature was refused: {e}"))?;
        o.evals(4);
        Ok(())
    });
    cx.cases("reject", 110, 2_500, |r, idx, o| {
        let alg = ALGS[idx as usize % 3];
        let c = curve(alg);
        let sk = secret(r, alg);
        let s = signer(alg, &sk).map_err(|e| format!("legal key refused: {e}"))?;
        let m = msg(r);
        let vk = s.verifying_key();
        let sig = s.sign(&m).map_err(|e| e.to_string())?.data;
        for _ in 0..8 {
            let (mut k, mut m2, mut s2, mut a2) = (vk.clone(), m.clone(), sig.clone(), alg);
            let what = match r.below(20) {
                0 | 1 => { let i = r.below(64); s2[i] ^= 1 << r.below(8); "signature bit" }
                2 => { s2.truncate(r.below(sig.len())); "signature cut" }
                3 => { let n = r.range(1, 3); s2.extend(r.bytes(n)); "signature extended" }
                4 => { let z = r.bool(); s2[if z { 0..32 } else { 32..64 }].fill(0); "zero scalar" }
                5 => { let n = ecc::fixed(&c.n); let z = r.bool(); s2[if z { 0..32 } else { 32..64 }].copy_from_slice(&n); "scalar = order" }
                6 => {
                    let (_, s) = c.scalars(&sig[..64]).unwrap();
                    s2[32..64].copy_from_slice(&ecc::fixed(&(&c.n - s)));
                    "other half of s"
                }
                7 if alg.as_u8() == 3 => { s2[64] = r.u8(); "recovery byte" }
                8 => { s2.swap_with_slice(&mut { let mut t = sig[32..64].to_vec(); t.extend(&sig[..32]); t.extend(&sig[64..]); t }); "r and s exchanged" }
                9 => { if m2.is_empty() { m2.push(0) } else { let i = r.below(m2.len()); m2[i] ^= 1 << r.below(8) }; "message bit" }
                10 => { m2.push(0); "message extended" }
                11 => { m2.pop(); "message cut" }
                12 => { m2 = digest(alg, &m); "message digest as message" }
                13 => { k = signer(alg, &secret(r, alg)).unwrap().verifying_key(); "another key" }
                14 => { k.alg = *r.pick(&[KeyAlgId::K256, KeyAlgId::P256, KeyAlgId::new(128), KeyAlgId::new(255)]); "key type" }
                15 => { let i = r.below(k.data.len()); k.data[i] ^= 1 << r.below(8); "key bit" }
                16 => { k.data[0] ^= 1; "key sign" }
                17 => { k.data = match r.below(4) { 0 => vec![], 1 => vec![0], 2 => { let mut d = k.data.clone(); d.pop(); d } _ => { let mut d = k.data.clone(); d.push(0); d } }; "key length" }
                18 => {
                    a2 = *r.pick(&ALGS);
                    match (sig.len(), a2.as_u8()) { (64, 3) => s2.push(27 + r.below(2) as u8), (65, 1 | 2) if r.bool() => s2.truncate(64), _ => {} }
                    "another algorithm"
                }
                _ => {
                    a2 = *r.pick(&ALGS);
                    k.alg = if a2.as_u8() == 2 { KeyAlgId::P256 } else { KeyAlgId::K256 };
                    if a2.as_u8() == 3 && s2.len() == 64 { s2.push(27) }
                    "another algorithm and key type"
                }
            };
            if k.data.first() == Some(&5) {
                continue; // compact points are a vendor extension
            }
            let want = reference(a2, &k, &m2, &s2);
            let got = quiet(|| verifier(a2).verify(&k, &m2, &s2))?;
            o.evals(1);
            o.key([&k.data[..], &m2, &s2, &[a2.as_u8(), k.alg.as_u8()]].concat());
            ensure_eq!(got.is_ok(), want, "verdict after: {what} (signed as {alg}, judged as {a2})");
            o.see(format!("{}/{what}", if want { "still valid" } else { "refused" }));
        }
        Ok(())
    });
    cx.cases("keys and registries", 200, 3_000, |r, idx, o| {
        let alg = ALGS[idx as usize % 3];
        let n = &curve(alg).n;
        let bad: Vec<u8> = match r.below(5) {
            0 => vec![0; 32],
            1 => ecc::fixed(n),
            2 => ecc::fixed(&(n + r.below(100) as u8)),
            3 => vec![0xff; 32],
            // (longer than 24 bytes and shorter than 32 may be padded by the curve library)
            _ => { let l = *r.pick(&[0usize, 1, 16, 23, 33, 64]); r.bytes(l).iter().map(|b| b | 1).collect() }
        };
        o.key([&bad[..], &[alg.as_u8()]].concat());
        ensure!(quiet(|| signer(alg, &bad).is_err())?, "illegal key of {} bytes accepted: {}", bad.len(), vfw::hex(&bad));
        let mut p = SignerProvider::default();
        ensure_eq!(p.supported_algs().count(), 0, "signers of a new registry");
        let e = match alg.as_u8() { 1 => p.set_secp256k1(&bad).is_err(), 2 => p.set_secp256r1(&bad).is_err(), _ => p.set_secp256k1eth(&bad).is_err() };
        ensure!(e, "registry accepted an illegal key");
        ensure_eq!(p.supported_algs().count(), 0, "signers after a refusal");
        let sub = r.below(8);
        let k: Vec<u8> = secret(r, SignatureAlgId::SECP256R1); // the smaller group
        if sub & 1 != 0 { p.set_secp256k1(&k).map_err(|e| e.to_string())?; }
        if sub & 2 != 0 { p.set_secp256r1(&k).map_err(|e| e.to_string())?; }
        if sub & 4 != 0 { p.set_secp256k1eth(&k).map_err(|e| e.to_string())?; }
        let mut got: Vec<u8> = p.supported_algs().map(|a| a.as_u8()).collect();
        got.sort();
        ensure_eq!(got, (0..3).filter(|i| sub & (1 << i) != 0).map(|i| i + 1).collect::<Vec<u8>>(), "registered signers");
        // identifiers
        let id = r.u8();
        ensure_eq!(quiet(|| SignatureAlgId::new(id)).is_ok(), id >= 128, "custom signature algorithm {id}");
        ensure_eq!(quiet(|| KeyAlgId::new(id)).is_ok(), id >= 128, "custom key algorithm {id}");
        if id >= 128 {
            ensure_eq!(SignatureAlgId::new(id).as_u8(), id, "custom signature algorithm");
            ensure_eq!(KeyAlgId::new(id).as_u8(), id, "custom key algorithm");
            o.see("custom identifier");
        } else {
            o.see("reserved identifier");
        }
        o.see("illegal key refused");
        Ok(())
    });
    for v in [27, 28] {
        cx.require(&format!("recovery/{v}"), 10);
    }
    for w in ["signature bit", "message bit", "another key", "key type", "key bit", "another algorithm", "signature extended", "zero scalar"] {
        cx.require(&format!("refused/{w}"), 10);
    }
}

// ------------------------------------------------------------------ attested sessions

/// Everything about one attested session.
pub struct S {
    pub provider: CryptoProvider,
    pub sig_alg: SignatureAlgId,
    pub hash: u8,
    pub id: Identity,
    pub tw: t_transcript::World,
    pub info: ConnectionInfo,
    pub exts: Vec<Extension>,
    /// Extensions that the notary adds.
    pub notary_exts: Vec<Extension>,
    pub request: Request,
    pub secrets: Secrets,
    pub attestation: Attestation,
}
fn extension(r: &mut R) -> Extension {
    let (a, b) = (r.len(12), r.len(60));
    Extension { id: r.bytes(a), value: r.bytes(b) }
}
fn hash_provider() -> tlsn_core::hash::HashProvider {
    t_transcript::provider()
}
fn set_signer(p: &mut CryptoProvider, alg: SignatureAlgId, key: &[u8]) -> Result<(), String> {
    p.signer.set_signer(signer(alg, key).map_err(|e| e.to_string())?);
    Ok(())
}
fn allow_all() -> impl Fn(&[Extension]) -> Result<(), InvalidExtension> + Send + Sync + 'static {
    |_| Ok(())
}
/// The session is attested at `time`.
pub fn attested(r: &mut R, id: Identity, tw: t_transcript::World, sk: &[u8], sig_alg: SignatureAlgId, time: u64) -> Result<S, String> {
    let hash = *r.pick(&[1u8, 2, 3]);
    let mut provider = CryptoProvider { hash: hash_provider(), cert: ServerCertVerifier::new(&id.roots).map_err(|e| e.to_string())?, signer: Default::default(), signature: Default::default() };
    set_signer(&mut provider, sig_alg, sk)?;
    let exts: Vec<_> = (0..r.below(4)).map(|_| extension(r)).collect();
    let notary_exts: Vec<_> = (0..r.below(3)).map(|_| extension(r)).collect();
    let mut rc = RequestConfig::builder();
    rc.signature_alg(sig_alg).hash_alg(alg_id(hash));
    for e in &exts {
        rc.extension(e.clone());
    }
    let rc = rc.build().map_err(|e| e.to_string())?;
    let mut rb = Request::builder(&rc);
    rb.server_name(id.name.clone()).handshake_data(id.hd.clone()).transcript(tw.t.clone()).transcript_commitments(tw.secrets.clone(), tw.commits.clone());
    let (request, secrets) = rb.build(&provider).map_err(|e| format!("complete request refused: {e}"))?;
    let (a, b) = tw.t.len();
    let info = ConnectionInfo { time, version: TlsVersion::V1_2, transcript_length: tlsn_core::connection::TranscriptLength { sent: a as u32, received: b as u32 } };
    let mut ac = AttestationConfig::builder();
    ac.supported_signature_algs([sig_alg]).extension_validator(allow_all());
    let ac = ac.build().map_err(|e| e.to_string())?;
    let mut ab = Attestation::builder(&ac).accept_request(request.clone()).map_err(|e| format!("acceptable request refused: {e}"))?;
    ab.connection_info(info.clone()).server_ephemeral_key(id.eph.clone()).transcript_commitments(tw.commits.clone());
    for e in &notary_exts {
        ab.extension(e.clone());
    }
    let attestation = ab.build(&provider).map_err(|e| format!("attestation not issued: {e}"))?;
    Ok(S { provider, sig_alg, hash, id, tw, info, exts, notary_exts, request, secrets, attestation })
}
pub fn sample(r: &mut R) -> Result<S, String> {
    let depth = r.below(2);
    let id = t_conn::identity(r, depth)?;
    let tw = t_transcript::world(r, 40);
    let sig_alg = *r.pick(&ALGS);
    let sk = secret(r, sig_alg);
    let time = id.w.now as u64;
    attested(r, id, tw, &sk, sig_alg, time)
}

fn domain(name: &str) -> Vec<u8> {
    blake3::hash(name.as_bytes()).as_bytes()[..16].to_vec()
}
/// Recomputes the root of a body from its serialized fields.
fn root_of(alg: u8, body: &Value) -> Option<Vec<u8>> {
    fn leaf<T: serde::de::DeserializeOwned + serde::Serialize>(alg: u8, name: &str, f: &Value, out: &mut Vec<(u64, Vec<u8>)>) -> Option<()> {
        let t: T = serde_json::from_value(f["data"].clone()).ok()?;
        out.push((f["id"].as_u64()?, ref_hash(alg, &[&domain(name), &bcs::to_bytes(&t).ok()?])));
        Some(())
    }
    let mut l = vec![];
    leaf::<VerifyingKey>(alg, "VerifyingKey", &body["verifying_key"], &mut l)?;
    leaf::<ConnectionInfo>(alg, "tlsn_core::connection::ConnectionInfo", &body["connection_info"], &mut l)?;
    leaf::<tlsn_core::connection::ServerEphemKey>(alg, "tlsn_core::connection::ServerEphemKey", &body["server_ephemeral_key"], &mut l)?;
    leaf::<tlsn_attestation::connection::ServerCertCommitment>(alg, "ServerCertCommitment", &body["cert_commitment"], &mut l)?;
    for e in body["extensions"].as_array()? {
        leaf::<Extension>(alg, "Extension", e, &mut l)?;
    }
    for e in body["transcript_commitments"].as_array()? {
        leaf::<TranscriptCommitment>(alg, "tlsn_core::transcript::TranscriptCommitment", e, &mut l)?;
    }
    l.sort_by_key(|x| x.0);
    if l.iter().enumerate().any(|(i, x)| x.0 != i as u64) {
        return None;
    }
    Some(ref_root(alg, &l.into_iter().map(|x| x.1).collect::<Vec<_>>()))
}
/// The facts an attestation states, independent of the order its fields are listed in.
fn facts(a: &Value) -> Value {
    let b = &a["body"];
    let sorted = |v: &Value| {
        let mut l = v.as_array().cloned().unwrap_or_default();
        l.sort_by_key(|f| f["id"].as_u64());
        Value::from(l)
    };
    json!([a["header"], b["verifying_key"], b["connection_info"], b["server_ephemeral_key"], b["cert_commitment"], sorted(&b["extensions"]), sorted(&b["transcript_commitments"])])
}
fn proof_json(s: &S) -> Result<Value, String> {
    let p = s.attestation.presentation_builder(&s.provider).build().map_err(|e| e.to_string())?;
    Ok(serde_json::to_value(&p).unwrap()["attestation"].clone())
}
fn check_proof(provider: &CryptoProvider, v: &Value) -> Result<Option<Attestation>, String> {
    let Ok(p) = quiet(|| serde_json::from_value::<AttestationProof>(v.clone())).map_err(|e| format!("reader: {e}"))? else { return Ok(None) };
    Ok(quiet(|| p.verify(provider)).map_err(|e| format!("verifier: {e}"))?.ok())
}

pub fn c10(cx: &mut Cx) {
    cx.rule("Attestations issued by the real builder for random sessions, whose root is recomputed independently; then every kind of alteration of the serialized proof (any number in it, fields dropped, doubled, exchanged, re-numbered or re-typed, parts of other attestations, forged roots and re-signed headers). Non-trivial = a distinct (altered) proof.");
    cx.cases("issued", 200, 3_000, |r, _, o| {
        let s = sample(r)?;
        let v = proof_json(&s)?;
        o.key(v.to_string());
        o.see(format!("signature/{}", s.sig_alg));
        o.see(format!("hash/{}", s.hash));
        let body = &v["body"]["body"];
        let root = root_of(s.hash, body).ok_or("fields are not numbered consecutively")?;
        let want: tlsn_core::hash::Hash = root.try_into().unwrap();
        ensure_eq!(s.attestation.header.root.value, want, "root over all fields");
        ensure_eq!(s.attestation.header.root.alg, alg_id(s.hash), "algorithm of the root");
        let vk = s.attestation.body.verifying_key();
        ensure!(reference(s.sig_alg, vk, &bcs::to_bytes(&s.attestation.header).unwrap(), &s.attestation.signature.data), "header signature by independent arithmetic");
        let a = check_proof(&s.provider, &v)?.ok_or("genuine attestation refused")?;
        ensure_eq!(facts(&serde_json::to_value(&a).unwrap()), facts(&serde_json::to_value(&s.attestation).unwrap()), "verified facts");
        // verification needs no private key and no trust roots
        let bare = CryptoProvider { hash: hash_provider(), cert: ServerCertVerifier::new(&RootCertStore::empty()).unwrap(), signer: Default::default(), signature: Default::default() };
        check_proof(&bare, &v)?.ok_or("genuine attestation refused by a bare provider")?;
        // stored form
        let p = s.attestation.presentation_builder(&s.provider).build().map_err(|e| e.to_string())?;
        let bytes = bincode::serialize(&p).unwrap();
        let p: Presentation = bincode::deserialize(&bytes).map_err(|e| format!("stored presentation unreadable: {e}"))?;
        ensure_eq!(p.verifying_key(), vk, "announced key");
        p.verify(&s.provider).map_err(|e| format!("stored presentation refused: {e}"))?;
        // an unknown signature algorithm or hash is refused
        for (path, alg) in [("signature", 77), ("header", 78)] {
            let mut w = v.clone();
            if path == "signature" { w["signature"]["alg"] = json!(alg) } else { w["header"]["root"]["alg"] = json!(alg) }
            ensure!(check_proof(&s.provider, &w)?.is_none(), "unknown algorithm in {path} accepted");
        }
        Ok(())
    });
    cx.cases("altered", 420, 9_000, |r, _, o| {
        let s = sample(r)?;
        let other = if r.chance(1, 4) { Some(sample(r)?) } else { None };
        let v0 = proof_json(&s)?;
        let want = facts(&json!({"header": v0["header"], "body": v0["body"]["body"]}));
        for _ in 0..12 {
            let mut v = v0.clone();
            let what = alter(r, &mut v, other.as_ref(), o)?;
            let Some(what) = what else { continue };
            if v == v0 {
                continue;
            }
            o.evals(1);
            o.key(v.to_string());
            match check_proof(&s.provider, &v)? {
                None => o.see(format!("refused/{what}")),
                Some(a) => {
                    let got = facts(&serde_json::to_value(&a).unwrap());
                    ensure_eq!(got, want, "facts accepted after: {what}");
                    o.see(format!("same facts/{what}"));
                }
            }
        }
        Ok(())
    });
    cx.cases("forged", 200, 4_000, |r, idx, o| {
        // The forger knows everything but the notary's private key.
        let s = sample(r)?;
        let mut v = proof_json(&s)?;
        let mut rr = r.clone();
        let mut change = |v: &mut Value| {
            let b = &mut v["body"]["body"];
            match rr.below(5) {
                0 => b["connection_info"]["data"]["time"] = json!(rr.u32()),
                1 => b["server_ephemeral_key"]["data"]["key"][0] = json!(5),
                2 => b["connection_info"]["data"]["transcript_length"]["sent"] = json!(rr.u16()),
                3 => {
                    let n = b["extensions"].as_array().unwrap().len() as u64 + b["transcript_commitments"].as_array().unwrap().len() as u64 + 4;
                    let e = json!({"id": n, "data": {"id": [1], "value": [2]}});
                    b["extensions"].as_array_mut().unwrap().push(e)
                }
                _ => b["cert_commitment"]["data"]["value"][0] = json!(77),
            }
        };
        let rebuild = |v: &mut Value| -> Result<(), String> {
            // a consistent tree over the forged body
            let root = root_of(s.hash, &v["body"]["body"]).ok_or("HARNESS forged body")?;
            v["header"]["root"]["value"] = json!(root);
            let n = 4 + v["body"]["body"]["extensions"].as_array().unwrap().len() + v["body"]["body"]["transcript_commitments"].as_array().unwrap().len();
            v["body"]["proof"] = json!({"alg": s.hash, "leaf_count": n, "proof": v["body"]["proof"]["proof"]});
            Ok(())
        };
        let attacker = signer(s.sig_alg, &secret(r, s.sig_alg)).map_err(|e| e.to_string())?;
        let sign = |v: &mut Value| -> Result<(), String> {
            let h: Header = serde_json::from_value(v["header"].clone()).map_err(|e| format!("HARNESS {e}"))?;
            v["signature"] = serde_json::to_value(attacker.sign(&bcs::to_bytes(&h).unwrap()).map_err(|e| e.to_string())?).unwrap();
            Ok(())
        };
        let what = match idx % 5 {
            0 => { change(&mut v); rebuild(&mut v)?; "new root, old signature" }
            1 => { change(&mut v); rebuild(&mut v)?; sign(&mut v)?; "new root, signed by another key" }
            2 => { v["header"]["id"] = json!(r.arr::<16>()); sign(&mut v)?; "new identifier, signed by another key" }
            3 => { change(&mut v); "old root" }
            _ => {
                // consistently re-issued: valid, but announced as the forger's
                change(&mut v);
                v["body"]["body"]["verifying_key"]["data"] = serde_json::to_value(attacker.verifying_key()).unwrap();
                rebuild(&mut v)?;
                sign(&mut v)?;
                let p: AttestationProof = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
                ensure_eq!(p.verifying_key(), &attacker.verifying_key(), "announced key of a re-issued attestation");
                let a = check_proof(&s.provider, &v)?.ok_or("HARNESS re-issued attestation refused")?;
                ensure_eq!(a.body.verifying_key(), &attacker.verifying_key(), "key of a re-issued attestation");
                o.see("forged/re-issued under its own key");
                o.key(v.to_string());
                return Ok(());
            }
        };
        o.key(v.to_string());
        ensure!(check_proof(&s.provider, &v)?.is_none(), "forged attestation accepted: {what}");
        o.see(format!("forged/{what}"));
        Ok(())
    });
    cx.cases("damaged bytes", 250, 5_000, |r, _, o| {
        let s = sample(r)?;
        let p = s.attestation.presentation_builder(&s.provider).build().map_err(|e| e.to_string())?;
        let bytes = bincode::serialize(&p).unwrap();
        let want = facts(&serde_json::to_value(&s.attestation).unwrap());
        for _ in 0..10 {
            let mut b = bytes.clone();
            match r.below(5) {
                0 => b.truncate(r.below(bytes.len())),
                1 => { let i = r.below(b.len()); b.remove(i); }
                2 => { let i = r.below(b.len()); b.insert(i, r.u8()); }
                _ => { let i = r.below(b.len()); b[i] ^= 1 << r.below(8); }
            }
            o.evals(1);
            o.key(&b);
            let (got, peak) = vfw::with_peak(|| quiet(|| bincode::deserialize::<Presentation>(&b).ok().map(|p| p.verify(&s.provider))));
            ensure!(peak < 64 << 20, "reading {} bytes took {peak} bytes of memory", b.len());
            match got? {
                None => o.see("damaged/unreadable"),
                Some(Err(_)) => o.see("damaged/refused"),
                Some(Ok(out)) => {
                    ensure_eq!(facts(&serde_json::to_value(&out.attestation).unwrap()), want, "facts accepted after damage");
                    ensure!(out.server_name.is_none() && out.transcript.is_none(), "parts that were not presented");
                    o.see("damaged/same facts");
                }
            }
        }
        Ok(())
    });
    for a in ALGS {
        cx.require(&format!("signature/{a}"), 20);
    }
    for w in ["new root, old signature", "new root, signed by another key", "new identifier, signed by another key", "old root"] {
        cx.require(&format!("forged/{w}"), 30);
    }
}

/// Alters one thing of a serialized attestation proof; None when it does not apply.
fn alter(r: &mut R, v: &mut Value, other: Option<&S>, _o: &mut Obs) -> Result<Option<&'static str>, String> {
    let single = ["verifying_key", "connection_info", "server_ephemeral_key", "cert_commitment"];
    let lists = ["extensions", "transcript_commitments"];
    Ok(Some(match r.below(22) {
        0 | 1 | 2 => { let k = *r.pick(&single); tweak(r, &mut v["body"]["body"][k]["data"]); "a body field" }
        3 | 4 => { let k = *r.pick(&lists); if !tweak(r, &mut v["body"]["body"][k]) { return Ok(None) } "an entry of a list" }
        5 => { tweak(r, &mut v["header"]); "the header" }
        6 => { tweak(r, &mut v["signature"]["data"]); "the signature" }
        7 => { let n = v["signature"]["data"].as_array().unwrap().len(); v["signature"]["data"].as_array_mut().unwrap().truncate(r.below(n)); "the signature cut" }
        8 => { let a = *r.pick(&[1u64, 2, 3, 4, 128]); v["signature"]["alg"] = json!(a); "the signature algorithm" }
        9 => { let a = *r.pick(&[1u64, 2, 3, 4, 200]); v["header"]["root"]["alg"] = json!(a); "the hash algorithm" }
        10 => { let a = *r.pick(&[1u64, 2, 3, 128]); v["body"]["body"]["verifying_key"]["data"]["alg"] = json!(a); "the key type" }
        11 => { if !tweak(r, &mut v["body"]["proof"]) { return Ok(None) } "the inclusion proof" }
        12 => { let k = *r.pick(&lists); let l = v["body"]["body"][k].as_array_mut().unwrap(); if l.is_empty() { return Ok(None) } l.remove(r.below(l.len())); "an entry dropped" }
        13 => { let k = *r.pick(&lists); let l = v["body"]["body"][k].as_array_mut().unwrap(); if l.is_empty() { return Ok(None) } let e = l[r.below(l.len())].clone(); l.push(e); "an entry doubled" }
        14 => { let k = *r.pick(&lists); let l = v["body"]["body"][k].as_array_mut().unwrap(); if l.len() < 2 { return Ok(None) } let i = r.below(l.len() - 1); let (a, b) = (l[i]["id"].clone(), l[i + 1]["id"].clone()); l[i]["id"] = b; l[i + 1]["id"] = a; "entries re-numbered" }
        15 => { let k = *r.pick(&lists); let l = v["body"]["body"][k].as_array_mut().unwrap(); if l.len() < 2 { return Ok(None) } l.reverse(); "entries listed backwards" }
        16 => { let k = *r.pick(&single); let i = r.below(12) as u64; v["body"]["body"][k]["id"] = json!(i); "a field re-numbered" }
        17 => {
            // extension contents exchanged between id and value
            let l = v["body"]["body"]["extensions"].as_array_mut().unwrap();
            if l.is_empty() { return Ok(None) }
            let i = r.below(l.len());
            let (mut a, mut b) = (l[i]["data"]["id"].clone(), l[i]["data"]["value"].clone());
            match r.below(3) {
                0 => std::mem::swap(&mut a, &mut b),
                1 => { let Some(x) = b.as_array_mut().unwrap().pop() else { return Ok(None) }; a.as_array_mut().unwrap().push(x) }
                _ => { let Some(x) = a.as_array_mut().unwrap().pop() else { return Ok(None) }; b.as_array_mut().unwrap().insert(0, x) }
            }
            l[i]["data"]["id"] = a;
            l[i]["data"]["value"] = b;
            "bytes moved within an extension"
        }
        18 => { let e = extension(r); let l = v["body"]["body"]["extensions"].as_array_mut().unwrap(); let id = l.len() as u64 + r.below(8) as u64; l.push(json!({"id": id, "data": e})); "an extension added" }
        n => {
            let Some(s) = other else { return Ok(None) };
            let w = proof_json(s)?;
            match (n, r.below(6)) {
                (19, 0) => { v["signature"] = w["signature"].clone(); "another attestation's signature" }
                (19, 1) => { v["header"] = w["header"].clone(); "another attestation's header" }
                (19, 2) => { v["header"] = w["header"].clone(); v["signature"] = w["signature"].clone(); "another attestation's header and signature" }
                (19, 3) => { v["body"] = w["body"].clone(); "another attestation's body" }
                (19, 4) => { v["header"]["root"] = w["header"]["root"].clone(); v["body"] = w["body"].clone(); "another attestation's root and body" }
                (19, _) => { v["header"]["id"] = w["header"]["id"].clone(); "another attestation's identifier" }
                _ => {
                    let k = *r.pick(&["verifying_key", "connection_info", "server_ephemeral_key", "cert_commitment", "extensions", "transcript_commitments"]);
                    v["body"]["body"][k] = w["body"]["body"][k].clone();
                    "another attestation's field"
                }
            }
        }
    }))
}

// ------------------------------------------------------------------ C11

fn validate(req: &Value, att: &Value, p: &CryptoProvider) -> Result<Option<bool>, String> {
    let (Ok(q), Ok(a)) = (serde_json::from_value::<Request>(req.clone()), serde_json::from_value::<Attestation>(att.clone())) else { return Ok(None) };
    Ok(Some(quiet(|| q.validate(&a, p))?.is_ok()))
}

pub fn c11(cx: &mut Cx) {
    cx.rule("Requests and notary configurations drawn at random; the notary's decision, the contents of what it issues and the requester's decision about (altered) attestations are compared with a reference decision. Non-trivial = a distinct request and configuration or attestation.");
    cx.assume("the requester's check covers what the interface documents: algorithms, certificate commitment, presence of its extensions and the header signature");
    cx.cases("issuing", 500, 10_000, |r, _, o| {
        let id = t_conn::identity(r, 0)?;
        let tw = t_transcript::world(r, 30);
        let sig_alg = *r.pick(&ALGS);
        let hash = *r.pick(&[1u8, 2, 3, 200]);
        let exts: Vec<_> = (0..r.below(4)).map(|_| extension(r)).collect();
        let mut provider = CryptoProvider { hash: hash_provider(), cert: ServerCertVerifier::new(&id.roots).unwrap(), signer: Default::default(), signature: Default::default() };
        // request
        let mut rc = RequestConfig::builder();
        let set = [r.chance(4, 5), r.chance(4, 5)];
        if set[0] { rc.signature_alg(sig_alg); }
        if set[1] { rc.hash_alg(alg_id(hash)); }
        let sig_alg = if set[0] { sig_alg } else { SignatureAlgId::SECP256K1 };
        let hash = if set[1] { hash } else { 2 };
        for e in &exts { rc.extension(e.clone()); }
        let rc = rc.build().map_err(|e| e.to_string())?;
        ensure_eq!((*rc.signature_alg(), *rc.hash_alg(), rc.extensions()), (sig_alg, alg_id(hash), &exts[..]), "request configuration");
        let give = [r.chance(9, 10), r.chance(9, 10), r.chance(9, 10), r.bool()];
        let mut rb = Request::builder(&rc);
        if give[0] { rb.server_name(id.name.clone()); }
        if give[1] { rb.handshake_data(id.hd.clone()); }
        if give[2] { rb.transcript(tw.t.clone()); }
        if give[3] { rb.transcript_commitments(tw.secrets.clone(), tw.commits.clone()); }
        let unknown_hash = r.chance(1, 12);
        let empty = CryptoProvider { hash: Default::default(), cert: ServerCertVerifier::new(&id.roots).unwrap(), signer: Default::default(), signature: Default::default() };
        let supported = !(unknown_hash && hash == 200);
        let built = quiet(|| rb.build(if unknown_hash { &empty } else { &provider }))?;
        let complete = give[0] && give[1] && give[2] && supported;
        ensure_eq!(built.is_ok(), complete, "request from name {} handshake {} transcript {} hash known {}: {:?}", give[0], give[1], give[2], supported, built.as_ref().err());
        let Ok((request, secrets)) = built else {
            o.see("request/refused");
            return Ok(());
        };
        let q = serde_json::to_value(&request).unwrap();
        o.key(q.to_string());
        ensure_eq!(q["signature_alg"], json!(sig_alg), "algorithm of the request");
        ensure_eq!(q["hash_alg"], json!(alg_id(hash)), "hash of the request");
        ensure_eq!(q["extensions"], json!(exts), "extensions of the request");
        // the request carries a commitment to the certificate and nothing else of the session
        ensure_eq!(q.as_object().unwrap().len(), 4, "parts of a request");
        let x = serde_json::to_value(&secrets).unwrap();
        let opening = &x["server_cert_opening"];
        let op: tlsn_attestation::connection::ServerCertOpening = serde_json::from_value(opening.clone()).map_err(|e| e.to_string())?;
        ensure_eq!(json!(op.data()), json!(id.hd), "handshake in the secrets");
        let commitment = ref_hash(hash, &[&domain("ServerCertOpening"), &bcs::to_bytes(&op).unwrap()]);
        ensure_eq!(q["server_cert_commitment"], json!({"alg": alg_id(hash), "value": commitment}), "certificate commitment");
        ensure_eq!(secrets.server_name(), &id.name, "name in the secrets");
        ensure_eq!((secrets.transcript().sent(), secrets.transcript().received()), (tw.t.sent(), tw.t.received()), "transcript in the secrets");
        ensure_eq!(x["transcript_commitments"], if give[3] { json!(tw.commits) } else { json!([]) }, "commitments in the secrets");
        ensure_eq!(x["transcript_commitment_secrets"], if give[3] { json!(tw.secrets) } else { json!([]) }, "openings in the secrets");
        // notary
        let mut ac = AttestationConfig::builder();
        let sigs: Vec<SignatureAlgId> = ALGS.into_iter().filter(|_| r.chance(3, 4)).collect();
        let hashes: Vec<u8> = [1, 2, 3, 200].into_iter().filter(|_| r.chance(3, 4)).collect();
        let (set_sigs, set_hashes) = (r.chance(9, 10), r.chance(3, 4));
        if set_sigs { ac.supported_signature_algs(sigs.clone()); }
        if set_hashes { ac.supported_hash_algs(hashes.iter().map(|h| alg_id(*h)).collect::<Vec<_>>()); }
        let calls = Arc::new(AtomicUsize::new(0));
        let mode = r.below(4); // default, allow, refuse, refuse long ids
        let c2 = calls.clone();
        if mode > 0 {
            ac.extension_validator(move |e: &[Extension]| {
                c2.fetch_add(1 + e.len() * 1000, Ordering::SeqCst);
                match mode { 1 => Ok(()), 2 => Err(InvalidExtension::new("no")), _ => if e.iter().any(|x| x.id.len() > 6) { Err(InvalidExtension::new("long")) } else { Ok(()) } }
            });
        }
        let ac = ac.build().map_err(|e| e.to_string())?;
        let sig_ok = set_sigs && sigs.contains(&sig_alg);
        let hash_ok = if set_hashes { hashes.contains(&hash) } else { hash <= 3 };
        let ext_ok = match mode { 0 => exts.is_empty(), 1 => true, 2 => false, _ => exts.iter().all(|e| e.id.len() <= 6) };
        let acc = quiet(|| Attestation::builder(&ac).accept_request(request.clone()))?;
        ensure_eq!(acc.is_ok(), sig_ok && hash_ok && ext_ok, "acceptance: signature {sig_ok} hash {hash_ok} extensions {ext_ok}");
        if mode > 0 && sig_ok && hash_ok {
            ensure_eq!(calls.load(Ordering::SeqCst), 1 + exts.len() * 1000, "what the validator was shown");
        }
        let mut ab = match acc {
            Ok(b) => b,
            Err(e) => {
                if ext_ok || (sig_ok && hash_ok) {
                    ensure_eq!(e.is_request(), !(sig_ok && hash_ok), "blame of the refusal ({e})");
                }
                o.see(format!("notary refused/{}", if !sig_ok { "signature" } else if !hash_ok { "hash" } else { "extensions" }));
                return Ok(());
            }
        };
        let have = [r.chance(9, 10), r.chance(9, 10), r.chance(4, 5), r.chance(9, 10), r.chance(9, 10)];
        let (a, b) = tw.t.len();
        let info = ConnectionInfo { time: r.u64(), version: *r.pick(&[TlsVersion::V1_2, TlsVersion::V1_3]), transcript_length: tlsn_core::connection::TranscriptLength { sent: a as u32, received: b as u32 } };
        let twice = r.chance(1, 6);
        if twice {
            // the last word counts
            ab.connection_info(ConnectionInfo { time: 1, ..info.clone() });
        }
        if have[0] || twice {
            ab.connection_info(info.clone());
        }
        let with_info = have[0] || twice;
        if have[1] { ab.server_ephemeral_key(id.eph.clone()); }
        if have[2] { ab.transcript_commitments(tw.commits.clone()); }
        let extra: Vec<_> = (0..r.below(3)).map(|_| extension(r)).collect();
        for e in &extra { ab.extension(e.clone()); }
        let sk = secret(r, sig_alg);
        if have[3] { set_signer(&mut provider, sig_alg, &sk)?; } else { let a2 = if sig_alg == SignatureAlgId::SECP256R1 { SignatureAlgId::SECP256K1 } else { SignatureAlgId::SECP256R1 }; set_signer(&mut provider, a2, &secret(r, a2))?; }
        if !have[4] && hash == 200 { provider.hash = Default::default(); }
        let hash_known = have[4] || hash != 200;
        let res = quiet(|| ab.build(&provider))?;
        let ok = have[1] && have[3] && hash_known && with_info;
        if res.is_ok() != ok {
            return Err(Fail::from(format!("issued {} although info {} key {} signer {} hash {}", res.is_ok(), with_info, have[1], have[3], hash_known)));
        }
        let Ok(att) = res else {
            o.see("notary/incomplete");
            return Ok(());
        };
        o.see("notary/issued");
        let v = serde_json::to_value(&att).unwrap();
        let bd = &v["body"];
        let vk = signer(sig_alg, &sk).map_err(|e| e.to_string())?.verifying_key();
        ensure_eq!(bd["verifying_key"]["data"], json!(vk), "attested key");
        ensure_eq!(bd["connection_info"]["data"], json!(info), "attested connection");
        ensure_eq!(bd["server_ephemeral_key"]["data"], json!(id.eph), "attested ephemeral key");
        ensure_eq!(bd["cert_commitment"]["data"], q["server_cert_commitment"], "attested certificate commitment");
        let all: Vec<&Extension> = exts.iter().chain(&extra).collect();
        ensure_eq!(bd["extensions"].as_array().unwrap().iter().map(|f| f["data"].clone()).collect::<Vec<_>>(), all.iter().map(|e| json!(e)).collect::<Vec<_>>(), "attested extensions");
        ensure_eq!(att.body.extensions().collect::<Vec<_>>(), all, "attested extensions");
        let want = if have[2] { tw.commits.iter().map(|c| json!(c)).collect::<Vec<_>>() } else { vec![] };
        ensure_eq!(bd["transcript_commitments"].as_array().unwrap().iter().map(|f| f["data"].clone()).collect::<Vec<_>>(), want, "attested transcript commitments");
        ensure_eq!(att.signature.alg, sig_alg, "algorithm of the signature");
        ensure_eq!(att.header.root.alg, alg_id(hash), "hash of the root");
        ensure_eq!(v["header"]["version"], json!(0), "version");
        ensure_eq!(att.header.root.value, tlsn_core::hash::Hash::try_from(root_of(hash, bd).ok_or("numbering")?).unwrap(), "root over the fields");
        quiet(|| request.validate(&att, &provider))?.map_err(|e| format!("the requester refuses its attestation: {e}"))?;
        let again = {
            let mut ab = Attestation::builder(&ac).accept_request(request.clone()).map_err(|e| e.to_string())?;
            ab.connection_info(info).server_ephemeral_key(id.eph.clone());
            ab.build(&provider).map_err(|e| e.to_string())?
        };
        ensure!(again.header.id != att.header.id, "two attestations with one identifier");
        Ok(())
    });
    cx.cases("accepting", 350, 8_000, |r, _, o| {
        let s = sample(r)?;
        let o2 = sample(r)?;
        let (q0, a0) = (serde_json::to_value(&s.request).unwrap(), serde_json::to_value(&s.attestation).unwrap());
        let (q1, a1) = (serde_json::to_value(&o2.request).unwrap(), serde_json::to_value(&o2.attestation).unwrap());
        ensure_eq!(validate(&q0, &a0, &s.provider)?, Some(true), "verdict on the genuine attestation");
        for _ in 0..10 {
            let (mut q, mut a) = (q0.clone(), a0.clone());
            let what = match r.below(14) {
                0 => { q["signature_alg"] = json!(r.pick(&ALGS)); "requested signature algorithm" }
                1 => { let h = 1 + r.below(3); q["hash_alg"] = json!(h); "requested hash" }
                2 => { tweak(r, &mut q["server_cert_commitment"]); "requested commitment" }
                3 => { if !tweak(r, &mut q["extensions"]) { continue } "requested extension" }
                4 => { let e = extension(r); q["extensions"].as_array_mut().unwrap().push(json!(e)); "one more requested extension" }
                5 => { let l = q["extensions"].as_array_mut().unwrap(); if l.is_empty() { continue } l.remove(r.below(l.len())); "one requested extension less" }
                6 => { tweak(r, &mut a["signature"]["data"]); "signature" }
                7 => { tweak(r, &mut a["header"]); "header" }
                8 => { tweak(r, &mut a["body"]["verifying_key"]["data"]); "key" }
                9 => { tweak(r, &mut a["body"]["cert_commitment"]["data"]); "attested commitment" }
                10 => { if !tweak(r, &mut a["body"]["extensions"]) { continue } "attested extension" }
                11 => { a["signature"]["alg"] = json!(r.pick(&ALGS)); "signature algorithm" }
                12 => { a = a1.clone(); "attestation for somebody else" }
                _ => { q = q1.clone(); "request of somebody else" }
            };
            // reference decision
            let want = (|| {
                let exts = a["body"]["extensions"].as_array()?.iter().map(|f| &f["data"]).collect::<Vec<_>>();
                let key: VerifyingKey = serde_json::from_value(a["body"]["verifying_key"]["data"].clone()).ok()?;
                let h: Header = serde_json::from_value(a["header"].clone()).ok()?;
                let sig: Signature = serde_json::from_value(a["signature"].clone()).ok()?;
                Some(a["signature"]["alg"] == q["signature_alg"]
                    && a["header"]["root"]["alg"] == q["hash_alg"]
                    && a["body"]["cert_commitment"]["data"] == q["server_cert_commitment"]
                    && q["extensions"].as_array()?.iter().all(|e| exts.contains(&e))
                    && ALGS.contains(&sig.alg)
                    && reference(sig.alg, &key, &bcs::to_bytes(&h).ok()?, &sig.data))
            })();
            let got = validate(&q, &a, &s.provider)?;
            if key_is_compact(&a) {
                continue;
            }
            o.evals(1);
            o.key(format!("{q}{a}"));
            let (Some(want), Some(got)) = (want, got) else {
                o.see("unreadable");
                continue;
            };
            ensure_eq!(got, want, "requester's verdict after changing: {what}");
            o.see(format!("{}/{what}", if want { "accepted" } else { "refused" }));
        }
        Ok(())
    });
    for w in ["signature", "hash", "extensions"] {
        cx.require(&format!("notary refused/{w}"), 15);
    }
    for w in ["requested signature algorithm", "requested hash", "requested commitment", "requested extension", "one more requested extension", "signature", "header", "key", "attested commitment", "attestation for somebody else"] {
        cx.require(&format!("refused/{w}"), 30);
    }
    cx.require("accepted/one requested extension less", 20);
    cx.require("notary/issued", 30);
}
fn key_is_compact(a: &Value) -> bool {
    a["body"]["verifying_key"]["data"]["data"][0] == json!(5)
}

// ------------------------------------------------------------------ C12

pub fn present(r: &mut R, s: &S, identity: bool, transcript: bool) -> Result<Option<Presentation>, String> {
    let mut b = s.attestation.presentation_builder(&s.provider);
    if identity {
        b.identity_proof(s.secrets.identity_proof());
    }
    if transcript {
        let mut t = s.secrets.transcript_proof_builder();
        t.commitment_kinds(&[1u8, 2, 3, 200].map(|a| tlsn_core::transcript::TranscriptCommitmentKind::Hash { alg: alg_id(a) }));
        if s.tw.what.is_empty() {
            return Ok(None);
        }
        let first = r.below(s.tw.what.len());
        for (i, (d, bits, _)) in s.tw.what.iter().enumerate() {
            if i == first || r.chance(1, 3) {
                t.reveal(&set_of(bits), DIRS[*d]).map_err(|e| e.to_string())?;
            }
        }
        let Ok(p) = t.build() else { return Ok(None) };
        b.transcript_proof(p);
    }
    b.build().map(Some).map_err(|e| e.to_string())
}
/// What must come out of a serialized presentation: None when it must be refused.
fn verdict(v: &Value, s: &S, roots: &Identity) -> Option<Result<(Option<String>, Option<[std::collections::BTreeMap<usize, u8>; 2]>), &'static str>> {
    let a = &v["attestation"];
    let body = &a["body"]["body"];
    // attestation: only exact originals are acceptable here
    if facts(&json!({"header": a["header"], "body": body})) != facts(&serde_json::to_value(&s.attestation).unwrap()) {
        return Some(Err("attestation"));
    }
    let name = match v["identity"].as_object() {
        None => None,
        Some(i) => {
            let op: tlsn_attestation::connection::ServerCertOpening = serde_json::from_value(i["opening"].clone()).ok()?;
            let hash = ref_hash(s.hash, &[&domain("ServerCertOpening"), &bcs::to_bytes(&op).ok()?]);
            if body["cert_commitment"]["data"]["value"] != json!(hash) {
                return Some(Err("opening"));
            }
            let name = i["name"]["Dns"].as_str()?.to_string();
            // the opening is the original one: judge the rest
            let hd = op.data();
            if json!(hd) != json!(s.id.hd) {
                return None;
            }
            let tlsn_core::connection::CertBinding::V1_2(b) = &hd.binding else { return None };
            if json!(b.server_ephemeral_key) != body["server_ephemeral_key"]["data"] {
                return Some(Err("ephemeral key"));
            }
            let w = &s.id.w;
            if !acceptable(&w.ee, &w.inters, &roots.w.roots, s.info.time as i64, &name) {
                return Some(Err("certificate"));
            }
            Some(name)
        }
    };
    let shown = match v["transcript"].as_object() {
        None => None,
        Some(_) => {
            let lens = [s.info.transcript_length.sent as usize, s.info.transcript_length.received as usize];
            match t_transcript::reference_verify(&v["transcript"], lens, &s.tw.commits)? {
                Ok(x) => Some(x),
                Err(_) => return Some(Err("transcript")),
            }
        }
    };
    Some(Ok((name, shown)))
}
fn check_output(out: &PresentationOutput, s: &S, want: &(Option<String>, Option<[std::collections::BTreeMap<usize, u8>; 2]>)) -> CaseResult {
    ensure_eq!(out.server_name.as_ref().map(|n| n.to_string()), want.0, "reported server name");
    ensure_eq!(json!(out.connection_info), json!(s.info), "reported connection");
    ensure_eq!(facts(&serde_json::to_value(&out.attestation).unwrap()), facts(&serde_json::to_value(&s.attestation).unwrap()), "reported attestation");
    match (&out.transcript, &want.1) {
        (None, None) => {}
        (Some(p), Some(shown)) => t_transcript::check_shown(p, shown, [s.info.transcript_length.sent as usize, s.info.transcript_length.received as usize])?,
        (g, _) => return Err(Fail::from(format!("transcript reported: {}", g.is_some()))),
    }
    Ok(())
}
fn run_presentation(v: &Value, p: &CryptoProvider) -> Result<Option<PresentationOutput>, String> {
    let Ok(x) = quiet(|| serde_json::from_value::<Presentation>(v.clone())).map_err(|e| format!("reader: {e}"))? else { return Ok(None) };
    Ok(quiet(|| x.verify(p)).map_err(|e| format!("verifier: {e}"))?.ok())
}

pub fn c12(cx: &mut Cx) {
    cx.rule("Presentations of randomly attested sessions with any combination of identity and transcript, genuine, altered anywhere in their serialized form, assembled from parts of different sessions, or of sessions attested at another time, for another ephemeral key or under other roots. Verdict and output are compared with an independent evaluation. Non-trivial = a distinct presentation.");
    cx.cases("genuine", 400, 8_000, |r, idx, o| {
        let s = sample(r)?;
        let (wi, wt) = (idx & 1 == 0, idx & 2 == 0);
        let Some(p) = present(r, &s, wi, wt)? else { o.see("nothing to show"); return Ok(()) };
        let v = serde_json::to_value(&p).unwrap();
        o.key(v.to_string());
        ensure_eq!((v["identity"].is_null(), v["transcript"].is_null()), (!wi, !wt), "parts of the presentation");
        let want = verdict(&v, &s, &s.id).ok_or("HARNESS undecided")?.map_err(|e| format!("HARNESS refuses a genuine presentation: {e}"))?;
        ensure_eq!(want.0.is_some(), wi, "HARNESS name");
        ensure_eq!(p.verifying_key(), s.attestation.body.verifying_key(), "announced key");
        let p = if r.bool() { bincode::deserialize::<Presentation>(&bincode::serialize(&p).unwrap()).map_err(|e| e.to_string())? } else { p };
        let out = p.verify(&s.provider).map_err(|e| format!("genuine presentation refused: {e}"))?;
        check_output(&out, &s, &want)?;
        ensure_eq!(out.extensions.iter().collect::<Vec<_>>(), s.exts.iter().chain(&s.notary_exts).collect::<Vec<_>>(), "reported extensions");
        o.see(format!("genuine/identity {wi} transcript {wt}"));
        Ok(())
    });
    cx.cases("stored", 1, 1, |_, _, o| {
        // made by the genuine libraries, with a public root and an ordinary session
        let Ok(b) = std::fs::read(concat!(env!("CARGO_MANIFEST_DIR"), "/../shim/crates/attestation/tests/fixtures/presentation.bin")) else {
            o.see("stored/none");
            return Ok(());
        };
        o.key(&b);
        let p: Presentation = bincode::deserialize(&b).map_err(|e| format!("stored presentation not read: {e}"))?;
        let out = quiet(|| p.verify(&CryptoProvider::default())).map_err(|e| format!("verifier: {e}"))?.map_err(|e| format!("stored presentation refused: {e}"))?;
        ensure!(out.server_name.is_some() && out.transcript.is_some(), "parts of the stored presentation");
        o.see("stored/verified");
        // any single bit of it changed
        for i in 0..b.len() {
            let mut c = b.clone();
            c[i] ^= 1 << (i % 8);
            let r = quiet(|| bincode::deserialize::<Presentation>(&c).ok().map(|p| p.verify(&CryptoProvider::default()))).map_err(|e| format!("bit of byte {i} changed: {e}"))?;
            match r {
                None => o.see("stored/unreadable"),
                Some(Err(_)) => o.see("stored/refused"),
                Some(Ok(_)) => o.see("stored/accepted (leaf count or tag)"),
            }
        }
        Ok(())
    });
    cx.cases("other circumstances", 400, 8_000, |r, idx, o| {
        // a sound attestation of facts under which the identity must not be reported
        let depth = r.below(2);
        let mut id = t_conn::identity(r, depth)?;
        let tw = t_transcript::world(r, 30);
        let sig_alg = *r.pick(&ALGS);
        let sk = secret(r, sig_alg);
        let mut time = id.w.now as u64;
        let what = match idx % 7 {
            0 => { time = id.w.ee.spec.not_after as u64 + 1 + r.below(1000) as u64; "after expiry" }
            1 => { time = id.w.ee.spec.not_before as u64 - 1 - r.below(1000) as u64; "before validity" }
            2 => { time = *r.pick(&[0, u64::MAX, 1 << 62]); "absurd time" }
            3 => { let i = r.below(65); id.eph.key[i] ^= 1 << r.below(8); "another ephemeral key" }
            4 => { let w = crate::chain::world(r, 0, None); id.roots = t_conn::roots(r, &w); "unknown roots" }
            5 => { id.name = t_conn::dns(&format!("x{}", id.w.host))?; "another name" }
            _ => { let i = r.below(32); let tlsn_core::connection::CertBinding::V1_2(b) = &mut id.hd.binding else { unreachable!() }; b.client_random[i] ^= 1; "another client random" }
        };
        let s = attested(r, id, tw, &sk, sig_alg, time)?;
        let wt = r.bool();
        let Some(p) = present(r, &s, true, wt)? else { return Ok(()) };
        o.key(serde_json::to_value(&p).unwrap().to_string());
        if what == "another name" && acceptable(&s.id.w.ee, &s.id.w.inters, &s.id.w.roots, s.id.w.now, &s.id.name.to_string()) {
            return Ok(());
        }
        ensure!(quiet(|| p.verify(&s.provider))?.is_err(), "identity reported although: {what}");
        o.see(format!("unproven/{what}"));
        // without the identity the rest still stands
        if let Some(p) = present(r, &s, false, wt)? {
            let out = p.verify(&s.provider).map_err(|e| format!("presentation without identity refused ({what}): {e}"))?;
            ensure!(out.server_name.is_none(), "a name nobody proved");
            ensure_eq!(out.transcript.is_some(), wt, "transcript");
        }
        Ok(())
    });
    cx.cases("altered", 400, 8_000, |r, _, o| {
        let s = sample(r)?;
        // the other session may have the same server, the same notary or both
        let other = {
            let same_server = r.bool();
            let id = if same_server { t_conn::identity_of(r, crate::chain::World { now: s.id.w.now, host: s.id.w.host.clone(), ee: s.id.w.ee.clone(), inters: s.id.w.inters.clone(), roots: s.id.w.roots.clone() })? } else { t_conn::identity(r, 0)? };
            let tw = t_transcript::world(r, 40);
            let sk = secret(r, s.sig_alg);
            let t = id.w.now as u64;
            attested(r, id, tw, &sk, s.sig_alg, t)?
        };
        let Some(p) = present(r, &s, true, true)? else { o.see("nothing to show"); return Ok(()) };
        let Some(q) = present(r, &other, true, true)? else { o.see("nothing to show"); return Ok(()) };
        let (v0, w0) = (serde_json::to_value(&p).unwrap(), serde_json::to_value(&q).unwrap());
        for _ in 0..12 {
            let mut v = v0.clone();
            let what = match r.below(16) {
                0 | 1 => { tweak(r, &mut v["identity"]); "identity" }
                2 | 3 | 4 => { tweak(r, &mut v["transcript"]); "transcript" }
                5 => { tweak(r, &mut v["attestation"]["body"]["body"]); "attested body" }
                6 => { v["identity"] = w0["identity"].clone(); "identity of another session" }
                7 => { v["transcript"] = w0["transcript"].clone(); "transcript of another session" }
                8 => { v["attestation"] = w0["attestation"].clone(); "attestation of another session" }
                9 => { let l = [crate::chain::domain(r), format!("a.{}", s.id.w.host), other.id.w.host.clone(), s.id.w.host.to_uppercase()]; v["identity"]["name"] = json!({"Dns": r.pick(&l)}); "another name" }
                10 => { let d = s.id.w.ee.spec.dns.clone().unwrap(); v["identity"]["name"] = json!({"Dns": r.pick(&d).clone()}); "a listed name" }
                11 => { v["identity"] = Value::Null; "no identity" }
                12 => { v["transcript"] = Value::Null; "no transcript" }
                13 => { v["transcript"]["transcript"] = w0["transcript"]["transcript"].clone(); "bytes of another session" }
                14 => { v["transcript"]["hash_secrets"] = w0["transcript"]["hash_secrets"].clone(); "openings of another session" }
                _ => { for k in ["identity", "transcript", "attestation"] { if r.bool() { v[k] = w0[k].clone() } } "parts exchanged" }
            };
            if v == v0 {
                continue;
            }
            o.evals(1);
            o.key(v.to_string());
            // which session's attestation is it?
            let base = if v["attestation"] == w0["attestation"] { &other } else { &s };
            let want = verdict(&v, base, &s.id);
            let got = run_presentation(&v, &s.provider)?;
            match (want, got) {
                (Some(Ok(w)), Some(out)) => {
                    check_output(&out, base, &w)?;
                    o.see(format!("accepted/{what}"));
                }
                (Some(Ok(_)), None) => {
                    // the reader may refuse more than the evaluation does
                    if serde_json::from_value::<Presentation>(v.clone()).is_ok() {
                        return Err(Fail::from(format!("sound presentation refused after: {what}")));
                    }
                    o.see("unreadable");
                }
                (Some(Err(why)), Some(_)) => return Err(Fail::from(format!("accepted although the {why} is wrong, after: {what}"))),
                (Some(Err(why)), None) => { o.see(format!("refused/{what}")); o.see(format!("why/{why}")); }
                (None, None) => o.see("refused/undecidable"),
                (None, Some(_)) => return Err(Fail::from(format!("accepted a presentation that the evaluation cannot read: {what}"))),
            }
        }
        Ok(())
    });
    for w in ["after expiry", "before validity", "absurd time", "another ephemeral key", "unknown roots", "another client random"] {
        cx.require(&format!("unproven/{w}"), 20);
    }
    for w in ["identity", "transcript", "identity of another session", "transcript of another session", "attestation of another session", "another name"] {
        cx.require(&format!("refused/{w}"), 20);
    }
    cx.require("accepted/no identity", 20);
    cx.require("accepted/no transcript", 20);
    cx.require("why/opening", 20);
    cx.require("why/transcript", 20);
    cx.require("why/certificate", 5);
    let _ = (Custom(200), HashAlgId::SHA256, Transcript::new(vec![1u8], vec![1u8]));
}
