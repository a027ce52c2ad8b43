//! T07 key derivation, T13 negotiation, T14 server names, T17 issuer names, T18 serialization, T20 randomness.

use crate::{parse, pki, wire};
use serde::{Serialize, de::DeserializeOwned};
use std::{collections::HashSet, fmt::Debug};
use tls_core::{
    anchors::RootCertStore,
    cert::ServerCertDetails,
    dns::ServerName,
    handshake::HandshakeData,
    ke::ServerKxDetails,
    key::{Certificate, PublicKey},
    msgs::{
        base::*,
        codec::Codec,
        enums::{HashAlgorithm, SignatureAlgorithm, *},
        handshake as h,
    },
    prf::prf,
    suites::{tls12::*, *},
    verify::*,
    versions::*,
};
use vfw::{serde_json::json, *};

// ------------------------------------------------------------------ T07

fn hmac256(key: &[u8], m: &[u8]) -> Vec<u8> {
    let sha = |x: &[u8]| ring::digest::digest(&ring::digest::SHA256, x).as_ref().to_vec();
    let mut k = if key.len() > 64 { sha(key) } else { key.to_vec() };
    k.resize(64, 0);
    let inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).chain(m.iter().copied()).collect();
    let outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).chain(sha(&inner)).collect();
    sha(&outer)
}
/// RFC 5246 section 5.
fn p_sha256(secret: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut a = seed.to_vec();
    while out.len() < n {
        a = hmac256(secret, &a);
        out.extend(hmac256(secret, &[&a[..], seed].concat()));
    }
    out.truncate(n);
    out
}
const LABELS: &[&str] = &["master secret", "key expansion", "client finished", "server finished", "extended master secret", "EXPORTER-x", ""];

pub fn t07(cx: &mut Cx) {
    cx.rule("Secrets, labels, seeds and output lengths at hash-block and HMAC-block boundaries and at random; every output is compared with P_SHA256 written from RFC 5246 over a different hash implementation, and with its own prefixes; non-trivial = a distinct (secret, label, seed, length).");
    cx.cases("prf", 12_000, 250_000, |r, idx, obs| {
        let slen = match idx % 8 {
            0 => 48,
            1 => 32,
            2 => *r.pick(&[0usize, 1, 31, 33, 55, 56, 63, 64, 65, 127, 128, 129, 200]),
            3 => r.range(60, 68),
            _ => r.len(300),
        };
        let olen = match idx % 5 {
            0 => *r.pick(&[12usize, 16, 40, 48, 72, 104, 128, 136]),
            1 => 32 * r.below(9) + r.below(3),
            2 => (32 * r.range(1, 9)).saturating_sub(1),
            3 => r.len(700),
            _ => r.range(0, 130),
        };
        let seedlen = *r.pick(&[0usize, 1, 32, 64, 77, 13]);
        let seedlen = if r.bool() { seedlen } else { r.len(300) };
        let label: Vec<u8> = if r.chance(2, 3) { r.pick(LABELS).as_bytes().to_vec() } else { let n = r.len(150); r.bytes(n) };
        let secret = r.bytes(slen);
        let seed = r.bytes(seedlen);
        let fill = r.u8();
        let mut out = vec![fill; olen];
        quiet(|| prf(&mut out, &secret, &label, &seed))?.map_err(|e| format!("key derivation failed: secret of {slen} bytes: {e}"))?;
        let want = p_sha256(&secret, &[&label[..], &seed].concat(), olen);
        ensure_eq!(hex(&out), hex(&want), "derived bytes (secret {slen}, label {}, seed {seedlen}, output {olen})", label.len());
        let cut = r.below(olen + 1);
        let mut short = vec![!fill; cut];
        prf(&mut short, &secret, &label, &seed).map_err(|e| format!("{e}"))?;
        ensure_eq!(hex(&short), hex(&want[..cut]), "prefix of {cut} of {olen} derived bytes");
        // surrounding memory stays untouched
        let mut framed = vec![fill; olen + 16];
        prf(&mut framed[8..8 + olen], &secret, &label, &seed).map_err(|e| format!("{e}"))?;
        ensure!(framed[..8].iter().chain(&framed[8 + olen..]).all(|b| *b == fill), "bytes outside the output were written");
        ensure_eq!(hex(&framed[8..8 + olen]), hex(&want), "derived bytes in a sub-slice");
        obs.evals(2);
        obs.see(format!("output blocks {}", olen.div_ceil(32).min(8)));
        obs.see(if slen > 64 { "long secret" } else { "short secret" });
        obs.key([&secret[..], &label, &seed, &olen.to_be_bytes()].concat());
        obs.input(json!({"secret": slen, "label": label.len(), "seed": seedlen, "output": olen}));
        Ok(())
    });
    cx.cases("lengths", 520, 2_100, |r, idx, obs| {
        let secret = r.bytes(48);
        let seed = r.bytes(64);
        let mut out = vec![0xaa; idx as usize];
        prf(&mut out, &secret, b"key expansion", &seed).map_err(|e| format!("{e}"))?;
        ensure_eq!(hex(&out), hex(&p_sha256(&secret, &[&b"key expansion"[..], &seed].concat(), idx as usize)), "derived bytes of length {idx}");
        obs.see("every length");
        obs.key(idx.to_be_bytes());
        Ok(())
    });
    // far longer outputs than a handshake asks for
    cx.cases("long", 40, 400, |r, idx, obs| {
        let secret = r.bytes(48);
        let seed = r.bytes(64);
        let n = match idx % 4 {
            0 => 8192 + r.below(70),
            1 => 8192 - r.below(70),
            2 => 16384 + r.below(200),
            _ => r.range(1_000, 80_000),
        };
        let mut out = vec![0x55; n];
        quiet(|| prf(&mut out, &secret, b"key expansion", &seed))?.map_err(|e| format!("{e}"))?;
        let want = p_sha256(&secret, &[&b"key expansion"[..], &seed].concat(), n);
        let bad = out.iter().zip(&want).position(|(a, b)| a != b);
        ensure_eq!(bad, None, "first wrong byte of an output of {n} bytes");
        obs.see("long output");
        obs.key(&secret);
        Ok(())
    });
    cx.cases("threads", 20, 200, |r, _, obs| {
        let secret = r.bytes(48);
        let seed = r.bytes(64);
        let want = p_sha256(&secret, &[&b"master secret"[..], &seed].concat(), 48);
        let bad = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4)
                .map(|_| s.spawn(|| (0..20).all(|_| { let mut o = [0; 48]; prf(&mut o, &secret, b"master secret", &seed).is_ok() && o[..] == want[..] })))
                .collect();
            hs.into_iter().filter(|_| true).map(|h| h.join().unwrap_or(false)).filter(|x| !x).count()
        });
        ensure!(bad == 0, "derivations in several threads differ");
        obs.see("concurrent derivation");
        obs.key(&secret);
        Ok(())
    });
    cx.require("long secret", 500);
    for b in 0..=8 {
        cx.require(&format!("output blocks {b}"), 100);
    }
}

// ------------------------------------------------------------------ T13

#[derive(Clone, Copy, PartialEq, Debug)]
enum Auth {
    Rsa,
    Ecdsa,
    Any,
}
struct SuiteFact {
    s: SupportedCipherSuite,
    id: u16,
    auth: Auth,
    hash: usize,
    aead: AEADAlgorithm,
    iv: (usize, usize),
}
fn suites() -> Vec<SuiteFact> {
    use AEADAlgorithm::*;
    let f = |s, id, auth, hash, aead, iv| SuiteFact { s, id, auth, hash, aead, iv };
    vec![
        f(TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, 0xc02b, Auth::Ecdsa, 32, AES_128_GCM, (4, 8)),
        f(TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, 0xc02c, Auth::Ecdsa, 48, AES_256_GCM, (4, 8)),
        f(TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, 0xc02f, Auth::Rsa, 32, AES_128_GCM, (4, 8)),
        f(TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, 0xc030, Auth::Rsa, 48, AES_256_GCM, (4, 8)),
        f(TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, 0xcca8, Auth::Rsa, 32, CHACHA20_POLY1305, (12, 0)),
        f(TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, 0xcca9, Auth::Ecdsa, 32, CHACHA20_POLY1305, (12, 0)),
        f(TLS13_AES_128_GCM_SHA256, 0x1301, Auth::Any, 32, AES_128_GCM, (0, 0)),
        f(TLS13_AES_256_GCM_SHA384, 0x1302, Auth::Any, 48, AES_256_GCM, (0, 0)),
        f(TLS13_CHACHA20_POLY1305_SHA256, 0x1303, Auth::Any, 32, CHACHA20_POLY1305, (0, 0)),
    ]
}
fn scheme_key(s: u16) -> Option<Auth> {
    match s {
        0x0201 | 0x0401 | 0x0501 | 0x0601 | 0x0804 | 0x0805 | 0x0806 => Some(Auth::Rsa),
        // EdDSA certificates authenticate ECDHE_ECDSA suites (RFC 8422), Ed25519 only here.
        0x0403 | 0x0503 | 0x0603 | 0x0807 => Some(Auth::Ecdsa),
        _ => None,
    }
}
const SUITE_SCHEMES: &[(Auth, &[u16])] = &[(Auth::Rsa, &[0x0806, 0x0805, 0x0804, 0x0601, 0x0501, 0x0401]), (Auth::Ecdsa, &[0x0807, 0x0603, 0x0503, 0x0403])];

pub fn t13(cx: &mut Cx) {
    cx.rule("All nine suites against facts from the TLS registries; random client and server preference lists with duplicates and unknown suites; every signature scheme and algorithm code point against every suite list; version lists. The expected selection is an independent first-match over the two lists; non-trivial = a distinct pair of lists or code point.");
    cx.cases("facts", 1, 1, |_, _, obs| {
        let all = suites();
        for f in &all {
            let n = format!("{:?}", f.s.suite());
            ensure_eq!(f.s.suite().get_u16(), f.id, "suite number of {n}");
            ensure_eq!(f.s.hash_algorithm().output_len(), f.hash, "hash length of {n}");
            let v13 = f.auth == Auth::Any;
            ensure_eq!(f.s.version().version.get_u16(), if v13 { 0x0304 } else { 0x0303 }, "version of {n}");
            ensure_eq!(f.s.tls13().is_some(), v13, "tls13 view of {n}");
            match f.s {
                SupportedCipherSuite::Tls12(s) => {
                    ensure_eq!(*s.common.aead_algorithm, f.aead, "cipher of {n}");
                    ensure_eq!((s.fixed_iv_len, s.explicit_nonce_len), f.iv, "nonce lengths of {n}");
                    ensure!(matches!(s.kx, h::KeyExchangeAlgorithm::ECDHE), "key exchange of {n}");
                    let want: &[u16] = SUITE_SCHEMES.iter().find(|x| x.0 == f.auth).unwrap().1;
                    ensure_eq!(s.sign.iter().map(|x| x.get_u16()).collect::<Vec<_>>(), want, "schemes of {n}");
                    ensure!(SupportedCipherSuite::from(s) == f.s, "conversion of {n}");
                    ensure_eq!(s.hash_algorithm().output_len(), f.hash, "hash length of {n}");
                }
                SupportedCipherSuite::Tls13(s) => {
                    ensure_eq!(*s.common.aead_algorithm, f.aead, "cipher of {n}");
                    ensure_eq!(s.hash_algorithm().output_len(), f.hash, "hash length of {n}");
                    ensure!(SupportedCipherSuite::from(s) == f.s, "conversion of {n}");
                    for g in &all {
                        if let SupportedCipherSuite::Tls13(o) = g.s {
                            let got = s.can_resume_from(o);
                            ensure_eq!(got.map(|x| x.common.suite), (f.hash == g.hash).then_some(o.common.suite), "resumption of {:?} by {n}", g.s.suite());
                        }
                    }
                }
            }
            for g in &all {
                ensure_eq!(f.s == g.s, f.id == g.id, "equality of suites {n} and {:?}", g.s.suite());
                obs.evals(1);
            }
            obs.key(n);
            obs.see("suite checked");
        }
        // RFC 8446, 4.1.3: a server which could have done better says so.
        ensure_eq!(hex(&tls_core::suites::tls12::DOWNGRADE_SENTINEL), hex(b"DOWNGRD\x01"), "mark of a downgraded server");
        // The client offers only TLS 1.2 AES-128-GCM suites that the joint computation supports.
        let offered: Vec<u16> = ALL_CIPHER_SUITES.iter().map(|s| s.suite().get_u16()).collect();
        ensure_eq!(offered, vec![0xc02b, 0xc02f], "suites supported by the client");
        ensure_eq!(DEFAULT_CIPHER_SUITES.iter().map(|s| s.suite().get_u16()).collect::<Vec<_>>(), offered, "default suites");
        ensure_eq!(ALL_VERSIONS.iter().map(|v| v.version.get_u16()).collect::<Vec<_>>(), vec![0x0303], "versions");
        ensure_eq!(DEFAULT_VERSIONS.iter().map(|v| v.version.get_u16()).collect::<Vec<_>>(), vec![0x0303], "default versions");
        for (a, l) in [(tls_core::suites::HashAlgorithm::SHA1, 20), (tls_core::suites::HashAlgorithm::SHA256, 32), (tls_core::suites::HashAlgorithm::SHA384, 48), (tls_core::suites::HashAlgorithm::SHA512, 64), (tls_core::suites::HashAlgorithm::SHA512_256, 32)] {
            ensure_eq!(a.output_len(), l, "hash output length of {a:?}");
        }
        Ok(())
    });
    cx.cases("choose", 20_000, 400_000, |r, _, obs| {
        let all = suites();
        let n = r.len(14);
        let client: Vec<u16> = (0..n).map(|_| match r.below(6) { 0 => r.u16(), 1 => *r.pick(&[0x00ffu16, 0x5600, 0x0a0a, 0xc014]), _ => r.pick(&all).id }).collect();
        let m = r.below(10);
        let server: Vec<&SuiteFact> = (0..m).map(|_| r.pick(&all)).collect();
        let cs: Vec<CipherSuite> = client.iter().map(|c| CipherSuite::from(*c)).collect();
        let ss: Vec<SupportedCipherSuite> = server.iter().map(|f| f.s).collect();
        let want_c = client.iter().find(|c| server.iter().any(|f| f.id == **c)).copied();
        let want_s = server.iter().find(|f| client.contains(&f.id)).map(|f| f.id);
        let got_c = quiet(|| choose_ciphersuite_preferring_client(&cs, &ss))?.map(|s| s.suite().get_u16());
        let got_s = quiet(|| choose_ciphersuite_preferring_server(&cs, &ss))?.map(|s| s.suite().get_u16());
        ensure_eq!(got_c, want_c, "suite chosen by client preference");
        ensure_eq!(got_s, want_s, "suite chosen by server preference");
        obs.see(if want_c.is_some() { "common suite" } else { "no common suite" });
        if want_c != want_s {
            obs.see("preferences differ");
        }
        obs.key(format!("{client:?}{:?}", ss));
        // filters
        let ver = *r.pick(&[0x0303u16, 0x0304, 0x0302, 0x0305, 0xfefd]);
        let got: Vec<u16> = reduce_given_version(&ss, ProtocolVersion::from(ver)).iter().map(|s| s.suite().get_u16()).collect();
        let want: Vec<u16> = server.iter().filter(|f| (f.auth == Auth::Any && ver == 0x0304) || (f.auth != Auth::Any && ver == 0x0303)).map(|f| f.id).collect();
        ensure_eq!(got, want, "suites kept for version {ver:04x}");
        let a = r.below(10) as u8;
        let got: Vec<u16> = reduce_given_sigalg(&ss, SignatureAlgorithm::from(a)).iter().map(|s| s.suite().get_u16()).collect();
        let fits = |auth: Auth| match auth {
            Auth::Any => true,
            Auth::Rsa => a == 1,
            Auth::Ecdsa => a == 3 || a == 7,
        };
        let want: Vec<u16> = server.iter().filter(|f| fits(f.auth)).map(|f| f.id).collect();
        ensure_eq!(got, want, "suites kept for signature algorithm {a}");
        let sch = if r.bool() { *r.pick(&[0x0201u16, 0x0203, 0x0401, 0x0403, 0x0501, 0x0503, 0x0601, 0x0603, 0x0804, 0x0805, 0x0806, 0x0807, 0x0808]) } else { r.u16() };
        if sch != 0x0203 {
            let got = compatible_sigscheme_for_suites(SignatureScheme::from(sch), &ss);
            let want = server.iter().any(|f| f.auth == Auth::Any || scheme_key(sch) == Some(f.auth));
            ensure_eq!(got, want, "scheme {sch:04x} usable for {ss:?}");
        }
        obs.evals(4);
        Ok(())
    });
    cx.cases("schemes", 64, 64, |r, idx, obs| {
        let all = suites();
        for lo in 0..1024u32 {
            let sch = (idx as u32 * 1024 + lo) as u16;
            if sch == 0x0203 {
                continue; // SHA-1: not part of any list
            }
            for f in &all {
                let got = compatible_sigscheme_for_suites(SignatureScheme::from(sch), &[f.s]);
                let want = f.auth == Auth::Any || scheme_key(sch) == Some(f.auth);
                ensure_eq!(got, want, "scheme {sch:04x} usable for {:?}", f.s.suite());
            }
        }
        for a in 0..=255u8 {
            for f in &all {
                let got = f.s.usable_for_signature_algorithm(SignatureAlgorithm::from(a));
                let want = match f.auth {
                    Auth::Any => true,
                    Auth::Rsa => a == 1,
                    Auth::Ecdsa => a == 3 || a == 7,
                };
                ensure_eq!(got, want, "signature algorithm {a} usable for {:?}", f.s.suite());
            }
        }
        obs.add("scheme and suite pair", 1024 * 9);
        obs.evals(1024 * 9 + 256 * 9);
        obs.key(idx.to_be_bytes());
        // resolution of offered schemes
        for _ in 0..200 {
            let n = r.len(14);
            let offered: Vec<u16> = (0..n).map(|_| if r.chance(4, 5) { *r.pick(&[0x0401u16, 0x0403, 0x0501, 0x0503, 0x0601, 0x0603, 0x0804, 0x0805, 0x0806, 0x0807, 0x0808]) } else { r.u16() }).collect();
            let f = &all[r.below(6)];
            let SupportedCipherSuite::Tls12(s) = f.s else { continue };
            let got: Vec<u16> = s.resolve_sig_schemes(&offered.iter().map(|x| SignatureScheme::from(*x)).collect::<Vec<_>>()).iter().map(|x| x.get_u16()).collect();
            let want: Vec<u16> = SUITE_SCHEMES.iter().find(|x| x.0 == f.auth).unwrap().1.iter().copied().filter(|x| offered.contains(x)).collect();
            ensure_eq!(got, want, "schemes resolved for {:?} from {offered:04x?}", f.s.suite());
            obs.see(if want.is_empty() { "no common scheme" } else { "common scheme" });
        }
        Ok(())
    });
    cx.cases("versions", 1_000, 10_000, |r, _, obs| {
        let mut l: Vec<&'static SupportedProtocolVersion> = vec![];
        for _ in 0..r.below(4) {
            l.push(if r.bool() { &TLS12 } else { &TLS13 });
        }
        let e = EnabledVersions::new(&l);
        for v in 0x02fe..=0x0307u16 {
            let want = l.iter().any(|x| x.version.get_u16() == v);
            ensure_eq!(e.contains(ProtocolVersion::from(v)), want, "enabled version {v:04x} of {l:?}");
        }
        ensure!(!e.contains(ProtocolVersion::from(r.u16() | 0x8000)), "unknown version enabled");
        let a: [u8; 32] = r.arr();
        let b: [u8; 32] = r.arr();
        ensure_eq!(join_randoms(&a, &b).to_vec(), [a, b].concat(), "joined randoms");
        obs.see("version list");
        obs.key(&a);
        Ok(())
    });
    cx.require("common suite", 2000);
    cx.require("no common suite", 2000);
    cx.require("preferences differ", 500);
    cx.require("common scheme", 2000);
    cx.require("no common scheme", 500);
}

// ------------------------------------------------------------------ T14

/// Strings close to the border of the grammar.
fn nameish(r: &mut R) -> String {
    let mut s = match r.below(8) {
        0 => {
            let n = r.len(300);
            (0..n).map(|_| *r.pick(b"abcXYZ019-_. *:/@%") as char).collect::<String>()
        }
        1 => {
            // long labels
            let n = r.range(60, 66);
            format!("{}.{}", "a".repeat(n), "com")
        }
        2 => {
            // long names near 253
            let total = r.range(248, 258);
            let mut s = String::new();
            while s.len() < total {
                let k = r.range(1, 63).min(total - s.len());
                s.push_str(&"b".repeat(k));
                if s.len() < total {
                    s.push('.');
                }
            }
            s
        }
        3 => format!("{}.{}.{}.{}", r.u8(), r.u8(), r.u8(), r.u8()),
        4 => (0..r.range(1, 8)).map(|_| format!("{:x}", r.u16())).collect::<Vec<_>>().join(":"),
        _ => wire::hostname(r),
    };
    if r.chance(1, 3) && !s.is_empty() {
        // one edit
        let mut b: Vec<char> = s.chars().collect();
        let p = r.below(b.len());
        let c = match r.below(4) {
            0 => *r.pick(&['-', '.', '_', '*', ' ', '\0', '\n', '/', ':', '@', '+', ',', '0', '9', '[', '`', '{', '^']),
            1 => char::from(r.u8()),
            2 => char::from_u32(r.range(0x80, 0x2fff) as u32).unwrap_or('é'),
            _ => char::from(r.range(0x2a, 0x7b) as u8),
        };
        match r.below(3) {
            0 => b[p] = c,
            1 => b.insert(p, c),
            _ => {
                b.remove(p);
            }
        }
        s = b.into_iter().collect();
    }
    if r.chance(1, 6) {
        s.push('.');
    }
    s
}

pub fn t14(cx: &mut Cx) {
    cx.rule("Legal names, names at the length limits and strings one edit away from legal are offered and the verdict compared with an independent DNS grammar; encodings of name pairs (case variants, prefixes, extensions, same lengths) are compared; the name indication is decoded from its wire bytes. Non-trivial = a distinct string.");
    cx.cases("grammar", 60_000, 1_200_000, |r, _, obs| {
        let s = nameish(r);
        let want = s.is_ascii() && parse::dns_ok(s.as_bytes());
        let got = quiet(|| ServerName::try_from(s.as_str()))?;
        ensure_eq!(got.is_ok(), want, "acceptance of {s:?} ({} bytes)", s.len());
        obs.see(if want { "legal name" } else { "illegal name" });
        if want {
            obs.see(format!("name length bucket {}", s.len() / 64));
        }
        obs.key(&s);
        obs.input(json!({"name": s}));
        let Ok(sn) = got else { return Ok(()) };
        // the SNI is that name without trailing dot
        let dns = sn.for_sni().ok_or("no name indication for a DNS name")?;
        ensure_eq!(dns.as_ref(), s.as_str(), "name handed to the name indication");
        let mut out = vec![];
        h::ClientExtension::make_sni(dns).encode(&mut out);
        let bare = s.strip_suffix('.').unwrap_or(&s);
        let n = bare.len();
        let mut w = vec![0, 0];
        w.extend(((n + 5) as u16).to_be_bytes());
        w.extend(((n + 3) as u16).to_be_bytes());
        w.push(0);
        w.extend((n as u16).to_be_bytes());
        w.extend(bare.as_bytes());
        ensure_eq!(hex(&out), hex(&w), "name indication sent for {s:?}");
        ensure!(sn.clone() == sn, "a name differs from itself");
        let pki_name = sn.clone().into_pki_server_name();
        ensure_eq!(pki_name.to_str(), s.as_str(), "name handed to the certificate check");
        Ok(())
    });
    cx.cases("bytes", 1, 1, |_, _, obs| {
        // each character at the start, middle, end of a label
        for c in (0..=0x250u32).filter_map(char::from_u32) {
            for s in [format!("{c}"), format!("{c}a.com"), format!("a{c}a.com"), format!("a{c}.com"), format!("a.{c}om"), format!("a.c{c}"), format!("1{c}"), format!("a.{c}")] {
                let want = s.is_ascii() && parse::dns_ok(s.as_bytes());
                ensure_eq!(ServerName::try_from(s.as_str()).is_ok(), want, "acceptance of {s:?}");
                obs.evals(1);
                obs.key(&s);
            }
        }
        obs.see("single characters");
        Ok(())
    });
    cx.cases("pairs", 30_000, 500_000, |r, _, obs| {
        let a = loop {
            let s = if r.bool() { nameish(r) } else { wire::hostname(r) };
            if s.is_ascii() && parse::dns_ok(s.as_bytes()) {
                break s;
            }
        };
        let b = match r.below(8) {
            0 => a.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            1 => format!("{a}."),
            2 => a.strip_suffix('.').unwrap_or(&a).to_string(),
            3 => {
                let k = r.range(1, 40);
                let mut s = a.clone();
                for _ in 0..k {
                    s.push(*r.pick(b"abc") as char);
                }
                s
            }
            4 => a.chars().take(r.range(1, a.len())).collect(),
            5 => {
                // same length, one character changed
                let mut v: Vec<u8> = a.clone().into_bytes();
                let k = r.below(v.len());
                v[k] = *r.pick(b"abcxyz019-_.");
                String::from_utf8(v).unwrap()
            }
            6 => format!("{a}.{}", wire::hostname(r)),
            _ => wire::hostname(r),
        };
        let (Ok(x), Ok(y)) = (ServerName::try_from(a.as_str()), ServerName::try_from(b.as_str())) else {
            obs.see("pair with illegal name");
            return Ok(());
        };
        let (ex, ey) = (quiet(|| x.encode())?, quiet(|| y.encode())?);
        obs.see(if a == b { "same spelling" } else { "different spelling" });
        obs.key(format!("{a}|{b}"));
        if a == b {
            ensure_eq!(hex(&ex), hex(&ey), "encodings of the same name {a:?}");
            ensure!(x == y, "same name compares different: {a:?}");
        } else {
            ensure!(!ex.starts_with(&ey) && !ey.starts_with(&ex), "encodings of different names coincide or start one another: {a:?} / {b:?}: {} / {}", hex(&ex), hex(&ey));
            ensure_eq!(x == y, a.eq_ignore_ascii_case(&b), "comparison of {a:?} and {b:?}");
        }
        obs.evals(1);
        Ok(())
    });
    cx.cases("certificate", 150, 3_000, |r, _, obs| {
        // the certificate check is for precisely the name
        let p = pki::pool();
        let now = 1_700_000_000i64;
        let a = loop {
            let s = wire::hostname(r);
            if s.contains('.') && s.len() < 120 && !s.starts_with('.') && parse::dns_ok(s.as_bytes()) {
                break s.trim_end_matches('.').to_string();
            }
        };
        let spec = pki::Spec::ee_spec(r, "x", "root", pki::Sig::Ecdsa(pki::H::Sha256), now, vec![a.clone()]);
        let der = spec.build(&p.ed[0], &p.p256[0], r);
        let v = WebPkiVerifier::new(RootCertStore { roots: vec![pki::anchor(&pki::name("root"), &p.p256[0])] }, None);
        let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(now as u64);
        let first = a.as_bytes()[0] as char;
        let cands = [a.clone(), format!("{a}."), a.to_uppercase(), format!("x{a}"), format!("{a}x"), format!("x.{a}"), a[1..].to_string(), format!("{first}{a}"), wire::hostname(r)];
        for c in cands {
            let Ok(sn) = ServerName::try_from(c.as_str()) else { continue };
            let want = c.strip_suffix('.').unwrap_or(&c).eq_ignore_ascii_case(&a);
            let got = quiet(|| v.verify_server_cert(&Certificate(der.clone()), &[], &sn, &mut std::iter::empty(), &[], t).is_ok())?;
            ensure_eq!(got, want, "certificate for {a:?} checked for {c:?}");
            obs.see(if want { "certificate name matches" } else { "certificate name differs" });
            obs.evals(1);
        }
        obs.key(&a);
        Ok(())
    });
    cx.require("legal name", 10_000);
    cx.require("illegal name", 10_000);
    cx.require("name length bucket 3", 200);
    cx.require("different spelling", 5_000);
    cx.require("same spelling", 500);
    cx.require("certificate name differs", 200);
}

// ------------------------------------------------------------------ T17

pub fn t17(cx: &mut Cx) {
    cx.rule("Root sets of 0..8 anchors with subjects of every length up to 600 and around 2^7, 2^8, 2^15, 2^16, and wrap lengths up to 2^24; the result is parsed by a strict DER reader and must hold exactly the subject; real anchors are extracted from generated certificates. Non-trivial = a distinct subject list.");
    cx.cases("subjects", 2_500, 30_000, |r, idx, obs| {
        let n = r.below(9);
        let mut roots = vec![];
        let mut subj = vec![];
        for j in 0..n {
            let len = match r.below(5) {
                0 => (idx as usize + j) % 600,
                1 => *r.pick(&[0usize, 1, 125, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258]),
                2 => r.range(120, 260),
                3 if r.chance(1, 8) => *r.pick(&[32766usize, 32767, 32768, 65530, 65535 - 4]),
                _ => r.len(300),
            };
            let s = if r.chance(1, 6) && !subj.is_empty() { r.pick::<Vec<u8>>(&subj).clone() } else { r.bytes(len) };
            subj.push(s.clone());
            roots.push(pki::anchor(&s, &pki::pool().p256[r.below(8)]));
        }
        let store = RootCertStore { roots };
        ensure_eq!(store.len(), n, "number of roots");
        ensure_eq!(store.is_empty(), n == 0, "emptiness of the root store");
        let names = quiet(|| store.subjects())?;
        ensure_eq!(names.len(), n, "number of issuer names");
        for (k, (d, s)) in names.iter().zip(&subj).enumerate() {
            let (tag, c, rest) = pki::read_tlv(&d.0).ok_or_else(|| format!("issuer name is not DER: name {k} of a subject of {} bytes: {}", s.len(), hex(&d.0[..d.0.len().min(12)])))?;
            ensure_eq!(tag, 0x30, "tag of issuer name {k}");
            ensure!(rest.is_empty(), "trailing bytes after issuer name {k}");
            ensure_eq!(hex(c), hex(s), "content of issuer name {k}");
            obs.see(format!("subject length class {}", match s.len() { 0..=127 => "1", 128..=255 => "2", 256..=65535 => "3", _ => "4" }));
            obs.evals(1);
        }
        ensure!(RootCertStore::empty().is_empty() && RootCertStore::empty().subjects().is_empty(), "an empty store names issuers");
        obs.key(subj.concat());
        obs.input(json!({"roots": n, "lengths": subj.iter().map(|s| s.len()).collect::<Vec<_>>()}));
        Ok(())
    });
    cx.cases("wrap", 1_500, 12_000, |r, idx, obs| {
        let len = match idx {
            0..=1100 => idx as usize,
            1101..=1120 => 0xfff0 + (idx as usize - 1101) * 2,
            1121..=1124 => 0xff_fffe + (idx as usize - 1121),
            1125..=1129 => 0x1_0000 + (idx as usize - 1125) * 255,
            _ => r.below(200_000),
        };
        let body = r.bytes(len);
        let mut v = body.clone();
        quiet(|| tls_core::x509::wrap_in_sequence(&mut v))?;
        let (tag, c, rest) = pki::read_tlv(&v).ok_or_else(|| format!("wrapped value is not DER: {len} bytes: {}", hex(&v[..v.len().min(8)])))?;
        ensure!(tag == 0x30 && rest.is_empty(), "wrapped value of {len} bytes has the wrong shape");
        ensure!(c == &body[..], "content of a wrapped value of {len} bytes changed");
        let mut l = body.clone();
        tls_core::x509::wrap_in_asn1_len(&mut l);
        ensure!(l[..] == v[1..], "length prefix of {len} bytes differs");
        obs.see(format!("wrap length bytes {}", v.len() - len));
        obs.key(len.to_be_bytes());
        Ok(())
    });
    cx.cases("real anchors", 60, 600, |r, _, obs| {
        // anchors as users make them, from CA certificates
        let p = pki::pool();
        let mut roots = vec![];
        let mut want = vec![];
        for _ in 0..r.range(1, 4) {
            let n = r.len(300);
            let cn: String = (0..n).map(|_| *r.pick(b"abc ABC") as char).collect();
            let k = &p.p256[r.below(8)];
            let s = pki::Spec::ca_spec(r, &cn, &cn, pki::Sig::Ecdsa(pki::H::Sha256), 1_700_000_000);
            let der = s.build(k, k, r);
            let der = rustls_pki_types::CertificateDer::from(der);
            let a = webpki::anchor_from_trusted_cert(&der).map_err(|e| Fail::Harness(format!("anchor: {e}")))?.to_owned();
            want.push(pki::tlv(0x30, &pki::name(&cn)));
            roots.push(a);
        }
        let got: Vec<Vec<u8>> = RootCertStore { roots }.subjects().into_iter().map(|d| d.0).collect();
        ensure_eq!(got.iter().map(|x| hex(x)).collect::<Vec<_>>(), want.iter().map(|x| hex(x)).collect::<Vec<_>>(), "issuer names of real roots");
        obs.see("real anchor list");
        obs.key(want.concat());
        Ok(())
    });
    for c in ["1", "2", "3"] {
        cx.require(&format!("subject length class {c}"), 100);
    }
    for b in [2, 3, 4, 5, 6] {
        cx.require(&format!("wrap length bytes {b}"), 1);
    }
}

// ------------------------------------------------------------------ T18

fn trip<T: Serialize + DeserializeOwned>(v: &T, what: &str, show: impl Fn(&T) -> String, obs: &mut Obs) -> CaseResult {
    let want = show(v);
    let b = quiet(|| bincode::serialize(v))?.map_err(|e| format!("{what} does not serialize: {e}"))?;
    let back: T = quiet(|| bincode::deserialize(&b))?.map_err(|e| format!("{what} does not deserialize (bincode): {e}"))?;
    ensure_eq!(show(&back), want, "{what} after a binary round trip");
    let b2 = bincode::serialize(&back).map_err(|e| format!("{what} does not serialize again: {e}"))?;
    ensure_eq!(hex(&b2), hex(&b), "serialized form of {what} is not stable");
    let j = quiet(|| serde_json::to_string(v))?.map_err(|e| format!("{what} does not serialize (JSON): {e}"))?;
    let back: T = quiet(|| serde_json::from_str(&j))?.map_err(|e| format!("{what} does not deserialize (JSON): {e}"))?;
    ensure_eq!(show(&back), want, "{what} after a JSON round trip");
    obs.evals(1);
    obs.see(format!("trip {what}"));
    obs.key(&b);
    // truncated data never yield a value silently equal in length
    if b.len() > 1 {
        let cut = (fnv(&b) as usize) % b.len();
        let r = quiet(|| bincode::deserialize::<T>(&b[..cut]).is_ok())?;
        ensure!(!r, "{what} deserialized from truncated data");
    }
    Ok(())
}
fn codes8<T: Serialize + DeserializeOwned + From<u8> + PartialEq + Debug + Copy>(what: &str, num: impl Fn(&T) -> u8, obs: &mut Obs) -> CaseResult {
    let mut forms = HashSet::new();
    for x in 0..=255u8 {
        let v = T::from(x);
        let b = bincode::serialize(&v).map_err(|e| format!("{what}: {e}"))?;
        let back: T = quiet(|| bincode::deserialize(&b))?.map_err(|e| format!("{what} {x} does not deserialize: {e}"))?;
        ensure!(back == v && num(&back) == x, "{what} {x} restored as {back:?}");
        let j = serde_json::to_string(&v).map_err(|e| format!("{what}: {e}"))?;
        let back: T = quiet(|| serde_json::from_str(&j))?.map_err(|e| format!("{what} {x} does not deserialize: {e}"))?;
        ensure!(back == v && num(&back) == x, "{what} {x} restored as {back:?} from JSON");
        ensure!(forms.insert(b) , "two values of {what} share a serialized form: {x}");
        obs.evals(2);
    }
    obs.add("code point restored", 256);
    obs.key(what);
    Ok(())
}
fn codes16<T: Serialize + DeserializeOwned + From<u16> + PartialEq + Debug + Copy>(what: &str, num: impl Fn(&T) -> u16, obs: &mut Obs) -> CaseResult {
    let mut forms = HashSet::new();
    for x in 0..=65535u16 {
        let v = T::from(x);
        let b = bincode::serialize(&v).map_err(|e| format!("{what}: {e}"))?;
        let back: T = quiet(|| bincode::deserialize(&b))?.map_err(|e| format!("{what} {x:04x} does not deserialize: {e}"))?;
        ensure!(back == v && num(&back) == x, "{what} {x:04x} restored as {back:?}");
        ensure!(forms.insert(b), "two values of {what} share a serialized form: {x:04x}");
        if x % 16 == 3 || format!("{v:?}").len() > 14 || !format!("{v:?}").starts_with("Unknown") {
            let j = serde_json::to_string(&v).map_err(|e| format!("{what}: {e}"))?;
            let back: T = quiet(|| serde_json::from_str(&j))?.map_err(|e| format!("{what} {x:04x} does not deserialize: {e}"))?;
            ensure!(back == v && num(&back) == x, "{what} {x:04x} restored as {back:?} from JSON");
        }
        obs.evals(1);
    }
    obs.add("code point restored", 65536);
    obs.key(what);
    Ok(())
}

pub fn t18(cx: &mut Cx) {
    cx.rule("Every serializable TLS type with random, empty and maximal contents and every value of every code-point type goes through a compact binary format and JSON and back; the restored value is compared through its accessors, and its serialized form must be stable and unique. Non-trivial = a distinct serialized form.");
    cx.cases("code points", 1, 1, |_, _, obs| {
        codes16::<ProtocolVersion>("ProtocolVersion", |v| v.get_u16(), obs)?;
        codes8::<HashAlgorithm>("HashAlgorithm", |v| v.get_u8(), obs)?;
        codes8::<SignatureAlgorithm>("SignatureAlgorithm", |v| v.get_u8(), obs)?;
        codes8::<ClientCertificateType>("ClientCertificateType", |v| v.get_u8(), obs)?;
        codes8::<Compression>("Compression", |v| v.get_u8(), obs)?;
        codes8::<ContentType>("ContentType", |v| v.get_u8(), obs)?;
        codes8::<HandshakeType>("HandshakeType", |v| v.get_u8(), obs)?;
        codes8::<AlertLevel>("AlertLevel", |v| v.get_u8(), obs)?;
        codes8::<AlertDescription>("AlertDescription", |v| v.get_u8(), obs)?;
        codes8::<HeartbeatMessageType>("HeartbeatMessageType", |v| v.get_u8(), obs)?;
        codes16::<ExtensionType>("ExtensionType", |v| v.get_u16(), obs)?;
        codes8::<ServerNameType>("ServerNameType", |v| v.get_u8(), obs)?;
        codes16::<NamedCurve>("NamedCurve", |v| v.get_u16(), obs)?;
        codes16::<NamedGroup>("NamedGroup", |v| v.get_u16(), obs)?;
        codes16::<CipherSuite>("CipherSuite", |v| v.get_u16(), obs)?;
        codes8::<ECPointFormat>("ECPointFormat", |v| v.get_u8(), obs)?;
        codes8::<HeartbeatMode>("HeartbeatMode", |v| v.get_u8(), obs)?;
        codes8::<ECCurveType>("ECCurveType", |v| v.get_u8(), obs)?;
        codes16::<SignatureScheme>("SignatureScheme", |v| v.get_u16(), obs)?;
        codes8::<PSKKeyExchangeMode>("PSKKeyExchangeMode", |v| v.get_u8(), obs)?;
        codes8::<KeyUpdateRequest>("KeyUpdateRequest", |v| v.get_u8(), obs)?;
        codes8::<CertificateStatusType>("CertificateStatusType", |v| v.get_u8(), obs)?;
        Ok(())
    });
    let contents = |r: &mut R| {
        let n = match r.below(12) {
            0 => 0,
            1 => *r.pick(&[1usize, 127, 128, 255, 256, 257]),
            2 if r.chance(1, 4) => *r.pick(&[16384usize, 65535, 65536, 70_000]),
            _ => r.len(400),
        };
        match r.below(6) {
            0 => vec![0u8; n],
            1 => vec![0xff; n],
            2 => (0..n).map(|i| i as u8).collect(),
            _ => r.bytes(n),
        }
    };
    cx.cases("values", 4_000, 60_000, |r, _, obs| {
        trip(&Payload(contents(r)), "Payload", |v| hex(&v.0) + &v.0.len().to_string(), obs)?;
        let mut c8 = contents(r);
        c8.truncate(255);
        trip(&PayloadU8::new(c8), "PayloadU8", |v| hex(&v.0), obs)?;
        trip(&PayloadU16::new(contents(r)), "PayloadU16", |v| hex(&v.0) + &v.0.len().to_string(), obs)?;
        trip(&PayloadU24::new(contents(r)), "PayloadU24", |v| hex(&v.0) + &v.0.len().to_string(), obs)?;
        let rnd: [u8; 32] = match r.below(5) { 0 => [0; 32], 1 => [0xff; 32], _ => r.arr() };
        trip(&h::Random(rnd), "Random", |v| hex(&v.0), obs)?;
        trip(&Certificate(contents(r)), "Certificate", |v| hex(&v.0) + &v.0.len().to_string(), obs)?;
        let group = if r.bool() { *r.pick(&[0x17u16, 0x18, 0x19, 0x1d, 0x1e]) } else { r.u16() };
        trip(&PublicKey::new(NamedGroup::from(group), &contents(r)), "PublicKey", |v| format!("{:x} {}", v.group.get_u16(), hex(&v.key)), obs)?;
        let sch = if r.bool() { *r.pick(&[0x0401u16, 0x0403, 0x0804, 0x0807]) } else { r.u16() };
        let dss = h::DigitallySignedStruct::new(SignatureScheme::from(sch), contents(r));
        trip(&dss, "DigitallySignedStruct", |v| format!("{:x} {}", v.scheme.get_u16(), hex(&v.sig.0)), obs)?;
        let kx = ServerKxDetails::new(contents(r), dss);
        let show_kx = |v: &ServerKxDetails| format!("{} {:x} {}", hex(v.kx_params()), v.kx_sig().scheme.get_u16(), hex(&v.kx_sig().sig.0));
        trip(&kx, "ServerKxDetails", show_kx, obs)?;
        let chain: Vec<Certificate> = (0..r.below(5)).map(|_| Certificate(contents(r))).collect();
        let scts = match r.below(4) {
            0 => None,
            1 => Some(vec![]),
            _ => Some((0..r.range(1, 4)).map(|_| PayloadU16::new(contents(r))).collect::<Vec<_>>()),
        };
        obs.see(match &scts { None => "no timestamps", Some(v) if v.is_empty() => "empty timestamps", _ => "timestamps" });
        let cert = ServerCertDetails::new(chain.clone(), contents(r), scts.clone());
        let show_cert = |v: &ServerCertDetails| {
            format!("{:?} {} {:?}", v.cert_chain().iter().map(|c| hex(&c.0)).collect::<Vec<_>>(), hex(v.ocsp_response()), v.scts().map(|s| s.iter().map(|x| hex(&x.0)).collect::<Vec<_>>()))
        };
        // construction itself keeps what was put in
        ensure!(cert.cert_chain() == chain.as_slice() && cert.scts().map(|s| s.iter().map(|x| x.0.clone()).collect::<Vec<_>>()) == scts.as_ref().map(|s| s.iter().map(|x| x.0.clone()).collect::<Vec<_>>()), "constructed certificate details differ");
        trip(&cert, "ServerCertDetails", show_cert, obs)?;
        let hd = HandshakeData::new(cert, kx, h::Random(r.arr()), h::Random(r.arr()));
        let show = |v: &HandshakeData| format!("{} | {} | {} | {}", show_cert(v.server_cert_details()), show_kx(v.server_kx_details()), hex(&v.client_random().0), hex(&v.server_random().0));
        trip(&hd, "HandshakeData", show, obs)?;
        Ok(())
    });
    cx.cases("verifies after archiving", 60, 800, |r, _, obs| {
        // a genuine handshake still verifies after it was serialized and restored
        let w = crate::chain::world(r, r.clone().below(3), Some(&pki::pool().p256[0]));
        let (cr, sr): ([u8; 32], [u8; 32]) = (r.arr(), r.arr());
        let params = r.bytes(69);
        let sig = pki::pool().p256[0].sign(pki::Sig::Ecdsa(pki::H::Sha256), &[&cr[..], &sr, &params].concat(), r);
        let hd = HandshakeData::new(
            ServerCertDetails::new(w.chain().into_iter().map(tls_core::key::Certificate).collect(), vec![], None),
            ServerKxDetails::new(params, h::DigitallySignedStruct::new(SignatureScheme::ECDSA_NISTP256_SHA256, sig.clone())),
            h::Random(cr),
            h::Random(sr),
        );
        let back: HandshakeData = bincode::deserialize(&bincode::serialize(&hd).unwrap()).map_err(|e| format!("handshake data do not deserialize: {e}"))?;
        let v = WebPkiVerifier::new(RootCertStore { roots: w.anchors() }, None);
        let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(w.now as u64);
        back.verify(&v, t, &ServerName::try_from(w.host.as_str()).unwrap()).map_err(|e| format!("a restored handshake does not verify: {e:?}"))?;
        obs.see("restored handshake verifies");
        obs.key(&sig);
        Ok(())
    });
    cx.require("code point restored", 22 * 256);
    for t in ["no timestamps", "empty timestamps", "timestamps"] {
        cx.require(t, 100);
    }
    cx.require("restored handshake verifies", 20);
}

// ------------------------------------------------------------------ T20

/// Prints fresh values of this process (used by the cross-process monitor).
pub fn emit_random() {
    let mut v = tls_core::rand::random_vec(32).unwrap();
    v.extend(h::Random::new().unwrap().0);
    v.extend(tls_core::rand::random_u32().unwrap().to_be_bytes());
    println!("{}", hex(&v));
}

fn draw(kind: usize, n: usize) -> Result<Vec<u8>, Fail> {
    Ok(match kind {
        0 => {
            let mut v = vec![0x5a; n];
            tls_core::rand::fill_random(&mut v).map_err(|e| format!("no random bytes: {e:?}"))?;
            v
        }
        1 => tls_core::rand::random_vec(n).map_err(|e| format!("no random bytes: {e:?}"))?,
        2 => h::Random::new().map_err(|e| format!("no random bytes: {e:?}"))?.0.to_vec(),
        3 => {
            let s = h::SessionID::random().map_err(|e| format!("no random bytes: {e:?}"))?;
            ensure_eq!(s.len(), 32, "length of a random session id");
            let mut o = vec![];
            s.encode(&mut o);
            o.remove(0);
            o
        }
        _ => tls_core::rand::random_u32().map_err(|e| format!("no random bytes: {e:?}"))?.to_be_bytes().to_vec(),
    })
}
const KINDS: [&str; 5] = ["fill", "vec", "hello random", "session id", "u32"];

pub fn t20(cx: &mut Cx) {
    cx.rule("For each entry point and buffer length, bytes are drawn repeatedly in one thread, in many threads and in fresh processes; monitors require every byte position and bit to vary, every byte value to occur, no repeat of any drawn value or 8-byte window, no constant difference between draws, and balanced bits. Non-trivial = a distinct drawn value.");
    cx.assume("statistical thresholds: a sound source fails a run with probability below 1e-9; strength of the operating system's generator is assumed");
    cx.cases("positions", 330, 1_300, |r, idx, obs| {
        let n = match idx {
            0..=299 => idx as usize,
            300..=309 => 500 + 97 * (idx as usize - 300),
            310..=314 => *[4096usize, 16383, 16384, 16385, 65537].get(idx as usize - 310).unwrap(),
            _ => r.range(1, 3000),
        };
        for kind in 0..2 {
            let draws = 64;
            let mut or = vec![0u8; n];
            let mut and = vec![0xffu8; n];
            let mut prev: Vec<u8> = vec![];
            for k in 0..draws {
                let v = draw(kind, n)?;
                ensure_eq!(v.len(), n, "length of random bytes ({})", KINDS[kind]);
                if n >= 8 {
                    ensure!(v != prev, "two requests gave the same {n} bytes ({})", KINDS[kind]);
                }
                for i in 0..n {
                    or[i] |= v[i];
                    and[i] &= v[i];
                }
                if k < 2 && n >= 8 {
                    obs.key(&v);
                }
                prev = v;
            }
            // each bit stays constant with probability 2^-63
            for i in 0..n {
                ensure!(or[i] == 0xff && and[i] == 0, "fixed bits remain at byte {i} of {n} ({}): mask {:02x}", KINDS[kind], !(or[i] & !and[i]));
            }
            obs.add("byte position watched", n as u64);
            obs.evals(draws);
        }
        Ok(())
    });
    cx.cases("fixed size", 5, 20, |_, idx, obs| {
        let kind = idx as usize % 5;
        let n = if kind == 4 { 4 } else { 32 };
        let draws = 4096usize;
        let mut seen = HashSet::new();
        let mut ones = vec![0usize; n * 8];
        let mut values = [0usize; 256];
        let mut last: Option<Vec<u8>> = None;
        let mut diffs = HashSet::new();
        let mut dup = 0;
        for _ in 0..draws {
            let v = draw(kind, n)?;
            for i in 0..n * 8 {
                ones[i] += (v[i / 8] >> (i % 8) & 1) as usize;
            }
            for b in &v {
                values[*b as usize] += 1;
            }
            if let Some(l) = &last {
                diffs.insert(v.iter().zip(l).map(|(a, b)| a.wrapping_sub(*b)).collect::<Vec<u8>>());
            }
            if !seen.insert(v.clone()) {
                dup += 1;
            }
            last = Some(v);
        }
        // u32: expected number of repeats is 0.002
        ensure!(dup <= if n == 4 { 4 } else { 0 }, "{dup} repeated values among {draws} ({})", KINDS[kind]);
        ensure!(diffs.len() + 8 > draws - 1, "successive values differ by a constant ({})", KINDS[kind]);
        let sd = ((draws / 4) as f64).sqrt();
        for (i, o) in ones.iter().enumerate() {
            ensure!((*o as f64 - draws as f64 / 2.0).abs() < 9.0 * sd, "bit {i} is biased ({}): {o} of {draws}", KINDS[kind]);
        }
        let mean = (draws * n) as f64 / 256.0;
        for (b, c) in values.iter().enumerate() {
            ensure!((*c as f64 - mean).abs() < 10.0 * mean.sqrt() , "byte value {b} occurs {c} times instead of {mean:.0} ({})", KINDS[kind]);
        }
        obs.evals(draws as u64);
        obs.see(format!("entry {}", KINDS[kind]));
        for v in seen.iter().take(500) {
            obs.key(v);
        }
        Ok(())
    });
    cx.cases("windows", 6, 60, |r, _, obs| {
        // no 8-byte window repeats inside or between large buffers
        let mut seen = HashSet::new();
        for _ in 0..8 {
            let n = r.range(20_000, 60_000);
            let v = draw(r.below(2), n)?;
            for w in v.chunks_exact(8) {
                ensure!(seen.insert(<[u8; 8]>::try_from(w).unwrap()), "an 8-byte window repeats in random output");
            }
        }
        obs.add("window watched", seen.len() as u64);
        obs.key(format!("{:?}", seen.iter().next()));
        Ok(())
    });
    // long buffers: no position is fixed, and none repeats another one of the same buffer or of the buffer before
    cx.cases("long buffers", 8, 80, |r, idx, obs| {
        let n = match idx % 8 {
            0 => 4096 + r.below(64),
            1 => 65_536 + r.below(5),
            _ => r.range(600, 24_000),
        };
        let draws = 64;
        let bufs = (0..draws).map(|_| draw(idx as usize % 2, n)).collect::<Result<Vec<_>, _>>()?;
        let zero = vec![0u8; n];
        for p in 0..n {
            let (mut ones, mut zeros) = (0u8, 0u8);
            for b in &bufs {
                ones |= b[p];
                zeros |= !b[p];
            }
            ensure!(ones == 0xff && zeros == 0xff, "a bit never changes at position {p} of {n} random bytes");
        }
        let mut rel: Vec<(String, Vec<u32>)> = vec![];
        for d in [1usize, 2, 3, 4, 7, 8, 12, 16, 24, 32, 48, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768] {
            rel.push((format!("the byte {d} before"), vec![0; n]));
            let c = &mut rel.last_mut().unwrap().1;
            for b in &bufs {
                for p in d..n {
                    c[p] += (b[p] == b[p - d]) as u32;
                }
            }
        }
        for first in 0..4 {
            rel.push((format!("byte {first}"), vec![0; n]));
            let c = &mut rel.last_mut().unwrap().1;
            for b in &bufs {
                for p in 4..n {
                    c[p] += (b[p] == b[first]) as u32;
                }
            }
        }
        rel.push(("the same place in the buffer before".into(), vec![0; n]));
        let c = &mut rel.last_mut().unwrap().1;
        let mut prev = &zero;
        for b in &bufs {
            for p in 0..n {
                c[p] += (b[p] == prev[p]) as u32;
            }
            prev = b;
        }
        for (what, c) in &rel {
            if let Some(p) = c.iter().position(|k| *k > 24) {
                return Err(Fail::from(format!("random bytes repeat each other: position {p} of {n} equals {what} in {} of {draws} buffers", c[p])));
            }
        }
        obs.evals((n * rel.len()) as u64);
        obs.add("position compared", (n * rel.len()) as u64);
        obs.key(&bufs[0][..32]);
        Ok(())
    });
    cx.cases("threads", 6, 60, |_, idx, obs| {
        // fresh threads, drawing at the same time
        let threads = if idx == 0 { 2000 } else { 64 };
        let per = if idx == 0 { 2 } else { 400 };
        let kind = idx as usize % 4;
        let mut all: HashSet<Vec<u8>> = HashSet::new();
        let mut total = 0usize;
        let batch = 16;
        let mut done = 0;
        while done < threads {
            let barrier = std::sync::Barrier::new(batch);
            let vs: Vec<Result<Vec<Vec<u8>>, Fail>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..batch)
                    .map(|_| {
                        s.spawn(|| {
                            barrier.wait();
                            (0..per).map(|_| draw(kind, 32)).collect::<Result<Vec<_>, _>>()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::from("random source panicked in a thread")))).collect()
            });
            for v in vs {
                for x in v? {
                    total += 1;
                    all.insert(x);
                }
            }
            done += batch;
        }
        ensure_eq!(all.len(), total, "distinct values drawn by {threads} threads ({})", KINDS[kind]);
        obs.evals(total as u64);
        obs.add("value drawn in threads", total as u64);
        obs.add("thread", threads as u64);
        for v in all.iter().take(50) {
            obs.key(v);
        }
        Ok(())
    });
    cx.cases("processes", 1, 1, |_, _, obs| {
        let exe = std::env::current_exe().map_err(|e| Fail::Harness(e.to_string()))?;
        let mut seen = HashSet::new();
        let n = 48;
        let kids: Vec<_> = (0..n).map(|_| std::process::Command::new(&exe).arg("__random").stdout(std::process::Stdio::piped()).spawn()).collect();
        for k in kids {
            let o = k.and_then(|k| k.wait_with_output()).map_err(|e| Fail::Harness(e.to_string()))?;
            let line = String::from_utf8_lossy(&o.stdout).trim().to_string();
            if line.len() != 136 {
                return harness(format!("child printed {line:?}"));
            }
            ensure!(seen.insert(line[..64].to_string()), "two processes drew the same bytes");
            ensure!(seen.insert(line[64..128].to_string()), "two processes drew the same hello random");
            obs.key(&line);
        }
        obs.add("process", n);
        Ok(())
    });
    cx.require("byte position watched", 50_000);
    cx.require("value drawn in threads", 50_000);
    cx.require("window watched", 20_000);
    cx.require("process", 16);
    for k in KINDS {
        cx.require(&format!("entry {k}"), 1);
    }
}
