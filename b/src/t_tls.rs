//! C09: a recorded TLS 1.2 session is rebuilt from its raw bytes.

use crate::{
    pki::{self, Key, Spec},
    wire::{B, CExt, Gen, HRR_RANDOM, Msg, SExt, p16, v8, v16},
};
use tlsn_core::{
    connection::{CertBinding, CertBindingV1_2, KeyType, ServerEphemKey, ServerSignature, SignatureAlgorithm, TlsVersion},
    transcript::{ContentType, Record, TlsTranscript},
    webpki::CertificateDer,
};
use vfw::{CaseResult, Cx, R, ensure, ensure_eq, hex, serde_json::json};

pub fn sha256(parts: &[&[u8]]) -> [u8; 32] {
    ring::digest::digest(&ring::digest::SHA256, &parts.concat()).as_ref().try_into().unwrap()
}

/// One protected record as it is on the wire.
#[derive(Clone)]
struct Enc {
    typ: u8,
    nonce: B,
    ct: B,
    tag: B,
}
impl Enc {
    fn random(r: &mut R, typ: u8, len: usize) -> Self {
        Enc { typ, nonce: r.bytes(8), ct: r.bytes(len), tag: r.bytes(16) }
    }
    fn payload(&self) -> B {
        [&self.nonce[..], &self.ct, &self.tag].concat()
    }
}

fn record(typ: u8, ver: u16, payload: &[u8]) -> B {
    let mut o = vec![typ];
    p16(&mut o, ver);
    p16(&mut o, payload.len() as u16);
    o.extend_from_slice(payload);
    o
}

/// A session by its contents.
#[derive(Clone)]
struct Session {
    sent: Vec<Msg>,
    recv: Vec<Msg>,
    client_random: [u8; 32],
    server_random: [u8; 32],
    certs: Vec<B>,
    key: B,
    scheme: u16,
    sig: B,
    alg: SignatureAlgorithm,
    /// records after the change of cipher, Finished first
    enc: [Vec<Enc>; 2],
    app: [B; 2],
}

fn ske(group: u16, key: &[u8], scheme: u16, sig: &[u8]) -> B {
    let mut o = vec![3];
    p16(&mut o, group);
    v8(&mut o, key);
    p16(&mut o, scheme);
    v16(&mut o, sig);
    o
}

const RSA_SCHEMES: [(u16, SignatureAlgorithm); 7] = [
    (0x0401, SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA256),
    (0x0501, SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA384),
    (0x0601, SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA512),
    (0x0804, SignatureAlgorithm::RSA_PSS_2048_8192_SHA256_LEGACY_KEY),
    (0x0805, SignatureAlgorithm::RSA_PSS_2048_8192_SHA384_LEGACY_KEY),
    (0x0806, SignatureAlgorithm::RSA_PSS_2048_8192_SHA512_LEGACY_KEY),
    (0x0807, SignatureAlgorithm::ED25519),
];

fn leaf(r: &mut R, key: &'static Key) -> B {
    let p = pki::pool();
    let sp = Spec::ee_spec(r, "leaf", "issuer", pki::Sig::Ecdsa(pki::H::Sha256), 1_700_000_000, vec!["a.example".into()]);
    sp.build(key, &p.p256[0], r)
}

fn server_hello(r: &mut R, ver: u16, random: [u8; 32]) -> Msg {
    let mut g = Gen { r, max: 20 };
    let sid = g.sid();
    let suite = g.suite();
    let mut exts: Vec<SExt> = g.sexts(4);
    exts.retain(|e| !matches!(e, SExt::Unknown(..)));
    Msg::ServerHello { ver, random, sid, suite, comp: 0, exts }
}

fn session(r: &mut R) -> Session {
    let p = pki::pool();
    let (scheme, alg, cert) = match r.below(6) {
        0 | 1 => {
            let (s, a) = *r.pick(&RSA_SCHEMES);
            let c = if r.bool() { r.bytes(40) } else { leaf(r, &p.rsa[0]) };
            (s, a, c)
        }
        n => {
            let s384 = n >= 4;
            let k = if r.bool() { &p.p256[r.below(8)] } else { &p.p384[r.below(6)] };
            let is384 = k.name.starts_with("p384");
            let alg = match (is384, s384) {
                (false, false) => SignatureAlgorithm::ECDSA_NISTP256_SHA256,
                (false, true) => SignatureAlgorithm::ECDSA_NISTP256_SHA384,
                (true, false) => SignatureAlgorithm::ECDSA_NISTP384_SHA256,
                (true, true) => SignatureAlgorithm::ECDSA_NISTP384_SHA384,
            };
            (if s384 { 0x0503 } else { 0x0403 }, alg, leaf(r, k))
        }
    };
    let certs: Vec<B> = std::iter::once(cert).chain((0..r.below(3)).map(|_| r.bytes(30))).collect();
    let client_random = r.arr();
    let server_random: [u8; 32] = r.arr();
    assert_ne!(server_random, HRR_RANDOM);
    let mut ch = Gen { r, max: 30 }.ch();
    ch.random = client_random;
    ch.ver = 0x0303;
    // A pre-shared key would have to come last; the other extensions are free.
    ch.exts.retain(|e| !matches!(e, CExt::Psk(..)));
    // (an empty extension block is refused by the parser)
    if ch.exts.is_empty() {
        ch.exts.push(CExt::Groups(vec![23]));
    }
    let mut key = r.bytes(65);
    key[0] = 4;
    let n = r.len(300);
    let sig = r.bytes(n);
    let mut recv = vec![server_hello(r, 0x0303, server_random), Msg::Certificate(certs.clone())];
    if r.chance(1, 4) {
        recv.push(Msg::CertStatus(r.bytes(30)));
    }
    recv.push(Msg::ServerKx(ske(23, &key, scheme, &sig)));
    let mut sent = vec![Msg::ClientHello(ch)];
    let auth = r.chance(1, 4);
    if auth {
        recv.push(Msg::CertReq { types: vec![1, 64], schemes: vec![0x0401], cas: vec![] });
        sent.push(Msg::Certificate(if r.bool() { vec![] } else { vec![r.bytes(30)] }));
    }
    recv.push(Msg::ServerHelloDone);
    let n = r.len(80);
    sent.push(Msg::ClientKx(r.bytes(n)));
    if auth && r.bool() {
        sent.push(Msg::CertVerify(0x0403, r.bytes(70)));
    }
    if r.chance(1, 4) {
        // ticket between the client's Finished and the server's change of cipher
        recv.push(Msg::Ticket(r.u32(), r.bytes(40)));
    }
    let mut enc: [Vec<Enc>; 2] = Default::default();
    let mut app: [B; 2] = Default::default();
    for d in 0..2 {
        enc[d].push(Enc::random(r, 22, 16));
        for _ in 0..r.below(8) {
            let typ = *r.pick(&[23u8, 23, 23, 21, 22]);
            let big = if r.chance(1, 20) { 16_000 } else { 60 };
            let n = if typ == 23 { r.len(big) } else { r.range(1, 20) };
            let e = Enc::random(r, typ, n);
            if typ == 23 {
                app[d].extend(r.bytes(n));
            }
            enc[d].push(e);
        }
    }
    Session { sent, recv, client_random, server_random, certs, key, scheme, sig, alg, enc, app }
}

/// Puts handshake messages into records, coalescing and splitting at will.
fn lay(r: &mut R, msgs: &[Msg], alerts: bool) -> B {
    let mut s: B = msgs.iter().flat_map(|m| m.enc()).collect();
    let mut out = vec![];
    while !s.is_empty() {
        let n = match r.below(4) {
            0 => s.len(),
            1 => r.range(1, s.len().min(6)),
            _ => r.range(1, s.len()),
        }
        .min(16_000);
        out.extend(record(22, if r.chance(1, 5) { 0x0301 } else { 0x0303 }, &s[..n]));
        s.drain(..n);
        if alerts && r.chance(1, 10) {
            out.extend(record(21, 0x0303, &[1, 90]));
        }
    }
    out
}

fn tail(enc: &[Enc]) -> B {
    let mut o = record(20, 0x0303, &[1]);
    for e in enc {
        o.extend(record(e.typ, 0x0303, &e.payload()));
    }
    o
}

impl Session {
    fn wire(&self, r: &mut R) -> [B; 2] {
        [[lay(r, &self.sent, true), tail(&self.enc[0])].concat(), [lay(r, &self.recv, true), tail(&self.enc[1])].concat()]
    }
}

fn ctype(t: u8) -> ContentType {
    match t {
        20 => ContentType::ChangeCipherSpec,
        21 => ContentType::Alert,
        22 => ContentType::Handshake,
        23 => ContentType::ApplicationData,
        24 => ContentType::Heartbeat,
        n => ContentType::Unknown(n),
    }
}

fn check_records(got: &[Record], enc: &[Enc], app: Option<&[u8]>, d: &str) -> CaseResult {
    ensure_eq!(got.len(), enc.len(), "number of {d} records");
    let mut at = 0;
    for (i, (g, e)) in got.iter().zip(enc).enumerate() {
        ensure_eq!(g.seq, i as u64, "sequence number of {d} record {i}");
        ensure_eq!(g.typ, ctype(e.typ), "type of {d} record {i}");
        ensure!(g.explicit_nonce == e.nonce && g.ciphertext == e.ct && g.tag.as_deref() == Some(&e.tag[..]), "nonce, ciphertext or tag of {d} record {i}");
        let want = match (e.typ, app) {
            (23, Some(a)) => {
                at += e.ct.len();
                Some(a[at - e.ct.len()..at].to_vec())
            }
            _ => None,
        };
        ensure!(g.plaintext == want, "plaintext of {d} record {i}");
    }
    Ok(())
}

fn build(w: &[B; 2], app: [Option<&[u8]>; 2], time: u64) -> Result<Result<TlsTranscript, String>, String> {
    vfw::quiet(|| {
        let mut b = TlsTranscript::builder().time(time).tls_sent(&w[0]).tls_recv(&w[1]);
        if let Some(a) = app[0] {
            b = b.app_sent(a);
        }
        if let Some(a) = app[1] {
            b = b.app_recv(a);
        }
        b.build().map_err(|e| e.to_string())
    })
}

fn check_session(t: &TlsTranscript, s: &Session, r: &mut R) -> CaseResult {
    ensure_eq!(t.version(), TlsVersion::V1_2, "version");
    let CertBinding::V1_2(b) = t.certificate_binding() else { return Err("kind of binding".into()) };
    ensure_eq!(b.client_random, s.client_random, "client random");
    ensure_eq!(b.server_random, s.server_random, "server random");
    ensure_eq!(b.server_ephemeral_key, ServerEphemKey { typ: KeyType::SECP256R1, key: s.key.clone() }, "ephemeral key");
    let sig = t.server_signature().ok_or("signature missing")?;
    ensure_eq!((sig.alg, &sig.sig), (s.alg, &s.sig), "signature under scheme {:04x}", s.scheme);
    let certs: Vec<&B> = t.server_cert_chain().ok_or("certificates missing")?.iter().map(|c| &c.0).collect();
    ensure_eq!(certs, s.certs.iter().collect::<Vec<_>>(), "certificates");
    // transcript hashes
    let enc = |m: &[Msg]| -> B { m.iter().flat_map(|m| m.enc()).collect() };
    let ch = enc(&s.sent[..1]);
    let done = s.recv.iter().position(|m| matches!(m, Msg::ServerHelloDone)).unwrap() + 1;
    let kx = s.sent.iter().position(|m| matches!(m, Msg::ClientKx(_))).unwrap() + 1;
    let flight = enc(&s.recv[..done]);
    ensure_eq!(t.session_hash().map(|h| hex(&h)), Some(hex(&sha256(&[&ch, &flight, &enc(&s.sent[1..kx])]))), "session hash ({} messages after ServerHelloDone)", s.recv.len() - done);
    ensure_eq!(t.cf_hash().map(|h| hex(&h)), Some(hex(&sha256(&[&ch, &flight, &enc(&s.sent[1..])]))), "hash for the client's Finished");
    let vd: [u8; 12] = r.arr();
    let fin = Msg::Finished(vd.to_vec()).enc();
    ensure_eq!(t.sf_hash(&vd).map(|h| hex(&h)), Some(hex(&sha256(&[&ch, &flight, &enc(&s.sent[1..]), &fin, &enc(&s.recv[done..])]))), "hash for the server's Finished");
    Ok(())
}

pub fn c09(cx: &mut Cx) {
    cx.rule("Non-trivial: a synthesized session whose every recorded element was compared with what it was made from, or a defective one that was refused; key = the raw bytes.");
    cx.assume("Messages and records are synthesized byte by byte by this harness; the extension decoder of spki is a stand-in.");
    cx.cases("sessions", 2500, 40_000, |r, _, o| {
        let s = session(r);
        let w = s.wire(r);
        let with = [r.chance(2, 3), r.chance(2, 3)];
        let time = r.u64();
        let app = [with[0].then_some(&s.app[0][..]), with[1].then_some(&s.app[1][..])];
        o.input(json!({"sent": hex(&w[0]), "recv": hex(&w[1])}));
        let t = build(&w, app, time)?.map_err(|e| format!("sound session refused: {e}"))?;
        ensure_eq!(t.time(), time, "time");
        check_session(&t, &s, r)?;
        check_records(t.sent(), &s.enc[0], app[0], "sent")?;
        check_records(t.recv(), &s.enc[1], app[1], "received")?;
        ensure!(t.client_finished().ciphertext == s.enc[0][0].ct && t.server_finished().ciphertext == s.enc[1][0].ct, "Finished records");
        ensure!(t.cf_vd().is_none() && t.sf_vd().is_none(), "verify data without plaintext");
        let needs = |d: usize| s.enc[d].iter().any(|e| e.typ == 23) && !with[d];
        let tr = t.to_transcript();
        if needs(0) || needs(1) {
            ensure!(tr.is_err(), "application data although plaintext is missing");
            o.see("incomplete");
        } else {
            let tr = tr.map_err(|e| format!("application data: {e}"))?;
            ensure_eq!((tr.sent(), tr.received()), (&s.app[0][..], &s.app[1][..]), "application data");
            o.see("complete");
        }
        o.see(format!("scheme/{:04x}", s.scheme));
        if s.recv.iter().any(|m| matches!(m, Msg::Ticket(..))) {
            o.see("ticket");
        }
        if s.sent.len() > 2 {
            o.see("client authentication");
        }
        o.key(w.concat());
        o.evals(20);
        Ok(())
    });
    cx.cases("defects", 5000, 60_000, |r, _, o| {
        let mut s = session(r);
        let d = r.below(2);
        let p = pki::pool();
        let mut time = Some(7);
        let mut edit: Option<Box<dyn Fn(&mut [B; 2])>> = None;
        let drop = |v: &mut Vec<Msg>, f: &dyn Fn(&Msg) -> bool| v.retain(|m| !f(m));
        let set_ske = |s: &mut Session, b: B| {
            for m in s.recv.iter_mut() {
                if let Msg::ServerKx(x) = m {
                    *x = b.clone();
                }
            }
        };
        let what = match r.below(26) {
            0 => { drop(&mut s.sent, &|m| matches!(m, Msg::ClientHello(_))); "no ClientHello" }
            1 => { drop(&mut s.sent, &|m| matches!(m, Msg::ClientKx(_))); "no ClientKeyExchange" }
            2 => { drop(&mut s.recv, &|m| matches!(m, Msg::ServerHello { .. })); "no ServerHello" }
            3 => { drop(&mut s.recv, &|m| matches!(m, Msg::Certificate(_))); "no Certificate" }
            4 => { drop(&mut s.recv, &|m| matches!(m, Msg::ServerKx(_))); "no ServerKeyExchange" }
            5 => { drop(&mut s.recv, &|m| matches!(m, Msg::ServerHelloDone)); "no ServerHelloDone" }
            6 => { s.sent.insert(0, Msg::ClientKx(r.bytes(5))); "ClientHello not first" }
            7 => { let g = *r.pick(&[24u16, 25, 29, 30, 256, 0x1234]); let b = ske(g, &s.key, s.scheme, &s.sig); set_ske(&mut s, b); "group" }
            8 => { let sc = *r.pick(&[0x0201u16, 0x0203, 0x0603, 0x0808, 0x0000, 0x0402, 0xfefe]); let b = ske(23, &s.key, sc, &s.sig); set_ske(&mut s, b); "scheme" }
            9 => {
                let v = *r.pick(&[0x0300u16, 0x0301, 0x0302, 0x0305, 0xfefd]);
                let x = s.server_random;
                let h = server_hello(r, v, x);
                s.recv[0] = h;
                "version"
            }
            10 => {
                // an ECDSA scheme with a certificate of another kind
                let sc = *r.pick(&[0x0403u16, 0x0503]);
                let b = ske(23, &s.key, sc, &s.sig);
                set_ske(&mut s, b);
                let c = match r.below(5) { 0 => r.bytes(50), 1 => leaf(r, &p.rsa[0]), 2 => leaf(r, &p.ed[0]), 3 => leaf(r, &p.p521[0]), _ => vec![] };
                let chain = if r.chance(1, 6) { vec![] } else { vec![c] };
                for m in s.recv.iter_mut() { if let Msg::Certificate(x) = m { *x = chain.clone(); } }
                "certificate key"
            }
            11 => { let mut b = ske(23, &s.key, s.scheme, &s.sig); let n = r.below(b.len()); b.truncate(n); set_ske(&mut s, b); "short ServerKeyExchange" }
            12 => { let mut b = ske(23, &s.key, s.scheme, &s.sig); b.push(0); set_ske(&mut s, b); "long ServerKeyExchange" }
            13 => { let mut b = ske(23, &s.key, s.scheme, &s.sig); b[0] = r.below(3) as u8; set_ske(&mut s, b); "explicit curve" }
            14 => { let c: Vec<Enc> = s.enc[d].drain(..).collect(); s.enc[d] = vec![]; let _ = c; "no Finished record" }
            15 => { s.enc[d][0].typ = *r.pick(&[21, 23]); "Finished of another type" }
            16 => { let k = s.enc[d].len(); let i = r.below(k); let cut = r.range(1, 24); s.enc[d][i].ct = vec![]; let e = &mut s.enc[d][i]; e.tag.truncate(16usize.saturating_sub(cut)); if cut > 16 { e.nonce.truncate(24 - cut); } "short record" }
            17 => {
                let n: usize = s.enc[d].iter().filter(|e| e.typ == 23).map(|e| e.ct.len()).sum();
                if n == 0 { return Ok(()); }
                let k = r.below(n);
                s.app[d].truncate(k);
                "short application data"
            }
            18 => { edit = Some(Box::new(move |w: &mut [B; 2]| { let n = w[d].len(); w[d].truncate(n - 1); })); "cut record" }
            19 => { edit = Some(Box::new(move |w: &mut [B; 2]| w[d].extend([22, 3]))); "partial header" }
            20 => { let t = *r.pick(&[0u8, 19, 25, 255]); edit = Some(Box::new(move |w: &mut [B; 2]| w[d].extend(record(t, 0x0303, &[0; 30])))); "unknown record type" }
            21 => { edit = Some(Box::new(move |w: &mut [B; 2]| w[d].extend(record(23, 0x0203, &[0; 30])))); "record version" }
            22 => { edit = Some(Box::new(move |w: &mut [B; 2]| w[d].extend(record(23, 0x0303, &vec![0; 0x4800])))); "oversized record" }
            23 => { time = None; "no time" }
            24 => {
                // a handshake message cut short before the change of cipher
                let last = if d == 0 { s.sent.last_mut() } else { s.recv.last_mut() }.unwrap();
                *last = Msg::Unknown(last.typ(), vec![]);
                if matches!(last, Msg::Unknown(14, _)) { return Ok(()); }
                "empty handshake message"
            }
            _ => { edit = Some(Box::new(move |w: &mut [B; 2]| w[d] = vec![])); "empty stream" }
        };
        let mut w = s.wire(r);
        if what == "no Finished record" && r.bool() {
            // not even a change of cipher
            w[d] = lay(r, if d == 0 { &s.sent } else { &s.recv }, false);
        }
        if let Some(f) = edit {
            f(&mut w);
        }
        o.input(json!({"defect": what, "sent": hex(&w[0]), "recv": hex(&w[1])}));
        let res = vfw::quiet(|| {
            let mut b = TlsTranscript::builder().tls_sent(&w[0]).tls_recv(&w[1]).app_sent(&s.app[0]).app_recv(&s.app[1]);
            if let Some(t) = time {
                b = b.time(t);
            }
            b.build().map(|_| ()).map_err(|e| e.to_string())
        })?;
        if what == "empty handshake message" && res.is_ok() {
            // some messages may be empty; then the session is sound
            o.see("empty message allowed");
            return Ok(());
        }
        ensure!(res.is_err(), "defective session accepted: {what}");
        o.see(format!("refused/{what}"));
        o.key(w.concat());
        Ok(())
    });
    cx.cases("explicit", 4000, 60_000, |r, _, o| {
        // Records and handshake facts given explicitly.
        let key = ServerEphemKey { typ: KeyType::SECP256R1, key: r.bytes(65) };
        let bind = CertBinding::V1_2(CertBindingV1_2 { client_random: r.arr(), server_random: r.arr(), server_ephemeral_key: key.clone() });
        let mut ok = true;
        let mut lists: Vec<Vec<Record>> = vec![];
        let mut vds = vec![];
        for _ in 0..2 {
            let vd = r.bytes(12);
            let mut fin = match r.below(4) { 0 => None, _ => Some(Msg::Finished(vd.clone()).enc()) };
            let mut typ = ContentType::Handshake;
            let mut seq = 0;
            let mut v = vec![];
            let mut broken = true;
            match r.below(18) {
                0 => typ = *r.pick(&[ContentType::ApplicationData, ContentType::Alert, ContentType::ChangeCipherSpec, ContentType::Unknown(9)]),
                1 => seq = r.range(1, 5) as u64,
                2 => fin = Some(Msg::ServerHelloDone.enc()),
                3 => fin = Some(vec![0x14, 0, 0, 12, 1, 2]),
                4 => fin = Some(vec![]),
                _ => broken = false,
            }
            vds.push(fin.as_ref().map(|_| vd));
            v.push(Record { seq, typ, plaintext: fin, explicit_nonce: r.bytes(8), ciphertext: r.bytes(16), tag: Some(r.bytes(16)) });
            let mut at = seq;
            for _ in 0..r.below(6) {
                at += if r.chance(1, 5) { r.range(2, 4) as u64 } else { 1 };
                let n = r.len(30);
                let pt = r.bytes(n);
                v.push(Record {
                    seq: at,
                    typ: *r.pick(&[ContentType::ApplicationData, ContentType::ApplicationData, ContentType::Alert, ContentType::Handshake]),
                    plaintext: if r.chance(1, 12) { None } else { Some(pt) },
                    explicit_nonce: r.bytes(8),
                    ciphertext: r.bytes(n),
                    tag: r.bool().then(|| vec![0; 16]),
                });
            }
            if v.len() > 1 && r.chance(1, 5) {
                let i = r.range(1, v.len() - 1);
                broken = true;
                match r.below(3) {
                    0 => v[i].seq = v[i - 1].seq,
                    1 => {
                        let s = v[i - 1].seq;
                        v[i - 1].seq = v[i].seq;
                        v[i].seq = s;
                    }
                    _ => v[i].seq = r.below(v[i - 1].seq as usize + 1) as u64,
                }
            }
            if r.chance(1, 25) {
                v.clear();
                broken = true;
            }
            ok &= !broken;
            lists.push(v);
        }
        let time = r.u64();
        let chain: Vec<CertificateDer> = (0..r.below(3)).map(|_| CertificateDer(r.bytes(20))).collect();
        let sig = ServerSignature { alg: SignatureAlgorithm::ED25519, sig: r.bytes(64) };
        let missing = match r.below(12) { n @ 0..=4 => Some(n), _ => None };
        let opt = r.bool();
        let res = vfw::quiet(|| {
            let mut b = TlsTranscript::builder();
            if missing != Some(0) { b = b.time(time); }
            if missing != Some(1) { b = b.version(TlsVersion::V1_2); }
            if missing != Some(2) { b = b.certificate_binding(bind.clone()); }
            if missing != Some(3) { b = b.records_sent(lists[0].clone()); }
            if missing != Some(4) { b = b.records_recv(lists[1].clone()); }
            if opt { b = b.server_signature(sig.clone()).server_cert_chain(chain.clone()); }
            b.build().map_err(|e| e.to_string())
        })?;
        let want = ok && missing.is_none();
        o.evals(1);
        o.key(format!("{:?}{missing:?}", lists.iter().map(|l| l.iter().map(|x| (x.seq, x.ciphertext.clone())).collect::<Vec<_>>()).collect::<Vec<_>>()));
        match res {
            Err(e) => {
                ensure!(!want, "sound records refused: {e}");
                o.see("records refused");
            }
            Ok(t) => {
                ensure!(want, "unsound records accepted (records {}, missing {missing:?})", if ok { "sound" } else { "unsound" });
                ensure_eq!(t.time(), time, "time");
                ensure!(t.session_hash().is_none() && t.cf_hash().is_none() && t.sf_hash(&[0; 12]).is_none(), "hashes of an unknown handshake");
                ensure_eq!((t.server_signature().is_some(), t.server_cert_chain().map(|c| c.len())), (opt, opt.then_some(chain.len())), "optional facts");
                let CertBinding::V1_2(b) = t.certificate_binding() else { return Err("kind of binding".into()) };
                ensure_eq!(b.server_ephemeral_key, key, "ephemeral key");
                ensure_eq!(t.cf_vd(), vds[0].as_deref(), "client verify data");
                ensure_eq!(t.sf_vd(), vds[1].as_deref(), "server verify data");
                for (g, l) in [(t.sent(), &lists[0]), (t.recv(), &lists[1])] {
                    ensure_eq!(g.len(), l.len(), "number of records");
                    for (a, b) in g.iter().zip(l) {
                        ensure!(a.seq == b.seq && a.typ == b.typ && a.plaintext == b.plaintext && a.ciphertext == b.ciphertext && a.tag == b.tag && a.explicit_nonce == b.explicit_nonce, "record {}", b.seq);
                    }
                }
                let app = |l: &[Record]| -> Option<B> {
                    let mut v = vec![];
                    for x in l.iter().filter(|x| x.typ == ContentType::ApplicationData) {
                        v.extend(x.plaintext.clone()?);
                    }
                    Some(v)
                };
                let tr = t.to_transcript().ok().map(|t| (t.sent().to_vec(), t.received().to_vec()));
                let w = app(&lists[0]).zip(app(&lists[1]));
                ensure_eq!(tr, w, "application data of explicit records");
                o.see("records accepted");
            }
        }
        Ok(())
    });
    cx.cases("override", 300, 5000, |r, _, o| {
        // Explicit facts take precedence over parsed ones.
        let s = session(r);
        let w = s.wire(r);
        let bind = CertBinding::V1_2(CertBindingV1_2 { client_random: [1; 32], server_random: [2; 32], server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key: vec![4] } });
        let t = vfw::quiet(|| {
            TlsTranscript::builder().time(1).tls_sent(&w[0]).tls_recv(&w[1]).version(TlsVersion::V1_3).certificate_binding(bind).server_cert_chain(vec![]).server_signature(ServerSignature { alg: SignatureAlgorithm::ED25519, sig: vec![9] }).build().map_err(|e| e.to_string())
        })??;
        let CertBinding::V1_2(b) = t.certificate_binding() else { return Err("kind of binding".into()) };
        ensure_eq!((t.version(), b.client_random, t.server_cert_chain().map(|c| c.len()), t.server_signature().map(|s| s.sig.clone())), (TlsVersion::V1_3, [1; 32], Some(0), Some(vec![9])), "explicit facts");
        o.key(&w[0]);
        Ok(())
    });
    let fx = |n: &str| std::fs::read(format!("/repo/crates/core/src/transcript/fixtures/{n}.bin"));
    cx.cases("hostile", 6000, 100_000, |r, idx, o| {
        // Damaged streams: no crash, and whatever is accepted is made of the bytes that were there.
        let (mut w, app) = if idx % 4 == 0 {
            match (fx("tls_sent"), fx("tls_recv"), fx("tls_app_sent"), fx("tls_app_recv")) {
                (Ok(a), Ok(b), Ok(c), Ok(d)) => ([a, b], [c, d]),
                _ => return vfw::harness("fixture recordings are missing"),
            }
        } else {
            let s = session(r);
            (s.wire(r), s.app)
        };
        if idx == 0 {
            let t = build(&w, [Some(&app[0]), Some(&app[1])], 5)?.map_err(|e| format!("real recording refused: {e}"))?;
            ensure_eq!((t.sent().len(), t.recv().len()), (5, 5), "records of the real recording");
            let tr = t.to_transcript().map_err(|e| e.to_string())?;
            ensure_eq!((tr.sent(), tr.received()), (&app[0][..], &app[1][..]), "application data of the real recording");
            o.see("real recording");
        }
        for _ in 0..r.range(1, 3) {
            let d = r.below(2);
            let n = w[d].len();
            if n == 0 { continue; }
            match r.below(6) {
                0 => { let i = r.below(n); w[d][i] ^= 1 << r.below(8); }
                1 => { let i = r.below(n); w[d][i] = r.u8(); }
                2 => { let i = r.below(n); let k = r.range(1, 40).min(n - i); w[d].drain(i..i + k); }
                3 => { let i = r.below(n); let k = r.range(1, 9); let x = r.bytes(k); w[d].splice(i..i, x); }
                4 => { let i = r.below(n); w[d].truncate(i); }
                _ => { let i = r.below(n); let k = r.range(1, 60).min(n - i); let x = w[d][i..i + k].to_vec(); let j = r.below(n); w[d].splice(j..j, x); }
            }
        }
        o.key(w.concat());
        match build(&w, [Some(&app[0]), Some(&app[1])], 5)? {
            Err(_) => o.see("damaged refused"),
            Ok(t) => {
                o.see("damaged accepted");
                for (recs, raw, app) in [(t.sent(), &w[0], &app[0]), (t.recv(), &w[1], &app[1])] {
                    let mut from = 0;
                    let mut used = 0;
                    for (i, x) in recs.iter().enumerate() {
                        ensure_eq!(x.seq, i as u64, "sequence number of record {i}");
                        let tag = x.tag.clone().ok_or("tag missing")?;
                        ensure!(x.explicit_nonce.len() == 8 && tag.len() == 16, "parts of record {i}");
                        let all = [&x.explicit_nonce[..], &x.ciphertext, &tag].concat();
                        let at = raw[from..].windows(all.len()).position(|y| y == all).ok_or(format!("record {i} is not in the stream, or out of order"))?;
                        from += at + all.len();
                        if let Some(pt) = &x.plaintext {
                            ensure!(x.typ == ContentType::ApplicationData && app.get(used..used + pt.len()) == Some(&pt[..]) && pt.len() == x.ciphertext.len(), "plaintext of record {i}");
                            used += pt.len();
                        }
                    }
                    ensure!(recs.first().map(|x| x.typ) == Some(ContentType::Handshake), "first record");
                }
            }
        }
        Ok(())
    });
    for w in ["no ClientHello", "no ClientKeyExchange", "no ServerHello", "no Certificate", "no ServerKeyExchange", "no ServerHelloDone", "ClientHello not first", "group", "scheme", "version", "certificate key", "no Finished record", "Finished of another type", "short record", "short application data", "cut record", "unknown record type", "record version", "oversized record"] {
        cx.require(&format!("refused/{w}"), 20);
    }
    cx.require("complete", 300);
    cx.require("incomplete", 200);
    cx.require("ticket", 100);
    cx.require("records accepted", 300);
    cx.require("records refused", 300);
    cx.require("damaged accepted", 100);
    cx.require("real recording", 1);
}
