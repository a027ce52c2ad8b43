//! T01, T02, T15, T16, T19, T21: the TLS message codecs against the reference model.
use crate::{parse, registry, wire::*};
use std::collections::HashSet;
use tls_core::msgs::base::*;
use tls_core::msgs::codec::{Codec, Reader};
use tls_core::msgs::enums::*;
use tls_core::msgs::handshake as h;
use tls_core::msgs::handshake::{ConvertProtocolNameList, ConvertServerNameList, DecomposedSignatureScheme, HasServerExtensions};
use tls_core::msgs::message::*;
use vfw::{CaseResult, Cx, Obs, R, ensure, ensure_eq, hex, quiet, serde_json::json, with_peak};

fn dbg<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}")
}

/// Decodes through the public record-level entry point.
fn decode(enc: &[u8], vers: ProtocolVersion) -> Result<Result<h::HandshakeMessagePayload, String>, String> {
    quiet(|| match MessagePayload::new(ContentType::Handshake, vers, Payload(enc.to_vec())) {
        Ok(MessagePayload::Handshake(h)) => Ok(h),
        Ok(o) => Err(format!("decoded as {o:?}")),
        Err(e) => Err(format!("{e:?}")),
    })
}

fn other_version(r: &mut R) -> ProtocolVersion {
    *r.pick(&[
        ProtocolVersion::SSLv3,
        ProtocolVersion::TLSv1_0,
        ProtocolVersion::TLSv1_1,
        ProtocolVersion::TLSv1_2,
        ProtocolVersion::TLSv1_3,
        ProtocolVersion::Unknown(0x0305),
    ])
}

fn one_message(r: &mut R, m: &Msg, obs: &mut Obs) -> CaseResult {
    let enc = m.enc();
    obs.see(format!("msg/{}", m.name()));
    obs.key(&enc);
    let vers = if m.version_dependent() {
        if m.vers() == ProtocolVersion::TLSv1_3 {
            ProtocolVersion::TLSv1_3
        } else {
            loop {
                let v = other_version(r);
                if v != ProtocolVersion::TLSv1_3 {
                    break v;
                }
            }
        }
    } else {
        other_version(r)
    };
    let built = m.build();
    let want = dbg(&built);
    let got = decode(&enc, vers)?.map_err(|e| format!("well-formed message refused: {} {e} {}", m.name(), hex(&enc)))?;
    ensure_eq!(dbg(&got), want, "decoded fields differ ({})", m.name());
    ensure_eq!(hex(&got.get_encoding()), hex(&enc), "re-encoding differs from the received bytes ({})", m.name());
    ensure_eq!(hex(&built.get_encoding()), hex(&enc), "encoding of a built value differs from the specification ({})", m.name());
    // The message is delimited by its own length when more data follows.
    let tail = r.len(20);
    let mut long = enc.clone();
    long.extend(r.bytes(tail));
    let mut rd = Reader::init(&long);
    let again = h::HandshakeMessagePayload::read_version(&mut rd, vers).ok_or("well-formed message refused: with data following")?;
    ensure_eq!(rd.left(), tail, "bytes consumed by a message with data following ({})", m.name());
    ensure_eq!(dbg(&again), want, "decoded fields differ with data following ({})", m.name());
    // Through Message/PlainMessage conversions.
    let plain = PlainMessage::from(Message { version: vers, payload: MessagePayload::Handshake(m.build()) });
    ensure_eq!(plain.typ, ContentType::Handshake, "content type of a handshake");
    ensure_eq!(plain.version, vers, "version of a plain message");
    ensure_eq!(hex(&plain.payload.0), hex(&enc), "payload of a plain message");
    let op = plain.clone().into_unencrypted_opaque();
    ensure!(op.typ == plain.typ && op.version == plain.version && op.payload.0 == plain.payload.0, "opaque conversion changed the message");
    let back = op.into_plain_message();
    let b = back.borrow();
    ensure!(b.typ == ContentType::Handshake && b.version == vers && b.payload == &enc[..], "borrowed view differs from the message");
    let msg = Message::try_from(back).map_err(|e| format!("plain message refused: {e:?}"))?;
    ensure!(msg.is_handshake_type(built.typ), "is_handshake_type denies the message's own type");
    for t in 0..=255u8 {
        let ht = HandshakeType::from(t);
        ensure_eq!(msg.is_handshake_type(ht), ht == built.typ, "is_handshake_type({ht:?})");
    }
    match msg.payload {
        MessagePayload::Handshake(p) => ensure_eq!(dbg(&p), want, "fields after message conversion"),
        o => return Err(format!("content kind changed: {o:?}").into()),
    }
    Ok(())
}

pub fn t01(cx: &mut Cx) {
    cx.rule("Messages are generated from an independent typed grammar (every message kind, every extension kind, boundary lengths, unknown code points), encoded by the model's own encoder, decoded by the code and compared field by field (Debug) and byte by byte; non-trivial = a distinct encoding.");
    cx.assume("Opaque contents are at most 64 KiB per message in quick mode; code points beyond the registries are drawn at random.");
    cx.cases("messages", 24_000, 400_000, |r, idx, obs| {
        let max = *r.pick(&[4usize, 40, 40, 300, 3000]);
        let m = Gen { r, max }.msg(idx as usize % Gen::MSG_KINDS);
        if idx < 8 {
            obs.input(json!({"message": vfw::short(&dbg(&m))}));
        }
        one_message(r, &m, obs)
    });
    // every client/server extension alone and in every position
    cx.cases("extensions", 6_000, 60_000, |r, idx, obs| {
        let k = idx as usize % (Gen::CEXT_KINDS + Gen::SEXT_KINDS);
        let mut g = Gen { r, max: 600 };
        let m = if k < Gen::CEXT_KINDS {
            let mut c = g.ch();
            let e = g.cext(k);
            ext_alone(&e, obs)?;
            let p = g.r.below(c.exts.len() + 1);
            c.exts.insert(p, e);
            Msg::ClientHello(c)
        } else {
            let mut es = g.sexts(6);
            let e = g.sext(k - Gen::CEXT_KINDS);
            sext_alone(&e, obs)?;
            let p = g.r.below(es.len() + 1);
            es.insert(p, e);
            if g.r.bool() {
                Msg::EncExts(es)
            } else {
                Msg::ServerHello { ver: 0x303, random: g.r.arr(), sid: g.sid(), suite: 0xc02f, comp: 0, exts: es }
            }
        };
        one_message(r, &m, obs)
    });
    cx.cases("large", 60, 800, |r, idx, obs| {
        let m = match idx % 10 {
            0 => {
                // a list of exactly / nearly 64 KiB
                let total = 0x10000 - r.below(3);
                Msg::Certificate(vec![r.bytes(total - 3)])
            }
            1 => Msg::Certificate13(vec![], vec![(r.bytes(0x10000 - 5), vec![])]),
            2 => {
                let n = r.range(60000, 65535);
                Msg::ClientKx(r.bytes(n))
            }
            3 => Msg::CertStatus(r.bytes(0xffff + 40)),
            4 => Msg::CertVerify(0x804, r.bytes(65535)),
            5 => Msg::Ticket(r.u32(), r.bytes(65535)),
            6 => Msg::ClientHello(Ch { ver: 0x303, random: r.arr(), sid: r.bytes(32), suites: (0..32767).map(|i| i as u16).collect(), comps: vec![0; 255], exts: vec![CExt::Unknown(21, vec![0; 65531])] }),
            7 => Msg::Unknown(99, r.bytes(70_000)),
            8 => Msg::Certificate((0..2000).map(|i| vec![i as u8; 29]).collect()),
            _ => Msg::EncExts(vec![SExt::Unknown(99, r.bytes(65531))]),
        };
        obs.see("large message");
        one_message(r, &m, obs)
    });
    // sequences of messages read one after the other
    cx.cases("sequences", 400, 4_000, |r, _, obs| {
        let n = r.range(2, 12);
        let v13 = r.bool();
        let vers = if v13 { ProtocolVersion::TLSv1_3 } else { ProtocolVersion::TLSv1_2 };
        let mut ms = vec![];
        while ms.len() < n {
            let m = Gen { r, max: 100 }.any_msg();
            if !m.version_dependent() || m.vers() == vers {
                ms.push(m);
            }
        }
        let all: Vec<u8> = ms.iter().flat_map(|m| m.enc()).collect();
        obs.key(&all);
        let mut rd = Reader::init(&all);
        let mut used = 0;
        for (i, m) in ms.iter().enumerate() {
            let got = h::HandshakeMessagePayload::read_version(&mut rd, vers).ok_or_else(|| format!("well-formed message refused: {} at {i} of a sequence", m.name()))?;
            used += m.enc().len();
            ensure_eq!(rd.used(), used, "position after message {i} of a sequence");
            ensure_eq!(dbg(&got), dbg(&m.build()), "message {i} of a sequence");
        }
        ensure!(!rd.any_left(), "bytes left after a sequence of messages");
        Ok(())
    });
    // all alerts, all change-cipher-spec bodies, application data
    cx.cases("alerts", 1, 1, |_, _, obs| {
        for l in 0..=255u8 {
            for d in 0..=255u8 {
                let p = MessagePayload::new(ContentType::Alert, ProtocolVersion::TLSv1_2, Payload(vec![l, d])).map_err(|e| format!("alert refused: {l} {d} {e:?}"))?;
                let MessagePayload::Alert(ref a) = p else { return Err("alert decoded as something else".into()) };
                ensure_eq!((a.level.get_u8(), a.description.get_u8()), (l, d), "alert fields");
                let mut o = vec![];
                p.encode(&mut o);
                ensure_eq!(o, vec![l, d], "alert encoding");
                let m = PlainMessage::from(Message::build_alert(AlertLevel::from(l), AlertDescription::from(d)));
                ensure!(m.typ == ContentType::Alert && m.payload.0 == vec![l, d], "built alert has other bytes: {l} {d}");
            }
        }
        obs.evals(65536);
        obs.see("all 65536 alerts");
        let p = MessagePayload::new(ContentType::ChangeCipherSpec, ProtocolVersion::TLSv1_2, Payload(vec![1])).map_err(|_| "change cipher spec refused")?;
        let mut o = vec![];
        p.encode(&mut o);
        ensure_eq!(o, vec![1u8], "change-cipher-spec encoding");
        ensure_eq!(p.content_type(), ContentType::ChangeCipherSpec, "content type of change cipher spec");
        let ku = PlainMessage::from(Message::build_key_update_notify());
        ensure_eq!((ku.typ, ku.payload.0), (ContentType::Handshake, vec![24u8, 0, 0, 1, 0]), "key update notification");
        Ok(())
    });
    cx.cases("appdata", 200, 2_000, |r, _, obs| {
        let n = r.len(20_000);
        let b = r.bytes(n);
        obs.key(&b);
        let p = MessagePayload::new(ContentType::ApplicationData, other_version(r), Payload(b.clone())).map_err(|e| format!("application data refused: {e:?}"))?;
        let mut o = vec![];
        p.encode(&mut o);
        ensure!(o == b, "application data changed by decoding");
        let pm = PlainMessage::from(Message { version: ProtocolVersion::TLSv1_2, payload: p });
        ensure!(pm.typ == ContentType::ApplicationData && pm.payload.0 == b, "application data changed by conversion");
        Ok(())
    });
    for k in ["ClientHello", "ServerHello", "HelloRetryRequest", "Certificate", "CertificateTLS13", "ServerKeyExchange", "NewSessionTicketTLS13", "KeyUpdate", "Unknown"] {
        cx.require(&format!("msg/{k}"), 100);
    }
}

fn ext_alone(e: &CExt, obs: &mut Obs) -> CaseResult {
    let mut b = vec![];
    p16(&mut b, e.typ());
    v16(&mut b, &e.body());
    let got = quiet(|| h::ClientExtension::read_bytes(&b))?.ok_or_else(|| format!("well-formed client extension refused: {e:?}"))?;
    ensure_eq!(dbg(&got), dbg(&e.build()), "client extension fields");
    ensure_eq!(hex(&got.get_encoding()), hex(&b), "client extension encoding");
    ensure_eq!(got.get_type().get_u16(), e.typ(), "client extension type");
    obs.see(format!("cext/{}", e.typ()));
    Ok(())
}
fn sext_alone(e: &SExt, obs: &mut Obs) -> CaseResult {
    let mut b = vec![];
    p16(&mut b, e.typ());
    v16(&mut b, &e.body());
    let got = quiet(|| h::ServerExtension::read_bytes(&b))?.ok_or_else(|| format!("well-formed server extension refused: {e:?}"))?;
    ensure_eq!(dbg(&got), dbg(&e.build()), "server extension fields");
    ensure_eq!(hex(&got.get_encoding()), hex(&b), "server extension encoding");
    ensure_eq!(got.get_type().get_u16(), e.typ(), "server extension type");
    obs.see(if let SExt::Unknown(..) = e { "sext/unknown".into() } else { format!("sext/{}", e.typ()) });
    Ok(())
}

// ---------------------------------------------------------------- T02

/// Compares the decoder with the reference parser on arbitrary bytes.
fn differential(b: &[u8], vers: ProtocolVersion, obs: &mut Obs) -> CaseResult {
    let v13 = vers == ProtocolVersion::TLSv1_3;
    let want = parse::exact(b, v13);
    // exactly-sized heap copy: any over-read is visible to the address sanitizer
    let copy: Box<[u8]> = b.into();
    let (got, peak) = with_peak(|| decode(&copy, vers));
    let got = got?;
    let bound = 64 * 1024 + 256 * b.len();
    ensure!(peak <= bound, "decoding allocates out of proportion: {} bytes of heap for {} bytes of input {}", peak, b.len(), hex(b));
    match (&want, &got) {
        (None, Err(_)) => obs.see("refused"),
        (Some(m), Ok(g)) => {
            obs.see("accepted");
            ensure_eq!(dbg(g), dbg(&m.build()), "decoded fields of {}", hex(b));
            ensure_eq!(hex(&g.get_encoding()), hex(b), "accepted message does not account for every byte");
        }
        (Some(m), Err(e)) => return Err(format!("well-formed message refused: {e} {} {}", m.name(), hex(b)).into()),
        (None, Ok(g)) => return Err(format!("malformed message accepted: {} decoded as {}", hex(b), vfw::short(&dbg(g))).into()),
    }
    Ok(())
}

fn mutate(r: &mut R, b: &mut Vec<u8>) -> &'static str {
    match r.below(12) {
        0 => {
            let n = r.below(b.len() + 1);
            b.truncate(n);
            "truncate"
        }
        1 => {
            let n = r.range(1, 9);
            let t = r.bytes(n);
            b.extend(t);
            "append"
        }
        2 if !b.is_empty() => {
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
            "bit"
        }
        3 if !b.is_empty() => {
            let i = r.below(b.len());
            b[i] = *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, 3, 0x20, 0x21]);
            "byte"
        }
        4 if !b.is_empty() => {
            let i = r.below(b.len());
            b[i] = b[i].wrapping_add(1);
            "inc"
        }
        5 if !b.is_empty() => {
            let i = r.below(b.len());
            b[i] = b[i].wrapping_sub(1);
            "dec"
        }
        6 => {
            let i = r.below(b.len() + 1);
            b.insert(i, r.u8());
            "insert"
        }
        7 if !b.is_empty() => {
            let i = r.below(b.len());
            b.remove(i);
            "delete"
        }
        8 if b.len() > 4 => {
            // insert and fix the outer length
            let i = r.range(4, b.len());
            b.insert(i, r.u8());
            fix_len(b);
            "insert+fix"
        }
        9 if b.len() > 5 => {
            let i = r.range(4, b.len() - 1);
            b.remove(i);
            fix_len(b);
            "delete+fix"
        }
        10 if b.len() > 4 => {
            let n = r.range(4, b.len());
            b.truncate(n);
            fix_len(b);
            "truncate+fix"
        }
        _ => {
            let n = r.range(1, 9);
            let t = r.bytes(n);
            b.extend(t);
            fix_len(b);
            "append+fix"
        }
    }
}
fn fix_len(b: &mut Vec<u8>) {
    if b.len() >= 4 {
        let n = b.len() - 4;
        b[1] = (n >> 16) as u8;
        b[2] = (n >> 8) as u8;
        b[3] = n as u8;
    }
}

pub fn t02(cx: &mut Cx) {
    cx.rule("Byte strings are valid model messages with one to three structural mutations (truncation, trailing bytes, length-field and byte changes, with and without outer-length repair), every prefix of small messages, every single-byte perturbation of small messages, and unstructured bytes; the decoder's verdict and fields are compared with an independent reference parser, its allocation with a linear bound; non-trivial = a distinct mutated input.");
    cx.assume("Heap bound: 64 KiB + 256 bytes per input byte.");
    cx.cases("mutations", 60_000, 1_500_000, |r, idx, obs| {
        let max = *r.pick(&[3usize, 12, 40, 200]);
        let m = Gen { r, max }.msg(idx as usize % Gen::MSG_KINDS);
        let mut b = m.enc();
        let k = *r.pick(&[1usize, 1, 1, 2, 3]);
        for _ in 0..k {
            let w = mutate(r, &mut b);
            obs.see(format!("mutation/{w}"));
        }
        obs.key(&b);
        if idx < 8 {
            obs.input(json!({"kind": m.name(), "mutated": hex(&b)}));
        }
        differential(&b, if r.chance(1, 4) { other_version(r) } else { m.vers() }, obs)
    });
    // one inner vector emptied, cut, extended or mis-measured, all enclosing lengths following
    cx.cases("inner vectors", 40_000, 800_000, |r, idx, obs| {
        let max = *r.pick(&[3usize, 3, 12, 40]);
        let m = Gen { r, max }.msg(idx as usize % Gen::MSG_KINDS);
        let (_, n) = spoiling(None, || m.enc());
        if n == 0 {
            return Ok(());
        }
        let sp = Spoil { kind: r.below(SPOILS as usize) as u8, at: r.u32(), byte: if r.bool() { r.below(4) as u8 } else { r.u8() } };
        let nth = r.below(n);
        let b = spoiling(Some((nth, sp)), || m.enc()).0;
        obs.key(&b);
        obs.see(format!("spoiled/{}", sp.kind));
        differential(&b, m.vers(), obs)
    });
    // every vector emptied, in small messages of every kind
    cx.cases("empty vectors", 2_000, 30_000, |r, idx, obs| {
        let m = Gen { r, max: 12 }.msg(idx as usize % Gen::MSG_KINDS);
        let (_, n) = spoiling(None, || m.enc());
        for nth in 0..n.min(60) {
            for kind in [0u8, 2, 4, 5] {
                let b = spoiling(Some((nth, Spoil { kind, at: 0, byte: 0 })), || m.enc()).0;
                differential(&b, m.vers(), obs)?;
            }
        }
        obs.evals(4 * n.min(60) as u64);
        obs.key(m.enc());
        Ok(())
    });
    cx.cases("prefixes", 1_200, 20_000, |r, idx, obs| {
        let m = Gen { r, max: 12 }.msg(idx as usize % Gen::MSG_KINDS);
        let b = m.enc();
        let b = &b[..b.len().min(400)];
        for n in 0..=b.len() {
            differential(&b[..n], m.vers(), obs)?;
            if n > 4 {
                let mut p = b[..n].to_vec();
                fix_len(&mut p);
                differential(&p, m.vers(), obs)?;
            }
        }
        obs.evals(2 * b.len() as u64);
        obs.key(b);
        Ok(())
    });
    cx.cases("perturb", 400, 8_000, |r, idx, obs| {
        let m = Gen { r, max: 6 }.msg(idx as usize % Gen::MSG_KINDS);
        let mut b = m.enc();
        b.truncate(160);
        fix_len(&mut b);
        for i in 0..b.len() {
            let old = b[i];
            for v in [old.wrapping_add(1), old.wrapping_sub(1), 0, 0xff, old ^ 0x80] {
                b[i] = v;
                differential(&b, m.vers(), obs)?;
            }
            b[i] = old;
        }
        obs.evals(5 * b.len() as u64);
        obs.key(&b);
        Ok(())
    });
    cx.cases("garbage", 12_000, 300_000, |r, _, obs| {
        let n = r.len(300);
        let mut b = r.bytes(n);
        for x in b.iter_mut() {
            if r.chance(1, 2) {
                *x = (*x as usize % 6) as u8;
            }
        }
        if b.len() >= 4 {
            b[0] = *r.pick(&[1u8, 2, 4, 8, 11, 12, 13, 14, 15, 20, 22, 24]);
            if r.chance(9, 10) {
                fix_len(&mut b);
            }
        }
        obs.key(&b);
        differential(&b, other_version(r), obs)
    });
    // every content type: only what the type allows, and all of it
    cx.cases("payloads", 20_000, 200_000, |r, _, obs| {
        let n = r.below(6);
        let mut b = r.bytes(n);
        for x in b.iter_mut() {
            if r.bool() {
                *x %= 3;
            }
        }
        let t = if r.chance(1, 2) { 20 + r.below(5) as u8 } else { r.u8() };
        obs.key([&[t], &b[..]].concat());
        let got = quiet(|| MessagePayload::new(ContentType::from(t), ProtocolVersion::TLSv1_2, Payload(b.clone())))?;
        let ok = match t {
            20 => b == [1],
            21 => b.len() == 2,
            22 => parse::exact(&b, false).is_some(),
            23 => true,
            _ => false,
        };
        ensure_eq!(got.is_ok(), ok, "verdict on a payload of content type {t}: {}", hex(&b));
        if let Ok(p) = got {
            let mut o = vec![];
            p.encode(&mut o);
            ensure!(o == b, "accepted payload does not account for every byte: type {t} {}", hex(&b));
            obs.see("payload accepted");
        }
        Ok(())
    });
    // the primitive length-prefixed readers
    cx.cases("vectors", 30_000, 300_000, |r, _, obs| {
        let n = r.len(40);
        let mut b = r.bytes(n);
        let w = r.range(1, 3);
        if b.len() >= w {
            let real = b.len() - w;
            let len = match r.below(4) {
                0 => real,
                1 => real + 1,
                2 => real.saturating_sub(1),
                _ => r.len(40),
            };
            for i in 0..w {
                b[i] = (len >> (8 * (w - 1 - i))) as u8;
            }
        }
        obs.key([&[w as u8], &b[..]].concat());
        let split = |w: usize| -> Option<&[u8]> {
            if b.len() < w {
                return None;
            }
            let mut l = 0usize;
            for x in &b[..w] {
                l = l * 256 + *x as usize;
            }
            b.get(w..w + l)
        };
        macro_rules! chk {
            ($w:expr, $t:ty, $name:expr) => {{
                let got = quiet(|| {
                    let mut rd = Reader::init(&b);
                    let v = <$t>::read(&mut rd);
                    (v, rd.used())
                })?;
                match (split($w), got) {
                    (None, (None, _)) => {}
                    (Some(x), (Some(v), u)) => {
                        ensure!(v.0 == x, "{} content differs for {}", $name, hex(&b));
                        ensure_eq!(u, $w + x.len(), "{} bytes consumed", $name);
                        ensure!(v.get_encoding() == b[..u], "{} encoding differs", $name);
                        obs.see("vector accepted");
                    }
                    (a, g) => return Err(format!("{} verdict: reference {:?} decoder {:?} on {}", $name, a, g, hex(&b)).into()),
                }
            }};
        }
        chk!(1, PayloadU8, "PayloadU8");
        chk!(2, PayloadU16, "PayloadU16");
        chk!(3, PayloadU24, "PayloadU24");
        chk!(3, tls_core::key::Certificate, "Certificate");
        let s = quiet(|| h::SessionID::read_bytes(&b))?;
        let want = split(1).filter(|x| x.len() <= 32);
        ensure_eq!(s.as_ref().map(|s| hex(&s.get_encoding()[1..])), want.map(hex), "session id of {}", hex(&b));
        if let Some(s) = s {
            ensure_eq!((s.len(), s.is_empty()), (want.unwrap().len(), want.unwrap().is_empty()), "session id length");
        }
        Ok(())
    });
    // numbers, lists and the reader itself
    cx.cases("primitives", 6_000, 60_000, |r, _, obs| {
        use tls_core::msgs::codec::*;
        let n = r.len(24);
        let b = r.bytes(n);
        obs.key(&b);
        macro_rules! num {
            ($t:ty, $w:expr, $v:expr) => {{
                let mut rd = Reader::init(&b);
                let got = <$t>::read(&mut rd);
                ensure_eq!(got.is_some(), b.len() >= $w, "verdict on a number of {} bytes from {}", $w, b.len());
                if let Some(x) = got {
                    let want = b[..$w].iter().fold(0u64, |a, c| a << 8 | *c as u64);
                    ensure_eq!($v(&x), want, "number of {} bytes", $w);
                    ensure_eq!(rd.used(), $w, "bytes of a number of {} bytes", $w);
                    ensure_eq!(hex(&x.get_encoding()), hex(&b[..$w]), "encoding of a number of {} bytes", $w);
                    obs.see("number read");
                }
            }};
        }
        num!(u8, 1, |x: &u8| *x as u64);
        num!(u16, 2, |x: &u16| *x as u64);
        num!(u24, 3, |x: &u24| x.0 as u64);
        num!(u32, 4, |x: &u32| *x as u64);
        num!(u64, 8, |x: &u64| *x);
        // lists of two-byte items
        let items: Vec<u16> = (0..r.below(120)).map(|_| r.u16()).collect();
        let body: Vec<u8> = items.iter().flat_map(|x| x.to_be_bytes()).collect();
        let pre = r.below(4);
        let w = r.range(1, 3);
        let mut out = vec![7u8; pre];
        match w {
            1 => encode_vec_u8(&mut out, &items),
            2 => encode_vec_u16(&mut out, &items),
            _ => encode_vec_u24(&mut out, &items),
        }
        let want = [&vec![7u8; pre][..], &(body.len() as u32).to_be_bytes()[4 - w..], &body].concat();
        ensure_eq!(hex(&out), hex(&want), "list with {w} bytes of length after {pre} others");
        let mut enc = want[pre..].to_vec();
        // sometimes the length lies
        let said = match r.below(4) {
            0 => (body.len() + r.range(1, 3)).min(255),
            1 => body.len().saturating_sub(r.range(1, 3)),
            _ => body.len(),
        };
        for i in 0..w {
            enc[i] = (said >> (8 * (w - 1 - i))) as u8;
        }
        let cap = *r.pick(&[said, said + 1, said.saturating_sub(1), 1 << 16]);
        let mut rd = Reader::init(&enc);
        let got: Option<Vec<u16>> = match w {
            1 => read_vec_u8(&mut rd),
            2 => read_vec_u16(&mut rd),
            _ => read_vec_u24_limited(&mut rd, cap),
        };
        let ok = said <= body.len() && said % 2 == 0 && (w < 3 || said <= cap);
        ensure_eq!(got.is_some(), ok, "verdict on a list of {said} of {} bytes, limit {cap}", body.len());
        if let Some(v) = got {
            ensure!(v == items[..said / 2], "a list is read as another one");
            ensure_eq!(rd.used(), w + said, "bytes of a list");
        }
        // a walk with the reader
        let mut rd = Reader::init(&b);
        let mut at = 0;
        for _ in 0..6 {
            ensure_eq!((rd.used(), rd.left(), rd.any_left()), (at, b.len() - at, at < b.len()), "state of the reader");
            let k = r.below(10);
            match r.below(5) {
                0 => {
                    ensure!(rd.rest() == &b[at..], "rest of the reader");
                    at = b.len();
                }
                1 => {
                    let x = rd.sub(k).map(|mut s| (s.left(), s.rest().to_vec()));
                    ensure_eq!(x, b.get(at..at + k).map(|x| (k, x.to_vec())), "part of {k} at {at} of {}", b.len());
                    at += if at + k <= b.len() { k } else { 0 };
                }
                _ => {
                    ensure_eq!(rd.take(k), b.get(at..at + k), "{k} bytes at {at} of {}", b.len());
                    at += if at + k <= b.len() { k } else { 0 };
                }
            }
        }
        Ok(())
    });
    cx.cases("extensions", 20_000, 300_000, |r, idx, obs| {
        let mut g = Gen { r, max: 20 };
        let client = idx % 2 == 0;
        let (t, mut body) = if client {
            let k = g.r.below(Gen::CEXT_KINDS);
            let e = g.cext(k);
            (e.typ(), e.body())
        } else {
            let k = g.r.below(Gen::SEXT_KINDS);
            let e = g.sext(k);
            (e.typ(), e.body())
        };
        match r.below(5) {
            0 => {
                let n = r.below(body.len() + 1);
                body.truncate(n)
            }
            1 => body.push(r.u8()),
            2 if !body.is_empty() => {
                let i = r.below(body.len());
                body[i] = body[i].wrapping_add(*r.pick(&[1u8, 255, 128]));
            }
            3 if !body.is_empty() => {
                let i = r.below(body.len());
                body.remove(i);
            }
            _ => {}
        }
        let mut b = vec![];
        p16(&mut b, t);
        v16(&mut b, &body);
        obs.key(&b);
        if client {
            let want = parse::ext_client(&b);
            let got = quiet(|| h::ClientExtension::read_bytes(&b))?;
            ensure_eq!(got.as_ref().map(dbg), want.as_ref().map(|e| dbg(&e.build())), "client extension {}", hex(&b));
            if let Some(g) = got {
                ensure!(g.get_encoding() == b, "client extension does not account for every byte: {}", hex(&b));
                obs.see("extension accepted");
            }
        } else {
            let want = parse::ext_server(&b);
            let got = quiet(|| h::ServerExtension::read_bytes(&b))?;
            ensure_eq!(got.as_ref().map(dbg), want.as_ref().map(|e| dbg(&e.build())), "server extension {}", hex(&b));
            if let Some(g) = got {
                ensure!(g.get_encoding() == b, "server extension does not account for every byte: {}", hex(&b));
                obs.see("extension accepted");
            }
        }
        Ok(())
    });
    // lists just above and at the 64 KiB cap
    cx.cases("caps", 24, 100, |r, idx, obs| {
        let extra = idx as usize % 4;
        let v13 = r.bool();
        let n = 0x10000 - 3 - if v13 { 2 } else { 0 } + extra;
        let m = if v13 { Msg::Certificate13(vec![], vec![(vec![7; n], vec![])]) } else { Msg::Certificate(vec![vec![7; n]]) };
        let b = m.enc();
        obs.key([extra as u8, v13 as u8]);
        obs.see(if extra == 0 { "list at cap" } else { "list over cap" });
        differential(&b, m.vers(), obs)
    });
    cx.require("refused", 1000);
    cx.require("accepted", 1000);
    cx.require("payload accepted", 100);
    cx.require("vector accepted", 100);
}

// ---------------------------------------------------------------- T15

fn first<'a, T, U>(xs: &'a [T], f: impl Fn(&'a T) -> Option<U>) -> Option<U> {
    xs.iter().find_map(f)
}
fn dup(types: impl Iterator<Item = u16>) -> bool {
    let mut s = HashSet::new();
    for t in types {
        if !s.insert(t) {
            return true;
        }
    }
    false
}

fn q_client(r: &mut R, c: &Ch, obs: &mut Obs) -> CaseResult {
    let m = Msg::ClientHello(c.clone());
    let dec = decode(&m.enc(), ProtocolVersion::TLSv1_2)?.map_err(|e| format!("well-formed message refused: {e}"))?;
    let h::HandshakePayload::ClientHello(p) = dec.payload else { return Err("hello decoded as something else".into()) };
    let types: Vec<u16> = c.exts.iter().map(|e| e.typ()).collect();
    ensure_eq!(p.has_duplicate_extension(), dup(types.iter().copied()), "client hello duplicate extensions {types:?}");
    for t in types.iter().copied().chain([0, 10, 16, 41, 51, 0xff01, r.u16()]) {
        let want = c.exts.iter().find(|e| e.typ() == t).map(|e| dbg(&e.build()));
        ensure_eq!(p.find_extension(ExtensionType::from(t)).map(dbg), want, "find_extension({t})");
    }
    macro_rules! q {
        ($get:ident, $what:expr, $f:expr) => {{
            let want: Option<String> = first(&c.exts, $f);
            let got = p.$get().map(|x| dbg(&x));
            ensure_eq!(got, want, "{}", $what);
            if want.is_some() {
                obs.see(format!("present/{}", $what));
            } else {
                obs.see(format!("absent/{}", $what));
            }
        }};
    }
    q!(get_sni_extension, "sni", |e| match (e, e.build()) {
        (CExt::Sni(..), h::ClientExtension::ServerName(x)) => Some(dbg(&x)),
        _ => None,
    });
    q!(get_sigalgs_extension, "signature schemes", |e| match e {
        CExt::SigAlgs(x) => Some(dbg(&x.iter().map(|v| SignatureScheme::from(*v)).collect::<Vec<_>>())),
        _ => None,
    });
    q!(get_namedgroups_extension, "groups", |e| match e {
        CExt::Groups(x) => Some(dbg(&x.iter().map(|v| NamedGroup::from(*v)).collect::<Vec<_>>())),
        _ => None,
    });
    q!(get_ecpoints_extension, "point formats", |e| match e {
        CExt::PointFormats(x) => Some(dbg(&x.iter().map(|v| ECPointFormat::from(*v)).collect::<Vec<_>>())),
        _ => None,
    });
    q!(get_alpn_extension, "protocols", |e| match e {
        CExt::Alpn(x) => Some(dbg(&x.iter().map(|v| PayloadU8(v.clone())).collect::<Vec<_>>())),
        _ => None,
    });
    q!(get_ticket_extension, "ticket", |e| match e {
        CExt::Ticket(_) => Some(dbg(&e.build())),
        _ => None,
    });
    q!(get_versions_extension, "versions", |e| match e {
        CExt::Versions(x) => Some(dbg(&x.iter().map(|v| ProtocolVersion::from(*v)).collect::<Vec<_>>())),
        _ => None,
    });
    q!(get_keyshare_extension, "key shares", |e| match (e, e.build()) {
        (CExt::KeyShare(_), h::ClientExtension::KeyShare(x)) => Some(dbg(&x)),
        _ => None,
    });
    q!(get_psk, "psk", |e| match (e, e.build()) {
        (CExt::Psk(..), h::ClientExtension::PresharedKey(x)) => Some(dbg(&x)),
        _ => None,
    });
    q!(get_psk_modes, "psk modes", |e| match e {
        CExt::PskModes(x) => Some(dbg(&x.iter().map(|v| PSKKeyExchangeMode::from(*v)).collect::<Vec<_>>())),
        _ => None,
    });
    for mode in [0u8, 1, 2, r.u8()] {
        let want = first(&c.exts, |e| if let CExt::PskModes(x) = e { Some(x.contains(&mode)) } else { None }).unwrap_or(false);
        ensure_eq!(p.psk_mode_offered(PSKKeyExchangeMode::from(mode)), want, "psk_mode_offered({mode})");
    }
    let ks_dup = first(&c.exts, |e| if let CExt::KeyShare(x) = e { Some(dup(x.iter().map(|k| k.0))) } else { None }).unwrap_or(false);
    ensure_eq!(p.has_keyshare_extension_with_duplicates(), ks_dup, "duplicate key shares");
    if ks_dup {
        obs.see("duplicate key share");
    }
    ensure_eq!(p.check_psk_ext_is_last(), c.exts.last().is_some_and(|e| e.typ() == 41), "psk is last");
    // a mandatory-empty extension with content is malformed; presence is only checked for well-formed ones
    if !c.exts.iter().any(|e| matches!(e, CExt::Unknown(23, _))) {
        ensure_eq!(p.ems_support_offered(), c.exts.iter().any(|e| *e == CExt::Ems), "extended master secret offered");
    }
    if !c.exts.iter().any(|e| matches!(e, CExt::Unknown(42, _))) {
        ensure_eq!(p.early_data_extension_offered(), c.exts.iter().any(|e| *e == CExt::EarlyData), "early data offered");
    }
    if let Some(l) = p.get_sni_extension() {
        let (names, tail) = first(&c.exts, |e| if let CExt::Sni(n, t) = e { Some((n.clone(), t.clone())) } else { None }).unwrap();
        let single = l.get_single_hostname().map(|d| d.as_ref().to_string());
        ensure_eq!(single, names.first().cloned(), "single host name");
        let mut ts: Vec<u8> = vec![0; names.len()];
        ts.extend(tail.iter().map(|t| t.0));
        ensure_eq!(l.has_duplicate_names_for_type(), dup(ts.iter().map(|t| *t as u16)), "duplicate names for type");
    }
    if let Some(l) = p.get_alpn_extension() {
        let want = first(&c.exts, |e| if let CExt::Alpn(x) = e { Some(x.clone()) } else { None }).unwrap();
        ensure_eq!(l.to_slices().iter().map(|x| x.to_vec()).collect::<Vec<_>>(), want, "protocol names");
        ensure_eq!(l.as_single_slice().map(|x| x.to_vec()), if want.len() == 1 { Some(want[0].clone()) } else { None }, "single protocol");
        let sl: Vec<&[u8]> = want.iter().map(|x| &x[..]).collect();
        ensure_eq!(dbg(&h::ProtocolNameList::from_slices(&sl)), dbg(l), "protocol list built from slices");
    }
    // a hello with nothing of it
    let mut none = c.clone();
    none.exts.clear();
    let p = build_ch(&none);
    ensure!(!p.check_psk_ext_is_last() && !p.has_duplicate_extension() && !p.ems_support_offered() && !p.early_data_extension_offered() && p.find_extension(ExtensionType::PreSharedKey).is_none(), "a hello without extensions has some");
    Ok(())
}

fn q_server_exts(p: &dyn HasSe, exts: &[SExt], r: &mut R) -> CaseResult {
    ensure_eq!(p.dupl(), dup(exts.iter().map(|e| e.typ())), "server extensions duplicate");
    for t in exts.iter().map(|e| e.typ()).chain([0, 16, 43, 51, r.u16()]) {
        let want = exts.iter().find(|e| e.typ() == t).map(|e| dbg(&e.build()));
        ensure_eq!(p.find(t), want, "server find_extension({t})");
    }
    let alpn = first(exts, |e| if let SExt::Alpn(x) = e { Some(x.clone()) } else { None });
    let want = alpn.filter(|x| x.len() == 1).map(|x| x[0].clone());
    ensure_eq!(p.alpn(), want, "chosen protocol");
    ensure_eq!(p.early(), exts.iter().any(|e| *e == SExt::EarlyData), "server early data");
    Ok(())
}
trait HasSe {
    fn dupl(&self) -> bool;
    fn find(&self, t: u16) -> Option<String>;
    fn alpn(&self) -> Option<Vec<u8>>;
    fn early(&self) -> bool;
}
impl<T: HasServerExtensions> HasSe for T {
    fn dupl(&self) -> bool {
        self.has_duplicate_extension()
    }
    fn find(&self, t: u16) -> Option<String> {
        self.find_extension(ExtensionType::from(t)).map(dbg)
    }
    fn alpn(&self) -> Option<Vec<u8>> {
        self.get_alpn_protocol().map(|x| x.to_vec())
    }
    fn early(&self) -> bool {
        self.early_data_extension_offered()
    }
}

pub fn t15(cx: &mut Cx) {
    cx.rule("Hellos and other extension carriers with random extension lists (absent, present, repeated, re-ordered, lists of 0..n entries) are decoded from bytes and every accessor is compared with the answer computed from the model's extension list; non-trivial = a distinct message.");
    cx.cases("client hello", 12_000, 200_000, |r, idx, obs| {
        let mut g = Gen { r, max: 40 };
        let mut c = g.ch();
        if idx % 3 == 0 {
            // force a repetition, possibly with different content
            let i = g.r.below(c.exts.len());
            let k = g.r.below(Gen::CEXT_KINDS);
            let e = if g.r.bool() { c.exts[i].clone() } else { g.cext(k) };
            let j = g.r.below(c.exts.len() + 1);
            c.exts.insert(j, e);
            if g.r.bool() {
                let e = c.exts[j].clone();
                c.exts.push(e);
            }
        }
        if idx % 5 == 0 {
            let n = g.r.range(2, 5);
            let mut ks: Vec<(u16, Vec<u8>)> = (0..n).map(|i| (0x1d + i as u16, vec![i as u8; i])).collect();
            if g.r.bool() {
                let i = g.r.below(n);
                let j = g.r.below(n);
                ks[i].0 = ks[j].0;
            }
            c.exts.insert(0, CExt::KeyShare(ks));
        }
        obs.key(Msg::ClientHello(c.clone()).enc());
        if idx < 8 {
            obs.input(json!({"hello": vfw::short(&dbg(&c))}));
        }
        q_client(r, &c, obs)
    });
    // name lists with several name types in any order, as values
    cx.cases("name lists", 3_000, 40_000, |r, _, obs| {
        let n = r.below(7);
        let kinds: Vec<u8> = (0..n).map(|_| *r.pick(&[0u8, 0, 1, 2, 3, 255])).collect();
        let mut names = vec![];
        let l: h::ServerNameRequest = kinds
            .iter()
            .map(|k| h::ServerName {
                typ: ServerNameType::from(*k),
                payload: if *k == 0 {
                    let s = format!("h{}.example", r.below(1000));
                    names.push(s.clone());
                    h::ServerNamePayload::new_hostname(rustls_pki_types::DnsName::try_from(s).unwrap())
                } else {
                    let k = r.below(9);
                    h::ServerNamePayload::Unknown(Payload(r.bytes(k)))
                },
            })
            .collect();
        ensure_eq!(l.has_duplicate_names_for_type(), dup(kinds.iter().map(|t| *t as u16)), "duplicate names for type ({kinds:?})");
        ensure_eq!(l.get_single_hostname().map(|d| d.as_ref().to_string()), names.first().cloned(), "first host name of {kinds:?}");
        obs.see(if dup(kinds.iter().map(|t| *t as u16)) { "name list repeats a type" } else { "name list" });
        obs.key(format!("{kinds:?}{names:?}"));
        Ok(())
    });
    cx.cases("server hello", 8_000, 100_000, |r, idx, obs| {
        let mut g = Gen { r, max: 40 };
        let mut exts = g.sexts(8);
        if idx % 3 == 0 && !exts.is_empty() {
            let i = g.r.below(exts.len());
            let e = exts[i].clone();
            exts.push(e);
        }
        if idx % 2 == 0 {
            let m = Msg::EncExts(exts.clone());
            obs.key(m.enc());
            let dec = decode(&m.enc(), ProtocolVersion::TLSv1_3)?.map_err(|e| format!("well-formed message refused: {e}"))?;
            let h::HandshakePayload::EncryptedExtensions(p) = dec.payload else { return Err("extensions decoded as something else".into()) };
            return q_server_exts(&p, &exts, r);
        }
        let m = Msg::ServerHello { ver: 0x303, random: g.r.arr(), sid: vec![], suite: 0xc02f, comp: 0, exts: exts.clone() };
        obs.key(m.enc());
        let dec = decode(&m.enc(), ProtocolVersion::TLSv1_2)?.map_err(|e| format!("well-formed message refused: {e}"))?;
        let h::HandshakePayload::ServerHello(p) = dec.payload else { return Err("hello decoded as something else".into()) };
        q_server_exts(&p, &exts, r)?;
        ensure_eq!(p.get_key_share().map(dbg), first(&exts, |e| match (e, e.build()) { (SExt::KeyShare(..), h::ServerExtension::KeyShare(k)) => Some(dbg(&k)), _ => None }), "server key share");
        ensure_eq!(p.get_psk_index(), first(&exts, |e| if let SExt::Psk(x) = e { Some(*x) } else { None }), "psk index");
        ensure_eq!(p.get_ecpoints_extension().map(dbg), first(&exts, |e| if let SExt::PointFormats(x) = e { Some(dbg(&x.iter().map(|v| ECPointFormat::from(*v)).collect::<Vec<_>>())) } else { None }), "server point formats");
        ensure_eq!(p.ems_support_acked(), exts.iter().any(|e| *e == SExt::Ems), "extended master secret acked");
        ensure_eq!(p.get_sct_list().map(dbg), first(&exts, |e| if let SExt::Sct(x) = e { Some(dbg(&x.iter().map(|v| PayloadU16(v.clone())).collect::<Vec<_>>())) } else { None }), "sct list");
        ensure_eq!(p.get_supported_versions(), first(&exts, |e| if let SExt::Version(x) = e { Some(ProtocolVersion::from(*x)) } else { None }), "selected version");
        for e in &exts {
            obs.see(if let SExt::Unknown(..) = e { "sext/unknown".into() } else { format!("sext/{}", e.typ()) });
        }
        Ok(())
    });
    cx.cases("retry request", 4_000, 40_000, |r, idx, obs| {
        let mut g = Gen { r, max: 40 };
        let n = g.r.below(6);
        let mut exts: Vec<HExt> = (0..n).map(|_| g.hext()).collect();
        if idx % 3 == 0 && n > 0 {
            let e = exts[0].clone();
            exts.push(e);
        }
        let m = Msg::Hrr { ver: 0x303, sid: vec![], suite: 0x1301, exts: exts.clone() };
        obs.key(m.enc());
        let dec = decode(&m.enc(), ProtocolVersion::TLSv1_2)?.map_err(|e| format!("well-formed message refused: {e}"))?;
        let h::HandshakePayload::HelloRetryRequest(p) = dec.payload else { return Err("retry request decoded as something else".into()) };
        ensure_eq!(p.has_duplicate_extension(), dup(exts.iter().map(|e| e.typ())), "retry request duplicates");
        ensure_eq!(p.has_unknown_extension(), exts.iter().any(|e| matches!(e, HExt::Unknown(..))), "retry request unknown extension");
        ensure_eq!(p.get_requested_key_share_group(), first(&exts, |e| if let HExt::KeyShare(x) = e { Some(NamedGroup::from(*x)) } else { None }), "requested group");
        ensure_eq!(p.get_cookie().map(|x| x.0.clone()), first(&exts, |e| if let HExt::Cookie(x) = e { Some(x.clone()) } else { None }), "cookie");
        ensure_eq!(p.get_supported_versions(), first(&exts, |e| if let HExt::Version(x) = e { Some(ProtocolVersion::from(*x)) } else { None }), "retry version");
        obs.see("retry request");
        Ok(())
    });
    cx.cases("certificates", 4_000, 40_000, |r, idx, obs| {
        let mut g = Gen { r, max: 60 };
        let n = g.r.below(4);
        let entries: Vec<(Vec<u8>, Vec<CertExt>)> = (0..n)
            .map(|_| {
                let k = g.r.below(4);
                let mut e: Vec<CertExt> = (0..k).map(|_| g.certext()).collect();
                if idx % 4 == 0 && k > 0 {
                    let d = e[0].clone();
                    e.push(d);
                }
                let l = g.r.len(50);
                (g.r.bytes(l), e)
            })
            .collect();
        let m = Msg::Certificate13(vec![], entries.clone());
        obs.key(m.enc());
        let dec = decode(&m.enc(), ProtocolVersion::TLSv1_3)?.map_err(|e| format!("well-formed message refused: {e}"))?;
        let h::HandshakePayload::CertificateTLS13(p) = dec.payload else { return Err("certificate decoded as something else".into()) };
        let edup = |e: &Vec<CertExt>| dup(e.iter().map(|x| x.typ()));
        let eunk = |e: &Vec<CertExt>| e.iter().any(|x| matches!(x, CertExt::Unknown(..)));
        ensure_eq!(p.any_entry_has_duplicate_extension(), entries.iter().any(|e| edup(&e.1)), "any entry duplicates");
        ensure_eq!(p.any_entry_has_unknown_extension(), entries.iter().any(|e| eunk(&e.1)), "any entry unknown");
        ensure_eq!(p.any_entry_has_extension(), entries.iter().any(|e| !e.1.is_empty()), "any entry has extension");
        let ocsp = |e: &Vec<CertExt>| first(e, |x| if let CertExt::Ocsp(b) = x { Some(b.clone()) } else { None });
        let scts = |e: &Vec<CertExt>| first(e, |x| if let CertExt::Sct(l) = x { Some(dbg(&l.iter().map(|v| PayloadU16(v.clone())).collect::<Vec<_>>())) } else { None });
        ensure_eq!(p.get_end_entity_ocsp(), entries.first().and_then(|e| ocsp(&e.1)).unwrap_or_default(), "end-entity status");
        ensure_eq!(p.get_end_entity_scts().as_ref().map(dbg), entries.first().and_then(|e| scts(&e.1)), "end-entity scts");
        ensure_eq!(p.convert().iter().map(|c| c.0.clone()).collect::<Vec<_>>(), entries.iter().map(|e| e.0.clone()).collect::<Vec<_>>(), "converted chain");
        for (i, e) in entries.iter().enumerate() {
            let ce = &p.entries[i];
            ensure_eq!(ce.has_duplicate_extension(), edup(&e.1), "entry duplicates");
            ensure_eq!(ce.has_unknown_extension(), eunk(&e.1), "entry unknown extension");
            ensure_eq!(ce.get_ocsp_response().cloned(), ocsp(&e.1), "entry status");
            ensure_eq!(ce.get_scts().map(dbg), scts(&e.1), "entry scts");
        }
        obs.see("certificate list");
        Ok(())
    });
    cx.cases("requests and tickets", 4_000, 40_000, |r, idx, obs| {
        let mut g = Gen { r, max: 60 };
        if idx % 2 == 0 {
            let n = g.r.below(5);
            let exts: Vec<CrExt> = (0..n).map(|_| g.crext()).collect();
            let m = Msg::CertReq13(vec![], exts.clone());
            obs.key(m.enc());
            let dec = decode(&m.enc(), ProtocolVersion::TLSv1_3)?.map_err(|e| format!("well-formed message refused: {e}"))?;
            let h::HandshakePayload::CertificateRequestTLS13(p) = dec.payload else { return Err("request decoded as something else".into()) };
            ensure_eq!(p.get_sigalgs_extension().map(dbg), first(&exts, |e| if let CrExt::SigAlgs(x) = e { Some(dbg(&x.iter().map(|v| SignatureScheme::from(*v)).collect::<Vec<_>>())) } else { None }), "request schemes");
            ensure_eq!(p.get_authorities_extension().map(dbg), first(&exts, |e| if let CrExt::Authorities(x) = e { Some(dbg(&x.iter().map(|v| PayloadU16(v.clone())).collect::<Vec<_>>())) } else { None }), "request authorities");
            for t in exts.iter().map(|e| e.typ()).chain([13, 47]) {
                ensure_eq!(p.find_extension(ExtensionType::from(t)).map(dbg), exts.iter().find(|e| e.typ() == t).map(|e| dbg(&e.build())), "request find_extension({t})");
            }
            obs.see("certificate request");
        } else {
            let n = g.r.below(5);
            let mut exts: Vec<TExt> = (0..n).map(|_| g.text()).collect();
            if idx % 3 == 0 && n > 0 {
                let e = exts[0].clone();
                exts.push(e);
            }
            let m = Msg::Ticket13 { life: g.r.u32(), add: g.r.u32(), nonce: vec![1], ticket: vec![2], exts: exts.clone() };
            obs.key(m.enc());
            let dec = decode(&m.enc(), ProtocolVersion::TLSv1_3)?.map_err(|e| format!("well-formed message refused: {e}"))?;
            let h::HandshakePayload::NewSessionTicketTLS13(p) = dec.payload else { return Err("ticket decoded as something else".into()) };
            ensure_eq!(p.has_duplicate_extension(), dup(exts.iter().map(|e| e.typ())), "ticket duplicates");
            ensure_eq!(p.get_max_early_data_size(), first(&exts, |e| if let TExt::EarlyData(x) = e { Some(*x) } else { None }), "max early data");
            for t in exts.iter().map(|e| e.typ()).chain([42]) {
                ensure_eq!(p.find_extension(ExtensionType::from(t)).map(dbg), exts.iter().find(|e| e.typ() == t).map(|e| dbg(&e.build())), "ticket find_extension({t})");
            }
            obs.see("ticket");
        }
        Ok(())
    });
    cx.cases("makers", 2_000, 20_000, |r, _, obs| {
        let name = hostname(r);
        obs.key(&name);
        let e = h::ClientExtension::make_sni(rustls_pki_types::DnsName::try_from(name.clone()).unwrap());
        let trimmed = name.strip_suffix('.').unwrap_or(&name).to_string();
        ensure_eq!(dbg(&e), dbg(&CExt::Sni(vec![trimmed], None).build()), "made sni for {name}");
        let (group, len) = (if r.bool() { *r.pick(&[23u16, 24, 25, 29, 30, 256]) } else { r.u16() }, r.below(200));
        let key = r.bytes(len);
        let pk = tls_core::key::PublicKey::new(NamedGroup::from(group), &key);
        ensure_eq!(hex(&h::KeyShareEntry::from(pk).get_encoding()), hex(&{
            let mut w = group.to_be_bytes().to_vec();
            w.extend((len as u16).to_be_bytes());
            w.extend(&key);
            w
        }), "key share of a public key of group {group:04x}");
        let mut g = Gen { r, max: 40 };
        let k = g.r.below(4);
        let ps: Vec<Vec<u8>> = (0..k)
            .map(|_| {
                let n = g.r.len(30);
                g.r.bytes(n)
            })
            .collect();
        let sl: Vec<&[u8]> = ps.iter().map(|x| &x[..]).collect();
        ensure_eq!(dbg(&h::ServerExtension::make_alpn(&sl)), dbg(&SExt::Alpn(ps.clone()).build()), "made alpn");
        ensure_eq!(dbg(&h::ServerExtension::make_empty_renegotiation_info()), dbg(&SExt::Reneg(vec![]).build()), "made renegotiation info");
        let e = SExt::Sct(ps.clone());
        ensure_eq!(dbg(&h::ServerExtension::make_sct(e.body())), dbg(&e.build()), "made sct list");
        ensure_eq!(dbg(&h::CertificateExtension::make_sct(e.body())), dbg(&CertExt::Sct(ps).build()), "made certificate sct list");
        ensure_eq!(dbg(&h::CertificateStatusRequest::build_ocsp()), dbg(&match CExt::StatusOcsp(vec![], vec![]).build() { h::ClientExtension::CertificateStatusRequest(x) => x, _ => unreachable!() }), "made status request");
        obs.see("makers");
        Ok(())
    });
    // identifiers of sessions are the same when, and only when, they have the same bytes
    cx.cases("session ids", 4_000, 60_000, |r, _, obs| {
        let id = |b: &[u8]| {
            let mut e = vec![b.len() as u8];
            e.extend(b);
            h::SessionID::read_bytes(&e).ok_or_else(|| format!("an identifier of {} bytes is refused", b.len()))
        };
        let n = r.below(33);
        let a = r.bytes(n);
        let mut b = a.clone();
        let how = r.below(7);
        match how {
            0 => {}
            1 if n > 0 => {
                let i = *r.pick(&[0, n - 1, n / 2, r.clone().below(n)]);
                b[i] ^= 1 << r.below(8);
            }
            // two differences which are the same
            2 if n > 1 => {
                let (i, j, x) = (r.below(n), r.below(n), 1 + r.below(255) as u8);
                b[i] ^= x;
                b[j] ^= x;
            }
            3 => {
                let k = r.below(n + 1);
                b.truncate(k);
            }
            // a longer one which differs by zeros
            4 if n < 32 => b.resize(r.range(n + 1, 32), 0),
            5 if n > 0 => b.rotate_left(r.clone().below(n)),
            // sums which are the same
            _ if n > 1 => {
                b[0] = b[0].wrapping_add(1);
                b[n - 1] = b[n - 1].wrapping_sub(1);
            }
            _ => {}
        }
        let (x, y) = (id(&a)?, id(&b)?);
        ensure_eq!(x == y, a == b, "equality of {} and {}", hex(&a), hex(&b));
        ensure_eq!(y == x, a == b, "equality of {} and {}", hex(&b), hex(&a));
        ensure_eq!(hex(&x.get_encoding()[1..]), hex(&a), "bytes of an identifier");
        ensure_eq!((x.len(), x.is_empty()), (n, n == 0), "length of an identifier");
        ensure!((x == h::SessionID::empty()) == a.is_empty(), "{} equals the empty identifier", hex(&a));
        obs.see(if a == b { "same identifiers" } else { "other identifiers" });
        obs.key([a, b].join(&0xff));
        Ok(())
    });
    cx.require("same identifiers", 50);
    cx.require("other identifiers", 500);
    for k in ["sni", "signature schemes", "groups", "point formats", "protocols", "ticket", "versions", "key shares", "psk", "psk modes"] {
        cx.require(&format!("present/{k}"), 50);
        cx.require(&format!("absent/{k}"), 50);
    }
    cx.require("duplicate key share", 20);
}

// ---------------------------------------------------------------- T16

macro_rules! regs {
    ($reg:expr, $v:expr, $( ($name:literal, $t:ty, $int:ty, $get:ident, $width:expr) ),* ) => {
        match $reg.name {
            $( $name => {
                let x = <$t>::from($v as $int);
                let enc = x.get_encoding();
                let dec = <$t>::read_bytes(&enc);
                let mut w = vec![];
                for i in (0..$width).rev() { w.push(($v >> (8 * i)) as u8); }
                let via = <$t>::read_bytes(&w);
                (dbg(&x), x.$get() as u16, enc, dec == Some(x), via == Some(x), w, <$t>::read_bytes(&vec![0u8; $width - 1]).is_none())
            } )*
            n => panic!("registry {n}"),
        }
    };
}

pub fn t16(cx: &mut Cx) {
    cx.rule("Every 8- or 16-bit value of each of the 22 registries is decoded, named, numbered and encoded again, and compared with tables written down independently; exhaustive over the value space; non-trivial = a (registry, value) pair.");
    cx.extra("exhaustive", json!(true));
    cx.cases("registries", registry::REGISTRIES.len() as u64, registry::REGISTRIES.len() as u64, |_, idx, obs| {
        let reg = &registry::REGISTRIES[idx as usize];
        let top = if reg.wide { 65536u32 } else { 256 };
        let names: std::collections::HashMap<u16, &str> = reg.items.iter().copied().collect();
        if names.len() != reg.items.len() {
            return vfw::harness(format!("table {} has a repeated value", reg.name));
        }
        let mut seen = HashSet::new();
        for v in 0..top {
            let v = v as u16;
            let (name, num, enc, dec, via, w, short_refused) = regs!(reg, v,
                ("ProtocolVersion", ProtocolVersion, u16, get_u16, 2), ("HashAlgorithm", HashAlgorithm, u8, get_u8, 1),
                ("SignatureAlgorithm", SignatureAlgorithm, u8, get_u8, 1), ("ClientCertificateType", ClientCertificateType, u8, get_u8, 1),
                ("Compression", Compression, u8, get_u8, 1), ("ContentType", ContentType, u8, get_u8, 1),
                ("HandshakeType", HandshakeType, u8, get_u8, 1), ("AlertLevel", AlertLevel, u8, get_u8, 1),
                ("AlertDescription", AlertDescription, u8, get_u8, 1), ("HeartbeatMessageType", HeartbeatMessageType, u8, get_u8, 1),
                ("ExtensionType", ExtensionType, u16, get_u16, 2), ("ServerNameType", ServerNameType, u8, get_u8, 1),
                ("NamedCurve", NamedCurve, u16, get_u16, 2), ("NamedGroup", NamedGroup, u16, get_u16, 2),
                ("CipherSuite", CipherSuite, u16, get_u16, 2), ("ECPointFormat", ECPointFormat, u8, get_u8, 1),
                ("HeartbeatMode", HeartbeatMode, u8, get_u8, 1), ("ECCurveType", ECCurveType, u8, get_u8, 1),
                ("SignatureScheme", SignatureScheme, u16, get_u16, 2), ("PSKKeyExchangeMode", PSKKeyExchangeMode, u8, get_u8, 1),
                ("KeyUpdateRequest", KeyUpdateRequest, u8, get_u8, 1), ("CertificateStatusType", CertificateStatusType, u8, get_u8, 1));
            obs.key(format!("{}/{v}", reg.name));
            ensure_eq!(num, v, "{} number of decoded value {v:#x} ({name})", reg.name);
            ensure_eq!(enc, w, "{} encoding of {v:#x}", reg.name);
            ensure!(dec && via, "{} {v:#x} does not decode to itself", reg.name);
            ensure!(short_refused, "{} decoded from too few bytes", reg.name);
            match names.get(&v) {
                Some(n) => {
                    ensure_eq!(name, *n, "{} name of {v:#x}", reg.name);
                    obs.see("named value");
                }
                None => {
                    // a value we do not know may have been given a name, but it must be its own
                    ensure!(!names.values().any(|n| *n == name), "{} {v:#x} decodes to the name of another value: {name}", reg.name);
                    obs.see("unassigned value");
                }
            }
            ensure!(seen.insert(name.clone()), "{} two values share the name {name}", reg.name);
        }
        obs.evals(top as u64);
        obs.input(json!({"registry": reg.name, "named": reg.items.len()}));
        Ok(())
    });
    cx.cases("text names", 65536, 65536, |_, idx, obs| {
        let v = idx as u16;
        macro_rules! t {
            ($t:ty) => {{
                let x = <$t>::from(v);
                let reg = registry::REGISTRIES.iter().find(|r| r.name == stringify!($t)).unwrap();
                if let Some((_, n)) = reg.items.iter().find(|i| i.0 == v) {
                    ensure_eq!(x.as_str(), Some(*n), "{} as_str({v:#x})", stringify!($t));
                    obs.key(n);
                } else if dbg(&x).starts_with("Unknown") {
                    ensure_eq!(x.as_str(), None, "{} as_str({v:#x})", stringify!($t));
                }
            }};
        }
        t!(ProtocolVersion);
        t!(ExtensionType);
        t!(NamedCurve);
        t!(NamedGroup);
        t!(CipherSuite);
        t!(SignatureScheme);
        Ok(())
    });
    // relations between registries
    cx.cases("schemes", 1, 1, |_, _, obs| {
        use tls_core::msgs::enums::HashAlgorithm as H;
        use tls_core::msgs::enums::SignatureAlgorithm as A;
        for (a, hs, v) in [
            (A::RSA, H::SHA1, 0x201u16),
            (A::RSA, H::SHA256, 0x401),
            (A::RSA, H::SHA384, 0x501),
            (A::RSA, H::SHA512, 0x601),
            (A::ECDSA, H::SHA256, 0x403),
            (A::ECDSA, H::SHA384, 0x503),
            (A::ECDSA, H::SHA512, 0x603),
        ] {
            let s = SignatureScheme::make(a, hs);
            ensure_eq!(s.get_u16(), v, "scheme made from {a:?} {hs:?}");
            ensure_eq!(s.sign(), a, "algorithm of scheme {v:#x}");
            obs.see("scheme made");
        }
        for v in [0x804u16, 0x805, 0x806] {
            ensure_eq!(SignatureScheme::from(v).sign(), A::RSA, "algorithm of scheme {v:#x}");
        }
        for (v, want) in [(0x807u16, A::ED25519), (0x808, A::ED448)] {
            let s = SignatureScheme::from(v).sign();
            ensure_eq!(s, want, "algorithm of EdDSA scheme {v:#x}");
        }
        obs.key("schemes");
        Ok(())
    });
    cx.require("named value", 500);
    cx.require("unassigned value", 1000);
}

// ---------------------------------------------------------------- T19

pub fn t19(cx: &mut Cx) {
    cx.rule("Hellos whose last extension is a pre-shared-key offer with 1..6 binders of 0..255 bytes, hellos without one, all hash lengths, and server hellos whose random is 0, 1 or more bits away from the retry value; the expected bytes come from the model encoder; non-trivial = a distinct hello.");
    cx.cases("binder", 8_000, 100_000, |r, idx, obs| {
        let mut g = Gen { r, max: 120 };
        let mut c = g.ch();
        c.exts.retain(|e| e.typ() != 41);
        let last_psk = idx % 5 != 4;
        let many = g.r.chance(1, 200);
        let nb = if many { g.r.range(250, 1900) } else { g.r.range(1, 6) };
        let ni = g.r.range(1, 6);
        let ids: Vec<(Vec<u8>, u32)> = (0..ni)
            .map(|_| {
                let n = g.r.len(100);
                (g.r.bytes(n), g.r.u32())
            })
            .collect();
        let mut binders: Vec<Vec<u8>> = (0..nb)
            .map(|_| {
                let n = if many { *g.r.pick(&[32usize, 33]) } else { *g.r.pick(&[0usize, 1, 32, 32, 48, 64, 255]) };
                g.r.bytes(n)
            })
            .collect();
        if last_psk {
            c.exts.push(CExt::Psk(ids.clone(), binders.clone()));
        } else {
            c.exts.insert(0, CExt::Psk(ids.clone(), binders.clone()));
            c.exts.push(CExt::Ems);
        }
        let m = Msg::ClientHello(c.clone());
        let enc = m.enc();
        obs.key(&enc);
        if idx < 8 {
            obs.input(json!({"binders": nb, "psk_last": last_psk, "bytes": enc.len()}));
        }
        let strip = if last_psk { 2 + binders.iter().map(|b| 1 + b.len()).sum::<usize>() } else { 0 };
        for p in [m.build(), decode(&enc, ProtocolVersion::TLSv1_3)?.map_err(|e| format!("well-formed message refused: {e}"))?] {
            let got = quiet(|| p.get_encoding_for_binder_signing())?;
            ensure_eq!(hex(&got), hex(&enc[..enc.len() - strip]), "bytes a binder signs");
        }
        obs.see(if last_psk { "binder signing" } else { "no binder" });
        // placing a binder
        let n = *r.pick(&[0usize, 32, 48, 20, 255]);
        let nb = r.bytes(n);
        let mut p = build_ch(&c);
        quiet(|| p.set_psk_binder(nb.clone()))?;
        if last_psk {
            binders[0] = nb;
            let k = c.exts.len() - 1;
            c.exts[k] = CExt::Psk(ids, binders);
        }
        let want = Msg::ClientHello(c.clone()).body();
        ensure_eq!(hex(&p.get_encoding()), hex(&want), "hello after placing a binder");
        // signing bytes do not depend on binder contents of equal length
        Ok(())
    });
    cx.cases("offer", 1_000, 10_000, |r, _, obs| {
        let n = r.len(200);
        let id = r.bytes(n);
        let age = r.u32();
        let k = r.len(255);
        let b = r.bytes(k);
        obs.key(&id);
        let o = h::PresharedKeyOffer::new(h::PresharedKeyIdentity::new(id.clone(), age), b.clone());
        ensure_eq!(hex(&o.get_encoding()), hex(&CExt::Psk(vec![(id, age)], vec![b]).body()), "encoding of a new offer");
        Ok(())
    });
    cx.cases("message hash", 600, 2_000, |r, idx, obs| {
        let n = if idx < 300 { idx as usize } else { r.len(70_000) };
        let b = r.bytes(n);
        obs.key(&b);
        let mut want = vec![254u8];
        v24(&mut want, &b);
        ensure_eq!(hex(&h::HandshakeMessagePayload::build_handshake_hash(&b).get_encoding()), hex(&want), "synthetic hash message");
        ensure!(decode(&want, ProtocolVersion::TLSv1_3)?.is_err(), "synthetic hash message accepted from the wire");
        obs.see("hash message");
        Ok(())
    });
    cx.cases("retry random", 600, 3_000, |r, idx, obs| {
        let mut random = HRR_RANDOM;
        let flips = if idx < 256 {
            random[idx as usize / 8] ^= 1 << (idx % 8);
            1
        } else {
            let k = r.below(4);
            for _ in 0..k {
                random[r.below(32)] ^= r.u8();
            }
            k
        };
        let is_hrr = random == HRR_RANDOM;
        let mut b = vec![3, 3];
        b.extend_from_slice(&random);
        v8(&mut b, &r.bytes(7));
        p16(&mut b, 0x1301);
        b.push(0);
        v16(&mut b, &[0, 43, 0, 2, 3, 4]);
        let mut e = vec![2u8];
        v24(&mut e, &b);
        obs.key(&e);
        obs.add("random bits changed", flips as u64);
        let d = decode(&e, ProtocolVersion::TLSv1_2)?.map_err(|e| format!("well-formed message refused: {e}"))?;
        ensure_eq!(matches!(d.payload, h::HandshakePayload::HelloRetryRequest(_)), is_hrr, "retry request recognised by its random {}", hex(&random));
        ensure_eq!(matches!(d.payload, h::HandshakePayload::ServerHello(_)), !is_hrr, "server hello with random {}", hex(&random));
        ensure_eq!(d.typ == HandshakeType::HelloRetryRequest, is_hrr, "type of a hello with random {}", hex(&random));
        ensure_eq!(hex(&d.get_encoding()), hex(&e), "hello re-encoding");
        Ok(())
    });
    cx.require("binder signing", 500);
    cx.require("hash message", 100);
}

// ---------------------------------------------------------------- T21

pub fn t21(cx: &mut Cx) {
    use tls_core::suites::tls12::decode_ecdh_params;
    cx.rule("Server key-exchange bodies with every curve type, known and unknown groups, point and signature lengths 0..255/0..65535, truncated, extended or with length fields changed, under every key exchange kind; verdict, fields and re-encoding are compared with the reference parser; non-trivial = a distinct body.");
    let kxas = || {
        [
            h::KeyExchangeAlgorithm::BulkOnly,
            h::KeyExchangeAlgorithm::DH,
            h::KeyExchangeAlgorithm::DHE,
            h::KeyExchangeAlgorithm::RSA,
            h::KeyExchangeAlgorithm::ECDH,
            h::KeyExchangeAlgorithm::ECDHE,
        ]
    };
    cx.cases("server kx", 30_000, 400_000, |r, idx, obs| {
        let mut g = Gen { r, max: 0 };
        let group = g.group();
        let scheme = g.scheme();
        let pn = *g.r.pick(&[0usize, 1, 32, 65, 65, 97, 255]);
        let point = g.r.bytes(pn);
        let sn = *g.r.pick(&[0usize, 1, 64, 71, 256, 512, 3000]);
        let sig = g.r.bytes(sn);
        let mut b = vec![if r.chance(1, 6) { r.below(6) as u8 } else { 3 }];
        p16(&mut b, group);
        v8(&mut b, &point);
        let params_len = b.len();
        p16(&mut b, scheme);
        v16(&mut b, &sig);
        match r.below(8) {
            0 => {
                let n = r.below(b.len() + 1);
                b.truncate(n)
            }
            1 => b.push(r.u8()),
            2 => {
                let n = r.range(1, 9);
                b.extend(r.bytes(n))
            }
            3 => {
                let i = *r.pick(&[3usize, params_len + 2, params_len + 3]);
                b[i] = b[i].wrapping_add(*r.pick(&[1u8, 255, 5]));
            }
            _ => {}
        }
        obs.key(&b);
        if idx < 8 {
            obs.input(json!({"body": vfw::short(&hex(&b))}));
        }
        // arrive on the wire as opaque
        let enc = Msg::ServerKx(b.clone()).enc();
        let d = decode(&enc, ProtocolVersion::TLSv1_2)?.map_err(|e| format!("well-formed message refused: {e}"))?;
        let h::HandshakePayload::ServerKeyExchange(ref p) = d.payload else { return Err("key exchange decoded as something else".into()) };
        let want = parse::server_kx(&b);
        for k in kxas() {
            let ecdhe = matches!(k, h::KeyExchangeAlgorithm::ECDHE);
            let got = quiet(|| p.unwrap_given_kxa(&k))?;
            match (&want, &got) {
                (Some((g, pt, s, sg)), Some(x)) if ecdhe => {
                    ensure_eq!(x.params.curve_params.curve_type, ECCurveType::NamedCurve, "curve type");
                    ensure_eq!(x.params.curve_params.named_group.get_u16(), *g, "group of key exchange");
                    ensure_eq!(hex(&x.params.public.0), hex(pt), "point of key exchange");
                    ensure_eq!(x.dss.scheme.get_u16(), *s, "scheme of key exchange");
                    ensure_eq!(hex(&x.dss.sig.0), hex(sg), "signature of key exchange");
                    let mut o = vec![];
                    x.encode(&mut o);
                    ensure_eq!(hex(&o), hex(&b), "re-encoding of key exchange");
                    // the part covered by the signature
                    let mut o = vec![];
                    x.params.encode(&mut o);
                    ensure_eq!(hex(&o), hex(&b[..4 + pt.len()]), "signed parameters");
                    let back = decode_ecdh_params::<h::ServerECDHParams>(&o).ok_or("signed parameters refused")?;
                    ensure_eq!(dbg(&back), dbg(&x.params), "signed parameters decoded again");
                    let again = h::ServerKeyExchangePayload::ECDHE(h::ECDHEServerKeyExchange { params: h::ServerECDHParams::new(NamedGroup::from(*g), pt), dss: h::DigitallySignedStruct::new(SignatureScheme::from(*s), sg.clone()) });
                    ensure_eq!(hex(&again.get_encoding()), hex(&b), "encoding of a built key exchange");
                    obs.see("key exchange decoded");
                }
                (None, None) if ecdhe => obs.see("key exchange refused"),
                (_, None) if !ecdhe => obs.see("other key exchange refused"),
                (w, g) => return Err(format!("key exchange verdict: reference {} decoder {} under {k:?} for {}", w.is_some(), g.is_some(), hex(&b)).into()),
            }
        }
        ensure_eq!(hex(&d.get_encoding()), hex(&enc), "opaque key exchange re-encoded");
        Ok(())
    });
    cx.cases("params", 20_000, 200_000, |r, _, obs| {
        let group = Gen { r, max: 0 }.group();
        let n = *r.pick(&[0usize, 1, 32, 65, 255]);
        let pt = r.bytes(n);
        let server = r.bool();
        let mut b = vec![];
        if server {
            b.push(if r.chance(1, 5) { r.u8() } else { 3 });
            p16(&mut b, group);
        }
        v8(&mut b, &pt);
        match r.below(6) {
            0 => {
                let k = r.below(b.len() + 1);
                b.truncate(k)
            }
            1 => b.push(r.u8()),
            2 => {
                let i = r.below(b.len());
                b[i] = b[i].wrapping_add(1);
            }
            _ => {}
        }
        obs.key([&[server as u8], &b[..]].concat());
        if server {
            let got = quiet(|| decode_ecdh_params::<h::ServerECDHParams>(&b))?;
            let want = parse::server_ecdh_params(&b);
            ensure_eq!(got.as_ref().map(|x| (x.curve_params.named_group.get_u16(), x.public.0.clone())), want, "server parameters {}", hex(&b));
            if let Some(x) = got {
                ensure_eq!(hex(&x.get_encoding()), hex(&b), "server parameters re-encoded");
                obs.see("parameters decoded");
            }
        } else {
            let got = quiet(|| decode_ecdh_params::<h::ClientECDHParams>(&b))?;
            ensure_eq!(got.as_ref().map(|x| x.public.0.clone()), parse::client_ecdh_params(&b), "client parameters {}", hex(&b));
            if let Some(x) = got {
                ensure_eq!(hex(&x.get_encoding()), hex(&b), "client parameters re-encoded");
                obs.see("parameters decoded");
            }
        }
        // a key share entry made from a public key carries exactly that key
        let k = h::KeyShareEntry::from(tls_core::key::PublicKey::new(NamedGroup::from(group), &pt));
        ensure_eq!((k.group.get_u16(), k.payload.0.clone()), (group, pt.clone()), "key share of a public key");
        let k2 = h::KeyShareEntry::new(NamedGroup::from(group), &pt);
        ensure_eq!(hex(&k2.get_encoding()), hex(&k.get_encoding()), "key share encoding");
        Ok(())
    });
    cx.require("key exchange decoded", 200);
    cx.require("key exchange refused", 200);
    cx.require("parameters decoded", 200);
}
