//! The handshake of the client against honest and hostile servers.
use crate::{
    pair::{self, Cfg, Drv, Ran, session},
    pki,
    srv::{self, ALERT, APP, Bad, CCS, HS, Msg, Srv},
    t_rec::{ended, whole},
    util::{Unhook, run},
};
use vfw::{Cx, Fail, Obs, R, ensure, ensure_eq};

const NOTIFY: [u8; 2] = [1, 0];
/// A whole session with some data in both directions.
fn talk(r: &mut R, cfg: &Cfg, srv: Srv, early: bool, late: Option<Vec<(u8, Vec<u8>)>>) -> Result<Ran, Fail> {
    let (n, m) = (1 + r.below(100), 1 + r.below(100));
    let (a, b, bye) = (r.bytes(n), r.bytes(m), r.bool() || late.is_some());
    run(session(r, cfg, cfg, srv, None, async move |d: &mut Drv| {
        if early {
            d.write(&a);
        }
        d.handshake().await?;
        if !early {
            d.write(&a);
            d.pump().await?;
        }
        for (t, x) in late.into_iter().flatten() {
            d.serve(t, &x);
            d.pump().await?;
        }
        d.serve_app(&b);
        d.pump().await?;
        d.serve(ALERT, &NOTIFY);
        d.pump().await?;
        if bye {
            d.bye().await?;
        }
        d.close().await
    }))?
}
fn cfg(r: &mut R, id: &srv::Ident) -> Cfg {
    let mut cfg = Cfg::new(r, id);
    (cfg.max_sent, cfg.max_recv, cfg.max_recv_online) = (200, 400, 400);
    (cfg.sent_records, cfg.recv_records) = (Some(6), Some(8));
    cfg
}
/// The client must not have accepted or sent anything.
fn refused(ran: &Ran, what: &str) -> Result<(), Fail> {
    ensure!(ran.drv.srv.app_in.is_empty() && ran.drv.srv.got.iter().all(|x| x.0 != APP), "data was sent to the server: {what}");
    ended_badly(ran, what)
}
fn ended_badly(ran: &Ran, what: &str) -> Result<(), Fail> {
    ensure!(ran.drv.plain.is_empty(), "data of the server was released: {what}");
    match &ran.leader {
        None => return Err(Fail::from(format!("the prover hangs: {what}"))),
        Some(Ok(_)) => return Err(Fail::from(format!("the prover has a session: {what}"))),
        Some(Err(_)) => {}
    }
    ensure!(ran.follower.is_err(), "the verifier has a session: {what}");
    ran.secret()
}

fn honest(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let host = if r.chance(1, 8) { "127.0.0.1".replace('1', &(1 + r.below(9)).to_string()).replace("0", "x") + ".example" } else { pair::host(r) };
    let id = srv::ident(r, &host, None);
    let mut cfg = cfg(r, &id);
    let mut how = vec![];
    let p = pki::pool();
    let mut srv = Srv::new(id.clone(), r);
    srv.mix = r.bool();
    srv.split_finished = r.chance(1, 3);
    srv.random_nonces = r.bool();
    srv.status = r.chance(1, 4);
    srv.creq = r.chance(1, 3);
    if srv.status {
        how.push("may staple");
    }
    let mut client = None;
    if srv.creq {
        how.push("asks for a certificate");
        if r.bool() {
            let k = &p.p256[r.below(4)];
            let s = pki::Spec::ee_spec(r, "client", "nobody", pki::Sig::Ecdsa(pki::H::Sha256), srv::now(), vec!["me.example".into()]);
            let c = s.build(k, k, r);
            let alg = &ring::signature::ECDSA_P256_SHA256_ASN1_SIGNING;
            let rng = ring::rand::SystemRandom::new();
            let sec = ring::signature::EcdsaKeyPair::generate_pkcs8(alg, &rng).map_err(|_| Fail::Harness("key".into()))?;
            let pair = ring::signature::EcdsaKeyPair::from_pkcs8(alg, sec.as_ref(), &rng).map_err(|_| Fail::Harness("key".into()))?;
            client = Some((c.clone(), ring::signature::KeyPair::public_key(&pair).as_ref().to_vec()));
            cfg.auth = Some((vec![c], sec.as_ref().to_vec()));
            how.push("gets one");
        }
    }
    // extra roots do no harm
    if r.bool() {
        cfg.roots.insert(0, pki::anchor(&pki::name("other"), &p.p256[5]));
    }
    let early = r.bool();
    let late = match r.below(6) {
        0 if cfg.max_sent > 0 => {
            how.push("asks to renegotiate");
            Some(vec![(HS, srv::hs(0, &[]))])
        }
        1 => {
            how.push("warns");
            Some(vec![(ALERT, vec![1, *r.pick(&[90u8, 100, 41, 112, 255])])])
        }
        _ => None,
    };
    let reneg = how.contains(&"asks to renegotiate");
    let (creq, split) = (srv.creq, srv.split_finished);
    let ran = talk(r, &cfg, srv, early, late)?;
    // a transcript has room for a Finished in one record only
    if split && matches!(ran.leader, Some(Err(_))) {
        ensure!(ran.follower.is_err(), "the verifier alone has a session with a Finished in pieces");
        ran.secret()?;
        o.see("Finished in pieces");
        return Ok(());
    }
    let (l, f) = ended(&ran)?;
    whole(&ran, l, f)?;
    ensure_eq!(ran.drv.srv.client_finished_ok, Some(true), "client finished");
    let warned = ran.drv.srv.got.iter().filter(|x| x.0 == ALERT && x.1 == [1, 100]).count();
    ensure_eq!(warned, usize::from(reneg), "refusals to renegotiate");
    // what the prover keeps about the server is what the server is
    ensure_eq!(l.server_cert_chain().map(|c| c.iter().map(|c| c.0.clone()).collect::<Vec<_>>()), Some(id.chain.clone()), "chain in the session");
    if creq {
        let empty = ran.drv.srv.client_cert.as_deref() == Some(&[0, 0, 0][..]);
        match &client {
            None => ensure!(empty, "a certificate out of nothing"),
            Some((c, k)) => {
                ensure_eq!(ran.drv.srv.client_cert, Some(srv::vec24(&srv::vec24(c))), "client certificate");
                let Some((log, b)) = &ran.drv.srv.cert_verify else { return Err(Fail::from("the client does not prove its certificate")) };
                let ok = b.get(..2) == Some(&[4, 3])
                    && ring::signature::UnparsedPublicKey::new(&ring::signature::ECDSA_P256_SHA256_ASN1, k).verify(log, b.get(4..).unwrap_or(&[])).is_ok();
                ensure!(ok, "the client's proof of its certificate is wrong");
            }
        }
    } else {
        ensure!(ran.drv.srv.client_cert.is_none(), "an unwanted certificate");
    }
    o.see(format!("key {}", id.key.name));
    o.see(format!("scheme {:04x}", id.scheme));
    for h in &how {
        o.see(*h);
    }
    o.key(format!("{how:?}{}{}{}", id.key.name, id.scheme, id.chain.len()));
    Ok(())
}

/// RFC 5246 7.4.1.3: a ServerHello may end before its extensions.
fn plain_hello(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let host = pair::host(r);
    let id = srv::ident(r, &host, None);
    let cfg = cfg(r, &id);
    let mut srv = Srv::new(id, r);
    srv.no_exts = true;
    let ran = talk(r, &cfg, srv, i == 0, None)?;
    let sig = "an honest server whose ServerHello has no extensions is refused";
    let (l, f) = ended(&ran).map_err(|e| match e {
        Fail::Violation(_, d) => Fail::Violation(sig.into(), d),
        e => e,
    })?;
    whole(&ran, l, f)?;
    o.see("ServerHello without extensions");
    o.key("no extensions");
    Ok(())
}

fn badcert(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    use Bad::*;
    let bad = *r.pick(&[Expired, Early, Host, Root, Usage, CaMissing, Signature, Order, Empty]);
    let host = pair::host(r);
    let id = srv::ident(r, &host, Some(bad));
    let mut cfg = cfg(r, &id);
    if bad == Root && r.bool() {
        cfg.roots.clear();
    }
    let srv = Srv::new(id, r);
    let early = r.bool();
    let ran = talk(r, &cfg, srv, early, None)?;
    let what = format!("certificate with wrong {bad:?}");
    refused(&ran, &what)?;
    ensure!(ran.drv.srv.got.iter().all(|x| x.0 != CCS), "keys were used: {what}");
    o.see(what.clone());
    o.key(what + &host);
    Ok(())
}

/// A server with a good certificate picks what was not offered or is not supported.
fn picky(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let host = pair::host(r);
    let id = srv::ident(r, &host, None);
    let cfg = cfg(r, &id);
    let mut srv = Srv::new(id.clone(), r);
    let kind = r.below(12);
    let name = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let n2 = name.clone();
    let (offered_suites, offered_exts) = pair::offer(r)?;
    srv.pre = Some(Box::new(move |f, r| {
        *n2.lock().unwrap() = match kind {
            0 => {
                f.version = *r.pick(&[0x0302, 0x0301, 0x0300, 0x0304, 0xfefd, 0x0002, 0x0305, 0]);
                format!("version {:04x}", f.version)
            }
            1 => {
                f.suite = loop {
                    let s = if r.bool() {
                        *r.pick(&[0x009c, 0xc013, 0xc014, 0xcca8, 0xcca9, 0xc030, 0xc02c, 0x1301, 0x1302, 0x1303, 0, 0x00ff, 0xc009, 0x009e])
                    } else {
                        r.u16()
                    };
                    if !offered_suites.contains(&s) || s == 0x00ff {
                        break s;
                    }
                };
                "suite not offered".into()
            }
            2 => {
                f.suite = if f.suite == 0xc02f { 0xc02b } else { 0xc02f };
                "suite of another kind of key".into()
            }
            3 => {
                f.comp = 1 + r.u8() % 255;
                "compression".into()
            }
            4 => {
                let x = r.pick(&[(0xff01u16, vec![0u8]), (11, vec![1, 0])]).clone();
                f.exts.retain(|e| e.0 != x.0);
                f.exts.extend([x.clone(), x]);
                r.shuffle(&mut f.exts);
                "extension twice".into()
            }
            5 => {
                let t = loop {
                    let t = if r.bool() { *r.pick(&[16u16, 17, 18, 22, 35, 41, 42, 43, 44, 51, 15, 21, 13172, 0x0a0a]) } else { r.u16() };
                    if !offered_exts.contains(&t) && t != 0xff01 {
                        break t;
                    }
                };
                let b = match t {
                    16 => vec![0, 3, 2, b'h', b'2'],
                    43 => vec![3, 3],
                    41 => vec![0, 0],
                    51 => vec![0, 23, 0, 1, 4],
                    18 => vec![0, 3, 0, 1, 9],
                    _ => vec![],
                };
                f.exts.push((t, b));
                r.shuffle(&mut f.exts);
                "extension not offered".into()
            }
            6 => {
                f.exts.retain(|e| e.0 != 11);
                f.exts.push((11, vec![1, 1 + r.u8() % 2]));
                "no uncompressed points".into()
            }
            7 => {
                f.curve_type = *r.pick(&[0, 1, 2, 4, 255]);
                "kind of curve".into()
            }
            8 => {
                f.group = *r.pick(&[24u16, 25, 29, 30, 22, 0, 0x0100, 0xffff]);
                if f.group == 29 {
                    f.point = r.bytes(32);
                }
                "curve".into()
            }
            9 => {
                f.point = match r.below(7) {
                    0 => vec![0],
                    1 => vec![],
                    2 => f.point[..64].to_vec(),
                    3 => [&f.point[..], &[0]].concat(),
                    4 => [&[5], &f.point[1..]].concat(),
                    5 => {
                        let mut p = f.point.clone();
                        p[64] ^= 1;
                        p
                    }
                    _ => [&[4u8][..], &[0; 64]].concat(),
                };
                "point".into()
            }
            10 => {
                let s = f.scheme;
                f.scheme = loop {
                    let x = *r.pick(&[0x0201u16, 0x0203, 0x0401, 0x0403, 0x0501, 0x0503, 0x0601, 0x0603, 0x0804, 0x0805, 0x0806, 0x0807, 0x0808, 0x0101, 0xffff]);
                    if x != s {
                        break x;
                    }
                };
                "signature scheme".into()
            }
            _ => {
                f.exts.retain(|e| e.0 != 43);
                f.exts.push((43, r.pick(&[vec![3, 3], vec![3, 4], vec![3, 2]]).clone()));
                "supported versions".into()
            }
        };
    }));
    let early = r.bool();
    let ran = talk(r, &cfg, srv, early, None)?;
    let what = name.lock().unwrap().clone();
    refused(&ran, &format!("server picked {what}"))?;
    o.see(format!("picked {what}"));
    o.key(what + &host);
    Ok(())
}

/// Somebody on the way without the server's key.
fn middle(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let host = pair::host(r);
    let id = srv::ident(r, &host, None);
    let cfg = cfg(r, &id);
    let mut srv = Srv::new(id.clone(), r);
    srv.mitm = true;
    srv.status = r.chance(1, 4);
    let kind = r.below(16);
    let name = std::sync::Arc::new(std::sync::Mutex::new(""));
    let n2 = name.clone();
    let other = srv::ident(r, &host, None);
    let own = {
        let rng = ring::rand::SystemRandom::new();
        let e = ring::agreement::EphemeralPrivateKey::generate(&ring::agreement::ECDH_P256, &rng).unwrap();
        e.compute_public_key().unwrap().as_ref().to_vec()
    };
    srv.post = Some(Box::new(move |f, r| {
        let flip = |v: &mut Vec<u8>, r: &mut R| {
            let k = r.below(v.len());
            v[k] ^= 1 << r.below(8);
        };
        *n2.lock().unwrap() = match kind {
            0 => {
                let k = r.below(32);
                f.random[k] ^= 1 << r.below(8);
                "random"
            }
            1 => {
                f.point = own.clone();
                "own key"
            }
            2 | 3 => {
                flip(&mut f.sig, r);
                "signature bit"
            }
            4 => {
                f.sig = if r.bool() { vec![] } else { let n = f.sig.len(); r.bytes(n) };
                "no signature"
            }
            5 => {
                // signed by somebody else
                let m = [&f.random[..], &f.params()].concat();
                f.sig = other.key.sign(other.sig, &m, r);
                f.scheme = other.scheme;
                "signature of another"
            }
            6 => {
                f.certs = other.chain.clone();
                "other chain"
            }
            7 => {
                let n = f.certs.len();
                let k = r.below(n);
                flip(&mut f.certs[k], r);
                "certificate bit"
            }
            8 => {
                f.certs.push(other.chain[0].clone());
                "one more certificate"
            }
            9 => {
                f.sid = if f.sid.is_empty() { r.bytes(32) } else { vec![] };
                "session id"
            }
            10 => {
                f.suite = if f.suite == 0xc02f { 0xc02b } else { 0xc02f };
                "suite"
            }
            11 => {
                if f.exts.is_empty() || !f.exts.iter().any(|e| e.0 == 0xff01) {
                    f.exts.push((0xff01, vec![0]));
                } else {
                    f.exts.retain(|e| e.0 != 0xff01);
                }
                "extensions"
            }
            12 => {
                f.creq = !f.creq;
                "certificate request"
            }
            13 => {
                if f.status.take().is_none() {
                    if !f.exts.iter().any(|e| e.0 == 5) {
                        f.exts.push((5, vec![]));
                    }
                    f.status = Some(vec![1, 2, 3]);
                }
                "stapled answer"
            }
            14 => {
                flip(&mut f.point, r);
                "point bit"
            }
            _ => {
                f.exts.retain(|e| e.0 != 11);
                f.exts.push((11, vec![2, 0, 1]));
                "point formats"
            }
        };
    }));
    let early = r.bool();
    let ran = talk(r, &cfg, srv, early, None)?;
    let what = *name.lock().unwrap();
    refused(&ran, &format!("altered on the way: {what}"))?;
    o.see(format!("altered {what}"));
    o.key(format!("{what}{host}"));
    Ok(())
}

/// Messages left out, doubled, moved, altered and added.
fn order(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let host = pair::host(r);
    let id = srv::ident(r, &host, None);
    let cfg = cfg(r, &id);
    let mut srv = Srv::new(id.clone(), r);
    srv.status = r.chance(1, 4);
    srv.creq = r.chance(1, 4);
    srv.mix = r.bool();
    let second = r.chance(2, 5);
    let mitm = r.bool();
    srv.mitm = mitm;
    let name = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let n2 = name.clone();
    let hook: srv::ListHook = Box::new(move |v, r| {
        let optional = |m: &Msg| matches!(m.name, "CertificateStatus" | "CertificateRequest");
        let i = loop {
            let i = r.below(v.len());
            if mitm || !optional(&v[i]) {
                break i;
            }
        };
        let was = v[i].name;
        *n2.lock().unwrap() = match r.below(6) {
            0 => {
                v.remove(i);
                format!("{was} left out")
            }
            1 => {
                let m = v[i].clone();
                v.insert(r.range(i, v.len()), m);
                format!("{was} doubled")
            }
            2 => {
                let m = v.remove(i);
                let j = loop {
                    let j = r.below(v.len() + 1);
                    if j != i {
                        break j;
                    }
                };
                v.insert(j, m);
                format!("{was} moved")
            }
            3 if v[i].data.len() > 4 => {
                let m = &mut v[i];
                let n = m.data.len();
                // not the signed or hashed part of it, which `middle` does
                match r.below(3) {
                    0 => {
                        m.data.pop();
                        m.data[1..4].copy_from_slice(&srv::be(n - 5, 3));
                    }
                    1 => {
                        m.data.push(r.u8());
                        m.data[1..4].copy_from_slice(&srv::be(n - 3, 3));
                    }
                    _ => {
                        m.data[0] = loop {
                            let t = *r.pick(&[1u8, 2, 3, 4, 5, 8, 11, 12, 13, 14, 15, 16, 20, 21, 22, 24, 67, 254, 99]);
                            if t != m.data[0] {
                                break t;
                            }
                        }
                    }
                }
                format!("{was} misshapen")
            }
            _ => {
                let n = r.below(40);
                let b = r.bytes(n);
                let (m, what) = match r.below(11) {
                    0 => (Msg::hs("x", 20, &r.bytes(12)), "Finished"),
                    1 => (Msg::hs("x", 1, &b), "ClientHello"),
                    2 => (Msg::hs("x", 15, &b), "CertificateVerify"),
                    3 => (Msg::hs("x", 4, &[&[0, 0, 0, 9][..], &srv::vec16(&b)].concat()), "NewSessionTicket"),
                    4 => (Msg::hs("x", 24, &[0]), "KeyUpdate"),
                    5 => (Msg::hs("x", 99, &b), "an unknown message"),
                    6 => (Msg::hs("x", 11, &srv::vec24(&[])), "an empty Certificate"),
                    7 => (Msg { name: "x", ct: APP, data: [&[1][..], &b].concat() }, "application data"),
                    8 => (Msg { name: "x", ct: ALERT, data: vec![2, *r.pick(&[40, 80, 20, 255])] }, "a fatal alert"),
                    9 => (Msg { name: "x", ct: 77, data: b }, "an unknown record"),
                    _ => (Msg { name: "x", ct: ALERT, data: NOTIFY.to_vec() }, "a goodbye"),
                };
                // a protected goodbye is as good as one after the handshake
                let j = if what == "a goodbye" && second { 0 } else { r.range(0, if second { v.len() - 1 } else { v.len() }) };
                v.insert(j, m);
                format!("{what} before message {j}")
            }
        };
    });
    if second {
        srv.fin = Some(hook);
    } else {
        srv.list = Some(hook);
    }
    let early = r.bool();
    let ran = talk(r, &cfg, srv, early, None)?;
    let what = name.lock().unwrap().clone();
    let what = format!("{} flight, {what}{}", if second { "second" } else { "first" }, if mitm { " on the way" } else { "" });
    if second && (what.contains("doubled") || what.contains("a goodbye")) {
        // comes when all is proven, or the server may still be listening
        ended_badly(&ran, &what)?;
    } else {
        refused(&ran, &what)?;
    }
    o.see(what.split(" before").next().unwrap().replace(" on the way", ""));
    o.key(what);
    Ok(())
}
/// What comes after the handshake and must not.
fn later(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let host = pair::host(r);
    let id = srv::ident(r, &host, None);
    let cfg = cfg(r, &id);
    let srv = Srv::new(id, r);
    let n = r.below(60);
    let b = r.bytes(n);
    let (what, m) = match r.below(7) {
        0 => ("ServerHello", (HS, srv::hs(2, &[&[3, 3][..], &r.bytes(32), &[0, 0xc0, 0x2b, 0, 0, 0]].concat()))),
        1 => ("Finished", (HS, srv::hs(20, &r.bytes(12)))),
        2 => ("KeyUpdate", (HS, srv::hs(24, &[0]))),
        3 => ("ClientHello", (HS, srv::hs(1, &b))),
        4 => ("fatal alert", (ALERT, vec![2, *r.pick(&[10u8, 20, 40, 80, 255])])),
        5 => ("alert of no level", (ALERT, vec![3 + r.u8() % 200, 1 + r.u8() % 200])),
        _ => ("unknown record", (*r.pick(&[0u8, 19, 24, 99, 255]), [&[1][..], &b].concat())),
    };
    let early = r.bool();
    let ran = talk(r, &cfg, srv, early, Some(vec![m]))?;
    match &ran.leader {
        None => return Err(Fail::from(format!("the prover hangs: {what} after the handshake"))),
        Some(Ok(_)) => return Err(Fail::from(format!("the prover has a session: {what} after the handshake"))),
        Some(Err(_)) => {}
    }
    if !cfg.defer {
        ensure!(ran.drv.plain.is_empty(), "data behind {what} was released");
    }
    o.see(format!("later: {what}"));
    o.key(format!("{what}{n}{}", cfg.defer));
    Ok(())
}

pub fn m07(cx: &mut Cx) {
    cx.rule(
        "Whole sessions of the real client: with an honest server of every key type and message layout they work; with a bad \
         certificate, an unoffered or unsupported choice, anything altered on the way, or a message missing, doubled, moved, \
         misshapen or added, no application data leaves or is released, and both parties end with an error.",
    );
    cx.cases("honest", 150, 8000, |r, _, o| honest(r, o));
    cx.cases("plain", 2, 2, plain_hello);
    cx.cases("certificate", 60, 2000, |r, _, o| badcert(r, o));
    cx.cases("picked", 150, 8000, |r, _, o| picky(r, o));
    cx.cases("middle", 150, 8000, |r, _, o| middle(r, o));
    cx.cases("order", 200, 15000, |r, _, o| order(r, o));
    cx.cases("later", 60, 2000, |r, _, o| later(r, o));
}
