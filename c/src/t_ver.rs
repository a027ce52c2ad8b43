//! A verifier in front of a prover that does not keep to the protocol.
use crate::{
    pair::{self, Cfg, Drv, Hook, M, Ran, session},
    srv::{self, ALERT, HS, Srv},
    t_rec::{ended, whole},
    util::{Unhook, run},
};
use std::{cell::RefCell, rc::Rc};
use tls_core::{
    key::PublicKey,
    msgs::enums::{ContentType, NamedGroup, ProtocolVersion},
};
use vfw::{Cx, Fail, Obs, R, ensure, ensure_eq};

type Said = Rc<RefCell<String>>;

fn start(r: &mut R) -> (Cfg, Srv) {
    let host = pair::host(r);
    let id = srv::ident(r, &host, None);
    let mut cfg = Cfg::new(r, &id);
    (cfg.max_sent, cfg.max_recv, cfg.max_recv_online) = (300, 400, 400);
    let srv = Srv::new(id, r);
    (cfg, srv)
}
fn go(r: &mut R, cfg: &Cfg, srv: Srv, hook: Hook) -> Result<Ran, Fail> {
    let (n, m) = (1 + r.below(100), 1 + r.below(100));
    let (a, b, bye, notify) = (r.bytes(n), r.bytes(m), r.bool(), r.bool());
    run(session(r, cfg, cfg, srv, Some(hook), async move |d: &mut Drv| {
        d.handshake().await?;
        d.write(&a);
        d.pump().await?;
        d.serve_app(&b);
        d.pump().await?;
        if notify {
            d.serve(ALERT, &[1, 0]);
            d.pump().await?;
        }
        if bye {
            d.bye().await?;
        }
        d.close().await
    }))?
}
fn no(ran: &Ran, what: &str) -> Result<(), Fail> {
    ensure!(ran.follower.is_err(), "the verifier accepted a session with {what}");
    ensure!(!matches!(ran.leader, Some(Ok(_))) || ran.msgs.len() >= ran.meant.len(), "the prover ended without the verifier: {what}");
    ran.secret()
}
/// One message of each kind comes again.
fn again(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (cfg, srv) = start(r);
    let which = *r.pick(&["SetClientRandom", "ServerHello", "ClientFinishedVd", "ServerFinishedVd"]);
    let wait = r.below(6);
    let other = r.bool();
    let mut r2 = R::new(r.u64(), "again", 0);
    let mut kept: Option<(usize, M)> = None;
    let done = Rc::new(RefCell::new(false));
    let d2 = done.clone();
    let hook: Hook = Box::new(move |i, m| {
        let mut v = vec![m.clone()];
        if m.name() == which && kept.is_none() && !*d2.borrow() {
            let mut n = m;
            if other {
                match &mut n {
                    M::SetClientRandom(b) | M::ClientFinishedVd(b) | M::ServerFinishedVd(b) => *b = r2.arr(),
                    M::ServerHello { random, .. } => *random = r2.arr(),
                    _ => {}
                }
            }
            kept = Some((i, n));
        }
        if let Some((at, n)) = &kept
            && i >= at + wait
        {
            v.push(n.clone());
            kept = None;
            *d2.borrow_mut() = true;
        }
        v
    });
    let ran = go(r, &cfg, srv, hook)?;
    if !*done.borrow() {
        return Ok(());
    }
    let what = format!("a second {which}{}", if other { ", another" } else { "" });
    no(&ran, &what)?;
    ensure!(ran.prompt, "the verifier went on after {what}");
    o.see(what);
    o.key(format!("{which}{wait}{other}"));
    Ok(())
}
/// A message never comes, or comes earlier or later than it may.
fn order(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (mut cfg, srv) = start(r);
    cfg.defer = r.chance(1, 4);
    let which = *r.pick(&["SetClientRandom", "ServerHello", "ClientFinishedVd", "ServerFinishedVd", "Encrypt", "CloseConnection"]);
    let how = r.below(2);
    let by = r.range(1, 4);
    let seen: Rc<RefCell<Vec<&'static str>>> = Rc::default();
    let mut held: Option<(usize, M)> = None;
    let hook: Hook = Box::new(move |i, m| {
        let n = m.name();
        let first = !seen.borrow().contains(&n);
        seen.borrow_mut().push(n);
        let mut v = vec![];
        if n == which && first {
            if how == 1 {
                held = Some((i, m));
            }
        } else {
            v.push(m);
        }
        if let Some((at, m)) = &held
            && i >= at + by
        {
            v.push(m.clone());
            held = None;
        }
        v
    });
    let ran = go(r, &cfg, srv, hook)?;
    let what = format!("{which} {}", if how == 0 { "left out" } else { "late" });
    let names: Vec<_> = ran.msgs.iter().map(M::name).collect();
    let meant: Vec<_> = ran.meant.iter().map(M::name).collect();
    if names == meant {
        return Ok(());
    }
    let pos = |n| names.iter().position(|x| *x == n);
    // a late message may still be in time
    let legal = how == 1 && pos(which).is_some() && {
        let p = |n| pos(n).unwrap_or(usize::MAX);
        p("SetClientRandom") < p("ServerHello") && p("ServerHello") < p("ClientFinishedVd") && p("ClientFinishedVd") < p("ServerFinishedVd")
            && names.iter().rposition(|n| *n == "Flush").unwrap_or(0) > p("Encrypt")
    };
    if legal {
        o.see(format!("in time: {what}"));
        if let Ok(f) = &ran.follower {
            ensure!(!f.sent().is_empty() && !f.recv().is_empty(), "a session without records");
        }
    } else {
        no(&ran, &what)?;
        o.see(what.clone());
    }
    o.key(format!("{names:?}"));
    Ok(())
}
/// The verifier's clock.
fn clock(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (cfg, srv) = start(r);
    // far enough from the limit for a slow machine
    let (good, off) = match r.below(7) {
        0 => (true, 0i64),
        1 => (true, -(r.below(3) as i64)),
        2 => (true, r.below(5) as i64),
        3 => (false, -(6 + r.len(100_000) as i64)),
        4 => (false, 30 + r.len(100_000) as i64),
        5 => (false, 1 << r.range(8, 62)),
        _ => (false, i64::MIN),
    };
    let extreme = *r.pick(&[0, u64::MAX, 1, u64::MAX / 2]);
    let hook: Hook = Box::new(move |_, mut m| {
        if let M::ServerHello { time, .. } = &mut m {
            *time = if off == i64::MIN { extreme } else { time.wrapping_add_signed(off) };
        }
        vec![m]
    });
    let ran = go(r, &cfg, srv, hook)?;
    if good {
        let f = ran.follower.as_ref().map_err(|e| Fail::from(format!("the verifier refuses a time {off} s from its own: {e}")))?;
        let Some(Ok(l)) = &ran.leader else { return Err(Fail::from("the prover fails")) };
        ensure_eq!(f.time(), l.time().wrapping_add_signed(off), "time in the session");
        ensure!(f.time().abs_diff(ran.at) < 60, "time of the session");
    } else {
        no(&ran, &format!("a time {off} s from its own"))?;
        ensure!(ran.prompt, "the verifier went on after a wrong time");
    }
    o.see(if good { "time in the limit" } else { "time beyond the limit" });
    o.key(format!("{off}"));
    Ok(())
}
/// The server's key as told to the verifier.
fn key(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (cfg, srv) = start(r);
    let kind = r.below(6);
    let group = *r.pick(&[NamedGroup::secp384r1, NamedGroup::X25519, NamedGroup::secp521r1, NamedGroup::X448, NamedGroup::FFDHE2048, NamedGroup::Unknown(0), NamedGroup::Unknown(0x6399)]);
    let mut r2 = R::new(r.u64(), "key", 0);
    let said = Said::default();
    let s2 = said.clone();
    let hook: Hook = Box::new(move |_, mut m| {
        let r = &mut r2;
        if let M::ServerHello { key: PublicKey { group: g, key: k }, .. } = &mut m {
            *s2.borrow_mut() = match kind {
                0 => {
                    *g = group;
                    "a key of another group"
                }
                1 => {
                    let n = r.below(k.len());
                    k.truncate(n);
                    "a truncated key"
                }
                2 => {
                    let n = r.range(1, 40);
                    k.extend(r.bytes(n));
                    "an extended key"
                }
                3 => {
                    let i = 1 + r.below(64);
                    k[i] ^= 1 << r.below(8);
                    "a point beside the curve"
                }
                4 => {
                    k[0] = loop {
                        let b = r.u8();
                        if b != 4 {
                            break b;
                        }
                    };
                    "a key of another form"
                }
                _ => {
                    *k = match r.below(3) {
                        0 => vec![],
                        1 => vec![0],
                        _ => vec![0; 65],
                    };
                    "no key"
                }
            }
            .into();
        }
        vec![m]
    });
    let ran = go(r, &cfg, srv, hook)?;
    no(&ran, &said.borrow())?;
    ensure!(ran.prompt, "the verifier went on after {}", said.borrow());
    o.see(said.borrow().clone());
    o.key(format!("{kind}{group:?}"));
    Ok(())
}
/// The Finished messages and what they depend on.
fn finished(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (cfg, srv) = start(r);
    let kind = r.below(8);
    let mut r2 = R::new(r.u64(), "finished", 0);
    let said = Said::default();
    let s2 = said.clone();
    let hook: Hook = Box::new(move |_, mut m| {
        let r = &mut r2;
        let mut set = |s: &str| *s2.borrow_mut() = s.into();
        match &mut m {
            M::Encrypt { typ: ContentType::Handshake, plaintext: Some(p), len, .. } => match kind {
                0 => {
                    let i = r.below(p.len());
                    p[i] ^= 1 << r.below(8);
                    set(if i < 4 { "another head of the client's Finished" } else { "other verify data of the client" });
                }
                1 => {
                    let n = r.below(16);
                    p.truncate(n);
                    *len = n;
                    set("a truncated Finished");
                }
                2 => {
                    let n = 1 + r.below(16);
                    p.extend(r.bytes(n));
                    *len = p.len();
                    set("an extended Finished");
                }
                _ => {}
            },
            M::Decrypt { typ: ContentType::Handshake, ciphertext, .. } if kind == 3 => {
                let i = r.below(16);
                ciphertext[i] ^= 1 << r.below(8);
                set("another Finished of the server");
            }
            M::ClientFinishedVd(h) if kind == 6 => {
                h[r.below(32)] ^= 1 << r.below(8);
                set("another hash for the client's Finished");
            }
            M::ServerFinishedVd(h) if kind == 7 => {
                h[r.below(32)] ^= 1 << r.below(8);
                set("another hash for the server's Finished");
            }
            M::Encrypt { typ: typ @ ContentType::Handshake, .. } | M::Decrypt { typ: typ @ ContentType::Handshake, .. } if kind == 4 && r.bool() => {
                *typ = *r.pick(&[ContentType::Alert, ContentType::ApplicationData, ContentType::ChangeCipherSpec, ContentType::Unknown(77)]);
                set("a Finished of another type");
            }
            _ => {}
        }
        if kind == 5 && matches!(m, M::Encrypt { typ: ContentType::Handshake, .. }) {
            // something else first
            let p = r.bytes(2);
            set("a record before Finished");
            return vec![M::Encrypt { typ: ContentType::Alert, version: ProtocolVersion::TLSv1_2, len: 2, plaintext: Some(p) }, m];
        }
        vec![m]
    });
    let ran = go(r, &cfg, srv, hook)?;
    if said.borrow().is_empty() {
        return Ok(());
    }
    no(&ran, &said.borrow())?;
    o.see(said.borrow().clone());
    o.key(format!("{kind}{:?}", ran.msgs).chars().take(300).collect::<String>());
    Ok(())
}
/// The end of the session.
fn closing(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (cfg, srv) = start(r);
    let kind = r.below(3);
    let cut = r.below(20);
    let lvl = *r.pick(&[(1u8, 90u8), (1, 100), (2, 40), (2, 0), (1, 1), (0, 0)]);
    let said = Said::default();
    let s2 = said.clone();
    let mut over = false;
    let hook: Hook = Box::new(move |i, m| {
        if over {
            return vec![];
        }
        match (kind, &m) {
            // the verifier is to think that this is all
            (0, _) if i == cut => {
                over = true;
                *s2.borrow_mut() = format!("closing before {}", m.name());
                vec![M::CloseConnection]
            }
            (1, M::CloseConnection) => {
                over = true;
                *s2.borrow_mut() = "an alert which closes nothing at the end".into();
                vec![
                    M::Encrypt { typ: ContentType::Alert, version: ProtocolVersion::TLSv1_2, len: 2, plaintext: Some(vec![lvl.0, lvl.1]) },
                    M::Flush { is_decrypting: true },
                    m,
                ]
            }
            (2, M::CloseConnection) => {
                over = true;
                *s2.borrow_mut() = "a handshake message at the end".into();
                vec![
                    M::Encrypt { typ: ContentType::Handshake, version: ProtocolVersion::TLSv1_2, len: 4, plaintext: Some(vec![0, 0, 0, 0]) },
                    M::Flush { is_decrypting: true },
                    m,
                ]
            }
            _ => vec![m],
        }
    });
    let ran = go(r, &cfg, srv, hook)?;
    if said.borrow().is_empty() {
        return Ok(());
    }
    let (s, f) = (said.borrow().clone(), &ran.follower);
    if kind == 0 {
        // a prover may leave out what came last, never the handshake
        if let Ok(f) = f {
            let whole = ["SetClientRandom", "ServerHello", "ClientFinishedVd", "ServerFinishedVd"].iter().all(|n| ran.msgs.iter().any(|m| m.name() == *n));
            ensure!(whole, "the verifier accepted a session which ended in the handshake: {s}");
            ensure!(f.sent().len() > 1 && f.recv().len() > 1, "a session without any data was accepted: {s}");
        }
        ran.secret()?;
    } else {
        no(&ran, &s)?;
    }
    o.see(s);
    o.key(format!("{kind}{cut}{lvl:?}"));
    Ok(())
}
/// Values no honest prover sends.
fn shapes(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (mut cfg, srv) = start(r);
    cfg.defer = r.bool();
    let kind = r.below(9);
    let at = 3 + r.below(10);
    let mut r2 = R::new(r.u64(), "shapes", 0);
    let said = Said::default();
    let s2 = said.clone();
    let v = ProtocolVersion::TLSv1_2;
    let hook: Hook = Box::new(move |i, m| {
        let r = &mut r2;
        if i < at || !said_empty(&s2) {
            return vec![m];
        }
        let typ = *r.pick(&[ContentType::ApplicationData, ContentType::Alert, ContentType::Handshake, ContentType::Unknown(9)]);
        let app = typ == ContentType::ApplicationData;
        let n = *r.pick(&[0usize, 1, 7, 9, 15, 17, 32, 100]);
        let (what, x) = match kind {
            0 => ("a huge length", M::Encrypt { typ, version: v, len: *r.pick(&[usize::MAX, usize::MAX - 100, 1 << 63, 1 << 40, u32::MAX as usize, usize::MAX - 16]), plaintext: (!app).then(Vec::new) }),
            1 => ("a length that is not the plaintext's", M::Encrypt { typ: ContentType::Alert, version: v, len: 2, plaintext: Some(vec![0; if n == 0 { 1 } else { n }]) }),
            2 => ("a public record without plaintext", M::Encrypt { typ: ContentType::Alert, version: v, len: 2, plaintext: None }),
            3 => ("application data in the clear", M::Encrypt { typ: ContentType::ApplicationData, version: v, len: 4, plaintext: Some(vec![1; 4]) }),
            4 => {
                let n = if n == 8 { 7 } else { n };
                ("a nonce of another length", M::Decrypt { typ, version: v, explicit_nonce: r.bytes(n), ciphertext: r.bytes(5), tag: r.bytes(16) })
            }
            5 => {
                let n = if n == 16 { 7 } else { n };
                ("a tag of another length", M::Decrypt { typ, version: v, explicit_nonce: r.bytes(8), ciphertext: r.bytes(5), tag: r.bytes(n) })
            }
            6 => ("a record that was never received", M::Decrypt { typ, version: v, explicit_nonce: r.bytes(8), ciphertext: r.bytes(n), tag: r.bytes(16) }),
            7 => ("a record of a huge size", M::Decrypt { typ, version: v, explicit_nonce: r.bytes(8), ciphertext: vec![0; 17_000], tag: r.bytes(16) }),
            _ => ("a record that was never sent", M::Encrypt { typ, version: v, len: n, plaintext: (!app).then(|| r.bytes(n)) }),
        };
        *s2.borrow_mut() = what.into();
        vec![x, m]
    });
    let ran = go(r, &cfg, srv, hook)?;
    let s = said.borrow().clone();
    if s.is_empty() {
        return Ok(());
    }
    // what is held back is seen by the proof only
    match &ran.follower {
        Ok(f) => {
            ensure!(cfg.defer && matches!(kind, 4..=7), "the verifier accepted {s}");
            ensure!(f.recv().len() > 1, "a session without records");
        }
        Err(_) => {}
    }
    o.see(format!("{s}, deferred: {}", cfg.defer));
    o.key(format!("{kind}{at}"));
    Ok(())
}
fn said_empty(s: &Said) -> bool {
    s.borrow().is_empty()
}
/// Sessions whose last record says that more was to come.
fn open(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (cfg, srv) = start(r);
    let mine = r.bool();
    let (n, m) = (1 + r.below(100), 1 + r.below(100));
    let (a, b, first) = (r.bytes(n), r.bytes(m), r.bool());
    let warn = *r.pick(&[90u8, 100, 41, 112, 1, 255]);
    let ran = run(session(r, &cfg, &cfg, srv, None, async move |d: &mut Drv| {
        d.handshake().await?;
        if mine {
            d.write(&a);
            d.pump().await?;
            if first {
                d.serve_app(&b);
            }
            // answered by a warning of the client
            d.serve(HS, &srv::hs(0, &[]));
            d.pump().await?;
            if !first {
                d.serve_app(&b);
            }
        } else {
            d.serve_app(&b);
            d.write(&a);
            d.pump().await?;
            d.serve(ALERT, &[1, warn]);
        }
        d.pump().await?;
        d.close().await
    }))??;
    let what = format!("a warning as the last {} record", if mine { "sent" } else { "received" });
    ensure!(ran.follower.is_err(), "the verifier accepted a session with {what}");
    ensure!(!matches!(ran.leader, Some(Ok(_))), "the prover accepted a session with {what}");
    ran.secret()?;
    o.see(what);
    o.key(format!("{mine}{first}{warn}{}", cfg.defer));
    Ok(())
}
fn honest(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (cfg, srv) = start(r);
    let ran = go(r, &cfg, srv, Box::new(|_, m| vec![m]))?;
    let (l, f) = ended(&ran)?;
    whole(&ran, l, f)?;
    ran.secret()?;
    ensure!(f.time().abs_diff(ran.at) < 60, "time of the session");
    o.see("honest session");
    o.key("honest");
    Ok(())
}

pub fn m08(cx: &mut Cx) {
    cx.rule(
        "The real verifier with the real prover's messages altered between them: doubled, left out, late, with another time, \
         key, Finished, end or shape. Honest sessions are accepted with what the server saw; with the alteration the verifier \
         ends with an error and yields no session, does not panic, and learns no secret of the session.",
    );
    cx.cases("honest", 10, 300, |r, _, o| honest(r, o));
    cx.cases("again", 100, 4000, |r, _, o| again(r, o));
    cx.cases("order", 150, 6000, |r, _, o| order(r, o));
    cx.cases("clock", 60, 2000, |r, _, o| clock(r, o));
    cx.cases("key", 60, 2000, |r, _, o| key(r, o));
    cx.cases("finished", 80, 4000, |r, _, o| finished(r, o));
    cx.cases("closing", 100, 4000, |r, _, o| closing(r, o));
    cx.cases("open", 40, 1000, |r, _, o| open(r, o));
    cx.cases("shapes", 150, 6000, |r, _, o| shapes(r, o));
}
