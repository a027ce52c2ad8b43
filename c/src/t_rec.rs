//! The record layer in whole sessions.
use crate::{
    pair::{self, Cfg, Drv, M, Ran, agree, session},
    srv::{self, ALERT, APP, HS, Srv, record},
    util::{Unhook, run},
};
use tlsn_core::transcript::{ContentType as Ct, TlsTranscript};
use vfw::{Cx, Fail, Obs, R, ensure, ensure_eq};

pub fn bincase(n: usize) -> &'static str {
    match n {
        0 => "0",
        1..16 => "<16",
        16..256 => "<256",
        256..4096 => "<4096",
        _ => ">=4096",
    }
}
const NOTIFY: [u8; 2] = [1, 0];

#[derive(Clone, Debug)]
enum Act {
    Write(Vec<u8>),
    Serve(Vec<u8>),
    Warn,
    Decrypt(bool),
    Pump,
    Step,
}

/// The data of the records of one direction.
pub fn app(v: &[tlsn_core::transcript::Record]) -> Vec<u8> {
    v.iter().filter(|x| x.typ == Ct::ApplicationData).flat_map(|x| x.plaintext.clone().unwrap_or_default()).collect()
}
/// Everything that holds after a session both parties finished.
pub fn whole(ran: &Ran, l: &TlsTranscript, f: &TlsTranscript) -> Result<(), Fail> {
    agree(l, f)?;
    ran.secret()?;
    let s = &ran.drv;
    ensure_eq!(s.srv.app_in, s.wrote, "the server did not get what the application wrote");
    ensure_eq!(app(l.sent()), s.wrote, "committed sent data");
    ensure_eq!(app(l.recv()), s.srv.app_out, "committed received data");
    ensure_eq!(s.plain, s.srv.app_out, "released data");
    ensure!(!s.early, "data was released before the handshake ended");
    for (i, n) in s.srv.nonces.iter().enumerate() {
        ensure_eq!(*n, (i as u64).to_be_bytes().to_vec(), "nonce of sent record {i}");
    }
    ensure_eq!(l.sent().len(), s.srv.nonces.len(), "committed sent records and records the server got");
    // records the server saw after the change of cipher
    let at = s.srv.got.iter().position(|x| x.0 == srv::CCS).unwrap_or(0) + 1;
    for (x, y) in l.sent().iter().zip(&s.srv.got[at..]) {
        ensure_eq!(x.plaintext.as_deref(), Some(&y.1[..]), "a sent record's plaintext");
        ensure_eq!(tls_core::msgs::enums::ContentType::from(x.typ).get_u8(), y.0, "a sent record's type");
    }
    ensure!(ran.at.abs_diff(f.time()) <= 5, "session time {} is not now {}", f.time(), ran.at);
    // exactly one of each handshake message, in order
    let names: Vec<_> = ran.meant.iter().map(|m| m.name()).filter(|n| !matches!(*n, "Encrypt" | "Decrypt" | "Flush")).collect();
    ensure_eq!(
        names,
        ["SetClientRandom", "ServerHello", "ClientFinishedVd", "ServerFinishedVd", "StartTraffic", "CloseConnection"],
        "messages of the prover"
    );
    // what must stay hidden was not sent to the verifier
    for m in &ran.meant {
        if let M::Encrypt { typ, plaintext, .. } = m {
            ensure_eq!(plaintext.is_none(), *typ == tls_core::msgs::enums::ContentType::ApplicationData, "plaintext told to the verifier");
        }
    }
    Ok(())
}
pub fn ended(ran: &Ran) -> Result<(&TlsTranscript, &TlsTranscript), Fail> {
    let l = match &ran.leader {
        None => return Err(Fail::from("the prover waits forever")),
        Some(Err(e)) => return Err(Fail::from(format!("prover: {e} (server: {:?}; verifier: {:?})", ran.drv.srv.trouble, ran.follower.as_ref().err()))),
        Some(Ok(t)) => t,
    };
    match &ran.follower {
        Ok(f) => Ok((l, f)),
        Err(e) => Err(Fail::from(format!("verifier: {e}"))),
    }
}

fn history(r: &mut R, _: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let host = pair::host(r);
    let id = srv::ident(r, &host, None);
    let mut cfg = Cfg::new(r, &id);
    let limit = *r.pick(&[0usize, 40, 500, 3000]);
    cfg.max_sent = r.range(0, limit);
    cfg.max_recv = r.range(0, limit);
    cfg.max_recv_online = if r.bool() { cfg.max_recv } else { r.range(0, cfg.max_recv) };
    if r.chance(1, 3) {
        cfg.sent_records = Some(r.range(2, 8));
    }
    if r.chance(1, 3) {
        cfg.recv_records = Some(r.range(2, 8));
    }
    let block = |n: usize| n.div_ceil(16);
    // what may still be used of each: bytes, blocks, records
    let recs = |n: usize| 8 + n.saturating_sub(4096 - 32).div_ceil(4096);
    let mut sent = (cfg.max_sent as i64, block(cfg.max_sent + 32) as i64 - 2, cfg.sent_records.unwrap_or(2 + recs(cfg.max_sent)) as i64 - 2);
    let mut recv = cfg.max_recv as i64;
    let mut online = (
        cfg.max_recv_online as i64,
        block(cfg.max_recv_online + 32) as i64 - 2,
        cfg.recv_records.unwrap_or(2 + recs(cfg.max_recv_online)) as i64 - 2,
    );
    // with decryption switched on, everything held back counts
    let mut acts = vec![];
    let mut deferred = cfg.defer;
    let mut held: Vec<usize> = vec![];
    let mut big = 0;
    for _ in 0..r.range(1, 14) {
        match r.below(10) {
            0..=2 if sent.2 > 0 => {
                let n = r.len(sent.0.min(16 * sent.1).max(0) as usize);
                if n > 0 {
                    sent = (sent.0 - n as i64, sent.1 - block(n) as i64, sent.2 - 1);
                    acts.push(Act::Write(r.bytes(n)));
                    // one record per write
                    acts.push(Act::Step);
                    big = big.max(n);
                }
            }
            3..=6 => {
                let most = if deferred { recv } else { recv.min(online.0).min(16 * online.1) }.max(0) as usize;
                let n = r.len(most);
                if n == 0 {
                    o.see(format!("empty record, deferred: {deferred}"));
                }
                if deferred || online.2 > 0 {
                    if deferred {
                        held.push(n);
                    } else {
                        online = (online.0 - n as i64, online.1 - block(n) as i64, online.2 - 1);
                    }
                    recv -= n as i64;
                    acts.push(Act::Serve(r.bytes(n)));
                }
            }
            7 => {
                let ok = held.iter().sum::<usize>() as i64 <= online.0
                    && held.iter().map(|n| block(*n)).sum::<usize>() as i64 <= online.1
                    && held.len() as i64 <= online.2;
                if !deferred {
                    deferred = true;
                    acts.push(Act::Pump);
                    acts.push(Act::Decrypt(false));
                } else if ok {
                    deferred = false;
                    for n in held.drain(..) {
                        online = (online.0 - n as i64, online.1 - block(n) as i64, online.2 - 1);
                    }
                    acts.push(Act::Pump);
                    acts.push(Act::Decrypt(true));
                }
            }
            8 if !deferred && recv >= 2 && online.0 >= 2 && online.1 > 0 && online.2 > 0 => {
                recv -= 2;
                online = (online.0 - 2, online.1 - 1, online.2 - 1);
                acts.push(Act::Warn);
            }
            _ => acts.push(if r.bool() { Act::Pump } else { Act::Step }),
        }
    }
    let early = r.chance(1, 4) && sent.2 > 0 && sent.0.min(16 * sent.1) > 0;
    let early = if early { let n = 1 + r.len(sent.0.min(16 * sent.1) as usize - 1); r.bytes(n) } else { vec![] };
    let fcfg = Cfg { defer: r.bool(), ..cfg.clone() };
    // somebody must have said something after the handshake
    let wrote = !early.is_empty() || acts.iter().any(|a| matches!(a, Act::Write(_)));
    let served = acts.iter().rev().find_map(|a| match a {
        Act::Serve(_) => Some(true),
        Act::Warn => Some(false),
        _ => None,
    });
    let (c_bye, s_bye) = (r.bool() || !wrote, r.bool() || served != Some(true));
    let srv = Srv::new(id, r);
    let what = format!("{acts:?}").len();
    let n_acts = acts.len();
    let ran = run(session(r, &cfg, &fcfg, srv, None, async move |d: &mut Drv| {
        d.write(&early);
        d.handshake().await?;
        if d.client.is_handshaking() {
            return Err(format!("the handshake does not end; server: {:?}", d.srv.trouble));
        }
        for a in acts {
            match a {
                Act::Write(b) => d.write(&b),
                Act::Serve(b) => d.serve(APP, &b),
                Act::Warn => d.serve(ALERT, &[1, 90]),
                Act::Decrypt(b) => d.client.enable_decryption(b),
                Act::Pump => d.pump().await?,
                Act::Step => drop(d.step().await?),
            }
        }
        d.pump().await?;
        if c_bye {
            d.bye().await?;
        }
        if s_bye {
            d.serve(ALERT, &NOTIFY);
        }
        d.close().await
    }))??;
    let (l, f) = ended(&ran)?;
    whole(&ran, l, f)?;
    ensure_eq!(l.sent().last().unwrap().typ == Ct::Alert, c_bye, "closing record sent");
    ensure_eq!(l.recv().last().unwrap().typ == Ct::Alert, s_bye, "closing record received");
    o.add("records", (l.sent().len() + l.recv().len()) as u64);
    o.see(format!("deferred: {}", cfg.defer));
    o.see(format!("sent size {}", bincase(big)));
    o.see(format!("reduced: {}", cfg.low));
    if n_acts > 0 {
        o.key(format!("{what}{:?}{:?}", ran.drv.wrote.len(), ran.drv.plain.len()));
    }
    Ok(())
}


/// Reads every byte up to a limit and not one more.
fn limits(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let host = pair::host(r);
    let id = srv::ident(r, &host, None);
    let mut cfg = Cfg::new(r, &id);
    let over = r.bool();
    let which = r.below(5);
    let most = *r.pick(&[1usize, 16, 100, 1000, 5000, 17000]);
    let max = r.range(1, most);
    let mut sizes = vec![];
    // total of the case
    let total = if over { max + 17 + r.below(40) } else { max };
    (cfg.max_sent, cfg.max_recv, cfg.max_recv_online) = (100, 100, 100);
    let (mut sent, mut recv) = (vec![1usize], vec![1usize]);
    if which < 3 {
        // only the last record may leave part of a block unused
        let mut left = total;
        let mut n = 0;
        while left > 0 {
            n += 1;
            let k = if n > 6 || left < 33 { left } else { 16 * r.range(1, left / 16) };
            let k = k.min(16384);
            sizes.push(k);
            left -= k;
        }
    } else {
        let n = r.range(1, 9) + usize::from(over);
        sizes = (0..n).map(|_| 1 + r.below(16)).collect();
    }
    let records = sizes.len() + 1 - usize::from(over);
    let name = match which {
        0 => {
            cfg.max_sent = max;
            cfg.sent_records = Some(sizes.len() + 2);
            sent = sizes.clone();
            "sent bytes"
        }
        1 => {
            cfg.defer = true;
            cfg.max_recv = max;
            cfg.max_recv_online = r.below(max + 1);
            recv = sizes.clone();
            "received bytes"
        }
        2 => {
            cfg.defer = false;
            cfg.max_recv_online = max;
            cfg.max_recv = max + 10_000;
            cfg.recv_records = Some(sizes.len() + 2);
            recv = sizes.clone();
            "received bytes online"
        }
        3 => {
            cfg.max_sent = 200;
            cfg.sent_records = Some(records);
            sent = sizes.clone();
            "sent records"
        }
        _ => {
            cfg.defer = false;
            cfg.max_recv_online = 200;
            cfg.max_recv = 200;
            cfg.recv_records = Some(records);
            recv = sizes.clone();
            "received records online"
        }
    };
    let srv = Srv::new(id, r);
    let late = r.bool();
    let (mut sent, mut recv): (Vec<_>, Vec<_>) = (sent.into_iter().map(|n| r.bytes(n)).collect(), recv.into_iter().map(|n| r.bytes(n)).collect());
    let most_sent: usize = if which == 0 { max + 16 } else { usize::MAX };
    let ran = run(session(r, &cfg, &cfg, srv, None, async move |d: &mut Drv| {
        d.handshake().await?;
        for turn in 0..2 {
            if (turn == 0) == late {
                for b in sent.drain(..) {
                    d.write(&b);
                    d.pump().await?;
                }
            } else {
                for b in recv.drain(..) {
                    d.serve_app(&b);
                    d.pump().await?;
                }
            }
        }
        d.close().await
    }))??;
    if over {
        match &ran.leader {
            None => return Err(Fail::from(format!("the prover hangs beyond the limit of {name}"))),
            Some(Ok(_)) => return Err(Fail::from(format!("the prover went beyond the limit of {name}"))),
            Some(Err(_)) => {}
        }
        ensure!(ran.follower.is_err(), "the verifier went beyond the limit of {name}");
        ensure!(ran.drv.srv.app_in.len() <= most_sent, "{} bytes left where {max} may", ran.drv.srv.app_in.len());
        ensure!(ran.drv.wrote.starts_with(&ran.drv.srv.app_in) && ran.drv.srv.app_out.starts_with(&ran.drv.plain), "altered data beyond the limit");
    } else {
        let (l, f) = ended(&ran)?;
        whole(&ran, l, f)?;
    }
    o.see(format!("{name}: {}", if over { "beyond" } else { "exactly" }));
    o.key(format!("{name}{over}{max}{}", sizes.len()));
    Ok(())
}

/// A prover that says more than was agreed.
fn greedy(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    use tls_core::msgs::enums::{ContentType, ProtocolVersion};
    let host = pair::host(r);
    let id = srv::ident(r, &host, None);
    let mut cfg = Cfg::new(r, &id);
    (cfg.max_sent, cfg.max_recv, cfg.max_recv_online) = (r.range(50, 2000), r.range(1000, 3000), 1000);
    let which = r.below(5);
    let (over, many) = (17 + r.below(100), r.bool());
    let recv = which % 2 == 1;
    let limit = if recv { cfg.max_recv } else { cfg.max_sent };
    let sizes: Vec<usize> = match which {
        // too many, none too long
        4 => vec![0; 1030],
        _ if many => {
            let n = r.range(2, 20);
            let all = limit + over;
            let mut v = vec![all / n; n];
            v[0] += all % n;
            v
        }
        _ => vec![limit + over],
    };
    let in_recv = if which == 4 { r.bool() } else { recv };
    let at = 4 + r.below(3);
    let typ = *r.pick(&[ContentType::ApplicationData, ContentType::Alert, ContentType::Handshake]);
    let mut r2 = R::new(r.u64(), "greedy", 0);
    let mut done = false;
    let hook: pair::Hook = Box::new(move |i, m| {
        if done {
            return vec![];
        }
        if i < at {
            return vec![m];
        }
        done = true;
        sizes
            .iter()
            .map(|n| {
                if in_recv {
                    let (e, t) = (r2.bytes(8), r2.bytes(16));
                    M::Decrypt { typ, version: ProtocolVersion::TLSv1_2, explicit_nonce: e, ciphertext: r2.bytes(*n), tag: t }
                } else {
                    let p = (typ != ContentType::ApplicationData).then(|| r2.bytes(*n));
                    M::Encrypt { typ, version: ProtocolVersion::TLSv1_2, len: *n, plaintext: p }
                }
            })
            .collect()
    });
    let srv = Srv::new(id, r);
    let ran = run(session(r, &cfg, &cfg, srv, Some(hook), async move |d: &mut Drv| {
        d.handshake().await?;
        d.write(b"hello");
        d.serve_app(b"hi");
        d.close().await
    }))??;
    ensure!(ran.follower.is_err(), "the verifier accepted more than was agreed");
    ensure!(!matches!(ran.leader, Some(Ok(_))), "the prover finished without the verifier");
    ensure!(ran.prompt, "the verifier took more than was agreed and went on");
    o.see(format!("{} {}", if in_recv { "received" } else { "sent" }, if which == 4 { "too many" } else if many { "too much, in parts" } else { "too much at once" }));
    o.key(format!("{which}{over}{limit}{at}{typ:?}"));
    Ok(())
}

pub fn m06(cx: &mut Cx) {
    cx.rule(
        "Whole sessions of the real prover and verifier record layers with a server of ours, over every order of writes, \
         reads, flushes and switches of decryption: the server gets exactly what was written under consecutive nonces; what is \
         released is exactly what it sent; both parties end with the same record lists, every record once and in order; \
         totals up to a limit work and one block beyond never does, for the verifier against a prover that says more, too.",
    );
    cx.cases("history", 400, 20000, history);
    cx.cases("limits", 120, 5000, |r, _, o| limits(r, o));
    cx.cases("greedy", 80, 3000, |r, _, o| greedy(r, o));
}

/// Records as they are on the wire.
fn split(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut at = 0;
    while let Some(h) = b.get(at..at + 5) {
        let n = 5 + u16::from_be_bytes([h[3], h[4]]) as usize;
        v.push(b[at..at + n].to_vec());
        at += n;
    }
    v
}
fn resize(mut x: Vec<u8>) -> Vec<u8> {
    let n = (x.len() - 5) as u16;
    x[3..5].copy_from_slice(&n.to_be_bytes());
    x
}
/// Somebody on the way alters what the server sends.
fn altered(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let host = pair::host(r);
    let id = srv::ident(r, &host, None);
    let mut cfg = Cfg::new(r, &id);
    (cfg.max_sent, cfg.max_recv, cfg.max_recv_online) = (64, 4000, 4000);
    cfg.recv_records = Some(12);
    let n = r.range(1, 5);
    let datas: Vec<Vec<u8>> = (0..n).map(|_| if r.chance(1, 10) { vec![] } else { let n = 1 + r.len(300); r.bytes(n) }).collect();
    let bye = r.bool();
    let switch = cfg.defer && r.chance(1, 3);
    let mut r2 = R::new(r.u64(), "alter", 0);
    let deferred = cfg.defer;
    let srv = Srv::new(id, r);
    let what = std::rc::Rc::new(std::cell::RefCell::new(String::new()));
    let w2 = what.clone();
    let one_by_one = r.bool();
    let ran = run(session(r, &cfg, &cfg, srv, None, async move |d: &mut Drv| {
        let r = &mut r2;
        d.handshake().await?;
        d.write(b"GET / HTTP/1.1\r\n\r\n");
        d.pump().await?;
        let mut recs = vec![];
        for b in &datas {
            recs.extend(split(&d.srv.send(APP, b)));
        }
        if bye {
            recs.extend(split(&d.srv.send(ALERT, &NOTIFY)));
        }
        let i = r.below(recs.len());
        let x = recs[i].clone();
        let body = x.len() - 24;
        let name = match r.below(16) {
            0 if body > 5 => {
                let k = 13 + r.below(body - 5);
                recs[i][k] ^= 1 << r.below(8);
                "ciphertext"
            }
            1 => {
                let k = x.len() - 1 - r.below(16);
                recs[i][k] ^= 1 << r.below(8);
                "tag"
            }
            2 => {
                let k = 5 + r.below(8);
                recs[i][k] ^= 1 << r.below(8);
                "nonce"
            }
            3 => {
                recs[i][0] = if x[0] == APP { *r.pick(&[ALERT, HS]) } else { *r.pick(&[APP, HS]) };
                "type"
            }
            4 => {
                recs[i][1..3].copy_from_slice(&r.pick(&[0x0302u16, 0x0301, 0x0304]).to_be_bytes());
                "version"
            }
            5 if body > 5 => {
                recs[i].remove(13 + r.below(body - 5));
                recs[i] = resize(std::mem::take(&mut recs[i]));
                "shorter"
            }
            6 => {
                let at = 13 + r.below(x.len() - 13);
                let b = r.u8();
                recs[i].insert(at, b);
                if recs[i][13..] == x[13..] {
                    recs[i].push(0);
                }
                recs[i] = resize(std::mem::take(&mut recs[i]));
                "longer"
            }
            7 | 8 if i + 1 < recs.len() => {
                recs.remove(i);
                "left out"
            }
            // what follows a goodbye is not looked at
            9 if i < datas.len() => {
                recs.insert(i, x);
                "doubled"
            }
            10 | 11 if i + 1 < recs.len() => {
                recs.swap(i, i + 1);
                "swapped"
            }
            12 => {
                recs.insert(i, record(APP, 0x0303, &r.bytes(30)));
                "invented"
            }
            13 => {
                let n = r.below(24);
                recs.insert(i, record(*r.pick(&[APP, ALERT]), 0x0303, &r.bytes(n)));
                "too short"
            }
            14 => {
                // as if the server had said it without protection
                recs.insert(i, record(ALERT, 0x0303, &NOTIFY));
                "plain alert"
            }
            _ => {
                let g = d.srv.wr.as_mut().unwrap();
                let (e, b) = (r.arr(), r.bytes(20));
                let p = crate::srv::Gcm::new(&r.bytes(16), &r.bytes(4)).seal(APP, 0x0303, e, &b);
                let _ = g;
                recs.insert(i, record(APP, 0x0303, &p));
                "other key"
            }
        };
        *w2.borrow_mut() = format!("{name}, {} of {}{}", i, datas.len(), if bye { " and a goodbye" } else { "" });
        for x in recs {
            d.inbox.extend(x);
            if one_by_one {
                d.pump().await?;
            }
        }
        d.pump().await?;
        if switch {
            d.client.enable_decryption(true);
            d.pump().await?;
        }
        d.close().await
    }))??;
    let what = what.borrow().clone();
    match &ran.leader {
        Some(Err(_)) => {}
        None => return Err(Fail::from(format!("the prover hangs; altered: {what}"))),
        Some(Ok(_)) => return Err(Fail::from(format!("the prover accepted altered data; altered: {what}, deferred: {deferred}"))),
    }
    ensure!(ran.drv.srv.app_out.starts_with(&ran.drv.plain), "altered data was released: {what}");
    if !deferred {
        ensure!(ran.follower.is_err(), "the verifier accepted an altered record: {what}");
    }
    ran.secret()?;
    o.see(format!("{}: {}", if !deferred { "online" } else if switch { "switched on" } else { "deferred" }, what.split(',').next().unwrap()));
    o.key(what);
    Ok(())
}
/// The prover tells the verifier of another record than it received.
fn told(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    use tls_core::msgs::enums::{ContentType, ProtocolVersion};
    let host = pair::host(r);
    let id = srv::ident(r, &host, None);
    let mut cfg = Cfg::new(r, &id);
    cfg.defer = false;
    let at = r.below(5);
    let kind = r.below(6);
    let mut r2 = R::new(r.u64(), "told", 0);
    let seen = std::rc::Rc::new(std::cell::Cell::new(""));
    let s2 = seen.clone();
    let mut n = 0;
    let hook: pair::Hook = Box::new(move |_, mut m| {
        let r = &mut r2;
        if let M::Decrypt { typ, version, explicit_nonce, ciphertext, tag } = &mut m {
            if n == at {
                let bit = |r: &mut R, v: &mut Vec<u8>| {
                    let k = r.below(v.len());
                    v[k] ^= 1 << r.below(8)
                };
                s2.set(match kind {
                    0 if !ciphertext.is_empty() => {
                        bit(r, ciphertext);
                        "ciphertext"
                    }
                    1 => {
                        bit(r, tag);
                        "tag"
                    }
                    2 => {
                        bit(r, explicit_nonce);
                        "nonce"
                    }
                    3 => {
                        *typ = if *typ == ContentType::ApplicationData { ContentType::Alert } else { ContentType::ApplicationData };
                        "type"
                    }
                    4 => {
                        *version = ProtocolVersion::TLSv1_1;
                        "version"
                    }
                    _ => {
                        ciphertext.push(0);
                        "length"
                    }
                });
            }
            n += 1;
        }
        vec![m]
    });
    let srv = Srv::new(id, r);
    let datas: Vec<_> = (0..at).map(|_| { let n = 1 + r.len(100); r.bytes(n) }).collect();
    let ran = run(session(r, &cfg, &cfg, srv, Some(hook), async move |d: &mut Drv| {
        d.handshake().await?;
        d.write(b"hello");
        for b in &datas {
            d.serve_app(b);
            d.pump().await?;
        }
        d.serve(ALERT, &NOTIFY);
        d.close().await
    }))??;
    ensure!(!seen.get().is_empty(), "nothing was altered");
    // tags of received records are the business of the proof
    if seen.get() != "tag" {
        ensure!(ran.follower.is_err(), "the verifier accepted a record that is not the server's: {} of record {at}", seen.get());
    }
    ran.secret()?;
    o.see(format!("told another {} of {}", seen.get(), if at == 0 { "Finished" } else { "data" }));
    o.key(format!("{at}{kind}"));
    Ok(())
}
/// Sizes, one after another.
fn sizes(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let host = pair::host(r);
    let id = srv::ident(r, &host, None);
    let mut cfg = Cfg::new(r, &id);
    let n: Vec<usize> = (0..6).map(|k| if i % 10 == 9 && k == 0 { 16384 - r.below(40) } else { (i as usize * 6 + k) % 400 }).collect();
    let all: usize = n.iter().map(|n| n.div_ceil(16) * 16).sum();
    (cfg.max_sent, cfg.max_recv, cfg.max_recv_online) = (all, all, all);
    (cfg.sent_records, cfg.recv_records) = (Some(8), Some(8));
    let srv = Srv::new(id, r);
    let datas: Vec<_> = n.iter().map(|n| (r.bytes(*n), r.bytes(*n))).collect();
    let ran = run(session(r, &cfg, &cfg, srv, None, async move |d: &mut Drv| {
        d.handshake().await?;
        for (a, b) in &datas {
            d.write(a);
            d.serve_app(b);
            d.pump().await?;
        }
        d.bye().await?;
        d.serve(ALERT, &NOTIFY);
        d.close().await
    }))??;
    let (l, f) = ended(&ran)?;
    whole(&ran, l, f)?;
    for n in &n {
        o.see(format!("size mod 16 = {}", n % 16));
    }
    o.add("tags checked by the server", ran.drv.srv.nonces.len() as u64);
    o.add("tags checked by the parties", l.recv().len() as u64);
    o.key(format!("{n:?}{}", cfg.defer));
    Ok(())
}
pub fn m05(cx: &mut Cx) {
    cx.rule(
        "Whole sessions against a server that seals and opens records with ring: every record size works in both directions; \
         with one record changed on the way (ciphertext, tag, nonce, type, version, length, place, number, key) the prover \
         never ends with a session, the application gets only a prefix of the server's data, and the verifier neither \
         accepts the record online nor learns any keystream, key or plaintext it must not.",
    );
    cx.cases("sizes", 70, 700, sizes);
    cx.cases("altered", 300, 20000, |r, _, o| altered(r, o));
    cx.cases("told", 80, 4000, |r, _, o| told(r, o));
}
