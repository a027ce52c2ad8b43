//! Sessions which do not go to plan: refused, cut off, left, or fed with nonsense. Nobody waits for
//! ever, nobody panics, and what is taken for a result is one.
use crate::{
    ses::{self, Cfg, CommitReq, Ends, Item, Net, Ran, Reply, Req, Tap, Way, parse, session, sessions},
    t_ses::{how, truth, whole},
    util::{Unhook, run},
};
use std::{cell::RefCell, rc::Rc};
use tlsn::config::tls_commit::TlsCommitConfig;
use vfw::{Cx, Fail, Obs, R, ensure, ensure_eq};

/// Whoever reports success has everything.
fn complete(cfg: &Cfg, ran: &Ran) -> Result<(), Fail> {
    truth(cfg, ran)?;
    if ran.p.done {
        ensure_eq!(ran.p.outs.iter().filter(|x| x.is_ok()).count(), cfg.asks.iter().filter(|a| !a.refuse).count(), "the prover ended without its results");
    }
    if ran.v.done && cfg.reject.is_none() {
        ensure_eq!(ran.v.outs.len(), cfg.asks.iter().filter(|a| !a.refuse).count(), "the verifier ended without its results");
    }
    ensure!(ran.p.done || ran.p.err.is_some(), "the prover has neither result nor error");
    ensure!(ran.v.done || ran.v.err.is_some(), "the verifier has neither result nor error");
    Ok(())
}
fn version(r: &mut R, _: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (cfg, srv) = ses::start(r);
    let was = Rc::new(RefCell::new(String::new()));
    let (w2, k, mut r2) = (was.clone(), r.below(5), R::new(r.u64(), "version", 0));
    let tap: Tap = Box::new(move |way, _, x| {
        if let (Way::Up, Item::Msg { stream, path, body }) = (way, &x)
            && let Some(mut q) = parse::<CommitReq>(body)
        {
            *w2.borrow_mut() = q.version.clone();
            let mut p: Vec<String> = q.version.split(['.', '-']).map(|x| x.to_string()).collect();
            q.version = match k {
                0 => "0.0.0".into(),
                1 => format!("{}+x", q.version),
                2 => format!("{}9", q.version),
                3 => {
                    let i = r2.below(3);
                    p[i] = (p[i].parse::<u64>().unwrap_or(0) + 1).to_string();
                    p[..3].join(".")
                }
                _ => format!("{}.0", q.version),
            };
            return Some(vec![Item::Msg { stream: stream.clone(), path: path.clone(), body: bincode::serialize(&q).unwrap() }]);
        }
        Some(vec![x])
    });
    let ran = run(session(&cfg, srv, Net { tap: Some(tap), ..Net::default() }))??;
    complete(&cfg, &ran)?;
    ensure!(!was.borrow().is_empty(), "the prover does not tell its version");
    ensure_eq!((ran.p.step, ran.v.step), ("commit", "commit"), "another version is accepted");
    let (p, v) = (ran.p.err.unwrap_or_default(), ran.v.err.unwrap_or_default());
    ensure!(p.contains("version") && v.contains("version"), "the reason is lost: {p} / {v}");
    ensure_eq!(ran.p.kinds, Some((true, false)), "the kind of the prover's error");
    o.see("version");
    o.key(format!("{k} {}", how(&cfg)));
    Ok(())
}
fn reject(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (mut cfg, srv) = ses::start(r);
    let why = format!("reason {}", r.u32());
    cfg.reject = Some((i % 2 == 0).then(|| why.clone()));
    let ran = run(session(&cfg, srv, Net::default()))??;
    complete(&cfg, &ran)?;
    ensure!(ran.v.done, "rejecting fails: {:?}", ran.v.err);
    ensure_eq!(ran.p.step, "commit", "the prover goes on after a rejection");
    let e = ran.p.err.unwrap_or_default();
    ensure!(i % 2 == 1 || e.contains(&why), "the reason is lost: {e}");
    ensure_eq!(ran.p.kinds, Some((true, false)), "the kind of the prover's error");
    ensure!(ran.served.srv.hello.is_none() && ran.served.srv.app_in.is_empty(), "the server was contacted");
    o.see("reject");
    o.key(format!("{i} {}", how(&cfg)));
    Ok(())
}
/// The lengths of an undisturbed run.
fn rehearse(seed: u64, f: impl Fn(&mut R) -> (Cfg, crate::srv::Srv)) -> Result<(Ran, Cfg), Fail> {
    let (cfg, srv) = f(&mut R::new(seed, "twin", 0));
    let ran = run(session(&cfg, srv, Net::default()))??;
    Ok((ran, cfg))
}
fn cut(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let seed = r.u64();
    let (first, _) = rehearse(seed, |r| ses::start(r))?;
    let way = if r.bool() { Way::Up } else { Way::Down };
    let bytes = first.seen.bytes[way as usize];
    let n = first.seen.items.iter().filter(|x| x.0 == way).count();
    let at = match i % 3 {
        0 => r.below(bytes + 1),
        1 => bytes - r.below(400.min(bytes)),
        _ => r.below(3000.min(bytes)),
    };
    let by_item = r.bool();
    let k = r.below(n);
    let (cfg, srv) = ses::start(&mut R::new(seed, "twin", 0));
    let net = if by_item {
        let tap: Tap = Box::new(move |w, i, x| (w != way || i < k).then(|| vec![x]));
        Net { tap: Some(tap), ..Net::default() }
    } else {
        Net { limit: Some((way, at)), ..Net::default() }
    };
    let ran = run(session(&cfg, srv, net))??;
    ensure!(ran.seen.cut || ran.p.done && ran.v.done, "the connection was not cut, but: {:?} {:?}", ran.p.err, ran.v.err);
    complete(&cfg, &ran)?;
    o.see(format!("cut: prover {} {}", ran.p.step, if ran.p.done { "done" } else { "error" }));
    o.see(format!("cut: verifier {} {}", ran.v.step, if ran.v.done { "done" } else { "error" }));
    o.key(format!("{way:?} {at} {by_item} {k} {n} {bytes} {}", how(&cfg)));
    Ok(())
}
fn quit(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (mut cfg, srv) = ses::start(r);
    let n = (i / 2 % 6) as u8;
    if i % 2 == 0 {
        cfg.prover_quits = Some(n.min(4));
    } else {
        cfg.verifier_quits = Some(n);
    }
    let ran = run(session(&cfg, srv, Net::default()))??;
    complete(&cfg, &ran)?;
    let (p, v) = (cfg.prover_quits, cfg.verifier_quits);
    if p.is_some_and(|n| n < 3) {
        ensure!(!ran.v.done && ran.v.outs.is_empty(), "the verifier ends well without the prover");
    }
    if v.is_some_and(|n| n < 5) {
        ensure!(!ran.p.done && ran.p.outs.iter().all(|x| x.is_err()) || n > 2, "the prover ends well without the verifier");
    }
    o.see(format!("quit: {}", if p.is_some() { "prover" } else { "verifier" }));
    o.key(format!("{i} {} {}", how(&cfg), ran.p.step));
    Ok(())
}
fn server(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let seed = r.u64();
    let f = |r: &mut R| {
        let (mut cfg, srv) = ses::start(r);
        cfg.plan.ends = *r.pick(&[Ends::Client, Ends::Server, Ends::Abrupt, Ends::Abrupt]);
        (cfg, srv)
    };
    let (first, _) = rehearse(seed, f)?;
    let n = first.served.sent;
    let (mut cfg, srv) = f(&mut R::new(seed, "twin", 0));
    let die = match i % 4 {
        0 => r.below(n + 1),
        1 => n.saturating_sub(r.below(80)),
        2 => *r.pick(&[0, 1, 5, 6, 9, 40, 90, 100, 200]),
        _ => n + 1,
    };
    cfg.plan.die = Some(die);
    let ran = run(session(&cfg, srv, Net::default()))??;
    complete(&cfg, &ran)?;
    let s = &ran.served.srv;
    if s.stage != crate::srv::Stage::Traffic {
        ensure!(!ran.p.done && !ran.v.done, "a session without a handshake ends well");
    }
    if ran.p.done {
        let t = ran.p.transcript.as_ref().unwrap();
        ensure!(s.app_out.starts_with(t.received()) && s.app_in.starts_with(t.sent()), "the prover's transcript of a broken connection is wrong");
    }
    o.see(format!("server: {:?} {}", s.stage, if ran.p.done { "done" } else { "error" }));
    o.key(format!("{die} {n} {} {:?}", how(&cfg), ran.p.err));
    Ok(())
}
/// A bit of what the server sends is altered on the way.
fn mangled(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let seed = r.u64();
    let (first, _) = rehearse(seed, |r| ses::start(r))?;
    let n = first.served.sent;
    let (mut cfg, srv) = ses::start(&mut R::new(seed, "twin", 0));
    let at = match i % 3 {
        0 => r.below(n),
        1 => n - 1 - r.below(200.min(n)),
        _ => *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 40, 43, 44, 76, 77, 80, 85, 90]),
    };
    cfg.plan.flip = Some((at, r.below(8) as u8));
    let ran = run(session(&cfg, srv, Net::default()))??;
    complete(&cfg, &ran)?;
    let s = &ran.served.srv;
    if let Some(t) = &ran.p.transcript {
        ensure!(s.app_out.starts_with(t.received()) && t.sent() == s.app_in, "the prover's transcript is not what the server sent");
    }
    if ran.p.done && cfg.plan.ends == Ends::Server {
        ensure!(at < 5 || ran.p.transcript.as_ref().unwrap().received() == s.app_out, "altered data was skipped");
    }
    o.see(format!("mangled: {:?} {}", s.stage, if ran.p.done { "done" } else { "error" }));
    o.key(format!("{at} {n} {} {:?} {:?}", how(&cfg), cfg.plan.flip, ran.p.err));
    Ok(())
}
/// Bytes which are no message, or another one.
fn garbage(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (cfg, srv) = ses::start(r);
    let which = r.below(4);
    let kind = i % 5;
    let mut r2 = R::new(r.u64(), "garbage", i);
    let hit = Rc::new(RefCell::new(None::<(&'static str, bool)>));
    let h2 = hit.clone();
    let mut n = 0;
    let tap: Tap = Box::new(move |way, _, x| {
        let Item::Msg { stream, path, body } = &x else { return Some(vec![x]) };
        let name = match way {
            Way::Up if parse::<CommitReq>(body).is_some() => "commit request",
            Way::Up if parse::<Req>(body).is_some() => "prove request",
            Way::Down if parse::<Reply>(body).is_some() => "reply",
            _ => return Some(vec![x]),
        };
        n += 1;
        if n != which + 1 {
            return Some(vec![x]);
        }
        let r = &mut r2;
        let mut b = body.clone();
        match kind {
            0 | 1 => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            2 => b.truncate(r.below(b.len())),
            3 => {
                let n = 1 + r.below(40);
                b.extend(r.bytes(n));
            }
            _ => {
                let n = r.below(200);
                b = r.bytes(n);
            }
        }
        let still = match name {
            "commit request" => parse::<CommitReq>(&b).is_some(),
            "prove request" => parse::<Req>(&b).is_some(),
            _ => parse::<Reply>(&b).is_some(),
        };
        *h2.borrow_mut() = Some((name, still));
        Some(vec![Item::Msg { stream: stream.clone(), path: path.clone(), body: b }])
    });
    let ran = run(session(&cfg, srv, Net { tap: Some(tap), ..Net::default() }));
    let hit = *hit.borrow();
    let Some((name, still)) = hit else {
        o.see("garbage: none");
        return Ok(());
    };
    // parties with different settings can end up waiting for each other
    if still && name == "commit request" && (ran.is_err() || matches!(&ran, Ok(Err(Fail::Violation(s, _))) if s == "SPINS")) {
        o.see("garbage: other settings: waits");
        return Ok(());
    }
    let ran = ran??;
    complete(&cfg, &ran)?;
    if !still && kind != 3 {
        // a verifier may be at its end when its last reply goes wrong
        ensure!(ran.p.err.is_some() && (ran.v.err.is_some() || name == "reply"), "a {name} which is none is taken for one");
    }
    o.see(format!("garbage: {name}"));
    o.key(format!("{name} {still} {:?} {:?}", ran.p.err, ran.v.err));
    Ok(())
}
/// The verifier gets settings the prover does not keep.
fn limits(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    #[derive(serde::Serialize, serde::Deserialize, Clone)]
    struct Raw {
        sent: usize,
        sent_records: Option<usize>,
        online: usize,
        recv: usize,
        online_records: Option<usize>,
        defer: bool,
        network: u32,
    }
    let mode = ses::mpc(r);
    let (cfg, srv) = ses::start_with(r, mode);
    let mut r2 = R::new(r.u64(), "limits", i);
    let said = Rc::new(RefCell::new(String::new()));
    let s2 = said.clone();
    let tap: Tap = Box::new(move |way, _, x| {
        if let (Way::Up, Item::Msg { stream, path, body }) = (way, &x)
            && let Some(mut q) = parse::<CommitReq>(body)
            && let Ok(mut w) = bincode::deserialize::<(u32, Raw)>(&bincode::serialize(&q.config).unwrap())
        {
            let r = &mut r2;
            let v = *r.pick(&[0, 1, 15, 16, 17, 31, 33, 200, 999, 1001, 5000, ses::LIMIT, ses::LIMIT + 1, usize::MAX]);
            let c = &mut w.1;
            let what = match i % 6 {
                0 => {
                    c.sent = v;
                    "sent"
                }
                1 => {
                    c.online = v;
                    "online"
                }
                2 => {
                    c.recv = v;
                    "recv"
                }
                3 => {
                    c.sent_records = Some(v);
                    "sent records"
                }
                4 => {
                    c.online_records = Some(v);
                    "received records"
                }
                _ => {
                    (c.online, c.recv) = (v, v);
                    "received"
                }
            };
            *s2.borrow_mut() = format!("{what} {v}");
            if let Ok(c) = bincode::deserialize::<TlsCommitConfig>(&bincode::serialize(&w).unwrap()) {
                q.config = c;
            }
            return Some(vec![Item::Msg { stream: stream.clone(), path: path.clone(), body: bincode::serialize(&q).unwrap() }]);
        }
        Some(vec![x])
    });
    let ran = run(session(&cfg, srv, Net { tap: Some(tap), ..Net::default() }));
    ensure!(!said.borrow().is_empty(), "HARNESS no settings were seen");
    match ran {
        // different settings: either may wait for what the other does not do
        Err(_) => o.see("limits: waits"),
        Ok(Err(Fail::Violation(s, _))) if s == "SPINS" => o.see("limits: waits"),
        Ok(x) => complete(&cfg, &x?)?,
    }
    o.see("limits");
    o.key(said.borrow().as_bytes());
    Ok(())
}
/// Pairs on one connection do not disturb each other.
fn several(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let n = 2 + r.below(2);
    let mut all: Vec<_> = (0..n).map(|_| ses::start(r)).collect();
    // one of them may end early
    let odd = (i % 2 == 1).then(|| r.below(n));
    if let Some(k) = odd {
        match r.below(3) {
            0 => all[k].0.reject = Some(None),
            1 => all[k].0.plan.die = Some(r.below(2000)),
            _ => all[k].0.asks[0].refuse = true,
        }
    }
    let (cfgs, srvs): (Vec<_>, Vec<_>) = all.into_iter().unzip();
    let rans = run(sessions(cfgs.iter().zip(srvs).collect(), Net::default()))??;
    for (k, (c, x)) in cfgs.iter().zip(&rans).enumerate() {
        if Some(k) == odd {
            complete(c, x)?;
        } else {
            whole(c, x)?;
        }
        o.see(how(c));
    }
    o.see("several");
    o.key(format!("{i} {n}"));
    Ok(())
}
pub fn m10(cx: &mut Cx) {
    cx.rule(
        "Whole sessions which do not go to plan: another version, a refusal, a connection cut at any byte or message, a party which \
         leaves at any step, a server which leaves or whose bytes are altered, messages which are none, settings the prover does \
         not keep, several sessions on one connection. Both parties end (simulated time: a wait without end is seen), without \
         panicking, and what is reported as a result is complete and true.",
    );
    cx.assume("the multiplexer and the libraries for joint computation are stand-ins; their own behaviour on a broken connection is theirs");
    cx.require("garbage: commit request", 3);
    cx.require("garbage: prove request", 3);
    cx.require("garbage: reply", 3);
    cx.require("quit: prover", 6);
    cx.require("quit: verifier", 6);
    cx.cases("version", 12, 100, version);
    cx.cases("reject", 8, 50, reject);
    cx.cases("cut", 60, 1000, cut);
    cx.cases("quit", 24, 240, quit);
    cx.cases("server", 50, 800, server);
    cx.cases("mangled", 60, 1000, mangled);
    cx.cases("garbage", 50, 800, garbage);
    cx.cases("limits", 30, 300, limits);
    cx.cases("several", 10, 150, several);
}
