//! Whole sessions: what the verifier ends up with is true, and no more than it was meant to see.
use crate::{
    pair,
    ses::{self, Cfg, Item, Net, Ran, Req, Way, parse, session},
    util::{Unhook, run, sha},
};
use tlsn::{
    hash::HashAlgId,
    transcript::{Direction, TranscriptCommitment, TranscriptSecret},
};
use vfw::{Cx, Fail, Obs, R, ensure, ensure_eq};

fn hash(alg: HashAlgId, b: &[u8]) -> Option<Vec<u8>> {
    match alg {
        HashAlgId::SHA256 => Some(sha(b).to_vec()),
        HashAlgId::BLAKE3 => Some(blake3::hash(b).as_bytes().to_vec()),
        _ => None,
    }
}
fn set(v: &Option<Vec<std::ops::Range<usize>>>, n: usize) -> Vec<bool> {
    let mut m = vec![false; n];
    for x in v.iter().flatten().flat_map(|x| x.clone()) {
        m[x] = true;
    }
    m
}
/// The outputs of the verifier hold whatever the prover did: they match what the server sent and
/// received, and the server's name. A prover may keep the end of either to itself: records which
/// it never told the verifier, or never gave to the server.
pub fn truth(cfg: &Cfg, ran: &Ran) -> Result<(), Fail> {
    let (a, b) = (&ran.served.srv.app_in, &ran.served.srv.app_out);
    for o in &ran.v.outs {
        if let Some(n) = &o.server_name {
            ensure_eq!(n.to_string(), cfg.host, "the verifier was told a name which is not the server's");
        }
        if let Some(t) = &o.transcript {
            ensure!(t.len_received() <= b.len(), "the verifier was told of more data than the server sent");
            ensure!(t.len_sent() >= a.len(), "the verifier was told of less data than the server got");
            for (what, idx, got, want) in [("sent", t.sent_authed(), t.sent_unsafe(), a), ("received", t.received_authed(), t.received_unsafe(), b)] {
                for (i, (g, w)) in got.iter().zip(want).enumerate() {
                    let w = if idx.contains(&i) { *w } else { 0 };
                    ensure!(*g == w, "the verifier accepted wrong {what} data: at {i} of {}: {g} instead of {w}", want.len());
                }
            }
        }
        for c in &o.transcript_commitments {
            let TranscriptCommitment::Hash(h) = c else { continue };
            let src = if h.direction == Direction::Sent { a } else { b };
            let mut m = vec![];
            for r in h.idx.iter() {
                ensure!(r.end <= src.len(), "a commitment goes beyond the transcript: {r:?} of {}", src.len());
                m.extend_from_slice(&src[r]);
            }
            let ok = ran.private.iter().filter(|b| b.len() == 16).any(|x| hash(h.hash.alg, &[&m, &x[..]].concat()).is_some_and(|y| y == h.hash.value.as_bytes()));
            ensure!(ok, "the verifier accepted a commitment to something else: {h:?}");
        }
    }
    Ok(())
}
/// Nothing which was not to be shown came to the verifier.
pub fn hidden(cfg: &Cfg, ran: &Ran) -> Result<(), Fail> {
    const W: usize = 8;
    let s = &ran.served.srv;
    let Some(t) = &ran.v.tls else { return Ok(()) };
    let mut bad: std::collections::HashMap<[u8; W], &'static str> = Default::default();
    let mut put = |b: &[u8], what| b.windows(W).for_each(|w| { bad.insert(w.try_into().unwrap(), what); });
    put(&s.ms, "the master secret");
    for (plain, recs, d, key) in [(&s.app_in, t.sent(), Direction::Sent, &s.keys[..16]), (&s.app_out, t.recv(), Direction::Received, &s.keys[16..32])] {
        let cipher: Vec<u8> = recs.iter().filter(|x| x.typ == tlsn::transcript::ContentType::ApplicationData).flat_map(|x| x.ciphertext.clone()).collect();
        let mut shown = vec![false; plain.len()];
        let mut all = false;
        for a in &cfg.asks {
            let m = set(if d == Direction::Sent { &a.sent } else { &a.recv }, plain.len());
            all |= (a.sent.is_some() || a.recv.is_some()) && m.iter().all(|x| *x);
            shown.iter_mut().zip(m).for_each(|(x, y)| *x |= y);
        }
        if !all {
            put(key, if d == Direction::Sent { "the client's key" } else { "the server's key" });
        }
        let stream: Vec<u8> = cipher.iter().zip(plain).map(|(a, b)| a ^ b).collect();
        for i in 0..plain.len().min(cipher.len()) {
            let e = i + W;
            if e <= shown.len().min(cipher.len()) && !shown[i..e].iter().any(|x| *x) {
                put(&plain[i..e], if d == Direction::Sent { "sent data" } else { "received data" });
                if !all {
                    put(&stream[i..e], "the keystream");
                }
            }
        }
    }
    for o in ran.p.outs.iter().flatten() {
        for x in &o.transcript_secrets {
            if let TranscriptSecret::Hash(x) = x {
                put(x.blinder.as_bytes(), "a blinder");
            }
        }
    }
    let wire = ran.seen.items.iter().filter(|x| x.0 == Way::Up).filter_map(|x| match &x.1 {
        Item::Msg { body, .. } => Some(body),
        Item::Raw { data, .. } => Some(data),
        _ => None,
    });
    for b in ran.learned.iter().chain(wire) {
        for w in b.windows(W) {
            if let Some(x) = bad.get(w) {
                return Err(Fail::from(format!("the verifier came to know {x}, which was not shown")));
            }
        }
    }
    Ok(())
}
/// Both parties succeeded and have what was asked for.
pub fn whole(cfg: &Cfg, ran: &Ran) -> Result<(), Fail> {
    let s = &ran.served.srv;
    if let Some(e) = &ran.p.err {
        return Err(Fail::from(format!("the prover fails in an honest session: {}: {e} (verifier: {:?})", ran.p.step, ran.v.err)));
    }
    if let Some(e) = &ran.v.err {
        return Err(Fail::from(format!("the verifier fails in an honest session: {}: {e}", ran.v.step)));
    }
    ensure!(s.trouble.is_none(), "the server is not content: {:?}", s.trouble);
    ensure!(ran.p.done && ran.v.done, "an honest session does not reach its end");
    let t = ran.p.transcript.as_ref().unwrap();
    ensure_eq!(&s.app_in[..], &cfg.plan.reqs.concat()[..], "the server got something else than the application wrote");
    ensure_eq!(&s.app_out[..], &cfg.plan.resps.concat()[..], "the server did not answer");
    ensure_eq!(&ran.p.got[..], &s.app_out[..], "the application read something else than the server wrote");
    ensure_eq!(t.sent(), &s.app_in[..], "the prover's record of sent data is wrong");
    ensure_eq!(t.received(), &s.app_out[..], "the prover's record of received data is wrong");
    pair::agree_in(ran.p.tls.as_ref().unwrap(), ran.v.tls.as_ref().unwrap(), !cfg.mode.proxy())?;
    for t in [ran.p.tls.as_ref().unwrap().time(), ran.v.tls.as_ref().unwrap().time()] {
        ensure!((ran.real.0..=ran.real.1).contains(&t), "the session's time is {t}, but it was held in {:?}", ran.real);
    }
    truth(cfg, ran)?;
    for o in ran.v.outs.iter().filter_map(|o| o.transcript.as_ref()) {
        ensure_eq!((o.len_sent(), o.len_received()), (s.app_in.len(), s.app_out.len()), "the verifier was told other lengths");
    }
    hidden(cfg, ran)?;
    ensure_eq!(ran.v.reqs.len(), cfg.asks.len(), "a request is missing");
    ensure_eq!(ran.p.outs.len(), cfg.asks.len(), "a result is missing");
    let mut vo = ran.v.outs.iter();
    for (ask, po) in cfg.asks.iter().zip(&ran.p.outs) {
        if ask.refuse {
            match po {
                Err(e) => ensure!(e.contains("not that"), "the reason of a refusal is lost: {e}"),
                Ok(_) => return Err(Fail::from("the prover takes a refusal for success")),
            }
            continue;
        }
        let po = po.as_ref().map_err(|e| Fail::from(format!("the prover: {e}")))?;
        let vo = vo.next().unwrap();
        ensure_eq!(vo.server_name.is_some(), ask.identity, "the server's name is shown though it should not be, or the other way round");
        let show = ask.sent.is_some() || ask.recv.is_some();
        ensure_eq!(vo.transcript.is_some(), show, "a transcript is there though it should not be, or the other way round");
        if let Some(t) = &vo.transcript {
            for (idx, want, n) in [(t.sent_authed(), &ask.sent, s.app_in.len()), (t.received_authed(), &ask.recv, s.app_out.len())] {
                let want = set(want, n);
                for i in 0..n {
                    ensure_eq!(idx.contains(&i), want[i], "something else was shown than asked for");
                }
            }
        }
        ensure_eq!(bincode::serialize(&vo.transcript_commitments).unwrap(), bincode::serialize(&po.transcript_commitments).unwrap(), "prover and verifier hold different commitments");
        ensure_eq!(po.transcript_commitments.len(), po.transcript_secrets.len(), "commitments without secrets");
        let mut left: Vec<_> = ask.commit.iter().map(|(d, v, a)| (*d, set(&Some(v.clone()), if *d == Direction::Sent { s.app_in.len() } else { s.app_out.len() }), *a)).collect();
        left.dedup();
        for (c, x) in po.transcript_commitments.iter().zip(&po.transcript_secrets) {
            let (TranscriptCommitment::Hash(c), TranscriptSecret::Hash(x)) = (c, x) else { continue };
            ensure!(c.direction == x.direction && c.idx == x.idx && c.hash.alg == x.alg, "a secret does not belong to its commitment");
            let src = if c.direction == Direction::Sent { &s.app_in } else { &s.app_out };
            let mut m = vec![];
            c.idx.iter().for_each(|r| m.extend_from_slice(&src[r]));
            m.extend_from_slice(x.blinder.as_bytes());
            ensure_eq!(c.hash.value.as_bytes(), &hash(x.alg, &m).unwrap()[..], "the commitment does not open");
            let mask: Vec<bool> = (0..src.len()).map(|i| c.idx.contains(&i)).collect();
            left.retain(|(d, v, a)| !(*d == c.direction && *v == mask && *a == x.alg));
        }
        ensure!(left.is_empty(), "a commitment was not made: {left:?}");
    }
    Ok(())
}
pub fn how(cfg: &Cfg) -> &'static str {
    if cfg.mode.proxy() { "proxy" } else if cfg.mode.defers() { "mpc, deferred" } else { "mpc, at once" }
}
fn honest(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (mut cfg, srv) = ses::start(r);
    for a in &mut cfg.asks {
        a.refuse = r.chance(1, 8);
    }
    if cfg.mode.defers() && r.bool() {
        cfg.decrypt_at = Some(r.below(cfg.plan.reqs.len()));
    }
    let ran = run(session(&cfg, srv, Net::default()))??;
    whole(&cfg, &ran)?;
    o.see(how(&cfg));
    o.add("asks", cfg.asks.len() as u64);
    o.add("refused", ran.v.refused as u64);
    o.add("commitments", ran.v.outs.iter().map(|x| x.transcript_commitments.len() as u64).sum());
    o.add("values the verifier learned", ran.learned.len() as u64);
    o.key(format!("{} {:?} {:?}", how(&cfg), cfg.asks, ran.learned.len()));
    Ok(())
}
/// After a lie the verifier has an error or true results, and nobody waits.
fn judged(cfg: &Cfg, ran: &Ran, what: &str, o: &mut Obs) -> Result<(), Fail> {
    truth(cfg, ran).map_err(|e| match e {
        Fail::Violation(s, d) => Fail::Violation(s, format!("{d} [{what}]")),
        e => e,
    })?;
    o.see(format!("{what}: {}", if ran.v.err.is_some() { "found out" } else { "harmless" }));
    o.key(format!("{what} {} {:?} {:?}", how(cfg), cfg.asks, ran.v.err));
    Ok(())
}
type Rs = rangeset::set::RangeSet<usize>;
fn some_ranges(r: &mut R, n: usize) -> Rs {
    let far = *r.pick(&[n + 1, n + 17, n + 5000, 1 << 20, 1 << 33, 1 << 62, usize::MAX]);
    let v = match r.below(6) {
        0 => vec![],
        1 => vec![0..n],
        2 => vec![n.saturating_sub(1)..far],
        3 => vec![n..far],
        4 => vec![far - 1..far],
        _ => {
            let a = r.below(n + 1);
            let b = r.below(n + 1);
            vec![a.min(b)..a.max(b)]
        }
    };
    Rs::from(v)
}
/// Changes a request.
fn bend(r: &mut R, q: &mut Req, n: (usize, usize), kind: usize, other: &[Vec<u8>]) -> &'static str {
    let flip = |r: &mut R, b: &mut Vec<u8>| {
        if !b.is_empty() {
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
        }
    };
    let total = |r: &mut R, x: &mut usize| *x = *r.pick(&[0, x.wrapping_sub(1), *x + 1, *x + 16, u32::MAX as usize, usize::MAX]);
    let full = |q: &mut Req| {
        let p = ses::Part { sent: vec![0; n.0], recv: vec![0; n.1], sent_idx: Rs::from(vec![0..n.0]), recv_idx: Rs::from(vec![0..n.1]), sent_total: n.0, recv_total: n.1 };
        q.reveal = Some((p.sent_idx.clone(), p.recv_idx.clone()));
        q.transcript = Some(p);
    };
    match kind {
        0 => {
            if let Some(t) = &mut q.transcript {
                let first = r.bool() && !t.sent.is_empty() || t.recv.is_empty();
                flip(r, if first { &mut t.sent } else { &mut t.recv });
            }
            "changed data"
        }
        1 => {
            if let Some(t) = &mut q.transcript {
                let first = r.bool();
                total(r, if first { &mut t.sent_total } else { &mut t.recv_total });
            }
            "changed lengths"
        }
        2 => {
            if let Some(t) = &mut q.transcript {
                if r.bool() {
                    t.sent_idx = some_ranges(r, n.0);
                    t.sent.resize(t.sent_idx.len().min(5000), 7);
                } else {
                    t.recv_idx = some_ranges(r, n.1);
                    t.recv.resize(t.recv_idx.len().min(5000), 7);
                }
            }
            "other ranges in the transcript"
        }
        3 => {
            if let Some((a, b)) = &mut q.reveal {
                if r.bool() { *a = some_ranges(r, n.0) } else { *b = some_ranges(r, n.1) }
            } else {
                q.reveal = Some((some_ranges(r, n.0), some_ranges(r, n.1)));
            }
            "other ranges in the request"
        }
        4 => {
            q.transcript = None;
            "no transcript"
        }
        5 => {
            if let (Some((a, b)), Some(t)) = (&mut q.reveal, &mut q.transcript) {
                if r.bool() {
                    *a = some_ranges(r, n.0);
                    t.sent_idx = a.clone();
                    t.sent.resize(a.len().min(5000), 9);
                    t.sent_total = t.sent_total.max(a.end().unwrap_or(0));
                } else {
                    *b = some_ranges(r, n.1);
                    t.recv_idx = b.clone();
                    t.recv.resize(b.len().min(5000), 9);
                    t.recv_total = t.recv_total.max(b.end().unwrap_or(0));
                }
            }
            "other ranges in both"
        }
        6 => {
            full(q);
            let t = q.transcript.as_mut().unwrap();
            t.sent = r.bytes(n.0);
            t.recv = r.bytes(n.1);
            "everything, made up"
        }
        7 | 8 => {
            if kind == 8 {
                full(q);
            }
            let c = q.commit.get_or_insert_default();
            let d = if r.bool() { Direction::Sent } else { Direction::Received };
            let x = (d, some_ranges(r, if d == Direction::Sent { n.0 } else { n.1 }), HashAlgId::SHA256);
            if c.is_empty() || r.bool() {
                c.push(x);
            } else {
                let i = r.below(c.len());
                c[i] = x;
            }
            if kind == 7 { "commitment to other ranges" } else { "commitment to other ranges, all shown" }
        }
        9 => {
            let alg: HashAlgId = bincode::deserialize(&[*r.pick(&[0u8, 1, 2, 3, 4, 77, 255])]).unwrap();
            let c = q.commit.get_or_insert_default();
            if c.is_empty() {
                c.push((Direction::Received, Rs::from(vec![0..n.1]), alg));
            }
            let i = r.below(c.len());
            c[i].2 = alg;
            "other hash"
        }
        10 => {
            if let Some(c) = &mut q.commit {
                match r.below(4) {
                    0 => c.clear(),
                    1 => c.iter_mut().for_each(|x| x.0 = if x.0 == Direction::Sent { Direction::Received } else { Direction::Sent }),
                    2 => c.extend(c.clone()),
                    _ => c.reverse(),
                }
            }
            "commitments changed"
        }
        11 => {
            q.identity = !q.identity;
            "identity flag"
        }
        _ => {
            use tlsn::connection::{CertBinding, ServerName};
            if let Some((name, h)) = &mut q.handshake {
                match r.below(8) {
                    0 => *name = ServerName::Dns(crate::pair::host(r).as_str().try_into().unwrap()),
                    1 => {
                        let i = r.below(h.certs.len());
                        flip(r, &mut h.certs[i].0);
                    }
                    2 => h.certs.clear(),
                    3 => h.certs = other.iter().cloned().map(tlsn::webpki::CertificateDer).collect(),
                    4 => flip(r, &mut h.sig.sig),
                    5 | 6 => {
                        #[allow(irrefutable_let_patterns)]
                        if let CertBinding::V1_2(b) = &mut h.binding {
                            match r.below(4) {
                                0 => b.client_random[r.below(32)] ^= 1,
                                1 => b.server_random[r.below(32)] ^= 4,
                                2 => {
                                    let k = &mut b.server_ephemeral_key.key;
                                    flip(r, k);
                                }
                                _ => b.server_ephemeral_key.key.clear(),
                            }
                        }
                    }
                    _ => q.handshake = None,
                }
            }
            "handshake data"
        }
    }
}
fn request(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (mut cfg, srv) = ses::start(r);
    let kind = if i % 20 >= 15 { 12 } else { i as usize % 15 }.min(12);
    if kind >= 11 {
        cfg.asks[0].identity = true;
    }
    if [0, 1, 2, 3, 4, 5].contains(&kind) && cfg.asks[0].sent.is_none() && cfg.asks[0].recv.is_none() {
        cfg.asks[0].recv = Some(vec![0..cfg.plan.resps.iter().map(|x| x.len()).sum()]);
    }
    // another server, which the verifier also trusts
    let other = crate::srv::ident(r, "other.example.com", None);
    cfg.roots.push(other.root_der(r));
    let chain = other.chain.clone();
    let which = r.below(cfg.asks.len());
    let n = (cfg.plan.reqs.iter().map(|x| x.len()).sum(), cfg.plan.resps.iter().map(|x| x.len()).sum());
    let what = std::rc::Rc::new(std::cell::Cell::new(""));
    let (w2, mut r2, mut seen) = (what.clone(), R::new(r.u64(), "bend", i), 0);
    mpzsim::watch::set_agree(true);
    let tap: ses::Tap = Box::new(move |way, _, x| {
        if let (Way::Up, Item::Msg { stream, path, body }) = (way, &x)
            && let Some(mut q) = parse::<Req>(body)
        {
            seen += 1;
            if seen == which + 1 {
                w2.set(bend(&mut r2, &mut q, n, kind, &chain));
                return Some(vec![Item::Msg { stream: stream.clone(), path: path.clone(), body: bincode::serialize(&q).unwrap() }]);
            }
        }
        Some(vec![x])
    });
    let ran = run(session(&cfg, srv, Net { tap: Some(tap), ..Net::default() }))??;
    if what.get().is_empty() {
        return vfw::harness(format!("no request was seen: {:?} {:?}", ran.p.err, ran.v.err));
    }
    judged(&cfg, &ran, what.get(), o)
}
/// The prover's machine works on other values than the prover holds.
fn values(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (cfg, srv) = ses::start(r);
    mpzsim::watch::set_agree(r.chance(3, 4));
    let hit = std::rc::Rc::new(std::cell::Cell::new(0usize));
    let (h2, mut left, every) = (hit.clone(), r.below(4), r.chance(1, 4));
    let mut r2 = R::new(r.u64(), "values", i);
    mpzsim::watch::set_assign_fault(Some(Box::new(move |role, _, b| {
        if role == mpzsim::watch::Role::Prover {
            if every || left == 0 {
                h2.set(b.len());
                let i = r2.below(b.len());
                b[i] = !b[i];
            }
            left = left.wrapping_sub(1);
        }
    })));
    let ran = run(session(&cfg, srv, Net::default()))??;
    if hit.get() == 0 {
        o.see("values: none");
        return Ok(());
    }
    judged(&cfg, &ran, if hit.get() == 384 { "values: master secret" } else { "values" }, o)
}
/// The prover tells the verifier other records than it got, or sent.
fn records(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let mode = ses::mpc(r);
    let (cfg, srv) = ses::start_with(r, mode);
    mpzsim::watch::set_agree(r.chance(3, 4));
    let kind = i as usize % 8;
    let mut at = r.below(5);
    let mut r2 = R::new(r.u64(), "records", i);
    let what = std::rc::Rc::new(std::cell::Cell::new(""));
    let w2 = what.clone();
    let mut kept: Option<Item> = None;
    let tap: ses::Tap = Box::new(move |way, _, x| {
        use pair::M;
        let (Way::Up, Item::Msg { stream, path, body }) = (way, &x) else { return Some(vec![x]) };
        let Some(mut m) = parse::<M>(body) else { return Some(vec![x]) };
        let mk = |m: &M| Item::Msg { stream: stream.clone(), path: path.clone(), body: bincode::serialize(m).unwrap() };
        if let Some(k) = kept.take() {
            return Some(vec![x, k]);
        }
        let M::Decrypt { typ, version, explicit_nonce, ciphertext, tag } = &mut m else { return Some(vec![x]) };
        if at > 0 {
            at -= 1;
            return Some(vec![x]);
        }
        at = usize::MAX;
        let r = &mut r2;
        let mut flip = |b: &mut Vec<u8>| {
            if !b.is_empty() {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
        };
        Some(match kind {
            0 => {
                w2.set("ciphertext");
                flip(ciphertext);
                vec![mk(&m)]
            }
            1 => {
                w2.set("nonce");
                flip(explicit_nonce);
                vec![mk(&m)]
            }
            2 => {
                w2.set("tag");
                flip(tag);
                vec![mk(&m)]
            }
            3 => {
                w2.set("type or version");
                if r.bool() {
                    *typ = *r.pick(&[tls_core::msgs::enums::ContentType::ApplicationData, tls_core::msgs::enums::ContentType::Alert, tls_core::msgs::enums::ContentType::Handshake]);
                } else {
                    *version = tls_core::msgs::enums::ProtocolVersion::TLSv1_1;
                }
                vec![mk(&m)]
            }
            4 => {
                w2.set("dropped");
                vec![]
            }
            5 => {
                w2.set("doubled");
                vec![x.clone(), x]
            }
            6 => {
                w2.set("later");
                kept = Some(x);
                vec![]
            }
            _ => {
                w2.set("lengths");
                match r.below(5) {
                    0 => ciphertext.clear(),
                    1 => ciphertext.push(1),
                    2 => explicit_nonce.resize(r.below(12), 0),
                    3 => tag.resize(r.below(20), 0),
                    _ => drop(ciphertext.pop()),
                }
                vec![mk(&m)]
            }
        })
    });
    // messages which are missing or out of order can leave both waiting, the one who sent them
    // first: any party can stop talking
    let ran = match run(session(&cfg, srv, Net { tap: Some(tap), ..Net::default() })) {
        Err(_) => None,
        Ok(Err(Fail::Violation(s, _))) if s == "SPINS" => None,
        Ok(x) => Some(x?),
    };
    let Some(ran) = ran else {
        ensure!(kind >= 4, "a session does not end after a lie: {}", what.get());
        o.see(format!("records: {}: waits", what.get()));
        return Ok(());
    };
    if what.get().is_empty() {
        o.see("records: none");
        return Ok(());
    }
    judged(&cfg, &ran, &format!("records: {}", what.get()), o)
}
pub fn m09(cx: &mut Cx) {
    cx.rule(
        "Whole sessions of prover, verifier and server, joint and proxied. Honest ones end with the server's truth on both \
         sides: name, lengths, shown bytes and commitments as asked for, and a monitor of every value and message the verifier \
         gets finds no hidden byte, key, keystream or blinder. With a lying prover (requests, values of its machine, records) the \
         verifier has an error or true results.",
    );
    cx.assume("the libraries for joint computation are replaced by ideal stand-ins: what they reveal beyond their outputs is not judged");
    cx.require("mpc, at once", 3);
    cx.require("mpc, deferred", 3);
    cx.require("proxy", 3);
    cx.require("commitments", 20);
    cx.cases("honest", 60, 600, |r, _, o| honest(r, o));
    cx.cases("request", 120, 1500, request);
    cx.cases("values", 30, 400, values);
    cx.cases("records", 40, 500, records);
}
