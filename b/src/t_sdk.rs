//! C15: reveal rules of the SDK.

use crate::doc::{self, ARR, Msg, OBJ, Sp, minus, set};
use rangeset::set::RangeSet;
use sdkpart::{Handler, HandlerAction, HandlerParams, HandlerPart, HandlerType, HashAlgorithm, compute_reveal};
use serde_json::json;
use std::ops::Range;
use vfw::{Cx, R, ensure, ensure_eq, quiet};

type Got = Result<Vec<RangeSet<usize>>, &'static str>;

/// Where a path leads: the member or element itself, and whether its parent is an object.
fn resolve<'a>(root: &'a Sp, path: &str) -> Option<(&'a doc::Kv, bool)> {
    let mut at = root;
    let mut last = None;
    for k in path.split('.') {
        let kv = match at.kind { OBJ => at.at(k)?, ARR => at.at(&k.parse::<usize>().ok()?.to_string())?, _ => return None };
        last = Some((kv, at.kind == OBJ));
        at = &kv.value;
    }
    last
}

/// The parts a rule selects, each as a set of positions.
fn select(h: &Handler, m: &Msg, raw: &[u8]) -> Got {
    let request = h.handler_type == HandlerType::Sent;
    let p = h.params.clone().unwrap_or_default();
    let (hk, hv) = (p.hide_key == Some(true), p.hide_value == Some(true));
    Ok(match h.part {
        HandlerPart::StartLine => vec![set(&m.line)],
        HandlerPart::Protocol => vec![minus(&m.line, &m.words)],
        HandlerPart::Method if request => vec![set(&m.words[0])],
        HandlerPart::RequestTarget if request => vec![set(&m.words[1])],
        HandlerPart::StatusCode if !request => vec![set(&m.words[0])],
        HandlerPart::Method | HandlerPart::RequestTarget | HandlerPart::StatusCode => return Err("part of the other direction"),
        HandlerPart::Headers => {
            if hk && hv { return Err("both hidden") }
            m.fields.iter().filter(|f| p.key.as_ref().is_none_or(|k| k.eq_ignore_ascii_case(&f.key))).map(|f| if hk { set(&f.value) } else if hv { minus(&f.all, &[f.value.clone()]) } else { set(&f.all) }).collect()
        }
        HandlerPart::Body => {
            let Some(b) = &m.body else { return Ok(vec![]) };
            if p.content_type.as_deref() != Some("json") { return Ok(vec![b.whole()]) }
            let Some(root) = &b.json else { return Err("not JSON") };
            let Some(path) = &p.path else { return Err("no path") };
            if hk && hv { return Err("both hidden") }
            let Some((kv, member)) = resolve(root, path) else { return Err("path leads nowhere") };
            vec![match (member, hk, hv) {
                (true, false, false) => b.set(&kv.pair),
                (true, false, true) => b.minus(&kv.pair, &[kv.value.view.clone()]),
                _ => b.set(&kv.value.view),
            }]
        }
        HandlerPart::All => match (p.content_type.as_deref(), &p.regex) {
            (Some("regex"), Some(x)) => matches(x, p.flags.as_deref().unwrap_or(""), raw)?.iter().map(set).collect(),
            _ => vec![set(&(0..raw.len()))],
        },
    })
}

/// The expressions which the generator makes: `lit`, `[0-9]+`, `a.b`, `^lit`.
fn matches(x: &str, flags: &str, raw: &[u8]) -> Result<Vec<Range<usize>>, &'static str> {
    if x == "(" || x == "[a" { return Err("bad expression") }
    let has = |c| flags.contains(c);
    if flags.chars().any(|c| !"gimsu".contains(c)) { return Err("bad flag") }
    let eq = |a: u8, b: u8| if has('i') { a.eq_ignore_ascii_case(&b) } else { a == b };
    let mut out = vec![];
    let mut at = 0;
    while at < raw.len() {
        let n = if x == "[0-9]+" {
            raw[at..].iter().take_while(|c| c.is_ascii_digit()).count()
        } else if let Some(l) = x.strip_prefix('^') {
            if (at == 0 || (has('m') && raw[at - 1] == b'\n')) && raw.len() >= at + l.len() && l.bytes().zip(&raw[at..]).all(|(a, b)| eq(a, *b)) { l.len() } else { 0 }
        } else if raw.len() >= at + x.len() && x.bytes().zip(&raw[at..]).all(|(a, b)| if a == b'.' { has('s') || *b != b'\n' } else { eq(a, *b) }) {
            x.len()
        } else {
            0
        };
        if n > 0 { out.push(at..at + n) }
        at += n.max(1);
    }
    Ok(out)
}

fn path(r: &mut R, root: Option<&Sp>) -> String {
    let mut keys = vec![];
    let mut at = root;
    while let Some(v) = at {
        if v.kids.is_empty() || (!keys.is_empty() && r.chance(1, 3)) { break }
        let k = r.pick(&v.kids);
        keys.push(k.key.clone());
        at = Some(&k.value);
    }
    if keys.is_empty() || r.chance(1, 8) { keys.push(r.pick(&["nothing", "0", "7", "a"]).to_string()) }
    keys.join(".")
}

fn rule(r: &mut R, ms: [&Msg; 2], ascii: bool) -> Handler {
    let side = r.below(2);
    let m = ms[side];
    let part = *r.pick(&[HandlerPart::StartLine, HandlerPart::Protocol, HandlerPart::Method, HandlerPart::RequestTarget, HandlerPart::StatusCode, HandlerPart::Headers, HandlerPart::Headers, HandlerPart::Body, HandlerPart::Body, HandlerPart::Body, HandlerPart::All, HandlerPart::All]);
    let part = match part {
        HandlerPart::Method | HandlerPart::RequestTarget if side == 1 && r.chance(5, 6) => HandlerPart::StatusCode,
        HandlerPart::StatusCode if side == 0 && r.chance(5, 6) => HandlerPart::Method,
        x => x,
    };
    let mut p = HandlerParams::default();
    let flag = |r: &mut R| match r.below(4) { 0 => Some(true), 1 => Some(false), _ => None };
    let has = r.chance(7, 8);
    p.hide_key = flag(r);
    p.hide_value = if p.hide_key == Some(true) && r.chance(7, 8) { *r.pick(&[None, Some(false)]) } else { flag(r) };
    match part {
        HandlerPart::Headers => {
            if r.chance(2, 3) {
                p.key = Some(match m.fields.is_empty() || r.chance(1, 6) { true => "X-Not".into(), false => { let k = r.pick(&m.fields).key.clone(); if r.bool() { k } else if r.bool() { k.to_uppercase() } else { k.to_lowercase() } } });
            }
        }
        HandlerPart::Body => {
            let doc = m.body.as_ref().and_then(|b| b.json.as_ref());
            p.content_type = if doc.is_some() || r.chance(1, 8) { Some("json".into()) } else { r.pick(&[None, Some("text"), Some("JSON")]).map(String::from) };
            if r.chance(15, 16) { p.path = Some(path(r, doc)) }
        }
        HandlerPart::All if r.chance(3, 4) => {
            p.content_type = Some("regex".into());
            let dot = if ascii { "\r.C" } else { "Co" };
            p.regex = Some(r.pick(&["Content", "content", "HTTP/1", "[0-9]+", dot, "^Content", "^HTTP", "^x-", "\"a\"", "zzz", "(", "[a"]).to_string());
            p.flags = r.pick(&[None, None, Some(""), Some("g"), Some("i"), Some("gi"), Some("m"), Some("s"), Some("ims"), Some("im"), Some("u")]).map(String::from);
        }
        _ => {}
    }
    let algorithm = *r.pick(&[HashAlgorithm::Blake3, HashAlgorithm::Sha256, HashAlgorithm::Keccak256]);
    Handler {
        handler_type: [HandlerType::Sent, HandlerType::Recv][side],
        part,
        action: if r.chance(1, 3) { HandlerAction::Hash { algorithm } } else { HandlerAction::Reveal },
        params: has.then_some(p),
    }
}

/// Contiguous pieces, in order, none empty.
fn pieces(v: &[RangeSet<usize>]) -> Vec<Range<usize>> {
    let mut p: Vec<Range<usize>> = v.iter().flat_map(|s| s.iter().collect::<Vec<_>>()).filter(|r| !r.is_empty()).collect();
    p.sort_by_key(|r| (r.start, r.end));
    p
}
fn sorted(mut p: Vec<Range<usize>>) -> Vec<Range<usize>> {
    p.retain(|r| !r.is_empty());
    p.sort_by_key(|r| (r.start, r.end));
    p
}
fn union(p: &[Range<usize>]) -> Vec<Range<usize>> {
    p.iter().cloned().filter(|r| !r.is_empty()).collect::<RangeSet<usize>>().iter().collect()
}

pub fn c15(cx: &mut Cx) {
    cx.rule("Generated exchanges (places of all parts known) with random lists of reveal and hash rules; what is disclosed and committed must be what the rules select, part by part. Non-trivial = a distinct (exchange, rules).");
    cx.assume("the span parser of the stand-in decides what a header, target, body and JSON element is; it passes the crate's own handler tests");
    cx.cases("rules", 36000, 2250000, |r, _, o| {
        let mut text = [vec![], vec![]];
        let req = doc::message(r, true, true, &mut text[0]);
        let res = doc::message(r, false, true, &mut text[1]);
        let ascii = [text[0].is_ascii(), text[1].is_ascii()];
        let rules: Vec<Handler> = (0..*r.pick(&[0usize, 1, 1, 1, 2, 3, 5])).map(|_| rule(r, [&req, &res], ascii[0] && ascii[1])).collect();
        o.key(format!("{text:?}{rules:?}"));
        let sel: Vec<Got> = rules.iter().map(|h| { let s = (h.handler_type == HandlerType::Recv) as usize; select(h, [&req, &res][s], &text[s]) }).collect();
        let got = quiet(|| compute_reveal(&text[0], &text[1], &rules))?;
        let first = sel.iter().find_map(|s| s.as_ref().err());
        let ctx = || format!("rules {} on {:?} / {:?}", serde_json::to_string(&rules).unwrap(), String::from_utf8_lossy(&text[0]), String::from_utf8_lossy(&text[1]));
        if let Some(why) = first {
            ensure!(got.is_err(), "accepted although: {why}; {}", ctx());
            ensure_eq!(got.err().unwrap().kind(), sdkpart::error::ErrorKind::Handler, "kind of error");
            o.see(format!("refused/{why}"));
            return Ok(());
        }
        let got = match got { Ok(g) => g, Err(e) => return Err(format!("refused: {e}; {}", ctx()).into()) };
        let parts: Vec<Vec<RangeSet<usize>>> = sel.into_iter().map(|s| s.unwrap()).collect();
        let commit = got.commit.clone();
        for (side, dir) in [HandlerType::Sent, HandlerType::Recv].into_iter().enumerate() {
            let of = |f: &dyn Fn(&Handler) -> bool| -> Vec<RangeSet<usize>> { rules.iter().zip(&parts).filter(|(h, _)| h.handler_type == dir && f(h)).flat_map(|(_, p)| p.clone()).collect() };
            let shown = if side == 0 { &got.reveal.sent } else { &got.reveal.recv };
            ensure_eq!(union(shown), union(&pieces(&of(&|h| h.action == HandlerAction::Reveal))), "bytes disclosed of {dir:?}; {}", ctx());
            let committed = commit.as_ref().map(|c| if side == 0 { c.sent.clone() } else { c.recv.clone() }).unwrap_or_default();
            for algorithm in [HashAlgorithm::Blake3, HashAlgorithm::Sha256, HashAlgorithm::Keccak256] {
                let c = committed.iter().filter(|c| c.algorithm == algorithm).map(|c| c.range()).collect();
                ensure_eq!(sorted(c), pieces(&of(&|h| h.action == HandlerAction::Hash { algorithm })), "parts committed of {dir:?} with {algorithm:?}; {}", ctx());
            }
            let noted = if side == 0 { &got.sent_ranges_with_handlers } else { &got.recv_ranges_with_handlers };
            for h in &rules {
                let c = noted.iter().filter(|n| n.handler == *h).map(|n| n.start..n.end).collect();
                let want = if h.handler_type == dir { pieces(&of(&|x| x == h)) } else { vec![] };
                ensure_eq!(sorted(c), want, "parts noted for rule {h:?}; {}", ctx());
            }
            ensure!(noted.iter().all(|n| rules.contains(&n.handler)), "note for an unknown rule");
            if !shown.is_empty() { o.see(format!("disclosed/{dir:?}")) }
            if !committed.is_empty() { o.see(format!("committed/{dir:?}")) }
        }
        let any = rules.iter().zip(&parts).any(|(h, p)| h.action != HandlerAction::Reveal && p.iter().any(|s| !s.is_empty()));
        ensure!(commit.is_some() || !any, "no commitment; {}", ctx());
        ensure!(got.reveal.server_identity, "server identity left out");
        for (h, p) in rules.iter().zip(&parts) {
            let q = h.params.clone().unwrap_or_default();
            o.see(format!("part/{:?}", h.part));
            if p.iter().any(|s| !s.is_empty()) && matches!(h.part, HandlerPart::Body | HandlerPart::Headers) {
                if q.hide_key == Some(true) { o.see(format!("key hidden/{:?}", h.part)) }
                if q.hide_value == Some(true) { o.see(format!("value hidden/{:?}", h.part)) }
                if q.path.as_ref().is_some_and(|p| p.contains('.')) { o.see("deep path") }
            }
            if q.flags.as_deref().is_some_and(|f| f.contains(['i', 'm', 's'])) && p.iter().any(|s| !s.is_empty()) { o.see("expression with flags") }
        }
        Ok(())
    });
    cx.cases("stored rules", 6000, 300000, |r, _, o| {
        let mut text = [vec![], vec![]];
        let req = doc::message(r, true, true, &mut text[0]);
        let res = doc::message(r, false, true, &mut text[1]);
        let h = rule(r, [&req, &res], true);
        o.key(format!("{h:?}"));
        let v = json!(h);
        let back: Handler = serde_json::from_value(v.clone()).map_err(|e| format!("rule unreadable: {e}"))?;
        ensure_eq!(back, h, "rule after storing");
        // the names the plugins use
        ensure_eq!(v["type"], json!(if h.handler_type == HandlerType::Sent { "SENT" } else { "RECV" }), "direction");
        let part = match h.part { HandlerPart::StartLine => "START_LINE", HandlerPart::Protocol => "PROTOCOL", HandlerPart::Method => "METHOD", HandlerPart::RequestTarget => "REQUEST_TARGET", HandlerPart::StatusCode => "STATUS_CODE", HandlerPart::Headers => "HEADERS", HandlerPart::Body => "BODY", HandlerPart::All => "ALL" };
        ensure_eq!(v["part"], json!(part), "part");
        let action = match h.action { HandlerAction::Reveal => json!({"kind": "REVEAL"}), HandlerAction::Hash { algorithm } => json!({"kind": "HASH", "algorithm": match algorithm { HashAlgorithm::Blake3 => "BLAKE3", HashAlgorithm::Sha256 => "SHA256", HashAlgorithm::Keccak256 => "KECCAK256" }}) };
        ensure_eq!(v["action"], action, "action");
        for field in ["type", "part", "action"] {
            let mut bad = v.clone();
            if r.bool() { bad.as_object_mut().unwrap().remove(field); } else { bad[field] = json!("OTHER") }
            ensure!(serde_json::from_value::<Handler>(bad).is_err(), "rule without a valid {field} accepted");
        }
        if let HandlerAction::Hash { algorithm } = h.action {
            let id: tlsn_core::hash::HashAlgId = algorithm.into();
            ensure_eq!(id, match algorithm { HashAlgorithm::Blake3 => tlsn_core::hash::HashAlgId::BLAKE3, HashAlgorithm::Sha256 => tlsn_core::hash::HashAlgId::SHA256, HashAlgorithm::Keccak256 => tlsn_core::hash::HashAlgId::KECCAK256 }, "algorithm");
        }
        o.see("stored");
        Ok(())
    });
    cx.cases("not HTTP", 500, 10_000, |r, _, o| {
        let mut text = [vec![], vec![]];
        let req = doc::message(r, true, true, &mut text[0]);
        let res = doc::message(r, false, true, &mut text[1]);
        let h = rule(r, [&req, &res], false);
        let side = r.below(2);
        let m = [&req, &res][side];
        let n = r.below(m.line.end - m.line.start);
        text[side].truncate(n);
        o.key(format!("{text:?}"));
        ensure!(quiet(|| compute_reveal(&text[0], &text[1], &[h]).is_err())?, "ranges of something that is not HTTP");
        o.see("not HTTP");
        Ok(())
    });
    for w in ["disclosed/Sent", "disclosed/Recv", "committed/Sent", "committed/Recv", "key hidden/Body", "key hidden/Headers", "value hidden/Body", "value hidden/Headers", "deep path", "expression with flags", "refused/both hidden", "refused/part of the other direction", "refused/path leads nowhere", "refused/not JSON", "refused/no path", "refused/bad expression"] {
        cx.require(w, 20);
    }
}
