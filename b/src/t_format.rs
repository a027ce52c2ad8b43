//! C14: committing to the structure of HTTP and JSON.

use crate::doc::{self, ARR, Body, Kv, Msg, OBJ, STR, Sp, minus, points, set};
use rangeset::set::RangeSet;
use std::collections::{BTreeMap, BTreeSet};
use tlsn_core::{
    hash::HashAlgId,
    transcript::{Direction, Transcript, TranscriptCommitConfigBuilder, TranscriptCommitmentKind},
};
use tlsn_formats::http::{self, DefaultHttpCommitter, Header, HttpCommit, HttpCommitError, HttpTranscript, MessageKind, Request, Response, Target};
use tlsn_formats::json::{DefaultJsonCommitter, JsonCommit};
use vfw::{Cx, R, ensure, ensure_eq, quiet};

type Set = BTreeMap<(bool, Vec<(usize, usize)>), String>;

fn norm(s: &RangeSet<usize>) -> Vec<(usize, usize)> {
    s.iter().map(|r| (r.start, r.end)).collect()
}

/// What a JSON value is committed to.
fn of_value(b: &Body, v: &Sp, what: &str, out: &mut Vec<(RangeSet<usize>, String)>) {
    match v.kind {
        OBJ => {
            let pairs: Vec<_> = v.kids.iter().map(|k| k.pair.clone()).collect();
            out.push((b.minus(&v.view, &pairs), format!("{what} object without members")));
            for Kv { key, pair, value } in &v.kids {
                out.push((b.minus(pair, &[value.view.clone()]), format!("{what}.{key} without value")));
                of_value(b, value, &format!("{what}.{key}"), out);
            }
        }
        ARR => {
            out.push((b.set(&v.view), format!("{what} array")));
            if let (Some(f), Some(l)) = (v.kids.first(), v.kids.last()) {
                out.push((b.minus(&v.view, &[f.pair.start..l.pair.end]), format!("{what} array without elements")));
            }
        }
        STR if v.view.is_empty() => {}
        _ => out.push((b.set(&v.view), format!("{what} value"))),
    }
}

fn of_message(m: &Msg, request: bool, what: &str) -> Vec<(RangeSet<usize>, String)> {
    let mut out = vec![(set(&m.all), format!("{what} whole"))];
    if !m.fields.is_empty() || m.body.is_some() {
        let mut cut: Vec<_> = m.fields.iter().map(|f| f.all.clone()).collect();
        if request { cut.push(m.words[1].clone()) }
        let body: BTreeSet<usize> = m.body.iter().flat_map(|b| b.pos.iter().copied()).collect();
        out.push((points(m.all.clone().filter(|i| !body.contains(i) && !cut.iter().any(|c| c.contains(i)))), format!("{what} without data")));
    }
    if request { out.push((set(&m.words[1]), format!("{what} target"))) }
    for f in &m.fields {
        out.push((set(&f.all), format!("{what} header {}", f.key)));
        if !f.value.is_empty() { out.push((minus(&f.all, &[f.value.clone()]), format!("{what} header {} without value", f.key))) }
    }
    if let Some(b) = &m.body {
        match &b.json {
            Some(v) => of_value(b, v, &format!("{what} json"), &mut out),
            None => out.push((b.whole(), format!("{what} body"))),
        }
    }
    out
}

fn got(b: TranscriptCommitConfigBuilder<'_>, kind: HashAlgId) -> Result<BTreeSet<(bool, Vec<(usize, usize)>)>, vfw::Fail> {
    let c = b.build().map_err(|e| e.to_string())?;
    let mut s = BTreeSet::new();
    for ((d, idx), alg) in c.iter_hash() {
        ensure_eq!(*alg, kind, "algorithm of a commitment");
        ensure!(s.insert((*d == Direction::Sent, norm(idx))), "the same commitment twice");
    }
    Ok(s)
}

fn compare(want: &Set, got: &BTreeSet<(bool, Vec<(usize, usize)>)>, text: [&[u8]; 2]) -> Result<(), vfw::Fail> {
    let show = |k: &(bool, Vec<(usize, usize)>)| {
        let t = text[!k.0 as usize];
        k.1.iter().map(|r| t.get(r.0..r.1).map_or("outside".into(), |b| String::from_utf8_lossy(b).into_owned())).collect::<Vec<_>>()
    };
    for (k, what) in want {
        ensure!(got.contains(k), "not committed: {what} {k:?} {:?}", show(k));
    }
    for k in got {
        ensure!(want.contains_key(k), "committed though no documented part: {k:?} {:?}", show(k));
    }
    Ok(())
}

fn stream(r: &mut R, request: bool, out: &mut Vec<u8>) -> Vec<Msg> {
    let n = *r.pick(&[0usize, 1, 1, 1, 2, 3]);
    (0..n).map(|i| doc::message(r, request, i + 1 == n, out)).collect()
}

/// Records what it is asked for and commits to targets and headers only where told.
#[derive(Default)]
struct Watch {
    log: Vec<String>,
    skip: bool,
}
impl HttpCommit for Watch {
    fn commit_target(&mut self, b: &mut TranscriptCommitConfigBuilder, d: Direction, p: &Request, t: &Target) -> Result<(), HttpCommitError> {
        self.log.push(format!("{d} target {:?} of {:?}", t.view().indices().iter().collect::<Vec<_>>(), p.view().indices().iter().collect::<Vec<_>>()));
        if self.skip { return Ok(()) }
        DefaultHttpCommitter::default().commit_target(b, d, p, t)
    }
    fn commit_request_header(&mut self, b: &mut TranscriptCommitConfigBuilder, d: Direction, p: &Request, h: &Header) -> Result<(), HttpCommitError> {
        self.log.push(format!("{d} request header {:?}", h.view().indices().iter().collect::<Vec<_>>()));
        if self.skip { return Ok(()) }
        DefaultHttpCommitter::default().commit_request_header(b, d, p, h)
    }
    fn commit_response_header(&mut self, b: &mut TranscriptCommitConfigBuilder, d: Direction, p: &Response, h: &Header) -> Result<(), HttpCommitError> {
        self.log.push(format!("{d} response header {:?}", h.view().indices().iter().collect::<Vec<_>>()));
        if self.skip { return Ok(()) }
        DefaultHttpCommitter::default().commit_response_header(b, d, p, h)
    }
    fn commit_request_body(&mut self, b: &mut TranscriptCommitConfigBuilder, d: Direction, p: &Request, x: &http::Body) -> Result<(), HttpCommitError> {
        self.log.push(format!("{d} request body {:?}", x.view().indices().iter().collect::<Vec<_>>()));
        if self.skip { return Ok(()) }
        DefaultHttpCommitter::default().commit_request_body(b, d, p, x)
    }
    fn commit_response_body(&mut self, b: &mut TranscriptCommitConfigBuilder, d: Direction, p: &Response, x: &http::Body) -> Result<(), HttpCommitError> {
        self.log.push(format!("{d} response body {:?}", x.view().indices().iter().collect::<Vec<_>>()));
        if self.skip { return Ok(()) }
        DefaultHttpCommitter::default().commit_response_body(b, d, p, x)
    }
}

const ALGS: [HashAlgId; 3] = [HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256];

pub fn c14(cx: &mut Cx) {
    cx.rule("HTTP streams with pipelined messages are written together with the places of their parts (chunked, sized and open bodies, JSON of all shapes); the committed set must equal the documented set, cover every byte and stay within each message. Non-trivial = a distinct stream.");
    cx.assume("the span parser of the stand-in decides what a header, target, body and JSON element is");
    cx.cases("default", 12000, 600000, |r, _, o| {
        let mut text = [vec![], vec![]];
        let reqs = stream(r, true, &mut text[0]);
        let ress = stream(r, false, &mut text[1]);
        o.key([&text[0][..], b"|", &text[1][..]].concat());
        let t = Transcript::new(text[0].clone(), text[1].clone());
        let p = quiet(|| HttpTranscript::parse(&t))?.map_err(|e| format!("HTTP refused: {e}"))?;
        ensure_eq!((p.requests.len(), p.responses.len()), (reqs.len(), ress.len()), "number of messages");
        let mut want = Set::new();
        for (n, (ms, req)) in [(&reqs, true), (&ress, false)].into_iter().enumerate() {
            for (i, m) in ms.iter().enumerate() {
                for (s, what) in of_message(m, req, &format!("{}{i}", ["request ", "response "][n])) {
                    want.insert((req, norm(&s)), what);
                }
                if let Some(b) = &m.body { o.see(if b.json.is_some() { "body/json" } else { "body/other" }); if b.pos.windows(2).any(|w| w[1] != w[0] + 1) { o.see("body/in pieces") } }
            }
            o.see(format!("messages/{}", ms.len()));
        }
        let kind = *r.pick(&ALGS);
        let mut b = TranscriptCommitConfigBuilder::new(&t);
        if kind != HashAlgId::BLAKE3 || r.bool() { b.default_kind(TranscriptCommitmentKind::Hash { alg: kind }); }
        quiet(|| DefaultHttpCommitter::default().commit_transcript(&mut b, &p))?.map_err(|e| format!("commitment refused: {e}"))?;
        let got = got(b, kind)?;
        compare(&want, &got, [t.sent(), t.received()])?;
        for (sent, n) in [(true, text[0].len()), (false, text[1].len())] {
            let mut seen = vec![false; n];
            for (_, s) in got.iter().filter(|x| x.0 == sent) {
                let within = reqs.iter().chain(&ress).any(|m| s.first().is_some_and(|a| a.0 >= m.all.start) && s.last().is_some_and(|z| z.1 <= m.all.end));
                ensure!(within, "a commitment over several messages");
                for (a, z) in s { seen[*a..*z].fill(true) }
            }
            ensure!(seen.iter().all(|x| *x), "byte {:?} not committed", seen.iter().position(|x| !*x));
        }
        o.add("commitments", got.len() as u64);
        Ok(())
    });
    cx.cases("parts", 8000, 400000, |r, _, o| {
        // one message in a direction of the caller's choice, watched call by call
        let request = r.bool();
        let mut text = vec![];
        let m = doc::message(r, request, true, &mut text);
        o.key(&text);
        let dir = if r.bool() { Direction::Sent } else { Direction::Received };
        let sent = dir == Direction::Sent;
        let other = vec![0u8; r.below(3)];
        let t = if sent { Transcript::new(text.clone(), other) } else { Transcript::new(other, text.clone()) };
        let mut b = TranscriptCommitConfigBuilder::new(&t);
        let mut w = Watch { skip: r.bool(), ..Default::default() };
        if request {
            let p = http::Requests::new_from_slice(&text).next().ok_or("nothing")?.map_err(|e| e.to_string())?;
            quiet(|| w.commit_request(&mut b, dir, &p))?.map_err(|e| format!("commitment refused: {e}"))?;
        } else {
            let p = http::Responses::new_from_slice(&text).next().ok_or("nothing")?.map_err(|e| e.to_string())?;
            quiet(|| w.commit_response(&mut b, dir, &p))?.map_err(|e| format!("commitment refused: {e}"))?;
        }
        let n = if request { "request" } else { "response" };
        let mut log = vec![];
        if request { log.push(format!("{dir} target {:?} of {:?}", [m.words[1].clone()], [m.all.clone()])) }
        for f in &m.fields { log.push(format!("{dir} {n} header {:?}", [f.all.clone()])) }
        if let Some(x) = &m.body { log.push(format!("{dir} {n} body {:?}", x.whole().iter().collect::<Vec<_>>())) }
        ensure_eq!(w.log, log, "parts handed to the committer");
        let all = of_message(&m, request, "message");
        let want: Set = all.into_iter().filter(|x| !w.skip || x.1.ends_with("whole") || x.1.ends_with("without data")).map(|(s, what)| ((sent, norm(&s)), what)).collect();
        let got = got(b, HashAlgId::BLAKE3)?;
        compare(&want, &got, [t.sent(), t.received()])?;
        o.see(format!("watched/{n}/{dir}/{}", w.skip));
        Ok(())
    });
    cx.cases("json", 8000, 400000, |r, _, o| {
        let j = doc::json(r, 4);
        let mut text = vec![];
        let style = r.below(3);
        let sp = doc::write(r, &j, style, &mut text);
        o.key(&text);
        let b = Body { pos: (0..text.len()).collect(), json: None };
        let mut want = vec![];
        of_value(&b, &sp, "json", &mut want);
        let sent = r.bool();
        let dir = if sent { Direction::Sent } else { Direction::Received };
        let t = if sent { Transcript::new(text.clone(), vec![]) } else { Transcript::new(vec![], text.clone()) };
        let mut c = TranscriptCommitConfigBuilder::new(&t);
        let d = tlsn_formats::spansy::json::parse_slice(&text).map_err(|e| e.to_string())?;
        quiet(|| DefaultJsonCommitter::default().commit_value(&mut c, &d.root, dir))?.map_err(|e| format!("refused: {e}"))?;
        let got = got(c, HashAlgId::BLAKE3)?;
        compare(&want.into_iter().map(|(s, w)| ((sent, norm(&s)), w)).collect(), &got, [t.sent(), t.received()])?;
        o.see(format!("root/{}", sp.kind));
        Ok(())
    });
    cx.cases("refused", 8000, 400000, |r, _, o| {
        let mut text = [vec![], vec![]];
        let ms = [stream(r, true, &mut text[0]), stream(r, false, &mut text[1])];
        o.key([&text[0][..], b"|", &text[1][..]].concat());
        let side = r.below(2);
        if r.bool() {
            // not HTTP any more
            let mut bad = text.clone();
            match r.below(3) {
                0 => { let n = r.range(1, 30); bad[side] = r.bytes(n).iter().map(|b| b | 0x80).collect() }
                1 if ms[side].last().is_some() => { let m = ms[side].last().unwrap(); let n = r.below(m.line.end - m.all.start); if n == 0 { return Ok(()) }; bad[side].truncate(m.all.start + n) }
                _ => bad[side].extend(b"garbage without an end"),
            }
            if side == 1 && ms[1].last().is_some_and(|m| m.body.is_some() || !m.fields.iter().any(|f| f.key == "Content-Length")) && bad[1].len() > text[1].len() {
                return Ok(()) // belongs to an open body
            }
            let t = Transcript::new(bad[0].clone(), bad[1].clone());
            ensure!(quiet(|| HttpTranscript::parse(&t).is_err())?, "accepted as HTTP: {:?}", String::from_utf8_lossy(&bad[side]));
            o.see(format!("not HTTP/{side}"));
        } else if let Some(m) = ms[side].first() {
            // a document that is not the one of the transcript
            let t = Transcript::new(text[0].clone(), text[1].clone());
            let p = HttpTranscript::parse(&t).map_err(|e| e.to_string())?;
            let n = r.below(m.all.end);
            let mut cut = text.clone();
            cut[side].truncate(n);
            let short = Transcript::new(cut[0].clone(), cut[1].clone());
            let mut b = TranscriptCommitConfigBuilder::new(&short);
            let e = match quiet(|| DefaultHttpCommitter::default().commit_transcript(&mut b, &p))? {
                Ok(()) => return Err("committed beyond the transcript".into()),
                Err(e) => e,
            };
            ensure_eq!(*e.record_kind(), [MessageKind::Request, MessageKind::Response][side], "kind of the failed message");
            ensure!(!e.to_string().is_empty() && !e.msg().is_empty(), "error without words");
            o.see(format!("too short/{side}"));
        }
        Ok(())
    });
    for w in ["body/json", "body/other", "body/in pieces", "messages/0", "messages/3", "root/0", "root/1", "root/2", "root/3", "not HTTP/0", "not HTTP/1", "too short/0", "too short/1"] {
        cx.require(w, 20);
    }
    cx.require("commitments", 5000);
}
