//! C03 (redacted transcripts), C04/C05 (transcript proofs), C06 (commitment configurations).

use crate::t_hash::{Custom, alg_id, ref_hash, tweak};
use rangeset::set::RangeSet;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use tlsn_core::{
    connection::TranscriptLength,
    hash::{Hash, HashProvider, TypedHash},
    transcript::{
        Direction, PartialTranscript, Subsequence, Transcript, TranscriptCommitConfig, TranscriptCommitment, TranscriptCommitmentKind, TranscriptProof, TranscriptProofBuilder,
        TranscriptSecret,
        hash::{PlaintextHash, PlaintextHashSecret},
    },
};
use vfw::{CaseResult, Cx, Obs, R, ensure, ensure_eq};

pub const DIRS: [Direction; 2] = [Direction::Sent, Direction::Received];
pub type Bits = Vec<bool>;

pub fn set_of(b: &Bits) -> RangeSet<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] {
            let s = i;
            while i < b.len() && b[i] {
                i += 1;
            }
            v.push(s..i);
        } else {
            i += 1;
        }
    }
    RangeSet::from(v)
}
pub fn bits_of(s: &RangeSet<usize>, n: usize) -> Result<Bits, String> {
    let mut b = vec![false; n];
    for i in s.iter_values() {
        *b.get_mut(i).ok_or(format!("position {i} outside {n} bytes"))? = true;
    }
    Ok(b)
}
pub fn random_bits(r: &mut R, n: usize) -> Bits {
    let mut b = vec![false; n];
    if n == 0 {
        return b;
    }
    match r.below(8) {
        0 => {}
        1 => b.iter_mut().for_each(|x| *x = true),
        2 => b.iter_mut().for_each(|x| *x = r.bool()),
        _ => {
            for _ in 0..r.range(1, 4) {
                let s = r.below(n);
                let e = (s + 1 + r.len(n)).min(n);
                b[s..e].iter_mut().for_each(|x| *x = true);
            }
        }
    }
    b
}
fn or(a: &mut Bits, b: &Bits) {
    for (x, y) in a.iter_mut().zip(b) {
        *x |= *y;
    }
}
fn subset(a: &Bits, b: &Bits) -> bool {
    a.iter().zip(b).all(|(x, y)| !*x || *y)
}
fn pick_bytes(d: &[u8], b: &Bits) -> Vec<u8> {
    d.iter().zip(b).filter(|(_, s)| **s).map(|(x, _)| *x).collect()
}

/// What a redacted transcript must be, per direction.
#[derive(Clone)]
struct Model {
    data: [Vec<u8>; 2],
    shown: [Vec<u8>; 2],
    authed: [Bits; 2],
}
impl Model {
    fn blank(lens: [usize; 2], data: [Vec<u8>; 2]) -> Self {
        Model { data, shown: lens.map(|n| vec![0; n]), authed: lens.map(|n| vec![false; n]) }
    }
    fn auth(&mut self, d: usize, b: &Bits) {
        for i in 0..b.len() {
            if b[i] {
                self.authed[d][i] = true;
                self.shown[d][i] = self.data[d][i];
            }
        }
    }
    fn fill(&mut self, d: usize, range: std::ops::Range<usize>, v: u8) {
        for i in range {
            if !self.authed[d][i] {
                self.shown[d][i] = v;
            }
        }
    }
}

fn compare(p: &PartialTranscript, m: &Model, what: &str) -> CaseResult {
    let shown = [p.sent_unsafe(), p.received_unsafe()];
    let authed = [p.sent_authed(), p.received_authed()];
    let unauthed = [p.sent_unauthed(), p.received_unauthed()];
    ensure_eq!((p.len_sent(), p.len_received()), (m.data[0].len(), m.data[1].len()), "lengths after {what}");
    for d in 0..2 {
        let n = m.data[d].len();
        ensure_eq!(bits_of(authed[d], n)?, m.authed[d], "authenticated positions of direction {d} after {what}");
        ensure_eq!(bits_of(&unauthed[d], n)?, m.authed[d].iter().map(|x| !x).collect::<Bits>(), "unauthenticated positions of direction {d} after {what}");
        ensure_eq!(shown[d], &m.shown[d][..], "bytes of direction {d} after {what}");
        ensure_eq!(p.iter(DIRS[d]).collect::<Vec<_>>(), pick_bytes(&m.data[d], &m.authed[d]), "authenticated bytes of direction {d} after {what}");
        for end in [n.saturating_sub(1), n, n + 1] {
            let s = if end == 0 { RangeSet::default() } else { RangeSet::from(end - 1..end) };
            ensure_eq!(p.contains(DIRS[d], &s), end <= n, "position {end} of {n} within the transcript");
        }
    }
    ensure_eq!(p.is_complete(), m.authed.iter().all(|a| a.iter().all(|x| *x)), "completeness after {what}");
    Ok(())
}

pub fn transcript(r: &mut R, max: usize) -> Transcript {
    let (a, b) = (r.len(max), r.len(max));
    // zero bytes are as good as any other
    let mk = |r: &mut R, n: usize| -> Vec<u8> { if r.chance(1, 6) { vec![0; n] } else { r.bytes(n) } };
    let (a, b) = (mk(r, a), mk(r, b));
    Transcript::new(a, b)
}

pub fn c03(cx: &mut Cx) {
    cx.rule("Non-trivial: a redacted transcript driven through a random history in step with a position-by-position model; key = final authenticated positions.");
    cx.cases("histories", 25000, 1200000, |r, idx, o| {
        let t = transcript(r, if idx % 40 == 0 { 3000 } else { 60 });
        let data = [t.sent().to_vec(), t.received().to_vec()];
        let lens = [data[0].len(), data[1].len()];
        ensure_eq!(t.len(), (lens[0], lens[1]), "transcript length");
        ensure_eq!((t.length().sent as usize, t.length().received as usize), (lens[0], lens[1]), "transcript length");
        let mut m = Model::blank(lens, data.clone());
        let mut p = if r.bool() {
            let b = [random_bits(r, lens[0]), random_bits(r, lens[1])];
            m.auth(0, &b[0]);
            m.auth(1, &b[1]);
            t.to_partial(set_of(&b[0]), set_of(&b[1]))
        } else {
            PartialTranscript::new(lens[0], lens[1])
        };
        compare(&p, &m, "creation")?;
        let mut hist = vec![];
        for _ in 0..r.range(1, 10) {
            let d = r.below(2);
            let what = match r.below(7) {
                0 => {
                    // another redaction of the same transcript, itself with arbitrary filler
                    let b = [random_bits(r, lens[0]), random_bits(r, lens[1])];
                    let mut q = t.to_partial(set_of(&b[0]), set_of(&b[1]));
                    if r.bool() {
                        q.set_unauthed(r.u8());
                    }
                    p.union_transcript(&q);
                    m.auth(0, &b[0]);
                    m.auth(1, &b[1]);
                    "union"
                }
                1 => {
                    let b = random_bits(r, lens[d]);
                    let s = t.get(DIRS[d], &set_of(&b)).ok_or("subsequence inside the transcript refused")?;
                    ensure_eq!(s.data(), &pick_bytes(&data[d], &b)[..], "subsequence");
                    ensure_eq!(s.len(), s.data().len(), "subsequence length");
                    ensure_eq!(bits_of(s.index(), lens[d])?, b, "subsequence positions");
                    let (i, v) = s.clone().into_parts();
                    ensure!(Subsequence::new(i, v).map_err(|e| e.to_string())? == s, "subsequence rebuilt from its parts");
                    p.union_subsequence(DIRS[d], &s);
                    m.auth(d, &b);
                    "subsequence"
                }
                2 => {
                    let v = r.u8();
                    p.set_unauthed(v);
                    (0..2).for_each(|d| m.fill(d, 0..lens[d], v));
                    "set_unauthed"
                }
                3 | 4 => {
                    let s = r.range(0, lens[d]);
                    let e = r.range(s, lens[d]);
                    let v = r.u8();
                    p.set_unauthed_range(v, DIRS[d], s..e);
                    m.fill(d, s..e, v);
                    "set_unauthed_range"
                }
                5 => {
                    p = bincode::deserialize(&bincode::serialize(&p).unwrap()).map_err(|e| format!("redacted transcript after serialization: {e}"))?;
                    (0..2).for_each(|d| m.fill(d, 0..lens[d], 0));
                    "bincode"
                }
                _ => {
                    p = serde_json::from_str(&serde_json::to_string(&p).unwrap()).map_err(|e| format!("redacted transcript after serialization: {e}"))?;
                    (0..2).for_each(|d| m.fill(d, 0..lens[d], 0));
                    "json"
                }
            };
            hist.push(what);
            o.see(format!("step/{what}"));
            o.evals(1);
            compare(&p, &m, what)?;
        }
        o.input(json!({"lens": lens, "history": hist}));
        o.key(m.authed.concat().iter().map(|b| *b as u8).collect::<Vec<_>>());
        Ok(())
    });
    cx.cases("secrecy", 15000, 600000, |r, _, o| {
        // Two transcripts that agree on the selected bytes are indistinguishable once redacted.
        let t = transcript(r, 80);
        let (n0, n1) = t.len();
        let b = [random_bits(r, n0), random_bits(r, n1)];
        let mut alt = [t.sent().to_vec(), t.received().to_vec()];
        let mut changed = 0;
        for d in 0..2 {
            for i in 0..alt[d].len() {
                if !b[d][i] {
                    alt[d][i] = r.u8();
                    changed += 1;
                }
            }
        }
        let t2 = Transcript::new(alt[0].clone(), alt[1].clone());
        let mut a = t.to_partial(set_of(&b[0]), set_of(&b[1]));
        let mut c = t2.to_partial(set_of(&b[0]), set_of(&b[1]));
        for step in 0..3 {
            ensure!(a.sent_unsafe() == c.sent_unsafe() && a.received_unsafe() == c.received_unsafe(), "redacted bytes depend on hidden ones (step {step})");
            ensure!(format!("{a:?}") == format!("{c:?}"), "debug output depends on hidden bytes");
            let (x, y) = (bincode::serialize(&a).unwrap(), bincode::serialize(&c).unwrap());
            ensure!(x == y, "serialized form depends on hidden bytes (step {step})");
            ensure!(serde_json::to_value(&a).unwrap() == serde_json::to_value(&c).unwrap(), "serialized form depends on hidden bytes (step {step})");
            let v = r.u8();
            a.set_unauthed(v);
            c.set_unauthed(v);
        }
        ensure!(!format!("{t:?}").contains("[1") && format!("{t:?}") == format!("{t2:?}"), "debug output of a transcript shows its bytes");
        o.add("hidden_bytes_varied", changed);
        if changed > 0 {
            o.key([alt[0].clone(), alt[1].clone()].concat());
        }
        Ok(())
    });
    cx.cases("bounds", 10000, 300000, |r, _, o| {
        // Out-of-range selections and mismatched parts are refused.
        let t = transcript(r, 40);
        let n = [t.sent().len(), t.received().len()];
        let d = r.below(2);
        let s = r.range(0, n[d] + 3);
        let e = s + r.range(1, 5);
        let set = RangeSet::from(s..e);
        ensure_eq!(t.get(DIRS[d], &set).is_some(), e <= n[d], "subsequence {s}..{e} of {} bytes", n[d]);
        let k = r.range(0, 7);
        ensure_eq!(Subsequence::new(set.clone(), r.bytes(k)).is_ok(), k == e - s, "subsequence of {} positions and {k} bytes", e - s);
        let v = json!({"idx": serde_json::to_value(&set).unwrap(), "data": r.bytes(k)});
        ensure_eq!(serde_json::from_value::<Subsequence>(v).is_ok(), k == e - s, "deserialized subsequence of {} positions and {k} bytes", e - s);
        if e > n[d] {
            let q = vfw::quiet(|| t.to_partial(if d == 0 { set.clone() } else { RangeSet::default() }, if d == 1 { set.clone() } else { RangeSet::default() }));
            ensure!(q.is_err(), "selection outside the transcript accepted");
            o.see("outside");
        } else {
            o.see("inside");
        }
        let other = PartialTranscript::new(n[0] + r.below(2), n[1] + 1);
        let mut p = PartialTranscript::new(n[0], n[1]);
        ensure!(vfw::quiet(|| p.union_transcript(&other)).is_err(), "union of transcripts of different lengths");
        o.key([s as u8, e as u8, n[0] as u8, n[1] as u8, k as u8]);
        Ok(())
    });
    for w in ["union", "subsequence", "set_unauthed", "set_unauthed_range", "bincode", "json"] {
        cx.require(&format!("step/{w}"), 300);
    }
    cx.require("outside", 100);
    cx.require("hidden_bytes_varied", 1000);
}

/// A set of commitments to a transcript with their openings.
pub struct World {
    pub t: Transcript,
    pub commits: Vec<TranscriptCommitment>,
    pub secrets: Vec<TranscriptSecret>,
    /// direction, positions, algorithm
    pub what: Vec<(usize, Bits, u8)>,
}

pub fn commit(r: &mut R, t: &Transcript, d: usize, b: &Bits, alg: u8) -> (TranscriptCommitment, TranscriptSecret) {
    let raw = r.bytes(16);
    let data = [t.sent(), t.received()][d];
    let hash = ref_hash(alg, &[&pick_bytes(data, b), &raw]);
    (
        TranscriptCommitment::Hash(PlaintextHash {
            direction: DIRS[d],
            idx: set_of(b),
            hash: TypedHash { alg: alg_id(alg), value: Hash::try_from(hash).unwrap() },
        }),
        TranscriptSecret::Hash(PlaintextHashSecret { direction: DIRS[d], idx: set_of(b), alg: alg_id(alg), blinder: bincode::deserialize(&raw).unwrap() }),
    )
}

pub fn world(r: &mut R, max: usize) -> World {
    let mut t = transcript(r, max);
    if t.len().0 + t.len().1 == 0 {
        t = Transcript::new(r.bytes(9), r.bytes(5));
    }
    let mut w = World { commits: vec![], secrets: vec![], what: vec![], t };
    for _ in 0..r.range(1, 7) {
        let d = r.below(2);
        let n = [w.t.sent().len(), w.t.received().len()][d];
        let b = random_bits(r, n);
        if !b.contains(&true) {
            continue;
        }
        let alg = *r.pick(&[1u8, 2, 3, 1, 2, 3, 200]);
        let (c, s) = commit(r, &w.t, d, &b, alg);
        w.commits.push(c);
        w.secrets.push(s);
        w.what.push((d, b, alg));
    }
    w
}

pub fn provider() -> HashProvider {
    let mut p = HashProvider::default();
    p.set_algorithm(alg_id(200), Box::new(Custom(200)));
    p
}

fn set_from_json(v: &Value) -> Option<BTreeSet<usize>> {
    let s: RangeSet<usize> = serde_json::from_value(v.clone()).ok()?;
    if s.len() > 1_000_000 {
        return None;
    }
    Some(s.iter_values().collect())
}
fn bytes_from_json(v: &Value) -> Option<Vec<u8>> {
    serde_json::from_value(v.clone()).ok()
}

/// Decides whether a serialized proof opens commitments of `commits` and what it then shows.
/// None: not decidable here (the reader decides).
#[allow(clippy::type_complexity)]
pub fn reference_verify(proof: &Value, lens: [usize; 2], commits: &[TranscriptCommitment]) -> Option<Result<[BTreeMap<usize, u8>; 2], &'static str>> {
    let tr = &proof["transcript"];
    let idx = [set_from_json(&tr["sent_idx"])?, set_from_json(&tr["recv_idx"])?];
    let bytes = [bytes_from_json(&tr["sent_authed"])?, bytes_from_json(&tr["received_authed"])?];
    let total = [tr["sent_total"].as_u64()? as usize, tr["recv_total"].as_u64()? as usize];
    if total != lens {
        return Some(Err("length"));
    }
    let mut shown = [BTreeMap::new(), BTreeMap::new()];
    for d in 0..2 {
        if idx[d].len() != bytes[d].len() || idx[d].iter().any(|i| *i >= total[d]) {
            return Some(Err("malformed transcript"));
        }
        shown[d] = idx[d].iter().copied().zip(bytes[d].iter().copied()).collect();
    }
    let mut opened = [BTreeSet::new(), BTreeSet::new()];
    for s in proof["hash_secrets"].as_array()? {
        let d = match s["direction"].as_str()? {
            "Sent" => 0,
            "Received" => 1,
            _ => return None,
        };
        let pos = set_from_json(&s["idx"])?;
        let alg = s["alg"].as_u64()?;
        let blinder = bytes_from_json(&s["blinder"])?;
        if blinder.len() != 16 || alg > 255 {
            return None;
        }
        if pos.iter().any(|i| *i >= lens[d]) {
            return Some(Err("opening outside the transcript"));
        }
        if !(1..=3).contains(&alg) && alg != 200 {
            return Some(Err("unknown algorithm"));
        }
        // Bytes that are not shown count as the placeholder: they cannot have been committed
        // to unless they are zero, and the union rule below refuses them anyway.
        let msg: Vec<u8> = pos.iter().map(|i| shown[d].get(i).copied().unwrap_or(0)).collect();
        let hash = ref_hash(alg as u8, &[&msg, &blinder]);
        let found = commits.iter().any(|c| match c {
            TranscriptCommitment::Hash(h) => {
                h.direction == DIRS[d] && h.hash.alg == alg_id(alg as u8) && h.hash.value.as_bytes() == hash && h.idx.iter_values().collect::<BTreeSet<_>>() == pos
            }
            #[allow(unreachable_patterns)]
            _ => false,
        });
        if !found {
            return Some(Err("opening matches no commitment"));
        }
        opened[d].extend(pos);
    }
    for d in 0..2 {
        if opened[d] != idx[d] {
            return Some(Err("revealed bytes differ from opened ones"));
        }
    }
    Some(Ok(shown))
}

pub fn check_shown(p: &PartialTranscript, shown: &[BTreeMap<usize, u8>; 2], lens: [usize; 2]) -> CaseResult {
    ensure_eq!([p.len_sent(), p.len_received()], lens, "length of the verified transcript");
    for d in 0..2 {
        let a = [p.sent_authed(), p.received_authed()][d];
        ensure_eq!(a.iter_values().collect::<Vec<_>>(), shown[d].keys().copied().collect::<Vec<_>>(), "positions of the verified transcript");
        let bytes = [p.sent_unsafe(), p.received_unsafe()][d];
        for (i, x) in bytes.iter().enumerate() {
            ensure!(*x == shown[d].get(&i).copied().unwrap_or(0), "byte {i} of the verified transcript");
        }
    }
    Ok(())
}

fn honest(r: &mut R, w: &World) -> Result<Option<TranscriptProof>, String> {
    let mut b = TranscriptProofBuilder::new(&w.t, &w.secrets);
    b.commitment_kinds(&[1u8, 2, 3, 200].map(|a| TranscriptCommitmentKind::Hash { alg: alg_id(a) }));
    let mut any = false;
    for (d, bits, _) in &w.what {
        if r.bool() {
            b.reveal(&set_of(bits), DIRS[*d]).map_err(|e| e.to_string())?;
            any = true;
        }
    }
    if !any && r.chance(9, 10) {
        let (d, bits, _) = &w.what[0];
        b.reveal(&set_of(bits), DIRS[*d]).map_err(|e| e.to_string())?;
    }
    // A greedy cover of a union of whole commitments always exists within one algorithm; across
    // algorithms the residual may not be coverable.
    Ok(b.build().ok())
}

pub fn c04(cx: &mut Cx) {
    cx.rule("Non-trivial: a serialized proof judged by an independent evaluator of openings and commitments; key = the proof.");
    cx.cases("proofs", 30000, 1500000, |r, idx, o| {
        let w = world(r, if idx % 60 == 0 { 2500 } else { 40 });
        if w.what.is_empty() {
            o.see("no_commitments");
            return Ok(());
        }
        let Some(proof) = honest(r, &w)? else {
            o.see("not_coverable");
            return Ok(());
        };
        let lens = [w.t.sent().len(), w.t.received().len()];
        let length = TranscriptLength { sent: lens[0] as u32, received: lens[1] as u32 };
        let p = provider();
        let v0 = serde_json::to_value(&proof).unwrap();
        let out = proof.verify_with_provider(&p, &length, &w.commits).map_err(|e| format!("honest proof refused: {e}"))?;
        let shown = reference_verify(&v0, lens, &w.commits).ok_or("reference undecided")?.map_err(|e| format!("honest proof refused by the reference: {e}"))?;
        check_shown(&out, &shown, lens)?;
        o.see("honest");
        for _ in 0..6 {
            let mut v = v0.clone();
            let mut commits = w.commits.clone();
            let mut length = length.clone();
            let mut names = vec![];
            for _ in 0..r.range(1, 2) {
                let ns = v["hash_secrets"].as_array().unwrap().len();
                names.push(mutate(r, &mut v, &mut commits, &mut length, ns, &w));
            }
            o.evals(1);
            let lens2 = [length.sent as usize, length.received as usize];
            let want = reference_verify(&v, lens2, &commits);
            let dec = vfw::quiet(|| serde_json::from_value::<TranscriptProof>(v.clone())).map_err(|e| format!("proof reader: {e}"))?;
            match dec {
                Err(_) => {
                    ensure!(!matches!(want, Some(Ok(_))), "acceptable proof cannot be read back ({names:?})");
                    o.see("unreadable");
                }
                Ok(p2) => {
                    let got = vfw::quiet(|| p2.verify_with_provider(&p, &length, &commits)).map_err(|e| format!("verifier: {e}"))?;
                    match want {
                        None => o.see("undecided"),
                        Some(Err(why)) => {
                            ensure!(got.is_err(), "false proof accepted ({why}): {names:?}");
                            o.see(format!("refused/{why}"));
                            for n in names {
                                o.see(format!("altered/{n}"));
                            }
                        }
                        Some(Ok(shown)) => {
                            let g = got.map_err(|e| format!("true proof refused ({names:?}): {e}"))?;
                            check_shown(&g, &shown, lens2)?;
                            o.see("accepted_altered");
                        }
                    }
                }
            }
            o.key(v.to_string());
        }
        Ok(())
    });
    for w in ["length", "opening outside the transcript", "unknown algorithm", "opening matches no commitment", "revealed bytes differ from opened ones"] {
        cx.require(&format!("refused/{w}"), 60);
    }
    cx.require("honest", 1000);
    cx.require("accepted_altered", 300);
}

fn mutate(r: &mut R, v: &mut Value, commits: &mut Vec<TranscriptCommitment>, length: &mut TranscriptLength, ns: usize, w: &World) -> &'static str {
    let d = r.below(2);
    let (bk, ik, tk) = [("sent_authed", "sent_idx", "sent_total"), ("received_authed", "recv_idx", "recv_total")][d];
    let si = if ns > 0 { r.below(ns) } else { 0 };
    match r.below(17) {
        0 => {
            if tweak(r, &mut v["transcript"][bk]) { "byte" } else { "none" }
        }
        1 if ns > 0 => {
            tweak(r, &mut v["hash_secrets"][si]["blinder"]);
            "blinder"
        }
        2 if ns > 0 => {
            v["hash_secrets"][si]["alg"] = json!(*r.pick(&[0u8, 1, 2, 3, 4, 127, 200, 201]));
            "algorithm"
        }
        3 if ns > 0 => {
            let x = if v["hash_secrets"][si]["direction"] == json!("Sent") { "Received" } else { "Sent" };
            v["hash_secrets"][si]["direction"] = json!(x);
            "direction"
        }
        4 if ns > 0 => {
            let mut s = set_from_json(&v["hash_secrets"][si]["idx"]).unwrap_or_default();
            let n = s.iter().last().copied().unwrap_or(0);
            match r.below(4) {
                0 => { s.insert(n + 1); }
                1 => { s.remove(&n); }
                2 => { s = s.iter().map(|i| i + 1).collect(); }
                _ => { s.insert(r.below(n + 2)); }
            }
            let bits: Bits = (0..=s.iter().last().copied().unwrap_or(0)).map(|i| s.contains(&i)).collect();
            v["hash_secrets"][si]["idx"] = serde_json::to_value(set_of(&bits)).unwrap();
            "positions"
        }
        5 if ns > 0 => {
            v["hash_secrets"].as_array_mut().unwrap().remove(si);
            "removed opening"
        }
        6 if ns > 0 => {
            let x = v["hash_secrets"][si].clone();
            v["hash_secrets"].as_array_mut().unwrap().push(x);
            "repeated opening"
        }
        7 => {
            v["hash_secrets"].as_array_mut().unwrap().reverse();
            "reordered openings"
        }
        8 => {
            // opening of a commitment whose bytes are not (all) shown
            let i = r.below(w.secrets.len());
            let TranscriptSecret::Hash(s) = &w.secrets[i] else { return "none" };
            v["hash_secrets"].as_array_mut().unwrap().push(serde_json::to_value(s).unwrap());
            "extra opening"
        }
        9 => {
            // shows one more byte
            let (lens, data) = ([w.t.sent().len(), w.t.received().len()], [w.t.sent(), w.t.received()]);
            let s = set_from_json(&v["transcript"][ik]).unwrap_or_default();
            let free: Vec<usize> = (0..lens[d]).filter(|i| !s.contains(i)).collect();
            if free.is_empty() {
                return "none";
            }
            let i = *r.pick(&free);
            let all: BTreeSet<usize> = s.into_iter().chain([i]).collect();
            let Some(old): Option<Vec<u8>> = bytes_from_json(&v["transcript"][bk]) else { return "none" };
            let mut it = old.into_iter();
            let new: Vec<u8> = all.iter().map(|p| if *p == i { if r.bool() { data[d][i] } else { r.u8() } } else { it.next().unwrap_or(0) }).collect();
            let bits: Bits = (0..lens[d]).map(|i| all.contains(&i)).collect();
            v["transcript"][ik] = serde_json::to_value(set_of(&bits)).unwrap();
            v["transcript"][bk] = json!(new);
            "extra byte"
        }
        10 => {
            // shows one byte less
            let s = set_from_json(&v["transcript"][ik]).unwrap_or_default();
            let Some(mut old): Option<Vec<u8>> = bytes_from_json(&v["transcript"][bk]) else { return "none" };
            if old.is_empty() || old.len() != s.len() {
                return "none";
            }
            let k = r.below(old.len());
            old.remove(k);
            let gone = *s.iter().nth(k).unwrap();
            let bits: Bits = (0..=*s.iter().last().unwrap()).map(|i| s.contains(&i) && i != gone).collect();
            v["transcript"][ik] = serde_json::to_value(set_of(&bits)).unwrap();
            v["transcript"][bk] = json!(old);
            "hidden byte"
        }
        11 => {
            let n = v["transcript"][tk].as_u64().unwrap_or(0);
            v["transcript"][tk] = json!(if r.bool() { n + 1 } else { n.saturating_sub(1) });
            "total"
        }
        12 => {
            let x = if d == 0 { &mut length.sent } else { &mut length.received };
            *x = if r.bool() { x.wrapping_add(1) } else { x.saturating_sub(1) };
            "attested length"
        }
        13 if !commits.is_empty() => {
            let i = r.below(commits.len());
            commits.remove(i);
            "missing commitment"
        }
        14 if !commits.is_empty() => {
            let i = r.below(commits.len());
            let TranscriptCommitment::Hash(h) = &mut commits[i] else { return "none" };
            match r.below(4) {
                0 => h.direction = if h.direction == Direction::Sent { Direction::Received } else { Direction::Sent },
                1 => h.hash.alg = alg_id(*r.pick(&[1, 2, 3, 200])),
                2 => {
                    let mut x: Vec<u8> = h.hash.value.into();
                    let k = r.below(x.len());
                    x[k] ^= 1;
                    h.hash.value = Hash::try_from(x).unwrap();
                }
                _ => {
                    let mut s: BTreeSet<usize> = h.idx.iter_values().collect();
                    let n = s.iter().last().copied().unwrap_or(0);
                    if r.bool() { s.insert(n + 1); } else { s.remove(&n); }
                    let bits: Bits = (0..=n + 1).map(|i| s.contains(&i)).collect();
                    h.idx = set_of(&bits);
                }
            }
            "altered commitment"
        }
        15 => {
            let mut x = commits.clone();
            r.shuffle(&mut x);
            x.extend(commits.iter().take(1).cloned());
            *commits = x;
            "reordered commitments"
        }
        _ => {
            // both directions' contents exchanged
            for (a, b) in [("sent_authed", "received_authed"), ("sent_idx", "recv_idx"), ("sent_total", "recv_total")] {
                let x = v["transcript"][a].clone();
                v["transcript"][a] = v["transcript"][b].clone();
                v["transcript"][b] = x;
            }
            if r.bool() {
                std::mem::swap(&mut length.sent, &mut length.received);
            }
            "exchanged directions"
        }
    }
}

pub fn c05(cx: &mut Cx) {
    cx.rule("Non-trivial: a reveal request judged against the commitments position by position; key = request and commitments.");
    cx.cases("requests", 40000, 1800000, |r, idx, o| {
        let w = world(r, if idx % 80 == 0 { 1500 } else { 30 });
        let lens = [w.t.sent().len(), w.t.received().len()];
        let mut committed = [vec![false; lens[0]], vec![false; lens[1]]];
        for (d, b, _) in &w.what {
            or(&mut committed[*d], b);
        }
        let mut order: Vec<u8> = vec![1, 2, 3];
        let mut b = TranscriptProofBuilder::new(&w.t, &w.secrets);
        if r.bool() {
            let mut ks: Vec<u8> = vec![1, 2, 3, 200];
            r.shuffle(&mut ks);
            ks.truncate(r.range(0, 4));
            if !ks.is_empty() {
                order = ks.clone();
            }
            if r.chance(1, 3) && !ks.is_empty() {
                ks.push(ks[0]);
            }
            b.commitment_kinds(&ks.iter().map(|a| TranscriptCommitmentKind::Hash { alg: alg_id(*a) }).collect::<Vec<_>>());
        }
        let mut query = [vec![false; lens[0]], vec![false; lens[1]]];
        for _ in 0..r.range(0, 5) {
            let d = r.below(2);
            let set = match r.below(6) {
                0 => {
                    let s = r.below(lens[d] + 2);
                    RangeSet::from(s..s + 1 + r.below(6))
                }
                1 => set_of(&random_bits(r, lens[d])),
                2 if !w.what.is_empty() => {
                    // part of a commitment
                    let (_, b, _) = r.pick(&w.what);
                    let mut b = b.clone();
                    b.iter_mut().for_each(|x| *x &= r.chance(3, 4));
                    b.resize(lens[d], false);
                    set_of(&b)
                }
                _ if !w.what.is_empty() => {
                    let (_, b, _) = r.pick(&w.what);
                    set_of(b)
                }
                _ => RangeSet::default(),
            };
            // the position set may come from the other direction
            let inside = set.end().unwrap_or(0) <= lens[d];
            let ok = inside && subset(&bits_of(&set, lens[d])?, &committed[d]);
            let res = match r.below(3) {
                0 => b.reveal(&set, DIRS[d]).map(|_| ()),
                _ if d == 0 => b.reveal_sent(&set).map(|_| ()),
                _ => b.reveal_recv(&set).map(|_| ()),
            };
            ensure_eq!(res.is_ok(), ok, "request for {set:?} of direction {d} ({} bytes)", lens[d]);
            o.evals(1);
            o.see(match (ok, inside) { (true, _) => "request_accepted", (false, true) => "request_uncommitted", _ => "request_outside" });
            if ok {
                or(&mut query[d], &bits_of(&set, lens[d])?);
            }
        }
        // what openings of the allowed kinds can cover at all, and in the configured order
        let usable = |d: usize, a: u8, q: &Bits| -> Bits {
            let mut u = vec![false; lens[d]];
            for (dd, b, alg) in &w.what {
                if *dd == d && *alg == a && subset(b, q) {
                    or(&mut u, b);
                }
            }
            u
        };
        let mut greedy_left = query.clone();
        let mut possible = [vec![false; lens[0]], vec![false; lens[1]]];
        let mut first_only = true;
        for (k, a) in order.iter().enumerate() {
            for d in 0..2 {
                let u = usable(d, *a, &greedy_left[d]);
                for i in 0..lens[d] {
                    greedy_left[d][i] &= !u[i];
                }
                or(&mut possible[d], &usable(d, *a, &query[d]));
                if k == 0 && greedy_left[d].contains(&true) {
                    first_only = false;
                }
            }
        }
        let must = greedy_left.iter().all(|g| !g.contains(&true));
        let may = (0..2).all(|d| subset(&query[d], &possible[d]));
        o.input(json!({"lens": lens, "commitments": w.what.iter().map(|(d, b, a)| json!([d, format!("{:?}", set_of(b)), a])).collect::<Vec<_>>(), "order": order}));
        match b.build() {
            Ok(p) => {
                ensure!(may, "proof built for positions no allowed commitment covers");
                let v = serde_json::to_value(&p).unwrap();
                // openings stay inside the request and are of allowed kinds, preferred ones if they suffice
                for s in v["hash_secrets"].as_array().unwrap() {
                    let d = if s["direction"] == json!("Sent") { 0 } else { 1 };
                    let pos = set_from_json(&s["idx"]).ok_or("positions of an opening")?;
                    ensure!(pos.iter().all(|i| query[d].get(*i) == Some(&true)), "opening discloses positions that were not requested");
                    let a = s["alg"].as_u64().unwrap() as u8;
                    ensure!(order.contains(&a), "opening of kind {a}, which is not allowed");
                    if first_only {
                        ensure_eq!(a, order[0], "kind of an opening although the preferred kind suffices");
                    }
                    o.see("openings");
                }
                let length = w.t.length();
                let out = p.verify_with_provider(&provider(), &length, &w.commits).map_err(|e| format!("built proof refused: {e}"))?;
                for d in 0..2 {
                    let a = [out.sent_authed(), out.received_authed()][d];
                    ensure_eq!(bits_of(a, lens[d])?, query[d], "disclosed positions of direction {d}");
                    let data = [w.t.sent(), w.t.received()][d];
                    let shown = [out.sent_unsafe(), out.received_unsafe()][d];
                    for i in 0..lens[d] {
                        ensure_eq!(shown[i], if query[d][i] { data[i] } else { 0 }, "byte {i} of direction {d}");
                    }
                }
                o.see("built");
                if query.iter().any(|q| q.contains(&true)) {
                    o.key([query.concat().iter().map(|b| *b as u8).collect::<Vec<_>>(), order.clone()].concat());
                    if must && !first_only {
                        o.see("built_with_several_kinds");
                    }
                }
            }
            Err(e) => {
                ensure!(!must, "coverable request refused: {e}");
                o.see("not_coverable");
            }
        }
        Ok(())
    });
    for w in ["request_accepted", "request_uncommitted", "request_outside", "built", "not_coverable", "openings"] {
        cx.require(w, 300);
    }
    cx.require("built_with_several_kinds", 30);
}

pub fn c06(cx: &mut Cx) {
    cx.rule("Non-trivial: a configuration compared with the list of accepted requests; key = that list.");
    cx.cases("configurations", 30000, 1200000, |r, idx, o| {
        let t = transcript(r, if idx % 50 == 0 { 4000 } else { 40 });
        let lens = [t.sent().len(), t.received().len()];
        let mut b = TranscriptCommitConfig::builder(&t);
        let mut default = 2u8;
        let mut want: BTreeSet<(usize, Vec<usize>, u8)> = BTreeSet::new();
        let mut last: Option<(usize, RangeSet<usize>)> = None;
        for _ in 0..r.range(0, 12) {
            if r.chance(1, 4) {
                default = *r.pick(&[1, 2, 3, 200]);
                b.default_kind(TranscriptCommitmentKind::Hash { alg: alg_id(default) });
                continue;
            }
            let (mut d, mut set) = (r.below(2), RangeSet::default());
            match r.below(4) {
                0 => {
                    let s = r.below(lens[d] + 2);
                    set = RangeSet::from(s..s + 1 + r.below(4));
                }
                1 if last.is_some() => (d, set) = last.clone().unwrap(),
                _ => {
                    let bits = random_bits(r, lens[d]);
                    if bits.contains(&true) {
                        set = set_of(&bits);
                    } else {
                        continue;
                    }
                }
            }
            last = Some((d, set.clone()));
            let ok = set.end().unwrap_or(0) <= lens[d];
            let mut kind = default;
            let res = match r.below(4) {
                0 => b.commit(&set, DIRS[d]).map(|_| ()),
                1 => {
                    kind = *r.pick(&[1, 2, 3, 200]);
                    b.commit_with_kind(&set, DIRS[d], TranscriptCommitmentKind::Hash { alg: alg_id(kind) }).map(|_| ())
                }
                _ if d == 0 => b.commit_sent(&set).map(|_| ()),
                _ => b.commit_recv(&set).map(|_| ()),
            };
            ensure_eq!(res.is_ok(), ok, "commitment to {set:?} of {} bytes", lens[d]);
            o.evals(1);
            o.see(if ok { "accepted" } else { "refused" });
            if ok {
                want.insert((d, set.iter_values().collect(), kind));
            }
        }
        let cfg = b.build().map_err(|e| format!("configuration: {e}"))?;
        let flat = |d: &Direction, s: &RangeSet<usize>, a: u8| ((*d == Direction::Received) as usize, s.iter_values().collect::<Vec<_>>(), a);
        let cfg = if r.bool() { bincode::deserialize(&bincode::serialize(&cfg).unwrap()).map_err(|e| e.to_string())? } else { cfg };
        let mut got: Vec<_> = cfg.iter_hash().map(|((d, s), a)| flat(d, s, a.as_u8())).collect();
        got.sort();
        ensure_eq!(got, want.iter().cloned().collect::<Vec<_>>(), "committed ranges");
        ensure_eq!(cfg.has_hash(), !want.is_empty(), "configuration has hash commitments");
        let req = cfg.to_request();
        let req = if r.bool() { serde_json::from_str(&serde_json::to_string(&req).unwrap()).map_err(|e| e.to_string())? } else { req };
        let mut got: Vec<_> = req.iter_hash().map(|(d, s, a)| flat(d, s, a.as_u8())).collect();
        got.sort();
        ensure_eq!(got, want.iter().cloned().collect::<Vec<_>>(), "requested ranges");
        ensure_eq!(req.has_hash(), !want.is_empty(), "request has hash commitments");
        let _: &mut Obs = o;
        if !want.is_empty() {
            o.key(format!("{want:?}"));
        }
        Ok(())
    });
    cx.require("accepted", 1000);
    cx.require("refused", 300);
}
