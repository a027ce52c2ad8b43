//! C08: what the reader accepts obeys the rules of construction; C16: configurations.

use crate::{
    t_att, t_conn,
    t_hash::{alg_id, tweak},
    t_transcript::{self, DIRS, bits_of, random_bits, set_of},
};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use tlsn_attestation::{Attestation, Secrets, presentation::Presentation, request::Request};
use tlsn_core::{
    ProverOutput, VerifierOutput,
    config::{
        prove::{ProveConfig, ProveRequest},
        prover::ProverConfig,
        tls::TlsClientConfig,
        tls_commit::{
            TlsCommitConfig,
            mpc::{MpcTlsConfig, NetworkSetting},
            proxy::ProxyTlsConfig,
        },
        verifier::VerifierConfig,
    },
    connection::{ConnectionInfo, DnsName, HandshakeData, ServerName},
    hash::{Hash, TypedHash},
    transcript::{CompressedPartialTranscript, Direction, PartialTranscript, Subsequence, TranscriptCommitConfig, TranscriptCommitment, TranscriptCommitmentKind, TranscriptCommitRequest, TranscriptSecret},
    webpki::{CertificateDer, PrivateKeyDer, RootCertStore},
};
use vfw::{CaseResult, Cx, Obs, R, ensure, ensure_eq, quiet};

/// RFC 1123 host names of at most 253 bytes; underscores are let pass, and the last label is not a number.
pub fn name_ok(s: &str) -> bool {
    let b = s.strip_suffix('.').unwrap_or(s);
    if s.len() > 253 || b.is_empty() {
        return false;
    }
    let label = |l: &str| (1..=63).contains(&l.len()) && l.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'_') && !l.starts_with('-') && !l.ends_with('-');
    b.split('.').all(label) && !b.split('.').next_back().unwrap().bytes().all(|c| c.is_ascii_digit())
}
fn name(r: &mut R) -> String {
    let mut s = crate::chain::domain(r);
    for _ in 0..r.below(3) {
        match r.below(14) {
            0 => s.clear(),
            1 => s.push('.'),
            2 => s.insert(0, '.'),
            3 => s = s.replacen('.', "..", 1),
            4 => s = format!("{}.{s}", "a".repeat(*r.pick(&[62usize, 63, 64]))),
            5 => {
                let want = *r.pick(&[252usize, 253, 254, 255]);
                while s.len() < want {
                    let n = (want - s.len()).min(60);
                    s = if n < 2 { format!("x{s}") } else { format!("{}.{s}", "b".repeat(n - 1)) };
                }
            }
            6 => { let i = r.below(s.len() + 1); if s.is_char_boundary(i) { s.insert(i, *r.pick(&['-', '_', '*', ' ', '\0', 'é', '\n', '/', ':', '%', 'A', '0'])) } }
            7 => s = format!("{}.{}.{}.{}", r.u8(), r.u8(), r.u8(), r.u8()),
            8 => s = format!("{s}.{}", r.u8()),
            9 => s = format!("-{s}"),
            10 => s = s.replace('.', "-."),
            11 => s = "::1".into(),
            12 => s = s.to_uppercase(),
            _ => { s.pop(); }
        }
    }
    s
}

// ------------------------------------------------------------------ rules of accepted values

fn partial_rules(p: &PartialTranscript) -> CaseResult {
    for (d, all, idx) in [(Direction::Sent, p.sent_unsafe(), p.sent_authed()), (Direction::Received, p.received_unsafe(), p.received_authed())] {
        ensure!(idx.end().unwrap_or(0) <= all.len(), "positions beyond the {d} transcript");
        let seen: usize = idx.iter().map(|r| r.len()).sum();
        ensure_eq!(p.iter(d).count(), seen, "authenticated bytes of the {d} transcript");
        let mut last = 0;
        for r in idx.iter() {
            ensure!(r.start >= last && r.end > r.start, "ranges are not in order");
            // (no test whether hidden gigabytes are blank)
            ensure!(all[last..r.start.min(last + 1000)].iter().all(|b| *b == 0), "bytes outside the authenticated positions");
            last = r.end;
        }
    }
    Ok(())
}
fn name_rules(n: &ServerName) -> CaseResult {
    let ServerName::Dns(d) = n;
    ensure!(name_ok(d.as_str()), "illegal host name {:?} accepted", d.as_str());
    Ok(())
}
fn hash_rules(h: &TypedHash) -> CaseResult {
    ensure!(h.value.as_bytes().len() <= 64, "digest of {} bytes", h.value.as_bytes().len());
    Ok(())
}
fn commitment_rules(c: &TranscriptCommitment) -> CaseResult {
    match c {
        TranscriptCommitment::Hash(h) => hash_rules(&h.hash),
        _ => Ok(()),
    }
}
fn mpc_rules(c: &MpcTlsConfig) -> CaseResult {
    ensure!(c.max_recv_data_online() <= c.max_recv_data(), "limits contradict each other: {} online of {}", c.max_recv_data_online(), c.max_recv_data());
    Ok(())
}
fn commit_rules(c: &TlsCommitConfig) -> CaseResult {
    match c {
        TlsCommitConfig::Mpc(m) => mpc_rules(m),
        TlsCommitConfig::Proxy(p) => name_rules(&ServerName::Dns(p.server_name().clone())),
        _ => Ok(()),
    }
}
fn presentation_rules(p: &Presentation) -> CaseResult {
    let v = serde_json::to_value(p).unwrap();
    if !v["identity"].is_null() {
        let n = v["identity"]["name"]["Dns"].as_str().unwrap();
        ensure!(name_ok(n), "illegal host name {n:?} accepted within a presentation");
    }
    if !v["transcript"].is_null() {
        let t: PartialTranscript = serde_json::from_value(v["transcript"]["transcript"].clone()).map_err(|e| format!("transcript of an accepted presentation: {e}"))?;
        partial_rules(&t)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ probing one type

/// Damages any part of a JSON document.
fn damage(r: &mut R, v: &mut Value) {
    fn count(v: &Value) -> usize {
        1 + match v { Value::Array(a) => a.iter().map(count).sum(), Value::Object(o) => o.values().map(count).sum(), _ => 0 }
    }
    fn nth<'a>(v: &'a mut Value, n: &mut usize) -> Option<&'a mut Value> {
        if *n == 0 {
            return Some(v);
        }
        *n -= 1;
        match v {
            Value::Array(a) => a.iter_mut().find_map(|x| nth(x, n)),
            Value::Object(o) => o.values_mut().find_map(|x| nth(x, n)),
            _ => None,
        }
    }
    let mut n = r.below(count(v));
    let Some(x) = nth(v, &mut n) else { return };
    match (r.below(4), &mut *x) {
        (0, Value::Array(a)) if !a.is_empty() => { let i = r.below(a.len()); a.remove(i); }
        (1, Value::Array(a)) if !a.is_empty() => { let i = r.below(a.len()); let e = a[i].clone(); a.insert(i, e); }
        (2, Value::Array(a)) => { let n = r.below(90); a.extend((0..n).map(|i| json!(i % 256))) }
        (0, Value::Object(o)) if !o.is_empty() => { let k = o.keys().nth(r.below(o.len())).unwrap().clone(); o.remove(&k); }
        (_, Value::Number(_)) => *x = r.pick(&[json!(0), json!(1), json!(255), json!(256), json!(u32::MAX), json!(u32::MAX as u64 + 1), json!(i64::MAX), json!(u64::MAX), json!(u64::MAX / 8), json!(-1), json!(1.5)]).clone(),
        (_, Value::String(s)) => { let t = name(r); *s = t; }
        _ => *x = r.pick(&[json!(null), json!([]), json!({}), json!(""), json!("Dns"), json!([0, 1]), json!([[1, 0]]), json!([{"start": 5, "end": 2}]), json!([{"start": 0, "end": u64::MAX}]), json!([{"start": 3, "end": 3}])]).clone(),
    }
}
/// Round trip of a valid value, then damaged forms: the reader must neither crash nor accept what breaks the rules.
fn probe<T: Serialize + DeserializeOwned>(r: &mut R, o: &mut Obs, what: &str, x: &T, rounds: usize, rules: fn(&T) -> CaseResult) -> CaseResult {
    rules(x)?;
    let bytes = bincode::serialize(x).map_err(|e| format!("HARNESS {e}"))?;
    let doc = serde_json::to_value(x).map_err(|e| format!("HARNESS {e}"))?;
    let y: T = bincode::deserialize(&bytes).map_err(|e| format!("valid {what} unreadable: {e}"))?;
    let z: T = serde_json::from_value(doc.clone()).map_err(|e| format!("valid {what} unreadable: {e}"))?;
    rules(&y)?;
    ensure_eq!(serde_json::to_value(&y).unwrap(), doc, "{what} changed by storing (binary)");
    ensure_eq!(bincode::serialize(&z).unwrap(), bytes, "{what} changed by storing (JSON)");
    o.key(&bytes);
    o.see(format!("stored/{what}"));
    let sound = |got: T, peak: usize, o: &mut Obs| -> CaseResult {
        rules(&got)?;
        if peak > 64 << 20 {
            o.see(format!("damaged to be long/{what}"));
            return Ok(());
        }
        let b = quiet(|| bincode::serialize(&got))?.map_err(|e| e.to_string())?;
        let again: T = quiet(|| bincode::deserialize(&b))?.map_err(|e| format!("{what} accepted but not its own stored form: {e}"))?;
        ensure!(bincode::serialize(&again).unwrap() == b, "{what} not stable when stored again");
        o.see(format!("damaged but sound/{what}"));
        Ok(())
    };
    for _ in 0..rounds {
        o.evals(1);
        let mut b = bytes.clone();
        if r.bool() {
            for _ in 0..r.range(1, 3) {
                let n = b.len();
                match r.below(6) {
                    0 => b.truncate(r.below(n + 1)),
                    1 if n > 0 => { let i = r.below(n); b.remove(i); }
                    2 => { let i = r.below(n + 1); b.insert(i, r.u8()); }
                    3 if n >= 8 => { let i = r.below(n - 7); b[i..i + 8].copy_from_slice(&r.pick(&[0u64, 1, 1 << 32, u64::MAX, u64::MAX / 2, u64::MAX / 16, 1 << 40]).to_le_bytes()); }
                    _ if n > 0 => { let i = r.below(n); b[i] ^= 1 << r.below(8); }
                    _ => {}
                }
            }
            o.key(&b);
            let (got, peak) = vfw::with_peak(|| quiet(|| bincode::deserialize::<T>(&b)));
            match got.map_err(|e| format!("reader of {what} crashed: {e}"))? {
                Ok(t) => sound(t, peak, o)?,
                Err(_) => o.see(format!("refused/{what}")),
            }
        } else {
            let mut d = doc.clone();
            if r.bool() { damage(r, &mut d); } else { tweak(r, &mut d); }
            o.key(d.to_string());
            let (got, peak) = vfw::with_peak(|| quiet(|| serde_json::from_value::<T>(d.clone())));
            match got.map_err(|e| format!("reader of {what} crashed: {e} on {}", vfw::short(&d.to_string())))? {
                Ok(t) => sound(t, peak, o)?,
                Err(_) => o.see(format!("refused/{what}")),
            }
        }
    }
    Ok(())
}
fn none<T>(_: &T) -> CaseResult {
    Ok(())
}

pub fn mpc_config(r: &mut R) -> MpcTlsConfig {
    let max = r.below(1 << 20);
    let mut b = MpcTlsConfig::builder().max_sent_data(r.below(1 << 20)).max_recv_data(max).max_recv_data_online(r.below(max + 1));
    if r.bool() { b = b.max_sent_records(r.below(100)); }
    if r.bool() { b = b.max_recv_records_online(r.below(100)); }
    if r.bool() { b = b.defer_decryption_from_start(r.bool()); }
    if r.bool() { b = b.network(if r.bool() { NetworkSetting::Bandwidth } else { NetworkSetting::Latency }); }
    b.build().unwrap()
}
fn commit_config(r: &mut R, t: &tlsn_core::transcript::Transcript) -> TranscriptCommitConfig {
    let mut b = TranscriptCommitConfig::builder(t);
    for _ in 0..r.below(4) {
        let d = r.below(2);
        let bits = random_bits(r, [t.sent().len(), t.received().len()][d]);
        let alg = alg_id(*r.pick(&[1, 2, 3, 200]));
        b.commit_with_kind(&set_of(&bits), DIRS[d], TranscriptCommitmentKind::Hash { alg }).unwrap();
    }
    b.build().unwrap()
}

pub fn c08(cx: &mut Cx) {
    cx.rule("Valid values of every exchanged type are stored and read back in two formats; then the stored forms are damaged (bits, cuts, lengths and totals of any size, fields dropped, doubled, re-typed) and read: the reader must not crash, and what it accepts is judged by independently written rules. Values breaking one rule at a time must be refused. Non-trivial = a distinct stored form.");
    cx.assume("the numeric identifiers of hash, key and signature algorithms have no rule of their own: unknown ones are refused where they are used");
    // (long transcripts without content are legal and cost only address space)
    cx.mem_limit(40 << 30);
    cx.cases("one rule broken", 600, 12_000, |r, idx, o| {
        fn refused<T: DeserializeOwned + Serialize>(v: &Value, bin: &impl Serialize, legal: bool, o: &mut Obs, what: &str) -> CaseResult {
            let a = quiet(|| serde_json::from_value::<T>(v.clone())).map_err(|e| format!("reader of {what} crashed: {e} on {}", vfw::short(&v.to_string())))?;
            ensure_eq!(a.is_ok(), legal, "{what} read from JSON {}", vfw::short(&v.to_string()));
            let b = bincode::serialize(bin).map_err(|e| format!("HARNESS {e}"))?;
            let c = quiet(|| bincode::deserialize::<T>(&b)).map_err(|e| format!("reader of {what} crashed: {e}"))?;
            ensure_eq!(c.is_ok(), legal, "{what} read from bytes ({})", vfw::short(&v.to_string()));
            o.key(v.to_string());
            o.see(format!("{}/{what}", if legal { "legal" } else { "illegal" }));
            Ok(())
        }
        match idx % 6 {
            0 => {
                let s = name(r);
                let legal = name_ok(&s);
                ensure_eq!(quiet(|| DnsName::try_from(s.as_str()))?.is_ok(), legal, "host name {s:?}");
                refused::<DnsName>(&json!(s), &s, legal, o, "host name")?;
                refused::<ServerName>(&json!({"Dns": s}), &(0u32, &s), legal, o, "server name")?;
                refused::<ProxyTlsConfig>(&json!({"server_name": s}), &s, legal, o, "proxy configuration")?;
                if legal {
                    let d: DnsName = serde_json::from_value(json!(s)).unwrap();
                    ensure_eq!((d.as_str(), d.to_string()), (s.as_str(), s.clone()), "host name");
                }
            }
            1 => {
                let n = *r.pick(&[0, 1, 20, 32, 48, 63, 64, 65, 66, 100, 300]);
                let v = r.bytes(n);
                ensure_eq!(Hash::try_from(v.clone()).is_ok(), n <= 64, "digest of {n} bytes");
                refused::<Hash>(&json!(v), &v, n <= 64, o, "digest")?;
                refused::<TypedHash>(&json!({"alg": 1, "value": v}), &(1u8, &v), n <= 64, o, "typed digest")?;
                if n <= 64 {
                    let h: Hash = serde_json::from_value(json!(v)).unwrap();
                    ensure_eq!(h.as_bytes(), &v[..], "digest");
                    ensure!(h == Hash::try_from(v.clone()).unwrap(), "read digest differs from the constructed one");
                }
            }
            2 => {
                let n = r.below(40);
                let bits = random_bits(r, n);
                let len = bits.iter().filter(|b| **b).count();
                let k = match r.below(4) { 0 => len + 1 + r.below(3), 1 => len.saturating_sub(1), 2 => n, _ => len };
                let (idx, data) = (set_of(&bits), r.bytes(k));
                ensure_eq!(Subsequence::new(idx.clone(), data.clone()).is_ok(), k == len, "subsequence");
                refused::<Subsequence>(&json!({"idx": idx, "data": data}), &(&idx, &data), k == len, o, "subsequence")?;
            }
            3 => {
                // transcript with hidden parts
                let n = [r.below(30), r.below(30)];
                let bits = n.map(|n| random_bits(r, n));
                let idx = [set_of(&bits[0]), set_of(&bits[1])];
                let mut data = [0, 1].map(|d| r.bytes(bits[d].iter().filter(|b| **b).count()));
                let mut total = n.map(|n| n as u64);
                let d = r.below(2);
                let end = idx[d].end().unwrap_or(0) as u64;
                let (mut legal, mut what) = (true, "partial transcript");
                match r.below(7) {
                    0 => { data[d].push(1); legal = false }
                    1 => legal = data[d].pop().is_none(),
                    2 => { if end > 0 { total[d] = r.below(end as usize) as u64; legal = false } }
                    3 => total[d] = end,
                    4 => { total[d] = *r.pick(&[u64::MAX, u64::MAX / 2, i64::MAX as u64, 1 << 62, 1 << 48, 1 << 33]); legal = false; what = "partial transcript of absurd length" }
                    5 => { data.swap(0, 1); legal = data[0].len() == data[1].len() }
                    _ => {}
                }
                let v = json!({"sent_authed": data[0], "received_authed": data[1], "sent_idx": idx[0], "recv_idx": idx[1], "sent_total": total[0], "recv_total": total[1]});
                let bin = (&data[0], &data[1], &idx[0], &idx[1], total[0], total[1]);
                refused::<PartialTranscript>(&v, &bin, legal, o, what)?;
                refused::<CompressedPartialTranscript>(&v, &bin, legal, o, what)?;
                if legal {
                    let p: PartialTranscript = serde_json::from_value(v).unwrap();
                    partial_rules(&p)?;
                    for (k, (got, all)) in [(p.sent_authed(), p.sent_unsafe()), (p.received_authed(), p.received_unsafe())].into_iter().enumerate() {
                        ensure_eq!(all.len() as u64, total[k], "length");
                        ensure_eq!(bits_of(got, n[k])?, bits[k], "authenticated positions");
                        ensure_eq!(p.iter(DIRS[k]).collect::<Vec<_>>(), data[k], "authenticated bytes");
                    }
                }
            }
            _ => {
                let pick = |r: &mut R| *r.pick(&[0usize, 1, 31, 32, 33, 1 << 14, 1 << 32, usize::MAX - 1, usize::MAX]);
                let (online, max) = (pick(r), pick(r));
                let (sent, records, orecords) = (pick(r), r.bool().then(|| pick(r)), r.bool().then(|| pick(r)));
                let defer = r.bool();
                let v = json!({"max_sent_data": sent, "max_sent_records": records, "max_recv_data_online": online, "max_recv_data": max, "max_recv_records_online": orecords, "defer_decryption_from_start": defer, "network": "Latency"});
                let bin = (sent, records, online, max, orecords, defer, 1u32);
                refused::<MpcTlsConfig>(&v, &bin, online <= max, o, "session limits")?;
                refused::<TlsCommitConfig>(&json!({"Mpc": v}), &(0u32, bin), online <= max, o, "commitment configuration")?;
                if online <= max {
                    let c: MpcTlsConfig = serde_json::from_value(v).unwrap();
                    ensure_eq!((c.max_sent_data(), c.max_sent_records(), c.max_recv_data_online(), c.max_recv_data(), c.max_recv_records_online(), c.defer_decryption_from_start()), (sent, records, online, max, orecords, defer), "limits read back");
                }
            }
        }
        Ok(())
    });
    cx.cases("hostile", 160, 4_000, |r, _, o| {
        let s = t_att::sample(r)?;
        let t = &s.tw.t;
        let n = [t.sent().len(), t.received().len()];
        let p = t.to_partial(set_of(&random_bits(r, n[0])), set_of(&random_bits(r, n[1])));
        let k = 10;
        probe(r, o, "server name", &s.id.name, k, name_rules)?;
        probe(r, o, "partial transcript", &p, k, partial_rules)?;
        probe(r, o, "compressed transcript", &CompressedPartialTranscript::from(p.clone()), k, |c| {
            partial_rules(&PartialTranscript::from(c.clone()))
        })?;
        let bits = random_bits(r, 50);
        let len = bits.iter().filter(|b| **b).count();
        let q = Subsequence::new(set_of(&bits), r.bytes(len)).unwrap();
        probe(r, o, "subsequence", &q, k, |q| {
            ensure_eq!(q.index().len(), q.data().len(), "lengths of an accepted subsequence");
            Ok(())
        })?;
        for (c, x) in s.tw.commits.iter().zip(&s.tw.secrets) {
            probe::<TranscriptCommitment>(r, o, "commitment", c, 3, commitment_rules)?;
            probe::<TranscriptSecret>(r, o, "opening", x, 3, none)?;
        }
        let mpc = mpc_config(r);
        probe(r, o, "session limits", &mpc, k, mpc_rules)?;
        probe(r, o, "commitment configuration", &TlsCommitConfig::from(mpc), 4, commit_rules)?;
        let ServerName::Dns(d) = &s.id.name;
        let proxy = ProxyTlsConfig::builder().server_name(d.clone()).build().map_err(|e| e.to_string())?;
        probe(r, o, "proxy configuration", &TlsCommitConfig::from(proxy), 4, commit_rules)?;
        let cc = commit_config(r, t);
        probe::<TranscriptCommitRequest>(r, o, "commitment request", &cc.to_request(), 4, none)?;
        let mut pc = ProveConfig::builder(t);
        if r.bool() { pc.server_identity(); }
        pc.reveal_sent(&set_of(&random_bits(r, n[0]))).unwrap();
        pc.transcript_commit(cc);
        probe::<ProveRequest>(r, o, "proof request", &pc.build().unwrap().to_request(), 6, none)?;
        probe::<HandshakeData>(r, o, "handshake", &s.id.hd, 4, none)?;
        probe::<ConnectionInfo>(r, o, "connection", &s.info, 4, none)?;
        probe::<RootCertStore>(r, o, "roots", &s.id.roots, 2, none)?;
        probe::<ProverOutput>(r, o, "prover output", &ProverOutput { transcript_commitments: s.tw.commits.clone(), transcript_secrets: s.tw.secrets.clone() }, 3, |p| p.transcript_commitments.iter().try_for_each(commitment_rules))?;
        probe::<VerifierOutput>(r, o, "verifier output", &VerifierOutput { server_name: Some(s.id.name.clone()), transcript: Some(p), transcript_commitments: s.tw.commits.clone() }, 6, |v| {
            v.server_name.iter().try_for_each(name_rules)?;
            v.transcript.iter().try_for_each(partial_rules)?;
            v.transcript_commitments.iter().try_for_each(commitment_rules)
        })?;
        probe::<Request>(r, o, "request", &s.request, 6, none)?;
        probe::<Attestation>(r, o, "attestation", &s.attestation, 6, none)?;
        probe::<Secrets>(r, o, "secrets", &s.secrets, 6, |s| name_rules(s.server_name()))?;
        let (i, tr) = (r.bool(), r.bool());
        if let Some(p) = t_att::present(r, &s, i, tr)? {
            probe::<Presentation>(r, o, "presentation", &p, 12, presentation_rules)?;
        }
        Ok(())
    });
    for w in ["host name", "server name", "proxy configuration", "digest", "typed digest", "subsequence", "partial transcript", "session limits", "commitment configuration"] {
        cx.require(&format!("legal/{w}"), 10);
        cx.require(&format!("illegal/{w}"), 10);
    }
    cx.require("illegal/partial transcript of absurd length", 5);
    for w in ["server name", "partial transcript", "subsequence", "session limits", "request", "attestation", "secrets", "presentation", "verifier output", "proof request", "handshake"] {
        cx.require(&format!("stored/{w}"), 50);
        cx.require(&format!("refused/{w}"), 50);
    }
}

// ------------------------------------------------------------------ C16

/// Text that must not appear in what the peer is sent.
fn within(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}

pub fn c16(cx: &mut Cx) {
    cx.rule("Builders of all configurations driven with random subsets of their setters, in random order, with boundary and extreme values; result, defaults and refusals are compared with the documented rules, and derived requests with what was configured. Non-trivial = a distinct sequence of settings.");
    cx.cases("session limits", 500, 20_000, |r, _, o| {
        let pick = |r: &mut R| *r.pick(&[0usize, 1, 16, 31, 32, 33, 64, 1 << 10, 1 << 14, 1 << 32, usize::MAX - 1, usize::MAX]);
        let mut b = MpcTlsConfig::builder();
        let (mut sent, mut srec, mut online, mut max, mut rrec, mut defer, mut net) = (None, None, None, None, None, None, None);
        let mut log = vec![];
        let mut todo: Vec<usize> = (0..7).filter(|i| r.chance(if matches!(i, 0 | 3) { 9 } else { 5 }, 10)).collect();
        if r.chance(1, 4) { let i = r.below(7); todo.push(i); }
        r.shuffle(&mut todo);
        for i in todo {
            let v = pick(r);
            log.push((i, v));
            match i {
                0 => { b = b.max_sent_data(v); sent = Some(v) }
                1 => { b = b.max_sent_records(v); srec = Some(v) }
                2 => { b = b.max_recv_data_online(v); online = Some(v) }
                3 => { b = b.max_recv_data(v); max = Some(v) }
                4 => { b = b.max_recv_records_online(v); rrec = Some(v) }
                5 => { b = b.defer_decryption_from_start(v & 1 == 0); defer = Some(v & 1 == 0) }
                _ => { b = b.network(if v & 1 == 0 { NetworkSetting::Bandwidth } else { NetworkSetting::Latency }); net = Some(v & 1 == 0) }
            }
        }
        o.key(format!("{log:?}"));
        let got = quiet(|| b.build())?;
        let online = online.unwrap_or(32);
        let legal = sent.is_some() && max.is_some_and(|m| online <= m);
        ensure_eq!(got.is_ok(), legal, "limits built from {log:?}");
        let Ok(c) = got else {
            o.see(if sent.is_none() || max.is_none() { "limits/missing" } else { "limits/contradiction" });
            return Ok(());
        };
        ensure_eq!((Some(c.max_sent_data()), c.max_sent_records(), c.max_recv_data_online(), Some(c.max_recv_data()), c.max_recv_records_online()), (sent, srec, online, max, rrec), "limits after {log:?}");
        ensure_eq!((c.defer_decryption_from_start(), matches!(c.network(), NetworkSetting::Bandwidth)), (defer.unwrap_or(true), net.unwrap_or(false)), "options after {log:?}");
        // what the peer reads
        for back in [bincode::deserialize::<TlsCommitConfig>(&bincode::serialize(&TlsCommitConfig::from(c.clone())).unwrap()).map_err(|e| e.to_string())?, serde_json::from_value(json!(TlsCommitConfig::from(c.clone()))).map_err(|e| e.to_string())?] {
            let TlsCommitConfig::Mpc(d) = back else { return Err("another kind of configuration".into()) };
            ensure_eq!(format!("{d:?}"), format!("{c:?}"), "configuration read by the peer");
        }
        o.see("limits/built");
        Ok(())
    });
    cx.cases("proof request", 500, 12_000, |r, _, o| {
        let t = t_transcript::transcript(r, 60);
        let n = [t.sent().len(), t.received().len()];
        let mut b = ProveConfig::builder(&t);
        let mut shown = [vec![false; n[0]], vec![false; n[1]]];
        let (mut touched, mut identity, mut commits) = (false, false, None);
        for _ in 0..r.below(7) {
            match r.below(8) {
                0 => { b.server_identity(); identity = true }
                1 => { b.reveal_sent_all().map_err(|e| e.to_string())?; shown[0].fill(true); touched = true }
                2 => { b.reveal_recv_all().map_err(|e| e.to_string())?; shown[1].fill(true); touched = true }
                3 => {
                    // beyond the end
                    let d = r.below(2);
                    let over = n[d] + 1 + r.below(3);
                    let start = r.below(over);
                    let refused = quiet(|| match r.below(2) { 0 => b.reveal(DIRS[d], start..over).is_err(), _ if d == 0 => b.reveal_sent(start..over).is_err(), _ => b.reveal_recv(start..over).is_err() })?;
                    ensure!(refused, "positions {start}..{over} of {} revealed", n[d]);
                    o.see("reveal/out of range refused");
                }
                4 => {
                    let cc = commit_config(r, &t);
                    b.transcript_commit(cc.clone());
                    commits = Some(cc);
                }
                _ => {
                    let d = r.below(2);
                    let bits = random_bits(r, n[d]);
                    let s = set_of(&bits);
                    match (r.bool(), d) { (true, _) => b.reveal(DIRS[d], &s), (_, 0) => b.reveal_sent(&s), _ => b.reveal_recv(&s) }.map_err(|e| format!("positions within the transcript refused: {e}"))?;
                    for (x, y) in shown[d].iter_mut().zip(&bits) { *x |= *y }
                    touched = true;
                }
            }
        }
        let c = b.build().map_err(|e| e.to_string())?;
        let q = c.to_request();
        let q2: ProveRequest = bincode::deserialize(&bincode::serialize(&q).unwrap()).map_err(|e| e.to_string())?;
        o.key(json!(q).to_string());
        ensure_eq!([c.server_identity(), q.server_identity(), q2.server_identity()], [identity; 3], "identity");
        for x in [c.reveal(), q.reveal(), q2.reveal()] {
            match x {
                None => ensure!(!touched, "revealed positions got lost"),
                Some((a, b)) => {
                    ensure!(touched || (a.is_empty() && b.is_empty()), "positions nobody revealed");
                    ensure_eq!(bits_of(a, n[0])?, shown[0], "revealed sent positions");
                    ensure_eq!(bits_of(b, n[1])?, shown[1], "revealed received positions");
                    o.see("reveal/compared");
                }
            }
        }
        ensure_eq!(c.transcript_commit().is_some(), commits.is_some(), "commitments configured");
        for x in [q.transcript_commit(), q2.transcript_commit()] {
            ensure_eq!(x.is_some(), commits.is_some(), "commitments requested");
            if let (Some(x), Some(cc)) = (x, &commits) {
                let key = |d: &Direction, i: &rangeset::set::RangeSet<usize>, a: &tlsn_core::hash::HashAlgId| (*d as u8, i.iter().collect::<Vec<_>>().iter().map(|r| (r.start, r.end)).collect::<Vec<_>>(), a.as_u8());
                let mut got: Vec<_> = x.iter_hash().map(|(d, i, a)| key(d, i, a)).collect();
                let mut want: Vec<_> = cc.iter_hash().map(|((d, i), a)| key(d, i, a)).collect();
                got.sort();
                want.sort();
                ensure_eq!(got, want, "requested commitments");
                o.see("commitments/compared");
            }
        }
        // the request holds positions and algorithms only
        let bytes = bincode::serialize(&q).unwrap();
        for (d, bits) in shown.iter().enumerate() {
            let data = [t.sent(), t.received()][d];
            if data.len() >= 12 && data[..12].iter().collect::<std::collections::BTreeSet<_>>().len() > 8 {
                ensure!(!within(&bytes, &data[..12]), "transcript bytes in a request");
                let _ = bits;
                o.see("request/free of content");
            }
        }
        Ok(())
    });
    cx.cases("endpoints", 200, 4_000, |r, _, o| {
        let id = t_conn::identity(r, 0)?;
        let (a, b, c) = (r.chance(3, 4), r.chance(3, 4), r.bool());
        let mut x = TlsClientConfig::builder();
        let key = PrivateKeyDer(r.bytes(30));
        if a { x = x.server_name(id.name.clone()); }
        if b { x = x.root_store(id.roots.clone()); }
        if c { x = x.client_auth((vec![CertificateDer(vec![1]), CertificateDer(vec![2, 3])], key.clone())); }
        o.key(format!("{a}{b}{c}{}", id.w.host));
        let got = x.build();
        ensure_eq!(got.is_ok(), a && b, "client configuration with name {a}, roots {b}");
        if let Ok(g) = got {
            ensure_eq!((g.server_name(), json!(g.root_store()), json!(g.client_auth())), (&id.name, json!(id.roots), if c { json!([[[1], [2, 3]], key.0]) } else { Value::Null }), "client configuration");
            let h: TlsClientConfig = serde_json::from_value(json!(g)).map_err(|e| e.to_string())?;
            ensure_eq!(json!(h), json!(g), "stored client configuration");
            o.see("client/built");
        } else {
            o.see("client/refused");
        }
        let mut v = VerifierConfig::builder();
        if b { v = v.root_store(id.roots.clone()); }
        let got = v.build();
        ensure_eq!(got.is_ok(), b, "verifier configuration with roots {b}");
        if let Ok(g) = got { ensure_eq!(json!(g.root_store()), json!(id.roots), "roots of the verifier"); }
        let mut p = ProxyTlsConfig::builder();
        let ServerName::Dns(d) = &id.name;
        if a { p = p.server_name(d.clone()); }
        let got = p.build();
        ensure_eq!(got.is_ok(), a, "proxy configuration with name {a}");
        if let Ok(g) = got {
            ensure_eq!(g.server_name(), d, "server of the proxy");
            let back: TlsCommitConfig = bincode::deserialize(&bincode::serialize(&TlsCommitConfig::from(g)).unwrap()).map_err(|e| e.to_string())?;
            let TlsCommitConfig::Proxy(g) = back else { return Err("another kind of configuration".into()) };
            ensure_eq!(g.server_name(), d, "server of the proxy as the peer reads it");
        }
        ensure!(ProverConfig::builder().build().is_ok(), "prover configuration");
        Ok(())
    });
    cx.cases("sdk", 300, 6_000, |r, _, o| {
        let id = t_conn::identity(r, 1)?;
        let mut b = sdkpart::ProverConfig::builder(&id.w.host);
        let mut v = sdkpart::VerifierConfig::builder();
        let mut want = [None; 7];
        let mut roots: Option<Vec<Vec<u8>>> = None;
        let mut todo: Vec<usize> = (0..9).filter(|_| r.bool()).collect();
        r.shuffle(&mut todo);
        let mut auth = None;
        for i in &todo {
            let n = *r.pick(&[0usize, 1, 4096, 5000, usize::MAX]);
            match i {
                0 => { b = b.max_sent_data(n); v = v.max_sent_data(n) }
                1 => { b = b.max_recv_data(n); v = v.max_recv_data(n) }
                2 => { b = b.max_sent_records(n); v = v.max_sent_records(n) }
                3 => { b = b.max_recv_records_online(n); v = v.max_recv_records_online(n) }
                4 => b = b.max_recv_data_online(n),
                5 => b = b.defer_decryption_from_start(n & 1 == 0),
                6 => b = b.network(if n & 1 == 0 { sdkpart::NetworkSetting::Bandwidth } else { sdkpart::NetworkSetting::Latency }),
                7 => { auth = Some((vec![r.bytes(4), r.bytes(5)], r.bytes(6))); let (c, k) = auth.clone().unwrap(); b = b.client_auth(c, k) }
                _ => {
                    let mut c: Vec<Vec<u8>> = id.roots.roots.iter().map(|c| c.0.clone()).collect();
                    if r.bool() { c.extend(c.clone()) }
                    roots = Some(c)
                }
            }
            if *i < 7 { want[*i] = Some(n) }
        }
        let mut bad = None;
        if let Some(c) = &mut roots {
            if r.chance(1, 3) && !c.is_empty() { let i = r.below(c.len()); c[i] = if r.bool() { vec![] } else { c[i][..c[i].len() - 1].to_vec() }; bad = Some(i) }
            b = b.root_certs(c.clone());
            v = v.root_certs(c.clone());
        }
        o.key(format!("{want:?}{bad:?}{todo:?}"));
        let (p, q) = (quiet(|| b.build())?, quiet(|| v.build())?);
        if let Some(i) = bad {
            for e in [p.err(), q.err()] {
                let Some(e) = e else { return Err("configuration with an unreadable root accepted".into()) };
                ensure!(e.kind() == sdkpart::error::ErrorKind::Config && e.to_string().contains(&format!("index {i}")), "unreadable root {i} reported as {e}");
            }
            o.see("sdk/refused");
            return Ok(());
        }
        let (p, q) = (p.map_err(|e| e.to_string())?, q.map_err(|e| e.to_string())?);
        ensure_eq!((p.server_name.as_str(), p.max_sent_data, p.max_recv_data), (id.w.host.as_str(), want[0].unwrap_or(4096), want[1].unwrap_or(16384)), "limits of the prover");
        ensure_eq!((q.max_sent_data, q.max_recv_data), (p.max_sent_data, p.max_recv_data), "limits of the verifier");
        ensure_eq!((p.max_sent_records, p.max_recv_records_online, p.max_recv_data_online, p.defer_decryption_from_start), (want[2], want[3], want[4], want[5].map(|n| n & 1 == 0)), "options of the prover");
        ensure_eq!((q.max_sent_records, q.max_recv_records_online), (want[2], want[3]), "options of the verifier");
        ensure_eq!((p.mode, p.network), (sdkpart::ProverMode::Mpc, if want[6].is_some_and(|n| n & 1 == 0) { sdkpart::NetworkSetting::Bandwidth } else { sdkpart::NetworkSetting::Latency }), "mode and network");
        let low: NetworkSetting = p.network.into();
        ensure_eq!(matches!(low, NetworkSetting::Latency), p.network == sdkpart::NetworkSetting::Latency, "network setting handed down");
        ensure_eq!(p.client_auth.as_ref().map(|a| (a.certs.clone(), a.key.clone())), auth, "client credentials");
        for st in [&p.root_store, &q.root_store] {
            match &roots {
                Some(c) => ensure_eq!(&st.roots.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), c, "roots"),
                None => ensure!(st.roots.len() > 50, "roots when none were given"),
            }
        }
        ensure_eq!(json!(serde_json::from_value::<sdkpart::ProverConfig>(json!(p)).map_err(|e| e.to_string())?), json!(p), "stored prover configuration");
        ensure_eq!(json!(serde_json::from_value::<sdkpart::VerifierConfig>(json!(q)).map_err(|e| e.to_string())?), json!(q), "stored verifier configuration");
        o.see("sdk/built");
        Ok(())
    });
    for w in ["limits/missing", "limits/contradiction", "limits/built", "reveal/out of range refused", "reveal/compared", "commitments/compared", "request/free of content", "client/built", "client/refused", "sdk/built", "sdk/refused"] {
        cx.require(w, 20);
    }
}
