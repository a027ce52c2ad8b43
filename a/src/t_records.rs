//! T03..T06, T08: record layer monitors.
use crate::{parse, wire::*};
use futures::io::AsyncRead;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};
use tls_core::msgs::base::Payload;
use tls_core::msgs::codec::Reader;
use tls_core::msgs::deframer::MessageDeframer;
use tls_core::msgs::enums::*;
use tls_core::msgs::fragmenter::*;
use tls_core::msgs::hsjoiner::HandshakeJoiner;
use tls_core::msgs::message::*;
use vfw::{CaseResult, Cx, Fail, Obs, R, ensure, ensure_eq, hex, live_bytes, quiet, serde_json::json};

#[derive(Debug, Clone, PartialEq)]
pub enum Ref {
    /// type, version, payload range end
    Ok(u8, u16, usize),
    More,
    Illegal(Vec<&'static str>),
}
/// The record-header rules, from RFC 5246 section 6.2 (limit: below 2^14 + 2048).
pub fn ref_record(b: &[u8]) -> Ref {
    if b.len() < 5 {
        return Ref::More;
    }
    let (t, v, l) = (b[0], u16::from_be_bytes([b[1], b[2]]), u16::from_be_bytes([b[3], b[4]]) as usize);
    let mut why = vec![];
    if !(20..=24).contains(&t) {
        why.push("type");
    }
    if v >> 8 != 3 {
        why.push("version");
    }
    if l >= 18432 || (l == 0 && t != 23) {
        why.push("length");
    }
    if !why.is_empty() {
        return Ref::Illegal(why);
    }
    if b.len() < 5 + l { Ref::More } else { Ref::Ok(t, v, 5 + l) }
}

fn check_header(b: &[u8], obs: &mut Obs) -> CaseResult {
    let mut rd = Reader::init(b);
    let got = OpaqueMessage::read(&mut rd);
    let used = rd.used();
    let head = || hex(&b[..b.len().min(8)]);
    match (ref_record(b), got) {
        (Ref::Ok(t, v, end), Ok(m)) => {
            ensure!(m.typ.get_u8() == t && m.version.get_u16() == v, "record type or version differs: {} {:?} {:?}", head(), m.typ, m.version);
            ensure!(m.payload.0 == b[5..end], "record payload differs: {}", head());
            ensure_eq!(used, end, "bytes consumed by a record {}", head());
            obs.see("record accepted");
            if end < 4096 || b[4] & 15 == 0 {
                ensure!(m.clone().encode() == b[..end], "written record differs from the one read: {}", head());
            }
            let p = m.clone().into_plain_message();
            ensure!(p.typ == m.typ && p.version == m.version && p.payload == m.payload, "plain conversion changed the record");
        }
        (Ref::More, Err(e)) => {
            let short = b.len() < 5;
            ensure!(matches!((&e, short), (MessageError::TooShortForHeader, true) | (MessageError::TooShortForLength, false)), "incomplete record not reported as incomplete: {:?} {} ({} bytes)", e, head(), b.len());
            obs.see("incomplete");
        }
        (Ref::Illegal(why), Err(e)) => {
            let ok = match &e {
                MessageError::IllegalLength => why.contains(&"length"),
                MessageError::IllegalContentType => why.contains(&"type"),
                MessageError::IllegalProtocolVersion => why.contains(&"version"),
                _ => false,
            };
            ensure!(ok, "illegal record reported as {:?} but is illegal in {:?}: {}", e, why, head());
            for w in why {
                obs.see(format!("illegal {w}"));
            }
        }
        (w, g) => return Err(format!("record verdict: reference {:?} reader {} for {}", w, g.map(|m| format!("accepted {} bytes", m.payload.0.len())).unwrap_or_else(|e| format!("{e:?}")), head()).into()),
    }
    Ok(())
}

pub fn t03(cx: &mut Cx) {
    cx.rule("Record headers: every content type x representative versions x every boundary length, every version and every length for selected types, plus random headers, each with the payload complete, one byte short, one byte over and absent; verdict, fields and bytes consumed are compared with the header rules; non-trivial = a distinct header.");
    let data = R::new(cx.seed, "t03", 0).bytes(70_000);
    let with = |t: u8, v: u16, l: u16, avail: usize| {
        let mut b = vec![t, (v >> 8) as u8, v as u8, (l >> 8) as u8, l as u8];
        b.extend_from_slice(&data[..avail]);
        b
    };
    let lens: Vec<u16> = vec![0, 1, 2, 16383, 16384, 16385, 16640, 18430, 18431, 18432, 18433, 32767, 32768, 65535];
    let vers: Vec<u16> = vec![0, 1, 0x0200, 0x02ff, 0x0300, 0x0301, 0x0302, 0x0303, 0x0304, 0x0305, 0x037f, 0x03ff, 0x0400, 0x7f1c, 0xfeff, 0xfefd, 0xfefc, 0xffff, 0x0003, 0x3030];
    cx.cases("types", 256, 256, |_, idx, obs| {
        for v in &vers {
            for l in &lens {
                let n = *l as usize;
                for avail in [n, n + 1, n.saturating_sub(1), 0] {
                    check_header(&with(idx as u8, *v, *l, avail), obs)?;
                }
                obs.key([&[idx as u8][..], &v.to_be_bytes(), &l.to_be_bytes()].concat());
            }
        }
        obs.evals((vers.len() * lens.len() * 4) as u64);
        Ok(())
    });
    cx.cases("versions", 256, 256, |_, idx, obs| {
        for lo in 0..=255u16 {
            let v = (idx as u16) << 8 | lo;
            for t in [20u8, 22, 23, 25] {
                check_header(&with(t, v, 3, 5), obs)?;
                check_header(&with(t, v, 3, 2), obs)?;
                obs.key([&[t][..], &v.to_be_bytes()].concat());
            }
        }
        obs.evals(2048);
        Ok(())
    });
    cx.cases("lengths", 512, 512, |_, idx, obs| {
        for i in 0..128u32 {
            let l = (idx as u32 * 128 + i) as u16;
            for t in [20u8, 21, 22, 23, 24, 99] {
                let n = l as usize;
                // complete payloads for a sample, short ones for all
                if i % 16 == 0 || l < 64 || (18400..18440).contains(&l) {
                    check_header(&with(t, 0x303, l, n), obs)?;
                }
                check_header(&with(t, 0x303, l, n.saturating_sub(1).min(7)), obs)?;
                obs.key([&[t][..], &l.to_be_bytes(), b"len"].concat());
            }
        }
        obs.evals(128 * 6);
        Ok(())
    });
    cx.cases("random", 20_000, 400_000, |r, _, obs| {
        let t = if r.chance(3, 4) { 19 + r.below(7) as u8 } else { r.u8() };
        let v = if r.chance(3, 4) { 0x0300 | r.u8() as u16 } else { r.u16() };
        let l = if r.chance(3, 4) { r.len(18_440) as u16 } else { r.u16() };
        let avail = match r.below(4) {
            0 => l as usize,
            1 => l as usize + r.below(9),
            _ => r.below(l as usize + 1),
        };
        let b = with(t, v, l, avail);
        obs.key(&b[..5]);
        check_header(&b, obs)?;
        let k = r.below(6);
        check_header(&b[..k.min(b.len())], obs)
    });
    cx.require("record accepted", 500);
    cx.require("incomplete", 500);
    for w in ["type", "version", "length"] {
        cx.require(&format!("illegal {w}"), 500);
    }
}

// ---------------------------------------------------------------- T04

#[derive(Debug, Clone)]
enum Step {
    Data(usize),
    Err(io::ErrorKind),
    Eof,
    /// only the asynchronous reader sees this
    Pending,
}
struct Feed<'a> {
    data: &'a [u8],
    pos: usize,
    steps: VecDeque<Step>,
    /// set when the deframer offered no room
    no_room: bool,
    delivered: usize,
}
impl Feed<'_> {
    fn next(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.delivered = 0;
        if buf.is_empty() {
            self.no_room = true;
            return Ok(0);
        }
        match self.steps.pop_front() {
            Some(Step::Data(n)) => {
                let n = n.min(buf.len()).min(self.data.len() - self.pos);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                // a reader may scribble over the rest of the buffer it was lent
                for b in buf[n..].iter_mut().take(64) {
                    *b = 0x17;
                }
                self.pos += n;
                self.delivered = n;
                Ok(n)
            }
            Some(Step::Err(k)) => Err(io::Error::new(k, "injected")),
            _ => Ok(0),
        }
    }
}
impl io::Read for Feed<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        while let Some(Step::Pending) = self.steps.front() {
            self.steps.pop_front();
        }
        self.next(buf)
    }
}
impl AsyncRead for Feed<'_> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if let Some(Step::Pending) = self.steps.front() {
            self.steps.pop_front();
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(self.next(buf))
    }
}

fn gen_stream(r: &mut R, obs: &mut Obs) -> Vec<u8> {
    // sometimes very many small records
    let many = r.chance(1, 8);
    let n = if many { *r.pick(&[13usize, 33, 100, 257, 1000, 3000]) } else { r.range(1, 12) };
    let n = if many { r.range(n / 2, n) } else { n };
    if many {
        obs.see("many records");
    }
    let mut b = vec![];
    let bad_at = if r.chance(1, 2) { r.below(n) } else { usize::MAX };
    for i in 0..n {
        let mut t = *r.pick(&[20u8, 21, 22, 23, 23, 24]);
        let mut v = *r.pick(&[0x301u16, 0x303, 0x303, 0x304, 0x3ff]);
        let mut l = match r.below(8) {
            0 => *r.pick(&[16384usize, 18431, 18430, 16385, 16408]),
            1 => r.range(1000, 18431),
            2 => 1,
            3 if t == 23 => 0,
            _ => r.range(1, 80),
        };
        if many {
            l = if t == 23 { r.below(3) } else { r.range(1, 2) };
        }
        let real = l;
        if i == bad_at {
            match r.below(4) {
                0 => t = *r.pick(&[0u8, 19, 25, 255, 0x80]),
                1 => v = *r.pick(&[0x0200u16, 0xfeff, 0x0400, 0, 0x0203]),
                2 => l = *r.pick(&[18432usize, 20000, 65535]),
                _ => {
                    t = 22;
                    l = 0;
                }
            }
            obs.see("corrupt record placed");
        }
        b.extend_from_slice(&[t, (v >> 8) as u8, v as u8, (l >> 8) as u8, l as u8]);
        b.extend(r.bytes(real));
    }
    // sometimes the stream ends inside a record
    if r.chance(1, 3) {
        let k = r.below(b.len() + 1);
        b.truncate(k);
    }
    b
}

/// (records, corrupt, leftover bytes) after `b` has been received.
fn ref_stream(b: &[u8]) -> (Vec<(u8, u16, Vec<u8>)>, bool, usize) {
    let mut out = vec![];
    let mut p = 0;
    loop {
        match ref_record(&b[p..]) {
            Ref::Ok(t, v, end) => {
                out.push((t, v, b[p + 5..p + end].to_vec()));
                p += end;
            }
            Ref::More => return (out, false, b.len() - p),
            Ref::Illegal(_) => return (out, true, b.len() - p),
        }
    }
}

fn gen_steps(r: &mut R, total: usize) -> Vec<Step> {
    let style = r.below(5);
    let mut steps = vec![];
    let mut left = total as isize;
    let mut guard = 0;
    while left > 0 && guard < 60_000 {
        guard += 1;
        if r.chance(1, 12) {
            steps.push(match r.below(6) {
                0 => Step::Err(io::ErrorKind::WouldBlock),
                1 => Step::Err(io::ErrorKind::ConnectionReset),
                2 => Step::Err(io::ErrorKind::Interrupted),
                3 => Step::Err(io::ErrorKind::UnexpectedEof),
                4 => Step::Eof,
                _ => Step::Pending,
            });
            continue;
        }
        let n = match style {
            0 => 1,
            1 => r.range(1, 7),
            2 => r.range(1, 2000),
            3 => 1 << 20,
            _ => *r.pick(&[1usize, 4, 5, 6, 100, 16389, 18436, 18437, 40_000]),
        };
        if (style == 0 && total > 30_000 || style == 1 && total > 100_000) && left > 2000 && left < (total - 200) as isize {
            // byte by byte only near the ends of long streams
            steps.push(Step::Data(997));
            left -= 997;
            continue;
        }
        steps.push(Step::Data(n));
        left -= n.min(18437) as isize;
    }
    steps.push(Step::Eof);
    steps
}

fn drive(stream: &[u8], steps: &[Step], asynchronous: bool, r: &mut R, obs: &mut Obs) -> CaseResult {
    let mut feed = Feed { data: stream, pos: 0, steps: steps.iter().cloned().collect(), no_room: false, delivered: 0 };
    let mut d = MessageDeframer::new();
    let mut popped: Vec<OpaqueMessage> = vec![];
    ensure!(!d.has_pending() && !d.desynced && d.frames.is_empty(), "a new deframer is not empty");
    // records and leftovers are tracked incrementally: `base` = bytes already split off
    let mut recs: Vec<(u8, u16, Vec<u8>)> = vec![];
    let mut base = 0;
    let mut corrupt = false;
    let mut reads = 0;
    while !feed.steps.is_empty() {
        let step = feed.steps.iter().find(|s| !matches!(s, Step::Pending)).cloned();
        let before = (d.frames.len(), d.desynced, d.has_pending());
        let res = if asynchronous {
            quiet(|| futures::executor::block_on(d.read_async(&mut feed)))?
        } else {
            quiet(|| d.read(&mut feed))?
        };
        reads += 1;
        match (&step, &res) {
            (Some(Step::Err(k)), Err(e)) => {
                if *k != io::ErrorKind::Interrupted || e.kind() != io::ErrorKind::Interrupted {
                    ensure_eq!(e.kind(), *k, "read error passed on");
                }
                ensure_eq!((d.frames.len(), d.desynced, d.has_pending()), before, "state after a read error");
                obs.see("error passed on");
            }
            (Some(Step::Err(k)), Ok(n)) if feed.no_room => ensure_eq!(*n, 0, "read without room after {k:?}"),
            // retrying an interrupted read is as good as reporting it
            (Some(Step::Err(io::ErrorKind::Interrupted)), Ok(_)) => obs.see("interrupted read retried"),
            (_, Ok(n)) => {
                ensure_eq!(*n, feed.delivered, "bytes reported as read");
            }
            (s, Err(e)) => return Err(format!("read failed without cause: {s:?} {e:?}").into()),
        }
        if !corrupt {
            let (new, c, _) = ref_stream(&stream[base..feed.pos]);
            for x in new {
                base += 5 + x.2.len();
                recs.push(x);
            }
            corrupt = c;
        }
        let leftover = feed.pos - base;
        ensure_eq!(popped.len() + d.frames.len(), recs.len(), "records produced after {} of {} bytes", feed.pos, stream.len());
        if corrupt {
            ensure!(d.desynced, "illegal record not reported: after {} bytes", feed.pos);
        } else if leftover < 1 || leftover >= 5 {
            ensure!(!d.desynced, "legal stream reported as corrupt: after {} bytes", feed.pos);
        }
        ensure_eq!(d.has_pending(), !d.frames.is_empty() || leftover > 0, "pending data after {} bytes (leftover {leftover})", feed.pos);
        ensure!(corrupt || !feed.no_room, "reader offered no room although the stream is legal");
        // the consumer takes some, all or none of the records
        if r.chance(1, 2) {
            let k = r.below(d.frames.len() + 1);
            popped.extend(d.frames.drain(..k));
        }
        if corrupt && r.chance(1, 3) {
            obs.see("corrupt stream");
            // whatever arrives later, nothing more comes out
            let have = popped.len() + d.frames.len();
            let more: Vec<u8> = (0..3).flat_map(|_| [23u8, 3, 3, 0, 1, 7]).collect();
            for _ in 0..r.below(4) {
                let n = r.range(1, 18);
                let _ = quiet(|| d.read(&mut &more[..n]))?;
                ensure!(d.desynced, "corruption forgotten after more data");
                ensure_eq!(popped.len() + d.frames.len(), have, "records produced after corruption");
            }
            break;
        }
    }
    obs.add("reads", reads);
    popped.extend(d.frames.drain(..));
    ensure_eq!(popped.len(), recs.len(), "records in all");
    for (i, (m, w)) in popped.iter().zip(&recs).enumerate() {
        ensure!(m.typ.get_u8() == w.0 && m.version.get_u16() == w.1, "record {i} has another type or version");
        ensure!(m.payload.0 == w.2, "record {i} of {} bytes has other bytes", w.2.len());
    }
    obs.add("records", recs.len() as u64);
    Ok(())
}

pub fn t04(cx: &mut Cx) {
    cx.rule("Streams of 1..12 or up to 3000 small records (all types, sizes 0..18431, an illegal record at a random place in half of them, truncated ends) are delivered to the synchronous and the asynchronous deframer in random chunk schedules with injected errors, end-of-file, pending polls and partially drained outputs; after every read the monitor compares records, corruption flag, pending flag and return value with a reference splitter; non-trivial = a distinct (stream, schedule).");
    cx.cases("streams", 6_000, 120_000, |r, idx, obs| {
        let s = gen_stream(r, obs);
        let steps = gen_steps(r, s.len());
        let k = format!("{}{:?}", hex(&s[..s.len().min(500)]), &steps[..steps.len().min(200)]);
        obs.key(&k);
        if idx < 8 {
            obs.input(json!({"bytes": s.len(), "steps": steps.len(), "start": hex(&s[..s.len().min(24)])}));
        }
        let mut r2 = r.clone();
        drive(&s, &steps, false, r, obs).map_err(|e| pre(e, "synchronous reader"))?;
        drive(&s, &steps, true, &mut r2, obs).map_err(|e| pre(e, "asynchronous reader"))
    });
    // every split of a short stream into two and three reads
    cx.cases("splits", 60, 400, |r, idx, obs| {
        let mut b = vec![];
        for i in 0..3 {
            let l = [r.range(1, 12), 0, r.range(1, 9)][i];
            b.extend_from_slice(&[23, 3, 3, 0, l as u8]);
            b.extend(r.bytes(l));
        }
        if idx % 3 == 0 {
            b.extend_from_slice(&[22, 3, 3, 0, 0, 1, 2]);
        }
        for i in 0..=b.len() {
            for j in i..=b.len() {
                let mut steps = vec![];
                for n in [i, j - i, b.len() - j] {
                    if n > 0 {
                        steps.push(Step::Data(n));
                    }
                }
                drive(&b, &steps, (i + j) % 2 == 0, r, obs)?;
            }
        }
        obs.evals((b.len() * b.len() / 2) as u64);
        obs.key(&b);
        Ok(())
    });
    cx.cases("alternating", 1_500, 20_000, |r, _, obs| {
        // one deframer, read alternately through both interfaces
        let s = gen_stream(r, obs);
        obs.key(&s);
        let mut d = MessageDeframer::new();
        let mut p = 0;
        let mut guard = 0;
        while p < s.len() && guard < 100_000 {
            guard += 1;
            let n = r.range(1, 3000).min(s.len() - p);
            let chunk = &s[p..p + n];
            let got = if r.bool() { quiet(|| d.read(&mut &chunk[..]))? } else { quiet(|| futures::executor::block_on(d.read_async(&mut &chunk[..])))? };
            let got = got.map_err(|e| format!("read failed without cause: {e:?}"))?;
            p += got;
            if d.desynced || got == 0 {
                break;
            }
        }
        let (recs, c, _) = ref_stream(&s[..p]);
        ensure_eq!(d.desynced, c, "corruption flag with alternating readers");
        ensure!(c || p == s.len(), "reader stopped taking data of a legal stream");
        ensure_eq!(d.frames.len(), recs.len(), "records with alternating readers");
        for (m, w) in d.frames.iter().zip(&recs) {
            ensure!(m.typ.get_u8() == w.0 && m.version.get_u16() == w.1 && m.payload.0 == w.2, "record differs with alternating readers");
        }
        Ok(())
    });
    cx.require("records", 1000);
    cx.require("many records", 100);
    cx.require("corrupt stream", 100);
    cx.require("error passed on", 100);
}

fn pre(e: Fail, p: &str) -> Fail {
    match e {
        Fail::Violation(s, d) => Fail::Violation(s, format!("{p}: {d}")),
        h => h,
    }
}

// ---------------------------------------------------------------- T05

pub fn t05(cx: &mut Cx) {
    cx.rule("Payloads of every length around multiples of the limit and around 2^14 and random lengths up to 70000, for configured limits (all of 0..=16400 for acceptance; boundary and random ones for splitting), through the copying and the borrowing splitter, with outputs appended to a non-empty queue; non-trivial = a distinct (limit, length, content).");
    cx.cases("limits", 1, 1, |_, _, obs| {
        for l in (0..=17_000usize).chain([65_535, 65_536, 1 << 20, usize::MAX]) {
            let want = (32..=16389).contains(&l);
            let got = quiet(|| MessageFragmenter::new(Some(l)))?;
            ensure_eq!(got.is_ok(), want, "limit {l} accepted");
            obs.key(format!("limit{l}"));
            let mut f = MessageFragmenter::new(None).map_err(|e| format!("default limit refused: {e:?}"))?;
            ensure_eq!(f.set_max_fragment_size(Some(l)).is_ok(), want, "limit {l} accepted later");
        }
        obs.evals(17_004);
        Ok(())
    });
    cx.cases("split", 12_000, 200_000, |r, idx, obs| {
        let cfg = match r.below(8) {
            0 => None,
            1 => Some(32),
            2 => Some(33),
            3 => Some(16389),
            4 => Some(16388),
            5 => Some(37),
            _ => Some(r.range(32, 16389)),
        };
        let max = cfg.unwrap_or(16389) - 5;
        let n = match r.below(6) {
            0 => max * r.range(0, 4),
            1 => max * r.range(1, 4) + 1,
            2 => max * r.range(1, 4) - 1,
            3 => r.len(16_390),
            4 => r.range(16_380, 16_390),
            _ => r.len(70_000),
        };
        let n = if max < 60 { n.min(9_000) } else { n };
        let data = r.bytes(n);
        let typ = ContentType::from(*r.pick(&[20u8, 21, 22, 23, 24]));
        let ver = ProtocolVersion::from(*r.pick(&[0x301u16, 0x302, 0x303, 0x304]));
        obs.key(format!("{cfg:?}/{n}/{:x}", data.iter().take(8).fold(0u64, |a, b| a << 8 | *b as u64)));
        if idx < 8 {
            obs.input(json!({"limit": cfg, "payload": n}));
        }
        let f = if r.bool() {
            MessageFragmenter::new(cfg).map_err(|e| format!("legal limit refused: {cfg:?} {e:?}"))?
        } else {
            let mut f = MessageFragmenter::new(Some(r.range(32, 16389))).map_err(|e| format!("legal limit refused: {e:?}"))?;
            f.set_max_fragment_size(cfg).map_err(|e| format!("legal limit refused: {cfg:?} {e:?}"))?;
            // refused changes leave the limit as it was
            for _ in 0..r.below(3) {
                let bad = *r.pick(&[0usize, 1, 31, 16390, 65_536, usize::MAX]);
                ensure!(f.set_max_fragment_size(Some(bad)).is_err(), "illegal limit {bad} accepted after {cfg:?}");
                obs.see("refused change");
            }
            f
        };
        let marker = r.bytes(3);
        let mut out = VecDeque::new();
        out.push_back(PlainMessage { typ: ContentType::Alert, version: ProtocolVersion::TLSv1_0, payload: Payload(marker.clone()) });
        quiet(|| f.fragment(PlainMessage { typ, version: ver, payload: Payload(data.clone()) }, &mut out))?;
        let first = out.pop_front().ok_or("queued message lost by splitting")?;
        ensure!(first.payload.0 == marker && first.typ == ContentType::Alert, "queued message changed by splitting");
        let mut cat = vec![];
        for m in &out {
            ensure!(m.typ == typ && m.version == ver, "fragment has another type or version");
            ensure!(m.payload.0.len() <= max, "fragment exceeds the limit: {} > {max}", m.payload.0.len());
            ensure!(n == 0 || !m.payload.0.is_empty(), "empty fragment of a non-empty message");
            ensure!(m.clone().into_unencrypted_opaque().encode().len() <= max + 5, "record exceeds the limit");
            cat.extend_from_slice(&m.payload.0);
        }
        ensure!(cat == data, "fragments do not concatenate to the message ({} of {} bytes)", cat.len(), n);
        ensure!(out.len() <= n.div_ceil(max).max(1), "more fragments than needed: {}", out.len());
        ensure!(!out.is_empty(), "an empty message was dropped by splitting");
        obs.add("fragments", out.len() as u64);
        let mut out = VecDeque::new();
        quiet(|| f.fragment_borrow(typ, ver, &data, &mut out))?;
        let mut cat = vec![];
        for m in &out {
            ensure!(m.typ == typ && m.version == ver, "borrowed fragment has another type or version");
            ensure!(m.payload.len() <= max, "borrowed fragment exceeds the limit: {} > {max}", m.payload.len());
            ensure!(!m.payload.is_empty() || n == 0, "empty borrowed fragment");
            cat.extend_from_slice(m.payload);
        }
        ensure!(cat == data, "borrowed fragments do not concatenate to the message");
        ensure!(out.len() <= n.div_ceil(max).max(1), "more borrowed fragments than needed: {}", out.len());
        // and the peer puts them together again
        if typ == ContentType::ApplicationData && n > 0 && n < 40_000 {
            let wire: Vec<u8> = out.iter().flat_map(|m| OpaqueMessage { typ: m.typ, version: m.version, payload: Payload(m.payload.to_vec()) }.encode()).collect();
            let mut d = MessageDeframer::new();
            let mut rd = &wire[..];
            while !rd.is_empty() {
                let k = quiet(|| d.read(&mut rd))?.map_err(|e| format!("read failed without cause: {e:?}"))?;
                ensure!(k > 0 && !d.desynced, "own fragments refused by the record reader");
            }
            let back: Vec<u8> = d.frames.iter().flat_map(|m| m.payload.0.clone()).collect();
            ensure!(back == data, "own fragments read back as other bytes");
            obs.see("read back");
        }
        Ok(())
    });
    cx.require("fragments", 1000);
    cx.require("read back", 50);
}

// ---------------------------------------------------------------- T06

pub fn t06(cx: &mut Cx) {
    cx.rule("Sequences of 1..10 or up to 1500 short handshake messages (all kinds, sizes up to 64 KiB, malformed bodies and over-long headers at random places) are cut into records at random boundaries, including empty records and single bytes; after every record the joiner's result, frames, emptiness and buffered memory are compared with a reference reassembler; non-trivial = a distinct (sequence, cutting).");
    cx.assume("All records of one sequence carry the same version, as a TLS connection does.");
    cx.cases("sequences", 12_000, 250_000, |r, idx, obs| {
        let v13 = r.chance(1, 3);
        let ver = if v13 { ProtocolVersion::TLSv1_3 } else { ProtocolVersion::TLSv1_2 };
        // sometimes very many short messages
        let many = r.chance(1, 20);
        let n = if many { r.range(11, 1500) } else { r.range(1, 10) };
        if many {
            obs.see("many messages");
        }
        let mut all = vec![];
        for _ in 0..n {
            if many && r.chance(19, 20) {
                let l = r.below(3);
                all.extend(if r.bool() { vec![14, 0, 0, 0] } else { Msg::Unknown(99, r.bytes(l)).enc() });
                continue;
            }
            let m = loop {
                let max = *r.pick(&[4usize, 20, 20, 200]);
                let m = Gen { r, max }.any_msg();
                if !m.version_dependent() || m.vers() == ver {
                    break m;
                }
            };
            let mut e = m.enc();
            if r.chance(1, 12) {
                match r.below(3) {
                    0 => {
                        // a header announcing more than the cap
                        let big = *r.pick(&[0x10000usize, 0x10001, 0xffffff]);
                        e = vec![11, (big >> 16) as u8, (big >> 8) as u8, big as u8, 1, 2, 3];
                        obs.see("over-long placed");
                    }
                    1 => {
                        e = vec![14, 0, 0, 1, 9];
                        obs.see("malformed placed");
                    }
                    _ => {
                        if e.len() > 6 {
                            let i = r.range(4, e.len() - 1);
                            e.remove(i);
                            let l = e.len() - 4;
                            e[2] = (l >> 8) as u8;
                            e[3] = l as u8;
                            e[1] = (l >> 16) as u8;
                        }
                    }
                }
            }
            if r.chance(1, 25) {
                let l = *r.pick(&[0xffffusize, 0xfffe, 0x8000, 40_000]);
                e = Msg::Unknown(99, r.bytes(l)).enc();
                obs.see("large message placed");
            }
            all.extend(e);
        }
        if r.chance(1, 4) {
            let k = r.below(all.len() + 1);
            all.truncate(k);
        }
        obs.key(&all);
        if idx < 8 {
            obs.input(json!({"messages": n, "bytes": all.len()}));
        }
        let style = r.below(4);
        let mut j = HandshakeJoiner::new();
        ensure!(j.is_empty(), "a new joiner is not empty");
        let mut pos = 0;
        let mut base = 0;
        let mut want: Vec<String> = vec![];
        let mut got: Vec<String> = vec![];
        let heap0 = live_bytes();
        let mut held = 0usize;
        while pos < all.len() {
            let k = match style {
                0 if all.len() < 3000 => 1,
                1 => r.range(1, 10),
                2 => r.range(1, 16384),
                _ => *r.pick(&[1usize, 3, 4, 5, 50, 16384]),
            }
            .min(all.len() - pos);
            let k = if r.chance(1, 15) { 0 } else { k };
            let rec = PlainMessage { typ: ContentType::Handshake, version: ver, payload: Payload(all[pos..pos + k].to_vec()) };
            ensure!(j.want_message(&rec), "joiner declines a handshake record");
            pos += k;
            let res = quiet(|| j.take_message(rec))?;
            // reference
            let mut bad = false;
            let mut new = 0;
            loop {
                let b = &all[base..pos];
                if b.len() < 4 {
                    break;
                }
                let len = (b[1] as usize) << 16 | (b[2] as usize) << 8 | b[3] as usize;
                if len > 0xffff {
                    bad = true;
                    break;
                }
                if b.len() < 4 + len {
                    break;
                }
                match parse::exact(&b[..4 + len], v13) {
                    None => {
                        bad = true;
                        break;
                    }
                    Some(m) => {
                        want.push(format!("{:?}", m.build()));
                        new += 1;
                        base += 4 + len;
                    }
                }
            }
            if bad {
                ensure_eq!(res, None, "malformed or over-long handshake message at byte {base} accepted");
                obs.see("refused");
                for m in j.frames.drain(..) {
                    got.push(frame(&m, ver)?);
                }
                ensure!(want.starts_with(&got), "messages before a malformed one differ");
                // it stays refused
                let more = PlainMessage { typ: ContentType::Handshake, version: ver, payload: Payload(vec![14, 0, 0, 0]) };
                ensure_eq!(quiet(|| j.take_message(more))?, None, "joiner recovered after a malformed message");
                for m in j.frames.drain(..) {
                    got.push(frame(&m, ver)?);
                }
                ensure!(want.starts_with(&got), "messages after a malformed one");
                return Ok(());
            }
            ensure_eq!(res, Some(new), "messages completed by a record ending at byte {pos}");
            ensure_eq!(j.is_empty(), base == pos, "joiner empty at byte {pos} (message boundary at {base})");
            if r.bool() {
                for m in j.frames.drain(..) {
                    got.push(frame(&m, ver)?);
                }
            }
            held = held.max(live_bytes().saturating_sub(heap0));
            obs.add("records", 1);
        }
        for m in j.frames.drain(..) {
            got.push(frame(&m, ver)?);
        }
        ensure_eq!(got.len(), want.len(), "messages in all");
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            ensure_eq!(g, w, "message {i}");
        }
        obs.add("messages", want.len() as u64);
        if base == pos {
            obs.see("ended at a boundary");
        }
        let _ = held;
        Ok(())
    });
    // an endless incomplete message must not grow without bound
    cx.cases("bounded", 8, 40, |r, idx, obs| {
        let mut j = HandshakeJoiner::new();
        let len = *r.pick(&[0xffffusize, 0x8000]);
        let ver = ProtocolVersion::TLSv1_2;
        let mut sent = 0;
        obs.key(format!("{idx}{len}"));
        let heap0 = live_bytes();
        for round in 0..200 {
            let mut p = vec![0u8; if round == 0 { 4 + 1000 } else { 16384 }];
            if round == 0 {
                p[..4].copy_from_slice(&[99, 0, (len >> 8) as u8, len as u8]);
            } else if sent + p.len() >= 4 + len {
                // complete it and start the next over-long one
                p.truncate(4 + len - sent);
                p.extend_from_slice(&[99, 0, (len >> 8) as u8, len as u8]);
                sent = 0;
                j.frames.clear();
                let r = j.take_message(PlainMessage { typ: ContentType::Handshake, version: ver, payload: Payload(p) });
                ensure_eq!(r, Some(1), "message of {len} bytes");
                j.frames.clear();
                sent += 4;
                let held = live_bytes().saturating_sub(heap0);
                ensure!(held <= 4 * (0x10000 + 16384 + 64), "joiner buffers {held} bytes between messages");
                continue;
            }
            sent += p.len();
            let r = j.take_message(PlainMessage { typ: ContentType::Handshake, version: ver, payload: Payload(p) });
            ensure!(r.is_some(), "legal message of {len} bytes refused");
            let held = live_bytes().saturating_sub(heap0);
            ensure!(held <= 4 * (0x10000 + 16384 + 64), "joiner buffers {held} bytes");
            obs.see("buffer measured");
        }
        Ok(())
    });
    cx.cases("types", 256, 256, |r, idx, obs| {
        let n = r.below(9);
        let m = PlainMessage { typ: ContentType::from(idx as u8), version: ProtocolVersion::TLSv1_2, payload: Payload(r.bytes(n)) };
        ensure_eq!(HandshakeJoiner::new().want_message(&m), idx == 22, "joiner wants content type {idx}");
        obs.key([idx as u8]);
        Ok(())
    });
    cx.require("messages", 1000);
    cx.require("refused", 100);
    cx.require("over-long placed", 20);
    cx.require("many messages", 100);
    cx.require("ended at a boundary", 100);
}

fn frame(m: &Message, ver: ProtocolVersion) -> Result<String, Fail> {
    if m.version != ver {
        return Err("joined message has another version".into());
    }
    match &m.payload {
        MessagePayload::Handshake(h) => Ok(format!("{h:?}")),
        o => Err(format!("joined message is not a handshake: {o:?}").into()),
    }
}

// ---------------------------------------------------------------- T08

pub fn t08(cx: &mut Cx) {
    use tls_core::cipher::make_tls12_aad;
    cx.rule("Random and boundary (sequence, type, version, length) tuples, and every single-field change of each; the 13 bytes are compared with the RFC 5246 layout written out independently and pairwise distinctness is checked; non-trivial = a distinct tuple.");
    cx.cases("aad", 30_000, 500_000, |r, idx, obs| {
        let seq = match r.below(5) {
            0 => r.below(4) as u64,
            1 => u64::MAX - r.below(3) as u64,
            2 => 1u64 << r.below(64),
            3 => (1u64 << r.below(64)).wrapping_sub(1),
            _ => r.u64(),
        };
        let t = r.u8();
        let v = if r.bool() { 0x300 + r.below(5) as u16 } else { r.u16() };
        let l = match r.below(4) {
            0 => *r.pick(&[0usize, 1, 255, 256, 257, 16383, 16384, 16385, 18432, 65535]),
            _ => r.below(65536),
        };
        let f = |s: u64, t: u8, v: u16, l: usize| quiet(|| make_tls12_aad(s, ContentType::from(t), ProtocolVersion::from(v), l));
        let a = f(seq, t, v, l)?;
        let mut w = vec![];
        for i in (0..8).rev() {
            w.push((seq >> (8 * i) & 255) as u8);
        }
        w.push(t);
        p16(&mut w, v);
        p16(&mut w, l as u16);
        obs.key(&w);
        if idx < 8 {
            obs.input(json!({"seq": seq.to_string(), "type": t, "version": v, "length": l}));
        }
        ensure_eq!(hex(&a), hex(&w), "additional data for seq {seq} type {t} version {v:#x} length {l}");
        let bit = r.below(64);
        ensure!(f(seq ^ (1 << bit), t, v, l)? != a, "additional data does not depend on the sequence number");
        ensure!(f(seq, t ^ (1 << r.below(8)), v, l)? != a, "additional data does not depend on the type");
        ensure!(f(seq, t, v ^ (1 << r.below(16)), l)? != a, "additional data does not depend on the version");
        ensure!(f(seq, t, v, l ^ (1 << r.below(16)))? != a, "additional data does not depend on the length");
        obs.see("tuple");
        Ok(())
    });
    cx.require("tuple", 1000);
}
