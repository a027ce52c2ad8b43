//! M12: the bindings a browser uses.
use crate::{
    srv::{self, Srv},
    t_sdk::{self, Case, PSide, Ran, VSide},
    util::{Unhook, run},
};
use futures::{AsyncRead, AsyncWrite};
use serde_json::json;
use std::{
    cell::{Cell, RefCell},
    collections::VecDeque,
    future::Future,
    io::ErrorKind as IoKind,
    pin::Pin,
    rc::Rc,
    sync::{
        Arc,
        atomic::{AtomicUsize, Ordering},
    },
    task::{Context, Poll, Wake, Waker},
};
use tlsn_sdk_core::{HashAlgorithm, error::ErrorKind};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt, DuplexStream, ReadHalf, WriteHalf},
    sync::mpsc,
};
use vfw::{Cx, Fail, Obs, R, ensure, ensure_eq};
use wasm_sim::{Function, Imported, JsError, JsValue, Promise, Uint8Array};
use wasmpart::{io::JsIo, prover::JsProver, types, verifier::JsVerifier};

// ---------------------------------------------------------------- the adapter

/// What an object of the page does when it is called, and what it was called with.
#[derive(Default)]
struct Page {
    /// Reads not settled yet, and reads settled but not looked at.
    open: Vec<Promise>,
    most: usize,
    reads: usize,
    /// How the next calls go.
    plan: VecDeque<Plan>,
    written: Vec<u8>,
    arrays: Vec<Uint8Array>,
    writes: usize,
    closes: usize,
    odd: Vec<String>,
    /// Text of what was thrown.
    thrown: Option<String>,
}
enum Plan {
    Wait,
    Now(Result<JsValue, JsValue>),
    Throw(String),
}
struct PageIo(Rc<RefCell<Page>>);
impl Imported for PageIo {
    fn call(&self, name: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
        let mut p = self.0.borrow_mut();
        let plan = p.plan.pop_front().unwrap_or(Plan::Wait);
        if let Plan::Throw(s) = &plan {
            p.thrown = Some(s.clone());
            return Err(JsValue::from(s.as_str()));
        }
        match (name, args) {
            ("read", []) => {
                p.reads += 1;
                let x = match plan {
                    Plan::Now(r) => Promise::done(r),
                    _ => {
                        let x = Promise::pending();
                        p.open.push(x.clone());
                        p.most = p.most.max(p.open.len());
                        x
                    }
                };
                Ok(x.into())
            }
            ("write", [JsValue::Bytes(b)]) => {
                p.writes += 1;
                p.written.extend(b.to_vec());
                p.arrays.push(b.clone());
                Ok(Promise::pending().into())
            }
            ("close", []) => {
                p.closes += 1;
                Ok(Promise::pending().into())
            }
            (n, a) => {
                p.odd.push(format!("{n} with {} arguments", a.len()));
                Err(JsValue::from("no such method"))
            }
        }
    }
}
struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
fn bytes(b: &[u8]) -> JsValue {
    Uint8Array::from(b).into()
}
fn adapter(r: &mut R, _: u64, o: &mut Obs) -> Result<(), Fail> {
    let page = Rc::new(RefCell::new(Page::default()));
    let mut io = wasmpart::adapter(JsIo(Rc::new(PageIo(page.clone()))));
    // bytes the page handed over and nobody has read; what ends the stream
    let mut due: VecDeque<u8> = Default::default();
    let (mut end, mut err, mut closed) = (false, None::<String>, false);
    // the settled answer of an outstanding read
    let mut settled: Option<Result<JsValue, JsValue>> = None;
    let mut sent: Vec<u8> = vec![];
    let mut last: Option<Arc<Count>> = None;
    let (mut got, mut waits, mut trace) = (0u64, 0u64, String::new());
    let n = 4 + r.below(60);
    for step in 0..n {
        let k = r.below(100);
        if k < 50 {
            // read
            let size = match r.below(6) {
                0 => 0,
                1 => 1,
                _ => 1 + r.below(40),
            };
            let mut buf = vec![0xa5u8; size];
            let w = Arc::new(Count(AtomicUsize::new(0)));
            let waker = Waker::from(w.clone());
            let before = (page.borrow().reads, page.borrow().open.len());
            // what a new read of the page would do
            if before.1 == 0 && settled.is_none() && due.is_empty() && !end && err.is_none() {
                let len = 1 + r.below(60);
                let chunk = r.bytes(len);
                page.borrow_mut().plan.push_back(match r.below(12) {
                    0 => Plan::Now(Ok(bytes(&chunk))),
                    1 => Plan::Now(Ok(JsValue::Null)),
                    2 => Plan::Throw(format!("thrown {step}")),
                    3 if r.chance(1, 3) => Plan::Now(Ok(bytes(&[]))),
                    4 if r.chance(1, 3) => Plan::Now(Ok(JsValue::Undefined)),
                    5 if r.chance(1, 3) => Plan::Now(Err(JsValue::from(format!("rejected {step}")))),
                    _ => Plan::Wait,
                });
                match page.borrow().plan.front() {
                    Some(Plan::Now(x)) => settled = Some(x.clone()),
                    _ => {}
                }
            }
            let res = Pin::new(&mut io).poll_read(&mut Context::from_waker(&waker), &mut buf);
            let (now, open, most) = {
                let mut p = page.borrow_mut();
                let unused = p.plan.drain(..).count() > 0;
                if unused {
                    // it was not asked: nothing of it happened
                    settled = None;
                }
                if let Some(t) = p.thrown.take() {
                    err = Some(t);
                }
                (p.reads, p.open.len(), p.most)
            };
            ensure!(most <= 1, "{most} reads of the page at once");
            ensure!(now - before.0 <= 1, "{} reads of the page by one read", now - before.0);
            ensure!(now == before.0 || (!end && err.is_none()), "the page is read after its end");
            if let Some(x) = settled.take() {
                match x {
                    Ok(JsValue::Bytes(b)) if b.length() > 0 => due.extend(b.to_vec()),
                    Ok(_) => end = true,
                    Err(e) => err = Some(format!("{e:?}")),
                }
            }
            trace.push_str(&format!("r{size}"));
            match res {
                Poll::Pending => {
                    ensure!(open == 1, "a read waits with nothing outstanding ({} bytes due, end {end}, error {err:?})", due.len());
                    waits += 1;
                    last = Some(w);
                }
                Poll::Ready(Ok(0)) => ensure!(size == 0 || (end && due.is_empty()), "the end is reported ({} bytes due, end {end}, error {err:?})", due.len()),
                Poll::Ready(Ok(m)) => {
                    ensure!(m <= size, "{m} bytes read into {size}");
                    ensure!(m <= due.len(), "{m} bytes read, {} handed over", due.len());
                    let want: Vec<u8> = due.drain(..m).collect();
                    ensure!(buf[..m] == want[..], "other bytes than the page handed over");
                    ensure!(buf[m..].iter().all(|b| *b == 0xa5), "bytes beyond those read are touched");
                    got += m as u64;
                }
                Poll::Ready(Err(e)) => {
                    let Some(t) = &err else { return Err(Fail::from(format!("an error of no origin: {e}"))) };
                    ensure!(e.to_string().contains(t.trim_start_matches("JsValue(").trim_end_matches(')').trim_matches('"')), "the error is {e:?}, the page gave {t:?}");
                    ensure!(due.is_empty(), "an error before {} bytes are read", due.len());
                }
            }
        } else if k < 68 {
            // the page settles
            let Some(p) = ({
                let mut g = page.borrow_mut();
                g.open.pop()
            }) else {
                continue;
            };
            let len = 1 + r.below(80);
            let ans = match r.below(14) {
                0 => Ok(JsValue::Null),
                1 => Ok(bytes(&[])),
                2 => Ok(JsValue::Undefined),
                3 => Err(JsValue::from(format!("rejected {step}"))),
                _ => Ok(bytes(&r.bytes(len))),
            };
            settled = Some(ans.clone());
            let seen = last.as_ref().map(|w| w.0.load(Ordering::SeqCst));
            p.settle(ans);
            if let (Some(w), Some(s)) = (&last, seen) {
                ensure!(w.0.load(Ordering::SeqCst) > s, "whoever reads is not woken");
                o.add("wakes", 1);
            }
            last = None;
            trace.push('s');
        } else if k < 90 {
            // write
            let len = r.below(50);
            let mut b = r.bytes(len);
            let throw = r.chance(1, 8);
            if throw {
                page.borrow_mut().plan.push_back(Plan::Throw("no write".into()));
            }
            let res = Pin::new(&mut io).poll_write(&mut Context::from_waker(Waker::noop()), &b);
            let mut p = page.borrow_mut();
            let used = p.plan.drain(..).count() == 0 && throw;
            p.thrown = None;
            trace.push_str(&format!("w{len}"));
            match res {
                Poll::Ready(Ok(m)) => {
                    ensure!(!closed, "bytes are accepted after the end");
                    ensure!(!used, "bytes the page refused are accepted");
                    ensure!(m <= len && (m > 0 || len == 0), "{m} bytes of {len} accepted");
                    sent.extend(&b[..m]);
                }
                Poll::Ready(Err(e)) => {
                    ensure!(used || closed || err.is_some(), "a write fails for no reason: {e}");
                    if closed && !used && err.is_none() {
                        ensure!(e.kind() == IoKind::BrokenPipe, "a write after the end: {:?}", e.kind());
                    }
                }
                Poll::Pending => return Err(Fail::from("a write waits")),
            }
            b.fill(0);
            ensure!(p.written == sent, "the page got other bytes than were written ({} and {})", p.written.len(), sent.len());
            ensure!(p.arrays.iter().flat_map(|a| a.to_vec()).eq(sent.iter().copied()), "bytes handed to the page change afterwards");
        } else {
            if r.bool() {
                let before = page.borrow().closes;
                let res = Pin::new(&mut io).poll_flush(&mut Context::from_waker(Waker::noop()));
                ensure!(matches!(res, Poll::Ready(Ok(()))), "a flush: {res:?}");
                ensure!(page.borrow().closes == before, "a flush closes the page");
                continue;
            }
            let throw = r.chance(1, 3);
            if throw {
                page.borrow_mut().plan.push_back(Plan::Throw("no close".into()));
            }
            let res = Pin::new(&mut io).poll_close(&mut Context::from_waker(Waker::noop()));
            let mut p = page.borrow_mut();
            let used = p.plan.drain(..).count() == 0 && throw;
            p.thrown = None;
            trace.push('c');
            match res {
                Poll::Ready(Ok(())) => {
                    ensure!(!used, "a close the page refused succeeds");
                    ensure!(p.closes == 1, "the page is closed {} times", p.closes);
                    closed = true;
                    o.see("closed");
                }
                Poll::Ready(Err(_)) => ensure!(used && !closed, "a close fails for no reason"),
                Poll::Pending => return Err(Fail::from("a close waits")),
            }
        }
        let p = page.borrow();
        ensure!(p.odd.is_empty(), "the page was called in unknown ways: {:?}", p.odd);
        ensure!(p.closes <= 1 && (p.closes == 1) == closed, "the page is closed {} times, {closed}", p.closes);
    }
    // what is left comes out
    let mut buf = [0u8; 7];
    let mut guard = 0;
    if let Some(p) = page.borrow_mut().open.pop() {
        settled = Some(Ok(JsValue::Null));
        p.settle(Ok(JsValue::Null));
    }
    while guard < 200 && err.is_none() {
        guard += 1;
        if let Some(x) = settled.take() {
            match x {
                Ok(JsValue::Bytes(b)) if b.length() > 0 => due.extend(b.to_vec()),
                Ok(_) => end = true,
                Err(e) => err = Some(format!("{e:?}")),
            }
        }
        page.borrow_mut().plan.push_back(Plan::Now(Ok(JsValue::Null)));
        let res = Pin::new(&mut io).poll_read(&mut Context::from_waker(Waker::noop()), &mut buf);
        if page.borrow_mut().plan.drain(..).count() == 0 {
            end = true;
        }
        match res {
            Poll::Ready(Ok(0)) => {
                ensure!(due.is_empty() && end, "{} bytes are lost at the end", due.len());
                break;
            }
            Poll::Ready(Ok(m)) => {
                ensure!(m <= due.len() && due.drain(..m).eq(buf[..m].iter().copied()), "other bytes than the page handed over");
                got += m as u64;
            }
            Poll::Ready(Err(e)) => ensure!(err.is_some(), "an error of no origin: {e}"),
            Poll::Pending => return Err(Fail::from("a read waits with nothing outstanding")),
        }
    }
    if end {
        o.see("end of the stream");
    }
    if err.is_some() {
        o.see("error of the page");
    }
    o.add("bytes read", got);
    o.add("bytes written", sent.len() as u64);
    o.add("reads which waited", waits);
    o.key(trace);
    Ok(())
}

// ---------------------------------------------------------------- a stream as a page has it

/// One end of a stream, as an object of the page: reads are promises, writes are queued.
struct PipeIo {
    rd: Rc<RefCell<Option<ReadHalf<DuplexStream>>>>,
    tx: mpsc::UnboundedSender<Option<Vec<u8>>>,
    most: usize,
    busy: Rc<Cell<usize>>,
    seed: Cell<u64>,
}
impl Imported for PipeIo {
    fn call(&self, name: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
        match (name, args) {
            ("read", []) => {
                let Some(mut rd) = self.rd.borrow_mut().take() else { return Err(JsValue::from("two reads at once")) };
                let (back, busy) = (self.rd.clone(), self.busy.clone());
                self.seed.set(self.seed.get() + 1);
                let n = 1 + R::new(self.seed.get(), "pipe", 0).below(self.most);
                busy.set(busy.get() + 1);
                Ok(Promise::job(async move {
                    let mut b = vec![0u8; n];
                    let r = rd.read(&mut b).await;
                    *back.borrow_mut() = Some(rd);
                    match r {
                        Ok(0) => Ok(JsValue::Null),
                        Ok(n) => Ok(bytes(&b[..n])),
                        Err(e) => Err(JsValue::from(e.to_string())),
                    }
                })
                .into())
            }
            ("write", [JsValue::Bytes(b)]) => {
                let _ = self.tx.send(Some(b.to_vec()));
                Ok(Promise::pending().into())
            }
            ("close", []) => {
                let _ = self.tx.send(None);
                Ok(Promise::pending().into())
            }
            (n, a) => Err(JsValue::from(format!("{n} with {} arguments", a.len()))),
        }
    }
}
/// What keeps the ends of a stream: only an explicit close ends it, as in a browser.
struct Kept {
    _rd: Rc<RefCell<Option<ReadHalf<DuplexStream>>>>,
    wr: WriteHalf<DuplexStream>,
    rx: mpsc::UnboundedReceiver<Option<Vec<u8>>>,
}
impl Kept {
    async fn pump(mut self) {
        while let Some(m) = self.rx.recv().await {
            let r = match m {
                Some(b) => self.wr.write_all(&b).await,
                None => self.wr.shutdown().await,
            };
            if r.is_err() {
                break;
            }
        }
        futures::future::pending::<()>().await
    }
}
fn page_io(s: DuplexStream, most: usize, seed: u64) -> (JsIo, Kept) {
    let (rd, wr) = tokio::io::split(s);
    let rd = Rc::new(RefCell::new(Some(rd)));
    let (tx, rx) = mpsc::unbounded_channel();
    (JsIo(Rc::new(PipeIo { rd: rd.clone(), tx, most, busy: Default::default(), seed: Cell::new(seed) })), Kept { _rd: rd, wr, rx })
}
/// An object which must not be called.
struct Never(Rc<Cell<bool>>);
impl Imported for Never {
    fn call(&self, _: &str, _: &[JsValue]) -> Result<JsValue, JsValue> {
        self.0.set(true);
        Err(JsValue::from("never"))
    }
}

// ---------------------------------------------------------------- sessions

fn told(e: JsError) -> (ErrorKind, String) {
    (ErrorKind::Internal, e.0)
}
type Steps = Rc<RefCell<Vec<(String, f64)>>>;
fn from<T: serde::de::DeserializeOwned>(v: serde_json::Value) -> Result<T, Fail> {
    wasm_sim::from_value(JsValue::Json(v, true)).map_err(|e| Fail::from(format!("a plain description is refused: {e}")))
}
fn alg(a: HashAlgorithm) -> &'static str {
    match a {
        HashAlgorithm::Sha256 => "SHA256",
        HashAlgorithm::Blake3 => "BLAKE3",
        HashAlgorithm::Keccak256 => "KECCAK256",
    }
}
fn open(v: Vec<types::HashOpening>) -> Vec<tlsn_sdk_core::HashOpening> {
    v.into_iter().map(|x| tlsn_sdk_core::HashOpening { hash: x.hash, blinder: x.blinder }).collect()
}
enum Bad {
    Refused(JsError),
    Wrong(Fail),
}
impl From<JsError> for Bad {
    fn from(e: JsError) -> Self {
        Bad::Refused(e)
    }
}
impl From<Fail> for Bad {
    fn from(e: Fail) -> Self {
        Bad::Wrong(e)
    }
}
struct How {
    seed: u64,
    /// The request is sent the wrong way first.
    astray: bool,
    /// The caller wants to see progress; it may throw.
    watch: Option<bool>,
    steps: Steps,
    /// The caller has a null for what it does not have.
    nulls: bool,
}
async fn prover(c: &Case, h: &How, vio: JsIo, mut sock: Option<JsIo>, end: &RefCell<PSide>) -> Result<(), Bad> {
    let at = |s| end.borrow_mut().at = s;
    at("new");
    let mut cfg = c.plain.0.clone();
    if h.nulls {
        for k in ["max_sent_records", "max_recv_records_online", "defer_decryption_from_start", "client_auth"] {
            if cfg.get(k).is_none() {
                cfg[k] = serde_json::Value::Null;
            }
        }
    }
    let mut p = JsProver::new(from(cfg)?)?;
    if let Some(throws) = h.watch {
        let s = h.steps.clone();
        p.set_progress_callback(Function(Rc::new(move |v| {
            if let JsValue::Object(o) = v {
                let f = o.fields();
                if let (Some(a), Some(b), Some(_)) = (f.get("step").and_then(|x| x.as_string()), f.get("progress").and_then(|x| x.as_f64()), f.get("message").and_then(|x| x.as_string())) {
                    s.borrow_mut().push((a, b));
                }
            }
            if throws { Err(JsValue::from("not now")) } else { Ok(JsValue::Undefined) }
        })));
    }
    at("setup");
    p.setup(vio).await?;
    at("request");
    let mut q = json!({"uri": c.req.uri, "method": format!("{:?}", c.req.method), "headers": {}});
    for (k, v) in &c.req.headers {
        q["headers"][k] = v.clone().into();
    }
    if let Some(tlsn_sdk_core::Body::Json(j)) = &c.req.body {
        q["body"] = j.clone();
    }
    if h.astray {
        let called = Rc::new(Cell::new(false));
        let wrong = sock.is_none().then(|| JsIo(Rc::new(Never(called.clone()))));
        if p.send_request(wrong, from(q.clone())?).await.is_ok() {
            return Err(Fail::from("a request is sent the wrong way").into());
        }
        if called.get() {
            return Err(Fail::from("a connection to the server is used although the verifier has it").into());
        }
        h.steps.borrow_mut().retain(|s| s.0 == "MPC_SETUP");
    }
    let resp = p.send_request(sock.take(), from(q)?).await?;
    end.borrow_mut().resp = Some(tlsn_sdk_core::HttpResponse { status: resp.status, headers: resp.headers, body: c.ans.resp.body.clone() });
    let t = p.transcript()?;
    let t = tlsn_sdk_core::Transcript { sent: t.sent, recv: t.recv };
    let mut r = R::new(h.seed, "ask", 0);
    let reveal = t_sdk::spans(&mut r, t.sent.len()).into_iter().fold(c.reveal.clone(), |a, x| a.sent(x));
    let reveal = t_sdk::spans(&mut r, t.recv.len()).into_iter().fold(reveal, |a, x| a.recv(x));
    let commit = c.commit.clone().map(|mut x| {
        x.sent.extend(t_sdk::commits(&mut r, t.sent.len(), c.want_commit));
        x.recv.extend(t_sdk::commits(&mut r, t.recv.len(), c.want_commit));
        x
    });
    {
        let mut e = end.borrow_mut();
        e.tr = Some(t);
        e.commit = commit.clone();
        e.reveal = Some(reveal.clone());
    }
    at("reveal");
    let span = |x: &[std::ops::Range<usize>]| x.iter().map(|x| json!({"start": x.start, "end": x.end})).collect::<Vec<_>>();
    let rv = json!({"sent": span(&reveal.sent), "recv": span(&reveal.recv), "server_identity": reveal.server_identity});
    let cr = |x: &[tlsn_sdk_core::CommitRange]| x.iter().map(|x| json!({"start": x.start, "end": x.end, "algorithm": alg(x.algorithm)})).collect::<Vec<_>>();
    let cm = match &commit {
        Some(x) => Some(from::<types::Commit>(json!({"sent": cr(&x.sent), "recv": cr(&x.recv)}))?),
        None => None,
    };
    let out = p.reveal(from(rv)?, cm).await?;
    let mut e = end.borrow_mut();
    e.out = Some(tlsn_sdk_core::RevealOutput { sent: open(out.sent), recv: open(out.recv) });
    e.complete = true;
    Ok(())
}
async fn verifier(c: &Case, pio: JsIo, mut sock: Option<JsIo>, end: &RefCell<VSide>) -> Result<(), Bad> {
    let at = |s| end.borrow_mut().at = s;
    let mut v = JsVerifier::new(from(c.plain.1.clone())?)?;
    at("connect");
    v.connect(pio).await?;
    at("setup");
    let name = v.setup().await?;
    end.borrow_mut().name = Some(name.clone());
    if name.is_some() {
        let Some(s) = sock.take() else { return Err(Fail::from("a connection to the server is asked for without need").into()) };
        v.set_server_socket(s)?;
    }
    at("run");
    v.run().await?;
    at("verify");
    let o = v.verify().await?;
    let i = o.connection_info;
    let mut e = end.borrow_mut();
    e.out = Some(tlsn_sdk_core::VerifierOutput {
        server_name: o.server_name,
        connection_info: tlsn_sdk_core::ConnectionInfo {
            time: i.time,
            version: match i.version {
                types::TlsVersion::V1_2 => tlsn_sdk_core::TlsVersion::V1_2,
                types::TlsVersion::V1_3 => tlsn_sdk_core::TlsVersion::V1_3,
            },
            transcript_length: tlsn_sdk_core::TranscriptLength { sent: i.transcript_length.sent, recv: i.transcript_length.recv },
        },
        transcript: o.transcript.map(|t| tlsn_sdk_core::PartialTranscript { sent: t.sent, sent_authed: t.sent_authed, recv: t.recv, recv_authed: t.recv_authed }),
    });
    e.complete = true;
    Ok(())
}
/// Ends with the first, while the second goes on as long as it can.
async fn beside<T>(main: impl Future<Output = T>, other: impl Future<Output = ()>) -> T {
    let (main, other) = (std::pin::pin!(main), std::pin::pin!(other));
    match futures::future::select(main, other).await {
        futures::future::Either::Left((x, _)) => x,
        futures::future::Either::Right(((), main)) => main.await,
    }
}
async fn session(c: &Case, h: &How) -> Result<Ran, Fail> {
    let mut r = R::new(h.seed, "io", 0);
    let (pio, vio) = tokio::io::duplex(c.buf);
    let (csock, ssock) = tokio::io::duplex(1 << 16);
    let mut most = || *r.pick(&[1usize << 16, 1 << 12, 300]);
    let (pio, k1) = page_io(pio, most(), h.seed);
    let (vio, k2) = page_io(vio, most(), h.seed + 1000);
    let (csock, k3) = page_io(csock, most(), h.seed + 2000);
    let (ps, vs) = if c.proxy { (None, Some(csock)) } else { (Some(csock), None) };
    let (pe, ve): (RefCell<PSide>, RefCell<VSide>) = Default::default();
    let served = Rc::new(RefCell::new(None));
    let wrong = RefCell::new(None);
    let began = srv::now() as u64;
    let fp = async {
        match prover(c, h, vio, ps, &pe).await {
            Err(Bad::Refused(e)) => pe.borrow_mut().err = Some(told(e)),
            Err(Bad::Wrong(f)) => *wrong.borrow_mut() = Some(f),
            Ok(()) => {}
        }
    };
    let fv = async {
        match verifier(c, pio, vs, &ve).await {
            Err(Bad::Refused(e)) => ve.borrow_mut().err = Some(told(e)),
            Err(Bad::Wrong(f)) => *wrong.borrow_mut() = Some(f),
            Ok(()) => {}
        }
    };
    let mut s = Srv::new(c.srv.id.clone(), &mut R::new(h.seed, "srv", 0));
    s.creq = c.srv.creq;
    let main = async {
        futures::join!(Box::pin(fp), Box::pin(fv), t_sdk::serve(s, c.ans.wire.clone(), c.closes, ssock, served.clone()));
    };
    beside(main, async {
        futures::join!(k1.pump(), k2.pump(), k3.pump());
    })
    .await;
    if let Some(f) = wrong.take() {
        return Err(f);
    }
    let served = served.take();
    Ok(Ran { p: pe.into_inner(), v: ve.into_inner(), served, real: (began, srv::now() as u64) })
}
fn plan(r: &mut R) -> Result<(Case, How), Fail> {
    let mut c = t_sdk::case(r)?;
    // a body from a page is a value
    c.req.body = match c.req.body.take() {
        Some(tlsn_sdk_core::Body::Raw(b)) => Some(tlsn_sdk_core::Body::Json(serde_json::Value::String(b.iter().map(|x| (x & 0x7f) as char).collect()))),
        Some(tlsn_sdk_core::Body::Json(serde_json::Value::Null)) => None,
        x => x,
    };
    let h = How { seed: r.u64() >> 1, astray: r.chance(1, 3), watch: r.bool().then(|| r.bool()), steps: Default::default(), nulls: r.bool() };
    Ok((c, h))
}
const STEPS: &[&str] = &["MPC_SETUP", "MPC_SETUP", "CONNECTING_TO_SERVER", "SENDING_REQUEST", "REQUEST_COMPLETE", "REVEAL", "FINALIZED"];
fn sessions(r: &mut R, _: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let (c, h) = plan(r)?;
    let ran = run(session(&c, &h))??;
    t_sdk::judge(&c, &ran)?;
    let s = h.steps.borrow();
    if h.watch.is_some() {
        let mut names: Vec<&str> = s.iter().map(|x| x.0.as_str()).collect();
        let mut want = STEPS.to_vec();
        names.dedup();
        want.dedup();
        ensure_eq!(names, want, "the steps the caller is told of");
        ensure!(s.windows(2).all(|w| w[0].1 < w[1].1) && s.iter().all(|x| x.1 > 0.0 && x.1 <= 1.0), "progress does not grow: {s:?}");
        o.see("progress watched");
    }
    if h.astray {
        o.see("wrong way first");
    }
    let d = ran.p.commit.as_ref().map_or(0, |x| x.sent.len() + x.recv.len());
    o.add("openings", d as u64);
    o.see(if c.proxy { "proxy" } else { "mpc" });
    if c.client.is_some() {
        o.see("client certificate");
    }
    o.key(format!("{:?} {:?} {d}", c.req, c.ans.resp));
    Ok(())
}

// ---------------------------------------------------------------- limits

/// Every limit the page gives is the one the parties keep to.
fn limits(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let mut c = t_sdk::case(r)?;
    while c.proxy {
        c = t_sdk::case(r)?;
    }
    let near = |r: &mut R, x: usize| *r.pick(&[x, x, x - 1, x + 1, 1, 2 * x]);
    let (s, v) = (1500usize, 2500usize);
    let (mut ps, mut pv) = (s, v);
    let mut rec = (30usize, 40usize);
    match i % 4 {
        0 => ps = near(r, s),
        1 => pv = near(r, v),
        2 => rec.0 = near(r, 30),
        _ => rec.1 = near(r, 40),
    }
    let root = c.srv.id.root_der(r);
    let pc = json!({"server_name": c.host, "mode": "Mpc", "max_sent_data": ps, "max_recv_data": pv, "max_recv_data_online": pv.min(3000), "network": "Latency",
        "max_sent_records": rec.0, "max_recv_records_online": rec.1, "root_certs": [root]});
    let vc = json!({"max_sent_data": s, "max_recv_data": v, "max_sent_records": 30, "max_recv_records_online": 40, "root_certs": [root]});
    let beyond = ps > s || pv > v || rec.0 > 30 || rec.1 > 40;
    let (pio, vio) = tokio::io::duplex(1 << 18);
    let (pio, k1) = page_io(pio, 1 << 16, 1);
    let (vio, k2) = page_io(vio, 1 << 16, 2);
    let (pcfg, vcfg) = (from(pc)?, from(vc)?);
    let (a, b) = run(beside(
        async {
            futures::join!(
                Box::pin(async {
                    let mut p = JsProver::new(pcfg)?;
                    p.setup(pio).await?;
                    Ok::<_, JsError>(p)
                }),
                Box::pin(async {
                    let mut v = JsVerifier::new(vcfg)?;
                    v.connect(vio).await?;
                    v.setup().await?;
                    Ok::<_, JsError>(v)
                })
            )
        },
        async {
            futures::join!(k1.pump(), k2.pump());
        },
    ))?;
    let what = format!("sent {ps}/{s}, received {pv}/{v}, records {rec:?}");
    if beyond {
        ensure!(b.is_err(), "the verifier takes part in a session beyond its limits: {what}");
        ensure!(a.is_err(), "the prover goes on although it was refused: {what}");
    } else {
        ensure!(b.is_ok(), "the verifier refuses a session within its limits: {what}: {:?}", b.err());
        ensure!(a.is_ok(), "the prover fails although it was accepted: {what}: {:?}", a.err());
    }
    o.see(if beyond { "beyond a limit" } else { "within the limits" });
    o.key(what);
    Ok(())
}

// ---------------------------------------------------------------- rules

/// Rules of a page are the rules of the SDK, and the answer is made of plain objects.
fn rules(r: &mut R, _: u64, o: &mut Obs) -> Result<(), Fail> {
    let sent = format!("POST /a?b={} HTTP/1.1\r\nHost: x.example\r\nCookie: s={}\r\nContent-Type: application/json\r\nContent-Length: 15\r\n\r\n{{\"k\": \"v\", \"n\": 1}}", r.below(100), r.u32()).replace("15", "18");
    let recv = format!("HTTP/1.1 {} OK\r\nContent-Type: application/json\r\nX-A: {}\r\nContent-Length: 24\r\n\r\n{{\"name\": \"x\", \"age\": 123}}", 200 + r.below(99), r.u32()).replace("24", "25");
    let mut list = vec![];
    let mut hs = vec![];
    for _ in 0..r.below(6) {
        let ty = *r.pick(&["SENT", "RECV"]);
        let part = *r.pick(&["START_LINE", "PROTOCOL", "METHOD", "REQUEST_TARGET", "STATUS_CODE", "HEADERS", "BODY", "ALL"]);
        let action = match r.below(4) {
            0 => json!({"kind": "HASH", "algorithm": *r.pick(&["SHA256", "BLAKE3", "KECCAK256"])}),
            _ => json!({"kind": "REVEAL"}),
        };
        let params = match (part, r.below(3)) {
            ("HEADERS", 0) => Some(json!({"key": *r.pick(&["cookie", "x-a", "content-type"])})),
            ("HEADERS", 1) => Some(json!({"key": "content-type", "hideKey": true})),
            ("BODY", 0) => Some(json!({"type": "json", "path": *r.pick(&["k", "name"])})),
            ("BODY", 1) => Some(json!({"type": "json", "path": *r.pick(&["n", "age"]), "hideKey": true})),
            ("ALL", 0) => Some(json!({"type": "regex", "regex": "e[a-z]"})),
            _ => None,
        };
        let mut j = json!({"type": ty, "part": part, "action": action});
        if let Some(p) = params {
            j["params"] = p;
        }
        hs.push(serde_json::from_value::<tlsn_sdk_core::Handler>(j.clone()).map_err(|e| Fail::from(format!("a rule is refused: {j}: {e}")))?);
        list.push(j);
    }
    let a = wasmpart::handler::compute_reveal(sent.as_bytes(), recv.as_bytes(), JsValue::Json(list.clone().into(), true));
    let b = tlsn_sdk_core::compute_reveal(sent.as_bytes(), recv.as_bytes(), &hs);
    match (a, b) {
        (Ok(JsValue::Json(v, plain)), Ok(w)) => {
            ensure!(plain, "the answer has maps which are no plain objects");
            let w = serde_json::to_value(&w).map_err(|e| Fail::Harness(e.to_string()))?;
            ensure_eq!(v, w, "ranges of the rules {list:?}");
            // what it says about the rules is what was said
            let mut n = 0;
            for k in ["sent_ranges_with_handlers", "recv_ranges_with_handlers"] {
                for x in v[k].as_array().ok_or_else(|| Fail::from(format!("no {k}")))? {
                    ensure!(list.contains(&x["handler"]), "a range of a rule nobody gave: {}", x["handler"]);
                    n += 1;
                }
            }
            o.add("ranges", n);
            o.see("ranges");
        }
        (Err(_), Err(_)) => o.see("refused"),
        (a, b) => return Err(Fail::from(format!("the page and the SDK differ: {a:?} {:?} for {list:?}", b.map(|_| ())))),
    }
    let bad = wasmpart::handler::compute_reveal(sent.as_bytes(), recv.as_bytes(), JsValue::Json(json!([{"type": "BOTH", "part": "BODY", "action": {"kind": "REVEAL"}}]), true));
    ensure!(bad.is_err(), "a rule which is none is accepted");
    o.key(format!("{list:?}"));
    Ok(())
}

// ---------------------------------------------------------------- the log

static SITE: Site = Site;
struct Site;
impl tracing_core::callsite::Callsite for Site {
    fn set_interest(&self, _: tracing_core::Interest) {}
    fn metadata(&self) -> &tracing_core::Metadata<'_> {
        panic!("of no site")
    }
}
/// What is logged: by the first rule for the crate of the event, otherwise by the general level.
fn log(r: &mut R, _: u64, o: &mut Obs) -> Result<(), Fail> {
    use tracing_core::{Kind, Level, Metadata, field::FieldSet, identify_callsite};
    const LEVELS: &[&str] = &["Off", "Error", "Warn", "Info", "Debug", "Trace"];
    let names = ["tlsn", "tlsn_core", "tls", "mpz_garble", "hyper", "", "TLSN", "uid_mux", "yamux"];
    let n = r.below(5);
    let rules: Vec<(String, usize)> = (0..n)
        .map(|_| {
            let s = r.pick(&names).to_string();
            let s = match r.below(5) {
                0 => s.to_uppercase(),
                1 => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
                2 if r.chance(1, 3) => format!("{s}::prover"),
                _ => s,
            };
            (s, r.below(6))
        })
        .collect();
    let level = if r.chance(1, 4) { None } else { Some(r.below(6)) };
    let mut j = json!({});
    if let Some(l) = level {
        j["level"] = LEVELS[l].into();
    }
    if n > 0 || r.bool() {
        j["crate_filters"] = rules.iter().map(|(n, l)| json!({"name": n, "level": LEVELS[*l]})).collect::<Vec<_>>().into();
    }
    let f = tlsn_sdk_core::logging::filter(serde_json::from_value(j.clone()).map_err(|e| Fail::from(format!("a configuration is refused: {j}: {e}")))?);
    for _ in 0..24 {
        let mut t = r.pick(&names).to_string();
        match r.below(4) {
            0 => t.push_str("::prover"),
            1 => t.push_str("::prover::state"),
            2 if r.chance(1, 4) => t.push(':'),
            _ => {}
        }
        let (k, lv) = *r.pick(&[(1, Level::ERROR), (2, Level::WARN), (3, Level::INFO), (4, Level::DEBUG), (5, Level::TRACE)]);
        let of = t.find("::").map_or(&t[..], |i| &t[..i]).to_lowercase();
        let rule = rules.iter().find(|x| x.0.to_lowercase() == of).map(|x| x.1);
        let want = k <= rule.or(level).unwrap_or(3);
        let m = Metadata::new("x", &t, lv, None, None, None, FieldSet::new(&[], identify_callsite!(&SITE)), if r.bool() { Kind::EVENT } else { Kind::SPAN });
        ensure_eq!(f(&m), want, "an event of {t:?} at {lv} with {j}");
        o.see(match (rule, want) {
            (Some(_), true) => "logged by a rule",
            (Some(_), false) => "not logged by a rule",
            (None, true) => "logged by the general level",
            (None, false) => "not logged by the general level",
        });
    }
    o.key(j.to_string());
    Ok(())
}

pub fn m12(cx: &mut Cx) {
    cx.rule(
        "The bindings of the wasm crate, compiled natively with stand-ins for the values, promises and objects of a page. Its stream adapter \
         against a page which answers late, at once, with an end, an error or an exception: a model of the bytes handed over decides every \
         read, write, close and wake-up. Whole sessions described as plain values, judged like those of the SDK. Limits and rules as plain \
         values against the same given to the SDK. Log filters against a model of the rules.",
    );
    cx.assume("values, promises and serde conversions of the browser are stand-ins; a connection ends only if it is closed");
    cx.require("end of the stream", 50);
    cx.require("error of the page", 50);
    cx.require("closed", 50);
    cx.require("proxy", 5);
    cx.require("mpc", 8);
    cx.require("progress watched", 8);
    cx.require("wrong way first", 5);
    cx.require("beyond a limit", 3);
    cx.require("within the limits", 3);
    cx.require("ranges", 20);
    cx.cases("adapter", 3000, 200_000, adapter);
    cx.cases("sessions", 50, 2000, sessions);
    cx.cases("limits", 16, 400, limits);
    cx.cases("rules", 120, 4000, rules);
    cx.require("logged by a rule", 200);
    cx.require("not logged by a rule", 200);
    cx.cases("log", 2000, 40_000, log);
}
