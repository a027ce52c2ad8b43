//! Whole sessions: prover, verifier and server, with a wire between prover and verifier on which
//! messages can be seen, altered, dropped, added and cut off at any point.
use crate::{
    srv::{self, ALERT, APP, Srv, Stage},
    util::chain,
};
use futures::{AsyncReadExt as _, AsyncWriteExt as _};
use mpzsim::watch::{self, Event, Role};
use rangeset::set::RangeSet;
use serde::{Deserialize, Serialize};
use std::{
    cell::RefCell,
    future::{Future, IntoFuture},
    pin::Pin,
    rc::Rc,
    task::Poll,
};
use tlsn::{
    Session,
    config::{
        prove::{ProveConfig, ProveRequest},
        prover::ProverConfig,
        tls::TlsClientConfig,
        tls_commit::{TlsCommitConfig, mpc::MpcTlsConfig, proxy::ProxyTlsConfig},
        verifier::VerifierConfig,
    },
    connection::{HandshakeData, ServerName},
    hash::HashAlgId,
    prover::{Prover, state as ps},
    transcript::{Direction, TlsTranscript, Transcript, TranscriptCommitConfig, TranscriptCommitmentKind},
    verifier::{Verifier, VerifierCommitStart, state as vs},
    webpki::{CertificateDer, RootCertStore},
};
use tlsn_core::{ProverOutput, VerifierOutput};
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream};
use tokio_util::compat::TokioAsyncReadCompatExt;
use vfw::{Fail, R};

// ---------------------------------------------------------------- messages

/// The messages of prover and verifier, as on the wire.
#[derive(Serialize, Deserialize)]
pub struct CommitReq {
    pub config: TlsCommitConfig,
    pub version: String,
}
#[derive(Serialize, Deserialize, Debug)]
pub struct Reply {
    pub result: Result<(), Option<String>>,
}
/// A request to prove, with everything in the open.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Req {
    pub identity: bool,
    pub reveal: Option<(RangeSet<usize>, RangeSet<usize>)>,
    pub commit: Option<Vec<(Direction, RangeSet<usize>, HashAlgId)>>,
    pub handshake: Option<(ServerName, HandshakeData)>,
    pub transcript: Option<Part>,
}
/// A partial transcript in parts.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Part {
    pub sent: Vec<u8>,
    pub recv: Vec<u8>,
    pub sent_idx: RangeSet<usize>,
    pub recv_idx: RangeSet<usize>,
    pub sent_total: usize,
    pub recv_total: usize,
}
pub fn parse<T: Serialize + for<'a> Deserialize<'a>>(b: &[u8]) -> Option<T> {
    let t: T = bincode::deserialize(b).ok()?;
    (bincode::serialize(&t).ok()? == b).then_some(t)
}

// ---------------------------------------------------------------- wire

/// Which way.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Way {
    /// Prover to verifier.
    Up,
    Down,
}
/// What travels.
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    /// A message of a stream's channel.
    Msg { stream: Vec<u8>, path: Vec<u8>, body: Vec<u8> },
    /// Bytes of the stream which carries the server's traffic.
    Raw { stream: Vec<u8>, data: Vec<u8> },
    Fin(Vec<u8>),
    Close,
}
impl Item {
    fn frame(&self, out: &mut Vec<u8>) {
        let (k, id, data) = match self {
            Item::Msg { stream, path, body } => {
                let inner = [&(body.len() as u32).to_be_bytes()[..], body].concat();
                (0, &stream[..], [&[path.len() as u8][..], path, &(inner.len() as u32).to_be_bytes(), &inner].concat())
            }
            Item::Raw { stream, data } => (0, &stream[..], data.clone()),
            Item::Fin(s) => (1, &s[..], vec![]),
            Item::Close => (2, &[][..], vec![]),
        };
        out.push(k);
        out.extend((id.len() as u16).to_be_bytes());
        out.extend(id);
        out.extend((data.len() as u32).to_be_bytes());
        out.extend(data);
    }
}
/// Takes items apart.
#[derive(Default)]
struct Split {
    inb: Vec<u8>,
    streams: std::collections::BTreeMap<Vec<u8>, Vec<u8>>,
}
impl Split {
    fn feed(&mut self, b: &[u8], out: &mut Vec<Item>) {
        self.inb.extend_from_slice(b);
        loop {
            let b = &self.inb;
            if b.len() < 3 {
                return;
            }
            let il = u16::from_be_bytes([b[1], b[2]]) as usize;
            if b.len() < 7 + il {
                return;
            }
            let dl = u32::from_be_bytes(b[3 + il..7 + il].try_into().unwrap()) as usize;
            if b.len() < 7 + il + dl {
                return;
            }
            let (k, id, data) = (b[0], b[3..3 + il].to_vec(), b[7 + il..7 + il + dl].to_vec());
            self.inb.drain(..7 + il + dl);
            match k {
                0 if id.starts_with(b"proxy_stream") => out.push(Item::Raw { stream: id, data }),
                0 => {
                    let s = self.streams.entry(id.clone()).or_default();
                    s.extend(data);
                    loop {
                        let Some(&p) = s.first() else { break };
                        let p = p as usize;
                        let Some(l) = s.get(1 + p..5 + p) else { break };
                        let l = u32::from_be_bytes(l.try_into().unwrap()) as usize;
                        if s.len() < 5 + p + l {
                            break;
                        }
                        let (path, inner) = (s[1..1 + p].to_vec(), s[5 + p..5 + p + l].to_vec());
                        s.drain(..5 + p + l);
                        out.push(Item::Msg { stream: id.clone(), path, body: inner.get(4..).unwrap_or(&[]).to_vec() });
                    }
                }
                1 => out.push(Item::Fin(id)),
                _ => out.push(Item::Close),
            }
        }
    }
}
/// What becomes of an item; `None` cuts the connection.
pub type Tap = Box<dyn FnMut(Way, usize, Item) -> Option<Vec<Item>>>;
/// What was seen on the wire.
#[derive(Default, Clone)]
pub struct Seen {
    pub items: Vec<(Way, Item)>,
    pub bytes: [usize; 2],
    pub cut: bool,
}
pub struct Net {
    pub tap: Option<Tap>,
    /// The connection breaks after so many bytes of one way.
    pub limit: Option<(Way, usize)>,
    /// Only one end notices a cut at once; the rest is delivered to the other.
    pub linger: bool,
}
impl Default for Net {
    fn default() -> Self {
        Net { tap: None, limit: None, linger: false }
    }
}
async fn wire(mut net: Net, p: DuplexStream, v: DuplexStream, seen: Rc<RefCell<Seen>>) {
    let (mut pr, mut pw) = tokio::io::split(p);
    let (mut vr, mut vw) = tokio::io::split(v);
    let (mut up, mut down) = (Split::default(), Split::default());
    let (mut bu, mut bd) = (vec![0u8; 1 << 16], vec![0u8; 1 << 16]);
    let (mut nu, mut nd) = (0, 0);
    let (mut eu, mut ed) = (false, false);
    while !(eu && ed) {
        let mut out = vec![];
        let way = tokio::select! {
            biased;
            n = pr.read(&mut bu), if !eu => {
                let n = n.unwrap_or(0);
                eu |= n == 0;
                up.feed(&bu[..n], &mut out);
                if n == 0 { let _ = vw.shutdown().await; }
                Way::Up
            }
            n = vr.read(&mut bd), if !ed => {
                let n = n.unwrap_or(0);
                ed |= n == 0;
                down.feed(&bd[..n], &mut out);
                if n == 0 { let _ = pw.shutdown().await; }
                Way::Down
            }
        };
        for x in out {
            let i = if way == Way::Up { &mut nu } else { &mut nd };
            *i += 1;
            let i = *i - 1;
            seen.borrow_mut().items.push((way, x.clone()));
            let r = match &mut net.tap {
                Some(t) => t(way, i, x),
                None => Some(vec![x]),
            };
            let Some(r) = r else {
                seen.borrow_mut().cut = true;
                if net.linger {
                    // the sender is told, the receiver finds the end
                    tokio::task::yield_now().await;
                }
                return;
            };
            let mut b = vec![];
            r.iter().for_each(|x| x.frame(&mut b));
            let at = seen.borrow().bytes[way as usize];
            let mut cut = false;
            if let Some((w, n)) = net.limit
                && w == way
                && at + b.len() >= n
            {
                b.truncate(n - at.min(n));
                cut = true;
            }
            seen.borrow_mut().bytes[way as usize] += b.len();
            let _ = match way {
                Way::Up => vw.write_all(&b).await,
                Way::Down => pw.write_all(&b).await,
            };
            if cut {
                seen.borrow_mut().cut = true;
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- server

/// Who ends the connection to the server.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ends {
    Client,
    Server,
    /// The server, without saying so.
    Abrupt,
}
#[derive(Clone)]
pub struct Plan {
    pub reqs: Vec<Vec<u8>>,
    pub resps: Vec<Vec<u8>>,
    pub ends: Ends,
    /// The server answers the goodbye of the client.
    pub polite: bool,
    /// Bytes per write of either side, at most.
    pub chunk: usize,
    /// The server goes away after so many bytes.
    pub die: Option<usize>,
    /// A bit of the server's bytes is altered.
    pub flip: Option<(usize, u8)>,
}
pub struct Served {
    pub srv: Srv,
    pub sent: usize,
}
async fn serve(mut srv: Srv, plan: Plan, mut sock: DuplexStream, out: Rc<RefCell<Option<Served>>>) {
    let mut b = [0u8; 4096];
    let (mut next, mut need, mut sent, mut made) = (0, 0, 0, 0);
    let mut bye = false;
    let mut r = R::new(srv.r.u64(), "serve", 0);
    'all: loop {
        // a server does not wait for ever
        let n = match tokio::time::timeout(std::time::Duration::from_secs(5), sock.read(&mut b)).await {
            Ok(Ok(n)) if n > 0 => n,
            _ => break,
        };
        let mut o = srv.feed(&b[..n]);
        while srv.stage == Stage::Traffic && next < plan.resps.len() && srv.app_in.len() >= need + plan.reqs[next].len() {
            need += plan.reqs[next].len();
            let mut at = 0;
            while at < plan.resps[next].len() {
                let k = piece(&mut r, plan.chunk, plan.resps[next].len() - at);
                o.extend(srv.send(APP, &plan.resps[next][at..at + k]));
                at += k;
            }
            next += 1;
        }
        let theirs = srv.stage == Stage::Traffic && srv.got.iter().any(|(t, p)| *t == ALERT && p == &[1, 0]);
        match plan.ends {
            Ends::Client if theirs => {
                if plan.polite {
                    o.extend(srv.send(ALERT, &[1, 0]));
                }
                bye = true;
            }
            Ends::Server if next == plan.resps.len() && srv.stage == Stage::Traffic => {
                o.extend(srv.send(ALERT, &[1, 0]));
                bye = true;
            }
            Ends::Abrupt if next == plan.resps.len() && srv.stage == Stage::Traffic => bye = true,
            _ => bye |= srv.stage == Stage::Dead || theirs,
        }
        if let Some((at, bit)) = plan.flip
            && let Some(x) = at.checked_sub(made).and_then(|i| o.get_mut(i))
        {
            *x ^= 1 << bit;
        }
        made += o.len();
        let mut at = 0;
        while at < o.len() {
            let mut k = if r.bool() { o.len() - at } else { (1 + r.below(800)).min(o.len() - at) };
            if let Some(d) = plan.die {
                k = k.min(d.saturating_sub(sent));
            }
            if k == 0 || sock.write_all(&o[at..at + k]).await.is_err() {
                break 'all;
            }
            sent += k;
            at += k;
            tokio::task::yield_now().await;
        }
        if bye || plan.die.is_some_and(|d| sent >= d) {
            break;
        }
    }
    drop(sock);
    *out.borrow_mut() = Some(Served { srv, sent });
}

// ---------------------------------------------------------------- parties

#[derive(Clone)]
pub enum Mode {
    Mpc(MpcTlsConfig),
    Proxy,
}
impl Mode {
    pub fn proxy(&self) -> bool {
        matches!(self, Mode::Proxy)
    }
    pub fn defers(&self) -> bool {
        matches!(self, Mode::Mpc(c) if c.defer_decryption_from_start())
    }
}
/// How much goes into the next record.
fn piece(r: &mut R, chunk: usize, left: usize) -> usize {
    if chunk == 0 { left } else { (1 + r.below(chunk)).min(left) }
}
/// What the prover proves.
#[derive(Clone, Debug, Default)]
pub struct Ask {
    pub identity: bool,
    pub sent: Option<Vec<std::ops::Range<usize>>>,
    pub recv: Option<Vec<std::ops::Range<usize>>>,
    pub commit: Vec<(Direction, Vec<std::ops::Range<usize>>, HashAlgId)>,
    /// The verifier refuses.
    pub refuse: bool,
}
impl Ask {
    pub fn config(&self, t: &Transcript) -> Result<ProveConfig, String> {
        let mut b = ProveConfig::builder(t);
        if self.identity {
            b.server_identity();
        }
        if let Some(v) = &self.sent {
            b.reveal_sent(&RangeSet::from(v.clone())).map_err(|e| chain(&e))?;
        }
        if let Some(v) = &self.recv {
            b.reveal_recv(&RangeSet::from(v.clone())).map_err(|e| chain(&e))?;
        }
        if !self.commit.is_empty() {
            let mut c = TranscriptCommitConfig::builder(t);
            for (d, v, alg) in &self.commit {
                c.commit_with_kind(&RangeSet::from(v.clone()), *d, TranscriptCommitmentKind::Hash { alg: *alg }).map_err(|e| chain(&e))?;
            }
            b.transcript_commit(c.build().map_err(|e| chain(&e))?);
        }
        b.build().map_err(|e| chain(&e))
    }
}
pub struct Cfg {
    pub mode: Mode,
    pub plan: Plan,
    pub asks: Vec<Ask>,
    /// The name the prover asks the server for.
    pub host: String,
    /// What the prover trusts.
    pub prover_roots: Vec<Vec<u8>>,
    /// What the verifier trusts.
    pub roots: Vec<Vec<u8>>,
    /// The verifier turns the session down.
    pub reject: Option<Option<String>>,
    /// The application switches decryption on at this request.
    pub decrypt_at: Option<usize>,
    /// A party goes away before this step.
    pub prover_quits: Option<u8>,
    pub verifier_quits: Option<u8>,
}
/// What the prover ended with.
#[derive(Default)]
pub struct PEnd {
    pub step: &'static str,
    pub err: Option<String>,
    pub kinds: Option<(bool, bool)>,
    pub got: Vec<u8>,
    pub transcript: Option<Transcript>,
    pub tls: Option<TlsTranscript>,
    pub outs: Vec<Result<ProverOutput, String>>,
    /// A result arrived although another party could not have taken part.
    pub done: bool,
}
#[derive(Default)]
pub struct VEnd {
    pub step: &'static str,
    pub err: Option<String>,
    pub tls: Option<TlsTranscript>,
    pub outs: Vec<VerifierOutput>,
    pub reqs: Vec<ProveRequest>,
    pub refused: usize,
    pub done: bool,
}
/// Ends with an error if it is polled without end at one point of time.
struct Lively<F>(Pin<Box<F>>, u64, tokio::time::Instant);
impl<F: Future> Future for Lively<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Self::Output> {
        self.1 += 1;
        let now = tokio::time::Instant::now();
        if now != self.2 {
            (self.1, self.2) = (0, now);
        }
        if self.1 > 300_000 {
            return Poll::Ready(None);
        }
        self.0.as_mut().poll(cx).map(Some)
    }
}
fn err(e: impl std::error::Error + 'static) -> String {
    chain(&e)
}
type Cell<T> = Rc<RefCell<T>>;

async fn app(conn: &mut tlsn::prover::TlsConnection, cfg: &Cfg, ctl: &tlsn::prover::ProverControl, end: &Cell<PEnd>) -> Result<(), String> {
    let mut r = R::new(cfg.plan.chunk as u64, "app", 0);
    for (i, q) in cfg.plan.reqs.iter().enumerate() {
        if cfg.decrypt_at == Some(i) {
            ctl.enable_decryption(true);
        }
        let mut at = 0;
        while at < q.len() {
            let k = piece(&mut r, cfg.plan.chunk, q.len() - at);
            conn.write_all(&q[at..at + k]).await.map_err(|e| e.to_string())?;
            at += k;
        }
        if ctl.is_decrypting() {
            let mut b = vec![0; cfg.plan.resps[i].len()];
            conn.read_exact(&mut b).await.map_err(|e| e.to_string())?;
            end.borrow_mut().got.extend(b);
        }
    }
    if cfg.plan.ends == Ends::Client {
        conn.close().await.map_err(|e| e.to_string())?;
    }
    let mut b = vec![];
    let x = conn.read_to_end(&mut b).await;
    end.borrow_mut().got.extend(b);
    if cfg.plan.ends != Ends::Client {
        let _ = conn.close().await;
    }
    x.map(|_| ()).map_err(|e| e.to_string())
}
async fn connected<S>(cfg: &Cfg, mut conn: tlsn::prover::TlsConnection, prover: Prover<ps::Connected<S>>, end: &Cell<PEnd>) -> Result<Prover<ps::Committed>, String>
where
    S: futures::AsyncRead + futures::AsyncWrite + Send + Unpin + 'static,
{
    let ctl = prover.control();
    let f = Lively(Box::pin(prover.into_future()), 0, tokio::time::Instant::now());
    let a = async {
        let x = app(&mut conn, cfg, &ctl, end).await;
        drop(conn);
        x
    };
    let (p, a) = futures::join!(f, a);
    let p = p.ok_or("SPINS: the prover is polled without end while nothing happens")?;
    let p = p.map_err(err)?;
    a?;
    Ok(p)
}
async fn prover(cfg: &Cfg, p: Prover, sock: Option<DuplexStream>, end: &Cell<PEnd>) -> Result<(), String> {
    let step = |s: &'static str, n: u8| {
        end.borrow_mut().step = s;
        if cfg.prover_quits == Some(n) { Err(format!("quits before {s}")) } else { Ok(()) }
    };
    let name = ServerName::Dns(cfg.host.as_str().try_into().map_err(err)?);
    let tls = TlsClientConfig::builder()
        .server_name(name)
        .root_store(RootCertStore { roots: cfg.prover_roots.iter().cloned().map(CertificateDer).collect() })
        .build()
        .map_err(err)?;
    step("commit", 0)?;
    let note = |e: tlsn::Error| {
        end.borrow_mut().kinds = Some((e.is_user(), e.is_io()));
        err(e)
    };
    let mut p = match &cfg.mode {
        Mode::Mpc(c) => {
            let p = p.commit(c.clone()).await.map_err(note)?;
            step("connect", 1)?;
            let (conn, p) = p.connect(tls, sock.expect("a socket").compat()).map_err(err)?;
            step("session", 2)?;
            connected(cfg, conn, p, end).await?
        }
        Mode::Proxy => {
            let c = ProxyTlsConfig::builder().server_name(cfg.host.as_str().try_into().map_err(err)?).build().map_err(err)?;
            let p = p.commit(c).await.map_err(note)?;
            step("connect", 1)?;
            let (conn, p) = p.connect(tls).map_err(err)?;
            step("session", 2)?;
            connected(cfg, conn, p, end).await?
        }
    };
    end.borrow_mut().transcript = Some(p.transcript().clone());
    end.borrow_mut().tls = Some(p.tls_transcript().clone());
    for a in &cfg.asks {
        step("prove", 3)?;
        // a connection which broke down leaves less to prove
        let c = a.config(p.transcript()).map_err(|e| format!("{}{e}", if cfg.plan.die.is_some() || cfg.plan.flip.is_some() { "" } else { "HARNESS " }))?;
        let o = p.prove(&c).await.map_err(err);
        let bad = o.is_err() && !a.refuse;
        end.borrow_mut().outs.push(o);
        if bad {
            return Err("proving failed".into());
        }
    }
    step("close", 4)?;
    p.close().await.map_err(err)?;
    end.borrow_mut().done = true;
    Ok(())
}
/// What an application agrees to.
pub fn sane(c: &tlsn::config::tls_commit::mpc::MpcTlsConfig) -> bool {
    c.max_sent_data() <= LIMIT && c.max_recv_data() <= LIMIT && c.max_sent_records().is_none_or(|x| x <= 200) && c.max_recv_records_online().is_none_or(|x| x <= 200)
}
pub const LIMIT: usize = 20_000;
async fn verifier(cfg: &Cfg, v: Verifier, sock: Option<DuplexStream>, end: &Cell<VEnd>) -> Result<(), String> {
    let step = |s: &'static str, n: u8| {
        end.borrow_mut().step = s;
        if cfg.verifier_quits == Some(n) { Err(format!("quits before {s}")) } else { Ok(()) }
    };
    step("commit", 0)?;
    let s = v.commit().await.map_err(err)?;
    step("accept", 1)?;
    let mut v: Verifier<vs::Committed> = match s {
        VerifierCommitStart::Mpc(v) => {
            if let Some(m) = &cfg.reject {
                v.reject(m.as_deref()).await.map_err(err)?;
                end.borrow_mut().done = true;
                return Ok(());
            }
            if !sane(v.config()) {
                v.reject(Some("too much")).await.map_err(err)?;
                return Err("the prover asks for too much".into());
            }
            let v = v.accept().await.map_err(err)?;
            step("session", 2)?;
            v.run().await.map_err(err)?
        }
        VerifierCommitStart::Proxy(v) => {
            if let Some(m) = &cfg.reject {
                v.reject(m.as_deref()).await.map_err(err)?;
                end.borrow_mut().done = true;
                return Ok(());
            }
            let v = v.accept().await.map_err(err)?;
            step("session", 2)?;
            v.run(sock.expect("a socket").compat()).await.map_err(err)?
        }
    };
    end.borrow_mut().tls = Some(v.tls_transcript().clone());
    for a in &cfg.asks {
        step("verify", 3)?;
        let x = v.verify().await.map_err(err)?;
        end.borrow_mut().reqs.push(x.request().clone());
        step("judge", 4)?;
        v = if a.refuse {
            end.borrow_mut().refused += 1;
            x.reject(Some("not that")).await.map_err(err)?
        } else {
            let (o, v) = x.accept().await.map_err(err)?;
            end.borrow_mut().outs.push(o);
            v
        };
    }
    step("close", 5)?;
    v.close().await.map_err(err)?;
    end.borrow_mut().done = true;
    Ok(())
}
/// Runs a party with its session driver; at the end both are gone.
async fn party<F: Future<Output = Result<(), String>>>(driver: tlsn::SessionDriver<tokio_util::compat::Compat<DuplexStream>>, handle: tlsn::SessionHandle, f: F) -> Result<(), String> {
    let script = async move {
        let r = f.await;
        handle.close();
        r
    };
    let d = tokio::time::timeout(std::time::Duration::from_secs(20), driver);
    // the driver first: it may end the session while the party is still at work
    let (d, r) = futures::join!(d, script);
    let d = d.map_err(|_| "DRIVER: the session is not closed");
    match (r, d) {
        (Err(e), _) => Err(e),
        (_, Err(e)) => Err(e.into()),
        (Ok(()), Ok(Err(_))) | (Ok(()), Ok(Ok(_))) => Ok(()),
    }
}

/// What was observed.
pub struct Ran {
    pub p: PEnd,
    pub v: VEnd,
    pub served: Served,
    pub seen: Seen,
    /// Values the verifier learned in the joint computations.
    pub learned: Vec<Vec<u8>>,
    /// Private values of the prover.
    pub private: Vec<Vec<u8>>,
    /// When it began and ended, by the real clock.
    pub real: (u64, u64),
}
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}
pub async fn session(cfg: &Cfg, srv: Srv, net: Net) -> Result<Ran, Fail> {
    Ok(sessions(vec![(cfg, srv)], net).await?.pop().unwrap())
}
/// Several pairs of provers and verifiers share a connection.
pub async fn sessions(list: Vec<(&Cfg, Srv)>, net: Net) -> Result<Vec<Ran>, Fail> {
    let (pio, wp) = tokio::io::duplex(1 << 18);
    let (vio, wv) = tokio::io::duplex(1 << 18);
    let seen: Rc<RefCell<Seen>> = Default::default();
    watch::start();
    let began = now();
    let mk = |io: DuplexStream| Session::new(io.compat()).split();
    let ((pd, mut ph), (vd, mut vh)) = (mk(pio), mk(vio));
    let bad = |e: tlsn::Error| Fail::Harness(chain(&e));
    let (mut fps, mut fvs, mut fss, mut ends) = (vec![], vec![], vec![], vec![]);
    for (cfg, srv) in list {
        let (csock, ssock) = tokio::io::duplex(1 << 18);
        let p = ph.new_prover(ProverConfig::builder().build().unwrap()).map_err(bad)?;
        let vc = VerifierConfig::builder().root_store(RootCertStore { roots: cfg.roots.iter().cloned().map(CertificateDer).collect() }).build().unwrap();
        let v = vh.new_verifier(vc).map_err(bad)?;
        let (ps, vsock) = if cfg.mode.proxy() { (None, Some(csock)) } else { (Some(csock), None) };
        let (pe, ve): (Cell<PEnd>, Cell<VEnd>) = Default::default();
        let served = Rc::new(RefCell::new(None));
        let (pe2, ve2) = (pe.clone(), ve.clone());
        fps.push(async move { prover(cfg, p, ps, &pe2).await.inspect_err(|e| pe2.borrow_mut().err = Some(e.clone())) });
        fvs.push(async move { verifier(cfg, v, vsock, &ve2).await.inspect_err(|e| ve2.borrow_mut().err = Some(e.clone())) });
        fss.push(serve(srv, cfg.plan.clone(), ssock, served.clone()));
        ends.push((pe, ve, served));
    }
    let all = async |v: Vec<_>| futures::future::join_all(v).await.into_iter().collect::<Result<Vec<()>, String>>().map(|_| ());
    let allv = async |v: Vec<_>| futures::future::join_all(v).await.into_iter().collect::<Result<Vec<()>, String>>().map(|_| ());
    let fp = Box::pin(party(pd, ph, all(fps)));
    let fv = Box::pin(party(vd, vh, allv(fvs)));
    let (rp, rv, _, _) = futures::join!(fp, fv, wire(net, wp, wv, seen.clone()), futures::future::join_all(fss));
    let ev = watch::take();
    for e in [rp.err(), rv.err()].into_iter().flatten() {
        if e.starts_with("HARNESS") {
            return Err(Fail::Harness(e));
        }
        if e.starts_with("SPINS") || e.starts_with("DRIVER") {
            return Err(Fail::from(e));
        }
    }
    let pack = |b: &[bool]| b.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, x)| a | (*x as u8) << i)).collect::<Vec<u8>>();
    let mut learned = vec![];
    let mut private = vec![];
    for e in &ev {
        match e {
            Event::Decode { role: Role::Verifier | Role::Evaluator, bits, .. } => learned.push(pack(bits)),
            Event::Private { role: Role::Prover, bits, .. } => private.push(pack(bits)),
            _ => {}
        }
    }
    let seen = seen.take();
    ends.into_iter()
        .map(|(p, v, s)| {
            Ok(Ran {
                p: p.take(),
                v: v.take(),
                served: s.take().ok_or_else(|| Fail::Harness("the server never ended".into()))?,
                seen: seen.clone(),
                learned: learned.clone(),
                private: private.clone(),
                real: (began, now()),
            })
        })
        .collect()
}

// ---------------------------------------------------------------- generators

pub fn data(r: &mut R, max: usize) -> Vec<u8> {
    let n = 1 + r.below(max);
    r.bytes(n)
}
/// Larger plans need more records than there are by default.
const RECORDS: usize = 60;
pub fn plan(r: &mut R, mode: &Mode) -> Plan {
    let n = if r.chance(1, 3) { 2 } else { 1 };
    let big = r.chance(1, 6);
    Plan {
        reqs: (0..n).map(|_| data(r, if big { 300 } else { 90 })).collect(),
        resps: (0..n).map(|_| data(r, if big { 400 } else { 120 })).collect(),
        ends: if r.bool() { Ends::Client } else { Ends::Server },
        polite: r.bool(),
        chunk: match mode {
            Mode::Mpc(c) if c.max_sent_records().is_none() => 0,
            _ => *r.pick(&[0, 500, 60, 35]),
        },
        die: None,
        flip: None,
    }
}
pub fn mode(r: &mut R) -> Mode {
    if r.chance(1, 3) {
        return Mode::Proxy;
    }
    mpc(r)
}
pub fn mpc(r: &mut R) -> Mode {
    let mut b = MpcTlsConfig::builder().max_sent_data(1000).max_recv_data(1000).max_recv_data_online(1000).defer_decryption_from_start(r.bool());
    if r.chance(1, 4) {
        b = b.network(tlsn::config::tls_commit::mpc::NetworkSetting::Bandwidth);
    }
    if r.chance(3, 4) {
        b = b.max_sent_records(RECORDS).max_recv_records_online(RECORDS);
    }
    Mode::Mpc(b.build().unwrap())
}
fn ranges(r: &mut R, n: usize) -> Vec<std::ops::Range<usize>> {
    match r.below(6) {
        0 => vec![],
        1 | 2 => vec![0..n],
        _ => (0..1 + r.below(4))
            .map(|_| {
                let a = r.below(n);
                a..a + 1 + r.below(n - a)
            })
            .collect(),
    }
}
pub fn ask(r: &mut R, plan: &Plan) -> Ask {
    let (ns, nr) = (plan.reqs.iter().map(|x| x.len()).sum::<usize>(), plan.resps.iter().map(|x| x.len()).sum::<usize>());
    let mut a = Ask { identity: r.bool(), ..Default::default() };
    if r.chance(4, 5) {
        a.sent = Some(ranges(r, ns));
    }
    if r.chance(4, 5) {
        a.recv = Some(ranges(r, nr));
    }
    if r.chance(3, 4) {
        for _ in 0..1 + r.below(3) {
            let d = if r.bool() { Direction::Sent } else { Direction::Received };
            let v = ranges(r, if d == Direction::Sent { ns } else { nr });
            if v.iter().any(|x| !x.is_empty()) {
                a.commit.push((d, v, if r.chance(1, 4) { HashAlgId::BLAKE3 } else { HashAlgId::SHA256 }));
            }
        }
    }
    a
}
pub fn start(r: &mut R) -> (Cfg, Srv) {
    let mode = mode(r);
    start_with(r, mode)
}
pub fn start_with(r: &mut R, mode: Mode) -> (Cfg, Srv) {
    let host = crate::pair::host(r);
    let id = srv::ident(r, &host, None);
    let root = id.root_der(r);
    let plan = plan(r, &mode);
    let asks = (0..if r.chance(1, 4) { 2 } else { 1 }).map(|_| ask(r, &plan)).collect();
    let srv = Srv::new(id, r);
    (
        Cfg {
            mode,
            plan,
            asks,
            host,
            prover_roots: vec![root.clone()],
            roots: vec![root],
            reject: None,
            decrypt_at: None,
            prover_quits: None,
            verifier_quits: None,
        },
        srv,
    )
}
