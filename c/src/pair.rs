//! Prover's TLS client and verifier's follower, joined by a channel on which messages can be seen,
//! altered, dropped, doubled, re-ordered and added, with a server of our own.
use crate::{
    pki,
    srv::{self, APP, Ident, Srv},
    util::chain,
};
use futures::{AsyncReadExt, AsyncWriteExt};
use mpc_tls::{
    Config, MpcTlsFollower, MpcTlsLeader,
    client::{Certificate, ClientConfig, ClientConnection, PrivateKey, RootCertStore, ServerName},
};
use mpz_common::{Context, context::pipe, io::Io};
use mpz_core::Block;
use mpzsim::watch;
use mpz_ideal_vm::IdealVm;
use mpz_ot::ideal::rcot::ideal_rcot;
use serde::{Deserialize, Serialize};
use std::{
    collections::BTreeSet,
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, Ordering},
    },
    time::Duration,
};
use tls_core::{
    key::PublicKey,
    msgs::enums::{ContentType, ProtocolVersion},
};
use tlsn_core::transcript::TlsTranscript;
use vfw::{Fail, R};

/// The messages of the prover, as on the wire.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum M {
    SetClientRandom([u8; 32]),
    ServerHello { time: u64, random: [u8; 32], key: PublicKey },
    ClientFinishedVd([u8; 32]),
    ServerFinishedVd([u8; 32]),
    Encrypt { typ: ContentType, version: ProtocolVersion, len: usize, plaintext: Option<Vec<u8>> },
    Decrypt { typ: ContentType, version: ProtocolVersion, explicit_nonce: Vec<u8>, ciphertext: Vec<u8>, tag: Vec<u8> },
    StartTraffic,
    Flush { is_decrypting: bool },
    CloseConnection,
}
impl M {
    pub fn name(&self) -> &'static str {
        match self {
            M::SetClientRandom(_) => "SetClientRandom",
            M::ServerHello { .. } => "ServerHello",
            M::ClientFinishedVd(_) => "ClientFinishedVd",
            M::ServerFinishedVd(_) => "ServerFinishedVd",
            M::Encrypt { .. } => "Encrypt",
            M::Decrypt { .. } => "Decrypt",
            M::StartTraffic => "StartTraffic",
            M::Flush { .. } => "Flush",
            M::CloseConnection => "CloseConnection",
        }
    }
    fn parse(b: &[u8]) -> Option<M> {
        let l = u32::from_be_bytes(b.get(..4)?.try_into().ok()?) as usize;
        if b.len() != 4 + l || *b.get(4)? > 8 || b.get(5..8)? != [0, 0, 0] {
            return None;
        }
        let m: M = bincode::deserialize(&b[4..]).ok()?;
        (bincode::serialize(&m).ok()? == b[4..]).then_some(m)
    }
    fn frame(&self) -> Vec<u8> {
        let b = bincode::serialize(self).unwrap();
        [&[0u8][..], &((b.len() + 4) as u32).to_be_bytes(), &(b.len() as u32).to_be_bytes(), &b].concat()
    }
}
/// What becomes of a message of the prover.
pub type Hook = Box<dyn FnMut(usize, M) -> Vec<M>>;

#[derive(Clone)]
pub struct Cfg {
    pub defer: bool,
    pub max_sent: usize,
    pub max_recv: usize,
    pub max_recv_online: usize,
    pub sent_records: Option<usize>,
    pub recv_records: Option<usize>,
    pub low: bool,
    pub auth: Option<(Vec<Vec<u8>>, Vec<u8>)>,
    /// The name the client asks for.
    pub host: String,
    pub roots: Vec<rustls_pki_types::TrustAnchor<'static>>,
}
impl Cfg {
    pub fn new(r: &mut R, id: &Ident) -> Self {
        Cfg {
            defer: r.bool(),
            max_sent: 4096,
            max_recv: 8192,
            max_recv_online: 4096,
            sent_records: None,
            recv_records: None,
            low: r.chance(1, 4),
            auth: None,
            host: id.host.clone(),
            roots: vec![pki::anchor(&id.root_name, id.root_key)],
        }
    }
    fn build(&self) -> Config {
        let mut b = Config::builder();
        b.defer_decryption(self.defer).max_sent(self.max_sent).max_recv(self.max_recv).max_recv_online(self.max_recv_online);
        if let Some(n) = self.sent_records {
            b.max_sent_records(n);
        }
        if let Some(n) = self.recv_records {
            b.max_recv_records_online(n);
        }
        if self.low {
            b.low_bandwidth();
        }
        b.build().expect("limits are in order")
    }
}

/// Drives the client.
pub struct Drv {
    pub client: ClientConnection,
    pub srv: Srv,
    pub r: R,
    /// On the way to the client.
    pub inbox: Vec<u8>,
    /// What the client released.
    pub plain: Vec<u8>,
    /// Released before the server finished the handshake.
    pub early: bool,
    pub closed: bool,
    /// Bytes the application wrote.
    pub wrote: Vec<u8>,
    /// Bytes given to the client per call.
    pub chunk: usize,
}
impl Drv {
    /// Bytes of the client to the server.
    pub fn out(&mut self) {
        let mut b = vec![];
        while self.client.wants_write() {
            if self.client.write_tls(&mut b).is_err() {
                break;
            }
        }
        if !b.is_empty() {
            let x = self.srv.feed(&b);
            self.inbox.extend(x);
        }
    }
    fn drain(&mut self) {
        let mut b = [0u8; 4096];
        while !self.client.plaintext_is_empty() {
            match self.client.read_plaintext(&mut b) {
                Ok(n) if n > 0 => {
                    self.plain.extend_from_slice(&b[..n]);
                    self.early |= self.client.is_handshaking();
                }
                _ => break,
            }
        }
    }
    /// One round.
    pub async fn step(&mut self) -> Result<bool, String> {
        let before = (self.inbox.len(), self.srv.got.len(), self.plain.len(), self.client.wants_write());
        self.out();
        if self.client.wants_read() && !self.inbox.is_empty() {
            let n = (1 + self.r.below(self.chunk)).min(self.inbox.len());
            let mut s = &self.inbox[..n];
            let k = self.client.read_tls(&mut s).map_err(|e| e.to_string())?;
            self.inbox.drain(..k);
        }
        let r = self.client.process_new_packets().await;
        self.drain();
        self.out();
        r.map_err(|e| chain(&e))?;
        Ok(before != (self.inbox.len(), self.srv.got.len(), self.plain.len(), self.client.wants_write()))
    }
    /// Until nothing moves.
    pub async fn pump(&mut self) -> Result<(), String> {
        let mut idle = 0;
        while idle < 2 {
            idle = if self.step().await? { 0 } else { idle + 1 };
        }
        Ok(())
    }
    pub async fn handshake(&mut self) -> Result<(), String> {
        self.client.start().await.map_err(|e| chain(&e))?;
        self.pump().await
    }
    pub fn write(&mut self, b: &[u8]) {
        let mut at = 0;
        while at < b.len() {
            match self.client.write_plaintext(&b[at..]) {
                Ok(n) if n > 0 => at += n,
                _ => break,
            }
        }
        self.wrote.extend_from_slice(&b[..at]);
    }
    pub fn serve(&mut self, ct: u8, b: &[u8]) {
        let x = self.srv.send(ct, b);
        self.inbox.extend(x);
    }
    pub fn serve_app(&mut self, b: &[u8]) {
        self.serve(APP, b)
    }
    /// The client says goodbye.
    pub async fn bye(&mut self) -> Result<(), String> {
        self.client.send_close_notify().await.map_err(|e| chain(&e))?;
        self.pump().await
    }
    /// The server's connection ended.
    pub async fn close(&mut self) -> Result<TlsTranscript, String> {
        self.pump().await?;
        self.client.server_closed().await.map_err(|e| chain(&e))?;
        self.closed = true;
        let mut n = 0;
        while !(self.client.is_empty() && self.client.plaintext_is_empty()) {
            self.client.process_new_packets().await.map_err(|e| chain(&e))?;
            self.drain();
            n += 1;
            if n > 100 {
                return Err("the client never empties its records".into());
            }
        }
        self.client.finish().map(|x| x.1).ok_or("no session after closing".into())
    }
}

/// What was observed.
pub struct Ran {
    /// `None`: the client would wait forever.
    pub leader: Option<Result<TlsTranscript, String>>,
    pub follower: Result<TlsTranscript, String>,
    pub drv: Seen,
    /// Messages the follower was given.
    pub msgs: Vec<M>,
    /// Messages the leader sent.
    pub meant: Vec<M>,
    /// When the verifier got the server parameters.
    pub at: u64,
    /// The verifier ended while the prover was still running.
    pub prompt: bool,
    /// Values both parties learned in the joint computation.
    pub known: Vec<Vec<u8>>,
}
impl Ran {
    /// Nothing of the server's and application's secrets is among them.
    pub fn secret(&self) -> Result<(), Fail> {
        for s in &self.drv.srv.secrets {
            for k in &self.known {
                if k.windows(s.len()).any(|w| w == s) {
                    return Err(Fail::from(format!("{} secret bytes of the session became known to the verifier", s.len())));
                }
            }
        }
        Ok(())
    }
}
pub struct Seen {
    pub srv: Srv,
    pub plain: Vec<u8>,
    pub wrote: Vec<u8>,
    pub early: bool,
    pub handshaking: bool,
}

pub fn host(r: &mut R) -> String {
    format!("host{}.example.com", r.below(1000))
}
/// Runs a session; `script` drives the client to its end.
pub async fn session<F>(r: &mut R, cfg: &Cfg, fcfg: &Cfg, srv: Srv, hook: Option<Hook>, script: F) -> Result<Ran, Fail>
where
    F: AsyncFnOnce(&mut Drv) -> Result<TlsTranscript, String>,
{
    let he = |e: String| Fail::Harness(e);
    let (la, lb) = pipe();
    let (fa, fb) = pipe();
    let lctx = Context::from_io(Io::from_io(la));
    let fctx = Context::from_io(Io::from_io(fa));
    let lvm = Arc::new(tokio::sync::Mutex::new(IdealVm::new()));
    let fvm = Arc::new(tokio::sync::Mutex::new(IdealVm::new()));
    let (cs, cr) = ideal_rcot(Block::ZERO, Block::ZERO);
    let mut leader = MpcTlsLeader::new(cfg.build(), lctx, lvm, (cs.clone(), cs.clone(), cs.clone()), cr.clone());
    let mut follower = MpcTlsFollower::new(fcfg.build(), fctx, fvm, cs, (cr.clone(), cr.clone(), cr));
    leader.alloc().map_err(|e| Fail::from(format!("leader cannot allocate: {e}")))?;
    follower.alloc().map_err(|e| Fail::from(format!("follower cannot allocate: {e}")))?;

    let meant = Arc::new(Mutex::new(vec![]));
    let given = Arc::new(Mutex::new(vec![]));
    let (m2, g2) = (meant.clone(), given.clone());
    let (mut lr, mut lw) = lb.split();
    let (mut fr, mut fw) = fb.split();
    let mut hook = hook;
    let up = async move {
        let mut buf = vec![];
        let mut b = vec![0u8; 65536];
        let mut idx = 0;
        'o: loop {
            let n = match lr.read(&mut b).await {
                Ok(n) if n > 0 => n,
                _ => break,
            };
            buf.extend_from_slice(&b[..n]);
            let mut at = 0;
            loop {
                let x: &[u8] = &buf[at..];
                let Some(p) = x.first().map(|p| *p as usize) else { break };
                let Some(l) = x.get(1 + p..5 + p) else { break };
                let l = u32::from_be_bytes(l.try_into().unwrap()) as usize;
                let Some(d) = x.get(5 + p..5 + p + l) else { break };
                let frames = match M::parse(d) {
                    Some(m) if p == 0 => {
                        m2.lock().unwrap().push(m.clone());
                        let v = match &mut hook {
                            Some(h) => h(idx, m),
                            None => vec![m],
                        };
                        idx += 1;
                        g2.lock().unwrap().extend(v.iter().cloned());
                        v.iter().map(M::frame).collect()
                    }
                    _ => vec![x[..5 + p + l].to_vec()],
                };
                for f in frames {
                    if fw.write_all(&f).await.is_err() {
                        break 'o;
                    }
                }
                at += 5 + p + l;
            }
            buf.drain(..at);
        }
        let _ = fw.close().await;
    };
    let down = async move {
        let mut b = vec![0u8; 65536];
        while let Ok(n) = fr.read(&mut b).await {
            if n == 0 || lw.write_all(&b[..n]).await.is_err() {
                break;
            }
        }
        let _ = lw.close().await;
    };

    let anchors = cfg.roots.clone();
    let store = RootCertStore { roots: anchors };
    let cc = match &cfg.auth {
        None => ClientConfig::new(store),
        Some((c, k)) => ClientConfig::new_with_client_auth(store, c.iter().map(|c| Certificate(c.clone())).collect(), PrivateKey(k.clone()))
            .map_err(|e| he(e.to_string()))?,
    };
    let name = ServerName::try_from(cfg.host.as_str()).map_err(|_| he("host name".into()))?;
    let chunk = *r.pick(&[1usize, 17, 300, 20000]);
    let seed = r.u64();
    let ended = Arc::new(AtomicBool::new(false));
    let (e1, e2) = (ended.clone(), ended.clone());
    let lead = async {
        if let Err(e) = leader.preprocess().await {
            return Err(Some(format!("preprocessing: {}", chain(&e))));
        }
        let client = ClientConnection::new(Arc::new(cc), leader, name).map_err(|e| Some(e.to_string()))?;
        let mut d = Drv {
            client,
            srv,
            r: R::new(seed, "drive", 0),
            inbox: vec![],
            plain: vec![],
            early: false,
            closed: false,
            wrote: vec![],
            chunk,
        };
        // time stands still unless nobody can move
        let res = tokio::time::timeout(Duration::from_secs(1), script(&mut d)).await.ok();
        let prompt = e1.load(Ordering::SeqCst);
        d.early |= !d.plain.is_empty() && d.srv.client_finished_ok.is_none();
        let seen = Seen { handshaking: d.client.is_handshaking(), srv: d.srv, plain: d.plain, wrote: d.wrote, early: d.early };
        drop(d.client);
        Ok((res, seen, prompt))
    };
    let follow = async {
        follower.preprocess().await.map_err(|e| chain(&e))?;
        let x = follower.run().await.map(|x| x.1).map_err(|e| chain(&e));
        e2.store(true, Ordering::SeqCst);
        x
    };
    watch::start();
    let (l, f, _, _) = futures::join!(lead, follow, up, down);
    let (leader, drv, prompt) = l.map_err(|e| he(e.unwrap_or_default()))?;
    let known = watch::take()
        .into_iter()
        .filter_map(|e| match e {
            watch::Event::Decode { bits, .. } => Some(bits.chunks(8).map(|b| b.iter().enumerate().fold(0, |a, (i, x)| a | (*x as u8) << i)).collect()),
            _ => None,
        })
        .collect();
    let msgs = std::mem::take(&mut *given.lock().unwrap());
    let meant = std::mem::take(&mut *meant.lock().unwrap());
    Ok(Ran { leader, follower: f, drv, msgs, meant, at: srv::now() as u64, prompt, known })
}

/// Checks what both parties hold after an undisturbed session.
pub fn agree(l: &TlsTranscript, f: &TlsTranscript) -> Result<(), Fail> {
    agree_in(l, f, true)
}
/// `opened`: the transcript of the prover holds plaintext of application data.
pub fn agree_in(l: &TlsTranscript, f: &TlsTranscript, opened: bool) -> Result<(), Fail> {
    use vfw::{ensure, ensure_eq};
    // a proxy takes the time by its own clock
    ensure!(l.time().abs_diff(f.time()) <= if opened { 0 } else { 30 }, "times differ: {} {}", l.time(), f.time());
    ensure_eq!(l.version(), f.version(), "versions differ");
    ensure_eq!(format!("{:?}", l.certificate_binding()), format!("{:?}", f.certificate_binding()), "bindings differ");
    for (dir, a, b) in [("sent", l.sent(), f.sent()), ("received", l.recv(), f.recv())] {
        ensure_eq!(a.len(), b.len(), "parties hold different numbers of {dir} records");
        let mut seqs = BTreeSet::new();
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            ensure_eq!(x.seq, i as u64, "{dir} record out of sequence at the prover");
            ensure_eq!(y.seq, i as u64, "{dir} record out of sequence at the verifier");
            ensure!(seqs.insert(x.seq), "{dir} record {} twice", x.seq);
            ensure_eq!(x.typ, y.typ, "types of {dir} record {i} differ");
            ensure_eq!(x.ciphertext, y.ciphertext, "ciphertexts of {dir} record {i} differ");
            ensure_eq!(x.explicit_nonce, y.explicit_nonce, "nonces of {dir} record {i} differ");
            let app = x.typ == tlsn_core::transcript::ContentType::ApplicationData;
            ensure!(!app || y.plaintext.is_none(), "the verifier knows the plaintext of {dir} record {i}");
            if !opened {
                continue;
            }
            ensure!(x.plaintext.is_some(), "the prover does not know {dir} record {i}");
            ensure_eq!(y.plaintext.is_some(), !app, "the verifier's knowledge of {dir} record {i} of type {:?}", x.typ);
            if !app {
                ensure_eq!(x.plaintext, y.plaintext, "plaintexts of {dir} record {i} differ");
            }
        }
    }
    Ok(())
}

/// What a client offers: suites and extensions.
pub fn offer(r: &mut R) -> Result<(Vec<u16>, Vec<u16>), Fail> {
    let id = srv::ident(r, "offer.example.com", None);
    let cfg = Cfg::new(r, &id);
    let srv = Srv::new(id, r);
    let ran = crate::util::run(session(r, &cfg, &cfg, srv, None, async move |d: &mut Drv| {
        d.client.start().await.map_err(|e| chain(&e))?;
        d.out();
        Err("enough".into())
    }))??;
    let h = ran.drv.srv.hello.as_ref().ok_or_else(|| Fail::from("no ClientHello"))?;
    Ok((h.suites.clone(), h.exts.iter().map(|e| e.0).collect()))
}
