//! M11: the sessions of the SDK.
use crate::{
    pki,
    srv::{self, ALERT, APP, Srv, Stage},
    util::{Unhook, run, sha},
};
use std::{cell::RefCell, collections::HashMap, ops::Range, rc::Rc};
use tlsn_sdk_core::{
    Body, Commit, CommitRange, HashAlgorithm, HttpRequest, HttpResponse, Method, NetworkSetting, ProverConfig, ProverMode, Reveal, RevealOutput, SdkProver, SdkVerifier, Transcript, VerifierConfig,
    VerifierOutput,
    config::{ProverConfigBuilder, VerifierConfigBuilder},
    error::{ErrorKind, SdkError},
};
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream};
use tokio_util::compat::TokioAsyncReadCompatExt;
use vfw::{Cx, Fail, Obs, R, ensure, ensure_eq};

// ---------------------------------------------------------------- HTTP

/// A message, taken apart.
#[derive(Debug, Clone, PartialEq)]
pub(crate) struct Http {
    pub(crate) first: Vec<u8>,
    pub(crate) headers: Vec<(Vec<u8>, Vec<u8>)>,
    pub(crate) body: Vec<u8>,
}
fn find(b: &[u8], n: &[u8]) -> Option<usize> {
    b.windows(n.len()).position(|w| w == n)
}
/// A request, once all of it is there.
fn request(b: &[u8]) -> Result<Option<Http>, String> {
    let Some(e) = find(b, b"\r\n\r\n") else { return Ok(None) };
    let mut lines = vec![];
    let mut rest = &b[..e + 2];
    while let Some(i) = find(rest, b"\r\n") {
        lines.push(rest[..i].to_vec());
        rest = &rest[i + 2..];
    }
    let mut headers = vec![];
    for l in &lines[1..] {
        let i = l.iter().position(|c| *c == b':').ok_or_else(|| format!("a header without colon: {:?}", String::from_utf8_lossy(l)))?;
        let v = l[i + 1..].trim_ascii();
        headers.push((l[..i].to_ascii_lowercase(), v.to_vec()));
    }
    let n = match headers.iter().find(|h| h.0 == b"content-length") {
        Some(h) => std::str::from_utf8(&h.1).ok().and_then(|s| s.parse::<usize>().ok()).ok_or("content-length")?,
        None => 0,
    };
    if b.len() < e + 4 + n {
        return Ok(None);
    }
    if b.len() > e + 4 + n {
        return Err(format!("{} bytes after the request", b.len() - e - 4 - n));
    }
    Ok(Some(Http { first: lines[0].clone(), headers, body: b[e + 4..].to_vec() }))
}
fn token(r: &mut R) -> String {
    const T: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789-_.!#$%&'*+^`|~";
    let n = 1 + r.below(10);
    let mut s = format!("{}{}", *r.pick(&['x', 'q', 'z', 'w']), r.below(10));
    (0..n).for_each(|_| s.push(*r.pick(T) as char));
    s
}
/// The value of a header: no space at either end.
fn value(r: &mut R) -> Vec<u8> {
    let n = r.below(20);
    let odd = r.chance(1, 4);
    let mut v: Vec<u8> = (0..n)
        .map(|_| match r.below(12) {
            0 => b' ',
            1 => b'\t',
            2 if odd => 0x80 + r.below(0x80) as u8,
            _ => 0x21 + r.below(0x5e) as u8,
        })
        .collect();
    let ends = |v: &mut Vec<u8>| v.last().is_some_and(|c| *c == b' ' || *c == b'\t') && v.pop().is_some();
    while ends(&mut v) {}
    v.reverse();
    while ends(&mut v) {}
    v
}
fn target(r: &mut R) -> String {
    const T: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEF0123456789-._~!$&'()*+,;=:@/";
    let mut s = "/".to_string();
    (0..r.below(30)).for_each(|_| s.push(*r.pick(T) as char));
    if r.bool() {
        s.push('?');
        (0..r.below(20)).for_each(|_| s.push(*r.pick(b"abcxyz=&%?/:@0189-._~") as char));
    }
    s
}
fn json(r: &mut R, d: usize) -> serde_json::Value {
    use serde_json::Value as V;
    match r.below(if d == 0 { 4 } else { 6 }) {
        0 => V::Null,
        1 => V::from(r.u32() as i64 - (1 << 31)),
        2 => V::from(r.bool()),
        3 => V::from(["", "a", "\"", "\\u", "é", "\n", "{}"][r.below(7)]),
        4 => (0..r.below(4)).map(|_| json(r, d - 1)).collect(),
        _ => V::Object((0..r.below(4)).map(|i| (format!("k{i}"), json(r, d - 1))).collect()),
    }
}
/// What the server answers, and how it writes that.
#[derive(Clone, Debug)]
pub(crate) struct Answer {
    pub(crate) resp: HttpResponse,
    pub(crate) wire: Vec<u8>,
    /// The end of the body is the end of the connection.
    pub(crate) till_end: bool,
}
fn answer(r: &mut R, proxy: bool) -> Answer {
    let status = *r.pick(&[200u16, 200, 201, 206, 301, 400, 403, 404, 418, 429, 500, 503, 299, 599]);
    let mut headers: Vec<(String, Vec<u8>)> = (0..r.below(6)).map(|_| (token(r), value(r))).collect();
    // repeated ones
    for i in 0..headers.len() {
        if r.chance(1, 5) {
            let x = (headers[i].0.clone(), value(r));
            let at = r.below(headers.len() + 1);
            headers.insert(at, x);
        }
    }
    if r.chance(1, 4) {
        for c in ["a=1; Path=/", "b=2"] {
            headers.push(("set-cookie".into(), c.into()));
        }
    }
    let n = if r.chance(1, 4) { 0 } else { let big = r.chance(1, 5); r.below(if big { 700 } else { 90 }) };
    let body = r.bytes(n);
    let mut wire = vec![];
    // not the final answer yet
    if r.chance(1, 8) {
        wire.extend(b"HTTP/1.1 103 Early Hints\r\nlink: </x>\r\n\r\n");
    }
    wire.extend(format!("HTTP/1.1 {status} {}\r\n", *r.pick(&["OK", "", "Not what you think", "A: b"])).bytes());
    let how = r.below(3);
    let mut till_end = false;
    let mut chunks = vec![];
    match how {
        0 => headers.push(("content-length".into(), body.len().to_string().into())),
        1 => {
            headers.push(("transfer-encoding".into(), "chunked".into()));
            let mut at = 0;
            while at < body.len() {
                let k = (1 + r.below(200)).min(body.len() - at);
                chunks.extend(format!("{k:x}{}\r\n", *r.pick(&["", ";x=y", " "])).bytes());
                chunks.extend(&body[at..at + k]);
                chunks.extend(b"\r\n");
                at += k;
            }
            chunks.extend(b"0\r\n\r\n");
        }
        _ => till_end = true,
    }
    let _ = proxy;
    for (k, v) in &headers {
        let k: String = k.chars().map(|c| if r.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect();
        wire.extend(k.bytes());
        wire.extend(*r.pick(&[&b":"[..], b": ", b":  "]));
        wire.extend(v);
        wire.extend(b"\r\n");
    }
    wire.extend(b"\r\n");
    wire.extend(if how == 1 { &chunks } else { &body });
    Answer { resp: HttpResponse { status, headers, body: (!body.is_empty()).then_some(body) }, wire, till_end }
}

// ---------------------------------------------------------------- server

pub(crate) struct Served {
    pub(crate) srv: Srv,
    pub(crate) req: Result<Option<Http>, String>,
}
pub(crate) async fn serve(mut srv: Srv, ans: Vec<u8>, closes: bool, mut sock: DuplexStream, out: Rc<RefCell<Option<Served>>>) {
    let mut b = [0u8; 4096];
    let mut req = Ok(None);
    let mut done = false;
    let mut r = R::new(srv.r.u64(), "serve", 0);
    loop {
        let n = match tokio::time::timeout(std::time::Duration::from_secs(5), sock.read(&mut b)).await {
            Ok(Ok(n)) if n > 0 => n,
            _ => break,
        };
        let mut o = srv.feed(&b[..n]);
        req = request(&srv.app_in);
        let mut bye = srv.stage == Stage::Dead;
        if srv.stage == Stage::Traffic && !done && matches!(req, Ok(Some(_))) {
            done = true;
            let k = if r.bool() { ans.len() } else { 1 + r.below(ans.len()) };
            o.extend(srv.send(APP, &ans[..k]));
            if k < ans.len() {
                o.extend(srv.send(APP, &ans[k..]));
            }
            if closes {
                o.extend(srv.send(ALERT, &[1, 0]));
                bye = true;
            }
        }
        if srv.got.iter().any(|(t, p)| *t == ALERT && p == &[1, 0]) {
            if !bye {
                o.extend(srv.send(ALERT, &[1, 0]));
            }
            bye = true;
        }
        let mut at = 0;
        while at < o.len() {
            let k = if r.bool() { o.len() - at } else { (1 + r.below(800)).min(o.len() - at) };
            if sock.write_all(&o[at..at + k]).await.is_err() {
                break;
            }
            at += k;
            tokio::task::yield_now().await;
        }
        if bye {
            break;
        }
    }
    drop(sock);
    *out.borrow_mut() = Some(Served { srv, req });
}

// ---------------------------------------------------------------- session

pub(crate) struct Case {
    pub(crate) proxy: bool,
    pub(crate) pc: ProverConfigBuilder,
    pub(crate) vc: VerifierConfigBuilder,
    pub(crate) host: String,
    pub(crate) srv: Srv,
    pub(crate) req: HttpRequest,
    pub(crate) ans: Answer,
    pub(crate) closes: bool,
    pub(crate) reveal: Reveal,
    pub(crate) commit: Option<Commit>,
    pub(crate) want_commit: usize,
    pub(crate) buf: usize,
    pub(crate) client: Option<(Vec<u8>, Vec<u8>)>,
    /// The same settings as plain values, as a caller in a browser gives them.
    pub(crate) plain: (serde_json::Value, serde_json::Value),
}
#[derive(Default)]
pub(crate) struct PSide {
    pub(crate) at: &'static str,
    pub(crate) resp: Option<HttpResponse>,
    pub(crate) tr: Option<Transcript>,
    pub(crate) commit: Option<Commit>,
    pub(crate) reveal: Option<Reveal>,
    pub(crate) out: Option<RevealOutput>,
    pub(crate) err: Option<(ErrorKind, String)>,
    pub(crate) complete: bool,
}
#[derive(Default)]
pub(crate) struct VSide {
    pub(crate) at: &'static str,
    pub(crate) name: Option<Option<String>>,
    pub(crate) out: Option<VerifierOutput>,
    pub(crate) err: Option<(ErrorKind, String)>,
    pub(crate) complete: bool,
}
pub(crate) fn wipe(e: SdkError) -> (ErrorKind, String) {
    (e.kind(), crate::util::chain(&e))
}
pub(crate) fn spans(r: &mut R, n: usize) -> Vec<Range<usize>> {
    if n == 0 {
        return vec![];
    }
    match r.below(5) {
        0 => vec![],
        1 => vec![0..n],
        _ => (0..1 + r.below(4))
            .map(|_| {
                let a = r.below(n);
                a..a + 1 + r.below(n - a)
            })
            .collect(),
    }
}
/// Ranges to commit to; some more than once.
pub(crate) fn commits(r: &mut R, n: usize, most: usize) -> Vec<CommitRange> {
    if n == 0 {
        return vec![];
    }
    let mut v: Vec<CommitRange> = vec![];
    for _ in 0..r.below(most + 1) {
        let a = r.below(n);
        let mut c = CommitRange { start: a, end: a + 1 + r.below((n - a).min(60)), algorithm: *r.pick(&[HashAlgorithm::Sha256, HashAlgorithm::Sha256, HashAlgorithm::Blake3]) };
        if r.chance(1, 4) && !v.is_empty() {
            c = r.pick(&v).clone();
            if r.bool() {
                c.algorithm = HashAlgorithm::Sha256;
            }
        }
        v.push(c);
    }
    v
}
async fn prover(c: &Case, cfg: ProverConfig, vio: DuplexStream, sock: Option<DuplexStream>, seed: u64, end: &RefCell<PSide>) -> Result<(), SdkError> {
    let at = |s| end.borrow_mut().at = s;
    at("new");
    let mut p = SdkProver::new(cfg)?;
    at("setup");
    p.setup(vio.compat()).await?;
    at("request");
    let resp = match sock {
        Some(s) => p.send_request_mpc(s.compat(), c.req.clone()).await?,
        None => p.send_request_proxy(c.req.clone()).await?,
    };
    end.borrow_mut().resp = Some(resp);
    let t = p.transcript()?;
    let mut r = R::new(seed, "ask", 0);
    let reveal = c.reveal.clone();
    let reveal = spans(&mut r, t.sent.len()).into_iter().fold(reveal, |a, x| a.sent(x));
    let reveal = spans(&mut r, t.recv.len()).into_iter().fold(reveal, |a, x| a.recv(x));
    let commit = c.commit.clone().map(|mut x| {
        x.sent.extend(commits(&mut r, t.sent.len(), c.want_commit));
        x.recv.extend(commits(&mut r, t.recv.len(), c.want_commit));
        x
    });
    {
        let mut e = end.borrow_mut();
        e.tr = Some(t);
        e.commit = commit.clone();
        e.reveal = Some(reveal.clone());
    }
    at("reveal");
    let out = p.reveal(reveal, commit).await?;
    end.borrow_mut().out = Some(out);
    end.borrow_mut().complete = p.is_complete();
    Ok(())
}
async fn verifier(cfg: VerifierConfig, pio: DuplexStream, mut sock: Option<DuplexStream>, end: &RefCell<VSide>) -> Result<(), SdkError> {
    let at = |s| end.borrow_mut().at = s;
    let mut v = SdkVerifier::new(cfg);
    at("connect");
    v.connect(pio.compat()).await?;
    at("setup");
    let name = v.setup().await?;
    end.borrow_mut().name = Some(name.clone());
    if name.is_some() {
        v.set_server_socket(sock.take().expect("a socket").compat())?;
    }
    at("run");
    v.run().await?;
    at("verify");
    let o = v.verify().await?;
    end.borrow_mut().out = Some(o);
    end.borrow_mut().complete = v.is_complete();
    Ok(())
}
pub(crate) struct Ran {
    pub(crate) p: PSide,
    pub(crate) v: VSide,
    pub(crate) served: Option<Served>,
    pub(crate) real: (u64, u64),
}
async fn session(c: &Case, seed: u64) -> Result<Ran, Fail> {
    let bad = |e: SdkError| Fail::from(format!("a sane configuration is refused: {e}"));
    let (pcfg, vcfg) = (c.pc.clone().build().map_err(bad)?, c.vc.clone().build().map_err(bad)?);
    let (pio, vio) = tokio::io::duplex(c.buf);
    let (csock, ssock) = tokio::io::duplex(1 << 16);
    let (ps, vs) = if c.proxy { (None, Some(csock)) } else { (Some(csock), None) };
    let (pe, ve): (RefCell<PSide>, RefCell<VSide>) = Default::default();
    let served = Rc::new(RefCell::new(None));
    let began = srv::now() as u64;
    let fp = async { if let Err(e) = prover(c, pcfg, pio, ps, seed, &pe).await { pe.borrow_mut().err = Some(wipe(e)) } };
    let fv = async { if let Err(e) = verifier(vcfg, vio, vs, &ve).await { ve.borrow_mut().err = Some(wipe(e)) } };
    let mut srv = Srv::new(c.srv.id.clone(), &mut R::new(seed, "srv", 0));
    srv.creq = c.srv.creq;
    futures::join!(Box::pin(fp), Box::pin(fv), serve(srv, c.ans.wire.clone(), c.closes, ssock, served.clone()));
    let served = served.take();
    Ok(Ran { p: pe.into_inner(), v: ve.into_inner(), served, real: (began, srv::now() as u64) })
}
fn ask(r: &mut R, host: &str) -> HttpRequest {
    let m = *r.pick(&[Method::GET, Method::POST, Method::PUT, Method::DELETE]);
    let mut q = match (m, r.bool()) {
        (Method::GET, true) => HttpRequest::get(target(r)),
        (Method::POST, true) => HttpRequest::post(target(r)),
        _ => HttpRequest::new(m, target(r)),
    };
    q = q.header("host", host);
    if r.bool() {
        q = q.header("connection", "close");
    }
    for _ in 0..r.below(6) {
        q = q.header(token(r), value(r));
    }
    match r.below(5) {
        0 => {
            let n = r.below(200);
            q.body(Body::Raw(r.bytes(n)))
        }
        1 => q.json(json(r, 3)).unwrap(),
        2 => q.body(Body::Json(serde_json::Value::String((0..r.below(40)).map(|_| *r.pick(&['a', '"', '\\', '\u{e9}', '{'])).collect()))),
        _ => q,
    }
}
pub(crate) fn case(r: &mut R) -> Result<Case, Fail> {
    let proxy = r.chance(1, 3);
    let host = crate::pair::host(r);
    let id = srv::ident(r, &host, None);
    let root = id.root_der(r);
    let mut srv = Srv::new(id, r);
    let req = ask(r, &host);
    let ans = answer(r, proxy);
    let defers = r.bool();
    let mut pc = ProverConfig::builder(&host).max_sent_data(2000).max_recv_data(3000).max_recv_data_online(3000).root_certs(vec![root.clone()]);
    let mut plain = (
        serde_json::json!({"server_name": host, "mode": "Mpc", "max_sent_data": 2000, "max_recv_data": 3000, "max_recv_data_online": 3000, "network": "Latency", "root_certs": [root]}),
        serde_json::json!({"max_recv_data": 3000, "root_certs": [root]}),
    );
    if !defers {
        pc = pc.defer_decryption_from_start(false);
        plain.0["defer_decryption_from_start"] = false.into();
    } else if r.bool() {
        pc = pc.defer_decryption_from_start(true);
        plain.0["defer_decryption_from_start"] = true.into();
    }
    if r.bool() {
        let n = *r.pick(&[NetworkSetting::Bandwidth, NetworkSetting::Latency]);
        pc = pc.network(n);
        plain.0["network"] = (if n == NetworkSetting::Bandwidth { "Bandwidth" } else { "Latency" }).into();
    }
    let vs = 2000 + r.below(2) * 500;
    plain.1["max_sent_data"] = vs.into();
    let mut vc = VerifierConfig::builder().max_sent_data(vs).max_recv_data(3000).root_certs(vec![root]);
    if r.chance(1, 3) {
        pc = pc.max_sent_records(30).max_recv_records_online(40);
        let n = 30 + r.below(2);
        vc = vc.max_sent_records(n).max_recv_records_online(40);
        plain.0["max_sent_records"] = 30.into();
        plain.0["max_recv_records_online"] = 40.into();
        plain.1["max_sent_records"] = n.into();
        plain.1["max_recv_records_online"] = 40.into();
    }
    if proxy {
        pc = pc.mode(ProverMode::Proxy);
        plain.0["mode"] = "Proxy".into();
    }
    let mut client = None;
    srv.creq = r.chance(1, 3);
    if r.chance(1, 2) && srv.creq {
        let k = &pki::pool().p256[r.below(4)];
        let s = pki::Spec::ee_spec(r, "client", "nobody", pki::Sig::Ecdsa(pki::H::Sha256), srv::now(), vec!["me.example".into()]);
        let c = s.build(k, k, r);
        let given_key = pkcs8(k)?;
        let given = if r.bool() { c.clone() } else { pem(&c) };
        client = Some((c, k.raw.clone()));
        plain.0["client_auth"] = serde_json::json!([[given], given_key]);
        pc = pc.client_auth(vec![given], given_key);
    }
    let closes = ans.till_end || defers && !proxy || r.bool();
    Ok(Case {
        proxy,
        pc,
        vc,
        host,
        srv,
        req,
        ans,
        closes,
        reveal: Reveal::new().server_identity(r.bool()),
        commit: r.chance(3, 4).then(|| Commit { sent: vec![], recv: vec![] }),
        want_commit: *r.pick(&[0, 1, 3, 5]),
        buf: *r.pick(&[1 << 18, 1 << 14]),
        client,
        plain,
    })
}
/// The private key in a container: that of another one, with its numbers replaced.
fn pkcs8(k: &pki::Key) -> Result<Vec<u8>, Fail> {
    let pki::Kind::Ec(_, d) = &k.kind else { return Err(Fail::Harness("kind of key".into())) };
    let alg = &ring::signature::ECDSA_P256_SHA256_ASN1_SIGNING;
    let rng = ring::rand::SystemRandom::new();
    let doc = ring::signature::EcdsaKeyPair::generate_pkcs8(alg, &rng).map_err(|_| Fail::Harness("key".into()))?;
    let mut b = doc.as_ref().to_vec();
    let d = d.to_bytes_be();
    b[36..68].fill(0);
    b[68 - d.len()..68].copy_from_slice(&d);
    b[73..138].copy_from_slice(&k.raw);
    ring::signature::EcdsaKeyPair::from_pkcs8(alg, &b, &rng).map_err(|e| Fail::Harness(format!("key: {e}")))?;
    Ok(b)
}
fn pem(der: &[u8]) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in der.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    let l: Vec<&str> = (0..s.len()).step_by(64).map(|i| &s[i..(i + 64).min(s.len())]).collect();
    format!("-----BEGIN CERTIFICATE-----\n{}\n-----END CERTIFICATE-----\n", l.join("\n")).into_bytes()
}
fn marks(v: &[Range<usize>], n: usize) -> Vec<bool> {
    (0..n).map(|i| v.iter().any(|x| x.contains(&i))).collect()
}
fn shown(data: &[u8], authed: &[Range<usize>], want: &[Range<usize>], truth: &[u8], what: &str) -> Result<(), Fail> {
    ensure_eq!(data.len(), truth.len(), "the length of the {what} data the verifier was told");
    let (m, w) = (marks(authed, truth.len()), marks(want, truth.len()));
    ensure!(authed.iter().all(|x| x.end <= truth.len()), "{what} data beyond its end is declared authentic");
    ensure!(m == w, "the verifier was shown other ranges of {what} data than the prover chose: {authed:?}, not {want:?}");
    for (i, on) in m.iter().enumerate() {
        ensure_eq!(data[i], if *on { truth[i] } else { 0 }, "byte {i} of {what} data at the verifier (shown: {on})");
    }
    Ok(())
}
fn hash(a: HashAlgorithm, b: &[u8]) -> Vec<u8> {
    match a {
        HashAlgorithm::Sha256 => sha(b).to_vec(),
        _ => blake3::hash(b).as_bytes().to_vec(),
    }
}
fn opens(v: &[tlsn_sdk_core::HashOpening], want: &[CommitRange], plain: &[u8], what: &str) -> Result<(), Fail> {
    ensure_eq!(v.len(), want.len(), "openings of {what} data");
    for (i, (o, c)) in v.iter().zip(want).enumerate() {
        ensure_eq!(o.blinder.len(), 16, "length of a blinder");
        let h = hash(c.algorithm, &[&plain[c.start..c.end], &o.blinder].concat());
        ensure!(h == o.hash, "opening {i} of {what} data is not that of range {i} of the request ({} in all)", want.len());
    }
    Ok(())
}
pub(crate) fn judge(c: &Case, ran: &Ran) -> Result<(), Fail> {
    if let Some((_, e)) = &ran.p.err {
        return Err(Fail::from(format!("the prover fails in an honest session at {}: {e} (verifier: {} {:?})", ran.p.at, ran.v.at, ran.v.err)));
    }
    if let Some((_, e)) = &ran.v.err {
        return Err(Fail::from(format!("the verifier fails in an honest session at {}: {e}", ran.v.at)));
    }
    ensure!(ran.p.complete && ran.v.complete, "a finished session is not complete");
    let Some(sv) = &ran.served else { return Err(Fail::Harness("no server".into())) };
    let s = &sv.srv;
    ensure!(s.trouble.is_none(), "the server is not content: {:?}", s.trouble);
    // the request
    let q = match &sv.req {
        Ok(Some(q)) => q,
        x => return Err(Fail::from(format!("the server got no proper request: {x:?}"))),
    };
    ensure_eq!(String::from_utf8_lossy(&q.first), format!("{:?} {} HTTP/1.1", c.req.method, c.req.uri), "request line");
    let mut got: HashMap<Vec<u8>, Vec<Vec<u8>>> = Default::default();
    q.headers.iter().for_each(|(k, v)| got.entry(k.clone()).or_default().push(v.clone()));
    for (k, v) in &c.req.headers {
        ensure_eq!(got.remove(k.as_bytes()), Some(vec![v.clone()]), "header {k:?} as the server got it");
    }
    got.remove(&b"content-length"[..]);
    ensure!(got.is_empty(), "headers nobody asked for: {got:?}");
    let body = match &c.req.body {
        None => vec![],
        Some(Body::Raw(b)) => b.clone(),
        Some(Body::Json(serde_json::Value::String(s))) => s.clone().into_bytes(),
        Some(Body::Json(j)) => {
            let back: serde_json::Value = serde_json::from_slice(&q.body).map_err(|e| Fail::from(format!("a JSON body is none: {e}")))?;
            ensure_eq!(&back, j, "JSON body");
            q.body.clone()
        }
        _ => return Err(Fail::Harness("body".into())),
    };
    ensure_eq!(q.body, body, "body as the server got it");
    // the certificate
    if s.creq {
        let empty = s.client_cert.as_deref() == Some(&[0, 0, 0][..]);
        match &c.client {
            None => ensure!(empty, "a certificate out of nothing"),
            Some((cert, k)) => {
                ensure_eq!(s.client_cert, Some(srv::vec24(&srv::vec24(cert))), "client certificate");
                let Some((log, b)) = &s.cert_verify else { return Err(Fail::from("the client does not prove its certificate")) };
                let ok = b.get(..2) == Some(&[4, 3])
                    && ring::signature::UnparsedPublicKey::new(&ring::signature::ECDSA_P256_SHA256_ASN1, k).verify(log, b.get(4..).unwrap_or(&[])).is_ok();
                ensure!(ok, "the client's proof of its certificate is wrong");
            }
        }
    }
    // the response
    let (a, b) = (ran.p.resp.as_ref().unwrap(), &c.ans.resp);
    ensure_eq!(a.status, b.status, "status");
    ensure_eq!(a.body, b.body, "body as the caller got it");
    ensure_eq!(a.headers.len(), b.headers.len(), "number of headers as the caller got them");
    let by = |v: &[(String, Vec<u8>)]| {
        let mut m: std::collections::BTreeMap<String, Vec<Vec<u8>>> = Default::default();
        v.iter().for_each(|(k, v)| m.entry(k.to_ascii_lowercase()).or_default().push(v.clone()));
        m
    };
    ensure_eq!(by(&a.headers), by(&b.headers), "headers as the caller got them");
    // the transcript
    let t = ran.p.tr.as_ref().unwrap();
    ensure_eq!(t.sent, s.app_in, "the record of sent data");
    ensure_eq!(t.recv, s.app_out, "the record of received data");
    ensure_eq!(&s.app_out[..], &c.ans.wire[..], "the server did not answer");
    // what the verifier has
    let v = ran.v.out.as_ref().unwrap();
    let reveal = ran.p.reveal.as_ref().unwrap();
    ensure_eq!(ran.v.name.clone().unwrap(), c.proxy.then(|| c.host.clone()), "the server the verifier is to connect to");
    ensure_eq!(v.server_name, reveal.server_identity.then(|| c.host.clone()), "the server's name at the verifier");
    let i = &v.connection_info;
    ensure!((ran.real.0..=ran.real.1 + 1).contains(&i.time), "the session's time is {}, but it was held in {:?}", i.time, ran.real);
    ensure!(i.version == tlsn_sdk_core::TlsVersion::V1_2, "version {:?}", i.version);
    ensure_eq!((i.transcript_length.sent, i.transcript_length.recv), (s.app_in.len(), s.app_out.len()), "lengths at the verifier");
    match &v.transcript {
        Some(p) => {
            shown(&p.sent, &p.sent_authed, &reveal.sent, &s.app_in, "sent")?;
            shown(&p.recv, &p.recv_authed, &reveal.recv, &s.app_out, "received")?;
        }
        None => ensure!(reveal.sent.is_empty() && reveal.recv.is_empty(), "the verifier was not shown what the prover chose"),
    }
    // what the caller keeps
    let o = ran.p.out.as_ref().unwrap();
    let none = Commit { sent: vec![], recv: vec![] };
    let want = ran.p.commit.as_ref().unwrap_or(&none);
    opens(&o.sent, &want.sent, &s.app_in, "sent")?;
    opens(&o.recv, &want.recv, &s.app_out, "received")?;
    Ok(())
}
fn honest(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let c = case(r)?;
    let ran = run(session(&c, r.u64()))??;
    judge(&c, &ran)?;
    let d = ran.p.commit.as_ref().map_or(0, |x| x.sent.len() + x.recv.len());
    o.add("openings", d as u64);
    o.see(if c.proxy { "proxy" } else { "mpc" });
    if c.ans.resp.headers.len() > c.ans.resp.headers.iter().map(|x| x.0.to_ascii_lowercase()).collect::<std::collections::HashSet<_>>().len() {
        o.see("repeated headers");
    }
    if d > 1 {
        o.see("several openings");
    }
    if c.client.is_some() {
        o.see("client certificate");
    }
    o.key(format!("{:?} {:?} {d}", c.req, c.ans.resp));
    Ok(())
}

// ---------------------------------------------------------------- limits

/// The verifier takes part only in sessions within its limits.
fn limits(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let mut c = case(r)?;
    c.proxy = false;
    let near = |r: &mut R, x: usize| *r.pick(&[x, x, x - 1, x + 1, 1, 2 * x]);
    let (s, v) = (1500usize, 2500usize);
    let (mut ps, mut pv) = (s, v);
    let (mut psr, mut prr, mut vsr, mut vrr) = (None, None, None, None);
    if r.bool() {
        (psr, prr, vsr, vrr) = (Some(30), Some(40), Some(30), Some(40));
    }
    match i % 5 {
        0 => ps = near(r, s),
        1 => pv = near(r, v),
        2 if psr.is_some() => psr = Some(near(r, 30)),
        3 if prr.is_some() => prr = Some(near(r, 40)),
        _ => (ps, pv) = (near(r, s), near(r, v)),
    }
    let root = c.srv.id.root_der(r);
    let mut pc = ProverConfig::builder(&c.host).max_sent_data(ps).max_recv_data(pv).max_recv_data_online(pv.min(3000)).root_certs(vec![root.clone()]);
    let mut vc = VerifierConfig::builder().max_sent_data(s).max_recv_data(v).root_certs(vec![root]);
    if let (Some(a), Some(b), Some(x), Some(y)) = (psr, prr, vsr, vrr) {
        pc = pc.max_sent_records(a).max_recv_records_online(b);
        vc = vc.max_sent_records(x).max_recv_records_online(y);
    }
    (c.pc, c.vc) = (pc, vc);
    let beyond = ps > s || pv > v || psr > vsr || prr > vrr;
    let pcfg = c.pc.clone().build().map_err(|e| Fail::from(e.to_string()))?;
    let vcfg = c.vc.clone().build().map_err(|e| Fail::from(e.to_string()))?;
    let (pio, vio) = tokio::io::duplex(1 << 18);
    let (a, b) = run(async {
        futures::join!(
            Box::pin(async {
                let mut p = SdkProver::new(pcfg).map_err(wipe)?;
                p.setup(pio.compat()).await.map_err(wipe)?;
                Ok::<_, (ErrorKind, String)>(p)
            }),
            Box::pin(async {
                let mut v = SdkVerifier::new(vcfg);
                v.connect(vio.compat()).await.map_err(wipe)?;
                v.setup().await.map_err(wipe)?;
                Ok::<_, (ErrorKind, String)>(v)
            })
        )
    })?;
    let what = format!("sent {ps}/{s}, received {pv}/{v}, records {psr:?}/{vsr:?}, {prr:?}/{vrr:?}");
    if beyond {
        ensure!(b.is_err(), "the verifier takes part in a session beyond its limits: {what}");
        ensure!(a.is_err(), "the prover goes on although it was refused: {what}");
    } else {
        ensure!(b.is_ok(), "the verifier refuses a session within its limits: {what}: {:?}", b.err());
        ensure!(a.is_ok(), "the prover fails although it was accepted: {what}: {:?}", a.err());
    }
    o.see(if beyond { "beyond a limit" } else { "within the limits" });
    o.key(what);
    Ok(())
}

// ---------------------------------------------------------------- order

/// Steps out of order are errors, and leave nothing which works by accident.
fn order(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let c = case(r)?;
    let pcfg = c.pc.clone().build().map_err(|e| Fail::from(e.to_string()))?;
    let vcfg = c.vc.clone().build().map_err(|e| Fail::from(e.to_string()))?;
    let io = || tokio::io::duplex(64).0.compat();
    // a step at a state where it does not belong, with the session so far
    let stop = r.below(3);
    let (pio, vio) = tokio::io::duplex(1 << 18);
    let state = |x: Result<(), SdkError>, what: &str| match x {
        Ok(()) => Err(Fail::from(format!("{what} succeeds out of order"))),
        Err(e) if e.kind() == ErrorKind::InvalidState => Ok(()),
        Err(e) => Err(Fail::from(format!("{what} out of order is reported as {:?}: {e}", e.kind()))),
    };
    let mut p = SdkProver::new(pcfg).map_err(|e| Fail::from(e.to_string()))?;
    let mut v = SdkVerifier::new(vcfg);
    ensure_eq!(p.mode(), if c.proxy { ProverMode::Proxy } else { ProverMode::Mpc }, "mode");
    let key = run(async {
        if stop > 0 {
            let (a, b) = futures::join!(Box::pin(p.setup(pio.compat())), Box::pin(async {
                v.connect(vio.compat()).await?;
                v.setup().await.map(|_| ())
            }));
            a.and(b).map_err(|e| Fail::from(format!("setup: {e}")))?;
        }
        ensure!(!p.is_complete() && !v.is_complete(), "complete before the end");
        let k = r.below(5);
        let mut did = vec![];
        match (k, stop) {
            (0, s) if s > 0 => did.push(("setup", p.setup(io()).await)),
            (1, 0) | (1, 1) if stop == 0 || c.proxy => did.push(("send_request_mpc", p.send_request_mpc(io(), c.req.clone()).await.map(|_| ()))),
            (2, _) if stop == 0 || !c.proxy => did.push(("send_request_proxy", p.send_request_proxy(c.req.clone()).await.map(|_| ()))),
            (3, _) => did.push(("transcript", p.transcript().map(|_| ()))),
            _ => did.push(("reveal", p.reveal(Reveal::new(), None).await.map(|_| ()))),
        }
        // what was out of order spoils the session for good, apart from mere questions
        if did[0].0 != "transcript" {
            did.push(("setup", p.setup(io()).await));
            did.push(("reveal", p.reveal(Reveal::new(), None).await.map(|_| ())));
        }
        match r.below(5) {
            0 if stop > 0 => did.push(("connect", v.connect(io()).await)),
            1 => did.push(("setup of the verifier", if stop > 0 { v.setup().await.map(|_| ()) } else { Err(v.setup().await.err().ok_or("fine").unwrap_or_else(|_| panic!("setup before connect succeeds"))) })),
            2 if stop == 0 || !c.proxy => did.push(("set_server_socket", v.set_server_socket(io()))),
            3 if stop == 0 || c.proxy => did.push(("run", v.run().await)),
            _ => did.push(("verify", v.verify().await.map(|_| ()))),
        }
        ensure!(!p.is_complete() && !v.is_complete(), "complete before the end");
        let mut k = format!("{} {i}", c.proxy);
        for (what, x) in did {
            k.push_str(what);
            o.see(format!("out of order: {what}"));
            state(x, what)?;
        }
        Ok::<_, Fail>(k)
    })??;
    o.key(key);
    Ok(())
}

// ---------------------------------------------------------------- not to plan

/// A request which is none, a server which is not the one asked for, one which does not answer.
fn odd(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let mut c = case(r)?;
    let what = match i % 6 {
        0 => {
            c.req.uri = r.pick(&["", "no spaces here", "/\u{7f}", "http://", "/a b", "\n"]).to_string();
            "no URI"
        }
        1 => {
            let (k, v): (&str, &[u8]) = *r.pick(&[("", &b"x"[..]), ("a b", b"x"), ("a:b", b"x"), ("a", b"x\r\ny: z"), ("a", b"\0"), ("\u{e9}", b"x"), ("a\r\nb", b"")]);
            c.req = c.req.header(k, v);
            "no header"
        }
        2 => {
            let bad = *r.pick(&[srv::Bad::Expired, srv::Bad::Root, srv::Bad::Host]);
            let id = srv::ident(r, &c.host, Some(bad));
            c.srv = Srv::new(id, r);
            "another server"
        }
        3 => {
            c.ans.wire = r.pick(&[&b"nonsense\r\n\r\n"[..], b"HTTP/1.1 20 OK\r\n\r\n", b"HTTP/1.1 200 OK\r\ncontent-length: 50\r\n\r\nshort", b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n5\r\nab"]).to_vec();
            c.closes = true;
            "no response"
        }
        4 => {
            let (a, n) = (r.below(4000), 4000 + r.below(100_000));
            match r.below(4) {
                0 => c.reveal = c.reveal.clone().sent(a..n),
                1 => c.reveal = c.reveal.clone().recv(a..n),
                k => {
                    let x = CommitRange { start: a, end: n, algorithm: HashAlgorithm::Sha256 };
                    c.commit = Some(if k == 2 { Commit { sent: vec![x], recv: vec![] } } else { Commit { sent: vec![], recv: vec![x] } });
                }
            }
            "no such range"
        }
        _ => {
            c.pc = c.pc.clone().max_sent_data(2000).max_recv_data(1).max_recv_data_online(1);
            c.proxy = false;
            c.pc = c.pc.clone().mode(ProverMode::Mpc);
            c.ans.wire = b"HTTP/1.1 200 OK\r\ncontent-length: 200\r\n\r\n".to_vec();
            c.ans.wire.extend(r.bytes(200));
            c.closes = true;
            "too long"
        }
    };
    let ran = run(session(&c, r.u64()))??;
    ensure!(ran.p.out.is_none() && (ran.p.resp.is_none() || i % 6 == 4), "{what}: the caller has a result: {:?}", ran.p.resp);
    let Some((k, e)) = &ran.p.err else { return Err(Fail::from(format!("{what}: no error"))) };
    ensure!(*k != ErrorKind::InvalidState, "{what}: reported as a wrong state: {e}");
    ensure!(ran.v.out.is_none() && !ran.v.complete && !ran.p.complete, "{what}: the verifier has a result");
    if i % 6 < 3
        && let Some(s) = &ran.served
    {
        ensure!(s.srv.app_in.is_empty(), "{what}: the server got data: {:?}", String::from_utf8_lossy(&s.srv.app_in));
    }
    o.see(what);
    o.key(format!("{what} {e} {:?}", ran.v.err));
    Ok(())
}

pub fn m11(cx: &mut Cx) {
    cx.rule(
        "Sessions of SdkProver and SdkVerifier with an HTTP server of our own over our own TLS: the server must get exactly the request \
         the caller described, the caller exactly the response the server wrote, the verifier exactly the ranges the caller chose, and \
         every opening must belong to the range at the same place in the request, by hashes of our own. Settings around every limit of \
         the verifier, steps out of order, requests which are none, servers which are not the right ones.",
    );
    cx.assume("the multiplexer and the libraries for joint computation are stand-ins; HTTP framing is that of hyper");
    cx.require("proxy", 5);
    cx.require("mpc", 10);
    cx.require("repeated headers", 5);
    cx.require("several openings", 8);
    cx.require("beyond a limit", 4);
    cx.require("within the limits", 4);
    cx.cases("honest", 80, 3000, |r, _, o| honest(r, o));
    cx.cases("limits", 25, 600, limits);
    cx.cases("order", 40, 600, order);
    cx.cases("odd", 36, 600, odd);
}
