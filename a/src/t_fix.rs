//! F01/F02 test servers, F03 benchmark plans, F04 data fixtures.

use crate::pki;
use futures::{AsyncReadExt, AsyncWriteExt};
use futures_rustls::{
    TlsConnector,
    client::TlsStream,
    pki_types::{CertificateDer, PrivateKeyDer, ServerName},
    rustls::{self, ClientConfig, RootCertStore},
};
use serde_json::Value;
use std::{
    collections::{HashMap, HashSet},
    sync::Arc,
    time::Duration,
};
use tokio::io::DuplexStream;
use tokio_util::compat::{Compat, TokioAsyncReadCompatExt};
use vfw::{serde_json, serde_json::json, *};

type Stream = TlsStream<Compat<DuplexStream>>;
const LIMIT: Duration = Duration::from_secs(30);

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap()
}

#[derive(Clone, Debug)]
struct Client {
    tls13: bool,
    tls12: bool,
    suite: Option<u16>,
    cert: Option<&'static str>,
    name: &'static str,
}
/// An empty `ca` stands for an authority with the fixtures' name and another key.
fn config(c: &Client, ca: &'static [u8]) -> Arc<ClientConfig> {
    let mut roots = RootCertStore::empty();
    if ca.is_empty() {
        roots.add(CertificateDer::from(tls_server_fixture::CA_CERT_DER)).unwrap();
        let (_, spki, _) = pki::read_tlv(&pki::pool().p256[1].spki).unwrap();
        roots.roots[0].subject_public_key_info = spki.to_vec().into();
    } else {
        roots.add(CertificateDer::from(ca)).unwrap();
    }
    let mut provider = rustls::crypto::ring::default_provider();
    if let Some(s) = c.suite {
        provider.cipher_suites.retain(|x| x.suite().get_u16() == s);
    }
    let mut versions = vec![];
    if c.tls13 {
        versions.push(&rustls::version::TLS13);
    }
    if c.tls12 {
        versions.push(&rustls::version::TLS12);
    }
    let b = ClientConfig::builder_with_provider(Arc::new(provider)).with_protocol_versions(&versions).unwrap().with_root_certificates(roots);
    use tlsn_server_fixture_certs as f;
    Arc::new(match c.cert {
        None => b.with_no_client_auth(),
        Some("good") => b.with_client_auth_cert(vec![f::CLIENT_CERT_DER.into()], PrivateKeyDer::Pkcs8(f::CLIENT_KEY_DER.into())).unwrap(),
        // issued under the name of the trusted authority by another key
        Some(_) => {
            let mut r = R::new(5, "foreign client", 0);
            let der = CertificateDer::from(f::CA_CERT_DER);
            let ca = webpki::anchor_from_trusted_cert(&der).unwrap();
            let mut spec = pki::Spec::ee_spec(&mut r, "client", "-", pki::Sig::Ecdsa(pki::H::Sha256), 1_780_000_000, vec!["test-server.io".into()]);
            spec.issuer = ca.subject.to_vec();
            spec.eku = None;
            spec.not_before = 1_700_000_000;
            spec.not_after = 4_000_000_000;
            let cert = spec.build(&pki::pool().rsa[0], &pki::pool().p256[0], &mut r);
            b.with_client_auth_cert(vec![cert.into()], PrivateKeyDer::Pkcs1(include_bytes!("../keys/rsa2048-1.der").as_slice().into())).unwrap()
        }
    })
}
async fn connect(sock: DuplexStream, c: &Client, ca: &'static [u8]) -> std::io::Result<Stream> {
    TlsConnector::from(config(c, ca)).connect(ServerName::try_from(c.name).unwrap(), sock.compat()).await
}
fn any_client(r: &mut R) -> Client {
    let (tls13, tls12, suite) = match r.below(6) {
        0 => (true, true, None),
        1 => (true, false, None),
        2 => (false, true, None),
        3 => (false, true, Some(0xc02f)),
        4 => (false, true, Some(0xc030)),
        _ => (true, false, Some(0x1301)),
    };
    Client { tls13, tls12, suite, cert: None, name: "test-server.io" }
}

#[derive(Debug)]
struct Resp {
    status: u16,
    headers: HashMap<String, String>,
    body: Vec<u8>,
    complete: bool,
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
/// Parses one response; returns it and how many bytes it took.
fn response(raw: &[u8], head_request: bool) -> Option<(Resp, usize)> {
    let end = find(raw, b"\r\n\r\n")?;
    let head = std::str::from_utf8(&raw[..end]).ok()?;
    let mut lines = head.split("\r\n");
    let mut first = lines.next()?.split(' ');
    if first.next()? != "HTTP/1.1" {
        return None;
    }
    let status = first.next()?.parse().ok()?;
    let headers: HashMap<String, String> = lines.filter_map(|l| l.split_once(':')).map(|(a, b)| (a.to_ascii_lowercase(), b.trim().to_string())).collect();
    let rest = &raw[end + 4..];
    if head_request {
        return Some((Resp { status, headers, body: vec![], complete: true }, end + 4));
    }
    if headers.get("transfer-encoding").is_some_and(|v| v == "chunked") {
        let mut body = vec![];
        let mut at = 0;
        loop {
            let Some(l) = find(&rest[at..], b"\r\n") else { return Some((Resp { status, headers, body, complete: false }, raw.len())) };
            let Ok(n) = usize::from_str_radix(std::str::from_utf8(&rest[at..at + l]).ok()?.trim(), 16) else { return None };
            at += l + 2;
            if rest.len() < at + n + 2 {
                return Some((Resp { status, headers, body, complete: false }, raw.len()));
            }
            body.extend_from_slice(&rest[at..at + n]);
            if &rest[at + n..at + n + 2] != b"\r\n" {
                return None;
            }
            at += n + 2;
            if n == 0 {
                return Some((Resp { status, headers, body, complete: true }, end + 4 + at));
            }
        }
    }
    let n: usize = headers.get("content-length")?.parse().ok()?;
    let got = rest.len().min(n);
    Some((Resp { status, headers, body: rest[..got].to_vec(), complete: got == n }, end + 4 + got))
}
/// How long a sized response is in all, as far as its head says so.
fn announced(raw: &[u8]) -> Option<usize> {
    let end = find(&raw[..raw.len().min(4000)], b"\r\n\r\n")?;
    let head = std::str::from_utf8(&raw[..end]).ok()?.to_ascii_lowercase();
    let n: usize = head.split("\r\n").find_map(|l| l.strip_prefix("content-length:"))?.trim().parse().ok()?;
    Some(end + 4 + n)
}
async fn send_in_pieces(s: &mut (impl futures::AsyncWrite + Unpin), data: &[u8], r: &mut R) -> std::io::Result<()> {
    let mut at = 0;
    let cut = *r.pick(&[1usize, 7, 100, 1024, 5000, usize::MAX]);
    while at < data.len() {
        let max = (data.len() - at).min(cut);
        let n = if cut < 10 && data.len() > 3000 { max.max(300).min(data.len() - at) } else { r.range(1, max) };
        s.write_all(&data[at..at + n]).await?;
        if r.bool() {
            s.flush().await?;
            tokio::task::yield_now().await;
        }
        at += n;
    }
    s.flush().await
}
/// What an exchange brought: the stream, the bytes received, how writing and receiving ended.
struct Exchange {
    s: Stream,
    got: Vec<u8>,
    sent: std::io::Result<()>,
    /// None: `want` bytes arrived first.
    end: Option<std::io::Result<()>>,
}
/// Writes `data` in pieces while reading, until `want` bytes arrived or the peer ended.
async fn exchange(s: Stream, data: Vec<u8>, r: &mut R, want: usize, what: &str) -> Result<Exchange, Fail> {
    let (mut rd, mut wr) = s.split();
    let mut wr_r = R::new(r.u64(), "exchange", 0);
    let (sent, got, end) = {
        let mut writer = Box::pin(send_in_pieces(&mut wr, &data, &mut wr_r));
        let (mut sent, mut end, mut got) = (None, None, vec![]);
        let mut b = [0u8; 4096];
        let all = async {
            // reading goes on as long as writing does: both pipes may be nearly full
            while sent.is_none() || (end.is_none() && got.len() < want) {
                tokio::select! {
                    w = &mut writer, if sent.is_none() => sent = Some(w),
                    n = rd.read(&mut b), if end.is_none() => match n {
                        Ok(0) => end = Some(Ok(())),
                        Ok(n) => got.extend_from_slice(&b[..n]),
                        Err(e) => end = Some(Err(e)),
                    },
                }
            }
        };
        tokio::time::timeout(LIMIT, all).await.map_err(|_| Fail::from(format!("neither the expected answer nor the end of the connection arrives ({what})")))?;
        (sent.unwrap(), got, end)
    };
    let s = rd.reunite(wr).map_err(|_| Fail::Harness("reunite".into()))?;
    Ok(Exchange { s, got, sent, end })
}

// ------------------------------------------------------------------ F01

#[derive(Clone, Debug)]
struct Ask {
    method: &'static str,
    target: String,
    headers: Vec<(String, String)>,
    status: u16,
    ctype: Option<&'static str>,
    body: Body,
    shutdown: bool,
    class: String,
}
#[derive(Clone, Debug)]
enum Body {
    Exact(Vec<u8>),
    Json(Value),
    Any,
}
struct Docs {
    json: HashMap<usize, Value>,
    html: Vec<u8>,
    protected: Value,
    elster: Value,
}
fn docs() -> Result<Docs, Fail> {
    let dir = "/repo/crates/server-fixture/server/src/data";
    let rd = |n: &str| std::fs::read(format!("{dir}/{n}")).map_err(|e| Fail::Harness(format!("{n}: {e}")));
    let js = |n: &str| -> Result<Value, Fail> { serde_json::from_slice(&rd(n)?).map_err(|e| Fail::from(format!("fixture document {n} is not JSON: {e}"))) };
    let mut json = HashMap::new();
    for n in [1usize, 4, 8] {
        json.insert(n, js(&format!("{n}kb.json"))?);
    }
    Ok(Docs { json, html: rd("4kb.html")?, protected: js("protected_data.json")?, elster: js("elster.json")? })
}
const TOKEN: &str = "random_auth_token";

fn any_ask(r: &mut R, d: &Docs) -> Ask {
    let mut a = Ask { method: "GET", target: "/".into(), headers: vec![], status: 200, ctype: None, body: Body::Any, shutdown: false, class: String::new() };
    let mut query: Vec<String> = vec![];
    let mut routed = true;
    match r.below(10) {
        0 => {
            a.body = Body::Exact(b"Hello, World!".to_vec());
            a.ctype = Some("text/plain");
            a.class = "root".into();
        }
        1..=3 => {
            a.target = "/bytes".into();
            a.ctype = Some("application/octet-stream");
            let n = match r.below(7) {
                0 => 0,
                1 => 1,
                2 => *r.pick(&[1023usize, 1024, 4096, 8192, 16383, 16384, 16385, 32768, 65535, 65536]),
                3 if r.chance(1, 3) => r.range(65_536, 700_000),
                _ => r.range(0, 5000),
            };
            let n = if r.chance(1, 8) {
                match r.below(6) {
                    0 => {}
                    1 => query.push("size=".into()),
                    2 => query.push("size=x1".into()),
                    3 => query.push("size=-5".into()),
                    4 => {
                        let n = r.range(2, 3000);
                        let q = *r.pick(&["size={}k", "size={}.0", "size={}e1", "size={}%20", "size=%20{}", "size=0x{}", "size={},5", "size={}_000", "Size={}", "size%20={}"]);
                        query.push(q.replace("{}", &n.to_string()));
                    }
                    _ => query.push("size=99999999999999999999999".into()),
                }
                a.class = "bytes default".into();
                1
            } else {
                let q = match r.below(5) {
                    0 => format!("size=00{n}"),
                    1 => format!("size={}", n.to_string().bytes().map(|b| format!("%{b:02X}")).collect::<String>()),
                    _ => format!("size={n}"),
                };
                query.push(q);
                a.class = format!("bytes {}", if n == 0 { "none" } else if n < 16384 { "small" } else { "many records" });
                n
            };
            a.body = Body::Exact(vec![0x42; n]);
        }
        4 | 5 => {
            a.target = "/formats/json".into();
            let n = *r.pick(&[1usize, 1, 4, 4, 8, 8, 0, 2, 3, 5, 9, 40, 1024]);
            // A size is not cut down to a narrower number.
            let n = if r.chance(1, 4) { *r.clone().pick(&[0usize, 1, 4, 8]) + (1usize << *r.pick(&[3usize, 4, 8, 16, 32, 63])) } else { n };
            if r.chance(1, 6) {
                a.body = Body::Json(d.json[&1].clone());
                a.ctype = Some("application/json");
                a.class = "json default".into();
                if r.bool() {
                    query.push(r.pick(&["size=", "size=x4", "size=4k", "size=8.0", "size=-1", "size=99999999999999999999999", "Size=4", "size=%204"]).to_string());
                }
            } else {
                query.push(format!("size={n}"));
                match d.json.get(&n) {
                    Some(v) => {
                        a.body = Body::Json(v.clone());
                        a.ctype = Some("application/json");
                        a.class = format!("json {n}");
                    }
                    None => {
                        a.status = 404;
                        a.class = "json absent".into();
                    }
                }
            }
        }
        6 => {
            a.target = "/formats/html".into();
            a.body = Body::Exact(d.html.clone());
            a.ctype = Some("text/html");
            a.class = "html".into();
        }
        7 | 8 => {
            let elster = r.bool();
            a.target = if elster { "/elster" } else { "/protected" }.into();
            let good = r.bool();
            if good {
                let k = *r.pick(&["Authorization", "authorization", "AUTHORIZATION"]);
                a.headers.push((k.into(), format!("Bearer {TOKEN}")));
                a.body = Body::Json(if elster { d.elster.clone() } else { d.protected.clone() });
                a.ctype = Some("application/json");
                a.class = format!("authorized {}", a.target);
            } else {
                a.status = 401;
                let n = r.range(1, 30);
                let junk: String = (0..n).map(|_| *r.pick(&b"abcxyz019_-"[..]) as char).collect();
                let v = match r.below(12) {
                    0 => None,
                    1 => Some(String::new()),
                    2 => Some("Bearer".into()),
                    3 => Some(format!("Bearer {TOKEN}x")),
                    4 => Some(format!("Bearer x{TOKEN}")),
                    5 => Some(format!("Bearer {}", &TOKEN[..r.below(TOKEN.len())])),
                    6 => Some(format!("Bearer {}", TOKEN.to_uppercase())),
                    7 => Some(format!("Basic {TOKEN}")),
                    8 => Some(format!("Bearer {junk}")),
                    9 => Some(format!("Bearer {} {TOKEN}", junk)),
                    10 => Some(format!("Bearer {}", TOKEN.replace('_', "-"))),
                    _ => {
                        let mut t = TOKEN.as_bytes().to_vec();
                        let i = r.below(t.len());
                        t[i] ^= 1;
                        Some(format!("Bearer {}", String::from_utf8(t).unwrap()))
                    }
                };
                match v {
                    Some(v) => a.headers.push(("Authorization".into(), v)),
                    // the token somewhere else does not count
                    None if r.bool() => a.headers.push(("X-Authorization".into(), format!("Bearer {TOKEN}"))),
                    None => query.push(format!("token={TOKEN}")),
                }
                a.class = format!("unauthorized {}", a.target);
            }
        }
        _ => {
            a.target = (*r.pick(&["/nothing", "/byte", "/bytes/", "/bytes/5", "/formats", "/formats/", "/formats/xml", "/protecte", "/elster2", "//", "/BYTES", "/formats/json/1"])).into();
            a.status = 404;
            a.class = "unknown route".into();
            routed = false;
        }
    }
    let has_state = a.target == "/bytes" || a.target.starts_with("/formats/json") || a.target.starts_with("/formats/html");
    if routed && a.status != 401 && r.chance(1, 12) {
        a.method = *r.pick(&["POST", "PUT", "DELETE", "PATCH"]);
        a.headers.retain(|h| !h.0.eq_ignore_ascii_case("authorization") || r.bool());
        a.status = 405;
        a.body = Body::Any;
        a.ctype = None;
        a.class = "wrong method".into();
    } else if routed && has_state && r.chance(1, 10) {
        query.push((*r.pick(&["shutdown", "shutdown=1", "shutdown=false"])).into());
        a.shutdown = true;
    } else if a.status == 200 && r.chance(1, 12) {
        a.method = "HEAD";
        a.class = "head".into();
    }
    if r.chance(1, 3) {
        query.push(format!("other={}", r.u32()));
    }
    r.shuffle(&mut query);
    if !query.is_empty() {
        a.target = format!("{}?{}", a.target, query.join("&"));
    }
    a
}
fn render(a: &Ask, r: &mut R) -> Vec<u8> {
    let mut s = format!("{} {} HTTP/1.1\r\nHost: test-server.io\r\n", a.method, a.target);
    let mut hs = a.headers.clone();
    for i in 0..r.below(4) {
        hs.push((format!("X-Filler-{i}"), "v".repeat(r.below(300))));
    }
    r.shuffle(&mut hs);
    for (k, v) in hs {
        s += &format!("{k}: {v}\r\n");
    }
    if a.method != "GET" && a.method != "HEAD" {
        s += "Content-Length: 0\r\n";
    }
    (s + "\r\n").into_bytes()
}
fn judge(a: &Ask, raw: &[u8]) -> Result<(), Fail> {
    let what = format!("{} {} ({})", a.method, a.target, a.class);
    let head = a.method == "HEAD";
    let Some((resp, used)) = response(raw, head) else {
        if a.shutdown {
            return Ok(()); // the connection may be torn down before the answer is written
        }
        return Err(Fail::from(format!("no well-formed answer ({what}): {:?}", String::from_utf8_lossy(&raw[..raw.len().min(300)]))));
    };
    ensure_eq!(resp.status, a.status, "status of the answer ({what})");
    ensure!(used == raw.len(), "bytes follow the answer ({what}): {}", raw.len() - used);
    if let Some(t) = a.ctype {
        let got = resp.headers.get("content-type").cloned().unwrap_or_default();
        ensure!(got.split(';').next().unwrap().trim() == t, "content type ({what}): {got}");
    }
    let want_len = match (&a.body, head) {
        (Body::Exact(b), _) => Some(b.len()),
        _ => None,
    };
    if let (Some(n), Some(l)) = (want_len, resp.headers.get("content-length")) {
        ensure_eq!(l.clone(), n.to_string(), "announced length ({what})");
    }
    if head {
        return Ok(());
    }
    if !resp.complete {
        ensure!(a.shutdown, "answer is cut short ({what}): {} body bytes", resp.body.len());
        if let Body::Exact(b) = &a.body {
            ensure!(b.starts_with(&resp.body), "partial answer differs ({what})");
        }
        return Ok(());
    }
    match &a.body {
        Body::Exact(b) => ensure!(&resp.body == b, "body ({what}): {} bytes, expected {}", resp.body.len(), b.len()),
        Body::Json(v) => {
            let got: Value = serde_json::from_slice(&resp.body).map_err(|e| format!("body is not JSON ({what}): {e}"))?;
            ensure_eq!(got, *v, "document ({what})");
        }
        Body::Any => {
            // refusals must not carry protected content
            let t = String::from_utf8_lossy(&resp.body).to_string();
            ensure!(a.status != 401 || t.len() < 100, "a refusal carries content ({what}): {t}");
        }
    }
    Ok(())
}

pub fn f01(cx: &mut Cx) {
    cx.rule("Requests to every route with sizes, queries, tokens, methods and header orders drawn at random, sent in pieces over TLS 1.2/1.3 through pipes of random capacity, several connections at once, some ended by shutdown, by the client or by a bad handshake; each answer is judged against a route table and the documents on disk. Non-trivial = a distinct request.");
    cx.cases("requests", 260, 4_000, |r, _, obs| {
        let d = docs()?;
        let n = r.range(1, 6);
        let mut jobs = vec![];
        for i in 0..n {
            let cr = R::new(r.u64(), "conn", i as u64);
            let ask = any_ask(r, &d);
            let mut c = any_client(r);
            c.cert = match r.below(8) {
                0 | 1 => Some("good"),
                2 => Some("bad"),
                _ => None,
            };
            let fate = r.below(12); // 0: client leaves after the handshake, 1: garbage instead of a handshake
            jobs.push((cr, ask, c, fate));
        }
        obs.input(json!(jobs.iter().map(|j| format!("{} {} {:?} fate {}", j.1.method, j.1.target, j.2, j.3)).collect::<Vec<_>>()));
        let out: Result<Vec<Vec<String>>, Fail> = rt().block_on(async {
            let mut tasks = vec![];
            for (mut cr, ask, c, fate) in jobs.clone() {
                tasks.push(tokio::spawn(async move {
                    let mut seen = vec![];
                    let (a, b) = tokio::io::duplex(*cr.pick(&[64usize, 500, 4096, 20_000, 1 << 20]));
                    let server = tokio::spawn(tlsn_server_fixture::bind(b.compat()));
                    let ca = tlsn_server_fixture_certs::CA_CERT_DER;
                    if fate == 1 {
                        let mut a = a;
                        let n = cr.range(5, 60);
                        let junk = cr.bytes(n);
                        use tokio::io::AsyncWriteExt as _;
                        let _ = a.write_all(&junk).await;
                        drop(a);
                        let end = tokio::time::timeout(LIMIT, server).await.map_err(|_| Fail::from("the server does not end after a bad handshake"))?;
                        let end = end.map_err(|e| Fail::from(format!("the server panicked on a bad handshake: {e}")))?;
                        ensure!(end.is_err(), "a garbage handshake counts as a served connection");
                        seen.push("garbage handshake".to_string());
                        return Ok(seen);
                    }
                    let conn = tokio::time::timeout(LIMIT, connect(a, &c, ca)).await.map_err(|_| Fail::from("handshake does not finish"))?;
                    if c.cert == Some("bad") {
                        // a foreign client certificate must not be served
                        let mut got = vec![];
                        if let Ok(s) = conn {
                            let req = render(&ask, &mut cr);
                            got = exchange(s, req, &mut cr, usize::MAX, "foreign certificate").await?.got;
                        }
                        ensure!(got.is_empty(), "a client with a foreign certificate was served");
                        let end = tokio::time::timeout(LIMIT, server).await.map_err(|_| Fail::from("the server does not end after refusing a client"))?;
                        ensure!(matches!(end, Ok(Err(_))), "refusing a client is not reported as an error");
                        seen.push("foreign client certificate".into());
                        return Ok(seen);
                    }
                    let s = conn.map_err(|e| Fail::from(format!("the server refuses a client: {e} ({c:?})")))?;
                    if c.cert.is_some() {
                        seen.push("client certificate".into());
                    }
                    seen.push(format!("tls {:?}", s.get_ref().1.protocol_version().unwrap()));
                    if fate == 0 {
                        drop(s);
                        let end = tokio::time::timeout(LIMIT, server).await.map_err(|_| Fail::from("the server does not end after the client left"))?;
                        ensure!(end.is_ok(), "the server panicked when the client left");
                        seen.push("client left".into());
                        return Ok(seen);
                    }
                    let req = render(&ask, &mut cr);
                    let x = exchange(s, req, &mut cr, usize::MAX, &ask.class).await?;
                    // a server that was told to shut down may be gone before the last flush
                    if let (Err(e), false) = (&x.sent, ask.shutdown) {
                        return Err(Fail::from(format!("request cannot be written ({}): {e}", ask.class)));
                    }
                    let got = x.got;
                    drop(x.s);
                    judge(&ask, &got)?;
                    let end = tokio::time::timeout(LIMIT, server).await.map_err(|_| Fail::from("the server does not end with the connection"))?;
                    ensure!(matches!(end, Ok(Ok(()))), "serving ended abnormally ({}): {end:?}", ask.class);
                    seen.push(if ask.shutdown { "shutdown".into() } else { ask.class.clone() });
                    Ok(seen)
                }));
            }
            let mut all = vec![];
            for t in tasks {
                all.push(t.await.map_err(|e| Fail::Harness(format!("client task: {e}")))??);
            }
            Ok(all)
        });
        for (i, s) in out?.into_iter().enumerate() {
            for x in s {
                obs.see(x);
            }
            obs.key(format!("{} {}", jobs[i].1.method, jobs[i].1.target));
        }
        obs.evals(n as u64 - 1);
        if n > 1 {
            obs.see("concurrent connections");
        }
        Ok(())
    });
    // answers of many megabytes
    cx.cases("large answers", 4, 16, |r, idx, obs| {
        let n = match idx {
            0 => (1 << 24) + 1 + r.below(100_000),
            1 => 1 << 20,
            2 => (1 << 20) + 1,
            3 => r.range(2_000_000, 9_000_000),
            4 => 67_108_865,
            _ => r.range(1 << 20, 40 << 20),
        };
        let c = any_client(r);
        obs.input(json!({"size": n, "client": format!("{c:?}")}));
        obs.key(n.to_be_bytes());
        let req = format!("GET /bytes?size={n} HTTP/1.1\r\nHost: test-server.io\r\n\r\n");
        let got: Result<Vec<u8>, Fail> = rt().block_on(async {
            use futures::{AsyncReadExt as _, AsyncWriteExt as _};
            let (a, b) = tokio::io::duplex(1 << 20);
            let server = tokio::spawn(tlsn_server_fixture::bind(b.compat()));
            let all = async {
                let mut s = connect(a, &c, tlsn_server_fixture_certs::CA_CERT_DER).await.map_err(|e| Fail::from(format!("the server refuses a client: {e} ({c:?})")))?;
                s.write_all(req.as_bytes()).await.map_err(|e| Fail::from(format!("request cannot be written: {e}")))?;
                s.flush().await.map_err(|e| Fail::from(format!("request cannot be written: {e}")))?;
                let mut got = Vec::with_capacity(n + 1000);
                let mut b = vec![0u8; 1 << 16];
                while let Ok(k @ 1..) = s.read(&mut b).await {
                    got.extend_from_slice(&b[..k]);
                }
                Ok(got)
            };
            let got = tokio::time::timeout(4 * LIMIT, all).await.map_err(|_| Fail::from("a large answer does not arrive"))?;
            server.abort();
            got
        });
        let got = got?;
        let Some((resp, used)) = response(&got, false) else {
            return Err(Fail::from(format!("no well-formed answer to a request of {n} bytes")));
        };
        ensure_eq!(resp.status, 200, "status of the answer (size {n})");
        ensure!(used == got.len() && resp.complete, "answer is cut short or followed by bytes (size {n}): {} of {}", resp.body.len(), got.len());
        ensure_eq!(resp.body.len(), n, "length of a large body");
        ensure!(resp.body.iter().all(|b| *b == 0x42), "content of a large body (size {n})");
        obs.add("large answer bytes", n as u64);
        Ok(())
    });
    // a server told to shut down does not wait for its client
    cx.cases("told to shut down", 40, 400, |r, idx, obs| {
        let (path, own) = [("/bytes", "size=300000"), ("/formats/json", "size=8"), ("/formats/html", "x=1"), ("/formats/json", "size=1"), ("/bytes", "size=2000"), ("/formats/json", "size=7")][idx as usize % 6];
        let mut q = vec![(*r.pick(&["shutdown", "shutdown=1", "shutdown=false", "shutdown=", "%73hutdown"])).to_string()];
        if idx % 12 >= 3 || own == "size=7" {
            q.push(own.into());
        }
        if r.bool() {
            q.push("other=2".into());
        }
        r.shuffle(&mut q);
        let target = format!("{path}?{}", q.join("&"));
        let c = Client { tls13: false, tls12: true, suite: None, cert: None, name: "test-server.io" };
        let cap = *r.pick(&[16usize, 64, 150]);
        let whole = r.bool();
        obs.key(format!("{target}{cap}"));
        obs.input(json!({"target": target, "pipe": cap}));
        rt().block_on(async {
            use futures::AsyncWriteExt as _;
            let (a, b) = tokio::io::duplex(cap);
            let server = tokio::spawn(tlsn_server_fixture::bind(b.compat()));
            let all = async {
                let mut s = connect(a, &c, tlsn_server_fixture_certs::CA_CERT_DER).await.map_err(|e| Fail::from(format!("the server refuses a client: {e} ({c:?})")))?;
                let req = format!("GET {target} HTTP/1.1\r\nHost: test-server.io\r\n\r\n");
                let _ = s.write_all(req.as_bytes()).await;
                let _ = s.flush().await;
                // the client goes on waiting, without reading
                let end = server.await;
                if whole {
                    drop(s);
                }
                Ok::<_, Fail>(end)
            };
            let end = tokio::time::timeout(LIMIT, all).await.map_err(|_| Fail::from(format!("a server told to shut down waits for a client which does not read ({target})")))??;
            ensure!(matches!(end, Ok(Ok(()))), "a server told to shut down ends abnormally ({target}): {end:?}");
            obs.see(format!("shut down by {path}"));
            Ok(())
        })
    });
    for c in ["/bytes", "/formats/json", "/formats/html"] {
        cx.require(&format!("shut down by {c}"), 5);
    }
    cx.cases("documents", 1, 1, |_, _, obs| {
        let d = docs()?;
        let size = |n: usize| std::fs::metadata(format!("/repo/crates/server-fixture/server/src/data/{n}kb.json")).map(|m| m.len() as usize).unwrap_or(0);
        for n in [1, 4, 8] {
            ensure!(size(n).abs_diff(n * 1024) < 1024, "the {n} kB document has {} bytes", size(n));
            obs.key(d.json[&n].to_string());
        }
        obs.see("document sizes");
        Ok(())
    });
    for c in ["root", "bytes none", "bytes small", "bytes many records", "bytes default", "json 1", "json 4", "json 8", "json absent", "html", "authorized /protected", "authorized /elster", "unauthorized /protected", "unauthorized /elster", "unknown route", "wrong method", "head", "shutdown", "client left", "garbage handshake", "client certificate", "foreign client certificate", "tls TLSv1_2", "tls TLSv1_3", "concurrent connections"] {
        cx.require(c, 3);
    }
}

// ------------------------------------------------------------------ F02

fn record(text: &str) -> Vec<u8> {
    let mut v = text.as_bytes().to_vec();
    v.resize(tls_server_fixture::APP_RECORD_LENGTH, 0);
    v
}
const ENDINGS: &[&str] = &["send_close_notify", "send_close_notify_and_close_socket", "close_socket", "send_corrupted_message", "send_record_with_bad_mac", "send_alert", "client closes", "client drops"];

async fn raw_session(mut r: R, ending: &'static str, delay: bool) -> Result<Vec<String>, Fail> {
    let mut seen = vec![];
    let (a, b) = tokio::io::duplex(*r.pick(&[64usize, 1000, 8192, 1 << 20]));
    let server = tokio::spawn(tls_server_fixture::bind_test_server(b.compat()));
    let mut c = any_client(&mut r);
    if ending == "send_record_with_bad_mac" || ending == "send_alert" {
        // the injected record is a TLS 1.2 one
        c.tls13 = false;
        c.tls12 = true;
        c.suite = Some(*r.pick(&[0xc02f, 0xc030, 0xcca8]));
    }
    let mut s = tokio::time::timeout(LIMIT, connect(a, &c, tls_server_fixture::CA_CERT_DER))
        .await
        .map_err(|_| Fail::from("handshake does not finish"))?
        .map_err(|e| Fail::from(format!("the raw TLS server refuses a client: {e} ({c:?})")))?;
    seen.push(format!("raw {:?}", s.get_ref().1.protocol_version().unwrap()));
    // a client that vanishes during the handshake is not a session
    let n = if ending == "client drops" { r.range(1, 8) } else { r.below(8) };
    let mut data = vec![];
    for _ in 0..n {
        let l = r.len(1024);
        let text: String = (0..l).map(|_| (b' ' + r.below(95) as u8) as char).collect();
        let text = if ENDINGS.contains(&text.as_str()) || text == "must_delay_when_closing" { "x".into() } else { text };
        data.extend(record(&text));
    }
    if delay {
        let at = r.below(n + 1) * 1024;
        let tail = data.split_off(at);
        data.extend(record("must_delay_when_closing"));
        data.extend(tail);
    }
    let w = |e: std::io::Error| Fail::from(format!("command cannot be written: {e}"));
    let x = exchange(s, data, &mut r, n * 5, "commands").await?;
    x.sent.map_err(w)?;
    let (s, got) = (x.s, x.got);
    ensure!(x.end.is_none(), "the server ended after {} of {n} answers: {:?}", got.len() / 5, x.end);
    ensure_eq!(String::from_utf8_lossy(&got).to_string(), "hello".repeat(n), "answers to {n} commands");
    seen.push(format!("commands {}", n.min(3)));
    let t0 = std::time::Instant::now();
    match ending {
        "client closes" => {
            let (mut rd, mut wr) = s.split();
            let mut rest = vec![];
            let _ = tokio::time::timeout(LIMIT, async { tokio::join!(wr.close(), rd.read_to_end(&mut rest)) })
                .await
                .map_err(|_| Fail::from("the server does not end after the client closed"))?;
            ensure!(rest.is_empty(), "unasked bytes after the client closed");
        }
        "client drops" => {
            // half a record: must not be executed
            let k = r.below(1024);
            let half = record("x");
            let x = exchange(s, half[..k].to_vec(), &mut r, 0, "half a record").await?;
            ensure!(x.got.is_empty(), "half a record was answered");
            drop(x);
        }
        cmd => {
            let x = exchange(s, record(cmd), &mut r, usize::MAX, cmd).await?;
            // the server may be gone before the last flush
            drop(x.sent);
            let (rest, end) = (x.got, x.end.unwrap());
            ensure!(rest.is_empty(), "unasked bytes after {cmd}");
            let text = end.as_ref().err().map(|e| format!("{e:?}")).unwrap_or_else(|| "clean end".into());
            let ok = match cmd {
                "send_close_notify" | "send_close_notify_and_close_socket" => end.is_ok(),
                "close_socket" => end.as_ref().is_err_and(|e| e.kind() == std::io::ErrorKind::UnexpectedEof),
                "send_corrupted_message" => text.contains("InvalidMessage") || text.contains("InvalidContentType"),
                "send_record_with_bad_mac" => text.contains("DecryptError"),
                _ => text.contains("AlertReceived(BadRecordMac)"),
            };
            ensure!(ok, "what the client sees after {cmd}: {text}");
        }
    }
    let end = tokio::time::timeout(LIMIT, server).await.map_err(|_| Fail::from(format!("the server does not end ({ending})")))?;
    ensure!(end.is_ok(), "the server panicked ({ending}): {end:?}");
    let took = t0.elapsed();
    if delay && ending.starts_with("client") {
        ensure!(took >= Duration::from_millis(tls_server_fixture::CLOSE_DELAY - 100), "the socket was closed after {took:?} although a delay was asked for");
        seen.push("delayed close".into());
    }
    seen.push(format!("ending {ending}"));
    Ok(seen)
}

async fn echo_session(mut r: R) -> Result<Vec<String>, Fail> {
    let mut seen = vec![];
    let (a, b) = tokio::io::duplex(*r.pick(&[64usize, 1000, 8192, 1 << 20]));
    let server = tokio::spawn(tls_server_fixture::bind_test_server_hyper(b.compat()));
    let c = any_client(&mut r);
    let s = tokio::time::timeout(LIMIT, connect(a, &c, tls_server_fixture::CA_CERT_DER))
        .await
        .map_err(|_| Fail::from("handshake does not finish"))?
        .map_err(|e| Fail::from(format!("the echo server refuses a client: {e} ({c:?})")))?;
    let (mut rd, mut wr) = s.split();
    let n = r.range(1, 5);
    let mut wants = vec![];
    let mut out = vec![];
    for _ in 0..n {
        let l = match r.below(6) {
            0 => 0,
            1 => *r.pick(&[1usize, 1024, 16384, 16385, 65536]),
            2 if r.chance(1, 3) => r.range(65_536, 400_000),
            3 if r.chance(1, 8) => r.range(400_000, 5_000_000),
            _ => r.range(0, 4000),
        };
        let body = match r.below(3) {
            0 => (0..l).map(|_| b'a' + r.below(26) as u8).collect(),
            _ => r.bytes(l),
        };
        let (method, path, status, want): (&str, &str, u16, Option<Vec<u8>>) = match r.below(8) {
            0 => ("POST", "/echo/uppercase", 200, Some(body.iter().map(|b| if (b'a'..=b'z').contains(b) { b - 32 } else { *b }).collect())),
            1 => ("POST", "/echo/reversed", 200, Some(body.iter().rev().copied().collect())),
            2 => ("GET", "/", 200, None),
            3 => (*r.pick(&["GET", "PUT"]), "/echo", 404, Some(vec![])),
            4 => ("POST", *r.pick(&["/", "/nothing", "/echo/", "/echo/upper", "/Echo"]), 404, Some(vec![])),
            _ => ("POST", "/echo", 200, Some(body.clone())),
        };
        // an unread body would end the connection
        let body = if status == 404 { vec![] } else { body };
        seen.push(format!("{method} {path} {status}"));
        out.extend(format!("{method} {path} HTTP/1.1\r\nHost: test-server.io\r\n").into_bytes());
        if method == "GET" {
            out.extend(b"\r\n");
        } else if status == 404 || r.bool() {
            out.extend(format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes());
            out.extend(&body);
        } else {
            out.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            let mut at = 0;
            while at < body.len() {
                let k = if body.len() > 400_000 { body.len() - at } else { r.range(1, (body.len() - at).min(*r.clone().pick(&[1000usize, 5000, 70_000]))) };
                out.extend(format!("{k:x}\r\n").into_bytes());
                out.extend(&body[at..at + k]);
                out.extend(b"\r\n");
                at += k;
            }
            out.extend(b"0\r\n\r\n");
            seen.push("chunked request".into());
        }
        wants.push((method, path, status, want));
        seen.push(format!("echo size bucket {}", body.len().max(1).ilog10()));
    }
    // writing and reading run side by side
    let wants2 = wants.clone();
    let mut wr2 = r.clone();
    let writer = async move {
        let mut at = 0;
        while at < out.len() {
            let k = if out.len() > 400_000 { (out.len() - at).min(1 << 20) } else { wr2.range(1, (out.len() - at).min(9000)) };
            wr.write_all(&out[at..at + k]).await?;
            if wr2.bool() {
                wr.flush().await?;
            }
            at += k;
        }
        wr.flush().await?;
        Ok::<_, std::io::Error>(wr)
    };
    let reader = async move {
        let mut buf: Vec<u8> = vec![];
        for (i, (m, p, status, want)) in wants2.iter().enumerate() {
            let mut scanned = 0;
            let resp = loop {
                // long answers are parsed again only where they may have come to an end
                let grown = &buf[buf.len().min(scanned).saturating_sub(8)..];
                let first = scanned == 0;
                scanned = buf.len();
                if buf.len() < 100_000 || first || find(grown, b"0\r\n\r\n").is_some() || announced(&buf).is_some_and(|n| buf.len() >= n) {
                    if let Some((resp, used)) = response(&buf, false) {
                        if resp.complete {
                            buf.drain(..used);
                            break resp;
                        }
                    }
                }
                let mut b = [0u8; 8192];
                let k = tokio::time::timeout(LIMIT, rd.read(&mut b)).await.map_err(|_| Fail::from(format!("no answer to request {i} ({m} {p})")))?;
                let k = k.map_err(|e| Fail::from(format!("connection breaks at request {i} ({m} {p}): {e}")))?;
                ensure!(k > 0, "connection ends before request {i} of {} ({m} {p}) is answered", wants2.len());
                buf.extend_from_slice(&b[..k]);
            };
            ensure_eq!(resp.status, *status, "status of {m} {p}");
            match want {
                Some(w) => ensure!(&resp.body == w, "body of {m} {p}: {} bytes, expected {}; first difference at {:?}", resp.body.len(), w.len(), resp.body.iter().zip(w).position(|(a, b)| a != b)),
                None => ensure!(find(&resp.body, b"/echo").is_some(), "instructions page is {:?}", String::from_utf8_lossy(&resp.body)),
            }
        }
        ensure!(buf.is_empty(), "bytes follow the last answer");
        Ok(rd)
    };
    let writer = async { writer.await.map_err(|e| Fail::from(format!("request cannot be written: {e}"))) };
    let (mut wr, mut rd) = tokio::try_join!(writer, reader)?;
    if n > 1 {
        seen.push("several requests on a connection".into());
    }
    let mut b = [0u8; 100];
    let _ = tokio::time::timeout(LIMIT, async { tokio::join!(wr.close(), rd.read(&mut b)) }).await.map_err(|_| Fail::from("the echo server does not end with the connection"))?;
    drop((rd, wr));
    let end = tokio::time::timeout(LIMIT, server).await.map_err(|_| Fail::from("the echo server does not end with the connection"))?;
    ensure!(end.is_ok(), "the echo server panicked: {end:?}");
    Ok(seen)
}

pub fn f02(cx: &mut Cx) {
    cx.rule("Raw TLS sessions (0-7 padded commands, every ending) and echo sessions (1-5 pipelined requests of 0-400 kB, sized or chunked), several at once, over pipes of random capacity and TLS 1.2/1.3 with several suites; the client checks every answer and how the session ended. The fixture certificates are verified by this repository's verifier. Non-trivial = a distinct session.");
    cx.assume("rustls and hyper, which carry the sessions, are trusted");
    let run_all = |jobs: Vec<std::pin::Pin<Box<dyn Future<Output = Result<Vec<String>, Fail>> + Send>>>| -> Result<Vec<Vec<String>>, Fail> {
        rt().block_on(async {
            let tasks: Vec<_> = jobs.into_iter().map(tokio::spawn).collect();
            let mut all = vec![];
            for t in tasks {
                all.push(t.await.map_err(|e| Fail::Harness(format!("client task: {e}")))??);
            }
            Ok(all)
        })
    };
    cx.cases("sessions", 160, 2_500, |r, idx, obs| {
        let n = r.range(2, 6);
        let mut jobs: Vec<std::pin::Pin<Box<dyn Future<Output = Result<Vec<String>, Fail>> + Send>>> = vec![];
        for i in 0..n {
            let cr = R::new(r.u64(), "session", i as u64);
            let ending = *r.pick(ENDINGS);
            if idx % 16 == 0 && i == 0 {
                let ending = if r.bool() { "client closes" } else { "client drops" };
                jobs.push(Box::pin(raw_session(cr, ending, true)));
            } else if r.bool() {
                jobs.push(Box::pin(echo_session(cr)));
            } else {
                jobs.push(Box::pin(raw_session(cr, ending, idx % 16 == 0 && r.bool())));
            }
        }
        for s in run_all(jobs)? {
            obs.key(format!("{idx} {s:?}"));
            for x in s {
                obs.see(x);
            }
        }
        obs.evals(n as u64 - 1);
        Ok(())
    });
    cx.cases("wrong name or authority", 40, 300, |r, _, obs| {
        // a client that expects another name or another authority must not be satisfied
        let mut c = any_client(r);
        let wrong_ca = r.bool();
        if !wrong_ca {
            c.name = *r.pick(&["test-server.com", "a.test-server.io", "est-server.io", "localhost"]);
        }
        let kind = r.below(3);
        let res: Result<(), Fail> = rt().block_on(async {
            let (a, b) = tokio::io::duplex(4096);
            let (ours, theirs): (&'static [u8], &'static [u8]) = (tlsn_server_fixture_certs::CA_CERT_DER, tls_server_fixture::CA_CERT_DER);
            let (server, ca) = match kind {
                0 => (tokio::spawn(async move { drop(tlsn_server_fixture::bind(b.compat()).await) }), if wrong_ca { &[] } else { ours }),
                1 => (tokio::spawn(tls_server_fixture::bind_test_server(b.compat())), if wrong_ca { &[] } else { theirs }),
                _ => (tokio::spawn(async move { drop(tls_server_fixture::bind_test_server_hyper(b.compat()).await) }), if wrong_ca { &[] } else { theirs }),
            };
            let got = tokio::time::timeout(LIMIT, connect(a, &c, ca)).await.map_err(|_| Fail::from("handshake does not finish"))?;
            ensure!(got.is_err(), "server {kind} satisfies a client that expects {} under {}", c.name, if wrong_ca { "another authority" } else { "its own authority" });
            drop(got);
            ensure!(tokio::time::timeout(LIMIT, server).await.is_ok(), "server {kind} does not end after a failed handshake");
            Ok(())
        });
        let _ = take_panic();
        res?;
        obs.see(if wrong_ca { "wrong authority" } else { "wrong name" });
        obs.key(format!("{kind} {} {wrong_ca} {c:?}", c.name));
        Ok(())
    });
    cx.cases("certificates", 1, 1, |_, _, obs| {
        use tls_core::{anchors::*, key::Certificate, verify::*};
        use tlsn_server_fixture_certs as f;
        let at = |y: u64| std::time::UNIX_EPOCH + Duration::from_secs((y - 1970) * 31_557_600);
        for (label, ca, cert, host) in [
            ("server fixture", f::CA_CERT_DER, f::SERVER_CERT_DER, f::SERVER_DOMAIN),
            ("server fixture client", f::CA_CERT_DER, f::CLIENT_CERT_DER, f::SERVER_DOMAIN),
            ("tls fixture", tls_server_fixture::CA_CERT_DER, tls_server_fixture::SERVER_CERT_DER, tls_server_fixture::SERVER_DOMAIN),
        ] {
            let mut store = RootCertStore::empty();
            let der = CertificateDer::from(ca);
            store.roots.push(webpki::anchor_from_trusted_cert(&der).map_err(|e| format!("{label} authority is not a trust anchor: {e:?}"))?.to_owned());
            let v = WebPkiVerifier::new(store, None);
            let n = tls_core::dns::ServerName::try_from(host).unwrap();
            let res = v.verify_server_cert(&Certificate(cert.to_vec()), &[], &n, &mut std::iter::empty(), &[], at(2026));
            if label != "server fixture client" {
                ensure!(res.is_ok(), "{label} certificate does not verify for {host}: {res:?}");
                ensure!(v.verify_server_cert(&Certificate(cert.to_vec()), &[], &n, &mut std::iter::empty(), &[], at(2020)).is_err(), "{label} certificate verifies before it is valid");
                let other = tls_core::dns::ServerName::try_from("example.org").unwrap();
                ensure!(v.verify_server_cert(&Certificate(cert.to_vec()), &[], &other, &mut std::iter::empty(), &[], at(2026)).is_err(), "{label} certificate verifies for another name");
            }
            obs.key(cert);
            obs.see("fixture certificate");
            obs.evals(1);
        }
        // keys belong to the certificates
        for (label, cert, key) in [("server", f::SERVER_CERT_DER, f::SERVER_KEY_DER), ("client", f::CLIENT_CERT_DER, f::CLIENT_KEY_DER), ("tls", tls_server_fixture::SERVER_CERT_DER, tls_server_fixture::SERVER_KEY_DER)] {
            let pair = ring::signature::RsaKeyPair::from_pkcs8(key).map_err(|e| format!("{label} key does not parse: {e}"))?;
            let public: &[u8] = pair.public().as_ref();
            ensure!(find(cert, public).is_some(), "{label} key does not belong to its certificate");
            obs.evals(1);
        }
        Ok(())
    });
    for e in ENDINGS {
        cx.require(&format!("ending {e}"), 3);
    }
    for e in ["raw TLSv1_2", "raw TLSv1_3", "commands 0", "commands 3", "delayed close", "POST /echo 200", "POST /echo/uppercase 200", "POST /echo/reversed 200", "GET / 200", "chunked request", "several requests on a connection", "wrong name", "wrong authority", "fixture certificate"] {
        cx.require(e, 1);
    }
}

// ------------------------------------------------------------------ F03

const FIELDS: &[(&str, &str)] = &[
    ("protocol_latency", "n"),
    ("app_latency", "n"),
    ("bandwidth", "n"),
    ("upload-size", "n"),
    ("download-size", "n"),
    ("defer-decryption", "b"),
    ("memory-profile", "b"),
    ("reveal-all", "b"),
    ("proxy", "b"),
];
fn defaults(k: &str) -> Value {
    match k {
        "protocol_latency" | "app_latency" => json!(50),
        "bandwidth" => json!(1000),
        "upload-size" => json!(1024),
        "download-size" => json!(4096),
        "defer-decryption" => json!(true),
        _ => json!(false),
    }
}
fn settings(r: &mut R, p: usize) -> serde_json::Map<String, Value> {
    let mut m = serde_json::Map::new();
    for (k, t) in FIELDS {
        if r.chance(p, 10) {
            m.insert(k.to_string(), if *t == "b" { json!(r.bool()) } else { json!(*r.clone().pick(&[0usize, 1, 7, 50, 1000, 1 << 20]) + r.below(3)) });
        }
    }
    m
}

pub fn f03(cx: &mut Cx) {
    use harness_core::{bench::*, network::*, rpc::*, test::*, *};
    cx.rule("Random benchmark files (groups and entries with any subset of settings, names shared between entries) read by the real deserializer and expanded; the expected plan is an independent expansion. Random metrics and messages of the control protocol survive a round trip; every subnet size and random positions give a network layout that is checked address by address. Non-trivial = a distinct file, subnet or message.");
    cx.cases("plans", 6_000, 100_000, |r, _, obs| {
        let g = r.below(5);
        let mut groups: Vec<serde_json::Map<String, Value>> = vec![];
        // names of which one begins another, or that sort oddly
        let mut pool = ["a", "ab", "abc", "b", "g1", "g10", "g2", "A", "é", "a b", ""];
        r.shuffle(&mut pool);
        for i in 0..g {
            let p = r.below(11);
            let mut m = settings(r, p);
            m.insert("name".into(), json!(pool[i]));
            if r.bool() {
                m.insert("samples".into(), json!(r.below(5)));
            }
            groups.push(m);
        }
        let n = r.below(8);
        let mut items: Vec<serde_json::Map<String, Value>> = vec![];
        for i in 0..n {
            let p = r.below(11);
            let mut m = settings(r, p);
            if g > 0 && r.chance(2, 3) {
                m.insert("group".into(), r.pick(&groups)["name"].clone());
            }
            if r.bool() {
                m.insert("name".into(), json!(*r.pick(&["a", "ab", "bc", "c", "b10", "b2", "", "B"])));
            }
            if r.bool() {
                m.insert("samples".into(), json!(r.below(4)));
            }
            let _ = i;
            items.push(m);
        }
        let file = json!({"group": groups, "bench": items});
        obs.input(file.clone());
        let parsed: BenchItems = serde_json::from_value(file.clone()).map_err(|e| format!("a benchmark file is refused: {e}"))?;
        let (samples, over) = (r.below(4), r.bool());
        let got = quiet(|| parsed.to_benches(samples, over))?;
        let mut want: Vec<Value> = vec![];
        for it in &items {
            let grp = it.get("group").and_then(|n| groups.iter().find(|g| g["name"] == *n));
            let pick = |k: &str| it.get(k).or_else(|| grp.and_then(|g| g.get(k))).cloned();
            let count = if over { samples } else { pick("samples").and_then(|v| v.as_u64()).map(|v| v as usize).unwrap_or(samples) };
            let mut m = serde_json::Map::new();
            m.insert("group".into(), it.get("group").cloned().unwrap_or(Value::Null));
            m.insert("name".into(), it.get("name").cloned().unwrap_or(Value::Null));
            for (k, _) in FIELDS {
                m.insert(k.to_string(), pick(k).unwrap_or(defaults(k)));
                obs.see(if it.contains_key(*k) { "entry setting" } else if grp.is_some_and(|g| g.contains_key(*k)) { "group setting" } else { "default setting" });
            }
            for _ in 0..count {
                want.push(Value::Object(m.clone()));
            }
        }
        let got: Vec<Value> = got.iter().map(|b| serde_json::to_value(b).unwrap()).collect();
        ensure_eq!(got.len(), want.len(), "number of measurements (default samples {samples}, override {over})");
        // ordered by group and name; entries with the same group and name keep their order
        let key = |v: &Value| (v["group"].as_str().map(String::from), v["name"].as_str().map(String::from));
        want.sort_by_key(key);
        ensure_eq!(got, want, "expanded plan (default samples {samples}, override {over})");
        let again = parsed.to_benches(samples, over);
        ensure_eq!(again.iter().map(|b| serde_json::to_value(b).unwrap()).collect::<Vec<_>>(), got, "second expansion of the same file");
        obs.see(if over { "samples override" } else { "samples from the file" });
        obs.key(file.to_string());
        obs.evals(1);
        // results are filed under the configuration that produced them
        if let Some(b) = parsed.to_benches(1, true).into_iter().next() {
            let mut v: Vec<u64> = (0..9).map(|i| r.u32() as u64 * 16 + i).collect();
            r.shuffle(&mut v);
            let heap = r.bool().then(|| r.u32() as usize);
            let m = ProverMetrics {
                time_preprocess: v[0], time_online: v[1], time_total: v[2],
                uploaded_preprocess: v[3], downloaded_preprocess: v[4], uploaded_online: v[5], downloaded_online: v[6], uploaded_total: v[7], downloaded_total: v[8],
                heap_max_bytes: heap,
            };
            let bj = serde_json::to_value(&b).unwrap();
            let mj = serde_json::to_value(&m).unwrap();
            let out = serde_json::to_value(Measurement::new(b, m)).unwrap();
            for k in ["group", "name", "bandwidth", "proxy"] {
                ensure_eq!(out[k], bj[k], "measurement field {k}");
            }
            for (k, src) in [("latency", "protocol_latency"), ("upload_size", "upload-size"), ("download_size", "download-size"), ("defer_decryption", "defer-decryption")] {
                ensure_eq!(out[k], bj[src], "measurement field {k}");
            }
            for (k, x) in mj.as_object().unwrap() {
                ensure_eq!(out[k], *x, "measurement field {k}");
            }
            obs.see("measurement filed");
        }
        Ok(())
    });
    cx.cases("undefined group", 60, 600, |r, _, obs| {
        let file = json!({"group": [{"name": "a"}], "bench": [{"group": format!("b{}", r.u16())}]});
        let parsed: BenchItems = serde_json::from_value(file).map_err(|e| format!("a benchmark file is refused: {e}"))?;
        ensure!(quiet(|| parsed.to_benches(1, false)).is_err(), "an entry of an undefined group is expanded");
        obs.see("undefined group refused");
        obs.key(r.u64().to_be_bytes());
        Ok(())
    });
    cx.cases("networks", 2_000, 40_000, |r, idx, obs| {
        let len = if idx < 33 { idx as u8 } else { r.range(0, 32) as u8 };
        let net: ipnet::Ipv4Net = ipnet::Ipv4Net::new(r.u32().into(), len).unwrap();
        let net = if r.bool() { net.trunc() } else { net };
        let usable = if len >= 31 { 1u64 << (32 - len) } else { (1u64 << (32 - len)) - 2 };
        let got = quiet(|| NetworkConfig::new(net));
        if usable < 9 {
            ensure!(got.is_err(), "a subnet with {usable} hosts gives a layout");
            obs.see("small subnet refused");
            return Ok(());
        }
        if usable < 10 && got.is_err() {
            return Ok(());
        }
        let c = got?;
        ensure_eq!(c.subnet, net, "subnet of the layout");
        let hosts = [("host", c.host), ("proto_proxy", c.proto_proxy.0), ("app_proxy", c.app_proxy.0), ("rpc_0", c.rpc_0.0), ("rpc_1", c.rpc_1.0), ("proto_0", c.proto_0.0), ("proto_1", c.proto_1.0), ("app", c.app.0), ("app_0", c.app_0), ("app_1", c.app_1)];
        let mut set = HashSet::new();
        for (n, h) in hosts {
            ensure!(net.contains(&h), "{n} {h} is outside {net}");
            ensure!(h != net.network() && h != net.broadcast(), "{n} {h} is the network or broadcast address of {net}");
            ensure!(set.insert(h), "{n} {h} is given out twice in {net}");
        }
        ensure!(c.wasm.0.is_loopback(), "the wasm server is at {}", c.wasm.0);
        ensure_eq!([c.proto_proxy.1, c.app_proxy.1, c.rpc_0.1, c.rpc_1.1, c.proto_0.1, c.proto_1.1, c.app.1, c.wasm.1], [PORT_PROXY, PORT_PROXY, PORT_RPC, PORT_RPC, PORT_PROTO, PORT_PROTO, PORT_APP_SERVER, PORT_WASM_SERVER], "ports of the layout");
        let back: NetworkConfig = serde_json::from_value(serde_json::to_value(&c).unwrap()).map_err(|e| format!("layout does not deserialize: {e}"))?;
        ensure_eq!(format!("{back:?}"), format!("{c:?}"), "restored layout");
        let (id, io) = (r.bool(), r.bool());
        let e = ExecutorConfig::builder().id(if id { Id::Zero } else { Id::One }).io_mode(if io { IoMode::Client } else { IoMode::Server }).network_config(c.clone()).build();
        ensure!(matches!(e.id(), Id::Zero) == id && (*e.io_mode() == IoMode::Client) == io && format!("{:?}", e.network()) == format!("{c:?}"), "executor configuration differs from what was given");
        let back: ExecutorConfig = serde_json::from_value(serde_json::to_value(&e).unwrap()).map_err(|e| format!("executor configuration does not deserialize: {e}"))?;
        ensure_eq!(format!("{back:?}"), format!("{e:?}"), "restored executor configuration");
        obs.see(format!("subnet /{len}"));
        obs.see("layout");
        obs.key(net.to_string());
        obs.evals(3);
        Ok(())
    });
    cx.cases("messages", 2_000, 30_000, |r, _, obs| {
        for (s, want) in [("client", Some(IoMode::Client)), ("Client", Some(IoMode::Client)), ("SERVER", Some(IoMode::Server)), ("server", Some(IoMode::Server)), ("", None), ("clients", None), ("both", None)] {
            ensure_eq!(IoMode::try_from(s).ok(), want, "io mode named {s:?}");
            if let Some(w) = want {
                ensure_eq!(w.to_string(), s.to_lowercase(), "name of the io mode");
            }
        }
        let n = r.len(40);
        let text: String = (0..n).map(|_| char::from_u32(r.range(32, 0x2ff) as u32).unwrap_or('x')).collect();
        let role = if r.bool() { Role::Prover } else { Role::Verifier };
        let status = match r.below(4) {
            0 => TestStatus::Passed,
            1 => TestStatus::TimedOut,
            2 => TestStatus::Failed { reason: None },
            _ => TestStatus::Failed { reason: Some(text.clone()) },
        };
        ensure_eq!(status.is_passed(), format!("{status:?}") == "Passed", "whether {status:?} is a pass");
        let items: BenchItems = serde_json::from_value(json!({"group": [], "bench": [settings(r, 5)]})).unwrap();
        let bench = items.to_benches(1, true).remove(0);
        let cmd = match r.below(3) {
            0 => Cmd::GetTests,
            1 => Cmd::Test(TestCmd { name: text.clone(), role }),
            _ => Cmd::Bench(BenchCmd { config: bench, role }),
        };
        let back: Cmd = serde_json::from_str(&serde_json::to_string(&cmd).unwrap()).map_err(|e| format!("command does not deserialize: {e}"))?;
        ensure_eq!(format!("{back:?}"), format!("{cmd:?}"), "restored command");
        let bin: Cmd = bincode::deserialize(&bincode::serialize(&cmd).unwrap()).map_err(|e| format!("command does not deserialize: {e}"))?;
        ensure_eq!(format!("{bin:?}"), format!("{cmd:?}"), "restored binary command");
        let out = match r.below(4) {
            0 => CmdOutput::Empty,
            1 => CmdOutput::GetTests(vec![text.clone(); r.below(4)]),
            2 => CmdOutput::Test(TestOutput { status }),
            _ => CmdOutput::Bench(BenchOutput::Verifier),
        };
        let back: CmdOutput = serde_json::from_str(&serde_json::to_string(&out).unwrap()).map_err(|e| format!("answer does not deserialize: {e}"))?;
        ensure_eq!(format!("{back:?}"), format!("{out:?}"), "restored answer");
        let is_tests = matches!(out, CmdOutput::GetTests(_));
        let label = format!("{out:?}").split(['(', ' ']).next().unwrap().to_string();
        match out.try_into_get_tests() {
            Ok(v) => ensure!(is_tests && v.iter().all(|x| *x == text), "answer taken for a list of tests"),
            Err(e) => {
                ensure!(!is_tests, "list of tests refused");
                let e = RpcError::from(e);
                ensure!(e.reason().contains("GetTests") && e.reason().contains(&label), "reason of an unexpected answer: {}", e.reason());
            }
        }
        let e = RpcError::new(&text);
        ensure_eq!(e.reason(), text.as_str(), "reason of an error");
        ensure!(e.to_string().contains(&text), "error text omits its reason");
        obs.see("message");
        obs.evals(4);
        obs.key(format!("{cmd:?}{text}"));
        Ok(())
    });
    for c in ["entry setting", "group setting", "default setting", "samples override", "samples from the file", "measurement filed", "layout", "small subnet refused", "undefined group refused", "message"] {
        cx.require(c, 10);
    }
}

// ------------------------------------------------------------------ F04

pub fn f04(cx: &mut Cx) {
    use tlsn_data_fixtures::http::{request as q, response as s};
    cx.rule("Every HTTP fixture is parsed by an independent HTTP reader and compared with what its name and documentation say (method, headers, empty header, body kind, framing), and delivered in random pieces; non-trivial = a distinct fixture and cut.");
    // name, bytes, is request, headers?, an empty header?, body kind, transfer encoding, several chunks
    let all: Vec<(&str, &'static [u8], bool, bool, bool, &str, bool, bool)> = vec![
        ("GET_EMPTY", q::GET_EMPTY, true, false, false, "none", false, false),
        ("GET_EMPTY_HEADER", q::GET_EMPTY_HEADER, true, true, true, "none", false, false),
        ("GET_WITH_HEADER", q::GET_WITH_HEADER, true, true, false, "none", false, false),
        ("POST_JSON", q::POST_JSON, true, true, false, "json", false, false),
        ("OK_EMPTY", s::OK_EMPTY, false, true, false, "none", false, false),
        ("OK_EMPTY_HEADER", s::OK_EMPTY_HEADER, false, true, true, "none", false, false),
        ("OK_TEXT", s::OK_TEXT, false, true, false, "text", false, false),
        ("OK_JSON", s::OK_JSON, false, true, false, "json", false, false),
        ("OK_CHUNKED_TEXT", s::OK_CHUNKED_TEXT, false, true, false, "text", true, false),
        ("OK_CHUNKED_JSON", s::OK_CHUNKED_JSON, false, true, false, "json", true, false),
        ("OK_CHUNKED_TEXT_MULTI", s::OK_CHUNKED_TEXT_MULTI, false, true, false, "text", true, true),
        ("OK_CHUNKED_JSON_MULTI", s::OK_CHUNKED_JSON_MULTI, false, true, false, "json", true, true),
    ];
    cx.cases("fixtures", 1_200, 12_000, |r, idx, obs| {
        let (name, raw, is_req, has_h, empty_h, kind, chunked, multi) = all[idx as usize % all.len()];
        let end = find(raw, b"\r\n\r\n").ok_or(Fail::from(format!("fixture {name} has no end of headers")))?;
        let head = std::str::from_utf8(&raw[..end]).map_err(|_| Fail::from(format!("fixture {name} has a binary header")))?;
        let mut lines = head.split("\r\n");
        let first = lines.next().unwrap_or("");
        let headers: Vec<(&str, &str)> = lines.map(|l| l.split_once(':').unwrap_or((l, "?"))).map(|(a, b)| (a, b.trim())).collect();
        if is_req {
            let want = if name.starts_with("GET") { "GET " } else { "POST " };
            ensure!(first.starts_with(want) && first.ends_with(" HTTP/1.1"), "first line of fixture {name}: {first}");
        } else {
            ensure!(first.starts_with("HTTP/1.1 200 OK"), "first line of fixture {name}: {first}");
        }
        ensure_eq!(!headers.is_empty(), has_h, "whether fixture {name} has headers");
        ensure_eq!(headers.iter().any(|h| h.1.is_empty()), empty_h, "whether fixture {name} has an empty header");
        let te = headers.iter().any(|h| h.0.eq_ignore_ascii_case("transfer-encoding") && h.1 == "chunked");
        ensure_eq!(te, chunked, "whether fixture {name} is chunked");
        let mut chunks = 0;
        let body: Vec<u8> = if chunked {
            let mut rest = &raw[end + 4..];
            let mut body = vec![];
            loop {
                let l = find(rest, b"\r\n").ok_or(Fail::from(format!("fixture {name} ends in a chunk header")))?;
                let n = usize::from_str_radix(std::str::from_utf8(&rest[..l]).unwrap_or("?").trim(), 16).map_err(|_| Fail::from(format!("chunk size in fixture {name}")))?;
                ensure!(rest.len() >= l + 2 + n + 2, "fixture {name} ends inside a chunk");
                body.extend_from_slice(&rest[l + 2..l + 2 + n]);
                ensure!(&rest[l + 2 + n..l + 4 + n] == b"\r\n", "chunk of fixture {name} is not terminated");
                rest = &rest[l + 4 + n..];
                if n == 0 {
                    break;
                }
                chunks += 1;
            }
            ensure!(rest.is_empty(), "bytes follow the last chunk of fixture {name}");
            body
        } else {
            let n = headers.iter().find(|h| h.0.eq_ignore_ascii_case("content-length")).map(|h| h.1.parse::<usize>().unwrap_or(usize::MAX)).unwrap_or(0);
            let rest = &raw[end + 4..];
            // a line break after the message is ignored by readers
            ensure!(rest.len() >= n && (rest.len() == n || &rest[n..] == b"\r\n"), "body length of fixture {name}: {} bytes, announced {n}", rest.len());
            rest[..n].to_vec()
        };
        ensure!(!multi || chunks > 1, "fixture {name} has a single chunk");
        match kind {
            "none" => ensure!(body.is_empty(), "fixture {name} has a body"),
            "json" => ensure!(serde_json::from_slice::<Value>(&body).is_ok_and(|v| v.is_object() || v.is_array()), "body of fixture {name} is not a JSON document"),
            _ => ensure!(!body.is_empty() && serde_json::from_slice::<Value>(&body).is_err(), "body of fixture {name} is not plain text"),
        }
        let ctype = headers.iter().find(|h| h.0.eq_ignore_ascii_case("content-type")).map(|h| h.1);
        if let Some(t) = ctype {
            ensure!(kind == "none" || t.contains(if kind == "json" { "json" } else { "text" }), "content type of fixture {name}: {t}");
        }
        // fixtures are different from each other
        for o in &all {
            ensure!(o.0 == name || o.1 != raw, "fixtures {name} and {} are the same bytes", o.0);
        }
        // an incremental reader sees the same message whatever the cut
        if !is_req {
            let whole_len = if raw.ends_with(b"]}\r\n") && !chunked { raw.len() - 2 } else { raw.len() };
            let cut = r.below(whole_len);
            let part = response(&raw[..cut], false);
            ensure!(part.is_none_or(|p| !p.0.complete), "fixture {name} is complete after {cut} of {} bytes", raw.len());
            let (whole, used) = response(raw, false).ok_or(Fail::from(format!("fixture {name} does not parse")))?;
            ensure!(whole.complete && used + 2 >= raw.len() && whole.body == body, "fixture {name} does not parse to its end");
            obs.key(format!("{name} {cut}"));
        } else {
            obs.key(name);
        }
        obs.see(format!("fixture {name}"));
        Ok(())
    });
    for f in &all {
        cx.require(&format!("fixture {}", f.0), 1);
    }
}
