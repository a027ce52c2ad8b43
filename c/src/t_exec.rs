//! M13: the executor of the test harness, over real sockets of the loopback network.
use harness_executor::Executor;
use serde_json::json;
use std::{
    io::{Read, Write},
    net::{Ipv4Addr, Shutdown, SocketAddrV4, TcpListener, TcpStream},
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU32, Ordering::SeqCst},
        mpsc,
    },
    thread,
    time::{Duration, Instant},
};
use harness_core::{
    ExecutorConfig, Id, IoMode, Role,
    bench::{Bench, BenchOutput, ProverMetrics},
    network::NetworkConfig,
    rpc::{BenchCmd, Cmd, CmdOutput, Result as Rpc, TestCmd},
};
use vfw::{Cx, Fail, Obs, R, ensure, ensure_eq};

/// A party that has not come to an end by then never will.
const LONG: Duration = Duration::from_secs(120);

/// A network of its own for every case: all of 127.0.0.0/8 is this machine.
fn network() -> NetworkConfig {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let n = NEXT.fetch_add(1, SeqCst) + std::process::id() * 4099;
    let at = 0x7f40_0000 | (n & 0x1f_ffff) << 4;
    NetworkConfig::new(format!("{}/28", Ipv4Addr::from(at & 0x7fff_ffff)).parse().unwrap())
}

/// What passed a relay, one entry per connection.
#[derive(Default, Clone)]
struct Tally {
    up: Vec<u8>,
    down: Vec<u8>,
    n_up: u64,
    n_down: u64,
    done: usize,
}
struct Relay {
    stop: Arc<AtomicBool>,
    at: SocketAddrV4,
    all: Arc<Mutex<Vec<Tally>>>,
}
impl Relay {
    /// Connections to `at` go on to `to`, which may not be there yet; `slow` bytes at a time with
    /// a pause, if any. The bytes themselves are kept when `keep`.
    fn new(at: SocketAddrV4, to: SocketAddrV4, slow: Option<usize>, keep: bool) -> Result<Self, Fail> {
        let l = TcpListener::bind(at).map_err(|e| Fail::Harness(format!("relay: {e}")))?;
        let stop = Arc::new(AtomicBool::new(false));
        let all: Arc<Mutex<Vec<Tally>>> = Default::default();
        let (s, a) = (stop.clone(), all.clone());
        thread::spawn(move || {
            for c in l.incoming() {
                if s.load(SeqCst) {
                    break;
                }
                let Ok(c) = c else { continue };
                let id = {
                    let mut a = a.lock().unwrap();
                    a.push(Tally::default());
                    a.len() - 1
                };
                let (s, a) = (s.clone(), a.clone());
                thread::spawn(move || {
                    let t = Instant::now();
                    let d = loop {
                        match TcpStream::connect(to) {
                            Ok(d) => break d,
                            Err(_) if t.elapsed() < LONG && !s.load(SeqCst) => thread::sleep(Duration::from_millis(5)),
                            Err(_) => return,
                        }
                    };
                    let _ = (c.set_nodelay(true), d.set_nodelay(true));
                    let (c2, d2, a2) = (c.try_clone().unwrap(), d.try_clone().unwrap(), a.clone());
                    let h = thread::spawn(move || pump(d2, c2, slow, |b| {
                        let mut a = a2.lock().unwrap();
                        a[id].n_down += b.len() as u64;
                        if keep {
                            a[id].down.extend_from_slice(b);
                        }
                    }));
                    let a2 = a.clone();
                    pump(c, d, slow, move |b| {
                        let mut a = a2.lock().unwrap();
                        a[id].n_up += b.len() as u64;
                        if keep {
                            a[id].up.extend_from_slice(b);
                        }
                    });
                    let _ = h.join();
                    a.lock().unwrap()[id].done += 1;
                });
            }
        });
        Ok(Relay { stop, at, all })
    }
    /// What passed, once every connection is at its end.
    fn tally(&self) -> Result<Vec<Tally>, Fail> {
        let t = Instant::now();
        loop {
            let a = self.all.lock().unwrap().clone();
            if a.iter().all(|t| t.done == 1) {
                return Ok(a);
            }
            if t.elapsed() > LONG {
                return Err(Fail::from("a connection is left open"));
            }
            thread::sleep(Duration::from_millis(2));
        }
    }
}
impl Drop for Relay {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
        let _ = TcpStream::connect(self.at);
    }
}
fn pump(mut a: TcpStream, mut b: TcpStream, slow: Option<usize>, mut f: impl FnMut(&[u8])) {
    let mut buf = vec![0; slow.unwrap_or(65536)];
    loop {
        match a.read(&mut buf) {
            Ok(0) => {
                let _ = b.shutdown(Shutdown::Write);
                return;
            }
            Ok(n) => {
                f(&buf[..n]);
                if b.write_all(&buf[..n]).is_err() {
                    let _ = a.shutdown(Shutdown::Both);
                    return;
                }
                if slow.is_some() {
                    thread::sleep(Duration::from_micros(200));
                }
            }
            Err(_) => {
                let _ = b.shutdown(Shutdown::Both);
                return;
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum App {
    /// The server fixture.
    Fixture,
    /// Ends every connection at once.
    HangsUp,
    /// Answers with something else than TLS.
    Noise,
    /// Nobody listens.
    Absent,
}
struct Server(Arc<AtomicBool>, SocketAddrV4);
impl Server {
    fn new(app: App, at: SocketAddrV4) -> Result<Self, Fail> {
        let stop = Arc::new(AtomicBool::new(false));
        if app == App::Absent {
            return Ok(Server(stop, at));
        }
        let l = TcpListener::bind(at).map_err(|e| Fail::Harness(format!("server: {e}")))?;
        let s = stop.clone();
        thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
            for c in l.incoming() {
                if s.load(SeqCst) {
                    break;
                }
                let Ok(mut c) = c else { continue };
                match app {
                    App::Fixture => {
                        let _ = (c.set_nonblocking(true), c.set_nodelay(true));
                        rt.spawn(async move {
                            use tokio_util::compat::TokioAsyncReadCompatExt;
                            let c = tokio::net::TcpStream::from_std(c).unwrap();
                            let _ = tlsn_server_fixture::bind(c.compat()).await;
                        });
                    }
                    App::Noise => {
                        let _ = c.write_all(b"HTTP/1.1 400 Bad Request\r\n\r\n");
                    }
                    _ => {}
                }
            }
        });
        Ok(Server(stop, at))
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.0.store(true, SeqCst);
        let _ = TcpStream::connect(self.1);
    }
}

type Party = (mpsc::Receiver<(Rpc<CmdOutput>, Duration)>, mpsc::Sender<()>);
/// A party, on a thread of its own. It stays around, like the process of an executor, until the
/// sender is dropped.
fn party(net: NetworkConfig, id: Id, mode: IoMode, cmd: Cmd, wait: Duration) -> Party {
    let (tx, rx) = mpsc::channel();
    let (stay, stayed) = mpsc::channel::<()>();
    thread::spawn(move || {
        thread::sleep(wait);
        let t = Instant::now();
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
        let ex = Executor::new(ExecutorConfig::builder().id(id).io_mode(mode).network_config(net).build());
        let r = rt.block_on(ex.process(cmd));
        let _ = tx.send((r, t.elapsed()));
        let _ = stayed.recv();
        rt.shutdown_timeout(Duration::from_secs(1));
    });
    (rx, stay)
}
fn end((rx, _): &Party, who: &str) -> Result<(Rpc<CmdOutput>, Duration), Fail> {
    match rx.recv_timeout(LONG) {
        Ok(r) => Ok(r),
        Err(mpsc::RecvTimeoutError::Timeout) => Err(Fail::from(format!("{who} waits forever"))),
        Err(_) => Err(Fail::from(format!("{who} panicked"))),
    }
}

struct Ran {
    prover: Rpc<CmdOutput>,
    verifier: Rpc<CmdOutput>,
    wall: Duration,
    proto: Vec<Tally>,
    app: Vec<Tally>,
}
/// Both parties, with relays between them and before the server.
fn both(r: &mut R, app: App, cmd: impl Fn(Role) -> Cmd) -> Result<Ran, Fail> {
    let net = network();
    let sock = |a: (Ipv4Addr, u16)| SocketAddrV4::new(a.0, a.1);
    let server = (net.app_0, 9000);
    let _server = Server::new(app, sock(server))?;
    let to_server = if app == App::Absent { None } else { Some(Relay::new(sock(net.app), sock(server), r.chance(1, 5).then(|| 700), true)?) };
    let mut near = net.clone();
    near.proto_1 = net.proto_0;
    // The prover may be there long before the verifier, and without the relay it has to wait itself.
    let direct = r.chance(1, 4);
    let relay = if direct { None } else { Some(Relay::new(sock(net.proto_0), sock(net.proto_1), r.chance(1, 3).then(|| *r.clone().pick(&[300usize, 2000])), false)?) };
    let pn = if direct { net.clone() } else { near };
    let late = Duration::from_millis(if r.bool() { 0 } else { r.range(1, 400) as u64 });
    let swap = r.bool();
    let v = party(net, Id::One, IoMode::Server, cmd(Role::Verifier), if swap { late } else { Duration::ZERO });
    let p = party(pn, Id::Zero, IoMode::Client, cmd(Role::Prover), if swap { Duration::ZERO } else { late });
    let (prover, wall) = end(&p, "the prover")?;
    let (verifier, _) = end(&v, "the verifier")?;
    if prover.is_err() || verifier.is_err() {
        // What a failure leaves behind ends with the process.
        drop((p, v));
    }
    Ok(Ran { prover, verifier, wall, proto: relay.map(|r| r.tally()).transpose()?.unwrap_or_default(), app: to_server.map(|r| r.tally()).transpose()?.unwrap_or_default() })
}

/// How much was sent inside application data records, TLS 1.2 with AES-GCM.
fn inside(b: &[u8]) -> Option<usize> {
    let (mut at, mut n) = (0, 0);
    while at < b.len() {
        let len = u16::from_be_bytes([*b.get(at + 3)?, *b.get(at + 4)?]) as usize;
        if b[at] == 23 {
            n += len.checked_sub(24)?;
        }
        at += 5 + len;
    }
    (at == b.len()).then_some(n)
}

fn a_bench(r: &mut R) -> Bench {
    Bench {
        group: r.bool().then(|| "g".into()),
        name: Some("n".into()),
        protocol_latency: r.below(100),
        app_latency: r.below(100),
        bandwidth: r.below(2000),
        upload_size: *r.clone().pick(&[100usize, 256, 1024, 2000]) + r.below(100),
        download_size: *r.clone().pick(&[1usize, 100, 1024, 4096]) + r.below(1000),
        defer_decryption: r.bool(),
        memory_profile: false,
        reveal_all: r.bool(),
        proxy: r.bool(),
    }
}

fn bench(r: &mut R, idx: u64, o: &mut Obs) -> Result<(), Fail> {
    let mut b = a_bench(r);
    b.proxy = idx % 2 == 1;
    if idx % 6 == 5 {
        b.download_size = r.range(20_000, 60_000);
        b.upload_size = r.range(1000, 20_000);
    }
    o.input(json!({"bench": b}));
    let ran = both(r, App::Fixture, |role| Cmd::Bench(BenchCmd { config: b.clone(), role }))?;
    let m: ProverMetrics = match ran.prover {
        Ok(CmdOutput::Bench(BenchOutput::Prover { metrics })) => metrics,
        x => return Err(Fail::from(format!("the prover of a benchmark gave {x:?}"))),
    };
    ensure!(matches!(ran.verifier, Ok(CmdOutput::Bench(BenchOutput::Verifier))), "the verifier of a benchmark gave {:?}", ran.verifier);
    // The exchange with the server.
    ensure_eq!(ran.app.len(), 1, "connections to the server");
    let a = &ran.app[0];
    let up = inside(&a.up).ok_or("what the server got is not a row of records")?;
    let down = inside(&a.down).ok_or("what the server sent is not a row of records")?;
    ensure!(up <= b.upload_size && up + 16 >= b.upload_size, "{up} bytes were sent to the server for an upload of {}", b.upload_size);
    ensure!(down >= b.download_size + 20 && down <= b.download_size + 256, "{down} bytes came from the server for a download of {}", b.download_size);
    // The measurements.
    ensure!(m.time_preprocess + m.time_online <= m.time_total + 2, "the parts took {} ms and {} ms, the whole {} ms", m.time_preprocess, m.time_online, m.time_total);
    ensure!(m.time_total as u128 <= ran.wall.as_millis() + 1, "{} ms are reported, {} ms went by", m.time_total, ran.wall.as_millis());
    ensure!(m.uploaded_preprocess > 0 && m.downloaded_preprocess > 0, "nothing is reported for the preprocessing: {m:?}");
    ensure!(m.uploaded_preprocess + m.uploaded_online < m.uploaded_total, "uploads do not add up: {m:?}");
    ensure!(m.downloaded_preprocess + m.downloaded_online <= m.downloaded_total, "downloads do not add up: {m:?}");
    if b.proxy {
        let (u, d) = (a.up.len() as u64, a.down.len() as u64);
        ensure!(m.uploaded_online >= u && m.downloaded_online >= d, "{u} and {d} bytes of the server's connection went through the verifier: {m:?}");
        o.see("proxy benchmarks");
    } else {
        o.see("mpc benchmarks");
    }
    if let [t] = &ran.proto[..] {
        // The closing of the session is not part of the measurement.
        ensure!(m.uploaded_total <= t.n_up && m.uploaded_total + 512 >= t.n_up, "{} bytes were uploaded, {} are reported", t.n_up, m.uploaded_total);
        ensure!(m.downloaded_total <= t.n_down && m.downloaded_total + 512 >= t.n_down, "{} bytes were downloaded, {} are reported", t.n_down, m.downloaded_total);
        if std::env::var("EXEC_SHOW").is_ok() {
            eprintln!("{m:?} {} {} {} {}", t.n_up, t.n_down, a.up.len(), a.down.len());
        }
        o.see("transfers measured");
    }
    o.key(format!("{b:?}"));
    Ok(())
}

fn tests(r: &mut R, idx: u64, o: &mut Obs) -> Result<(), Fail> {
    let names = match end(&party(network(), Id::Zero, IoMode::Client, Cmd::GetTests, Duration::ZERO), "the executor")?.0 {
        Ok(CmdOutput::GetTests(n)) => n,
        x => return Err(Fail::from(format!("the list of tests is {x:?}"))),
    };
    let mut sorted = names.clone();
    sorted.sort();
    for want in ["mpc", "proxy", "sdk_core"] {
        ensure_eq!(sorted.iter().filter(|n| *n == want).count(), 1, "test {want} in the list");
    }
    sorted.dedup();
    ensure_eq!(sorted.len(), names.len(), "names of tests");
    let name = sorted[idx as usize % sorted.len()].clone();
    o.input(json!({"test": name}));
    let ran = both(r, App::Fixture, |role| Cmd::Test(TestCmd { name: name.clone(), role }))?;
    for (who, out) in [("prover", &ran.prover), ("verifier", &ran.verifier)] {
        match out {
            Ok(CmdOutput::Test(t)) if t.status.is_passed() => {}
            x => return Err(Fail::from(format!("the {who} of test {name} gave {x:?}"))),
        }
    }
    let a = &ran.app[0];
    ensure_eq!(ran.app.len(), 1, "connections to the server");
    ensure!(inside(&a.down).is_some_and(|n| n > 1000), "the server sent an answer");
    o.see("tests run");
    o.key(format!("{name} {idx}"));
    Ok(())
}

fn failures(r: &mut R, idx: u64, o: &mut Obs) -> Result<(), Fail> {
    let mut b = a_bench(r);
    b.proxy = r.bool();
    let kind = idx % 6;
    o.input(json!({"bench": b, "kind": kind}));
    match kind {
        0..=2 => {
            let app = [App::HangsUp, App::Noise, App::Absent][kind as usize];
            let ran = both(r, app, |role| Cmd::Bench(BenchCmd { config: b.clone(), role }))?;
            ensure!(ran.prover.is_err(), "a benchmark without a server ({app:?}) succeeded for the prover: {:?}", ran.prover);
            ensure!(ran.verifier.is_err(), "a benchmark without a server ({app:?}) succeeded for the verifier");
            o.see("no server");
        }
        3 => {
            // Room for the request is missing.
            b.proxy = false;
            b.upload_size = r.range(1, 50);
            let ran = both(r, App::Fixture, |role| Cmd::Bench(BenchCmd { config: b.clone(), role }))?;
            ensure!(ran.prover.is_err() && ran.verifier.is_err(), "a request of more than {} bytes was sent", b.upload_size);
            o.see("too small");
        }
        4 => {
            let (role, name) = (*r.clone().pick(&[Role::Prover, Role::Verifier]), r.pick(&["", "nothing", "MPC", "mpc ", "sdk", "prox"]).to_string());
            let rx = party(network(), Id::One, IoMode::Client, Cmd::Test(TestCmd { name: name.clone(), role }), Duration::ZERO);
            let out = end(&rx, "an unknown test")?.0;
            ensure!(out.is_err(), "test {name:?}, which does not exist, gave {out:?}");
            o.see("unknown test");
        }
        _ => {
            // A peer that never comes.
            let rx = party(network(), Id::Zero, IoMode::Client, Cmd::Bench(BenchCmd { config: b.clone(), role: Role::Prover }), Duration::ZERO);
            let (out, took) = end(&rx, "a prover without peer")?;
            ensure!(out.is_err(), "a benchmark without peer gave {out:?}");
            ensure!(took >= Duration::from_millis(1000), "a peer which needs a moment is given up after {took:?}");
            o.see("no peer");
        }
    }
    o.key(format!("{kind} {b:?}"));
    Ok(())
}

pub fn m13(cx: &mut Cx) {
    cx.rule(
        "The executor of the test harness, compiled natively: benchmarks of random size in both modes and the tests it lists are run by two \
         executors over sockets of the loopback network, the parties starting in either order, through relays which count what passes and \
         may be slow; the server is the fixture, or one that hangs up, talks nonsense or is not there. Reported bytes are compared with what \
         the relays saw, reported times with the clock.",
    );
    cx.assume("the two-party computation underneath is an ideal stand-in; the shaping of the network and the browser are not part of it");
    cx.require("proxy benchmarks", 4);
    cx.require("mpc benchmarks", 4);
    cx.require("transfers measured", 4);
    cx.require("tests run", 3);
    cx.require("no server", 3);
    cx.require("too small", 1);
    cx.require("unknown test", 1);
    cx.require("no peer", 1);
    cx.cases("bench", 18, 400, bench);
    cx.cases("tests", 6, 60, tests);
    cx.cases("failures", 12, 200, failures);
}
