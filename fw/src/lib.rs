//! Monitoring framework shared by the harness crates: seeded case loops,
//! panic / hang / memory monitors, observation counters, evidence files and
//! the three-valued verdict (0 held, 1 violated, 2 inconclusive).

use serde_json::{Value, json};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    collections::{BTreeMap, HashSet},
    panic::{self, AssertUnwindSafe},
    sync::{
        Mutex,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed},
    },
    time::{Duration, Instant},
};

pub use serde_json;

// ---------------------------------------------------------------- randomness

/// xoshiro256** seeded by splitmix64; every random choice of a check comes from here.
#[derive(Clone)]
pub struct R([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    let mut h2 = h;
    splitmix(&mut h2)
}

impl R {
    pub fn new(seed: u64, label: &str, idx: u64) -> Self {
        let mut x = seed ^ fnv(label.as_bytes()) ^ idx.wrapping_mul(0xD1342543DE82EF95);
        R([splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)])
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.0[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.0[1] << 17;
        self.0[2] ^= self.0[0];
        self.0[3] ^= self.0[1];
        self.0[1] ^= self.0[2];
        self.0[0] ^= self.0[3];
        self.0[2] ^= t;
        self.0[3] = self.0[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (((self.u64() as u128) * (n as u128)) >> 64) as usize
    }
    /// Uniform in a..=b.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        a.copy_from_slice(&self.bytes(N));
        a
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// A length biased to small values and to boundaries.
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(10) {
            0 => 0,
            1 => 1.min(max),
            2..=6 => self.range(0, max.min(16)),
            7 => self.range(0, max.min(300)),
            8 => self.range(0, max),
            _ => max - self.below(max.min(3) + 1),
        }
    }
}

// ---------------------------------------------------------------- allocation monitor

pub struct CountingAlloc;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static MEM_CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

fn count_alloc(n: usize) {
    let now = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(now, Relaxed);
    if now > MEM_CAP.load(Relaxed) {
        MEM_CAP.store(usize::MAX, Relaxed);
        emergency("resource exhaustion: live heap exceeded the cap of this check");
    }
}
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count_alloc(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count_alloc(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        unsafe { System.dealloc(p, l) }
    }
}

pub fn live_bytes() -> usize {
    LIVE.load(Relaxed)
}

/// Runs `f` and returns its result with the growth of the heap's high-water mark.
/// Only meaningful while no other thread allocates.
pub fn with_peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(base))
}

// ---------------------------------------------------------------- panics

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if std::env::var_os("VERIF_BACKTRACE").is_some() {
            eprintln!("{loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = Some((loc, msg));
        }
    }));
}

/// What the last panic said, and where.
pub fn take_panic() -> (String, String) {
    LAST_PANIC.lock().unwrap().take().unwrap_or_default()
}

/// Runs code under test; a panic becomes Err("panicked at ..").
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (l, m) = take_panic();
            Err(format!("panicked at {l}: {m}"))
        }
    }
}

// ---------------------------------------------------------------- verdicts

#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is violated: (stable signature, detail).
    Violation(String, String),
    /// The harness could not decide.
    Harness(String),
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        let sig: String = s.split(|c: char| c == ':' || c == '(').next().unwrap_or("").trim().chars().take(80).collect();
        Fail::Violation(sig, s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail::from(s.to_string())
    }
}
pub type CaseResult = Result<(), Fail>;

pub fn harness<T>(s: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Harness(s.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::Fail::from(format!($($t)*))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail::from(format!("{}: got {} expected {}", format!($($t)*), $crate::short(&format!("{:?}", a)), $crate::short(&format!("{:?}", b)))));
        }
    }};
}

pub fn short(s: &str) -> String {
    if s.len() <= 400 {
        s.to_string()
    } else {
        let cut: String = s.chars().take(380).collect();
        format!("{cut}... ({} chars)", s.len())
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(4096) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 4096 {
        s.push_str(&format!("..({} bytes, {:016x})", b.len(), fnv(b)));
    }
    s
}

// ---------------------------------------------------------------- context

/// Observations made while one case runs.
#[derive(Default)]
pub struct Obs {
    counts: Vec<(String, u64)>,
    keys: Vec<u64>,
    input: Option<Value>,
    evals: u64,
}
impl Obs {
    pub fn see(&mut self, what: impl Into<String>) {
        self.counts.push((what.into(), 1));
    }
    pub fn add(&mut self, what: impl Into<String>, n: u64) {
        self.counts.push((what.into(), n));
    }
    /// Marks the case as non-trivial; `key` identifies it for distinctness.
    pub fn key(&mut self, key: impl AsRef<[u8]>) {
        self.keys.push(fnv(key.as_ref()));
    }
    /// Extra oracle evaluations beyond the one per case.
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    /// Describes the case (shown in replays and samples).
    pub fn input(&mut self, v: Value) {
        self.input = Some(v);
    }
}

struct Viol {
    section: String,
    idx: u64,
    sig: String,
    detail: String,
    input: Option<Value>,
}

pub struct Cx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    dir: String,
    evals: u64,
    distinct: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<Value>,
    viols: Vec<Viol>,
    harness_errors: Vec<String>,
    rules: Vec<String>,
    assumptions: Vec<String>,
    only: Option<(String, u64)>,
    start: Instant,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, u64>,
    requires: Vec<(String, u64)>,
    extra: BTreeMap<String, Value>,
    budget: Duration,
    /// Names the running case for whoever finds the process dead.
    marker: Option<std::fs::File>,
}

struct Now {
    prop: String,
    section: String,
    idx: u64,
    seed: u64,
    tier: String,
    dir: String,
}
static NOW: Mutex<Option<Now>> = Mutex::new(None);
static CASE_NO: AtomicU64 = AtomicU64::new(0);
static IN_CASE: AtomicBool = AtomicBool::new(false);

/// Reports a violation of the running case from a place that cannot return (allocator, watchdog).
fn emergency(what: &str) -> ! {
    MEM_CAP.store(usize::MAX, Relaxed);
    let g = match NOW.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    if let Some(n) = &*g {
        let path = format!("{}/evidence/replay/{}-{}-{}.json", n.dir, n.prop, n.section, n.idx);
        let _ = std::fs::create_dir_all(format!("{}/evidence/replay", n.dir));
        let body = json!({"property": n.prop, "section": n.section, "index": n.idx, "seed": n.seed, "tier": n.tier, "signature": what, "detail": what});
        let _ = std::fs::write(&path, body.to_string());
        println!("  {}/{}: {}", n.section, n.idx, what);
        println!("VIOLATION property={} replay={}", n.prop, path);
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}

fn cpu_secs() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    let u: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    (t + u) / 100.0
}

/// A case that burns this much CPU time is reported as non-terminating; cases
/// normally take milliseconds.  CPU time, so machine load cannot trigger it.
static CPU_LIMIT: AtomicU64 = AtomicU64::new(40);
/// Wall-clock limit per case; its firing is inconclusive.
static WALL_LIMIT: AtomicU64 = AtomicU64::new(240);

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut cpu0 = 0.0;
        let mut t0 = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CASE_NO.load(Relaxed);
            if !IN_CASE.load(Relaxed) || c != last {
                last = c;
                cpu0 = cpu_secs();
                t0 = Instant::now();
                continue;
            }
            if cpu_secs() - cpu0 > CPU_LIMIT.load(Relaxed) as f64 {
                emergency("does not terminate: one case used more CPU time than its limit");
            }
            if t0.elapsed().as_secs() > WALL_LIMIT.load(Relaxed) {
                println!("INCONCLUSIVE: case exceeded its wall-clock limit");
                std::process::exit(3);
            }
        }
    });
}

impl Cx {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.into());
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    pub fn extra(&mut self, k: &str, v: Value) {
        self.extra.insert(k.into(), v);
    }
    pub fn cpu_limit(&mut self, s: u64) {
        CPU_LIMIT.store(s, Relaxed);
    }
    /// Cap of the live heap (untouched zero pages count, too).
    pub fn mem_limit(&mut self, bytes: usize) {
        MEM_CAP.store(live_bytes() + bytes, Relaxed);
    }
    pub fn wall_limit(&mut self, s: u64) {
        WALL_LIMIT.store(s, Relaxed);
    }
    /// The run is inconclusive unless at least `n` events `what` were observed.
    pub fn require(&mut self, what: &str, n: u64) {
        if self.only.is_none() {
            self.requires.push((what.into(), n));
        }
    }
    pub fn count(&self, what: &str) -> u64 {
        self.counts.get(what).copied().unwrap_or(0)
    }
    pub fn has_violations(&self) -> bool {
        !self.viols.is_empty()
    }

    /// Runs `quick` or `thorough` cases of one monitor; each gets its own PRNG.
    pub fn cases(&mut self, section: &str, quick: u64, thorough: u64, mut f: impl FnMut(&mut R, u64, &mut Obs) -> CaseResult) {
        let n = if self.thorough() { thorough } else { quick };
        let mut failures = 0;
        for idx in 0..n {
            if let Some((s, i)) = &self.only {
                if s != section || *i != idx {
                    continue;
                }
            }
            if self.start.elapsed() > self.budget {
                *self.counts.entry(format!("budget_cut/{section}")).or_default() += n - idx;
                break;
            }
            if !self.run_case(section, idx, &mut f) {
                failures += 1;
                if failures >= 3 {
                    break;
                }
            }
        }
    }

    fn run_case(&mut self, section: &str, idx: u64, f: &mut impl FnMut(&mut R, u64, &mut Obs) -> CaseResult) -> bool {
        let mut rng = R::new(self.seed, &format!("{}/{}", self.prop, section), idx);
        let mut obs = Obs::default();
        if let Ok(mut g) = NOW.lock() {
            *g = Some(Now { prop: self.prop.clone(), section: section.into(), idx, seed: self.seed, tier: self.tier.clone(), dir: self.dir.clone() });
        }
        if let Some(f) = &self.marker {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{idx} {section:<40}\n").as_bytes(), 0);
        }
        CASE_NO.fetch_add(1, Relaxed);
        IN_CASE.store(true, Relaxed);
        let r = panic::catch_unwind(AssertUnwindSafe(|| f(&mut rng, idx, &mut obs)));
        IN_CASE.store(false, Relaxed);
        self.evals += 1 + obs.evals;
        *self.counts.entry(format!("cases/{section}")).or_default() += 1;
        for (k, n) in obs.counts {
            *self.counts.entry(k).or_default() += n;
        }
        for k in obs.keys {
            if self.distinct.len() < 4_000_000 {
                self.distinct.insert(k);
            }
        }
        let fail = match r {
            Ok(Ok(())) => {
                if let Some(v) = &obs.input {
                    if (idx == 0 || idx == 7) && self.samples.len() < 24 {
                        self.samples.push(json!({"section": section, "index": idx, "case": v}));
                    }
                }
                return true;
            }
            Ok(Err(e)) => e,
            Err(_) => {
                let (loc, msg) = take_panic();
                if loc.starts_with("src/") || (loc.contains("/verif/") && !loc.contains("/shim/crates/")) {
                    Fail::Harness(format!("harness panicked at {loc}: {msg}"))
                } else {
                    let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
                    Fail::Violation(format!("panic in {file}"), format!("panicked at {loc}: {msg}"))
                }
            }
        };
        match fail {
            Fail::Harness(e) => {
                println!("  harness: {section}/{idx}: {e}");
                self.harness_errors.push(format!("{section}/{idx}: {e}"));
                false
            }
            Fail::Violation(sig, detail) => {
                if self.known.iter().any(|(p, s)| *p == self.prop && *s == sig) {
                    *self.known_hit.entry(sig).or_default() += 1;
                    return true;
                }
                println!("  violated: {section}/{idx}: {detail}");
                self.viols.push(Viol { section: section.into(), idx, sig, detail, input: obs.input });
                false
            }
        }
    }

    fn finish(mut self) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let mut missing = vec![];
        for (w, n) in &self.requires {
            let got = self.counts.get(w).copied().unwrap_or(0);
            if got < *n {
                missing.push(format!("observed {got} of {n} required '{w}'"));
            }
        }
        let level = "exploration";
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(self.evals));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.len()));
        cov.insert("rule".into(), json!(self.rules.join(" ")));
        cov.insert("samples".into(), json!(self.samples));
        cov.insert("observed".into(), json!(self.counts));
        for (k, v) in std::mem::take(&mut self.extra) {
            cov.insert(k, v);
        }
        let ev = json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": cov, "assumptions": self.assumptions, "wall_s": wall,
            "violations": self.viols.len(),
        });
        if self.only.is_none() {
            let _ = std::fs::create_dir_all(format!("{}/evidence", self.dir));
            if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", self.dir, self.prop), serde_json::to_string_pretty(&ev).unwrap()) {
                println!("cannot write evidence: {e}");
                return 2;
            }
        }
        println!(
            "{} tier={} seed={}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s",
            self.prop, self.tier, self.seed, self.evals, self.distinct.len(), self.viols.len(), wall
        );
        for (k, v) in &self.counts {
            println!("    {k} = {v}");
        }
        for (sig, n) in &self.known_hit {
            println!("KNOWN-FINDING: property={} {} (seen {} times)", self.prop, sig, n);
        }
        if !self.viols.is_empty() {
            let _ = std::fs::create_dir_all(format!("{}/evidence/replay", self.dir));
            for v in &self.viols {
                let path = format!("{}/evidence/replay/{}-{}-{}.json", self.dir, self.prop, v.section.replace('/', "_"), v.idx);
                let body = json!({"property": self.prop, "section": v.section, "index": v.idx, "seed": self.seed, "tier": self.tier,
                    "signature": v.sig, "detail": v.detail, "input": v.input});
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
                println!("VIOLATION property={} replay={}", self.prop, path);
            }
            return 1;
        }
        if !self.harness_errors.is_empty() {
            println!("INCONCLUSIVE: {} harness errors", self.harness_errors.len());
            return 2;
        }
        if !missing.is_empty() {
            for m in missing {
                println!("INCONCLUSIVE: {m}");
            }
            return 2;
        }
        if self.only.is_none() && (self.evals == 0 || self.distinct.is_empty()) {
            println!("INCONCLUSIVE: nothing was observed");
            return 2;
        }
        0
    }
}

/// Entry point of a harness binary.  `args`: PROPERTY | replay FILE.
pub fn run(table: &[(&str, fn(&mut Cx))]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    if tier != "thorough" {
        tier = "quick".into();
    }
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut prop = args.get(1).cloned().unwrap_or_default();
    let mut only = None;
    if prop == "replay" {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay json");
        prop = v["property"].as_str().unwrap().to_string();
        seed = v["seed"].as_u64().unwrap();
        tier = v["tier"].as_str().unwrap().to_string();
        only = Some((v["section"].as_str().unwrap().to_string(), v["index"].as_u64().unwrap()));
    }
    let mut known = vec![];
    match std::fs::read_to_string(format!("{dir}/known-findings.json")) {
        Ok(s) => match serde_json::from_str::<Value>(&s) {
            Ok(v) => {
                for e in v["findings"].as_array().cloned().unwrap_or_default() {
                    known.push((e["property"].as_str().unwrap_or("").to_string(), e["signature"].as_str().unwrap_or("").to_string()));
                }
            }
            Err(e) => {
                println!("INCONCLUSIVE: known-findings.json: {e}");
                std::process::exit(2);
            }
        },
        Err(_) => {}
    }
    let Some((_, f)) = table.iter().find(|(n, _)| *n == prop) else {
        println!("unknown property {prop}");
        std::process::exit(2);
    };
    install_hook();
    let budget = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3000 } else { 420 });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let marker = std::fs::File::create(format!("{dir}/evidence/.case-{prop}")).ok();
    let mut cx = Cx {
        marker,
        prop, tier, seed, dir, evals: 0, distinct: HashSet::new(), counts: BTreeMap::new(), samples: vec![], viols: vec![],
        harness_errors: vec![], rules: vec![], assumptions: vec![], only, start: Instant::now(), known, known_hit: BTreeMap::new(),
        requires: vec![], extra: BTreeMap::new(), budget: Duration::from_secs(budget),
    };
    // Big stack: deep but legitimate recursion in generators must not abort the run.
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn_scoped_static(move || {
        MEM_CAP.store(live_bytes() + (6usize << 30), Relaxed);
        watchdog();
        f(&mut cx);
        cx.finish()
    });
    let code = match h {
        Ok(c) => c,
        Err(_) => {
            let (l, m) = take_panic();
            println!("INCONCLUSIVE: harness panicked at {l}: {m}");
            2
        }
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

trait SpawnStatic {
    fn spawn_scoped_static(self, f: impl FnOnce() -> i32 + Send) -> std::thread::Result<i32>;
}
impl SpawnStatic for std::thread::Builder {
    fn spawn_scoped_static(self, f: impl FnOnce() -> i32 + Send) -> std::thread::Result<i32> {
        std::thread::scope(|s| self.spawn_scoped(s, f).expect("spawn").join())
    }
}
