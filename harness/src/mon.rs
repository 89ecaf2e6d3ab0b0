//! Monitoring framework: seeded workloads run by worker threads, oracles that
//! judge every observed execution, counters of what was actually observed.
use rand::{Rng, RngExt, SeedableRng};
use rand_chacha::ChaCha8Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub enum Fail {
    /// The library broke the property. `sig` is a stable key of what failed.
    Violation { sig: String, msg: String },
    /// The harness itself failed; never reported as a violation.
    Harness(String),
    /// The case could not be built (e.g. no such parameters); counted.
    Skip(&'static str),
}
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! viol {
    ($sig:expr, $($a:tt)*) => {
        return Err($crate::mon::Fail::Violation { sig: ($sig).to_string(), msg: format!($($a)*) })
    };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($a:tt)*) => {
        if !($cond) { $crate::viol!($sig, $($a)*); }
    };
}

pub trait Lib<T> {
    /// A library call that must succeed.
    fn lib(self, sig: &str) -> R<T>;
    /// A library call used to prepare the case; failing it is a harness error.
    fn prep(self, what: &str) -> R<T>;
}
impl<T, E: std::fmt::Debug> Lib<T> for Result<T, E> {
    #[track_caller]
    fn lib(self, sig: &str) -> R<T> {
        let loc = std::panic::Location::caller();
        self.map_err(|e| Fail::Violation {
            sig: format!("{sig}:unexpected-error"),
            msg: format!("{sig}: unexpected error {e:?} (monitor at {loc})"),
        })
    }
    #[track_caller]
    fn prep(self, what: &str) -> R<T> {
        let loc = std::panic::Location::caller();
        self.map_err(|e| Fail::Harness(format!("{what}: {e:?} at {loc}")))
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Cx {
    pub rng: ChaCha8Rng,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub stats: Stats,
    pub sample: Option<String>,
    pub trace: Vec<String>,
    /// Results another build must reproduce.
    pub outs: Vec<(&'static str, u64)>,
}
impl Cx {
    pub fn out(&mut self, k: &'static str, b: &[u8]) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        b.hash(&mut h);
        self.outs.push((k, h.finish()));
    }
    /// Count monitored events of one kind.
    pub fn ev(&mut self, k: &str, n: u64) {
        if let Some(v) = self.stats.counters.get_mut(k) {
            *v += n;
        } else {
            self.stats.counters.insert(k.to_string(), n);
        }
    }
    /// Register a distinct, non-trivial situation.
    pub fn seen<H: Hash>(&mut self, h: H) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.stats.distinct.insert(s.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn tr(&mut self, s: String) {
        self.trace.push(s);
    }
    pub fn u(&mut self, n: usize) -> usize {
        self.rng.random_range(0..n)
    }
    pub fn range(&mut self, a: usize, b_incl: usize) -> usize {
        self.rng.random_range(a..=b_incl)
    }
    pub fn coin(&mut self, num: u32, den: u32) -> bool {
        self.rng.random_range(0..den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.u(v.len());
        &v[i]
    }
    pub fn u64(&mut self) -> u64 {
        self.rng.next_u64()
    }
    pub fn fork(&mut self) -> ChaCha8Rng {
        let mut s = [0u8; 32];
        self.rng.fill_bytes(&mut s);
        ChaCha8Rng::from_seed(s)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(true) };
}
#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub loc: String,
    pub msg: String,
    pub in_harness: bool,
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        // Who panicked: the innermost frame that belongs either to the library
        // under test or to this harness decides (a dependency's panic belongs
        // to whoever called it).
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        let mut in_harness = loc.starts_with("src/") || loc.contains("/verif/");
        for l in bt.lines() {
            let l = l.trim_start();
            let Some((n, name)) = l.split_once(": ") else { continue };
            if n.parse::<u32>().is_err() || name.contains("install_hook") {
                continue;
            }
            let lib = ["fhe::", "fhe_math::", "fhe_util::", "fhe_traits::"]
                .iter()
                .filter_map(|p| name.find(p))
                .min();
            let har = name.find("fhemon::");
            match (lib, har) {
                (Some(_), None) => {
                    in_harness = false;
                    break;
                }
                (None, Some(_)) => {
                    in_harness = true;
                    break;
                }
                (Some(a), Some(b)) => {
                    in_harness = b < a;
                    break;
                }
                _ => {}
            }
        }
        if msg.contains("unsafe precondition") {
            // The process is about to be aborted.
            eprintln!("undefined behaviour: {msg} at {loc}\n{bt}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(PanicInfo { loc, msg, in_harness }));
    }));
}
/// Run library code, catching a panic.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC.with(|p| {
            p.borrow_mut().take().unwrap_or(PanicInfo {
                loc: "?".into(),
                msg: "?".into(),
                in_harness: false,
            })
        })
    })
}
/// Keep only the file name and drop volatile numbers, so that signatures are
/// stable across edits that move lines.
pub fn panic_sig(p: &PanicInfo) -> String {
    let file = p.loc.split(':').next().unwrap_or("");
    let file = file.rsplit("/crates/").next().unwrap_or(file);
    let file = file.rsplit('/').next().unwrap_or(file);
    let mut m: String = p
        .msg
        .chars()
        .take(60)
        .map(|c| if c.is_ascii_digit() { '#' } else if c.is_whitespace() { ' ' } else { c })
        .collect();
    while m.contains("##") {
        m = m.replace("##", "#");
    }
    format!("panic:{file}:{m}")
}
/// Turn a panic of library code into a violation, and one of the harness into
/// a harness error.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    catching(f).map_err(|p| {
        if p.in_harness {
            Fail::Harness(format!("{what}: harness panic at {}: {}", p.loc, p.msg))
        } else {
            Fail::Violation {
                sig: format!("{what}:{}", panic_sig(&p)),
                msg: format!("{what}: panicked at {}: {}", p.loc, p.msg),
            }
        }
    })
}

pub struct Workload {
    pub name: &'static str,
    pub weight: u32,
    /// Maximum number of cases (0: no limit but time).
    pub max: u64,
    pub f: fn(&mut Cx) -> R,
}
pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub workloads: Vec<Workload>,
    /// Events that must have been observed, or the run is inconclusive.
    pub required: Vec<&'static str>,
    pub finish: Option<fn(&mut Stats) -> R>,
}

pub struct Violation {
    pub workload: String,
    pub idx: u64,
    pub sig: String,
    pub msg: String,
    pub trace: Vec<String>,
}
pub struct Outcome {
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub harness: Vec<String>,
    pub cases: u64,
    pub wall: f64,
}

pub fn case_rng(prop: &str, wl: &str, seed: u64, idx: u64) -> ChaCha8Rng {
    // FNV-1a over the names: stable across builds.
    let mut h: u64 = 0xcbf29ce484222325;
    for b in prop.bytes().chain([0]).chain(wl.bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&h.to_le_bytes());
    s[8..16].copy_from_slice(&seed.to_le_bytes());
    s[16..24].copy_from_slice(&idx.to_le_bytes());
    ChaCha8Rng::from_seed(s)
}

/// File recording, per worker, the case it is executing, so that the runner
/// can attribute an abnormal death of the process.
pub static INFLIGHT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
pub static TRANSCRIPT: std::sync::OnceLock<Mutex<std::io::BufWriter<std::fs::File>>> = std::sync::OnceLock::new();
pub fn inflight(worker: usize, s: &str) {
    if let Some(f) = INFLIGHT.get() {
        use std::os::unix::fs::FileExt;
        let _ = f.write_all_at(format!("{s:<63}\n").as_bytes(), worker as u64 * 64);
    }
}

pub fn run_case(p: &Property, w: &Workload, seed: u64, idx: u64, thorough: bool) -> (Cx, R) {
    let mut cx = Cx {
        rng: case_rng(p.id, w.name, seed, idx),
        idx,
        seed,
        thorough,
        stats: Stats::default(),
        sample: None,
        trace: vec![],
        outs: vec![],
    };
    let r = match catching(|| (w.f)(&mut cx)) {
        Ok(r) => r,
        Err(pi) if pi.in_harness => Err(Fail::Harness(format!(
            "harness panic at {}: {}",
            pi.loc, pi.msg
        ))),
        Err(pi) => Err(Fail::Violation {
            sig: panic_sig(&pi),
            msg: format!("library panicked at {}: {}", pi.loc, pi.msg),
        }),
    };
    (cx, r)
}

pub fn run(p: &Property, seed: u64, secs: f64, threads: usize, thorough: bool, max_cases: u64) -> Outcome {
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(secs);
    let mut order: Vec<usize> = vec![];
    // Interleave workloads according to their weights.
    let maxw = p.workloads.iter().map(|w| w.weight).max().unwrap_or(1);
    for round in 0..maxw {
        for (i, w) in p.workloads.iter().enumerate() {
            if round * w.weight / maxw != (round + 1) * w.weight / maxw {
                order.push(i);
            }
        }
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let stats = Mutex::new(Stats::default());
    let violations = Mutex::new(Vec::<Violation>::new());
    let harness = Mutex::new(Vec::<String>::new());
    let cases = AtomicU64::new(0);
    std::thread::scope(|s| {
        for worker in 0..threads {
            let (next, stop, stats, violations, harness, cases, order) =
                (&next, &stop, &stats, &violations, &harness, &cases, &order);
            s.spawn(move || {
                let mut local = Stats::default();
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let n = next.fetch_add(1, Ordering::Relaxed);
                    if max_cases != 0 && n >= max_cases {
                        break;
                    }
                    // The first pass over all workloads always completes.
                    if n >= order.len() as u64 && Instant::now() >= deadline {
                        break;
                    }
                    let wi = order[(n % order.len() as u64) as usize];
                    let w = &p.workloads[wi];
                    // Index of this case within its workload.
                    let pass = n / order.len() as u64;
                    let per: u64 = order.iter().filter(|&&x| x == wi).count() as u64;
                    let before = order[..(n % order.len() as u64) as usize]
                        .iter()
                        .filter(|&&x| x == wi)
                        .count() as u64;
                    let idx = pass * per + before;
                    if w.max != 0 && idx >= w.max {
                        if p.workloads.iter().all(|w| w.max != 0)
                            && pass > p.workloads.iter().map(|w| w.max).max().unwrap()
                        {
                            break;
                        }
                        continue;
                    }
                    inflight(worker, &format!("{} {idx}", w.name));
                    let (cx, r) = run_case(p, w, seed, idx, thorough);
                    cases.fetch_add(1, Ordering::Relaxed);
                    *local
                        .counters
                        .entry(format!("cases:{}", w.name))
                        .or_insert(0) += 1;
                    if let Some(t) = TRANSCRIPT.get() {
                        let mut l = format!("{} {idx}", w.name);
                        for (k, h) in &cx.outs {
                            l += &format!(" {k}:{h:016x}");
                        }
                        if let Err(Fail::Violation { sig, .. }) = &r {
                            l += &format!(" violated:{}", sig.replace(' ', "_"));
                        }
                        use std::io::Write;
                        let _ = writeln!(t.lock().unwrap(), "{l}");
                    }
                    let mut st = cx.stats;
                    if let Some(s) = cx.sample {
                        if idx < 2 {
                            st.samples.push(format!("{}#{idx}: {s}", w.name));
                        }
                    }
                    local.merge(st);
                    match r {
                        Ok(()) => {}
                        Err(Fail::Skip(why)) => {
                            *local.counters.entry(format!("skipped:{why}")).or_insert(0) += 1;
                        }
                        Err(Fail::Harness(e)) => {
                            let mut h = harness.lock().unwrap();
                            h.push(format!("{}#{idx}: {e}", w.name));
                            if h.len() > 20 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        Err(Fail::Violation { sig, msg }) => {
                            let mut v = violations.lock().unwrap();
                            // Keep a handful per signature, so that one known
                            // failure does not hide another.
                            let same = v.iter().filter(|x| x.sig == sig).count();
                            if same < 3 {
                                v.push(Violation {
                                    workload: w.name.into(),
                                    idx,
                                    sig,
                                    msg,
                                    trace: cx.trace,
                                });
                            }
                            if v.len() > 60 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                }
                inflight(worker, "-");
                stats.lock().unwrap().merge(local);
            });
        }
    });
    let mut stats = stats.into_inner().unwrap();
    let mut violations = violations.into_inner().unwrap();
    let mut harness = harness.into_inner().unwrap();
    if let Some(f) = p.finish {
        match f(&mut stats) {
            Ok(()) | Err(Fail::Skip(_)) => {}
            Err(Fail::Harness(e)) => harness.push(e),
            Err(Fail::Violation { sig, msg }) => violations.push(Violation {
                workload: "finish".into(),
                idx: 0,
                sig,
                msg,
                trace: vec![],
            }),
        }
    }
    Outcome {
        stats,
        violations,
        harness,
        cases: cases.into_inner(),
        wall: t0.elapsed().as_secs_f64(),
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
