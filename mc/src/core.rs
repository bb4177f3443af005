//! Shared machinery: bounded exhaustive enumeration bookkeeping, crash containment,
//! known findings, replay artefacts and evidence files.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Outcome of one case: Ok(label) where label 0 means "trivial"; Err(detail) is a violation.
pub type Outcome = Result<u64, String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err(format!($($arg)*)); } };
}

/// FNV-1a, used for outcome hashes and distinctness counting.
pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &b in data {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h | 1
}
pub fn hstr(s: &str) -> u64 {
    fnv(s.as_bytes())
}
pub fn hf(vals: &[f64]) -> u64 {
    let mut v = Vec::with_capacity(vals.len() * 8);
    for x in vals {
        v.extend_from_slice(&x.to_bits().to_le_bytes());
    }
    fnv(&v)
}

#[derive(Default)]
pub struct Local {
    pub evals: u64,
    nontrivial: HashSet<u64>,
    outcomes: HashSet<u64>,
    sections: BTreeMap<String, u64>,
    violations: BTreeMap<String, String>,
    viol_total: u64,
    samples: BTreeMap<String, (String, u64)>,
    pub transitions: u64,
    pub states: u64,
    pub traces: u64,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: RefCell<usize> = const { RefCell::new(0) };
}

pub const NSLOT: usize = 64;
struct Slot {
    since_ms: AtomicU64,
    key: Mutex<String>,
}
struct Watch {
    slots: Vec<Slot>,
    next: AtomicUsize,
    t0: Instant,
}
static WATCH: std::sync::LazyLock<Watch> = std::sync::LazyLock::new(|| Watch {
    slots: (0..NSLOT).map(|_| Slot { since_ms: AtomicU64::new(0), key: Mutex::new(String::new()) }).collect(),
    next: AtomicUsize::new(0),
    t0: Instant::now(),
});

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Runs code that may panic; Err carries message and location.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panicked: {}", last_panic())),
    }
}

impl Local {
    /// Executes one case: containment, counting, distinctness, violation record.
    pub fn case(&mut self, section: &str, key: &str, f: impl FnOnce() -> Outcome) {
        self.evals += 1;
        *self.sections.entry(section.to_string()).or_insert(0) += 1;
        let full = format!("{section}/{key}");
        enter(&full);
        let r = catch_unwind(AssertUnwindSafe(f));
        leave();
        let out = match r {
            Ok(Ok(v)) => {
                if v != 0 {
                    self.nontrivial.insert(hstr(&full));
                    self.outcomes.insert(v);
                }
                if v != 0 || !self.samples.contains_key(section) {
                    let e = self.samples.entry(section.to_string()).or_insert_with(|| (full.clone(), v));
                    if e.1 == 0 {
                        *e = (full.clone(), v);
                    }
                }
                return;
            }
            Ok(Err(d)) => d,
            Err(_) => format!("panicked: {}", last_panic()),
        };
        self.violate(full, out);
    }
    pub fn violate(&mut self, full: String, detail: String) {
        self.viol_total += 1;
        if self.violations.len() < 4000 {
            self.violations.entry(full).or_insert(detail);
        }
    }
}

fn enter(key: &str) {
    let i = SLOT.with(|s| {
        let mut s = s.borrow_mut();
        if *s == 0 {
            *s = 1 + WATCH.next.fetch_add(1, Ordering::Relaxed) % NSLOT;
        }
        *s - 1
    });
    let sl = &WATCH.slots[i];
    *sl.key.lock().unwrap() = key.to_string();
    sl.since_ms.store(1 + WATCH.t0.elapsed().as_millis() as u64, Ordering::Release);
    CRASHLOG.with(|c| {
        if let Some(f) = c.borrow_mut().as_mut() {
            use std::os::unix::fs::FileExt;
            let mut b = [b' '; 400];
            let k = key.as_bytes();
            let n = k.len().min(399);
            b[..n].copy_from_slice(&k[..n]);
            b[399] = b'\n';
            let _ = f.write_all_at(&b, 0);
        }
    });
}
fn leave() {
    let i = SLOT.with(|s| *s.borrow()) - 1;
    WATCH.slots[i].since_ms.store(0, Ordering::Release);
    CRASHLOG.with(|c| {
        if let Some(f) = c.borrow_mut().as_mut() {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(&[b' '; 400], 0);
        }
    });
}
thread_local! {
    /// When set (crash-prone checks), the running case is written here before it runs, so that
    /// the parent process can name it if the child is killed by a signal.
    static CRASHLOG: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
}

pub struct Ctx {
    pub id: &'static str,
    pub level: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub rule: &'static str,
    pub assumptions: Vec<String>,
    pub extra: Mutex<BTreeMap<String, serde_json::Value>>,
    pub crash_dir: Option<String>,
    agg: Mutex<Local>,
    t0: Instant,
    pub exhaustive: bool,
}

pub const CASE_LIMIT_S: u64 = 120;

impl Ctx {
    pub fn new(id: &'static str, level: &'static str, tier: Tier, rule: &'static str) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Ctx {
            id, level, tier, seed, rule,
            assumptions: vec![],
            extra: Mutex::new(BTreeMap::new()),
            crash_dir: std::env::var("MC_CRASH_DIR").ok(),
            agg: Mutex::new(Local::default()),
            t0: Instant::now(),
            exhaustive: true,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Parameter by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn note(&self, k: &str, v: impl Into<serde_json::Value>) {
        self.extra.lock().unwrap().insert(k.to_string(), v.into());
    }
    /// Runs `f` on every item, on all cores; every item is executed (no sampling, no early stop).
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&mut Local, &T) + Sync) {
        let next = AtomicUsize::new(0);
        let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8);
        std::thread::scope(|s| {
            for _ in 0..nthreads.min(items.len().max(1)) {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || {
                        if let Some(d) = &self.crash_dir {
                            let n = WATCH.next.load(Ordering::Relaxed);
                            let id = format!("{:?}-{n}", std::thread::current().id());
                            let p = format!("{d}/case-{}", id.replace(['(', ')'], "_"));
                            CRASHLOG.with(|c| *c.borrow_mut() = std::fs::File::create(p).ok());
                        }
                        let mut l = Local::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= items.len() {
                                break;
                            }
                            let r = catch_unwind(AssertUnwindSafe(|| f(&mut l, &items[i])));
                            if r.is_err() {
                                l.violate(format!("item/{i}"), format!("harness item panicked: {}", last_panic()));
                            }
                        }
                        self.merge(l);
                    })
                    .expect("spawn");
            }
        });
    }
    pub fn merge(&self, l: Local) {
        let mut a = self.agg.lock().unwrap();
        a.evals += l.evals;
        a.nontrivial.extend(l.nontrivial);
        a.outcomes.extend(l.outcomes);
        for (k, v) in l.sections {
            *a.sections.entry(k).or_insert(0) += v;
        }
        a.viol_total += l.viol_total;
        for (k, v) in l.violations {
            if a.violations.len() < 4000 {
                a.violations.entry(k).or_insert(v);
            }
        }
        for (k, v) in l.samples {
            let e = a.samples.entry(k).or_insert_with(|| v.clone());
            if e.1 == 0 {
                *e = v;
            }
        }
        a.transitions += l.transitions;
        a.states += l.states;
        a.traces += l.traces;
    }

    /// Writes evidence, prints verdict lines, returns the exit code.
    pub fn finish(self) -> i32 {
        let a = self.agg.into_inner().unwrap();
        let verif = verif_dir();
        let known = load_known(&verif, self.id);
        let only = std::env::var("MC_ONLY").ok();
        let mut new: Vec<(&String, &String)> = vec![];
        let mut hit: BTreeMap<String, u64> = BTreeMap::new();
        for (k, d) in &a.violations {
            if let Some(o) = &only {
                if o != k {
                    continue;
                }
            }
            match known.iter().find(|(kk, _)| kk == k) {
                Some((kk, _)) => *hit.entry(kk.clone()).or_insert(0) += 1,
                None => new.push((k, d)),
            }
        }
        for (k, what) in &known {
            if hit.contains_key(k) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.id, what, k);
            }
        }
        let rdir = format!("{verif}/replays");
        let _ = std::fs::create_dir_all(&rdir);
        for (i, (k, d)) in new.iter().enumerate().take(10) {
            let p = format!("{rdir}/{}-{}.txt", self.id, i);
            let _ = std::fs::write(&p, format!("property: {}\ncase: {k}\ndetail: {d}\nreplay: MC_ONLY='{k}' ./check.sh {} {}\n", self.id, self.id, if self.tier == Tier::Quick { "quick" } else { "thorough" }));
            println!("VIOLATION property={} replay={p}", self.id);
            println!("  case {k}: {}", d.chars().take(600).collect::<String>());
        }
        if !new.is_empty() {
            let all: String = new.iter().map(|(k, d)| format!("{k}\t{}\n", d.replace('\n', " "))).collect();
            let _ = std::fs::write(format!("{rdir}/{}-all.txt", self.id), all);
        }
        if new.len() > 10 {
            println!("  ... {} violating cases in total", new.len());
        }
        let wall = self.t0.elapsed().as_secs_f64();
        let samples: Vec<serde_json::Value> = a.samples.values().map(|(s, o)| serde_json::json!({"case": s, "outcome": format!("{o:016x}")})).collect();
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), a.evals.into());
        cov.insert("distinct_nontrivial".into(), (a.nontrivial.len() as u64).into());
        cov.insert("distinct_outcomes".into(), (a.outcomes.len() as u64).into());
        cov.insert("rule".into(), self.rule.into());
        cov.insert("samples".into(), samples.into());
        cov.insert("cases_per_section".into(), serde_json::to_value(&a.sections).unwrap());
        cov.insert("exhaustive".into(), self.exhaustive.into());
        if self.level == "model_checking" {
            cov.insert("states".into(), a.states.into());
            cov.insert("transitions".into(), a.transitions.into());
            cov.insert("traces_validated_against_impl".into(), a.traces.into());
        }
        for (k, v) in self.extra.into_inner().unwrap() {
            cov.insert(k, v);
        }
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": new.len(),
        });
        let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
        let ep = format!("{verif}/evidence/{}.json", self.id);
        std::fs::write(&ep, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
        println!(
            "{} {}: {} cases, {} distinct non-trivial, {} distinct outcomes, {} violating ({} known), {:.1}s",
            self.id, if self.tier == Tier::Quick { "quick" } else { "thorough" },
            a.evals, a.nontrivial.len(), a.outcomes.len(), a.viol_total, hit.len(), wall
        );
        for (k, v) in &a.sections {
            println!("    {k}: {v}");
        }
        let _ = std::io::stdout().flush();
        if new.is_empty() { 0 } else { 1 }
    }
}

pub fn verif_dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

/// Lines `known: property=<id> case=<exact key> :: <what>`.
fn load_known(verif: &str, id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{verif}/known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={id} case=")) {
                if let Some((k, w)) = r.split_once(" :: ") {
                    v.push((k.trim().to_string(), w.trim().to_string()));
                }
            }
        }
    }
    v
}

/// Watchdog: a single case running longer than CASE_LIMIT_S is a non-termination violation.
pub fn start_watchdog(id: &'static str) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = WATCH.t0.elapsed().as_millis() as u64;
        for s in &WATCH.slots {
            let t = s.since_ms.load(Ordering::Acquire);
            if t != 0 && now > t + CASE_LIMIT_S * 1000 {
                let key = s.key.lock().unwrap().clone();
                if s.since_ms.load(Ordering::Acquire) != t {
                    continue;
                }
                report_fatal(id, &key, &format!("case did not terminate within {CASE_LIMIT_S} s"));
                std::process::exit(1);
            }
        }
    });
}

pub fn report_fatal(id: &str, key: &str, detail: &str) {
    let verif = verif_dir();
    let rdir = format!("{verif}/replays");
    let _ = std::fs::create_dir_all(&rdir);
    let p = format!("{rdir}/{id}-fatal.txt");
    let _ = std::fs::write(&p, format!("property: {id}\ncase: {key}\ndetail: {detail}\n"));
    println!("VIOLATION property={id} replay={p}");
    println!("  case {key}: {detail}");
    let ev = serde_json::json!({
        "property": id, "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()), "seed": 1, "level": "other",
        "coverage": {"explanation": format!("run ended by fatal case {key}: {detail}")}, "wall_s": 0.0, "violations": 1
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    let _ = std::fs::write(format!("{verif}/evidence/{id}.json"), ev.to_string());
    let _ = std::io::stdout().flush();
}

// ---------------------------------------------------------------- enumeration helpers
/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..used.len() {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                go(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], &mut vec![false; n], &mut out);
    out
}
/// All sequences over 0..k of length 0..=maxlen, shortest first.
pub fn sequences(k: usize, maxlen: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut start = 0;
    for _ in 0..maxlen {
        let end = out.len();
        for i in start..end {
            for a in 0..k {
                let mut s = out[i].clone();
                s.push(a);
                out.push(s);
            }
        }
        start = end;
    }
    out
}
pub fn linspace(a: f64, b: f64, n: usize) -> Vec<f64> {
    (0..n).map(|i| if n == 1 { a } else { a + (b - a) * i as f64 / (n - 1) as f64 }).collect()
}
/// Cartesian product index iterator: calls f with the index vector for each combination.
pub fn product(dims: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for &d in dims {
        let mut n = Vec::with_capacity(out.len() * d);
        for p in &out {
            for i in 0..d {
                let mut q: Vec<usize> = p.clone();
                q.push(i);
                n.push(q);
            }
        }
        out = n;
    }
    out
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol || (a.is_nan() && b.is_nan())
}
pub fn rel(a: f64, b: f64) -> f64 {
    (a - b).abs() / a.abs().max(b.abs()).max(1e-300)
}

// ---------------------------------------------------------------- resource limits for hostile inputs
/// The system allocator, with a cap on single requests of threads that ask for one: a request past the
/// cap fails, the process aborts and the running case is reported.
pub struct CapAlloc;
thread_local! {
    static CAP: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
    static LIVE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
}
fn count(by: isize) {
    let _ = LIVE.try_with(|c| c.set(c.get() + by));
}
/// Bytes the calling thread has allocated and not freed.
pub fn live_bytes() -> isize {
    LIVE.with(|c| c.get())
}
unsafe impl std::alloc::GlobalAlloc for CapAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if CAP.try_with(|c| l.size() > c.get()).unwrap_or(false) {
            return std::ptr::null_mut();
        }
        count(l.size() as isize);
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(-(l.size() as isize));
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if CAP.try_with(|c| l.size() > c.get()).unwrap_or(false) {
            return std::ptr::null_mut();
        }
        count(l.size() as isize);
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if CAP.try_with(|c| n > c.get()).unwrap_or(false) {
            return std::ptr::null_mut();
        }
        count(n as isize - l.size() as isize);
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}
#[global_allocator]
static ALLOC: CapAlloc = CapAlloc;
pub fn with_alloc_cap<T>(bytes: usize, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            let _ = CAP.try_with(|c| c.set(usize::MAX));
        }
    }
    CAP.with(|c| c.set(bytes));
    let _r = Reset;
    f()
}
/// Processor time of the calling thread, in seconds.
pub fn thread_cpu() -> f64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    unsafe extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}

/// Entry point of a harness binary: `<binary> <PROPERTY> <quick|thorough>`.
pub fn run_main(checks: &[(&'static str, fn(Tier) -> Ctx)]) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: mc <ID> <quick|thorough>");
        std::process::exit(2);
    }
    let id = args[1].clone();
    let tier = if args.get(2).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let Some((sid, f)) = checks.iter().copied().find(|(k, _)| *k == id) else {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    };
    // Parent/child split: a child killed by a signal (stack overflow, abort, memory cap) is a
    // violation of the running case, attributed by the parent through the crash directory.
    if std::env::var("MC_CHILD").is_err() {
        let dir = std::env::temp_dir().join(format!("mc-{}-{}", sid, std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(&args[1..])
            .env("MC_CHILD", "1")
            .env("MC_CRASH_DIR", &dir)
            .status();
        let code = match st {
            Ok(s) => match s.code() {
                Some(c) if c == 0 || c == 1 => c,
                Some(c) => {
                    eprintln!("child exit code {c}");
                    3
                }
                None => {
                    use std::os::unix::process::ExitStatusExt;
                    let sig = s.signal().unwrap_or(0);
                    if sig == 9 || sig == 15 {
                        eprintln!("child killed by signal {sig}");
                        4
                    } else {
                        let mut keys = vec![];
                        if let Ok(rd) = std::fs::read_dir(&dir) {
                            for e in rd.flatten() {
                                if let Ok(t) = std::fs::read_to_string(e.path()) {
                                    let t = t.trim().to_string();
                                    if !t.is_empty() {
                                        keys.push(t);
                                    }
                                }
                            }
                        }
                        keys.sort();
                        report_fatal(sid, &keys.join(" | "), &format!("process died with signal {sig} while running one of these cases"));
                        1
                    }
                }
            },
            Err(e) => {
                eprintln!("spawn: {e}");
                5
            }
        };
        let _ = std::fs::remove_dir_all(&dir);
        std::process::exit(code);
    }
    install_panic_hook();
    start_watchdog(sid);
    let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || f(tier).finish()).unwrap().join();
    match r {
        Ok(c) => std::process::exit(c),
        Err(_) => {
            eprintln!("check harness panicked: {}", last_panic());
            std::process::exit(6);
        }
    }
}
