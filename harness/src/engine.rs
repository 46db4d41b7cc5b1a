//! Property-based testing engine.
//!
//! Every random decision of a case is a draw from a choice tape ([`Src`]). A
//! fresh tape is filled by a PRNG seeded from (VERIF_SEED, property, case
//! number); a replayed or shrunk tape is read back, with zeroes once exhausted.
//! Shrinking therefore works on the tape, for any property, without
//! per-generator shrinkers.
//!
//! The parent process starts worker processes; each runs every W-th case. A
//! worker records the case number before it starts a case, so that a crash that
//! takes the whole process down (stack overflow, abort) is attributed to a case,
//! and shrunk by running candidate tapes in further processes.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- choice tape

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub struct Src {
    tape: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: Vec<u32>) -> Self {
        Src { tape, pos: 0, rng: None }
    }
    pub fn used(&self) -> &[u32] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
    /// A value in 0..n. Smaller values are "simpler".
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        if n <= 1 {
            return 0;
        }
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos]
        } else if let Some(rng) = &mut self.rng {
            let v = (rng.next() >> 32) as u32;
            // Store reduced, so that the tape is readable and shrinks well.
            let v = v % (n as u32);
            self.tape.push(v);
            v
        } else {
            0
        };
        self.pos += 1;
        (v as usize) % n
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    /// True with probability num/den; shrinks towards false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn pick_str(&mut self, xs: &[&'static str]) -> &'static str {
        let i = self.below(xs.len());
        xs[i]
    }
    /// Index by weight.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
}

pub fn hash64(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^= h >> 29;
    h.wrapping_mul(0x94D0_49BB_1331_11EB)
}

// ------------------------------------------------------------------ case data

/// What one case reports about itself.
#[derive(Default)]
pub struct Cx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub input: String,
    pub discarded: bool,
    /// Run in verbose replay mode.
    pub verbose: bool,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn set_input(&mut self, s: impl Into<String>) {
        self.input = s.into();
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

#[derive(Debug, Clone)]
pub struct Failure {
    /// Short stable identification of what failed.
    pub kind: String,
    pub message: String,
}

impl Failure {
    pub fn new(kind: impl Into<String>, message: impl Into<String>) -> Self {
        Failure { kind: kind.into(), message: message.into() }
    }
}

pub type Outcome = Result<(), Failure>;

#[macro_export]
macro_rules! fail {
    ($kind:expr, $($arg:tt)*) => {
        return Err($crate::engine::Failure::new($kind, format!($($arg)*)))
    };
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $kind:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::Failure::new($kind, format!($($arg)*)));
        }
    };
}

pub struct Property {
    pub id: &'static str,
    pub quick_cases: u64,
    pub thorough_cases: u64,
    /// Upper bound of the logged steps of one case.
    pub budget: u64,
    /// What running out of the budget means.
    pub over_budget: OverBudget,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Src, &mut Cx) -> Outcome,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum OverBudget {
    /// The case is not judged (counted as discarded).
    Discard,
    /// The property bounds the work: a violation.
    Violation,
}

// ------------------------------------------------------- step-counting logger

/// ftml logs every parser step through the `log` crate. Counting the records
/// gives a deterministic measure of the work done, and a way out of endless
/// loops, without a clock.
pub struct StepLogger;

static STEPS: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub const BUDGET_PANIC: &str = "ftml-pbt: step budget exhausted";

impl log::Log for StepLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {
        let n = STEPS.fetch_add(1, Ordering::Relaxed);
        if n >= LIMIT.load(Ordering::Relaxed) && !std::thread::panicking() {
            panic!("{}", BUDGET_PANIC);
        }
    }
    fn flush(&self) {}
}

pub fn init_logger() {
    static LOGGER: StepLogger = StepLogger;
    log::set_logger(&LOGGER).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
}

pub fn steps() -> u64 {
    STEPS.load(Ordering::Relaxed)
}

pub fn reset_steps(limit: u64) {
    STEPS.store(0, Ordering::Relaxed);
    LIMIT.store(limit, Ordering::Relaxed);
}

/// Runs `f` with a step budget of its own; `None` if it is exhausted.
pub fn budgeted<T>(limit: u64, f: impl FnOnce() -> T) -> Option<T> {
    let old = LIMIT.load(Ordering::Relaxed);
    LIMIT.store(steps().saturating_add(limit), Ordering::Relaxed);
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    LIMIT.store(old.saturating_add(limit), Ordering::Relaxed);
    match r {
        Ok(v) => Some(v),
        Err(_) if last_panic().starts_with(BUDGET_PANIC) => None,
        Err(e) => panic::resume_unwind(e),
    }
}

// --------------------------------------------------------------- one execution

pub enum CaseResult {
    Ok,
    Discard,
    Fail(Failure),
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Location and message of the last panic of this thread, without line numbers
/// (these change with any edit).
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".to_string()
        };
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        // Panics of other threads matter to nobody here.
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} ({loc})"));
    }));
}

pub fn run_case(prop: &Property, src: &mut Src, cx: &mut Cx) -> CaseResult {
    reset_steps(prop.budget);
    let result = panic::catch_unwind(AssertUnwindSafe(|| (prop.run)(src, cx)));
    match result {
        Ok(Ok(())) => {
            if cx.discarded {
                CaseResult::Discard
            } else {
                CaseResult::Ok
            }
        }
        Ok(Err(f)) => CaseResult::Fail(f),
        Err(_) => {
            let msg = last_panic();
            if msg.starts_with(BUDGET_PANIC) {
                match prop.over_budget {
                    OverBudget::Discard => CaseResult::Discard,
                    OverBudget::Violation => CaseResult::Fail(Failure::new(
                        "work-bound",
                        format!("more than {} parser steps", prop.budget),
                    )),
                }
            } else {
                CaseResult::Fail(Failure::new("panic", msg))
            }
        }
    }
}

/// Runs `f`, turning a panic of the code under test into an `Err` with its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let msg = last_panic();
            if msg.starts_with(BUDGET_PANIC) {
                panic::resume_unwind(e);
            }
            Err(msg)
        }
    }
}

// ------------------------------------------------------------------- shrinking

fn shrink(
    tape: &[u32],
    max_tries: usize,
    mut still_fails: impl FnMut(&[u32]) -> Option<Vec<u32>>,
) -> Vec<u32> {
    let mut best = tape.to_vec();
    let mut tries = 0;
    let until = std::time::Instant::now() + std::time::Duration::from_secs(60);
    loop {
        let mut improved = false;
        // Delete chunks.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if tries >= max_tries || std::time::Instant::now() >= until {
                    return best;
                }
                let mut cand = best.clone();
                cand.drain(i..(i + size).min(cand.len()));
                tries += 1;
                if let Some(t) = still_fails(&cand) {
                    if t.len() < best.len() {
                        best = t;
                        improved = true;
                        continue;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero, halve and decrement values.
        for i in 0..best.len() {
            for mode in 0..3 {
                if i >= best.len() || best[i] == 0 {
                    break;
                }
                if tries >= max_tries || std::time::Instant::now() >= until {
                    return best;
                }
                let mut cand = best.clone();
                cand[i] = match mode {
                    0 => 0,
                    1 => cand[i] / 2,
                    _ => cand[i] - 1,
                };
                if cand[i] == best[i] {
                    continue;
                }
                tries += 1;
                if let Some(t) = still_fails(&cand) {
                    if t.len() < best.len() || (t.len() == best.len() && t < best) {
                        best = t;
                        improved = true;
                    }
                }
            }
        }
        if !improved {
            return best;
        }
    }
}

// --------------------------------------------------------------------- workers

#[derive(serde::Serialize, serde::Deserialize, Default)]
struct WorkerReport {
    evaluations: u64,
    discarded: u64,
    nontrivial: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<(String, String)>,
    known: BTreeMap<String, u64>,
    failure: Option<FailureReport>,
    max_steps: u64,
}

#[derive(serde::Serialize, serde::Deserialize, Clone)]
pub struct FailureReport {
    pub property: String,
    pub kind: String,
    pub message: String,
    pub input: String,
    pub tape: Vec<u32>,
    pub case: u64,
}

fn case_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut r = Rng::new(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ hash64(prop.as_bytes()));
    let base = r.next();
    Rng::new(base ^ index.wrapping_mul(0xD134_2543_DE82_EF95)).next()
}

pub struct Known {
    pub property: String,
    pub kind: String,
    pub needle: String,
    pub what: String,
}

/// Lines: `known: property=<id> kind=<kind> match=<json string> :: <what fails>`,
/// matched on the failure's kind and a substring of its message.
pub fn load_known(path: &Path) -> Vec<Known> {
    let mut out = Vec::new();
    let text = std::fs::read_to_string(path).unwrap_or_default();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: ") else { continue };
        let (head, what) = rest.split_once(" :: ").expect("malformed known finding");
        let (a, needle) = head.split_once(" match=").expect("malformed known finding");
        let mut property = String::new();
        let mut kind = String::new();
        for part in a.split(' ') {
            if let Some(v) = part.strip_prefix("property=") {
                property = v.to_string();
            } else if let Some(v) = part.strip_prefix("kind=") {
                kind = v.to_string();
            }
        }
        let needle: String = serde_json::from_str(needle).expect("malformed known finding");
        out.push(Known { property, kind, needle, what: what.to_string() });
    }
    out
}

fn known_index(known: &[Known], prop: &str, f: &Failure) -> Option<usize> {
    known
        .iter()
        .position(|k| k.property == prop && k.kind == f.kind && f.message.contains(&k.needle))
}

fn worker(prop: &Property, seed: u64, total: u64, w: u64, n: u64, dir: &Path, known: &[Known]) {
    let mut report = WorkerReport::default();
    let progress = std::fs::File::create(dir.join(format!("progress.{w}"))).unwrap();
    let mut hashes: HashSet<u64> = HashSet::new();
    let sample_every = (total / n / 4).max(1);
    let mut i = w;
    // Case numbers to leave out (they crashed an earlier worker in a known way).
    while i < total {
        progress.write_all_at(&i.to_le_bytes(), 0).unwrap();
        let mut src = Src::random(case_seed(seed, prop.id, i));
        let mut cx = Cx::default();
        let result = run_case(prop, &mut src, &mut cx);
        report.max_steps = report.max_steps.max(steps());
        report.evaluations += 1;
        for l in &cx.labels {
            *report.labels.entry(l.to_string()).or_default() += 1;
        }
        match result {
            CaseResult::Discard => report.discarded += 1,
            CaseResult::Ok => {
                if cx.nontrivial && hashes.insert(hash64(cx.input.as_bytes())) {
                    report.nontrivial += 1;
                    if report.samples.len() < 2
                        && cx.input.len() < 1500
                        && report.evaluations >= sample_every * (1 + report.samples.len() as u64)
                    {
                        report.samples.push((cx.labels.join(","), cx.input.clone()));
                    }
                }
            }
            CaseResult::Fail(f) => {
                if let Some(k) = known_index(known, prop.id, &f) {
                    *report.known.entry(k.to_string()).or_default() += 1;
                } else {
                    let mut best_fail = (f.clone(), cx.input.clone());
                    let tape = shrink(src.used(), 3000, |cand| {
                        let mut s = Src::replay(cand.to_vec());
                        let mut c = Cx::default();
                        match run_case(prop, &mut s, &mut c) {
                            CaseResult::Fail(g)
                                if g.kind == f.kind && known_index(known, prop.id, &g).is_none() =>
                            {
                                best_fail = (g, c.input.clone());
                                let mut used = s.used().to_vec();
                                while used.last() == Some(&0) {
                                    used.pop();
                                }
                                Some(used)
                            }
                            _ => None,
                        }
                    });
                    // Report what the final tape does.
                    let mut s = Src::replay(tape.clone());
                    let mut c = Cx::default();
                    if let CaseResult::Fail(g) = run_case(prop, &mut s, &mut c) {
                        best_fail = (g, c.input);
                    }
                    report.failure = Some(FailureReport {
                        property: prop.id.to_string(),
                        kind: best_fail.0.kind,
                        message: best_fail.0.message,
                        input: best_fail.1,
                        tape,
                        case: i,
                    });
                    break;
                }
            }
        }
        i += n;
    }
    let mut raw = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        raw.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("hashes.{w}")), raw).unwrap();
    std::fs::write(
        dir.join(format!("report.{w}")),
        serde_json::to_vec(&report).unwrap(),
    )
    .unwrap();
}

/// Runs `f` on a thread with a generous stack, so that only runaway recursion overflows it.
/// Runs the cases on a thread with this much stack: that of a usual main thread,
/// so that unbounded recursion shows, or PBT_STACK_KB.
pub fn with_stack(f: impl FnOnce() + Send + 'static) {
    let kb = std::env::var("PBT_STACK_KB").ok().and_then(|s| s.parse().ok()).unwrap_or(16 << 10);
    let handle = std::thread::Builder::new()
        .stack_size(kb << 10)
        .spawn(f)
        .unwrap();
    if handle.join().is_err() {
        eprintln!("harness thread panicked: {}", last_panic());
        std::process::exit(3);
    }
}

fn scratch_dir() -> PathBuf {
    let dir = std::env::temp_dir().join(format!("ftml-pbt.{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

/// Runs a tape in a fresh process. Some(message) if it crashed.
fn crashes(prop: &Property, dir: &Path, tape: &[u32]) -> Option<String> {
    let file = dir.join("probe.json");
    std::fs::write(&file, serde_json::to_vec(tape).unwrap()).unwrap();
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["probe", prop.id])
        .arg(&file)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let start = Instant::now();
    loop {
        if let Some(status) = child.try_wait().unwrap() {
            return status.signal().map(|s| format!("process killed by signal {s}"));
        }
        if start.elapsed() > Duration::from_secs(60) {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

pub struct Config {
    pub seed: u64,
    pub tier: String,
    pub root: PathBuf,
}

pub fn config() -> Config {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    Config { seed, tier: tier.to_string(), root: root.into() }
}

/// Runs the whole check. Returns the exit code.
pub fn run_check(prop: &Property) -> i32 {
    let cfg = config();
    let start = Instant::now();
    let mut total = if cfg.tier == "thorough" { prop.thorough_cases } else { prop.quick_cases };
    if let Some(n) = std::env::var("PBT_CASES").ok().and_then(|s| s.parse().ok()) {
        total = n;
    }
    let number = |name: &str, or: u64| std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(or).max(1);
    let total = (total / number("PBT_DIVIDE", 1)).max(1);
    let workers = number("PBT_WORKERS", 8).min(total);
    let dir = scratch_dir();
    let known_path = cfg.root.join("known_findings.txt");
    let known = load_known(&known_path);
    let exe = std::env::current_exe().unwrap();

    struct W {
        child: std::process::Child,
        id: u64,
        last: u64,
        since: Instant,
        done: bool,
    }
    let mut ws: Vec<W> = (0..workers)
        .map(|w| {
            let child = Command::new(&exe)
                .args(["worker", prop.id])
                .args([&cfg.seed.to_string(), &total.to_string(), &w.to_string(), &workers.to_string()])
                .arg(&dir)
                .stdout(Stdio::null())
                .spawn()
                .expect("cannot start worker");
            W { child, id: w, last: u64::MAX, since: Instant::now(), done: false }
        })
        .collect();

    let mut crash: Option<(u64, String)> = None;
    let mut inconclusive: Option<String> = None;
    while ws.iter().any(|w| !w.done) && inconclusive.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let mut buf = [0u8; 8];
            let at = std::fs::File::open(dir.join(format!("progress.{}", w.id)))
                .and_then(|f| f.read_exact_at(&mut buf, 0))
                .map(|_| u64::from_le_bytes(buf))
                .unwrap_or(u64::MAX);
            if at != w.last {
                w.last = at;
                w.since = Instant::now();
            }
            if let Some(status) = w.child.try_wait().unwrap() {
                w.done = true;
                if let Some(sig) = status.signal() {
                    // SIGKILL comes from outside (memory watchdog), never from the code.
                    if sig == 9 {
                        inconclusive = Some(format!("worker {} was killed (case {at})", w.id));
                    } else if crash.as_ref().is_none_or(|c| at < c.0) {
                        crash = Some((at, format!("process killed by signal {sig}")));
                    }
                } else if !status.success() {
                    inconclusive = Some(format!("worker {} failed: {status} (case {at})", w.id));
                }
            } else if w.since.elapsed() > Duration::from_secs(120) {
                inconclusive = Some(format!("case {at} did not finish within 120 s"));
            }
        }
    }
    for w in ws.iter_mut().filter(|w| !w.done) {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }

    // Merge.
    let mut report = WorkerReport::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut failures: Vec<FailureReport> = Vec::new();
    for w in 0..workers {
        let Ok(raw) = std::fs::read(dir.join(format!("report.{w}"))) else { continue };
        let r: WorkerReport = serde_json::from_slice(&raw).unwrap();
        report.evaluations += r.evaluations;
        report.discarded += r.discarded;
        report.max_steps = report.max_steps.max(r.max_steps);
        for (k, v) in r.labels {
            *report.labels.entry(k).or_default() += v;
        }
        for (k, v) in r.known {
            *report.known.entry(k).or_default() += v;
        }
        report.samples.extend(r.samples);
        failures.extend(r.failure);
        for h in std::fs::read(dir.join(format!("hashes.{w}"))).unwrap_or_default().chunks(8) {
            hashes.insert(u64::from_le_bytes(h.try_into().unwrap()));
        }
    }
    failures.sort_by_key(|f| (f.input.len(), f.case));

    if failures.is_empty() {
        if let Some((case, msg)) = &crash {
            let mut src = Src::random(case_seed(cfg.seed, prop.id, *case));
            let mut cx = Cx::default();
            // Recover the tape without running the code under test: run in a
            // process of its own and let it write the tape as it goes.
            let tape_file = dir.join("tape.json");
            let _ = Command::new(&exe)
                .args(["record", prop.id, &cfg.seed.to_string(), &case.to_string()])
                .arg(&tape_file)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status();
            let tape: Vec<u32> = std::fs::read_to_string(&tape_file)
                .ok()
                .map(|s| s.lines().filter_map(|l| l.parse().ok()).collect())
                .unwrap_or_default();
            let _ = (&mut src, &mut cx);
            let first = crashes(prop, &dir, &tape);
            match first {
                None => inconclusive = Some(format!("case {case} crashed a worker ({msg}) but not on its own")),
                Some(msg) => {
                    let tape = shrink(&tape, 400, |cand| crashes(prop, &dir, cand).map(|_| cand.to_vec()));
                    let input = recorded_input(prop, &dir, &tape);
                    let f = Failure::new("crash", msg);
                    if let Some(k) = known_index(&known, prop.id, &f) {
                        *report.known.entry(k.to_string()).or_default() += 1;
                    } else {
                        failures.push(FailureReport {
                            property: prop.id.into(),
                            kind: f.kind,
                            message: f.message,
                            input,
                            tape,
                            case: *case,
                        });
                    }
                }
            }
        }
    }

    // Evidence.
    let wall = start.elapsed().as_secs_f64();
    let samples: Vec<serde_json::Value> = report
        .samples
        .iter()
        .take(6)
        .map(|(l, s)| serde_json::json!({ "labels": l, "case": s }))
        .collect();
    let evidence = serde_json::json!({
        "property": prop.id,
        "tier": cfg.tier,
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": report.evaluations,
            "distinct_nontrivial": hashes.len(),
            "rule": prop.rule,
            "samples": samples,
            "discarded": report.discarded,
            "classes": report.labels,
            "max_parser_steps": report.max_steps,
            "known_finding_hits": report.known.values().sum::<u64>(),
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": failures.len(),
    });
    let _ = std::fs::create_dir_all(cfg.root.join("evidence"));
    std::fs::write(
        cfg.root.join("evidence").join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("cannot write evidence");

    println!(
        "{}: {} cases, {} distinct non-trivial, {} discarded, {:.1} s (tier {}, seed {})",
        prop.id, report.evaluations, hashes.len(), report.discarded, wall, cfg.tier, cfg.seed
    );
    if !report.labels.is_empty() {
        let mut line = String::from("  classes:");
        for (k, v) in &report.labels {
            let _ = write!(line, " {k}={v}");
        }
        println!("{line}");
    }
    for k in known.iter().filter(|k| k.property == prop.id) {
        println!("KNOWN-FINDING: property={} {}", prop.id, k.what);
    }
    let _ = std::fs::remove_dir_all(&dir);

    if let Some(f) = failures.first() {
        let replay_dir = cfg.root.join("replays");
        let _ = std::fs::create_dir_all(&replay_dir);
        let path = replay_dir.join(format!("{}.json", prop.id));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(f).unwrap() + "\n");
        println!("--- {} ({})\n{}\n--- input\n{}\n---", f.kind, f.property, f.message, f.input);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        let _ = std::io::stdout().flush();
        return 1;
    }
    if let Some(msg) = inconclusive {
        println!("INCONCLUSIVE property={} {msg}", prop.id);
        return 3;
    }
    0
}

fn recorded_input(prop: &Property, dir: &Path, tape: &[u32]) -> String {
    let file = dir.join("probe.json");
    std::fs::write(&file, serde_json::to_vec(tape).unwrap()).unwrap();
    let out = dir.join("input.txt");
    let _ = Command::new(std::env::current_exe().unwrap())
        .args(["probe", prop.id])
        .arg(&file)
        .env("PBT_INPUT_FILE", &out)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    std::fs::read_to_string(&out).unwrap_or_default()
}

/// Called by properties as soon as the input is known, before the code under
/// test runs: keeps it when the process dies.
pub fn announce(src: &Src, cx: &mut Cx, input: &str) {
    cx.input = input.to_string();
    if let Ok(path) = std::env::var("PBT_INPUT_FILE") {
        let _ = std::fs::write(path, input);
    }
    if let Ok(path) = std::env::var("PBT_TAPE_FILE") {
        let text: String = src.used().iter().map(|v| format!("{v}\n")).collect();
        let _ = std::fs::write(path, text);
    }
}

pub fn main(props: &'static [Property]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &'static Property {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(3)
        })
    };
    init_logger();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => run_check(find(&args[2])),
        Some("worker") => {
            install_panic_hook();
            let prop = find(&args[2]);
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            let (seed, total, w, ws) = (n(3), n(4), n(5), n(6));
            let dir = PathBuf::from(&args[7]);
            let known = load_known(&config().root.join("known_findings.txt"));
            with_stack(move || worker(prop, seed, total, w, ws, &dir, &known));
            0
        }
        Some("record") => {
            install_panic_hook();
            let prop = find(&args[2]);
            let seed: u64 = args[3].parse().unwrap();
            let case: u64 = args[4].parse().unwrap();
            std::env::set_var("PBT_TAPE_FILE", &args[5]);
            with_stack(move || {
                let mut src = Src::random(case_seed(seed, prop.id, case));
                let mut cx = Cx::default();
                let _ = run_case(prop, &mut src, &mut cx);
            });
            0
        }
        Some("probe") => {
            install_panic_hook();
            let prop = find(&args[2]);
            let tape: Vec<u32> = serde_json::from_slice(&std::fs::read(&args[3]).unwrap()).unwrap();
            with_stack(move || {
                let mut src = Src::replay(tape);
                let mut cx = Cx::default();
                let _ = run_case(prop, &mut src, &mut cx);
            });
            0
        }
        Some("replay") => {
            // ftml-pbt replay FILE: run the saved case again, verbosely.
            install_panic_hook();
            let f: FailureReport =
                serde_json::from_slice(&std::fs::read(&args[2]).unwrap()).unwrap();
            let prop = find(&f.property);
            static FAILED: AtomicU64 = AtomicU64::new(0);
            with_stack(move || {
                let mut src = Src::replay(f.tape);
                let mut cx = Cx { verbose: true, ..Cx::default() };
                let r = run_case(prop, &mut src, &mut cx);
                println!("input:\n{}\nlabels: {:?}", cx.input, cx.labels);
                match r {
                    CaseResult::Ok => println!("held"),
                    CaseResult::Discard => println!("discarded"),
                    CaseResult::Fail(f) => {
                        println!("FAILED {}: {}", f.kind, f.message);
                        FAILED.store(1, Ordering::Relaxed);
                    }
                }
            });
            FAILED.load(Ordering::Relaxed) as i32
        }
        Some("sample") => {
            // ftml-pbt sample ID [N]: print generated inputs.
            install_panic_hook();
            let prop = find(&args[2]);
            let n: u64 = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(5);
            let seed = config().seed;
            with_stack(move || {
                for i in 0..n {
                    let mut src = Src::random(case_seed(seed, prop.id, i));
                    let mut cx = Cx::default();
                    let r = run_case(prop, &mut src, &mut cx);
                    println!(
                        "=== case {i} [{}] {} steps={} labels={:?}\n{}",
                        match r {
                            CaseResult::Ok => "ok".to_string(),
                            CaseResult::Discard => "discard".to_string(),
                            CaseResult::Fail(f) => format!("FAIL {} {}", f.kind, f.message),
                        },
                        if cx.nontrivial { "nontrivial" } else { "trivial" },
                        steps(),
                        cx.labels,
                        cx.input
                    );
                }
            });
            0
        }
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: ftml-pbt check ID | replay FILE | sample ID [N] | list");
            3
        }
    }
}
