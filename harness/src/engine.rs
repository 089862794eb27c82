//! A small property-based testing engine: cases are produced from a sequence of choices, so that
//! any failing case can be shrunk by editing the sequence, and replayed from a file holding it.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// The source of every choice made while generating a case.
pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub trace: Vec<u64>,
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    pub hash: u64,
    pub notes: Vec<String>,
    /// Is this run of the case one whose description will be shown?
    pub verbose: bool,
    /// Is the description shown at once?
    pub loud: bool,
    /// Number of individual sub-evaluations done by the case, beyond the case itself.
    pub sub_evals: u64,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf29ce484222325;
    for &x in b {
        h = (h ^ u64::from(x)).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self::new(seed, None)
    }

    pub fn replay(seq: Vec<u64>) -> Self {
        Self::new(0, Some(seq))
    }

    fn new(seed: u64, replay: Option<Vec<u64>>) -> Self {
        Src {
            rng: mix(seed),
            replay,
            pos: 0,
            trace: Vec::new(),
            classes: Vec::new(),
            nontrivial: false,
            hash: 0,
            notes: Vec::new(),
            verbose: false,
            loud: false,
            sub_evals: 0,
        }
    }

    /// Chooses a number less than `n`. Smaller numbers should lead to simpler cases.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = if let Some(seq) = &self.replay {
            let v = seq.get(self.pos).copied().unwrap_or(0);
            v.min(n - 1)
        } else {
            self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
            let r = mix(self.rng);
            ((u128::from(r) * u128::from(n)) >> 64) as u64
        };
        self.pos += 1;
        self.trace.push(v);
        v
    }

    pub fn u64(&mut self) -> u64 {
        let v = if let Some(seq) = &self.replay {
            seq.get(self.pos).copied().unwrap_or(0)
        } else {
            self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
            mix(self.rng)
        };
        self.pos += 1;
        self.trace.push(v);
        v
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Chooses a number in an inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.idx(hi - lo + 1)
    }

    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }

    /// `true` with probability `num / den`.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T: ?Sized>(&mut self, items: &'a [&'a T]) -> &'a T {
        items[self.idx(items.len())]
    }

    pub fn choose<T: Clone>(&mut self, items: &[T]) -> T {
        items[self.idx(items.len())].clone()
    }

    /// Chooses an index with the given weights.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }

    /// A random permutation of `0..n`; the all-zero choice is the identity.
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n {
            let j = i + self.idx(n - i);
            v.swap(i, j);
        }
        v
    }

    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }

    /// Marks the case as non-trivial.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    /// Mixes something that identifies the case into its hash.
    pub fn ident(&mut self, bytes: &[u8]) {
        self.hash = hash_bytes(self.hash, bytes);
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            if self.loud {
                println!("  case: {}", clip(&s, 1500));
            }
            self.notes.push(s);
        }
    }
}

/// A panic which was caught while code under test was running.
#[derive(Debug, Clone)]
pub struct Caught {
    pub message: String,
    pub location: String,
    pub kind: CaughtKind,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CaughtKind {
    Panic,
    /// The reader's budget of calls ran out.
    Fuel,
    /// The stack discipline of an interface was not followed.
    Protocol,
}

/// Thrown by a reader when it is asked for far more than could be needed.
pub struct FuelExhausted;

/// Thrown by an outliner implementation when it is used incorrectly.
pub struct ProtocolBroken(pub String);

pub fn protocol_broken(msg: impl Into<String>) -> ! {
    std::panic::panic_any(ProtocolBroken(msg.into()))
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_GUARD: Cell<u32> = const { Cell::new(0) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs code under test, catching panics which come from it. Panics that come from the harness
/// itself are passed on.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(payload) => {
            if payload.downcast_ref::<FuelExhausted>().is_some() {
                return Err(Caught {
                    message: "does not finish: the text source was asked for far more than the \
                              size of the text can justify"
                        .into(),
                    location: String::new(),
                    kind: CaughtKind::Fuel,
                });
            }
            if let Some(p) = payload.downcast_ref::<ProtocolBroken>() {
                return Err(Caught {
                    message: p.0.clone(),
                    location: String::new(),
                    kind: CaughtKind::Protocol,
                });
            }
            let (message, location) = LAST_PANIC
                .with(|p| p.borrow().clone())
                .unwrap_or_default();
            if is_harness_location(&location) && !in_derived_code(&location, &message) {
                std::panic::resume_unwind(payload);
            }
            Err(Caught {
                message,
                location,
                kind: CaughtKind::Panic,
            })
        }
    }
}

fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.starts_with("gen/") || loc.contains("/verif/")
}

/// The code which the derive macros produce has the location of the type it is for.
fn in_derived_code(loc: &str, message: &str) -> bool {
    (loc.contains("src/catalog/derived.rs") || loc.contains("/gen/") && loc.contains("/types.rs")) && message != "explicit panic"
}

impl Caught {
    pub fn describe(&self) -> String {
        match self.kind {
            CaughtKind::Panic => format!("panicked at {}: {}", self.location, self.message),
            _ => self.message.clone(),
        }
    }
}

pub type CheckResult = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub check: fn(&mut Src) -> CheckResult,
    pub quick: u64,
    pub thorough: u64,
    /// Fixed extra work, done once: returns the number of evaluations.
    pub extra: Option<fn(&mut Extra) -> CheckResult>,
}

#[derive(Default)]
pub struct Extra {
    pub evaluations: u64,
    pub distinct: u64,
    pub notes: Vec<String>,
    pub known: Vec<String>,
}

enum Outcome {
    Ok,
    Violation(String),
    Harness(String),
}

fn run_case(check: fn(&mut Src) -> CheckResult, src: &mut Src) -> Outcome {
    let outcome = match catch_unwind(AssertUnwindSafe(|| check(src))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(msg)) => Outcome::Violation(msg),
        Err(payload) => judge_panic(payload),
    };
    crate::model::free_kept();
    outcome
}

fn judge_panic(payload: Box<dyn std::any::Any + Send>) -> Outcome {
    if payload.downcast_ref::<FuelExhausted>().is_some() {
        return Outcome::Violation("does not finish".into());
    }
    if let Some(p) = payload.downcast_ref::<ProtocolBroken>() {
        return Outcome::Violation(p.0.clone());
    }
    let (msg, loc) = LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default();
    if is_harness_location(&loc) && !in_derived_code(&loc, &msg) {
        Outcome::Harness(format!("harness panic at {loc}: {msg}"))
    } else {
        Outcome::Violation(format!("panicked at {loc}: {msg}"))
    }
}

pub fn seed_of(base: u64, id: &str, i: u64) -> u64 {
    mix(hash_bytes(base, id.as_bytes()) ^ mix(i))
}

const STACK: usize = 256 << 20;

#[derive(Clone)]
pub struct RunConfig {
    pub seed: u64,
    pub thorough: bool,
    pub out_dir: std::path::PathBuf,
    pub cases: Option<u64>,
    pub budget: Duration,
    /// Where to keep note of what is running, for `supervise` to see.
    pub progress: Option<std::path::PathBuf>,
}

const IDLE: u64 = u64::MAX;
const EXTRA: u64 = u64::MAX - 1;
/// The exit code for when a case takes very long.
const STUCK: i32 = 90;
/// How long something may take, in seconds.
const CASE_LIMIT: u64 = 45;
const EXTRA_LIMIT: u64 = 400;

/// What every thread is doing, in a file, so that it is known after the process has died.
struct Progress(Option<std::fs::File>);

impl Progress {
    fn set(&self, slot: usize, v: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let _ = f.write_all_at(&v.to_le_bytes(), slot as u64 * 8);
        }
    }
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const RLimit) -> i32;
}

const MEMORY_LIMIT: u64 = 16 << 30;

fn child_command(args: &[String]) -> std::process::Command {
    use std::os::unix::process::CommandExt;
    let exe = std::env::current_exe().expect("the path of this program");
    let mut c = std::process::Command::new(exe);
    c.args(args).env("RUST_BACKTRACE", "0");
    // SAFETY: `setrlimit` may be called between `fork` and `exec`.
    unsafe {
        c.pre_exec(|| {
            let l = RLimit { cur: MEMORY_LIMIT, max: MEMORY_LIMIT };
            setrlimit(9, &l);
            let l = RLimit { cur: 0, max: 0 };
            setrlimit(4, &l);
            Ok(())
        });
    }
    c
}

/// Runs a property in another process, so that there is a verdict even when the code under test
/// ends the process it is in, or never returns.
pub fn supervise(prop: &Prop, cfg: &RunConfig, args: &[String]) -> i32 {
    let progress = std::env::temp_dir().join(format!("verif-progress-{}-{}", prop.id, std::process::id()));
    let mut inner: Vec<String> = args.to_vec();
    inner.push("--inner".into());
    inner.push(progress.display().to_string());
    let status = child_command(&inner).status().expect("cannot start a child process");
    let slots = std::fs::read(&progress).unwrap_or_default();
    let _ = std::fs::remove_file(&progress);
    match status.code() {
        Some(c) if c != STUCK => return c,
        _ => (),
    }
    println!("the process which ran the cases ended with {status}");
    let mut running: Vec<u64> =
        slots.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|v| *v != IDLE).collect();
    running.sort_unstable();
    running.dedup();
    for i in running {
        let (what, limit) = if i == EXTRA {
            ("extra".to_string(), EXTRA_LIMIT)
        } else {
            (format!("{}:{}", cfg.seed, i), CASE_LIMIT)
        };
        let mut child = child_command(&["one".to_string(), prop.id.to_string(), what.clone()])
            .spawn()
            .expect("cannot start a child process");
        let start = Instant::now();
        let ended = loop {
            match child.try_wait().expect("waiting for a child process") {
                Some(s) => break Some(s),
                None if start.elapsed().as_secs() > limit => {
                    child.kill().ok();
                    child.wait().ok();
                    break None;
                }
                None => std::thread::sleep(Duration::from_millis(10)),
            }
        };
        let msg = match ended {
            Some(s) if s.code() == Some(0) => continue,
            Some(s) if s.code() == Some(3) => return 3,
            Some(s) if s.code().is_some() => "fails".to_string(),
            Some(s) => format!("the process was ended by the code under test: {s}"),
            None => format!("not finished after {limit} s"),
        };
        let replay_dir = cfg.out_dir.join("replay");
        std::fs::create_dir_all(&replay_dir).ok();
        let path = replay_dir.join(format!("{}.replay", prop.id));
        let line = if i == EXTRA { "fixed=1".to_string() } else { format!("case={what}") };
        std::fs::write(&path, format!("{}# {msg}\n{line}\n", replay_header(prop))).ok();
        write_evidence(prop, cfg, &format!("\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": {}, \"samples\": [{}]", json_str(prop.rule), json_str(&format!("case {what}: {msg}"))), start.elapsed().as_secs_f64(), true);
        println!("  case {what}: {msg}");
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    println!("ERROR property={}: the process died, and none of the cases it was running does so alone", prop.id);
    3
}

/// Runs one case, as `seed:index`, or the extra part of a check.
pub fn run_one(prop: &Prop, what: &str) -> i32 {
    let out = on_big_stack(|| {
        if what == "extra" {
            return run_extra(prop, &mut Extra::default());
        }
        let (seed, i) = what.split_once(':').expect("seed:index");
        let seed = seed_of(seed.parse().unwrap(), prop.id, i.parse().unwrap());
        // What the case is has to be known even when it never ends.
        let mut src = Src::random(seed);
        src.verbose = true;
        src.loud = true;
        run_case(prop.check, &mut src)
    });
    match out {
        Outcome::Ok => 0,
        Outcome::Violation(m) => {
            println!("  {}", clip(&m, 3000));
            1
        }
        Outcome::Harness(m) => {
            println!("ERROR property={}: {}", prop.id, m);
            3
        }
    }
}

/// The first lines of a replay file.
fn replay_header(prop: &Prop) -> String {
    match std::env::var("VERIF_GEN") {
        Ok(g) if prop.id == "C20" => format!("property={}\ngen={g}\n", prop.id),
        _ => format!("property={}\n", prop.id),
    }
}

/// Writes the evidence for a check which ended before it could run anything.
pub fn compile_evidence(id: &'static str, rule: &'static str, out_dir: &std::path::Path, seed: u64, thorough: bool, msg: &str) {
    let prop = Prop { id, rule, check: |_| Ok(()), quick: 0, thorough: 0, extra: None };
    let cfg = RunConfig {
        seed,
        thorough,
        out_dir: out_dir.to_path_buf(),
        cases: None,
        budget: Duration::ZERO,
        progress: None,
    };
    let coverage = format!(
        "\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": {}, \"samples\": [{}]",
        json_str(rule),
        json_str(&clip(msg, 2000))
    );
    write_evidence(&prop, &cfg, &coverage, 0.0, true);
}

fn on_big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

fn run_extra(prop: &Prop, e: &mut Extra) -> Outcome {
    let Some(f) = prop.extra else { return Outcome::Ok };
    match catch_unwind(AssertUnwindSafe(|| f(e))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) => Outcome::Violation(m),
        Err(payload) => judge_panic(payload),
    }
}

fn write_evidence(prop: &Prop, cfg: &RunConfig, coverage: &str, wall: f64, violated: bool) -> bool {
    let evidence = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{ {coverage} }},\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        json_str(prop.id),
        if cfg.thorough { "\"thorough\"" } else { "\"quick\"" },
        cfg.seed,
        wall,
        u32::from(violated)
    );
    std::fs::create_dir_all(&cfg.out_dir).ok();
    let path = cfg.out_dir.join(format!("{}.json", prop.id));
    let ok = std::fs::write(&path, evidence).is_ok();
    if !ok {
        println!("ERROR property={}: cannot write {}", prop.id, path.display());
    }
    ok
}

/// Runs a property. Returns the process exit code.
pub fn run(prop: &Prop, cfg: &RunConfig) -> i32 {
    let start = Instant::now();
    let cases = cfg
        .cases
        .unwrap_or(if cfg.thorough { prop.thorough } else { prop.quick });
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let first_fail = AtomicU64::new(u64::MAX);
    let truncated = AtomicBool::new(false);
    let fails: Mutex<BTreeMap<u64, (String, Vec<u64>, bool)>> = Mutex::new(BTreeMap::new());
    struct Agg {
        evals: u64,
        subs: u64,
        nontrivial: HashSet<u64>,
        classes: BTreeMap<&'static str, u64>,
        samples: BTreeMap<u64, String>,
    }
    let agg = Mutex::new(Agg {
        evals: 0,
        subs: 0,
        nontrivial: HashSet::new(),
        classes: BTreeMap::new(),
        samples: BTreeMap::new(),
    });
    let threads = std::thread::available_parallelism()
        .map(|x| x.get())
        .unwrap_or(4)
        .min(8);
    const CHUNK: u64 = 16;
    let current: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let current_since: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicBool::new(false);
    let progress = Progress(cfg.progress.as_ref().map(|p| std::fs::File::create(p).expect("a file for progress")));
    (0..threads).for_each(|t| progress.set(t, IDLE));

    std::thread::scope(|scope| {
        let progress = &progress;
        let handles: Vec<_> = (0..threads)
            .map(|t| {
                let (next, stop, first_fail, truncated, fails, agg) =
                    (&next, &stop, &first_fail, &truncated, &fails, &agg);
                let current = &current[t];
                let since = &current_since[t];
                let start = &start;
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(scope, move || {
                        let mut evals = 0;
                        let mut subs = 0;
                        let mut nontrivial = HashSet::new();
                        let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut samples = BTreeMap::new();
                        'outer: loop {
                            let base = next.fetch_add(CHUNK, Ordering::Relaxed);
                            if base >= cases || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if start.elapsed() > cfg.budget {
                                truncated.store(true, Ordering::Relaxed);
                                break;
                            }
                            for i in base..(base + CHUNK).min(cases) {
                                if i > first_fail.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                since.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                                current.store(i, Ordering::Relaxed);
                                progress.set(t, i);
                                let mut src = Src::random(seed_of(cfg.seed, prop.id, i));
                                src.verbose = samples.len() < 3;
                                let out = run_case(prop.check, &mut src);
                                evals += 1;
                                subs += src.sub_evals;
                                for c in &src.classes {
                                    *classes.entry(c).or_default() += 1;
                                }
                                if src.nontrivial {
                                    nontrivial.insert(src.hash);
                                    if samples.len() < 3 {
                                        samples.insert(i, clip(&src.notes.join(" | "), 600));
                                    }
                                }
                                match out {
                                    Outcome::Ok => (),
                                    Outcome::Violation(m) => {
                                        first_fail.fetch_min(i, Ordering::Relaxed);
                                        fails.lock().unwrap().insert(i, (m, src.trace, true));
                                    }
                                    Outcome::Harness(m) => {
                                        first_fail.fetch_min(i, Ordering::Relaxed);
                                        fails.lock().unwrap().insert(i, (m, src.trace, false));
                                    }
                                }
                            }
                        }
                        current.store(IDLE, Ordering::Relaxed);
                        progress.set(t, IDLE);
                        let mut a = agg.lock().unwrap();
                        a.evals += evals;
                        a.subs += subs;
                        a.nontrivial.extend(nontrivial);
                        for (k, v) in classes {
                            *a.classes.entry(k).or_default() += v;
                        }
                        a.samples.extend(samples);
                    })
                    .unwrap()
            })
            .collect();
        // A case which takes very long ends the process, and is run again by `supervise`.
        let (current, current_since, done, start_ref) = (&current, &current_since, &done, &start);
        scope.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let now = start_ref.elapsed().as_millis() as u64;
                for t in 0..threads {
                    let c = current[t].load(Ordering::Relaxed);
                    if c != IDLE && now > current_since[t].load(Ordering::Relaxed) + CASE_LIMIT * 1000 {
                        (0..threads).filter(|o| *o != t).for_each(|o| progress.set(o, IDLE));
                        println!("case {c} has been running for over {CASE_LIMIT} s");
                        std::process::exit(STUCK);
                    }
                }
            }
        });
        for h in handles {
            h.join().unwrap();
        }
        done.store(true, Ordering::Relaxed);
    });

    let mut fails = fails.into_inner().unwrap();
    let agg = agg.into_inner().unwrap();
    let mut extra = Extra::default();
    let mut extra_fail = None;
    if fails.is_empty() {
        progress.set(0, EXTRA);
        let res = std::thread::scope(|scope| {
            let (send, recv) = std::sync::mpsc::channel();
            let extra = &mut extra;
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(scope, move || send.send(run_extra(prop, extra)).unwrap())
                .unwrap();
            match recv.recv_timeout(Duration::from_secs(EXTRA_LIMIT)) {
                Ok(r) => r,
                Err(_) => std::process::exit(STUCK),
            }
        });
        progress.set(0, IDLE);
        match res {
            Outcome::Ok => (),
            Outcome::Violation(m) => extra_fail = Some(m),
            Outcome::Harness(m) => {
                println!("ERROR property={}: {}", prop.id, m);
                return 3;
            }
        }
    }
    for k in &extra.known {
        println!("KNOWN-FINDING: property={} {}", prop.id, k);
    }
    let violated = !fails.is_empty() || extra_fail.is_some();
    let mut samples: Vec<String> = agg.samples.values().take(8).cloned().collect();
    samples.extend(extra.notes.iter().cloned());
    let classes: Vec<String> = agg
        .classes
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect();
    let wall = start.elapsed().as_secs_f64();
    let coverage = format!(
        "\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"sub_evaluations\": {},\n    \"requested_cases\": {},\n    \"stopped_by_time_budget\": {},\n    \"classes\": {{ {} }},\n    \"samples\": [{}]\n  ",
        agg.evals + extra.evaluations,
        agg.nontrivial.len() as u64 + extra.distinct,
        json_str(prop.rule),
        agg.subs,
        cases,
        truncated.load(Ordering::Relaxed),
        classes.join(", "),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
    );
    if !write_evidence(prop, cfg, &coverage, wall, violated) {
        return 3;
    }
    println!(
        "property={} seed={} cases={} nontrivial={} subevals={} wall={:.1}s{}",
        prop.id,
        cfg.seed,
        agg.evals + extra.evaluations,
        agg.nontrivial.len() as u64 + extra.distinct,
        agg.subs,
        wall,
        if truncated.load(Ordering::Relaxed) { " (stopped by time budget)" } else { "" }
    );
    let replay_dir = cfg.out_dir.join("replay");
    if let Some((i, (msg, trace, is_violation))) = fails.pop_first() {
        if !is_violation {
            println!("ERROR property={} case={}: {}", prop.id, i, msg);
            return 3;
        }
        // If shrinking ends the process, this case is reported as it is.
        progress.set(0, i);
        let shrinking = AtomicU64::new(0);
        let (seq, msg) = std::thread::scope(|scope| {
            let (shrinking, start) = (&shrinking, &start);
            let (send, recv) = std::sync::mpsc::channel();
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(scope, move || {
                    let r = shrink(prop, trace, msg, || {
                        shrinking.store(start.elapsed().as_secs(), Ordering::Relaxed);
                    });
                    send.send(r).unwrap();
                })
                .unwrap();
            shrinking.store(start.elapsed().as_secs(), Ordering::Relaxed);
            loop {
                match recv.recv_timeout(Duration::from_millis(200)) {
                    Ok(r) => break r,
                    Err(_) if start.elapsed().as_secs() > shrinking.load(Ordering::Relaxed) + CASE_LIMIT => {
                        std::process::exit(STUCK)
                    }
                    Err(_) => (),
                }
            }
        });
        let mut src = Src::replay(seq.clone());
        src.verbose = true;
        let _ = run_case(prop.check, &mut src);
        let mut text = replay_header(prop);
        for l in msg.lines() {
            text.push_str(&format!("# {}\n", l));
        }
        for n in &src.notes {
            for l in n.lines() {
                text.push_str(&format!("# case: {}\n", l));
            }
        }
        text.push_str("choices=");
        text.push_str(&seq.iter().map(u64::to_string).collect::<Vec<_>>().join(","));
        text.push('\n');
        std::fs::create_dir_all(&replay_dir).ok();
        let path = replay_dir.join(format!("{}.replay", prop.id));
        std::fs::write(&path, text).ok();
        println!("first failing case {} shrunk to {} choices", i, seq.len());
        for n in &src.notes {
            println!("  case: {}", clip(n, 1500));
        }
        println!("  {}", clip(&msg, 3000));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    if let Some(msg) = extra_fail {
        std::fs::create_dir_all(&replay_dir).ok();
        let path = replay_dir.join(format!("{}.replay", prop.id));
        std::fs::write(&path, format!("{}# {}\nfixed=1\n", replay_header(prop), msg)).ok();
        println!("  {}", clip(&msg, 3000));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    0
}

/// Runs the case in a replay file. Returns the process exit code.
pub fn replay(prop: &Prop, text: &str) -> i32 {
    for line in text.lines() {
        if let Some(c) = line.strip_prefix("case=") {
            let status = child_command(&["one".to_string(), prop.id.to_string(), c.to_string()])
                .status()
                .expect("cannot start a child process");
            if status.success() {
                println!("replay: the property holds on this case");
                return 0;
            }
            println!("VIOLATION property={} replay=given", prop.id);
            return 1;
        }
        if let Some(c) = line.strip_prefix("choices=") {
            let seq: Vec<u64> = c
                .split(',')
                .filter(|s| !s.is_empty())
                .map(|s| s.trim().parse().unwrap())
                .collect();
            let out = std::thread::scope(|scope| {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(scope, || {
                        let mut src = Src::replay(seq);
                        src.verbose = true;
                        let out = run_case(prop.check, &mut src);
                        for n in &src.notes {
                            println!("  case: {}", n);
                        }
                        out
                    })
                    .unwrap()
                    .join()
                    .unwrap()
            });
            return match out {
                Outcome::Ok => {
                    println!("replay: the property holds on this case");
                    0
                }
                Outcome::Violation(m) => {
                    println!("  {}", m);
                    println!("VIOLATION property={} replay=given", prop.id);
                    1
                }
                Outcome::Harness(m) => {
                    println!("ERROR {}", m);
                    3
                }
            };
        }
        if line.starts_with("fixed=") {
            let mut e = Extra::default();
            return match (prop.extra.unwrap())(&mut e) {
                Ok(()) => 0,
                Err(m) => {
                    println!("  {}", m);
                    println!("VIOLATION property={} replay=given", prop.id);
                    1
                }
            };
        }
    }
    println!("ERROR no choices in the replay file");
    3
}

fn shrink(prop: &Prop, seq: Vec<u64>, msg: String, tick: impl Fn()) -> (Vec<u64>, String) {
    let deadline = Instant::now() + Duration::from_secs(25);
    let mut best = seq;
    let mut best_msg = msg;
    let mut evals = 0u32;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        if evals > 20_000 || Instant::now() > deadline {
            return false;
        }
        evals += 1;
        tick();
        let mut src = Src::replay(cand);
        if let Outcome::Violation(m) = run_case(prop.check, &mut src) {
            let t = src.trace;
            if t.len() < best.len() || (t.len() == best.len() && t < *best) {
                *best = t;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // Delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                if !attempt(cand, &mut best, &mut best_msg) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks
        for size in [16usize, 4] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut cand = best.clone();
                cand[i..end].fill(0);
                attempt(cand, &mut best, &mut best_msg);
                i += size;
            }
        }
        // Lower single values, alone or deleting what follows
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if !attempt(cand, &mut best, &mut best_msg) {
                    let (mut lo, mut hi) = (0u64, v);
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        if i >= best.len() {
                            break;
                        }
                        let mut cand = best.clone();
                        cand[i] = mid;
                        if attempt(cand, &mut best, &mut best_msg) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i + 1 < best.len() && best[i] > 0 {
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        cand.remove(i + 1);
                        attempt(cand, &mut best, &mut best_msg);
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    (best, best_msg)
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut r: String = s.chars().take(n).collect();
        r.push_str(&format!("… ({} chars)", s.chars().count()));
        r
    }
}

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                r.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
