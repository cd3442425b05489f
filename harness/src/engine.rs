//! Runs one property: proptest drives generated cases through the property's
//! check in a fixed number of shards, shrinks a failure, writes the replay file
//! and the evidence file.
use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use proptest::{
    strategy::{NewTree, Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

use crate::src::Src;

pub const SHARDS: u64 = 8;
const TICK: Duration = Duration::from_millis(20);
/// Processor time one case may use; cases take milliseconds.
const STUCK_CPU: f64 = 60.0;
/// Ticks without any progress before the run gives up without a verdict.
const DEAD_TICKS: u64 = 30_000;

/// Processor time of a thread of this process, in seconds.
fn cpu_time(task: &str) -> Option<f64> {
    let t = std::fs::read_to_string(format!("/proc/{task}/stat")).ok()?;
    let f: Vec<&str> = t[t.rfind(')')? + 2..].split(' ').collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

/// What a check reports about one case.
#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub excluded: BTreeMap<String, u64>,
    pub comparisons: u64,
    pub nontrivial: bool,
    /// Largest observed error in units of the tolerance it was compared with.
    pub worst: f64,
}

impl Ctx {
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_default() += 1;
    }
    pub fn exclude(&mut self, l: impl Into<String>) {
        *self.excluded.entry(l.into()).or_default() += 1;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// `|got - want| <= tol`; NaN fails.
    pub fn close(&mut self, got: f64, want: f64, tol: f64) -> bool {
        self.comparisons += 1;
        let d = (got - want).abs();
        if d == 0.0 {
            return true;
        }
        let tol = tol * tol_scale();
        let ratio = d / tol;
        if ratio > self.worst {
            self.worst = ratio;
        }
        d <= tol
    }
}

/// Scales every tolerance; for calibration only (`BSV_TOL`).
fn tol_scale() -> f64 {
    static S: std::sync::OnceLock<f64> = std::sync::OnceLock::new();
    *S.get_or_init(|| std::env::var("BSV_TOL").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0))
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// A finding that is recorded in known-findings.txt and reproduced on each run.
pub struct Known<C> {
    /// Exact signature, as listed in the file.
    pub sig: &'static str,
    /// What the check says about it; any other failure is a new one.
    pub says: &'static str,
    pub case: C,
}

pub trait Prop: 'static {
    const ID: &'static str;
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    const QUICK: u64;
    const THOROUGH: u64;
    const CHOICES: usize = 900;
    /// Cases start threads of their own.
    const THREADS: bool = false;
    type Case: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send;
    fn gen(s: &mut Src) -> Self::Case;
    fn check(c: &Self::Case, ctx: &mut Ctx) -> Res;
    /// Explicit cases that run before the generated ones.
    fn regressions() -> Vec<Self::Case> {
        vec![]
    }
    /// Recorded findings: each case is expected to fail its check.
    fn known() -> Vec<Known<Self::Case>> {
        vec![]
    }
    fn assumptions() -> Vec<String> {
        vec![]
    }
}

// ---------------------------------------------------------------- strategy

/// proptest strategy for choice sequences, with a shrinker for such sequences.
#[derive(Debug)]
pub struct Choices {
    len: usize,
}

#[derive(Debug)]
pub struct ChoiceTree {
    best: Vec<u32>,
    cur: Vec<u32>,
    pass: Pass,
    progressed: bool,
    started: bool,
}

#[derive(Debug, Clone)]
enum Pass {
    Truncate { keep_num: usize },
    Delete { size: usize, at: usize },
    Zero { size: usize, at: usize },
    Lower { at: usize, lo: u32, hi: u32, tried0: bool },
    Done,
}

fn trim(v: &mut Vec<u32>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}

impl ChoiceTree {
    fn propose(&mut self) -> bool {
        loop {
            let n = self.best.len();
            match self.pass.clone() {
                Pass::Truncate { keep_num } => {
                    if keep_num >= 16 || n == 0 {
                        self.pass = Pass::Delete { size: 64, at: 0 };
                        continue;
                    }
                    self.cur = self.best[..n * keep_num / 16].to_vec();
                    self.pass = Pass::Truncate { keep_num: keep_num + 1 };
                    if self.cur.len() < n {
                        return true;
                    }
                }
                Pass::Delete { size, at } => {
                    if at >= n {
                        self.pass = if size > 1 {
                            Pass::Delete { size: size / 4, at: 0 }
                        } else {
                            Pass::Zero { size: 16, at: 0 }
                        };
                        continue;
                    }
                    let end = (at + size).min(n);
                    self.cur = self.best.clone();
                    self.cur.drain(at..end);
                    self.pass = Pass::Delete { size, at: at + size };
                    return true;
                }
                Pass::Zero { size, at } => {
                    if at >= n {
                        self.pass = if size > 1 {
                            Pass::Zero { size: size / 4, at: 0 }
                        } else {
                            Pass::Lower { at: 0, lo: 0, hi: 0, tried0: false }
                        };
                        continue;
                    }
                    let end = (at + size).min(n);
                    self.pass = Pass::Zero { size, at: at + size };
                    if self.best[at..end].iter().all(|x| *x == 0) {
                        continue;
                    }
                    self.cur = self.best.clone();
                    self.cur[at..end].fill(0);
                    return true;
                }
                Pass::Lower { at, lo, hi, tried0 } => {
                    if at >= n {
                        if self.progressed {
                            self.progressed = false;
                            self.pass = Pass::Delete { size: 16, at: 0 };
                            continue;
                        }
                        self.pass = Pass::Done;
                        continue;
                    }
                    let v = self.best[at];
                    if !tried0 {
                        if v == 0 {
                            self.pass = Pass::Lower { at: at + 1, lo: 0, hi: 0, tried0: false };
                            continue;
                        }
                        self.pass = Pass::Lower { at, lo: 0, hi: v, tried0: true };
                        continue;
                    }
                    // bisect towards the smallest value that still fails;
                    // 24 significant bits are enough
                    if hi - lo <= 1 + (hi >> 24) {
                        self.pass = Pass::Lower { at: at + 1, lo: 0, hi: 0, tried0: false };
                        continue;
                    }
                    let mid = lo + (hi - lo) / 2;
                    self.cur = self.best.clone();
                    self.cur[at] = mid;
                    self.pass = Pass::Lower { at, lo, hi, tried0: true };
                    return true;
                }
                Pass::Done => return false,
            }
        }
    }
}

impl ValueTree for ChoiceTree {
    type Value = Vec<u32>;
    fn current(&self) -> Vec<u32> {
        self.cur.clone()
    }
    fn simplify(&mut self) -> bool {
        // the current candidate fails: it becomes the best one
        if self.started {
            if self.cur.len() < self.best.len() {
                self.progressed = true;
                // the deleted range is gone: look at the same place again
                if let Pass::Delete { size, at } = self.pass {
                    self.pass = Pass::Delete { size, at: at - size };
                }
                if let Pass::Truncate { .. } = self.pass {
                    self.pass = Pass::Truncate { keep_num: 0 };
                }
            } else if let Pass::Lower { at, lo, tried0, .. } = self.pass {
                self.pass = Pass::Lower { at, lo, hi: self.cur[at], tried0 };
            }
            self.best = self.cur.clone();
            trim(&mut self.best);
        } else {
            self.started = true;
            self.best = self.cur.clone();
        }
        self.propose()
    }
    fn complicate(&mut self) -> bool {
        // the current candidate passes: drop it
        if let Pass::Lower { at, hi, tried0, .. } = self.pass {
            if at < self.cur.len() && self.cur.len() == self.best.len() && self.cur[at] != self.best[at] {
                self.pass = Pass::Lower { at, lo: self.cur[at], hi, tried0 };
            }
        }
        self.cur = self.best.clone();
        self.propose()
    }
}

impl Strategy for Choices {
    type Tree = ChoiceTree;
    type Value = Vec<u32>;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        use proptest::prelude::Rng;
        let rng = runner.rng();
        let v: Vec<u32> = (0..self.len).map(|_| rng.next_u32()).collect();
        Ok(ChoiceTree {
            best: v.clone(),
            cur: v,
            pass: Pass::Truncate { keep_num: 0 },
            progressed: false,
            started: false,
        })
    }
}

// ------------------------------------------------------------------ running

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = loc);
    }));
}

fn panic_text(e: &(dyn Any + Send)) -> String {
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "non-string panic".into());
    let at = PANIC_AT.with(|p| p.borrow().clone());
    format!("panicked at {at}: {m}")
}

/// Runs the code under test where a panic is a legitimate observation.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&*e))
}

pub fn run_case<P: Prop>(case: &P::Case, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| P::check(case, ctx))) {
        Ok(r) => r,
        Err(e) => Err(panic_text(&*e)),
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn seed_bytes(seed: u64, id: &str, shard: u64) -> [u8; 32] {
    let mut s = seed ^ 0xB5B1_19E5;
    for b in id.bytes() {
        s = splitmix(&mut s) ^ b as u64;
    }
    s ^= shard.wrapping_mul(0xD1342543DE82EF95);
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    out
}

#[derive(Default)]
struct Shard {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    excluded: BTreeMap<String, u64>,
    comparisons: u64,
    worst: f64,
    samples: Vec<Value>,
    failure: Option<(Vec<u32>, String)>,
    finished: bool,
}

impl Shard {
    fn absorb(&mut self, ctx: Ctx) {
        for (k, v) in ctx.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in ctx.excluded {
            *self.excluded.entry(k).or_default() += v;
        }
        self.comparisons += ctx.comparisons;
        self.worst = self.worst.max(ctx.worst);
    }
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub root: PathBuf,
    pub scale: f64,
}

fn clip(v: Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v
    } else {
        Value::String(format!("{}… ({} bytes)", s.chars().take(1400).collect::<String>(), s.len()))
    }
}

fn write_replay<P: Prop>(o: &Opts, tag: &str, case: &P::Case, msg: &str) -> PathBuf {
    let dir = o.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", P::ID, tag));
    let v = json!({"property": P::ID, "message": msg, "case": case});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n");
    path
}

/// Signatures listed in known-findings.txt for a property.
fn listed(o: &Opts, id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(o.root.join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| l.strip_prefix(&format!("property={id} ")))
        .map(|l| l.trim().to_string())
        .collect()
}

/// Shrunk failures of earlier defects, kept in `regressions/`.
fn saved<P: Prop>(o: &Opts) -> Vec<P::Case> {
    let mut files: Vec<PathBuf> = std::fs::read_dir(o.root.join("regressions"))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    files
        .iter()
        .filter(|f| f.file_name().is_some_and(|n| n.to_string_lossy().starts_with(&format!("{}-", P::ID))))
        .map(|f| {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(f).expect("read")).expect("json");
            serde_json::from_value(v["case"].clone()).expect("case")
        })
        .collect()
}

/// Runs explicit cases in a thread of their own; `None` if one does not return.
fn explicit<P: Prop>(queue: Vec<P::Case>) -> Vec<(Ctx, Option<Res>)> {
    let n = queue.len();
    let out: Arc<Mutex<Vec<(Ctx, Option<Res>)>>> = Arc::default();
    let mut at = 0;
    while at < n {
        let rest: Vec<P::Case> = queue[at..].to_vec();
        let sink = out.clone();
        let task: Arc<Mutex<String>> = Arc::default();
        let name = task.clone();
        let live = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                if let Ok(l) = std::fs::read_link("/proc/thread-self") {
                    *name.lock().unwrap() = l.to_string_lossy().into();
                }
                for c in rest {
                    let mut ctx = Ctx::default();
                    let r = run_case::<P>(&c, &mut ctx);
                    sink.lock().unwrap().push((ctx, Some(r)));
                }
            })
            .expect("thread");
        let (mut done, mut mark, mut ticks) = (at, 0.0, 0u64);
        while !live.is_finished() {
            std::thread::sleep(TICK / 10);
            ticks += 1;
            let now = out.lock().unwrap().len();
            let cpu = || cpu_time(if P::THREADS { "self".into() } else { task.lock().unwrap().clone() }.as_str()).unwrap_or(0.0);
            if now != done || ticks == 1 {
                (done, mark, ticks) = (now, cpu(), 1);
            } else if ticks % 500 == 0 && cpu() - mark > STUCK_CPU {
                out.lock().unwrap().push((Ctx::default(), None));
                break;
            } else if ticks > 10 * DEAD_TICKS {
                eprintln!("{}: no progress and no verdict", P::ID);
                std::process::exit(4);
            }
        }
        at = out.lock().unwrap().len();
    }
    let v = std::mem::take(&mut *out.lock().unwrap());
    v
}

pub fn run<P: Prop>(o: &Opts) -> i32 {
    let t0 = Instant::now();
    quiet_panics();
    let total = ((if o.tier == "thorough" { P::THOROUGH } else { 2 * P::QUICK }) as f64 * o.scale).max(8.0) as u64;
    let per = total.div_ceil(SHARDS);

    let mut violations: Vec<(PathBuf, String)> = vec![];

    // explicit cases: regressions, and recorded findings, which must fail
    let mut regs = P::regressions();
    regs.extend(saved::<P>(o));
    let nregs = regs.len();
    let known = P::known();
    let mut queue: Vec<P::Case> = regs.clone();
    queue.extend(known.iter().map(|k| k.case.clone()));
    let mut base = Shard::default();
    let mut outcomes: Vec<Option<Res>> = vec![];
    for (i, (ctx, r)) in explicit::<P>(queue).into_iter().enumerate() {
        if i < nregs {
            base.absorb(ctx);
        }
        outcomes.push(r);
    }
    const STUCK: &str = "a call did not return after a minute of processor time";
    for (i, c) in regs.iter().enumerate() {
        let m = match &outcomes[i] {
            Some(Ok(())) => continue,
            Some(Err(m)) => m.clone(),
            None => STUCK.to_string(),
        };
        let p = write_replay::<P>(o, &format!("regression{i}"), c, &m);
        violations.push((p, m));
    }
    let listed = listed(o, P::ID);
    for (i, k) in known.iter().enumerate() {
        match &outcomes[nregs + i] {
            Some(Ok(())) => println!("note: recorded finding no longer reproduces: property={} {}", P::ID, k.sig),
            Some(Err(m)) if m.starts_with(k.says) && listed.iter().any(|l| l == k.sig) => println!("KNOWN-FINDING: property={} {}", P::ID, k.sig),
            r => {
                let m = match r {
                    Some(Err(m)) => m.clone(),
                    _ => STUCK.to_string(),
                };
                let p = write_replay::<P>(o, &format!("unlisted{i}"), &k.case, &m);
                violations.push((p, m));
            }
        }
    }

    // generated cases
    let states: Vec<Arc<Mutex<Shard>>> = (0..SHARDS).map(|_| Arc::new(Mutex::new(Shard::default()))).collect();
    let beats: Vec<Arc<AtomicU64>> = (0..SHARDS).map(|_| Arc::new(AtomicU64::new(0))).collect();
    let tasks: Vec<Arc<Mutex<String>>> = (0..SHARDS).map(|_| Arc::new(Mutex::new(String::new()))).collect();
    let currents: Vec<Arc<Mutex<Vec<u32>>>> = (0..SHARDS).map(|_| Arc::new(Mutex::new(vec![]))).collect();
    for sh in 0..SHARDS {
        let st = states[sh as usize].clone();
        let beat = beats[sh as usize].clone();
        let task = tasks[sh as usize].clone();
        let current = currents[sh as usize].clone();
        let seed = seed_bytes(o.seed, P::ID, sh);
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                if let Ok(l) = std::fs::read_link("/proc/thread-self") {
                    *task.lock().unwrap() = l.to_string_lossy().into();
                }
                let cfg = Config {
                    cases: per as u32,
                    max_shrink_iters: 6000,
                    max_shrink_time: 0,
                    failure_persistence: None,
                    source_file: None,
                    ..Config::default()
                };
                let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                let failed = AtomicBool::new(false);
                let res = runner.run(&Choices { len: P::CHOICES }, |choices| {
                    beat.fetch_add(1, Ordering::Relaxed);
                    *current.lock().unwrap() = choices.clone();
                    let mut s = Src::new(&choices);
                    let case = P::gen(&mut s);
                    let mut ctx = Ctx::default();
                    let r = run_case::<P>(&case, &mut ctx);
                    if !failed.load(Ordering::Relaxed) {
                        let mut g = st.lock().unwrap();
                        g.evaluations += 1;
                        if ctx.nontrivial && r.is_ok() {
                            let js = serde_json::to_string(&case).unwrap();
                            if g.nontrivial.insert(hash_str(&js)) && g.samples.len() < 2 && js.len() < 900 {
                                g.samples.push(serde_json::from_str(&js).unwrap());
                            }
                        }
                        g.absorb(ctx);
                    }
                    r.map_err(|m| {
                        failed.store(true, Ordering::Relaxed);
                        TestCaseError::fail(m)
                    })
                });
                let mut g = st.lock().unwrap();
                match res {
                    Ok(()) => {}
                    Err(TestError::Fail(why, choices)) => g.failure = Some((choices, why.to_string())),
                    Err(TestError::Abort(why)) => g.failure = Some((vec![], format!("aborted: {why}"))),
                }
                g.finished = true;
            })
            .expect("thread");
    }

    // Wait for the shards. A case takes milliseconds; one that has used half a
    // minute of processor time does not return. Wall-clock time says nothing.
    let mut last: Vec<(u64, u64, f64)> = vec![(0, 0, 0.0); SHARDS as usize];
    let mut stuck: Vec<u64> = vec![];
    loop {
        std::thread::sleep(TICK);
        let mut busy = false;
        for sh in 0..SHARDS {
            let i = sh as usize;
            if stuck.contains(&sh) || states[i].lock().unwrap().finished {
                continue;
            }
            busy = true;
            let b = beats[i].load(Ordering::Relaxed);
            let cpu = || {
                if P::THREADS {
                    // the threads a case waits for; each shard's share of them
                    cpu_time("self").unwrap_or(0.0) / SHARDS as f64
                } else {
                    cpu_time(&tasks[i].lock().unwrap()).unwrap_or(0.0)
                }
            };
            if b != last[i].0 {
                last[i] = (b, 0, -1.0);
                continue;
            }
            last[i].1 += 1;
            if last[i].1 == 50 {
                last[i].2 = cpu();
            } else if last[i].1 > 50 && last[i].1 % 50 == 0 {
                if cpu() - last[i].2 > STUCK_CPU {
                    stuck.push(sh);
                } else if last[i].1 > DEAD_TICKS {
                    eprintln!("{}: no progress and no verdict", P::ID);
                    std::process::exit(4);
                }
            }
        }
        if !busy {
            break;
        }
    }

    let mut sum = base;
    for sh in 0..SHARDS {
        let i = sh as usize;
        let mut g = states[i].lock().unwrap();
        sum.evaluations += g.evaluations;
        sum.comparisons += g.comparisons;
        sum.worst = sum.worst.max(g.worst);
        for h in g.nontrivial.drain() {
            sum.nontrivial.insert(h);
        }
        for (k, v) in std::mem::take(&mut g.labels) {
            *sum.labels.entry(k).or_default() += v;
        }
        for (k, v) in std::mem::take(&mut g.excluded) {
            *sum.excluded.entry(k).or_default() += v;
        }
        let s = std::mem::take(&mut g.samples);
        sum.samples.extend(s);
        if let Some((choices, why)) = g.failure.take() {
            let mut s = Src::new(&choices);
            let case = P::gen(&mut s);
            let p = write_replay::<P>(o, &format!("seed{}-shard{}", o.seed, sh), &case, &why);
            violations.push((p, why));
        }
    }
    for sh in &stuck {
        let choices = currents[*sh as usize].lock().unwrap().clone();
        let mut s = Src::new(&choices);
        let case = P::gen(&mut s);
        let why = STUCK.to_string();
        let p = write_replay::<P>(o, &format!("seed{}-stuck{}", o.seed, sh), &case, &why);
        violations.push((p, why));
    }

    let samples: Vec<Value> = sum.samples.into_iter().take(6).map(clip).collect();
    let ev = json!({
        "property": P::ID,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum.evaluations,
            "distinct_nontrivial": sum.nontrivial.len(),
            "rule": P::RULE,
            "samples": samples,
            "regression_cases": nregs,
            "comparisons": sum.comparisons,
            "worst_error_over_tolerance": sum.worst,
            "classes": sum.labels,
            "excluded": sum.excluded,
            "stuck_shards": stuck.len(),
        },
        "assumptions": P::assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let evdir = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", P::ID)), serde_json::to_string_pretty(&ev).unwrap() + "\n")
        .expect("write evidence");

    println!(
        "{}: {} cases, {} distinct non-trivial, {} comparisons, worst error/tolerance {:.2e}, {:.1}s",
        P::ID,
        sum.evaluations,
        sum.nontrivial.len(),
        sum.comparisons,
        sum.worst,
        t0.elapsed().as_secs_f64()
    );
    for (p, m) in &violations {
        println!("  {}", m.lines().next().unwrap_or(""));
        println!("VIOLATION property={} replay={}", P::ID, p.display());
    }
    i32::from(!violations.is_empty())
}

pub fn replay<P: Prop>(v: &Value) -> i32 {
    quiet_panics();
    let case: P::Case = serde_json::from_value(v["case"].clone()).expect("case");
    let mut ctx = Ctx::default();
    match run_case::<P>(&case, &mut ctx) {
        Ok(()) => {
            println!("{}: the case passes (worst error/tolerance {:.2e})", P::ID, ctx.worst);
            0
        }
        Err(m) => {
            println!("{}: {m}", P::ID);
            1
        }
    }
}

/// One case from raw bytes, for the coverage-guided fuzz target. Panics on failure.
pub fn fuzz_one<P: Prop>(bytes: &[u8]) {
    let choices: Vec<u32> = bytes
        .chunks(4)
        .map(|c| {
            let mut b = [0u8; 4];
            // the first byte decides most, so that single-byte mutations matter
            for (i, x) in c.iter().enumerate() {
                b[3 - i] = *x;
            }
            u32::from_le_bytes(b)
        })
        .collect();
    let mut s = Src::new(&choices);
    let case = P::gen(&mut s);
    let mut ctx = Ctx::default();
    if let Err(m) = run_case::<P>(&case, &mut ctx) {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into());
        let o = Opts { tier: "thorough".into(), seed: 0, root: root.into(), scale: 1.0 };
        let p = write_replay::<P>(&o, &format!("fuzz{:016x}", hash_str(&m)), &case, &m);
        println!("VIOLATION property={} replay={}", P::ID, p.display());
        std::process::abort();
    }
}
