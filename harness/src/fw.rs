//! Small driver around proptest's strategies: deterministic, sharded case generation, shrinking,
//! replay files and coverage counters.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// What a check observed on one case that satisfied the property.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
}

impl Obs {
    pub fn new(nontrivial: bool) -> Obs {
        Obs { nontrivial, tags: vec![] }
    }
    pub fn tag(mut self, cond: bool, t: &'static str) -> Obs {
        if cond {
            self.tags.push(t);
        }
        self
    }
}

pub type Check = Result<Obs, String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) { return Err(format!($($arg)*)); }
    };
}

pub struct SubReport {
    pub name: &'static str,
    pub rule: &'static str,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub tags: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
    pub wall_s: f64,
}

pub struct Failure {
    pub case: Value,
    pub message: String,
    pub shrinks: usize,
}

pub struct RunCtx {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
}

pub struct Sub {
    pub name: &'static str,
    pub run: Box<dyn Fn(&RunCtx) -> SubReport>,
    pub replay: Box<dyn Fn(&Value) -> Check>,
}

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs `f`, giving the panic message if it panicked.
pub fn catching<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

fn guarded<C>(check: &(dyn Fn(&C) -> Check + Sync), case: &C) -> Check {
    match catching(|| check(case)) {
        Ok(r) => r,
        Err(m) => Err(format!("panicked: {}", m)),
    }
}

const CHUNKS: usize = 64;
const THREADS: usize = 8;

/// A sub-check: `quick` cases drawn from `strategy`, each decided by `check`.
pub fn sub<C>(
    name: &'static str,
    rule: &'static str,
    quick: usize,
    strategy: fn() -> BoxedStrategy<C>,
    check: fn(&C) -> Check,
) -> Sub
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static,
{
    sub_t(name, rule, quick, 20.0, THREADS, strategy, check)
}

/// As `sub`, with its own thorough-tier multiplier and number of worker threads.
pub fn sub_t<C>(
    name: &'static str,
    rule: &'static str,
    quick: usize,
    thorough_factor: f64,
    threads: usize,
    strategy: fn() -> BoxedStrategy<C>,
    check: fn(&C) -> Check,
) -> Sub
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static,
{
    let run = move |ctx: &RunCtx| -> SubReport {
        let t0 = Instant::now();
        let mut n = quick as f64 * ctx.scale;
        if ctx.thorough {
            n *= thorough_factor;
        }
        let n = (n.ceil() as usize).max(1);
        let chunks = CHUNKS.min(n);
        let next = AtomicUsize::new(0);
        let min_fail = AtomicUsize::new(usize::MAX);
        struct Part {
            evaluations: u64,
            nontrivial: u64,
            seen: HashSet<u64>,
            tags: BTreeMap<&'static str, u64>,
            samples: Vec<Value>,
            failure: Option<Failure>,
        }
        let parts: Mutex<BTreeMap<usize, Part>> = Mutex::new(BTreeMap::new());
        std::thread::scope(|scope| {
            for _ in 0..threads.min(chunks) {
                let worker = || loop {
                    let chunk = next.fetch_add(1, Ordering::SeqCst);
                    if chunk >= chunks || chunk > min_fail.load(Ordering::SeqCst) {
                        break;
                    }
                    let cases = n / chunks + if chunk < n % chunks { 1 } else { 0 };
                    let mut s = fnv(format!("{}/{}/{}/{}", ctx.seed, ctx.property, name, chunk).as_bytes());
                    let mut bytes = [0u8; 32];
                    for c in bytes.chunks_mut(8) {
                        c.copy_from_slice(&splitmix(&mut s).to_le_bytes());
                    }
                    let config = Config { failure_persistence: None, ..Config::default() };
                    let mut runner =
                        TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
                    let strat = strategy();
                    let mut part = Part {
                        evaluations: 0,
                        nontrivial: 0,
                        seen: HashSet::new(),
                        tags: BTreeMap::new(),
                        samples: vec![],
                        failure: None,
                    };
                    for _ in 0..cases {
                        if min_fail.load(Ordering::SeqCst) < chunk {
                            break;
                        }
                        let mut tree = match strat.new_tree(&mut runner) {
                            Ok(t) => t,
                            Err(e) => {
                                eprintln!("HARNESS ERROR: generator of {} gave up: {}", name, e);
                                std::process::exit(4);
                            }
                        };
                        let case = tree.current();
                        part.evaluations += 1;
                        match guarded(&check, &case) {
                            Ok(obs) => {
                                for t in &obs.tags {
                                    *part.tags.entry(t).or_insert(0) += 1;
                                }
                                if obs.nontrivial {
                                    part.nontrivial += 1;
                                    let text = serde_json::to_string(&case).unwrap();
                                    if part.seen.insert(fnv(text.as_bytes())) && part.samples.len() < 1 && chunk < 2 {
                                        part.samples.push(clip(&serde_json::to_value(&case).unwrap(), 1500));
                                    }
                                }
                            }
                            Err(message) => {
                                min_fail.fetch_min(chunk, Ordering::SeqCst);
                                part.failure = Some(shrink(&mut *tree, case, message, &check));
                                break;
                            }
                        }
                    }
                    parts.lock().unwrap().insert(chunk, part);
                };
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, worker)
                    .unwrap();
            }
        });
        let mut rep = SubReport {
            name,
            rule,
            evaluations: 0,
            nontrivial: 0,
            distinct: 0,
            tags: BTreeMap::new(),
            samples: vec![],
            failure: None,
            wall_s: 0.0,
        };
        let mut seen: HashSet<u64> = HashSet::new();
        for (_, p) in parts.into_inner().unwrap() {
            rep.evaluations += p.evaluations;
            rep.nontrivial += p.nontrivial;
            seen.extend(p.seen);
            for (k, v) in p.tags {
                *rep.tags.entry(k).or_insert(0) += v;
            }
            rep.samples.extend(p.samples);
            if rep.failure.is_none() {
                rep.failure = p.failure;
            }
        }
        rep.distinct = seen.len() as u64;
        rep.wall_s = t0.elapsed().as_secs_f64();
        rep
    };
    let replay = move |v: &Value| -> Check {
        let case: C = serde_json::from_value(v.clone()).unwrap_or_else(|e| {
            eprintln!("HARNESS ERROR: cannot decode replay case: {}", e);
            std::process::exit(4);
        });
        guarded(&check, &case)
    };
    Sub { name, run: Box::new(run), replay: Box::new(replay) }
}

fn shrink<C: Serialize + Debug + Clone, T: ValueTree<Value = C> + ?Sized>(
    tree: &mut T,
    case: C,
    message: String,
    check: &(dyn Fn(&C) -> Check + Sync),
) -> Failure {
    let mut best = case;
    let mut best_msg = message;
    let mut steps = 0;
    let start = Instant::now();
    // The time limit bounds how far the reproduction is minimised; the verdict does not depend on it.
    if tree.simplify() {
        loop {
            steps += 1;
            if steps > 4000 || start.elapsed().as_secs() > 60 {
                break;
            }
            let c = tree.current();
            match guarded(check, &c) {
                Err(m) => {
                    best = c;
                    best_msg = m;
                    if !tree.simplify() {
                        break;
                    }
                }
                Ok(_) => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    Failure { case: serde_json::to_value(&best).unwrap(), message: best_msg, shrinks: steps }
}

/// Keeps evidence files readable.
pub fn clip(v: &Value, max: usize) -> Value {
    let s = v.to_string();
    if s.len() <= max {
        v.clone()
    } else {
        let mut end = max;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        json!({"clipped_json": format!("{}...", &s[..end]), "full_length": s.len()})
    }
}

pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}
