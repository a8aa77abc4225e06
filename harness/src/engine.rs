//! Case generation, execution, shrinking and replay.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable signature of what failed (used to match known findings); generic failures use the sub-check name.
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<R>(msg: impl Into<String>) -> Result<R, Fail> {
    Err(Fail { sig: String::new(), msg: msg.into() })
}
pub fn fail_sig<R>(sig: &str, msg: impl Into<String>) -> Result<R, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !($c) { return $crate::engine::fail(format!($($arg)*)); }
    };
}

/// What a case was, for the evidence.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn hit(&mut self) {
        self.nontrivial = true
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        // expected refusals only need a cheap hook
        let quiet = QUIET.with(|q| q.get()) > 0;
        if quiet {
            return;
        }
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<panic>".into());
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}

/// True if `f` panics. The panic is expected: nothing is printed.
pub fn refuses<R>(f: impl FnOnce() -> R) -> bool {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.is_err()
}

/// What a generated fault panics with.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Boom(pub usize);

/// `Some(k)` if `f` panics with `Boom(k)`, `None` if it returns; any other panic is passed on.
pub fn boom<R>(f: impl FnOnce() -> R) -> Option<usize> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    match r {
        Ok(_) => None,
        Err(e) => match e.downcast::<Boom>() {
            Ok(b) => Some(b.0),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                panic!("instead of the fault that was raised: {m}")
            }
        },
    }
}

fn guarded_run(f: impl FnOnce() -> Res) -> Res {
    let _ = crate::alloc::take_corrupt();
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::alloc::stop_counting();
    QUIET.with(|q| q.set(0));
    let r = match r {
        Ok(r) => r,
        Err(_) => fail(format!("unexpected panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    };
    let c = crate::alloc::take_corrupt();
    match r {
        Ok(()) if c > 0 => fail("guard bytes around a heap block were overwritten"),
        r => r,
    }
}

/// A failure that is not there any more when its case is executed once more
const GONE: &str = "(failure did not reproduce on re-execution)";

pub trait Case: Serialize + DeserializeOwned + Debug + Clone + 'static {}
impl<C: Serialize + DeserializeOwned + Debug + Clone + 'static> Case for C {}

pub struct CaseOut {
    pub res: Res,
    pub obs: Obs,
    pub hash: u64,
}

pub trait Runner {
    fn run(&mut self, seed: [u8; 32]) -> CaseOut;
    fn gen(&mut self, seed: [u8; 32]) -> Value;
    /// Shrink the case of `seed`. `exec` decides a candidate (None = in process).
    fn shrink(&mut self, seed: [u8; 32], budget: usize, exec: Option<&dyn Fn(&Value) -> Option<Fail>>) -> (Value, Fail);
}

pub trait SubObj: Send + Sync {
    fn runner(&self) -> Box<dyn Runner>;
    fn replay(&self, case: &Value) -> Res;
}

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub obj: Box<dyn SubObj>,
}

struct SubImpl<C: Case> {
    make: fn() -> BoxedStrategy<C>,
    check: fn(&C, &mut Obs) -> Res,
}

struct RunnerImpl<C: Case> {
    strat: BoxedStrategy<C>,
    check: fn(&C, &mut Obs) -> Res,
}

fn test_runner(seed: [u8; 32]) -> TestRunner {
    let cfg = Config { failure_persistence: None, max_global_rejects: 1 << 20, max_local_rejects: 1 << 20, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed))
}

fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for ch in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..ch.len()].copy_from_slice(ch);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}

impl<C: Case> Runner for RunnerImpl<C> {
    fn run(&mut self, seed: [u8; 32]) -> CaseOut {
        let mut tr = test_runner(seed);
        let case = self.strat.new_tree(&mut tr).expect("generator rejected").current();
        let mut obs = Obs::default();
        let res = guarded_run(|| (self.check)(&case, &mut obs));
        let hash = if obs.nontrivial { hash_bytes(&serde_json::to_vec(&case).unwrap()) } else { 0 };
        CaseOut { res, obs, hash }
    }
    fn gen(&mut self, seed: [u8; 32]) -> Value {
        let mut tr = test_runner(seed);
        serde_json::to_value(self.strat.new_tree(&mut tr).expect("generator rejected").current()).unwrap()
    }
    fn shrink(&mut self, seed: [u8; 32], budget: usize, exec: Option<&dyn Fn(&Value) -> Option<Fail>>) -> (Value, Fail) {
        let mut tr = test_runner(seed);
        let mut tree = self.strat.new_tree(&mut tr).expect("generator rejected");
        let run = |c: &C| -> Option<Fail> {
            match exec {
                Some(e) => e(&serde_json::to_value(c).unwrap()),
                None => guarded_run(|| (self.check)(c, &mut Obs::default())).err(),
            }
        };
        let first = tree.current();
        let Some(f) = run(&first) else {
            return (serde_json::to_value(&first).unwrap(), Fail { sig: String::new(), msg: GONE.into() });
        };
        let mut best = (first, f);
        let mut left = budget;
        let t0 = std::time::Instant::now();
        if tree.simplify() {
            while left > 0 && t0.elapsed().as_secs() < 60 {
                left -= 1;
                let cur = tree.current();
                match run(&cur) {
                    // stay on the same kind of failure
                    Some(f) if f.sig == best.1.sig => {
                        best = (cur, f);
                        if !tree.simplify() {
                            break;
                        }
                    }
                    _ => {
                        if !tree.complicate() {
                            break;
                        }
                    }
                }
            }
        }
        (serde_json::to_value(&best.0).unwrap(), best.1)
    }
}

impl<C: Case> SubObj for SubImpl<C> {
    fn runner(&self) -> Box<dyn Runner> {
        Box::new(RunnerImpl { strat: (self.make)(), check: self.check })
    }
    fn replay(&self, case: &Value) -> Res {
        let c: C = serde_json::from_value(case.clone()).expect("replay case does not parse");
        guarded_run(|| (self.check)(&c, &mut Obs::default()))
    }
}

/// A sub-check: `quick`/`thorough` are case counts per profile.
pub fn sub<C: Case>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    make: fn() -> BoxedStrategy<C>,
    check: fn(&C, &mut Obs) -> Res,
) -> Sub {
    Sub { name, quick, thorough, obj: Box::new(SubImpl { make, check }) }
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, profile: &str, idx: u64) -> [u8; 32] {
    let mut x = hash_bytes(format!("{prop}/{sub}/{profile}").as_bytes()) ^ seed.wrapping_mul(0xD1B54A32D192ED03) ^ idx.wrapping_mul(0x8CB92BA72F3D8DD7);
    let mut out = [0u8; 32];
    for i in 0..4 {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        out[i * 8..i * 8 + 8].copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

#[derive(Default)]
struct Agg {
    evals: u64,
    nontrivial: u64,
    known: BTreeMap<String, u64>,
    labels: BTreeMap<&'static str, u64>,
    hashes: HashSet<u64>,
}

pub struct WorkOpts<'a> {
    pub prop: &'a str,
    pub thorough: bool,
    pub seed: u64,
    pub profile: &'a str,
    pub threads: usize,
    pub state: Option<&'a std::path::Path>,
    pub known: &'a [String],
    pub only: Option<&'a str>,
    pub scale: f64,
}

pub fn work(subs: &[Sub], o: &WorkOpts, hashes_out: Option<&std::path::Path>) -> Value {
    let state = o.state.map(|p| std::fs::File::create(p).expect("state file"));
    let mut all_hashes: Vec<u64> = Vec::new();
    let mut out = Vec::new();
    for (si, s) in subs.iter().enumerate() {
        if o.only.is_some_and(|n| n != s.name) {
            continue;
        }
        let t0 = std::time::Instant::now();
        let n = (((if o.thorough { s.thorough } else { s.quick }) as f64) * o.scale).ceil() as u64;
        let first_fail = AtomicU64::new(u64::MAX);
        let total = Mutex::new(Agg::default());
        let seen: Mutex<BTreeMap<u64, Fail>> = Mutex::new(BTreeMap::new());
        std::thread::scope(|sc| {
            for t in 0..o.threads {
                let (first_fail, total, state, seen) = (&first_fail, &total, &state, &seen);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut r = s.obj.runner();
                        let mut a = Agg::default();
                        let mut i = t as u64;
                        while i < n && i < first_fail.load(Ordering::Relaxed) {
                            if let Some(f) = state {
                                let mut b = [0u8; 16];
                                b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                                b[8..].copy_from_slice(&i.to_le_bytes());
                                let _ = f.write_at(&b, t as u64 * 16);
                            }
                            let c = r.run(case_seed(o.seed, o.prop, s.name, o.profile, i));
                            a.evals += 1;
                            for l in &c.obs.labels {
                                *a.labels.entry(l).or_insert(0) += 1;
                            }
                            if c.obs.nontrivial {
                                a.nontrivial += 1;
                                a.hashes.insert(c.hash ^ (si as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15));
                            }
                            if let Err(f) = c.res {
                                if o.known.contains(&f.sig) {
                                    *a.known.entry(f.sig).or_insert(0) += 1;
                                } else {
                                    seen.lock().unwrap().insert(i, f);
                                    first_fail.fetch_min(i, Ordering::Relaxed);
                                    break;
                                }
                            }
                            i += o.threads as u64;
                        }
                        let mut g = total.lock().unwrap();
                        g.evals += a.evals;
                        g.nontrivial += a.nontrivial;
                        for (k, v) in a.known {
                            *g.known.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in a.labels {
                            *g.labels.entry(k).or_insert(0) += v;
                        }
                        g.hashes.extend(a.hashes);
                        if let Some(f) = state {
                            let _ = f.write_at(&[0u8; 16], t as u64 * 16);
                        }
                    })
                    .unwrap();
            }
        });
        let a = total.into_inner().unwrap();
        let mut fails = Value::Null;
        let ff = first_fail.load(Ordering::Relaxed);
        if ff != u64::MAX {
            let mut r = s.obj.runner();
            if let Some(f) = &state {
                // the process may die or hang on a smaller candidate: then this case is reported as it is
                let mut b = [0u8; 16];
                b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                b[8..].copy_from_slice(&ff.to_le_bytes());
                let _ = f.write_at(&b, 0);
            }
            let (case, mut f) = r.shrink(case_seed(o.seed, o.prop, s.name, o.profile, ff), 4000, None);
            if f.msg == GONE {
                let first = seen.lock().unwrap().remove(&ff).unwrap();
                f = Fail { msg: format!("{} (not when the same case is executed again: it depends on what ran before or beside it)", first.msg), ..first };
            }
            fails = json!({"sub": s.name, "idx": ff, "sig": f.sig, "msg": f.msg, "case": case});
        }
        let mut r = s.obj.runner();
        let samples: Vec<Value> = (0..n.min(2)).map(|k| r.gen(case_seed(o.seed, o.prop, s.name, o.profile, k * 7 + 3))).collect();
        out.push(json!({
            "sub": s.name, "evaluations": a.evals, "nontrivial": a.nontrivial, "distinct": a.hashes.len(),
            "labels": a.labels, "known": a.known, "failure": fails, "samples": samples,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        all_hashes.extend(a.hashes);
        if !fails.is_null() {
            break;
        }
    }
    if let Some(p) = hashes_out {
        let mut b = Vec::with_capacity(all_hashes.len() * 8);
        for h in all_hashes {
            b.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(p, b).expect("hash file");
    }
    json!(out)
}
