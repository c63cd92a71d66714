//! Small property-testing framework on top of proptest's TestRunner:
//! deterministic seeding, sharding over threads, shrinking, replay files,
//! case classification and evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// What a case turned out to be: `Hit` exercised the property (non-trivial),
/// `Triv` was evaluated but could not have failed in an informative way.
#[derive(Clone, Debug)]
pub enum Class {
    Hit(&'static str),
    Triv(&'static str),
}
pub use Class::{Hit, Triv};
pub type Res = Result<Class, String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait AnySub: Send + Sync {
    fn name(&self) -> String;
    fn cases(&self, t: Tier) -> u32;
    fn exclusive(&self) -> bool;
    fn shard_size(&self) -> u32;
    fn run_shard(&self, seed: u64, shard: u32, cases: u32, cur: &Path, known: &HashSet<String>) -> ShardRep;
    fn replay(&self, case: &serde_json::Value) -> Result<Res, String>;
}

#[derive(Default)]
pub struct ShardRep {
    pub evals: u64,
    pub hits: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<(serde_json::Value, String)>,
    pub known: BTreeMap<String, u64>,
    pub error: Option<String>,
}

pub struct Sub<T> {
    pub name: String,
    pub cases: (u32, u32),
    pub exclusive: bool,
    pub shard: u32,
    pub shrink: u32,
    pub strat: Box<dyn Fn() -> BoxedStrategy<T> + Send + Sync>,
    pub f: Box<dyn Fn(&T) -> Res + Send + Sync>,
}

pub fn sub<T, S>(
    name: &str,
    cases: (u32, u32),
    strat: impl Fn() -> S + Send + Sync + 'static,
    f: impl Fn(&T) -> Res + Send + Sync + 'static,
) -> Sub<T>
where
    T: std::fmt::Debug + Clone + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = T> + 'static,
{
    Sub {
        name: name.to_string(),
        cases,
        exclusive: false,
        shard: ((cases.0 as f64 / 8.).ceil() as u32).max(1),
        shrink: 400,
        strat: Box::new(move || strat().boxed()),
        f: Box::new(f),
    }
}

impl<T> Sub<T> {
    /// Mutates global library settings: never runs at the same time as another sub-check.
    pub fn exclusive(mut self) -> Self {
        self.exclusive = true;
        self.shard = u32::MAX;
        self
    }
    pub fn shrink(mut self, n: u32) -> Self {
        self.shrink = n;
        self
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// When the first violation was found.
static FAILED: Mutex<Option<std::time::Instant>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{info}");
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC_MSG.with(|p| p.borrow().split_whitespace().collect::<Vec<_>>().join(" "))
    })
}

fn fnv(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// A failure message may carry a signature as a leading "{sig} ".
pub fn signature(msg: &str) -> Option<&str> {
    msg.strip_prefix('{').and_then(|m| m.split('}').next())
}

impl<T> AnySub for Sub<T>
where
    T: std::fmt::Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> String {
        self.name.clone()
    }
    fn cases(&self, t: Tier) -> u32 {
        match t {
            Tier::Quick => self.cases.0,
            Tier::Thorough => self.cases.1,
        }
    }
    fn exclusive(&self) -> bool {
        self.exclusive
    }
    fn shard_size(&self) -> u32 {
        self.shard
    }
    fn run_shard(&self, seed: u64, shard: u32, cases: u32, cur: &Path, known: &HashSet<String>) -> ShardRep {
        let mut key = [0u8; 32];
        let s1 = fnv(&format!("{seed}/{}/{shard}", self.name));
        for i in 0..4u64 {
            let x = s1.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(i.wrapping_mul(0xD1B54A32D192ED03)) ^ s1.rotate_left(17 * (i as u32 + 1));
            key[(8 * i as usize)..(8 * i as usize + 8)].copy_from_slice(&x.to_le_bytes());
        }
        let cfg = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: self.shrink,
            max_shrink_time: 60_000,
            max_global_rejects: 65536,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &key));
        let rep = RefCell::new(ShardRep::default());
        let failing = RefCell::new(false);
        let curf = fs::File::create(cur).ok();
        let strat = (self.strat)();
        let res = runner.run(&strat, |case| {
            // a violation was found elsewhere a while ago: no need to go on
            if !*failing.borrow() && FAILED.lock().unwrap().is_some_and(|t| t.elapsed().as_secs() > 20) {
                return Ok(());
            }
            let js = serde_json::to_string(&case).unwrap_or_else(|e| format!("\"unserializable {e}\""));
            if let Some(f) = &curf {
                let line = format!("{{\"sub\":{:?},\"case\":{js}}}", self.name);
                let _ = f.set_len(line.len() as u64);
                let _ = f.write_all_at(line.as_bytes(), 0);
            }
            let r = match guarded(|| (self.f)(&case)) {
                Ok(r) => r,
                Err(p) => Err(format!("panicked: {p}")),
            };
            let mut rep = rep.borrow_mut();
            match r {
                Ok(c) => {
                    if !*failing.borrow() {
                        rep.evals += 1;
                        match c {
                            Hit(l) => {
                                *rep.classes.entry(l.to_string()).or_default() += 1;
                                let h = fnv(&js);
                                if rep.hits.insert(h) && rep.samples.is_empty() {
                                    let v = serde_json::from_str(&js).unwrap_or(serde_json::Value::Null);
                                    rep.samples.push(serde_json::json!({"check": self.name, "case": v, "class": l}));
                                }
                            }
                            Triv(l) => *rep.classes.entry(format!("trivial:{l}")).or_default() += 1,
                        }
                    }
                    Ok(())
                }
                Err(m) => {
                    if let Some(s) = signature(&m) {
                        if known.contains(s) {
                            rep.evals += 1;
                            *rep.known.entry(s.to_string()).or_default() += 1;
                            return Ok(());
                        }
                    }
                    *failing.borrow_mut() = true;
                    FAILED.lock().unwrap().get_or_insert_with(std::time::Instant::now);
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let mut rep = rep.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                rep.failure = Some((serde_json::to_value(&case).unwrap(), reason.message().to_string()));
            }
            Err(TestError::Abort(r)) => rep.error = Some(format!("aborted: {r}")),
        }
        let _ = fs::remove_file(cur);
        rep
    }
    fn replay(&self, case: &serde_json::Value) -> Result<Res, String> {
        let c: T = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(match guarded(|| (self.f)(&c)) {
            Ok(r) => r,
            Err(p) => Err(format!("panicked: {p}")),
        })
    }
}

pub type Subs = Vec<Box<dyn AnySub>>;

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: fn() -> Subs,
    /// Library settings in force while the non-exclusive sub-checks run.
    pub init: Option<fn()>,
}

pub struct Outcome {
    pub evals: u64,
    pub nontrivial: u64,
    pub classes: BTreeMap<String, BTreeMap<String, u64>>,
    pub samples: Vec<serde_json::Value>,
    pub failures: Vec<(String, serde_json::Value, String)>,
    pub known: BTreeMap<String, u64>,
    pub errors: Vec<String>,
}

/// Cheap checks run more shards in the quick tier.
fn quick_mult(id: &str) -> u32 {
    match id {
        "C01" | "C17" => 20,
        "C06" | "C10" | "C11" => 12,
        "C12" => 40,
        "C21" | "C22" | "C26" | "C27" | "C30" => 8,
        "C07" => 8,
        "C02" | "C03" | "C08" | "C09" | "C20" => 5,
        "C24" | "C28" => 3,
        "C18" => 2,
        _ => 1,
    }
}

pub fn run_property(p: &Property, tier: Tier, seed: u64, work: &Path, known: &HashSet<String>, only: Option<&str>) -> Outcome {
    if let Some(i) = p.init {
        i();
    }
    let subs: Subs = (p.subs)().into_iter().filter(|s| only.is_none_or(|o| s.name() == o)).collect();
    let out: Mutex<BTreeMap<(usize, u32), ShardRep>> = Mutex::new(BTreeMap::new());
    let mut jobs: Vec<(usize, u32, u32)> = vec![];
    let mut xjobs: Vec<(usize, u32, u32)> = vec![];
    for (i, s) in subs.iter().enumerate() {
        let (mut left, sz, mut k) = (s.cases(tier) * if tier == Tier::Quick { quick_mult(p.id) } else { 1 }, s.shard_size(), 0);
        while left > 0 {
            let n = left.min(sz);
            if s.exclusive() {
                xjobs.push((i, k, n));
            } else {
                jobs.push((i, k, n));
            }
            left -= n;
            k += 1;
        }
    }
    let run1 = |(i, k, n): (usize, u32, u32)| {
        let cur: PathBuf = work.join(format!("cur-{i}-{k}.json"));
        let r = subs[i].run_shard(seed, k, n, &cur, known);
        out.lock().unwrap().insert((i, k), r);
    };
    let next = AtomicUsize::new(0);
    let nthreads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    std::thread::scope(|sc| {
        for _ in 0..nthreads {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, || loop {
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    if j >= jobs.len() {
                        break;
                    }
                    run1(jobs[j]);
                })
                .unwrap();
        }
    });
    for j in xjobs {
        run1(j);
    }
    let mut o = Outcome {
        evals: 0,
        nontrivial: 0,
        classes: BTreeMap::new(),
        samples: vec![],
        failures: vec![],
        known: BTreeMap::new(),
        errors: vec![],
    };
    let mut hits: BTreeMap<usize, HashSet<u64>> = BTreeMap::new();
    for ((i, _), r) in out.into_inner().unwrap() {
        let name = subs[i].name();
        o.evals += r.evals;
        hits.entry(i).or_default().extend(r.hits);
        let c = o.classes.entry(name.clone()).or_default();
        for (k, v) in r.classes {
            *c.entry(k).or_default() += v;
        }
        if o.samples.iter().filter(|s| s["check"] == name.as_str()).count() < 1 {
            o.samples.extend(r.samples);
        }
        if let Some((c, m)) = r.failure {
            if !o.failures.iter().any(|f| f.0 == name) {
                o.failures.push((name.clone(), c, m));
            }
        }
        for (k, v) in r.known {
            *o.known.entry(k).or_default() += v;
        }
        if let Some(e) = r.error {
            o.errors.push(format!("{name}: {e}"));
        }
    }
    o.nontrivial = hits.values().map(|h| h.len() as u64).sum();
    o
}
