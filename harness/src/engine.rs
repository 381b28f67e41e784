//! Runs families of generated cases: sharded proptest search, shrinking, replay files, evidence.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

/// What a case run reports about itself.
#[derive(Default)]
pub struct Obs {
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    /// How many elementary comparisons the case performed (informational).
    pub checks: u64,
    /// Keys of listed findings the case met.
    pub known: Vec<&'static str>,
}

/// What fails, for the finding listed under this key for this property in KNOWN_FINDINGS.txt.
pub fn listed(prop: &str, key: &str) -> Option<String> {
    let head = format!("known: property={} key={} ", prop, key);
    include_str!("../../KNOWN_FINDINGS.txt")
        .lines()
        .find_map(|l| l.strip_prefix(&head).map(|x| x.to_string()))
}

impl Obs {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.classes.push(c);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// A failure identified as the finding `key`: an error unless that finding is listed.
    pub fn finding(&mut self, prop: &str, key: &'static str, reason: String) -> R {
        if listed(prop, key).is_none() {
            return Err(reason);
        }
        self.known.push(key);
        Ok(())
    }
}

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {
        match (&$a, &$b) {
            (a, b) => {
                if a != b {
                    return Err(format!("{}: got {:?}, want {:?}", format!($($arg)*), a, b));
                }
            }
        }
    };
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = panic_message(info.payload());
        let s = format!("panicked at {}: {}", loc, msg);
        if std::env::var_os("HARNESS_TRACE").is_some() {
            eprintln!("{}", s);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(s));
    }));
}

fn panic_message(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

/// Runs `f`, turning a panic into an error text.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| format!("panicked: {}", panic_message(&*e)))
    })
}

#[derive(Default)]
struct FamilyStats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    samples: Vec<Value>,
    wall: f64,
}

pub struct Failure {
    pub family: String,
    pub reason: String,
    pub case: Value,
}

pub enum Mode {
    Search,
    Replay { family: String, case: Value },
}

pub struct Runner {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub mode: Mode,
    stats: BTreeMap<String, FamilyStats>,
    rules: Vec<String>,
    assumptions: Vec<String>,
    pub failure: Option<Failure>,
    pub replay_hit: bool,
    scale: f64,
    only: Option<String>,
    start: Instant,
}

const SHARDS: usize = 8;

fn h64(bytes: &[u8]) -> u64 {
    let h = blake2b_simd::Params::new().hash_length(8).hash(bytes);
    u64::from_le_bytes(h.as_bytes().try_into().unwrap())
}

impl Runner {
    pub fn new(prop: &str, tier: &str, seed: u64, mode: Mode) -> Self {
        Runner {
            prop: prop.into(),
            tier: tier.into(),
            seed,
            mode,
            stats: BTreeMap::new(),
            rules: vec![],
            assumptions: vec![],
            failure: None,
            replay_hit: false,
            scale: std::env::var("HARNESS_SCALE")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1.0),
            only: std::env::var("HARNESS_ONLY").ok(),
            start: Instant::now(),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.into());
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    /// True if a family of this name would run (lets callers skip expensive fixtures).
    pub fn wants(&self, name: &str) -> bool {
        match &self.mode {
            Mode::Search => {
                self.failure.is_none() && self.only.as_deref().map_or(true, |o| o == name)
            }
            Mode::Replay { family, .. } => family == name,
        }
    }

    /// Number of shrink iterations is bounded so that expensive cases still finish.
    pub fn family<C>(
        &mut self,
        name: &str,
        quick: u64,
        thorough: u64,
        max_shrink: u32,
        strategy: impl Fn() -> BoxedStrategy<C> + Sync,
        test: impl Fn(&C, &mut Obs) -> R + Sync,
    ) where
        C: Clone + Debug + Serialize + DeserializeOwned + 'static,
    {
        if !self.wants(name) {
            return;
        }
        let run_one = |c: &C, obs: &mut Obs| -> R {
            match no_panic(|| test(c, obs)) {
                Ok(r) => r,
                Err(p) => Err(p),
            }
        };
        if let Mode::Replay { case, .. } = &self.mode {
            let c: C = serde_json::from_value(case.clone()).expect("replay case decodes");
            self.replay_hit = true;
            let mut obs = Obs::default();
            if let Err(reason) = run_one(&c, &mut obs) {
                self.failure = Some(Failure {
                    family: name.into(),
                    reason,
                    case: case.clone(),
                });
            }
            return;
        }
        let t0 = Instant::now();
        let n = if self.thorough() { thorough } else { quick };
        let n = ((n as f64) * self.scale).ceil().max(1.0) as u64;
        let shards = SHARDS.min(n as usize);
        let stop = AtomicBool::new(false);
        let failures: Mutex<Vec<(usize, Failure)>> = Mutex::new(vec![]);
        let stats: Mutex<Vec<FamilyStats>> = Mutex::new(vec![]);
        let (prop, seed) = (self.prop.clone(), self.seed);
        std::thread::scope(|s| {
            for shard in 0..shards {
                let (stop, failures, stats, strategy, run_one, prop) =
                    (&stop, &failures, &stats, &strategy, &run_one, &prop);
                s.spawn(move || {
                    let per = n / shards as u64 + u64::from((shard as u64) < n % shards as u64);
                    let mut seed32 = [0u8; 32];
                    seed32.copy_from_slice(
                        blake2b_simd::Params::new()
                            .hash_length(32)
                            .hash(format!("{}/{}/{}/{}", prop, name, seed, shard).as_bytes())
                            .as_bytes(),
                    );
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed32);
                    let config = Config {
                        cases: per as u32,
                        failure_persistence: None,
                        max_shrink_iters: max_shrink,
                        max_global_rejects: 1_000_000,
                        max_local_rejects: 1_000_000,
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new_with_rng(config, rng);
                    let st = RefCell::new(FamilyStats::default());
                    let failed = std::cell::Cell::new(false);
                    let strat = strategy();
                    let res = runner.run(&strat, |c| {
                        if !failed.get() && stop.load(Ordering::Relaxed) {
                            return Ok(());
                        }
                        let mut obs = Obs::default();
                        let r = run_one(&c, &mut obs);
                        if !failed.get() {
                            let mut st = st.borrow_mut();
                            st.evaluations += 1;
                            for cl in &obs.classes {
                                *st.classes.entry(cl.to_string()).or_default() += 1;
                            }
                            for k in &obs.known {
                                *st.known.entry(k.to_string()).or_default() += 1;
                            }
                            if obs.nontrivial {
                                st.nontrivial += 1;
                                let j = serde_json::to_value(&c).unwrap();
                                let text = j.to_string();
                                st.distinct.insert(h64(text.as_bytes()));
                                if st.samples.is_empty() && text.len() < 3000 {
                                    st.samples.push(j);
                                }
                            }
                        }
                        r.map_err(|e| {
                            failed.set(true);
                            stop.store(true, Ordering::Relaxed);
                            TestCaseError::fail(e)
                        })
                    });
                    match res {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, c)) => {
                            // Re-run the shrunk case to get its own reason.
                            let mut obs = Obs::default();
                            let reason = match run_one(&c, &mut obs) {
                                Err(e) => e,
                                Ok(()) => format!("(not reproduced after shrinking) {}", reason),
                            };
                            failures.lock().unwrap().push((
                                shard,
                                Failure {
                                    family: name.into(),
                                    reason,
                                    case: serde_json::to_value(&c).unwrap(),
                                },
                            ));
                        }
                        Err(TestError::Abort(r)) => {
                            eprintln!("harness error: generator aborted: {}", r);
                            std::process::exit(3);
                        }
                    }
                    stats.lock().unwrap().push(st.into_inner());
                });
            }
        });
        let e = self.stats.entry(name.into()).or_default();
        for st in stats.into_inner().unwrap() {
            e.evaluations += st.evaluations;
            e.nontrivial += st.nontrivial;
            e.distinct.extend(st.distinct);
            for (k, v) in st.classes {
                *e.classes.entry(k).or_default() += v;
            }
            for (k, v) in st.known {
                *e.known.entry(k).or_default() += v;
            }
            if e.samples.len() < 2 {
                e.samples.extend(st.samples);
            }
        }
        e.wall += t0.elapsed().as_secs_f64();
        let mut f = failures.into_inner().unwrap();
        f.sort_by_key(|x| x.0);
        if let Some((_, f)) = f.into_iter().next() {
            self.failure = Some(f);
        }
    }

    /// Listed findings met by this run: key and number of cases.
    pub fn known(&self) -> BTreeMap<String, u64> {
        let mut m = BTreeMap::new();
        for s in self.stats.values() {
            for (k, v) in &s.known {
                *m.entry(k.clone()).or_default() += v;
            }
        }
        m
    }

    /// Records a failure outside any generated case.
    pub fn fixture_failure(&mut self, reason: String) {
        self.failure = Some(Failure {
            family: "fixture".into(),
            reason,
            case: Value::Null,
        });
    }

    pub fn evidence(&self) -> Value {
        let mut evals = 0;
        let mut distinct = 0;
        let mut samples = vec![];
        let mut fams = serde_json::Map::new();
        for (k, s) in &self.stats {
            evals += s.evaluations;
            distinct += s.distinct.len() as u64;
            for x in s.samples.iter().take(2) {
                samples.push(json!({"family": k, "case": x}));
            }
            fams.insert(
                k.clone(),
                json!({"evaluations": s.evaluations, "nontrivial": s.nontrivial,
                       "distinct_nontrivial": s.distinct.len(), "classes": s.classes,
                       "wall_s": (s.wall*100.0).round()/100.0}),
            );
        }
        if let Some(f) = &self.failure {
            samples.push(json!({"family": f.family, "case": f.case, "failed": f.reason}));
        }
        json!({
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": distinct,
                "rule": self.rules.join(" | "),
                "samples": samples,
                "families": fams,
                "hooks": cfg!(feature = "hooks"),
                "known_findings": self.known(),
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": u64::from(self.failure.is_some()),
        })
    }

    pub fn write_replay(&self, dir: &str) -> Option<PathBuf> {
        let f = self.failure.as_ref()?;
        std::fs::create_dir_all(dir).ok()?;
        let p = PathBuf::from(dir).join(format!("{}-{}.json", self.prop, f.family));
        let v = json!({"property": self.prop, "family": f.family, "seed": self.seed,
                       "tier": self.tier, "reason": f.reason, "case": f.case});
        std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).ok()?;
        Some(p)
    }
}
