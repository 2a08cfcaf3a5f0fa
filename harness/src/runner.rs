//! Small property runner on top of proptest strategies: fixed work, seeded,
//! sharded, shrinking, replayable.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub only: Option<String>,
}

#[derive(Default, Clone, Debug)]
pub struct Stat {
    pub nontrivial: bool,
    pub classes: BTreeMap<String, u64>,
    pub work: u64,
}
impl Stat {
    pub fn hit(&mut self, c: &str) {
        *self.classes.entry(c.to_string()).or_insert(0) += 1;
    }
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
}

#[derive(Default, Debug)]
pub struct Report {
    pub name: String,
    pub evaluations: u64,
    pub inner: u64,
    pub keys: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(Value, String)>,
    pub wall: f64,
}

pub trait Fam: Sync + Send {
    fn name(&self) -> &str;
    fn run(&self, prop: &str, cfg: &Cfg) -> Report;
    fn replay(&self, case: &Value) -> Result<(), String>;
}

pub struct Family<C> {
    name: &'static str,
    quick: usize,
    thorough: usize,
    strat: Box<dyn Fn() -> BoxedStrategy<C> + Sync + Send>,
    check: Box<dyn Fn(&C, &mut Stat) -> Result<(), String> + Sync + Send>,
}

pub fn fam<C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static>(
    name: &'static str,
    quick: usize,
    thorough: usize,
    strat: impl Fn() -> BoxedStrategy<C> + Sync + Send + 'static,
    check: impl Fn(&C, &mut Stat) -> Result<(), String> + Sync + Send + 'static,
) -> Box<dyn Fam> {
    Box::new(Family { name, quick, thorough, strat: Box::new(strat), check: Box::new(check) })
}

thread_local! {
    static PANIC_LOC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_LOC.with(|p| *p.borrow_mut() = loc);
    }));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            Err(format!("{} at {}", m, PANIC_LOC.with(|p| p.borrow().clone())))
        }
    }
}

fn splitmix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    splitmix(h)
}
fn rng_for(seed: u64, prop: &str, fam: &str, shard: usize) -> TestRng {
    let mut b = [0u8; 32];
    let base = splitmix(seed) ^ hash_str(prop) ^ hash_str(fam).rotate_left(17) ^ splitmix(shard as u64 + 77);
    for i in 0..4 {
        b[i * 8..i * 8 + 8].copy_from_slice(&splitmix(base.wrapping_add(i as u64)).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &b)
}

impl<C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static> Family<C> {
    fn one(&self, c: &C, st: &mut Stat) -> Result<(), String> {
        let r = match guard(|| (self.check)(c, st)) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", p)),
        };
        crate::sys::arena_clear();
        crate::recfs::reset();
        r
    }
}

static NOW_CASES: Mutex<Vec<Option<(Instant, String, String)>>> = Mutex::new(Vec::new());

pub fn start_watchdog(limit: Duration) {
    NOW_CASES.lock().unwrap().resize(64, None);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        let g = NOW_CASES.lock().unwrap();
        for x in g.iter().flatten() {
            if x.0.elapsed() > limit {
                eprintln!("WATCHDOG: case of family {} still running after {:?}: {}", x.1, limit, x.2);
                println!("ERROR: a case did not finish in time (family {})", x.1);
                std::process::exit(3);
            }
        }
    });
}
fn mark(shard: usize, v: Option<(Instant, String, String)>) {
    let mut g = NOW_CASES.lock().unwrap();
    if g.len() <= shard {
        g.resize(64, None);
    }
    g[shard] = v;
}

impl<C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static> Fam for Family<C> {
    fn name(&self) -> &str {
        self.name
    }
    fn run(&self, prop: &str, cfg: &Cfg) -> Report {
        let t0 = Instant::now();
        let total = ((if cfg.thorough { self.thorough } else { self.quick }) as f64 * cfg.scale).ceil() as usize;
        let rep = Mutex::new(Report { name: self.name.to_string(), ..Report::default() });
        let stop = Arc::new(AtomicBool::new(false));
        let done = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for shard in 0..SHARDS {
                let quota = total / SHARDS + usize::from(shard < total % SHARDS);
                if quota == 0 {
                    continue;
                }
                let (rep, stop, done) = (&rep, stop.clone(), &done);
                let body = move || {
                    let mut runner = TestRunner::new_with_rng(
                        Config { failure_persistence: None, max_local_rejects: 1_000_000, ..Config::default() },
                        rng_for(cfg.seed, prop, self.name, shard),
                    );
                    let strat = (self.strat)();
                    for _ in 0..quota {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut tree = match strat.new_tree(&mut runner) {
                            Ok(t) => t,
                            Err(e) => {
                                rep.lock().unwrap().failure = Some((json!(null), format!("generator failure: {}", e)));
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                        };
                        let c = tree.current();
                        let js = serde_json::to_string(&c).unwrap();
                        mark(shard, Some((Instant::now(), self.name.to_string(), js.clone())));
                        let mut st = Stat::default();
                        let r = self.one(&c, &mut st);
                        mark(shard, None);
                        done.fetch_add(1, Ordering::Relaxed);
                        {
                            let mut g = rep.lock().unwrap();
                            g.evaluations += 1;
                            g.inner += st.work;
                            for (k, v) in &st.classes {
                                *g.classes.entry(k.clone()).or_insert(0) += v;
                            }
                            if st.nontrivial && g.keys.insert(hash_str(&js)) && shard == 0 && g.samples.len() < 2 {
                                let mut v: Value = serde_json::from_str(&js).unwrap();
                                if js.len() > 3000 {
                                    v = Value::String(js.chars().take(3000).collect());
                                }
                                g.samples.push(json!({"family": self.name, "case": v}));
                            }
                        }
                        if let Err(msg) = r {
                            // another shard already failed: keep one failure only
                            if stop.swap(true, Ordering::SeqCst) {
                                break;
                            }
                            let mut best = c;
                            let mut best_msg = msg;
                            let t = Instant::now();
                            let mut steps = 0;
                            if tree.simplify() {
                                loop {
                                    if t.elapsed() > Duration::from_secs(25) || steps > 3000 {
                                        break;
                                    }
                                    steps += 1;
                                    let cand = tree.current();
                                    let mut s2 = Stat::default();
                                    mark(shard, Some((Instant::now(), self.name.to_string(), "shrinking".into())));
                                    let rr = self.one(&cand, &mut s2);
                                    mark(shard, None);
                                    match rr {
                                        Err(m) => {
                                            best = cand;
                                            best_msg = m;
                                            if !tree.simplify() {
                                                break;
                                            }
                                        }
                                        Ok(()) => {
                                            if !tree.complicate() {
                                                break;
                                            }
                                        }
                                    }
                                }
                            }
                            rep.lock().unwrap().failure = Some((serde_json::to_value(&best).unwrap(), best_msg));
                            break;
                        }
                    }
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, body).unwrap();
            }
        });
        let mut r = rep.into_inner().unwrap();
        r.wall = t0.elapsed().as_secs_f64();
        r
    }
    fn replay(&self, case: &Value) -> Result<(), String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad case: {}", e))?;
        let mut st = Stat::default();
        self.one(&c, &mut st)
    }
}

/// A finding recorded in known_findings.txt that cannot be repaired: `demo`
/// returns Some(description) while the defect is still there.
pub struct Known {
    pub id: &'static str,
    pub demo: fn() -> Option<String>,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub fams: Vec<Box<dyn Fam>>,
    pub known: Vec<Known>,
}

pub fn root() -> std::path::PathBuf {
    std::env::var("ZOKV_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

pub fn run_check(c: Check, cfg: &Cfg) -> i32 {
    let t0 = Instant::now();
    let mut reports = vec![];
    let mut violations = 0;
    for f in &c.fams {
        if let Some(o) = &cfg.only {
            if o != f.name() {
                continue;
            }
        }
        let r = f.run(c.id, cfg);
        eprintln!(
            "[{}] {}: {} cases, {} distinct non-trivial, {:.1}s {:?}",
            c.id,
            r.name,
            r.evaluations,
            r.keys.len(),
            r.wall,
            r.classes
        );
        let fail = r.failure.clone();
        reports.push(r);
        if let Some((case, msg)) = fail {
            violations += 1;
            let dir = root().join("replays");
            std::fs::create_dir_all(&dir).ok();
            let body = json!({"property": c.id, "family": f.name(), "seed": cfg.seed, "message": msg, "case": case});
            let txt = serde_json::to_string_pretty(&body).unwrap();
            let p = dir.join(format!("{}-{}-{:08x}.json", c.id, f.name(), hash_str(&case.to_string()) as u32));
            std::fs::write(&p, txt).ok();
            let m: String = msg.chars().take(1500).collect();
            eprintln!("[{}] {} FAILED: {}", c.id, f.name(), m);
            println!("VIOLATION property={} replay={}", c.id, p.display());
            break;
        }
    }
    let listed = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut known_lines = vec![];
    if violations == 0 && cfg.only.is_none() {
        for k in &c.known {
            if let Some(d) = (k.demo)() {
                let key = format!("finding: property={} id={} ", c.id, k.id);
                if listed.lines().any(|l| l.starts_with(&key)) {
                    let line = format!("KNOWN-FINDING: property={} {}", c.id, d);
                    println!("{}", line);
                    known_lines.push(line);
                } else {
                    violations += 1;
                    let dir = root().join("replays");
                    std::fs::create_dir_all(&dir).ok();
                    let p = dir.join(format!("{}-known-{}.json", c.id, k.id));
                    std::fs::write(&p, json!({"property": c.id, "known": k.id, "message": d}).to_string()).ok();
                    println!("VIOLATION property={} replay={}", c.id, p.display());
                }
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let evals: u64 = reports.iter().map(|r| r.evaluations).sum();
    let dn: u64 = reports.iter().map(|r| r.keys.len() as u64).sum();
    let mut samples = vec![];
    for r in &reports {
        samples.extend(r.samples.iter().take(1).cloned());
    }
    let fams: Vec<Value> = reports
        .iter()
        .map(|r| json!({"family": r.name, "cases": r.evaluations, "distinct_nontrivial": r.keys.len(), "inner_executions": r.inner, "classes": r.classes, "wall_s": r.wall}))
        .collect();
    let ev = json!({
        "property": c.id,
        "tier": if cfg.thorough {"thorough"} else {"quick"},
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": dn,
            "rule": c.rule,
            "samples": samples,
            "families": fams,
            "known_findings": known_lines,
        },
        "assumptions": c.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    if cfg.only.is_none() {
        let d = root().join("evidence");
        std::fs::create_dir_all(&d).ok();
        std::fs::write(d.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    eprintln!("[{}] total {} cases, {:.1}s, violations {}", c.id, evals, wall, violations);
    if violations > 0 {
        1
    } else {
        0
    }
}

pub fn bx<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}
