//! Bounded exhaustive exploration: shared engine.
//!
//! * `Check`  - one property's run: tier, evidence, violations, known findings, replay.
//! * `words`  - every word over an alphabet up to a length (explicit enumeration, by index).
//! * `par`    - a work range spread over threads; every index is visited exactly once.
//! * `bfs`    - explicit-state breadth-first search over real objects.
//!
//! Nothing here samples: every loop enumerates a finite set completely, or says
//! that a cap stopped it.

pub use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub signature: String,
    pub what: String,
    pub replay: Value,
}

pub struct Check {
    pub prop: String,
    pub tier: Tier,
    pub seed: i64,
    start: Instant,
    level: &'static str,
    pub evaluations: AtomicU64,
    pub nontrivial: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    violations: Mutex<Vec<Violation>>,
    n_violations: AtomicU64,
    stop: AtomicBool,
    first: AtomicU64,
    samples: Mutex<Vec<Value>>,
    extra: Mutex<BTreeMap<String, Value>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    assumptions: Mutex<Vec<String>>,
    rule: Mutex<String>,
    exhaustive: AtomicBool,
    replay: Option<Value>,
}

/// Root of /verif: the parent of the harness folder this was built in.
static SCRATCH: Mutex<Vec<std::path::PathBuf>> = Mutex::new(vec![]);
/// A directory of this process that goes when the check ends.
pub fn remove_at_end(dir: &std::path::Path) {
    SCRATCH.lock().unwrap().push(dir.to_path_buf());
}
fn leave(code: i32) -> ! {
    for d in SCRATCH.lock().unwrap().iter() {
        let _ = std::fs::remove_dir_all(d);
    }
    std::process::exit(code)
}

static PROP: Mutex<String> = Mutex::new(String::new());
static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

/// The code under test failed in a step the check itself relies on.
fn stopped_by_panic() -> ! {
    let prop = PROP.lock().map(|p| p.clone()).unwrap_or_default();
    let what = LAST_PANIC.lock().ok().and_then(|l| l.clone()).unwrap_or_default();
    let path = verif_root().join("replays").join(format!("{prop}.json"));
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    let doc = json!({"property": prop, "signature": "stopped", "what": what, "case": {}});
    let _ = std::fs::write(&path, doc.to_string() + "\n");
    println!("  stopped: {what}");
    println!("VIOLATION property={prop} replay={}", path.display());
    leave(1)
}

pub fn verif_root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT")
        .map(Into::into)
        .unwrap_or_else(|| std::path::PathBuf::from("/verif"))
}

/// After the first violation the search for smaller and other ones goes on for
/// this long (a defect may make every further execution time out).
const GRACE_MS: u64 = 90_000;
const MAX_KEPT: usize = 25;

/// MCX_SHOW=n: keep and print n times as many violations (for exploring by hand).
fn show() -> usize {
    std::env::var("MCX_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

impl Check {
    /// `level` is "model_checking" (explicit states of an object with history)
    /// or "exploration" (complete enumeration of an input space).
    pub fn new(prop: &str, level: &'static str) -> Check {
        // Error values of the code under test need no backtraces (they are slow).
        std::env::set_var("RUST_BACKTRACE", "0");
        std::env::set_var("RUST_LIB_BACKTRACE", "0");
        let mut tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let mut replay = None;
        let args: Vec<String> = std::env::args().skip(1).collect();
        let mut i = 0;
        while i < args.len() {
            match args[i].as_str() {
                "quick" => tier = Tier::Quick,
                "thorough" => tier = Tier::Thorough,
                "--replay" => {
                    i += 1;
                    let text = std::fs::read_to_string(&args[i]).expect("read replay file");
                    replay = Some(serde_json::from_str(&text).expect("parse replay file"));
                }
                _ => {}
            }
            i += 1;
        }
        // Panics of the code under test are caught and judged, not printed.
        if std::env::var_os("MCX_PANICS").is_none() {
            std::panic::set_hook(Box::new(|info| {
                if IN_CATCH.with(|c| c.get()) {
                    return;
                }
                eprintln!("engine panic: {info}");
                if let Ok(mut l) = LAST_PANIC.lock() {
                    l.get_or_insert_with(|| info.to_string());
                }
                // A step that works whenever the property holds did not: the
                // search cannot go on, and its verdict is a violation.
                if std::thread::current().name() == Some("main") {
                    stopped_by_panic();
                }
            }));
            *PROP.lock().unwrap() = prop.to_string();
        }
        Check {
            prop: prop.to_string(),
            tier,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            level,
            evaluations: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            violations: Mutex::new(vec![]),
            n_violations: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            first: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            extra: Mutex::new(BTreeMap::new()),
            outcomes: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(vec![]),
            rule: Mutex::new(String::new()),
            exhaustive: AtomicBool::new(true),
            replay,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `quick` in the quick tier, `thorough` in the thorough one.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    /// The case to replay, if this run is a replay.
    pub fn replay(&self) -> Option<&Value> {
        self.replay.as_ref().map(|v| v.get("case").unwrap_or(v))
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn extra(&self, k: &str, v: impl Into<Value>) {
        self.extra.lock().unwrap().insert(k.to_string(), v.into());
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn outcome(&self, k: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn not_exhaustive(&self, why: &str) {
        self.exhaustive.store(false, SeqCst);
        self.extra("cap_hit", why);
    }
    pub fn eval(&self, n: u64) {
        self.evaluations.fetch_add(n, SeqCst);
    }
    pub fn nontriv(&self, n: u64) {
        self.nontrivial.fetch_add(n, SeqCst);
    }
    /// Set once enough violations were found for the search to stop.
    pub fn stopped(&self) -> bool {
        if self.stop.load(SeqCst) {
            return true;
        }
        // milliseconds from the start to the first violation
        let first = self.first.load(SeqCst);
        first > 0 && self.start.elapsed().as_millis() as u64 > first + GRACE_MS
    }

    /// Report a violation. `signature` names the failing class and is what the
    /// known-findings file matches on; `replay` is the exact case.
    pub fn violation(&self, signature: &str, what: String, replay: Value) {
        self.n_violations.fetch_add(1, SeqCst);
        let mut v = self.violations.lock().unwrap();
        let same = v.iter().filter(|x| x.signature == signature).count();
        let known = self.known();
        let is_known = known.iter().any(|k| k.0 == signature);
        if same == 0 || (!is_known && same < 3 && v.len() < 400) {
            v.push(Violation { signature: signature.into(), what, replay });
        }
        let unknown = v.iter().filter(|x| !known.iter().any(|k| k.0 == x.signature)).count();
        if unknown > 0 {
            let now = (self.start.elapsed().as_millis() as u64).max(1);
            let _ = self.first.compare_exchange(0, now, SeqCst, SeqCst);
        }
        if unknown >= MAX_KEPT * show() {
            self.stop.store(true, SeqCst);
        }
    }

    fn known(&self) -> Vec<(String, String)> {
        static CACHE: Mutex<Option<Vec<(String, String, String)>>> = Mutex::new(None);
        let mut c = CACHE.lock().unwrap();
        if c.is_none() {
            let p = verif_root().join("known-findings.json");
            let mut out = vec![];
            if let Ok(t) = std::fs::read_to_string(&p) {
                let v: Value = serde_json::from_str(&t).expect("known-findings.json");
                for f in v["known"].as_array().cloned().unwrap_or_default() {
                    out.push((
                        f["property"].as_str().unwrap_or("").to_string(),
                        f["signature"].as_str().unwrap_or("").to_string(),
                        f["what"].as_str().unwrap_or("").to_string(),
                    ));
                }
            }
            *c = Some(out);
        }
        c.as_ref()
            .unwrap()
            .iter()
            .filter(|k| k.0 == self.prop)
            .map(|k| (k.1.clone(), k.2.clone()))
            .collect()
    }

    /// Write the evidence, print the verdict, exit.
    pub fn finish(self) -> ! {
        let known = self.known();
        let vs = self.violations.lock().unwrap();
        let mut unknown: Vec<&Violation> = vec![];
        let mut seen_known: Vec<&(String, String)> = vec![];
        for v in vs.iter() {
            match known.iter().find(|k| k.0 == v.signature) {
                Some(k) => {
                    if !seen_known.contains(&k) {
                        seen_known.push(k)
                    }
                }
                None => unknown.push(v),
            }
        }
        // Smallest counterexample first.
        unknown.sort_by_key(|v| v.replay.to_string().len());

        let root = verif_root();
        if self.replay.is_none() {
            let ev = self.evidence(unknown.len() as u64);
            let dir = root.join("evidence");
            std::fs::create_dir_all(&dir).expect("evidence dir");
            std::fs::write(
                dir.join(format!("{}.json", self.prop)),
                serde_json::to_string_pretty(&ev).unwrap() + "\n",
            )
            .expect("write evidence");
        }
        for k in &seen_known {
            println!("KNOWN-FINDING: property={} {}", self.prop, k.1);
        }
        println!(
            "{}: states={} transitions={} evaluations={} nontrivial={} wall={:.1}s{}",
            self.prop,
            self.states.load(SeqCst),
            self.transitions.load(SeqCst),
            self.evaluations.load(SeqCst),
            self.nontrivial.load(SeqCst),
            self.elapsed(),
            if self.exhaustive.load(SeqCst) { "" } else { " (capped)" }
        );
        if unknown.is_empty() {
            println!("{}: property held on everything explored", self.prop);
            leave(0);
        }
        let dir = root.join("replays");
        std::fs::create_dir_all(&dir).expect("replay dir");
        let path = dir.join(format!("{}.json", self.prop));
        let first = unknown[0];
        if self.replay.is_none() {
            let doc = json!({
                "property": self.prop,
                "signature": first.signature,
                "what": first.what,
                "case": first.replay,
                "total_violations": self.n_violations.load(SeqCst),
                "others": unknown.iter().skip(1).map(|v| json!({"signature": v.signature, "what": v.what, "case": v.replay})).collect::<Vec<_>>(),
            });
            std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("write replay");
        }
        for v in unknown.iter().take(5 * show()) {
            println!("  {}: {}", v.signature, v.what);
        }
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        leave(1);
    }

    fn evidence(&self, violations: u64) -> Value {
        let mut cov = serde_json::Map::new();
        let st = self.states.load(SeqCst);
        let ev = self.evaluations.load(SeqCst);
        if self.level == "model_checking" {
            cov.insert("states".into(), st.into());
            cov.insert("transitions".into(), self.transitions.load(SeqCst).into());
            cov.insert("traces_validated_against_impl".into(), self.validated.load(SeqCst).into());
            if ev > 0 {
                cov.insert("evaluations".into(), ev.into());
            }
        } else {
            cov.insert("evaluations".into(), ev.into());
            cov.insert("distinct_nontrivial".into(), self.nontrivial.load(SeqCst).into());
        }
        cov.insert("rule".into(), self.rule.lock().unwrap().clone().into());
        cov.insert("samples".into(), Value::Array(self.samples.lock().unwrap().clone()));
        cov.insert("exhaustive".into(), self.exhaustive.load(SeqCst).into());
        let oc = self.outcomes.lock().unwrap();
        if !oc.is_empty() {
            cov.insert("distinct_outcomes".into(), json!(oc.len()));
            let m: BTreeMap<_, _> = oc.iter().take(60).collect();
            cov.insert("outcomes".into(), json!(m));
        }
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        json!({
            "property": self.prop,
            "tier": if self.thorough() { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": (self.elapsed() * 1000.0).round() / 1000.0,
            "violations": violations,
        })
    }

    /// Visit every index in `0..n` exactly once, on all cores.
    /// A single case that runs longer than `HANG_S` is reported as a violation.
    pub fn par(&self, n: u64, f: impl Fn(u64) + Sync) {
        self.par_named(n, "case", f, |i| json!({ "index": i }))
    }

    pub fn par_named(
        &self,
        n: u64,
        what: &str,
        f: impl Fn(u64) + Sync,
        describe: impl Fn(u64) -> Value + Sync,
    ) {
        let threads = std::env::var("MCX_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4)
        });
        let chunk = (n / (threads as u64 * 64)).clamp(1, 4096);
        let next = AtomicU64::new(0);
        let done = AtomicUsize::new(0);
        let current: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, done, current, f) = (&next, &done, &current, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        loop {
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= n || self.stopped() {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                current[t].store(i, SeqCst);
                                f(i);
                            }
                        }
                        current[t].store(u64::MAX, SeqCst);
                        done.fetch_add(1, SeqCst);
                    })
                    .expect("spawn worker");
            }
            // Watchdog: a case that never ends is a failure of the code under test.
            let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); threads];
            while done.load(SeqCst) < threads {
                std::thread::sleep(Duration::from_millis(if n < 1000 { 1 } else { 10 }));
                for t in 0..threads {
                    let c = current[t].load(SeqCst);
                    if c != last[t].0 {
                        last[t] = (c, Instant::now());
                    } else if c != u64::MAX && last[t].1.elapsed() > hang_limit() {
                        println!("  hang: {what} {} did not end within {:?}", describe(c), hang_limit());
                        let path = verif_root().join("replays").join(format!("{}.json", self.prop));
                        let _ = std::fs::create_dir_all(path.parent().unwrap());
                        let _ = std::fs::write(
                            &path,
                            serde_json::to_string_pretty(&json!({"property": self.prop, "signature": "hang", "case": describe(c)})).unwrap(),
                        );
                        let dir = verif_root().join("evidence");
                        let _ = std::fs::create_dir_all(&dir);
                        let _ = std::fs::write(
                            dir.join(format!("{}.json", self.prop)),
                            serde_json::to_string_pretty(&self.evidence(1)).unwrap(),
                        );
                        println!("VIOLATION property={} replay={}", self.prop, path.display());
                        leave(1);
                    }
                }
            }
        });
        if next.load(SeqCst) < n {
            self.exhaustive.store(false, SeqCst);
        }
    }
}

fn hang_limit() -> Duration {
    Duration::from_secs(std::env::var("MCX_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(120))
}

thread_local! {
    static IN_CATCH: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Run code under test; a panic comes back as its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = IN_CATCH.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CATCH.with(|c| c.set(old));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

/// Every word over an alphabet of `k` letters of length 0..=max, numbered.
#[derive(Clone, Copy)]
pub struct Words {
    pub k: u64,
    pub max: u32,
}

impl Words {
    pub fn new(k: usize, max: u32) -> Words {
        Words { k: k as u64, max }
    }
    pub fn count(&self) -> u64 {
        (0..=self.max).map(|l| self.k.pow(l)).sum()
    }
    /// The `i`-th word: shortest first.
    pub fn get(&self, mut i: u64, out: &mut Vec<usize>) {
        out.clear();
        let mut l = 0u32;
        while i >= self.k.pow(l) {
            i -= self.k.pow(l);
            l += 1;
        }
        for _ in 0..l {
            out.push((i % self.k) as usize);
            i /= self.k;
        }
    }
}

/// Mixed-radix product of finite domains, numbered.
pub struct Product {
    pub dims: Vec<usize>,
}

impl Product {
    pub fn new(dims: &[usize]) -> Product {
        Product { dims: dims.to_vec() }
    }
    pub fn count(&self) -> u64 {
        self.dims.iter().map(|d| *d as u64).product()
    }
    pub fn get(&self, mut i: u64, out: &mut Vec<usize>) {
        out.clear();
        for d in &self.dims {
            out.push((i % *d as u64) as usize);
            i /= *d as u64;
        }
    }
}

/// Statistics of a breadth-first search.
pub struct BfsStats {
    pub states: u64,
    pub transitions: u64,
    pub depth: u32,
}

/// Explicit-state breadth-first search on real objects. `expand` gets a state
/// and its history and returns its successors (it judges every transition
/// itself); states with equal keys are explored once.
pub fn bfs<S: Send + Sync, K: std::hash::Hash + Eq + Send>(
    check: &Check,
    init: Vec<S>,
    max_depth: u32,
    key: impl Fn(&S) -> K + Sync,
    expand: impl Fn(&S, u32) -> (Vec<S>, u64) + Sync,
) -> BfsStats {
    let mut seen: HashSet<K> = HashSet::new();
    let mut frontier: Vec<S> = vec![];
    for s in init {
        if seen.insert(key(&s)) {
            frontier.push(s);
        }
    }
    let mut transitions = 0u64;
    let mut depth = 0;
    while !frontier.is_empty() && depth < max_depth && !check.stopped() {
        let out: Mutex<Vec<S>> = Mutex::new(vec![]);
        let tr = AtomicU64::new(0);
        let seen_m: Vec<Mutex<HashSet<K>>> = vec![];
        let _ = &seen_m;
        let seen_lock = Mutex::new(&mut seen);
        check.par(frontier.len() as u64, |i| {
            let (succ, n) = expand(&frontier[i as usize], depth);
            tr.fetch_add(n, SeqCst);
            let mut fresh = vec![];
            let keyed: Vec<(K, S)> = succ.into_iter().map(|s| (key(&s), s)).collect();
            {
                let mut g = seen_lock.lock().unwrap();
                for (k, s) in keyed {
                    if g.insert(k) {
                        fresh.push(s);
                    }
                }
            }
            out.lock().unwrap().extend(fresh);
        });
        transitions += tr.load(SeqCst);
        frontier = out.into_inner().unwrap();
        depth += 1;
    }
    check.states.fetch_add(seen.len() as u64, SeqCst);
    check.transitions.fetch_add(transitions, SeqCst);
    BfsStats { states: seen.len() as u64, transitions, depth }
}
