use rand::{RngCore, SeedableRng};
use rand_chacha::ChaCha20Rng;
use serde_json::{json, Value};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static QUIET: Cell<u32> = Cell::new(0);
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

/// What one guarded call of the code under test did.
#[derive(Clone, Debug, PartialEq)]
pub enum Sut<T> { Val(T), Panic(String) }

impl<T> Sut<T> {
    pub fn panicked(&self) -> bool { matches!(self, Sut::Panic(_)) }
}

fn payload_msg(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
    else { "non-string panic".into() }
}

/// Run code under test, turning a panic into a value ("message @ file:line").
pub fn sut<T>(f: impl FnOnce() -> T) -> Sut<T> {
    QUIET.with(|q| q.set(q.get() + 1));
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    match r {
        Ok(v) => Sut::Val(v),
        Err(p) => {
            let loc = LAST_PANIC.with(|l| l.borrow().clone()).map(|x| x.1).unwrap_or_default();
            Sut::Panic(format!("{} @ {}", payload_msg(&*p), loc))
        }
    }
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload_msg(info.payload());
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((msg, loc)));
        if QUIET.with(|q| q.get()) == 0 && std::thread::current().name().map_or(true, |n| n.starts_with("case")) {
            old(info);
        }
    }));
}

/// Verdict of decode + verify.
#[derive(Clone, Debug, PartialEq)]
pub enum Verdict { Accept, Reject, Error(String), Panic(String), Undecodable }
impl Verdict {
    pub fn accepted(&self) -> bool { *self == Verdict::Accept }
    pub fn class(&self) -> &'static str {
        match self {
            Verdict::Accept => "accept", Verdict::Reject => "reject", Verdict::Error(_) => "error",
            Verdict::Panic(_) => "panic", Verdict::Undecodable => "undecodable",
        }
    }
}
pub fn verdict<X: std::fmt::Debug>(f: impl FnOnce() -> Result<bool, X>) -> Verdict {
    match sut(f) {
        Sut::Val(Ok(true)) => Verdict::Accept,
        Sut::Val(Ok(false)) => Verdict::Reject,
        Sut::Val(Err(e)) => Verdict::Error(format!("{:?}", e)),
        Sut::Panic(p) => Verdict::Panic(p),
    }
}

#[derive(Clone)]
struct Known { property: String, signature: String, what: String }

#[derive(Default)]
struct Inner {
    evals: u64,
    trivial: u64,
    fps: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    viols: BTreeMap<String, Value>,
    viol_count: u64,
    known_hits: BTreeMap<String, String>,
    harness_errors: Vec<String>,
    skipped: u64,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub rule: String,
    pub assumptions: Vec<String>,
    start: Instant,
    deadline: Instant,
    inner: Mutex<Inner>,
    known: Vec<Known>,
    only: Option<(String, u64)>,
    verif: PathBuf,
    pub threads: usize,
    inflight: Mutex<BTreeMap<usize, (String, u64, Instant)>>,
}

/// The random tape handed to the code under test: it keeps the sizes of the draws, and can alter one of them.
#[derive(Clone)]
pub struct Tape { rng: ChaCha20Rng, pub calls: Vec<usize>, pub flip: Option<usize>, /* the bit altered */ pub bit: u8 }
impl Tape { fn note(&mut self, n: usize) -> bool { self.calls.push(n); self.flip == Some(self.calls.len() - 1) } }
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 { let f = self.note(4); self.rng.next_u32() ^ (f as u32) << self.bit }
    fn next_u64(&mut self) -> u64 { let f = self.note(8); self.rng.next_u64() ^ (f as u64) << self.bit }
    fn fill_bytes(&mut self, b: &mut [u8]) { let f = self.note(b.len()); self.rng.fill_bytes(b); if f && !b.is_empty() { b[0] ^= 1 << (self.bit % 8); } }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(b); Ok(()) }
}
impl rand::CryptoRng for Tape {}
impl SeedableRng for Tape { type Seed = [u8; 32]; fn from_seed(s: [u8; 32]) -> Tape { Tape { rng: ChaCha20Rng::from_seed(s), calls: vec![], flip: None, bit: 0 } } }

pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub scenario: String,
    pub idx: u64,
    pub rng: RefCell<ChaCha20Rng>,
}

pub fn fp_of<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl<'a> Case<'a> {
    /// A fresh generator derived from this case's stream (own tape for the code under test).
    pub fn tape(&self) -> Tape {
        let mut s = [0u8; 32];
        self.rng.borrow_mut().fill_bytes(&mut s);
        Tape::from_seed(s)
    }
    pub fn below(&self, n: usize) -> usize { (self.rng.borrow_mut().next_u64() % (n as u64)) as usize }
    pub fn range(&self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<T: Copy>(&self, xs: &[T]) -> T { xs[self.below(xs.len())] }
    /// One observed execution. `nontrivial` by the property's rule.
    pub fn eval<T: Hash>(&self, fp: &T, nontrivial: bool) {
        let h = fp_of(&(fp_of(fp), &self.scenario));
        let mut i = self.ctx.inner.lock().unwrap();
        i.evals += 1;
        if nontrivial { i.fps.insert(h); } else { i.trivial += 1; }
    }
    pub fn count(&self, k: &str) { self.count_n(k, 1) }
    pub fn count_n(&self, k: &str, n: u64) {
        *self.ctx.inner.lock().unwrap().counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, f: impl FnOnce() -> Value) {
        let mut i = self.ctx.inner.lock().unwrap();
        let n = i.samples.iter().filter(|s| s["scenario"] == json!(self.scenario)).count();
        if n < 2 && i.samples.len() < 24 {
            let v = json!({"scenario": self.scenario, "case": self.idx, "what": f()});
            i.samples.push(v);
        }
    }
    /// The oracle saw the property broken. `sig` names the failing behaviour precisely
    /// (matched exactly against known-findings.json).
    pub fn violation(&self, sig: &str, detail: Value) {
        let mut i = self.ctx.inner.lock().unwrap();
        if let Some(k) = self.ctx.known.iter().find(|k| k.property == self.ctx.prop && k.signature == sig) {
            i.known_hits.insert(sig.to_string(), k.what.clone());
            return;
        }
        i.viol_count += 1;
        if i.viols.len() < 20 && !i.viols.contains_key(sig) {
            let v = json!({
                "property": self.ctx.prop, "signature": sig, "scenario": self.scenario, "case": self.idx,
                "seed": self.ctx.seed, "tier": format!("{:?}", self.ctx.tier), "detail": detail});
            i.viols.insert(sig.to_string(), v);
        }
    }
    pub fn check(&self, ok: bool, sig: &str, detail: impl FnOnce() -> Value) -> bool {
        if !ok { self.violation(sig, detail()); }
        ok
    }
    pub fn is_known(&self, sig: &str) -> bool {
        self.ctx.known.iter().any(|k| k.property == self.ctx.prop && k.signature == sig)
    }
}

pub struct Scenario<'s> {
    pub name: String,
    pub quick: u64,
    /// run once only (deterministic repro or exhaustive), not again in further rounds
    pub once: bool,
    pub f: Box<dyn Fn(&Case) + Sync + 's>,
}
pub fn sc<'s>(name: &str, quick: u64, f: impl Fn(&Case) + Sync + 's) -> Scenario<'s> {
    Scenario { name: name.into(), quick, once: false, f: Box::new(f) }
}
pub fn once<'s>(name: &str, n: u64, f: impl Fn(&Case) + Sync + 's) -> Scenario<'s> {
    Scenario { name: name.into(), quick: n, once: true, f: Box::new(f) }
}

impl Ctx {
    pub fn new(prop: &str, rule: &str) -> Ctx {
        install_hook();
        let args: Vec<String> = std::env::args().collect();
        let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
        let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let mut only = None;
        if let Some(p) = args.iter().position(|a| a == "--replay") {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[p + 1]).expect("replay file")).expect("replay json");
            seed = v["seed"].as_u64().unwrap();
            only = Some((v["scenario"].as_str().unwrap().to_string(), v["case"].as_u64().unwrap()));
        }
        let known = std::fs::read_to_string(verif.join("known-findings.json")).ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
            .map(|v| v["findings"].as_array().cloned().unwrap_or_default().iter()
                .filter(|k| k["status"] == "known")
                .map(|k| Known {
                    property: k["property"].as_str().unwrap().into(),
                    signature: k["signature"].as_str().unwrap().into(),
                    what: k["what"].as_str().unwrap().into() }).collect())
            .unwrap_or_default();
        let start = Instant::now();
        let budget: u64 = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok())
            .unwrap_or(if tier == Tier::Quick { 240 } else { 700 });
        let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        Ctx { prop: prop.into(), tier, seed, rule: rule.into(), assumptions: vec![], start,
              deadline: start + Duration::from_secs(budget), inner: Mutex::new(Inner::default()), known, only, verif, threads,
              inflight: Mutex::new(BTreeMap::new()) }
    }

    fn case_rng(&self, scenario: &str, idx: u64) -> ChaCha20Rng {
        use sha2::{Digest, Sha256};
        let mut h = Sha256::new();
        h.update(self.prop.as_bytes()); h.update([0]); h.update(scenario.as_bytes());
        h.update(self.seed.to_le_bytes()); h.update(idx.to_le_bytes());
        let mut s = [0u8; 32];
        s.copy_from_slice(&h.finalize());
        ChaCha20Rng::from_seed(s)
    }

    fn run_case(&self, s: &Scenario, idx: u64, worker: usize) {
        let case = Case { ctx: self, scenario: s.name.clone(), idx, rng: RefCell::new(self.case_rng(&s.name, idx)) };
        self.inflight.lock().unwrap().insert(worker, (s.name.clone(), idx, Instant::now()));
        LAST_PANIC.with(|l| *l.borrow_mut() = None);
        QUIET.with(|q| q.set(1));
        let r = catch_unwind(AssertUnwindSafe(|| (s.f)(&case)));
        QUIET.with(|q| q.set(0));
        if let Err(p) = r {
            let (msg, loc) = LAST_PANIC.with(|l| l.borrow().clone()).unwrap_or((payload_msg(&*p), String::new()));
            // A panic that escapes a scenario: raised inside the code under test outside a guarded call
            // (honest use), or a bug of the harness itself.
            if loc.contains("/repo/") || (!loc.contains("src/") ) {
                case.violation("unguarded-panic-in-honest-use", json!({"panic": msg, "at": loc}));
            } else if loc.starts_with("src/") {
                self.inner.lock().unwrap().harness_errors.push(format!("{}#{}: {} @ {}", s.name, idx, msg, loc));
            } else {
                case.violation("unguarded-panic-in-honest-use", json!({"panic": msg, "at": loc}));
            }
        }
        self.inflight.lock().unwrap().remove(&worker);
    }

    pub fn run(&self, scenarios: Vec<Scenario>) {
        if let Some((name, idx)) = &self.only {
            for s in &scenarios { if &s.name == name { self.run_case(s, *idx, 0); } }
            return;
        }
        let filter = std::env::var("VERIF_SCENARIO").ok();
        let max_rounds = if self.tier == Tier::Quick { 1 } else { u64::MAX };
        let done = AtomicBool::new(false);
        let mut round = 0;
        while round < max_rounds && Instant::now() < self.deadline {
            let mut jobs: Vec<(usize, u64)> = vec![];
            for (si, s) in scenarios.iter().enumerate() {
                if s.once && round > 0 { continue; }
                if let Some(f) = &filter { if !s.name.contains(f.as_str()) { continue; } }
                for i in 0..s.quick { jobs.push((si, round * s.quick + i)); }
            }
            if jobs.is_empty() { break; }
            // interleave scenarios so that a stop at the deadline cuts every scenario alike
            let mut per: Vec<u64> = vec![0; scenarios.len()];
            let mut keyed: Vec<(u64, (usize, u64))> = jobs.into_iter().map(|(si, i)| {
                per[si] += 1; ((per[si] * 1_000_000) / scenarios[si].quick.max(1), (si, i)) }).collect();
            keyed.sort();
            let jobs: Vec<(usize, u64)> = keyed.into_iter().map(|k| k.1).collect();
            let next = AtomicUsize::new(0);
            let skipped = AtomicU64::new(0);
            std::thread::scope(|sc| {
                for w in 0..self.threads {
                    let (jobs, next, skipped, scenarios) = (&jobs, &next, &skipped, &scenarios);
                    std::thread::Builder::new().name(format!("case{}", w)).stack_size(64 << 20).spawn_scoped(sc, move || loop {
                        let j = next.fetch_add(1, Ordering::SeqCst);
                        if j >= jobs.len() { break; }
                        if Instant::now() > self.deadline { skipped.fetch_add(1, Ordering::SeqCst); continue; }
                        let t = Instant::now();
                        self.run_case(&scenarios[jobs[j].0], jobs[j].1, w);
                        if std::env::var("VERIF_TRACE").is_ok() {
                            let dt = t.elapsed().as_millis();
                            if dt > 1000 { eprintln!("slow: {}#{} {} ms", scenarios[jobs[j].0].name, jobs[j].1, dt); }
                        }
                    }).unwrap();
                }
                // watchdog: a call that does not come back is inconclusive, not a violation
                sc.spawn(|| {
                    let hard = self.deadline + Duration::from_secs(180);
                    while !done.load(Ordering::SeqCst) {
                        std::thread::sleep(Duration::from_millis(100));
                        if next.load(Ordering::SeqCst) >= jobs.len() && self.inflight.lock().unwrap().is_empty() { break; }
                        if Instant::now() > hard {
                            let l = self.inflight.lock().unwrap().clone();
                            println!("INCONCLUSIVE: calls still running past the time budget: {:?}", l);
                            std::process::exit(self.report(l.len() as u64));
                        }
                    }
                });
            });
            self.inner.lock().unwrap().skipped += skipped.load(Ordering::SeqCst);
            round += 1;
        }
        done.store(true, Ordering::SeqCst);
    }

    /// Write evidence, print the verdict lines, return the exit code.
    pub fn report(&self, stuck: u64) -> i32 {
        let i = self.inner.lock().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let mut cov = json!({
            "evaluations": i.evals, "distinct_nontrivial": i.fps.len(), "rule": self.rule,
            "samples": i.samples, "trivial": i.trivial, "monitor_counters": i.counters,
            "skipped_at_deadline": i.skipped, "stuck_calls": stuck});
        if i.samples.is_empty() { cov["samples"] = json!(["none"]); }
        let ev = json!({"property": self.prop, "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"}, "seed": self.seed,
            "level": "exploration", "coverage": cov, "assumptions": self.assumptions, "wall_s": (wall * 1000.0).round() / 1000.0,
            "violations": i.viol_count});
        if self.only.is_none() {
            let dir = self.verif.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            let mut f = std::fs::File::create(dir.join(format!("{}.json", self.prop))).expect("evidence file");
            f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
        }
        println!("{} {}: {} executions judged, {} distinct non-trivial, {:.1} s", self.prop,
            if self.tier == Tier::Quick {"quick"} else {"thorough"}, i.evals, i.fps.len(), wall);
        for (k, v) in &i.counters { println!("  {:<56} {}", k, v); }
        if i.skipped > 0 { println!("  cases not started before the time budget: {}", i.skipped); }
        for (sig, what) in &i.known_hits { println!("KNOWN-FINDING: property={} [{}] {}", self.prop, sig, what); }
        let mut code = 0;
        if !i.viols.is_empty() {
            let dir = self.verif.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            for (n, (sig, v)) in i.viols.iter().enumerate() {
                let path = dir.join(format!("{}-{}.json", self.prop, n));
                let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
                println!("VIOLATION property={} replay={}", self.prop, path.display());
                let mut d = v["detail"].to_string(); if d.len() > 700 { d.truncate(d.char_indices().take_while(|c| c.0 < 700).last().map(|c| c.0).unwrap_or(0)); }
                println!("  {} in {}#{}: {}", sig, v["scenario"], v["case"], d);
            }
            code = 1;
        }
        for e in i.harness_errors.iter().take(10) { println!("HARNESS-ERROR {}", e); }
        if code == 0 && !i.harness_errors.is_empty() { code = 2; }
        if code == 0 && self.only.is_none() && i.evals == 0 { println!("NO-OBSERVATION"); code = 2; }
        let _ = std::io::stdout().flush();
        code
    }
    pub fn finish(self) -> ! { let c = self.report(0); std::process::exit(c) }
}
