//! Runner shared by all properties: seeded proptest search, counters, evidence, shrinking to a replay file.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one evaluated case amounted to.
#[derive(Default, Debug, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub discard: bool,
    pub labels: Vec<String>,
    /// sums reported in the evidence (e.g. number of steps checked)
    pub counts: Vec<(&'static str, u64)>,
}
impl Info {
    pub fn nt(b: bool) -> Self {
        Info { nontrivial: b, ..Default::default() }
    }
    pub fn discard() -> Self {
        Info { discard: true, ..Default::default() }
    }
    pub fn label(mut self, s: impl Into<String>) -> Self {
        self.labels.push(s.into());
        self
    }
    pub fn label_if(self, b: bool, s: &str) -> Self {
        if b {
            self.label(s)
        } else {
            self
        }
    }
    pub fn count(mut self, s: &'static str, n: u64) -> Self {
        self.counts.push((s, n));
        self
    }
}
pub type Verdict = Result<Info, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !($c) { return Err(format!($($a)+)); } };
}

#[derive(Default, Debug)]
pub struct SubReport {
    pub name: String,
    pub rule: String,
    pub evaluations: u64,
    pub discards: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}
impl SubReport {
    pub fn absorb(&mut self, o: SubReport) {
        self.evaluations += o.evaluations;
        self.discards += o.discards;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
    pub fn record(&mut self, info: &Info, dbg: &str) {
        self.evaluations += 1;
        if info.discard {
            self.discards += 1;
            return;
        }
        for l in &info.labels {
            *self.labels.entry(l.clone()).or_default() += 1;
        }
        for (k, v) in &info.counts {
            *self.counts.entry(k.to_string()).or_default() += v;
        }
        if info.nontrivial {
            self.nontrivial += 1;
            self.distinct.insert(hash64(dbg));
            if self.samples.len() < 2 && dbg.len() < 4000 {
                self.samples.push(dbg.to_string());
            }
        }
    }
}

pub fn hash64(s: &str) -> u64 {
    // FNV-1a, stable over runs
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17);
            }
        }
    }
    let mut k = H(h);
    s.len().hash(&mut k);
    h.hash(&mut k);
    k.finish()
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub sub: String,
    pub message: String,
    pub replay: PathBuf,
}

#[derive(Serialize, Deserialize)]
struct Replay<C> {
    property: String,
    sub: String,
    message: String,
    case: C,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub replay: Option<PathBuf>,
    pub verif: PathBuf,
    pub subs: Vec<SubReport>,
    pub violations: Vec<Violation>,
    pub findings: Vec<String>,
    pub assumptions: Vec<String>,
    pub errors: Vec<String>,
    pub replay_ran: bool,
    start: Instant,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static EVALS: Cell<u64> = Cell::new(0);
    static EVAL_BUDGET: Cell<u64> = Cell::new(u64::MAX);
}
pub const BUDGET_MSG: &str = "evaluation budget exceeded: the run does not terminate in the number of derivative evaluations it may need";

/// called by the harness' own systems in `update_derivs`
pub fn count_eval() {
    EVALS.with(|e| {
        let n = e.get() + 1;
        e.set(n);
        if n > EVAL_BUDGET.with(|b| b.get()) {
            std::panic::panic_any(BUDGET_MSG.to_string());
        }
    });
}
pub fn set_budget(n: u64) {
    EVALS.with(|e| e.set(0));
    EVAL_BUDGET.with(|b| b.set(n));
}
pub fn evals() -> u64 {
    EVALS.with(|e| e.get())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("VH_PANIC").is_ok() {
            eprintln!("panic: {m}{l}");
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m}{l}"));
    }));
}

/// run `f`, turning a panic into Err
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", PANIC_MSG.with(|p| p.borrow().clone())))
}

pub fn guarded_check<C: Serialize>(check: &(dyn Fn(&C) -> Verdict + Sync), c: &C) -> Verdict {
    set_budget(5_000_000);
    let w = monitor::enter(c);
    let r = match guarded(|| check(c)) {
        Ok(v) => v,
        Err(m) => Err(m),
    };
    drop(w);
    set_budget(u64::MAX);
    r
}

/// Watches single cases: one that uses an absurd amount of processor time or memory does not terminate. Cases take
/// milliseconds; the limits are four orders of magnitude above that, in processor time, so a busy machine does not matter.
pub mod monitor {
    use serde::Serialize;
    use std::path::PathBuf;
    use std::sync::Mutex;
    type Clock = i32;
    #[repr(C)]
    struct Timespec {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, c: *mut Clock) -> i32;
        fn clock_gettime(c: Clock, t: *mut Timespec) -> i32;
    }
    struct Slot {
        key: u64,
        clock: Clock,
        start: f64,
        case: usize,
        show: fn(usize) -> String,
    }
    static SLOTS: Mutex<Vec<Slot>> = Mutex::new(vec![]);
    static WHERE: Mutex<Option<(String, String, PathBuf, bool)>> = Mutex::new(None);
    static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    pub static CPU_LIMIT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(60);
    fn cpu(c: Clock) -> f64 {
        let mut t = Timespec { s: 0, n: 0 };
        // SAFETY: plain system call
        if unsafe { clock_gettime(c, &mut t) } != 0 {
            return 0.;
        }
        t.s as f64 + t.n as f64 * 1e-9
    }
    fn show<C: Serialize>(p: usize) -> String {
        // SAFETY: called only while the case's thread is inside `guarded_check` with the slot entered, which keeps the
        // case alive; cases are plain data and only read
        serde_yaml::to_string(unsafe { &*(p as *const C) }).unwrap_or_default()
    }
    pub struct Watch(u64);
    impl Drop for Watch {
        fn drop(&mut self) {
            SLOTS.lock().unwrap().retain(|s| s.key != self.0);
        }
    }
    pub fn enter<C: Serialize>(c: &C) -> Watch {
        let mut clock = 0;
        // SAFETY: own thread
        unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) };
        let key = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let slot = Slot { key, clock, start: cpu(clock), case: c as *const C as usize, show: show::<C> };
        SLOTS.lock().unwrap().push(slot);
        Watch(key)
    }
    pub fn at(id: &str, sub: &str, verif: &std::path::Path, replay: bool) {
        *WHERE.lock().unwrap() = Some((id.into(), sub.into(), verif.into(), replay));
    }
    fn rss_gb() -> f64 {
        let t = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
        t.split(' ').nth(1).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.) * 4096. / 1e9
    }
    pub fn start() {
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let big = rss_gb() > 14.;
            let slots = SLOTS.lock().unwrap();
            let limit = CPU_LIMIT.load(std::sync::atomic::Ordering::Relaxed) as f64;
            let Some((s, used)) = slots.iter().map(|s| (s, cpu(s.clock) - s.start)).max_by(|a, b| a.1.total_cmp(&b.1)) else { continue };
            if used > limit || (big && used > 1.) {
                let Some((id, sub, verif, replay)) = WHERE.lock().unwrap().clone() else { continue };
                let msg = format!("a case does not terminate: {used:.0} s of processor time, {:.1} GB of memory in use", rss_gb());
                let dir = verif.join("out/replays");
                std::fs::create_dir_all(&dir).ok();
                let path = dir.join(format!("{id}-{sub}.yaml"));
                if !replay {
                    let case: serde_yaml::Value = serde_yaml::from_str(&(s.show)(s.case)).unwrap_or_default();
                    // YAML values throughout: enum tags do not survive the detour over JSON
                    let text = |s: &str| serde_yaml::Value::String(s.into());
                    let doc: serde_yaml::Mapping = [(text("property"), text(&id)), (text("sub"), text(&sub)), (text("message"), text(&msg)), (text("case"), case)].into_iter().collect();
                    std::fs::write(&path, serde_yaml::to_string(&doc).unwrap()).ok();
                }
                println!("{sub}: {msg}");
                println!("VIOLATION property={id} replay={}", path.display());
                std::process::exit(1);
            }
        });
    }
}

pub const WORKERS: u64 = 8;

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, replay: Option<PathBuf>, verif: PathBuf) -> Self {
        Ctx {
            id: id.into(),
            tier,
            seed,
            replay,
            verif,
            subs: vec![],
            violations: vec![],
            findings: vec![],
            assumptions: vec![],
            errors: vec![],
            replay_ran: false,
            start: Instant::now(),
        }
    }
    /// number of cases for this tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let base = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        match std::env::var("VH_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((base as f64 * f) as u64).max(8),
            None => base,
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    pub fn rng_seed(&self, sub: &str, worker: u64) -> [u8; 32] {
        let mut out = [0u8; 32];
        for i in 0..4 {
            let h = hash64(&format!("{}/{}/{}/{}/{}", self.seed, self.id, sub, worker, i));
            out[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
        }
        out
    }
    /// is this finding listed in the known-findings file?
    pub fn known(&self, id: &str, key: &str) -> bool {
        let head = format!("finding: property={id} {key} ");
        std::fs::read_to_string(self.verif.join("known_findings")).map(|t| t.lines().any(|l| l.starts_with(&head))).unwrap_or(false)
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }

    /// Search for a failing case of `check` over `strategy`.
    pub fn sub<C>(
        &mut self,
        name: &str,
        rule: &str,
        cases: u64,
        strategy: impl Fn() -> BoxedStrategy<C> + Sync,
        check: impl Fn(&C) -> Verdict + Sync,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + Send,
    {
        if let Some(p) = self.replay.clone() {
            self.replay_sub::<C>(&p, name, &check);
            return;
        }
        if self.failed() {
            return; // first violation decides; keep the run short
        }
        if let Ok(only) = std::env::var("VH_ONLY") {
            if only != name {
                return;
            }
        }
        monitor::at(&self.id, name, &self.verif, false);
        let per = cases.div_ceil(WORKERS).max(1);
        let t0 = Instant::now();
        let results: Vec<(SubReport, Option<(C, String)>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..WORKERS)
                .map(|w| {
                    let seed = self.rng_seed(name, w);
                    let strategy = &strategy;
                    let check: &(dyn Fn(&C) -> Verdict + Sync) = &check;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || worker(seed, per, strategy(), check))
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
        });
        let mut rep = SubReport { name: name.into(), rule: rule.into(), ..Default::default() };
        let mut fails: Vec<(C, String)> = vec![];
        for (r, f) in results {
            rep.absorb(r);
            fails.extend(f);
        }
        if std::env::var("VH_VERBOSE").is_ok() {
            eprintln!(
                "{} {}: {} cases, {} discarded, {} nontrivial, {:.1}s, labels {:?} counts {:?}",
                self.id, name, rep.evaluations, rep.discards, rep.nontrivial, t0.elapsed().as_secs_f64(), rep.labels, rep.counts
            );
        }
        if rep.discards * 2 > rep.evaluations && fails.is_empty() {
            self.errors.push(format!("sub-check {name} discarded {} of {} cases", rep.discards, rep.evaluations));
        }
        self.subs.push(rep);
        // confirm outside the library; prefer a case that fails by itself
        for (case, _) in &fails {
            if let Err(m) = guarded_check(&check, case) {
                return self.violation(name, &m, case);
            }
        }
        if let Some((case, msg)) = fails.first() {
            // the checks are deterministic functions of their case: what differs is state the code under test keeps
            // between runs, and a result that depends on earlier runs breaks the property as well
            self.violation(name, &format!("{msg} (only after earlier cases in the same process: the result depends on preceding runs)"), case);
        }
    }

    pub fn violation<C: Serialize + Debug>(&mut self, sub: &str, message: &str, case: &C) {
        let dir = self.verif.join("out/replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}-{}.yaml", self.id, sub));
        let r = Replay { property: self.id.clone(), sub: sub.into(), message: message.into(), case };
        std::fs::write(&path, serde_yaml::to_string(&r).unwrap()).unwrap();
        self.violations.push(Violation { sub: sub.into(), message: message.into(), replay: path });
    }

    fn replay_sub<C: DeserializeOwned + Debug + Clone + Serialize>(
        &mut self,
        p: &PathBuf,
        name: &str,
        check: &(dyn Fn(&C) -> Verdict + Sync),
    ) {
        let text = std::fs::read_to_string(p).expect("replay file");
        #[derive(Deserialize)]
        struct Head {
            sub: String,
        }
        let h: Head = serde_yaml::from_str(&text).expect("replay file");
        if h.sub != name {
            return;
        }
        let r: Replay<C> = match serde_yaml::from_str(&text) {
            Ok(r) => r,
            Err(e) => {
                println!("cannot read the case of {}: {e}", p.display());
                std::process::exit(2);
            }
        };
        self.replay_ran = true;
        monitor::at(&self.id, name, &self.verif, true);
        match guarded_check(check, &r.case) {
            Err(m) => {
                println!("replay of {name} fails: {m}\n{:#?}", r.case);
                self.violations.push(Violation { sub: name.into(), message: m, replay: p.clone() });
            }
            Ok(i) => println!("replay of {name} passes: {i:?}"),
        }
    }

    /// Write evidence, print verdict, return exit code.
    pub fn finish(self) -> i32 {
        for f in &self.findings {
            println!("KNOWN-FINDING: property={} {}", self.id, f);
        }
        let evaluations: u64 = self.subs.iter().map(|s| s.evaluations).sum();
        let distinct: u64 = self.subs.iter().map(|s| s.distinct.len() as u64).sum();
        let samples: Vec<serde_json::Value> = self
            .subs
            .iter()
            .flat_map(|s| s.samples.iter().take(2).map(|x| serde_json::json!({"sub": s.name, "case": x})))
            .collect();
        let subs: serde_json::Map<String, serde_json::Value> = self
            .subs
            .iter()
            .map(|s| {
                (
                    s.name.clone(),
                    serde_json::json!({"evaluations": s.evaluations, "discarded": s.discards, "nontrivial": s.nontrivial,
                "distinct_nontrivial": s.distinct.len(), "rule": s.rule, "labels": s.labels, "counts": s.counts}),
                )
            })
            .collect();
        let rule = self.subs.iter().map(|s| format!("{}: {}", s.name, s.rule)).collect::<Vec<_>>().join(" | ");
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": {"evaluations": evaluations, "distinct_nontrivial": distinct, "rule": rule, "samples": samples, "sub_checks": subs},
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        if self.replay.is_none() {
            let dir = self.verif.join("evidence");
            std::fs::create_dir_all(&dir).ok();
            std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        }
        for v in &self.violations {
            println!("{}: {}", v.sub, v.message);
            println!("VIOLATION property={} replay={}", self.id, v.replay.display());
        }
        if self.failed() {
            return 1;
        }
        if self.replay.is_some() && !self.replay_ran {
            eprintln!("no such sub-check");
            return 2;
        }
        for e in &self.errors {
            eprintln!("ERROR: {e}");
        }
        if !self.errors.is_empty() {
            return 2;
        }
        println!("OK property={} evaluations={} distinct_nontrivial={}", self.id, evaluations, distinct);
        0
    }
}

fn worker<C>(
    seed: [u8; 32],
    cases: u64,
    strategy: BoxedStrategy<C>,
    check: &(dyn Fn(&C) -> Verdict + Sync),
) -> (SubReport, Option<(C, String)>)
where
    C: Serialize + DeserializeOwned + Debug + Clone,
{
    let cfg = Config {
        cases: cases as u32,
        failure_persistence: None,
        max_shrink_iters: 3000,
        max_shrink_time: 40_000,
        max_global_rejects: 1 << 20,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    let rep = RefCell::new(SubReport::default());
    let failed = Cell::new(false);
    let self_test = std::env::var("VH_SELFTEST").is_ok();
    let res = runner.run(&strategy, |case| {
      if self_test {
        // both ways a replay file is written must be readable
        let plain = serde_yaml::to_string(&Replay { property: "p".into(), sub: "s".into(), message: "m".into(), case: &case }).unwrap();
        let v: serde_yaml::Value = serde_yaml::from_str(&serde_yaml::to_string(&case).unwrap()).unwrap();
        let back: Replay<C> = serde_yaml::from_str(&plain).unwrap_or_else(|e| panic!("replay: {e}\n{plain}"));
        let hung = serde_yaml::to_string(&Replay { property: "p".into(), sub: "s".into(), message: "m".into(), case: v }).unwrap();
        let back2: Replay<C> = serde_yaml::from_str(&hung).unwrap_or_else(|e| panic!("hang replay: {e}\n{hung}"));
        if format!("{:?}", back.case) != format!("{case:?}") || format!("{:?}", back2.case) != format!("{case:?}") {
            eprintln!("SELFTEST: differs\n{case:?}\n{:?}\n{:?}", back.case, back2.case);
        }
        return Ok(());
      }
      match guarded_check(check, &case) {
        Ok(info) => {
            if !failed.get() {
                rep.borrow_mut().record(&info, &format!("{case:?}"));
            }
            Ok(())
        }
        Err(m) => {
            if !failed.get() {
                failed.set(true);
                if std::env::var("VH_VERBOSE").is_ok() {
                    eprintln!("first failure: {m}\n{case:?}");
                }
                rep.borrow_mut().evaluations += 1;
            }
            Err(TestCaseError::fail(m))
        }
      }
    });
    let fail = match res {
        Ok(()) => None,
        Err(TestError::Fail(reason, case)) => Some((case, reason.message().to_string())),
        Err(TestError::Abort(r)) => panic!("proptest aborted: {r}"),
    };
    (rep.into_inner(), fail)
}

/// deterministic sampling of one value from a strategy (used for program generation)
pub fn sample_from<C: Debug>(seed: [u8; 32], n: usize, s: &BoxedStrategy<C>) -> Vec<C> {
    use proptest::strategy::ValueTree;
    let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    (0..n).map(|_| s.new_tree(&mut r).unwrap().current()).collect()
}

/// |a-b| <= tol, treating equal infinities as equal and NaN as different
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol
}
