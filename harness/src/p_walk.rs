//! C06, C13, C14, C16: walks, resumption, serialisation, bare clones.
use crate::common::*;
use crate::ensure;
use crate::odes::*;
use crate::sim::*;
use crate::with_sys;
use dess::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;

// ---------------------------------------------------------------- C06
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WalkCase {
    what: What,
    sol: Sol,
    shift: f64,
    gaps: Vec<f64>,
    at_start: bool,
}
/// schedules of many shapes: ordinary, uniform, very dense, dense then long
fn walk_gaps() -> BoxedStrategy<Vec<f64>> {
    prop_oneof![
        5 => gaps(8, 2.),
        1 => (1usize..60, 1f64..3.).prop_map(|(n, s)| vec![s / 60. ; n]),
        1 => (prop::collection::vec(logu(1e-12, 1e-3), 1..8), 0.1f64..1.).prop_map(|(mut v, g)| { v.push(g); v }),
        1 => prop::collection::vec(logu(1e-6, 1.), 1..12).prop_map(|mut v| { let s: f64 = v.iter().sum(); if s > 2. { v.iter_mut().for_each(|x| *x *= 2. / s) }; v }),
        1 => (0.2f64..2., 1usize..4).prop_map(|(g, n)| vec![g / n as f64; n]),
    ]
    .boxed()
}
fn walk_case() -> BoxedStrategy<WalkCase> {
    (what(), sols(), prop_oneof![8 => Just(0.), 1 => Just(1e6), 1 => Just(-1e4), 1 => logu(1., 1e8)], walk_gaps(), any::<bool>(), units())
        .prop_map(|(what, sol, shift, gaps, at_start, u)| {
            // only autonomous-ish problems are moved far away in time (large arguments are merely slow to interpret)
            let shift = if matches!(what, What::Ode(_)) { shift } else { 0. };
            let mut sol = sol;
            if let (Sol::Adapt(_, a), true) = (&mut sol, shift != 0.) {
                // tolerances that can be met although time is rounded
                a.atol = a.atol.max(1e-11 * shift.abs());
                a.rtol = a.rtol.max(1e-7);
            }
            WalkCase { what, sol, shift, gaps, at_start }.scaled(u)
        })
        .boxed()
}
impl WalkCase {
    /// in other units of state and time (generic systems only)
    fn scaled(mut self, u: (f64, f64)) -> Self {
        if let What::Ode(p) = self.what {
            self.what = What::Ode(p.scaled(u));
            self.sol = match self.sol {
                Sol::Fixed(m, dt) => Sol::Fixed(m, dt * u.1),
                Sol::Adapt(m, a) => Sol::Adapt(m, a.scaled(u)),
            };
            self.gaps.iter_mut().for_each(|g| *g *= u.1);
            self.shift *= u.1;
        }
        self
    }
}
/// many reports, with the step longer or somewhat shorter than their distance
fn long_walk() -> BoxedStrategy<WalkCase> {
    (what(), sols(), 0f64..1., 0f64..1., prop::collection::vec(0.5f64..1.5, 1..9), any::<bool>())
        .prop_map(|(what, mut sol, n, d, shape, at_start)| {
            let recorded = matches!(sol, Sol::Adapt(_, a) if a.save);
            // recorded solver steps make long walks slow
            let n = (200. * if recorded { 10f64 } else { 50. }.powf(n)) as usize;
            let gap = 2. / n as f64;
            match &mut sol {
                Sol::Fixed(_, dt) => *dt = gap * (0.3 + 3. * d),
                // tolerances that the report distance meets
                Sol::Adapt(_, a) => {
                    a.rtol = a.rtol.max(1e-3);
                    a.dt_max = a.dt_max.max(gap);
                }
            }
            let gaps = (0..n).map(|k| gap * shape[k % shape.len()]).collect();
            WalkCase { what, sol, shift: 0., gaps, at_start }
        })
        .boxed()
}
fn shifted(w: &What, s: f64) -> What {
    match w {
        What::Ode(p) => {
            let mut p = p.clone();
            p.t0 += s;
            What::Ode(p)
        }
        o => o.clone(),
    }
}
/// strictly increasing schedule that starts at or after t0
fn strict(t0: f64, gaps: &[f64], at_start: bool) -> Vec<f64> {
    let mut s = schedule(t0, gaps, at_start);
    s.dedup();
    if !at_start {
        s.retain(|t| *t > t0);
        if s.is_empty() {
            s.push(t0 + 1.);
        }
    }
    s
}
/// longest way one rounding can be off
fn ulp(t: f64) -> f64 {
    4. * f64::EPSILON * t.abs()
}
/// rounding of the time on the way to report `k`
fn ulps(t0: f64, sched: &[f64], k: usize) -> f64 {
    ulp(if k == 0 { t0 } else { sched[k - 1] }).max(ulp(sched[k]))
}
fn verify_reporting<S: Sim>(mut sys: S, sched: &[f64], t0: f64) -> Verdict {
    let last = *sched.last().unwrap();
    let before = sys.clone();
    let steps0 = sys.sysrec().time.len();
    sys.walk_();
    let now = sys.now();
    if t0 >= last {
        ensure!(sys == before, "a system already at its last report time was changed by walk");
        return Ok(Info::nt(false).label("already finished"));
    }
    ensure!(now.time >= last, "walk stopped at {} before the last report time {last}", now.time);
    ensure!(now.time <= last + ulps(t0, sched, sched.len() - 1), "walk went past the last report time {last} to {}", now.time);
    let rec = sys.sysrec();
    ensure!(rec.time.len() == steps0 + sched.len(), "{} records for {} report times", rec.time.len() - steps0, sched.len());
    ensure!(rec.i.len() == rec.time.len(), "{} recorded times but {} recorded counters", rec.time.len(), rec.i.len());
    for (k, tr) in sched.iter().enumerate() {
        ensure!(close(rec.time[k], *tr, ulps(t0, sched, k)), "record {k} is at {} instead of the report time {tr}", rec.time[k]);
        ensure!(rec.i[k] == k + 1, "report counter is {} at record {k}", rec.i[k]);
    }
    ensure!(now.i == sched.len(), "report counter is {} after {} reports", now.i, sched.len());
    ensure!(sys.rep() == sched, "walk changed the report schedule");
    for s in sys.series() {
        ensure!(s.len() == sched.len(), "a component recorded {} entries for {} report times", s.len(), sched.len());
    }
    // nothing further to do
    let done = sys.clone();
    sys.walk_();
    ensure!(sys == done, "a second walk changed a finished system");
    Ok(Info::nt(sched.len() > 1).count("reports", sched.len() as u64))
}
fn check_reporting(c: &WalkCase) -> Verdict {
    let w = shifted(&c.what, c.shift);
    let t0 = w.t0();
    let mut sched = cheap(&w, &c.sol, strict(t0, &c.gaps, c.at_start), 400);
    sched.dedup();
    let r = with_sys!(&w, c.sol.solver(), sched.clone(), s => verify_reporting(s, &sched, t0))?;
    Ok(r.label(w.label()).label(c.sol.name()).label_if(c.shift != 0., "far from time zero").label_if(c.at_start, "first report at start"))
}
/// a schedule consumed in instalments, the rest appended later
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Late {
    w: WalkCase,
    /// how far past the last report the system already is
    past: f64,
}
fn verify_past<S: Sim>(mut sys: S, past: f64) -> Verdict {
    let last = *sys.rep().last().unwrap();
    sys.st().time = last + past;
    let before = sys.clone();
    sys.walk_();
    ensure!(sys == before, "a system at {} with last report {last} was changed by walk", last + past);
    Ok(Info::nt(true))
}
pub fn c06(ctx: &mut Ctx) {
    ctx.assume("strictly increasing schedules that do not begin before the current time; adaptive tolerances that can be met");
    ctx.sub(
        "reports",
        "random system (ODE, example systems, network), any solver, schedules dense, sparse, uniform, irregular, near or far from time zero; non-trivial: more than one report",
        ctx.n(120_000, 2_000_000),
        walk_case,
        check_reporting,
    );
    ctx.sub(
        "long",
        "the same with schedules of some hundred to ten thousand reports; non-trivial: always",
        ctx.n(400, 6_000),
        long_walk,
        |c| {
            let t0 = c.what.t0();
            let mut sched = cheap(&c.what, &c.sol, strict(t0, &c.gaps, c.at_start), 15_000);
            sched.dedup();
            with_sys!(&c.what, c.sol.solver(), sched.clone(), s => verify_reporting(s, &sched, t0))
        },
    );
    ctx.sub(
        "past",
        "systems already at or past their last report time; non-trivial: always",
        ctx.n(20_000, 200_000),
        || (walk_case(), prop_oneof![Just(0.), 0f64..2., logu(1e-12, 1.)]).prop_map(|(w, past)| Late { w, past }).boxed(),
        |c| {
            let sched = strict(c.w.what.t0(), &c.w.gaps, c.w.at_start);
            with_sys!(&c.w.what, c.w.sol.solver(), sched.clone(), s => verify_past(s, c.past))
        },
    );
}

// ---------------------------------------------------------------- C13
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// make this many more reports due and walk
    Walk(usize),
    /// the same in another thread, while an unrelated copy walks in this one
    Thread(usize),
    /// one report interval by hand
    Manual,
    /// continue on a copy; the original must stay as it is
    Copy,
    /// disturb a copy; the original must stay as it is
    Scratch,
    /// write and read back in this format
    Reload(Fmt),
    /// write to a file and read back (yaml)
    File,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    w: WalkCase,
    ops: Vec<Op>,
}
fn hist(reload: bool) -> BoxedStrategy<Hist> {
    let op = if reload {
        prop_oneof![
            12 => (1usize..4).prop_map(Op::Walk),
            1 => (1usize..4).prop_map(Op::Thread),
            8 => Just(Op::Manual),
            4 => Just(Op::Copy),
            16 => prop::sample::select(vec![Fmt::Yaml, Fmt::Bincode]).prop_map(Op::Reload),
            4 => Just(Op::File),
        ]
        .boxed()
    } else {
        prop_oneof![
            9 => (1usize..4).prop_map(Op::Walk), 1 => (1usize..4).prop_map(Op::Thread), 9 => Just(Op::Manual), 6 => Just(Op::Copy),
            3 => Just(Op::Scratch)
        ]
        .boxed()
    };
    (walk_case(), prop::collection::vec(op, 1..10)).prop_map(|(w, ops)| Hist { w, ops }).boxed()
}
fn run_ops<S: Sim>(mut sys: S, sched: &[f64], ops: &[Op], scratch: Option<&str>) -> Verdict {
    let mut whole = sys.clone();
    whole.walk_();
    // a system in the same state but with other parameters in between
    let mut other = sys.clone();
    other.other();
    other.walk_();
    let mut again = sys.clone();
    again.walk_();
    ensure!(again == whole, "walking two equal systems gave different results");
    let mut info = Info::nt(false);
    let (mut splits, mut kinds) = (0, std::collections::BTreeSet::new());
    let all = sched.to_vec();
    let mut originals: Vec<(S, S)> = vec![];
    for op in ops {
        let i = sys.now().i;
        match op {
            Op::Walk(n) => {
                if i >= all.len() {
                    continue;
                }
                *sys.rep() = all[..(i + n).min(all.len())].to_vec();
                // a walk over the first report only, at the start time, has nothing to do
                sys.walk_();
                splits += 1;
                kinds.insert("walk");
            }
            Op::Thread(n) => {
                if i >= all.len() {
                    continue;
                }
                *sys.rep() = all[..(i + n).min(all.len())].to_vec();
                let mut c = sys.clone();
                *c.rep() = all.clone();
                c.other();
                sys = std::thread::scope(|sc| {
                    let h = sc.spawn(move || {
                        sys.walk_();
                        sys
                    });
                    c.walk_();
                    h.join()
                })
                .map_err(|e| {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                    format!("panic in another thread: {}", m.unwrap_or_default())
                })?;
                splits += 1;
                kinds.insert("walk in another thread");
            }
            Op::Manual => {
                if i >= all.len() || (i + 1 == all.len() && sys.now().time >= all[i]) {
                    continue;
                }
                *sys.rep() = all[..i + 1].to_vec();
                sys.manual();
                splits += 1;
                kinds.insert("manual step");
            }
            Op::Copy => {
                let keep = sys.clone();
                ensure!(keep == sys, "a copy is not equal to the original");
                originals.push((std::mem::replace(&mut sys, keep.clone()), keep));
                kinds.insert("copy");
            }
            Op::Scratch => {
                let before = sys.clone();
                let mut c = sys.clone();
                *c.rep() = all.clone();
                c.other();
                c.walk_();
                c.clear_all();
                c.st().time = -5.;
                c.rep().clear();
                ensure!(sys == before, "work on a copy changed the original");
                kinds.insert("scratch");
            }
            Op::Reload(f) => {
                let b = sys.ser(*f);
                let back = S::de(*f, &b).map_err(|e| format!("{f:?}: what was written cannot be read back: {e}"))?;
                ensure!(back == sys, "{f:?}: reloaded system differs from the one written");
                sys = back;
                kinds.insert("reload");
            }
            Op::File => {
                let p = scratch.ok_or("no scratch directory")?;
                sys.to_file(p).map_err(|e| format!("writing {p}: {e}"))?;
                let back = S::from_file(p).map_err(|e| format!("reading {p}: {e}"))?;
                ensure!(back == sys, "system reloaded from file differs from the one written");
                sys = back;
                kinds.insert("file");
            }
        }
    }
    *sys.rep() = all.clone();
    sys.walk_();
    if sys != whole {
        let (a, b) = (format!("{sys:?}"), format!("{whole:?}"));
        let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
        let from = n.saturating_sub(120);
        return Err(format!(
            "the interrupted walk ends differently from the uninterrupted one, from: ...{} instead of ...{}",
            a.chars().skip(from).take(220).collect::<String>(),
            b.chars().skip(from).take(220).collect::<String>()
        ));
    }
    for (o, keep) in &originals {
        ensure!(o == keep, "work on a copy changed the original");
    }
    info.nontrivial = splits > 0 && !kinds.is_empty();
    for k in kinds {
        info = info.label(k);
    }
    Ok(info.count("operations", ops.len() as u64))
}
fn check_hist(c: &Hist, scratch: Option<&str>) -> Verdict {
    check_hist_to(c, scratch, 150)
}
fn check_hist_to(c: &Hist, scratch: Option<&str>, max: usize) -> Verdict {
    let w = &c.w.what;
    let t0 = w.t0();
    let mut sched = cheap(w, &c.w.sol, strict(t0, &c.w.gaps, c.w.at_start), max);
    sched.dedup();
    let r = with_sys!(w, c.w.sol.solver(), sched.clone(), s => run_ops(s, &sched, &c.ops, scratch))?;
    Ok(r.label(w.label()).label(c.w.sol.name()))
}
pub fn c13(ctx: &mut Ctx) {
    ctx.assume("systems holding only finite numbers");
    ctx.sub(
        "histories",
        "random system, solver and schedule; the walk is broken into instalments (schedule extended, reports driven one by one, continued on copies) and must equal the uninterrupted walk exactly; non-trivial: the walk was split at least once",
        ctx.n(80_000, 1_500_000),
        || hist(false),
        |c| check_hist(c, None),
    );
    ctx.sub(
        "long",
        "the same with some hundred to ten thousand reports; non-trivial: the walk was split at least once",
        ctx.n(160, 4_000),
        || {
            let op = prop_oneof![3 => (1usize..4).prop_map(Op::Walk), 1 => Just(Op::Manual), 2 => Just(Op::Copy), 1 => Just(Op::Scratch)];
            (long_walk(), prop::collection::vec(op, 1..6)).prop_map(|(w, mut ops)| {
                for o in ops.iter_mut() {
                    if let Op::Walk(n) = o { *n *= w.gaps.len() / 6 }
                }
                Hist { w, ops }
            }).boxed()
        },
        |c| check_hist_to(c, None, 15_000),
    );
}

// ---------------------------------------------------------------- scratch files
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(ctx: &Ctx, tag: &str) -> Self {
        let p = ctx.verif.join("out").join(format!("scratch-{}-{}-{}", ctx.id, tag, std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn file(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// one file name per worker thread
pub fn thread_file(s: &Scratch, ext: &str) -> String {
    let id = format!("{:?}", std::thread::current().id()).replace(['(', ')'], "-");
    s.file(&format!("{id}.{ext}"))
}

/// the same with names as users choose them, absolute or relative to the current directory
pub fn named_file(s: &Scratch, ext: &str, k: usize) -> Result<String, String> {
    let dir = PathBuf::from(thread_file(s, "d.0"));
    let dir = match (k / 16) % 4 {
        0 => dir.join("with space"),
        1 => dir.join(if ext == "json" { "x.yaml" } else { "x.json" }),
        _ => dir,
    };
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let stem = ["f", "run.1", "v1.2.3", "a b", "x.yaml", "x.json", ".hidden", "wärme", "json", "yaml", "UPPER.YAML", "-", "a..b", "~", "%20", "f.tar.gz"][k % 16];
    let p = dir.join(format!("{stem}.{ext}"));
    let here = std::env::current_dir().map_err(|e| e.to_string())?;
    let p = match p.strip_prefix(&here) {
        Ok(r) if k & 64 != 0 => {
            if k & 128 != 0 {
                PathBuf::from(".").join(r)
            } else {
                r.to_path_buf()
            }
        }
        _ => p,
    };
    Ok(p.to_str().unwrap().to_string())
}

// ---------------------------------------------------------------- C14
/// numbers that are awkward to print
pub fn fnum() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => num(100.),
        3 => any::<f64>().prop_map(|v| if v.is_finite() { v } else { 1.5 }),
        1 => prop::sample::select(vec![0.1, 1. / 3., 1e-300, 1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, 1e16, 123456789012345680.0, -0.0, 1e15, 1e-7]),
    ]
    .boxed()
}
pub fn fvec(max: usize) -> BoxedStrategy<Vec<f64>> {
    prop::collection::vec(fnum(), 0..max).boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConfCase {
    nums: Vec<f64>,
    max_iter: u8,
    flags: (bool, bool),
    n_iter: u8,
    errs: Vec<Option<f64>>,
    states: Vec<f64>,
    hist: Vec<(f64, u8, Option<f64>, Option<f64>, f64, Vec<f64>)>,
    kind: u8,
}
fn conf_case() -> BoxedStrategy<ConfCase> {
    (
        prop::collection::vec(fnum(), 6),
        any::<u8>(),
        any::<(bool, bool)>(),
        any::<u8>(),
        prop::collection::vec(prop::option::of(fnum()), 2),
        fvec(5),
        prop::collection::vec((fnum(), any::<u8>(), prop::option::of(fnum()), prop::option::of(fnum()), fnum(), fvec(4)), 0..4),
        0u8..7,
    )
        .prop_map(|(nums, max_iter, flags, n_iter, errs, states, hist, kind)| ConfCase { nums, max_iter, flags, n_iter, errs, states, hist, kind })
        .boxed()
}
impl ConfCase {
    pub fn conf(&self) -> AdaptiveSolverConfig {
        let mut c = AdaptiveSolverConfig::default();
        c.dt_max = self.nums[0];
        c.rtol = self.nums[1];
        c.atol = self.nums[2];
        c.max_iter = self.max_iter;
        c.save = self.flags.0;
        c.save_states = self.flags.1;
        c.state = SolverState { dt: self.nums[3], n_iter: self.n_iter, norm_err: self.errs[0], norm_err_rel: self.errs[1], t_curr: self.nums[4], states: self.states.clone() };
        for h in &self.hist {
            c.history.push(SolverState { dt: h.0, n_iter: h.1, norm_err: h.2, norm_err_rel: h.3, t_curr: h.4, states: h.5.clone() });
        }
        c
    }
    pub fn solver(&self) -> SolverTypes {
        let dt = self.nums[5];
        match self.kind {
            0 => SolverTypes::EulerFixed { dt },
            1 => SolverTypes::HeunsMethod { dt },
            2 => SolverTypes::MidpointMethod { dt },
            3 => SolverTypes::RalstonsMethod { dt },
            4 => SolverTypes::RK4Fixed { dt },
            5 => SolverTypes::RK23BogackiShampine(Box::new(self.conf())),
            _ => SolverTypes::RK45CashKarp(Box::new(self.conf())),
        }
    }
}
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DocCase {
    pub conf: ConfCase,
    pub nums: Vec<f64>,
    pub recs: Vec<Vec<f64>>,
    pub t_report: Vec<f64>,
    pub idx: Vec<usize>,
    pub type_: u8,
    pub fmt: Fmt,
    pub file: bool,
}
pub fn doc_case() -> BoxedStrategy<DocCase> {
    (
        conf_case(),
        prop::collection::vec(fnum(), 16),
        prop::collection::vec(prop::collection::vec(fnum(), 9), 0..5),
        fvec(6),
        prop::collection::vec(prop_oneof![0usize..100, any::<usize>()], 6),
        0u8..N_TYPES,
        fmts(),
        any::<bool>(),
    )
        .prop_map(|(conf, nums, recs, t_report, idx, type_, fmt, file)| DocCase { conf, nums, recs, t_report, idx, type_, fmt, file })
        .boxed()
}
/// compare through YAML values: structure exactly, numbers to within `ulps` units in the last place
fn near(a: &serde_yaml::Value, b: &serde_yaml::Value, ulps: u64) -> Result<bool, String> {
    use serde_yaml::Value as V;
    match (a, b) {
        (V::Number(x), V::Number(y)) => {
            if x == y {
                return Ok(false);
            }
            if !x.is_f64() || !y.is_f64() {
                return Err(format!("{x} became {y}"));
            }
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            if x == y {
                return Ok(false);
            }
            let key = |v: f64| {
                let b = v.to_bits() as i64;
                if b < 0 { i64::MIN.wrapping_sub(b) } else { b }
            };
            if key(x).abs_diff(key(y)) <= ulps {
                Ok(true)
            } else {
                Err(format!("{x:e} became {y:e}"))
            }
        }
        (V::Sequence(x), V::Sequence(y)) => {
            if x.len() != y.len() {
                return Err(format!("a sequence of {} became one of {}", x.len(), y.len()));
            }
            let mut any = false;
            for (p, q) in x.iter().zip(y) {
                any |= near(p, q, ulps)?;
            }
            Ok(any)
        }
        (V::Mapping(x), V::Mapping(y)) => {
            if x.len() != y.len() {
                return Err("number of fields differs".into());
            }
            let mut any = false;
            for ((k, p), (l, q)) in x.iter().zip(y) {
                if k != l {
                    return Err(format!("field {k:?} became {l:?}"));
                }
                any |= near(p, q, ulps).map_err(|e| format!("{}: {e}", k.as_str().unwrap_or("?")))?;
            }
            Ok(any)
        }
        (V::Tagged(x), V::Tagged(y)) => {
            if x.tag != y.tag {
                return Err(format!("{} became {}", x.tag, y.tag));
            }
            near(&x.value, &y.value, ulps)
        }
        _ => {
            if a == b {
                Ok(false)
            } else {
                Err(format!("{a:?} became {b:?}"))
            }
        }
    }
}
/// JSON numbers may be read with an error in the last place (known finding); everything else is exact
pub const JSON_ULPS: u64 = 2;
pub fn same_doc<T: Doc>(f: Fmt, was: &T, is: &T) -> Result<bool, String> {
    if was == is {
        return Ok(false);
    }
    if f != Fmt::Json {
        return Err(format!("{f:?}: read back {is:?} instead of {was:?}"));
    }
    let v = |x: &T| serde_yaml::to_value(x).map_err(|e| e.to_string());
    near(&v(was)?, &v(is)?, JSON_ULPS).map_err(|e| format!("{f:?}: {e}"))
}
fn round_trip<T: Doc>(x: &T, c: &DocCase, scratch: &Scratch) -> Verdict {
    let before = x.clone();
    let mut inexact = false;
    let name = std::any::type_name::<T>().rsplit("::").next().unwrap().to_string();
    if c.file && c.fmt != Fmt::Bincode {
        let p = named_file(scratch, if c.fmt == Fmt::Json { "json" } else { "yaml" }, c.idx[1])?;
        // something longer (or a left-over) may be there already, or nothing
        match c.idx[0] % 400 {
            n if n < 40 => {
                let _ = std::fs::remove_file(&p);
            }
            n => std::fs::write(&p, "x: [1, 2, 3]\n".repeat(n - 40)).map_err(|e| e.to_string())?,
        }
        x.to_file(&p).map_err(|e| format!("{name}: writing {p}: {e}"))?;
        let y = T::from_file(&p).map_err(|e| format!("{name}: the file written ({:?}) cannot be read back: {e}", c.fmt))?;
        inexact |= same_doc(c.fmt, x, &y).map_err(|e| format!("{name} through a file: {e}"))?;
        let bytes = std::fs::read(&p).map_err(|e| e.to_string())?;
        let y = T::de(c.fmt, &bytes).map_err(|e| format!("{name}: the file written is not {:?} as its extension says: {e}", c.fmt))?;
        inexact |= same_doc(c.fmt, x, &y).map_err(|e| format!("{name} through a file: {e}"))?;
    }
    let b = x.ser(c.fmt);
    let y = T::de(c.fmt, &b).map_err(|e| format!("{name}: {:?} text written cannot be read back: {e}", c.fmt))?;
    inexact |= same_doc(c.fmt, x, &y).map_err(|e| format!("{name}: {e}"))?;
    ensure!(*x == before, "{name}: serialising changed the value");
    Ok(Info::nt(true).label(name).label(format!("{:?}", c.fmt)).label_if(c.file, "file").label_if(inexact, "JSON number off in the last place (known finding)"))
}
/// the values a document case stands for
pub struct Bag<'a>(&'a DocCase);
impl Bag<'_> {
    fn rec(&self, r: usize, k: usize) -> f64 {
        self.0.recs[r][k % 9]
    }
    pub fn mass(&self, k: usize) -> ThermalMass {
        let n = &self.0.nums;
        let mut m = ThermalMass::default();
        m.c = n[k];
        m.state = ThermalMassState { temp: n[k + 1], dtemp: n[k + 2] };
        for r in 0..self.0.recs.len() {
            m.history.push(ThermalMassState { temp: self.rec(r, k), dtemp: self.rec(r, k + 1) });
        }
        m
    }
    pub fn res(&self, k: usize) -> ThermalReservoir {
        let m = self.mass(k);
        ThermalReservoir { state: m.state, history: m.history }
    }
    pub fn cond(&self, k: usize) -> Conductance {
        let n = &self.0.nums;
        let mut m = Conductance::default();
        m.h = n[k];
        m.state = ConductanceState { q: n[k + 1] };
        for r in 0..self.0.recs.len() {
            m.history.push(ConductanceState { q: self.rec(r, k) });
        }
        m
    }
    pub fn state(&self) -> SystemState {
        SystemState { i: self.0.idx[0], time: self.0.nums[15] }
    }
    pub fn history(&self) -> SystemStateHistoryVec {
        let mut history = SystemStateHistoryVec::default();
        for r in 0..self.0.recs.len() {
            history.push(SystemState { i: self.0.idx[r], time: self.rec(r, 8) });
        }
        history
    }
    pub fn sys(&self) -> System3TM {
        System3TM {
            solver_type: self.0.conf.solver(), m1: self.mass(0), m2: self.mass(3), h12: self.cond(6), m3: self.mass(8), h23: self.cond(11),
            t_report: self.0.t_report.clone(), state: self.state(), history: self.history(),
        }
    }
    pub fn bc(&self) -> System3TMWithBC {
        System3TMWithBC {
            solver_type: self.0.conf.solver(), m1: self.res(0), m2: self.mass(3), h12: self.cond(6), m3: self.mass(8), h23: self.cond(11),
            t_report: self.0.t_report.clone(), state: self.state(), history: self.history(),
        }
    }
}
pub const N_TYPES: u8 = 17;
/// `$x` bound to the document of case `$c`
#[macro_export]
macro_rules! with_doc {
    ($c:expr, $x:ident => $body:expr) => {{
        let c: &DocCase = $c;
        let b = Bag::of(c);
        match c.type_ {
            0 => { let $x = b.mass(0); $body }
            1 => { let $x = b.mass(0).state; $body }
            2 => { let $x = b.mass(0).history; $body }
            3 => { let $x = b.res(0); $body }
            4 => { let $x = b.cond(0); $body }
            5 => { let $x = b.cond(0).state; $body }
            6 => { let $x = b.cond(0).history; $body }
            7 => { let $x = c.conf.conf(); $body }
            8 => { let $x = c.conf.conf().state; $body }
            9 => { let $x = c.conf.conf().history; $body }
            10 => { let $x = c.conf.solver(); $body }
            11 => { let $x = b.state(); $body }
            12 => { let $x = b.history(); $body }
            13 => { let $x = b.sys(); $body }
            14 => { let $x = b.bc(); $body }
            15 => { let $x = dess_examples::three_thrml_mass_w_bc_sys::SystemState3TM::from_bincode(&b.state().to_bincode()).map_err(|e| e.to_string())?; $body }
            _ => { let $x = dess_examples::three_thrml_mass_w_bc_sys::SystemState3TMHistoryVec::from_bincode(&b.history().to_bincode()).map_err(|e| e.to_string())?; $body }
        }
    }};
}
impl Bag<'_> {
    pub fn of(c: &DocCase) -> Bag<'_> {
        Bag(c)
    }
}
fn check_doc(c: &DocCase, sc: &Scratch) -> Verdict {
    with_doc!(c, x => round_trip(&x, c, sc))
}
/// a document with long histories and schedules, spun out of the records of a small one
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LargeCase {
    doc: DocCase,
    n: usize,
}
fn large_case() -> BoxedStrategy<LargeCase> {
    // the types that hold histories
    let types = prop::sample::select(vec![0u8, 2, 3, 4, 6, 7, 9, 10, 12, 13, 14, 16]);
    (doc_case(), types, logu(100., 20_000.)).prop_map(|(doc, type_, n)| LargeCase { doc: DocCase { type_, ..doc }, n: n as usize }).boxed()
}
impl LargeCase {
    fn spin(&self) -> DocCase {
        let mut d = self.doc.clone();
        let mut h = 0x9E3779B97F4A7C15u64 ^ self.n as u64;
        // deterministic numbers around those of the small document; short and long texts mixed
        let mut next = |v: f64| {
            h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            match h >> 62 {
                0 => v,
                1 => (h >> 40) as f64,
                2 => (h >> 33) as f64 * 1e-3 - 7e5,
                _ => v * (1. - (h >> 50) as f64 * 1e-6),
            }
        };
        let pool = if d.recs.is_empty() { vec![d.nums.clone()] } else { d.recs.clone() };
        d.recs = (0..self.n).map(|k| (0..9).map(|i| next(pool[k % pool.len()][i])).collect()).collect();
        d.idx = (0..self.n.max(6)).map(|k| self.doc.idx[k % 6].wrapping_add(k)).collect();
        d.t_report = (0..self.n).map(|k| next(d.nums[k % 16])).collect();
        let pool = d.conf.hist.clone();
        if !pool.is_empty() {
            d.conf.hist = (0..self.n)
                .map(|k| {
                    let (dt, i, e, r, t, x) = pool[k % pool.len()].clone();
                    (next(dt), i.wrapping_add(k as u8), e.map(&mut next), r.map(&mut next), next(t), x)
                })
                .collect();
        }
        d
    }
}
/// JSON in the middle of a walk: readable, same to the last place, and the continuation stays close
#[derive(Clone, Debug, Serialize, Deserialize)]
struct JsonCase {
    w: WalkCase,
    at: usize,
}
fn check_json<S: Sim>(mut sys: S, sched: &[f64], at: usize, fixed: bool) -> Verdict {
    let k = at % sched.len();
    for _ in 0..k {
        sys.manual();
    }
    let text = sys.to_json();
    let mut back = S::from_json(&text).map_err(|e| format!("JSON written after {k} reports cannot be read back: {e}"))?;
    let inexact = same_doc(Fmt::Json, &sys, &back)?;
    if fixed || !inexact {
        sys.walk_();
        back.walk_();
        let (a, b) = (sys.current(), back.current());
        for i in 0..a.len() {
            let tol = if inexact { 1e-9 * (1. + a.iter().fold(0f64, |m, x| m.max(x.abs()))) } else { 0. };
            ensure!(close(a[i], b[i], tol), "value {i} after continuing from JSON is {} instead of {}", b[i], a[i]);
        }
        ensure!(sys.now().i == back.now().i && close(sys.now().time, back.now().time, ulp(sched.iter().fold(sys.now().time, |m, t| m.abs().max(t.abs())))), "continuing from JSON ends at {:?} instead of {:?}", back.now(), sys.now());
    }
    Ok(Info::nt(k > 0).label_if(inexact, "JSON number off in the last place (known finding)"))
}
pub fn c14(ctx: &mut Ctx) {
    ctx.assume("finite numbers (JSON has no others)");
    let sc = Scratch::new(ctx, "files");
    ctx.sub(
        "documents",
        "every public type of library and examples filled with arbitrary finite numbers, histories, flags; each format, in memory and through files of all sorts of names that may hold older, longer content; non-trivial: always",
        ctx.n(120_000, 2_000_000),
        doc_case,
        |c| check_doc(c, &sc),
    );
    ctx.sub(
        "large",
        "the same with histories and schedules of a hundred to twenty thousand entries; non-trivial: always",
        ctx.n(1_200, 20_000),
        large_case,
        |c| check_doc(&c.spin(), &sc),
    );
    ctx.sub(
        "resume",
        "random system, solver and schedule; at random moments the system is replaced by its reloaded copy (YAML, binary, file); everything afterwards must equal the uninterrupted walk exactly; non-trivial: split at least once",
        ctx.n(30_000, 500_000),
        || hist(true),
        |c| check_hist(c, Some(&thread_file(&sc, "yaml"))),
    );
    ctx.sub(
        "json-midway",
        "the same through JSON: equal up to the last place, and the continuation of fixed-step walks agrees to rounding; non-trivial: at least one report had been recorded",
        ctx.n(30_000, 500_000),
        || (walk_case(), 0usize..8).prop_map(|(w, at)| JsonCase { w, at }).boxed(),
        |c| {
            let w = &c.w.what;
            let mut sched = cheap(w, &c.w.sol, strict(w.t0(), &c.w.gaps, c.w.at_start), 150);
            sched.dedup();
            // an unstable step would amplify differences in the last place
            let fixed = matches!(c.w.sol, Sol::Fixed(_, dt) if dt * w.rate() < 1.);
            with_sys!(w, c.w.sol.solver(), sched.clone(), s => check_json(s, &sched, c.at, fixed))
        },
    );
    // the known defect, by its specific input
    let q = -94.33050469559873f64;
    let x = ConductanceState { q };
    let exact = ConductanceState::from_json(&x.to_json()).is_ok_and(|y| y == x);
    if !exact && ctx.replay.is_none() {
        if ctx.known("C14", "json-last-place") {
            ctx.findings.push(format!("from_json reads numbers with an error in the last place: ConductanceState {{ q: {q:?} }} written as {} reads back as {:?}", x.to_json(), ConductanceState::from_json(&x.to_json()).map(|y| y.q)));
        } else {
            ctx.violation("documents", "JSON text written cannot be read back exactly", &DocCase { conf: empty_conf(), nums: vec![q; 16], recs: vec![], t_report: vec![], idx: vec![0; 6], type_: 5, fmt: Fmt::Json, file: false });
        }
    }
}
fn empty_conf() -> ConfCase {
    ConfCase { nums: vec![1.; 6], max_iter: 1, flags: (false, false), n_iter: 0, errs: vec![None, None], states: vec![], hist: vec![], kind: 0 }
}

// ---------------------------------------------------------------- C16
fn forget_solver_history<S: Sim>(s: &mut S) {
    if let Some(c) = s.adaptive() {
        c.history = Default::default();
    }
}
fn check_bare<S: Sim>(mut sys: S, sched: &[f64], at: usize, disturb: &[f64]) -> Verdict {
    let k = at % (sched.len() + 1);
    for _ in 0..k {
        if sys.now().i < sched.len() {
            sys.manual();
        }
    }
    let before = sys.clone();
    let mut bare = sys.bare_clone();
    ensure!(sys == before, "taking a bare clone changed the original");
    let mut want = sys.clone();
    want.clear_all();
    let mut b2 = bare.clone();
    // whether the solver's own step history is kept is not prescribed
    forget_solver_history(&mut want);
    forget_solver_history(&mut b2);
    ensure!(b2 == want, "bare clone {b2:?}\ninstead of {want:?}");
    for s in bare.series() {
        ensure!(s.is_empty(), "a component's history is not empty in the bare clone");
    }
    ensure!(bare.sysrec().is_empty(), "the system's history is not empty in the bare clone");
    // the same step from both
    if sys.now().i < sched.len() {
        let mut full = sys.clone();
        full.step_();
        bare.step_();
        ensure!(full.current() == bare.current() && full.now() == bare.now(), "a step on the bare clone gives {:?}, on the original {:?}", bare.current(), full.current());
        ensure!(sys == before, "a step on the bare clone changed the original");
        // and the other way round
        let keep = bare.clone();
        full.manual_safe(sched.len());
        *full.rep() = disturb.to_vec();
        ensure!(keep == bare, "later changes to the original changed the bare clone");
    }
    Ok(Info::nt(k > 0))
}
trait ManualSafe: Sim {
    fn manual_safe(&mut self, n: usize) {
        self.st().i += 1;
        self.save_();
        if self.now().i < n {
            self.step_();
        }
    }
}
impl<T: Sim> ManualSafe for T {}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CompCase {
    nums: Vec<f64>,
    recs: Vec<(f64, f64)>,
}
fn check_components(c: &CompCase) -> Verdict {
    let n = &c.nums;
    let mut m = ThermalMass { c: n[0], state: ThermalMassState { temp: n[1], dtemp: n[2] }, history: Default::default() };
    let mut r = ThermalReservoir { state: ThermalMassState { temp: n[3], dtemp: n[4] }, history: Default::default() };
    let mut q = Conductance { h: n[5], state: ConductanceState { q: n[6] }, history: Default::default() };
    let want = (m.clone(), r.clone(), q.clone());
    for (a, b) in &c.recs {
        m.history.push(ThermalMassState { temp: *a, dtemp: *b });
        r.history.push(ThermalMassState { temp: *b, dtemp: *a });
        q.history.push(ConductanceState { q: *a });
    }
    let got = (m.bare_clone(), r.bare_clone(), q.bare_clone());
    ensure!(got == want, "bare clones {got:?} instead of {want:?}");
    ensure!(m.history.len() == c.recs.len() && r.history.len() == c.recs.len() && q.history.len() == c.recs.len(), "taking a bare clone changed the original");
    Ok(Info::nt(!c.recs.is_empty()))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BareCase {
    w: WalkCase,
    at: usize,
    disturb: Vec<f64>,
}
pub fn c16(ctx: &mut Ctx) {
    ctx.assume("whether the adaptive solver's own step history is kept in a bare clone is left open");
    ctx.sub(
        "systems",
        "random system, solver and schedule, bare clone taken after a random number of reports; compared with a clone whose histories were cleared by hand, then both are stepped; non-trivial: at least one report recorded before",
        ctx.n(80_000, 1_500_000),
        || (walk_case(), 0usize..12, prop::collection::vec(-5f64..5., 0..3)).prop_map(|(w, at, disturb)| BareCase { w, at, disturb }).boxed(),
        |c| {
            let w = &c.w.what;
            let mut sched = cheap(w, &c.w.sol, strict(w.t0(), &c.w.gaps, c.w.at_start), 100);
            sched.dedup();
            Ok(with_sys!(w, c.w.sol.solver(), sched.clone(), s => check_bare(s, &sched, c.at, &c.disturb))?.label(w.label()).label(c.w.sol.name()))
        },
    );
    ctx.sub(
        "components",
        "each component with arbitrary numbers and history; non-trivial: history not empty",
        ctx.n(60_000, 500_000),
        || (prop::collection::vec(fnum(), 7), prop::collection::vec((fnum(), fnum()), 0..6)).prop_map(|(nums, recs)| CompCase { nums, recs }).boxed(),
        check_components,
    );
}
