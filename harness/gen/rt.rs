//! Runtime of generated programs: raw access to generated systems (written out field by field, without the library's
//! macros) and the checks of the macro-generated code against it.
use crate::common::*;
use crate::ensure;
use dess::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::fmt::Debug;

/// Random laws may have solutions that end in finite time or are too stiff for the solver; a case that evaluates its
/// derivatives very often is abandoned without a verdict (that walks end is another property's subject, on problems where they have to).
struct Spent;
thread_local!(static LEFT: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) });
pub fn tick() {
    LEFT.with(|l| {
        let n = l.get();
        if n == 0 {
            std::panic::resume_unwind(Box::new(Spent));
        }
        l.set(n - 1);
    })
}
fn affordable(f: impl FnOnce() -> Verdict) -> Verdict {
    LEFT.with(|l| l.set(25_000));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    LEFT.with(|l| l.set(u64::MAX));
    match r {
        Ok(v) => v,
        Err(p) if p.is::<Spent>() => Ok(Info::nt(false).label("too many evaluations, not judged")),
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// raw access to one component
pub trait Comp {
    fn x(&self) -> f64;
    fn set_x(&mut self, v: f64);
    fn dx(&self) -> f64;
    fn set_dx(&mut self, v: f64);
    fn storage_(&self) -> f64;
    /// parameters and other fields of the state
    fn fill(&mut self, v: &[f64]);
    fn push_raw(&mut self);
    fn clear_raw(&mut self);
    fn hist_lens(&self) -> Vec<usize>;
    /// potential and derivative a connection from `a` to `b` gives this flow component
    fn law(&self, a: &dyn Comp, b: &dyn Comp) -> (f64, f64);
    fn flow_(&self) -> f64;
}
pub struct Info_ {
    pub path: &'static str,
    pub used: bool,
    pub recorded: bool,
}
/// raw access to one system, generated
pub trait Raw {
    fn comp(&self, k: usize) -> &dyn Comp;
    fn comp_mut(&mut self, k: usize) -> &mut dyn Comp;
    fn info(&self) -> &'static [Info_];
    /// (first end, second end, flow)
    fn conns(&self) -> &'static [(usize, usize, usize)];
    fn fill_extra(&mut self, v: &[f64]);
    fn st(&mut self) -> &mut SystemState;
    fn now(&self) -> SystemState;
    fn rep(&mut self) -> &mut Vec<f64>;
    fn sol(&mut self) -> &mut SolverTypes;
    fn sysrec(&self) -> &SystemStateHistoryVec;
    fn sysrec_mut(&mut self) -> &mut SystemStateHistoryVec;
    fn walk_(&mut self);
    fn step_(&mut self);
    fn save_(&mut self);
    fn connect_(&mut self);
    fn update_(&mut self);
    fn name(&self) -> &'static str;
}
pub trait GenSys: Raw {
    fn any(&self) -> &dyn Any;
    fn copy(&self) -> Box<dyn GenSys>;
    fn bare(&self) -> Box<dyn GenSys>;
    fn eq_(&self, o: &dyn GenSys) -> bool;
    fn dbg(&self) -> String;
    fn g_states(&self) -> Vec<f64>;
    fn g_set_states(&mut self, v: Vec<f64>);
    fn g_step_states(&mut self, v: Vec<f64>);
    fn g_step_by_dt(&mut self, dt: f64);
    fn g_derivs(&self) -> Vec<f64>;
    fn g_set_derivs(&mut self, v: &[f64]);
    fn g_step_derivs(&mut self, v: Vec<f64>);
    fn g_storages(&self) -> Vec<f64>;
    fn g_reset(&mut self);
    fn g_step_time(&mut self, dt: f64);
    fn g_update_derivs(&mut self);
}
impl<T> GenSys for T
where
    T: Raw + HasStates + SolverBase + BareClone + Clone + PartialEq + Debug + 'static,
{
    fn any(&self) -> &dyn Any {
        self
    }
    fn copy(&self) -> Box<dyn GenSys> {
        Box::new(self.clone())
    }
    fn bare(&self) -> Box<dyn GenSys> {
        Box::new(self.bare_clone())
    }
    fn eq_(&self, o: &dyn GenSys) -> bool {
        o.any().downcast_ref::<T>().is_some_and(|o| o == self)
    }
    fn dbg(&self) -> String {
        format!("{self:?}")
    }
    fn g_states(&self) -> Vec<f64> {
        self.states()
    }
    fn g_set_states(&mut self, v: Vec<f64>) {
        self.set_states(v)
    }
    fn g_step_states(&mut self, v: Vec<f64>) {
        self.step_states(v)
    }
    fn g_step_by_dt(&mut self, dt: f64) {
        self.step_states_by_dt(&dt)
    }
    fn g_derivs(&self) -> Vec<f64> {
        self.derivs()
    }
    fn g_set_derivs(&mut self, v: &[f64]) {
        self.set_derivs(v)
    }
    fn g_step_derivs(&mut self, v: Vec<f64>) {
        self.step_derivs(v)
    }
    fn g_storages(&self) -> Vec<f64> {
        self.storages()
    }
    fn g_reset(&mut self) {
        self.reset_derivs()
    }
    fn g_step_time(&mut self, dt: f64) {
        self.step_time(&dt)
    }
    fn g_update_derivs(&mut self) {
        self.update_derivs()
    }
}
type Sys = Box<dyn GenSys>;
fn used(s: &dyn GenSys) -> Vec<usize> {
    s.info().iter().enumerate().filter(|(_, i)| i.used).map(|(k, _)| k).collect()
}
fn same(got: &dyn GenSys, want: &dyn GenSys, what: &str) -> Result<(), String> {
    if got.eq_(want) {
        return Ok(());
    }
    Err(format!("{}: after {what} the system is\n{}\ninstead of\n{}", got.name(), got.dbg(), want.dbg()))
}

/// a way to run one generated history container
pub trait HistBox {
    fn push_(&mut self, v: &[f64]) -> Vec<String>;
    fn pop_(&mut self) -> Option<Vec<String>>;
    fn clear_(&mut self);
    fn len_(&self) -> usize;
    fn empty_(&self) -> bool;
    fn fields(&self) -> Vec<Vec<String>>;
    fn copy(&self) -> Box<dyn HistBox>;
    fn name(&self) -> &'static str;
}

// ------------------------------------------------------------------ cases
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case<O> {
    /// which program was generated: seed and number of worlds
    pub prog: (u64, u64),
    pub sys: usize,
    pub nums: Vec<f64>,
    pub time: f64,
    pub solver: (u8, f64),
    pub ops: Vec<O>,
}
fn small() -> BoxedStrategy<f64> {
    prop_oneof![6 => (-200i32..200).prop_map(|k| k as f64 / 100.), 3 => -2f64..2., 1 => prop::sample::select(vec![0., -0., 1., 1e-9, 1. / 3., 2.])].boxed()
}
/// the same, now and then of another magnitude: for operations that only store, add and multiply
fn wide() -> BoxedStrategy<f64> {
    let any = prop_oneof![3 => crate::lits::or((-9f64..9.).prop_map(|e| 10f64.powf(e)).boxed(), 1, 1e-9, 1e9), 1 => (1..2000).prop_map(|k| k as f64)];
    prop_oneof![8 => small(), 1 => (any, any_sign()).prop_map(|(x, s)| x * s)].boxed()
}
fn any_sign() -> BoxedStrategy<f64> {
    any::<bool>().prop_map(|s| if s { -1. } else { 1. }).boxed()
}
fn case<O: Debug + Clone + 'static>(op: BoxedStrategy<O>, n: usize) -> BoxedStrategy<Case<O>> {
    case_of(small(), op, n)
}
fn case_of<O: Debug + Clone + 'static>(num: BoxedStrategy<f64>, op: BoxedStrategy<O>, n: usize) -> BoxedStrategy<Case<O>> {
    (0..crate::N_SYS, prop::collection::vec(num, 24), prop_oneof![1 => Just(0.), 1 => 0f64..3.], (0u8..7, 0.01f64..0.2), prop::collection::vec(op, 1..n))
        .prop_map(|(sys, nums, time, solver, ops)| Case { prog: crate::PROG, sys, nums, time, solver, ops })
        .boxed()
}
fn build<O>(c: &Case<O>) -> Sys {
    let mut s = crate::make(c.sys);
    let n = c.nums.len();
    for k in 0..s.info().len() {
        let v: Vec<f64> = (0..8).map(|j| c.nums[(k * 5 + j * 3 + 2) % n]).collect();
        let m = s.comp_mut(k);
        m.fill(&v);
        m.set_x(c.nums[(k * 2) % n] + k as f64 * 0.01);
        m.set_dx(c.nums[(k * 2 + 1) % n] - k as f64 * 0.02);
    }
    s.fill_extra(&c.nums);
    s.st().time = c.time;
    let dt = c.solver.1;
    let conf = || {
        let mut a = AdaptiveSolverConfig::default();
        a.dt_max = dt;
        a.state.dt = dt / 2.;
        a.save = c.nums[0] > 0.;
        a.save_states = c.nums[1] > 0.;
        Box::new(a)
    };
    *s.sol() = match c.solver.0 {
        0 => SolverTypes::EulerFixed { dt },
        1 => SolverTypes::HeunsMethod { dt },
        2 => SolverTypes::MidpointMethod { dt },
        3 => SolverTypes::RalstonsMethod { dt },
        4 => SolverTypes::RK4Fixed { dt },
        5 => SolverTypes::RK23BogackiShampine(conf()),
        _ => SolverTypes::RK45CashKarp(conf()),
    };
    s
}
/// positions hold values of their own, so that a permutation shows
fn vals(v: &[f64], n: usize) -> Vec<f64> {
    (0..n).map(|k| v[k % v.len()] + k as f64 * 0.125).collect()
}
fn settle(got: f64, want: f64, terms: &[f64], what: impl Fn() -> String) -> Result<f64, String> {
    let tol = 8. * f64::EPSILON * terms.iter().map(|t| t.abs()).sum::<f64>();
    ensure!(close(got, want, tol), "{}: {got:e} instead of {want:e}", what());
    Ok(got)
}

// ------------------------------------------------------------------ C19
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum VOp {
    States,
    SetStates(Vec<f64>),
    StepStates(Vec<f64>),
    StepByDt(f64),
    Derivs,
    SetDerivs(Vec<f64>),
    StepDerivs(Vec<f64>),
    Reset,
    Storages,
    StepTime(f64),
    Scribble(u8, f64, f64),
    Save,
}
fn vop() -> BoxedStrategy<VOp> {
    let v = || prop::collection::vec(wide(), 1..6);
    prop_oneof![
        1 => Just(VOp::States),
        2 => v().prop_map(VOp::SetStates),
        2 => v().prop_map(VOp::StepStates),
        3 => wide().prop_map(VOp::StepByDt),
        1 => Just(VOp::Derivs),
        2 => v().prop_map(VOp::SetDerivs),
        2 => v().prop_map(VOp::StepDerivs),
        1 => Just(VOp::Reset),
        1 => Just(VOp::Storages),
        2 => wide().prop_map(VOp::StepTime),
        2 => (any::<u8>(), wide(), wide()).prop_map(|(k, a, b)| VOp::Scribble(k, a, b)),
        1 => Just(VOp::Save),
    ]
    .boxed()
}
fn check_vector(c: &Case<VOp>) -> Verdict {
    let mut s = build(c);
    let u = used(&*s);
    let n = u.len();
    let paths: Vec<&str> = u.iter().map(|k| s.info()[*k].path).collect();
    for op in &c.ops {
        let mut w = s.copy();
        let what = format!("{op:?}");
        match op {
            VOp::States => {
                let want: Vec<f64> = u.iter().map(|k| s.comp(*k).x()).collect();
                let got = s.g_states();
                ensure!(got == want, "{}: states {got:?} instead of {want:?} (of {paths:?})", s.name());
            }
            VOp::Derivs => {
                let want: Vec<f64> = u.iter().map(|k| s.comp(*k).dx()).collect();
                let got = s.g_derivs();
                ensure!(got == want, "{}: derivatives {got:?} instead of {want:?} (of {paths:?})", s.name());
            }
            VOp::Storages => {
                let want: Vec<f64> = u.iter().map(|k| s.comp(*k).storage_()).collect();
                let got = s.g_storages();
                ensure!(got == want, "{}: storages {got:?} instead of {want:?} (of {paths:?})", s.name());
            }
            VOp::SetStates(v) => {
                let v = vals(v, n);
                u.iter().zip(&v).for_each(|(k, x)| w.comp_mut(*k).set_x(*x));
                s.g_set_states(v.clone());
                let got = s.g_states();
                ensure!(got == v, "{}: states set to {v:?} read {got:?}", s.name());
            }
            VOp::SetDerivs(v) => {
                let v = vals(v, n);
                u.iter().zip(&v).for_each(|(k, x)| w.comp_mut(*k).set_dx(*x));
                s.g_set_derivs(&v);
                let got = s.g_derivs();
                ensure!(got == v, "{}: derivatives set to {v:?} read {got:?}", s.name());
            }
            VOp::StepStates(v) => {
                let v = vals(v, n);
                s.g_step_states(v.clone());
                for (k, d) in u.iter().zip(&v) {
                    let x = w.comp(*k).x();
                    let g = settle(s.comp(*k).x(), x + d, &[x, *d], || format!("{}: state of {} after {what}", s.name(), s.info()[*k].path))?;
                    w.comp_mut(*k).set_x(g);
                }
            }
            VOp::StepDerivs(v) => {
                let v = vals(v, n);
                s.g_step_derivs(v.clone());
                for (k, d) in u.iter().zip(&v) {
                    let x = w.comp(*k).dx();
                    let g = settle(s.comp(*k).dx(), x + d, &[x, *d], || format!("{}: derivative of {} after {what}", s.name(), s.info()[*k].path))?;
                    w.comp_mut(*k).set_dx(g);
                }
            }
            VOp::StepByDt(dt) => {
                s.g_step_by_dt(*dt);
                for k in &u {
                    let (x, d) = (w.comp(*k).x(), w.comp(*k).dx());
                    let g = settle(s.comp(*k).x(), x + dt * d, &[x, dt * d], || format!("{}: state of {} (derivative {d:e}) after {what}", s.name(), s.info()[*k].path))?;
                    w.comp_mut(*k).set_x(g);
                }
                let t = w.now().time;
                w.st().time = settle(s.now().time, t + dt, &[t, *dt], || format!("{}: time after {what}", s.name()))?;
            }
            VOp::StepTime(dt) => {
                s.g_step_time(*dt);
                let t = w.now().time;
                w.st().time = settle(s.now().time, t + dt, &[t, *dt], || format!("{}: time after {what}", s.name()))?;
            }
            VOp::Reset => {
                u.iter().for_each(|k| w.comp_mut(*k).set_dx(0.));
                s.g_reset();
            }
            VOp::Scribble(k, a, b) => {
                let k = *k as usize % s.info().len().max(1);
                if s.info().is_empty() {
                    continue;
                }
                for z in [&mut s, &mut w] {
                    z.comp_mut(k).set_x(*a);
                    z.comp_mut(k).set_dx(*b);
                }
            }
            VOp::Save => {
                s.save_();
                w = s.copy();
            }
        }
        same(&*s, &*w, &what)?;
    }
    Ok(Info::nt(n > 1 && n < s.info().len()).label(format!("{n} states")).label_if(n == 0, "no states").count("operations", c.ops.len() as u64))
}

// ------------------------------------------------------------------ C18 (and the random histories of C16)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    Save,
    /// save this many times, with a component edited before each
    Many(u16, f64),
    Scribble(u8, f64, f64),
    Time(f64),
    Walk(Vec<f64>),
    Manual(f64),
    Copy,
    Bare,
}
fn hop() -> BoxedStrategy<HOp> {
    prop_oneof![
        5 => Just(HOp::Save),
        3 => (any::<u8>(), small(), small()).prop_map(|(k, a, b)| HOp::Scribble(k, a, b)),
        1 => small().prop_map(HOp::Time),
        2 => prop::collection::vec(0.02f64..0.4, 1..4).prop_map(HOp::Walk),
        1 => (0.02f64..0.4).prop_map(HOp::Manual),
        1 => Just(HOp::Copy),
        1 => Just(HOp::Bare),
    ]
    .boxed()
}
fn record_raw(s: &mut dyn GenSys) {
    let now = s.now();
    s.sysrec_mut().i.push(now.i);
    s.sysrec_mut().time.push(now.time);
    for k in 0..s.info().len() {
        if s.info()[k].recorded {
            s.comp_mut(k).push_raw();
        }
    }
}
fn clear_raw(s: &mut dyn GenSys) {
    *s.sysrec_mut() = SystemStateHistoryVec { i: vec![], time: vec![] };
    for k in 0..s.info().len() {
        s.comp_mut(k).clear_raw();
    }
}
fn lens(s: &dyn GenSys) -> Result<usize, String> {
    let n = s.sysrec().time.len();
    ensure!(s.sysrec().i.len() == n, "{}: the system's history has {n} times but {} counters", s.name(), s.sysrec().i.len());
    for (k, i) in s.info().iter().enumerate() {
        for l in s.comp(k).hist_lens() {
            let want = if i.recorded { n } else { 0 };
            ensure!(l == want, "{}: {} recorded {l} entries instead of {want}", s.name(), i.path);
        }
    }
    Ok(n)
}
/// make further report times due
fn due(s: &mut dyn GenSys, gaps: &[f64]) -> f64 {
    let now = s.now();
    let r = s.rep();
    r.truncate(now.i);
    while r.len() < now.i {
        r.push(now.time);
    }
    let mut t = now.time;
    for g in gaps {
        t += g;
        r.push(t);
    }
    t
}
fn finite(s: &dyn GenSys) -> bool {
    let d = s.dbg();
    !d.contains("NaN") && !d.contains("inf") && (0..s.info().len()).all(|k| s.comp(k).x().abs() < 1e6)
}
fn run_saves(c: &Case<HOp>, only_bare: bool) -> Result<(Sys, usize, bool), String> {
    let mut s = build(c);
    s.rep().clear();
    let mut left: Vec<(Sys, Sys)> = vec![];
    let mut saved = 0;
    for op in &c.ops {
        let what = format!("{op:?}");
        let mut w = s.copy();
        match op {
            HOp::Save => {
                s.save_();
                record_raw(&mut *w);
                saved += 1;
            }
            HOp::Many(n, a) => {
                let m = s.info().len();
                for j in 0..*n as usize {
                    for z in [&mut s, &mut w] {
                        if m > 0 {
                            z.comp_mut(j % m).set_x(*a + j as f64);
                        }
                        z.st().time += 0.5;
                    }
                    s.save_();
                    record_raw(&mut *w);
                }
                saved += *n as usize;
            }
            HOp::Scribble(k, a, b) => {
                let k = *k as usize % s.info().len().max(1);
                if s.info().is_empty() {
                    continue;
                }
                for z in [&mut s, &mut w] {
                    z.comp_mut(k).set_x(*a);
                    z.comp_mut(k).set_dx(*b);
                }
            }
            HOp::Time(t) => {
                s.st().time = *t;
                w = s.copy();
            }
            HOp::Walk(g) => {
                let last = due(&mut *s, g);
                w = s.copy();
                s.walk_();
                if !finite(&*s) {
                    return Ok((s, 0, false));
                }
                while w.now().time < last {
                    w.step_();
                    w.st().i += 1;
                    record_raw(&mut *w);
                    saved += 1;
                }
            }
            HOp::Manual(g) => {
                due(&mut *s, &[*g]);
                w = s.copy();
                s.step_();
                if !finite(&*s) {
                    return Ok((s, 0, false));
                }
                let before = s.copy();
                s.st().i += 1;
                s.save_();
                w = before;
                w.st().i += 1;
                record_raw(&mut *w);
                saved += 1;
            }
            HOp::Copy => {
                let keep = s.copy();
                left.push((std::mem::replace(&mut s, keep.copy()), keep));
            }
            HOp::Bare => {
                if only_bare {
                    continue;
                }
                let keep = s.copy();
                let b = s.bare();
                left.push((std::mem::replace(&mut s, b), keep));
                // what a bare clone is belongs to another property; that its histories are empty matters here
                w = s.copy();
                clear_raw(&mut *w);
            }
        }
        same(&*s, &*w, &what)?;
        lens(&*s).map_err(|e| format!("after {what}: {e}"))?;
    }
    for (a, b) in &left {
        same(&**a, &**b, "work on a copy")?;
    }
    Ok((s, saved, true))
}
fn check_saves(c: &Case<HOp>) -> Verdict {
    let (s, saved, ok) = run_saves(c, false)?;
    if !ok {
        return Ok(Info::nt(false).label("overflow, not judged"));
    }
    let rec = s.info().iter().filter(|i| i.recorded).count();
    Ok(Info::nt(saved > 1 && rec > 1).label_if(s.info().iter().any(|i| i.recorded && i.path.contains('.')), "nested component recorded").label_if(rec < s.info().len(), "some components not recorded").count("records", saved as u64))
}
fn forget(s: &mut dyn GenSys) {
    match s.sol() {
        SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => c.history = Default::default(),
        _ => {}
    }
}
fn check_bare(c: &Case<HOp>) -> Verdict {
    let (mut s, saved, ok) = run_saves(c, true)?;
    if !ok {
        return Ok(Info::nt(false).label("overflow, not judged"));
    }
    let before = s.copy();
    let mut b = s.bare();
    same(&*s, &*before, "taking a bare clone")?;
    let mut w = s.copy();
    clear_raw(&mut *w);
    forget(&mut *w);
    let mut g = b.copy();
    forget(&mut *g);
    same(&*g, &*w, "taking a bare clone (the clone)")?;
    // the same step on both
    let keep = {
        due(&mut *s, &[0.1]);
        *b.rep() = s.rep().clone();
        b.copy()
    };
    s.step_();
    same(&*b, &*keep, "a step on the original (the clone)")?;
    b.step_();
    for k in 0..s.info().len() {
        let (p, q) = (s.comp(k), b.comp(k));
        let nan = p.x().is_nan() || p.dx().is_nan();
        ensure!(nan || (p.x() == q.x() && p.dx() == q.dx()), "{}: a step on the bare clone gives {} ({:e}, {:e}), on the original ({:e}, {:e})", s.name(), s.info()[k].path, q.x(), q.dx(), p.x(), p.dx());
    }
    ensure!(b.now() == s.now(), "{}: a step on the bare clone ends at {:?}, on the original at {:?}", s.name(), b.now(), s.now());
    Ok(Info::nt(saved > 0).label_if(s.info().iter().any(|i| i.recorded && i.path.contains('.')), "nested component recorded"))
}

// ------------------------------------------------------------------ C21
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum NOp {
    Connect,
    Update,
    /// the system's own derivative function: zero, connect, update
    Derivs,
    Scribble(u8, f64, f64),
}
fn nop() -> BoxedStrategy<NOp> {
    prop_oneof![2 => Just(NOp::Connect), 2 => Just(NOp::Update), 2 => Just(NOp::Derivs), 3 => (any::<u8>(), wide(), wide()).prop_map(|(k, a, b)| NOp::Scribble(k, a, b))].boxed()
}
fn check_net(c: &Case<NOp>) -> Verdict {
    let mut s = build(c);
    let conns = s.conns();
    for op in &c.ops {
        let mut w = s.copy();
        let what = format!("{op:?}");
        if let NOp::Scribble(k, a, b) = op {
            let k = *k as usize % s.info().len().max(1);
                if s.info().is_empty() {
                    continue;
                }
            s.comp_mut(k).set_x(*a);
            s.comp_mut(k).set_dx(*b);
            continue;
        }
        if matches!(op, NOp::Derivs) {
            for k in used(&*w) {
                w.comp_mut(k).set_dx(0.);
            }
        }
        if !matches!(op, NOp::Update) {
            for (a, b, f) in conns {
                let (x, dx) = w.comp(*f).law(w.comp(*a), w.comp(*b));
                w.comp_mut(*f).set_x(x);
                w.comp_mut(*f).set_dx(dx);
            }
        }
        let mut scale: Vec<f64> = (0..s.info().len()).map(|k| w.comp(k).dx().abs()).collect();
        if !matches!(op, NOp::Connect) {
            // net inflow over storage, node by node
            let mut sum = vec![0.; s.info().len()];
            for (a, b, f) in conns {
                let q = w.comp(*f).flow_();
                sum[*a] -= q / w.comp(*a).storage_();
                sum[*b] += q / w.comp(*b).storage_();
                scale[*a] += (q / w.comp(*a).storage_()).abs();
                scale[*b] += (q / w.comp(*b).storage_()).abs();
            }
            for (k, d) in sum.iter().enumerate() {
                if conns.iter().any(|(a, b, _)| *a == k || *b == k) {
                    let v = w.comp(k).dx() + d;
                    w.comp_mut(k).set_dx(v);
                }
            }
        }
        match op {
            NOp::Connect => s.connect_(),
            NOp::Update => s.update_(),
            _ => s.g_update_derivs(),
        }
        for k in 0..s.info().len() {
            if conns.iter().any(|(a, b, _)| *a == k || *b == k) {
                let g = settle(s.comp(k).dx(), w.comp(k).dx(), &[scale[k], scale[k]], || format!("{}: derivative of {} after {what} with connections {conns:?}", s.name(), s.info()[k].path))?;
                w.comp_mut(k).set_dx(g);
            }
        }
        same(&*s, &*w, &what)?;
    }
    let deg = |k: usize| conns.iter().filter(|(a, b, _)| *a == k || *b == k).count();
    let multi = (0..s.info().len()).any(|k| deg(k) > 1);
    let par = conns.iter().enumerate().any(|(i, p)| conns[..i].iter().any(|q| (p.0, p.1) == (q.0, q.1) || (p.0, p.1) == (q.1, q.0)));
    Ok(Info::nt(multi).label_if(par, "parallel connections").label_if(conns.is_empty(), "no connections").label_if(used(&*s).iter().any(|k| deg(*k) == 0), "unconnected node").label_if(conns.iter().any(|(a, b, _)| a == b), "self loop"))
}

// ------------------------------------------------------------------ C17
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum COp {
    Push(Vec<f64>),
    /// push many
    Many(Vec<f64>, u16),
    Pop,
    Clear,
    Copy,
}
fn check_container(c: &Case<COp>) -> Verdict {
    let mut h = crate::make_hist(c.sys);
    let name = h.name();
    let width = h.fields().len();
    let mut m: Vec<Vec<String>> = vec![];
    let mut left: Vec<(Box<dyn HistBox>, Vec<Vec<String>>)> = vec![];
    let agree = |h: &dyn HistBox, m: &[Vec<String>], what: &str| -> Result<(), String> {
        ensure!(h.len_() == m.len(), "{name}: after {what} length {} instead of {}", h.len_(), m.len());
        ensure!(h.empty_() == m.is_empty(), "{name}: after {what} emptiness {} with {} entries", h.empty_(), m.len());
        let want: Vec<Vec<String>> = (0..width).map(|f| m.iter().map(|s| s[f].clone()).collect()).collect();
        ensure!(h.fields() == want, "{name}: after {what} fields {:?} instead of {want:?}", h.fields());
        Ok(())
    };
    let (mut pops, mut max) = (0, 0);
    for op in &c.ops {
        match op {
            COp::Push(v) => m.push(h.push_(v)),
            COp::Many(v, n) => {
                for j in 0..*n {
                    let v: Vec<f64> = v.iter().map(|x| x + j as f64).collect();
                    m.push(h.push_(&v));
                }
            }
            COp::Pop => {
                let (a, b) = (h.pop_(), m.pop());
                ensure!(a == b, "{name}: pop gave {a:?} instead of {b:?}");
                pops += b.is_some() as u64;
            }
            COp::Clear => {
                h.clear_();
                m.clear();
            }
            COp::Copy => {
                let d = h.copy();
                left.push((std::mem::replace(&mut h, d), m.clone()));
            }
        }
        max = max.max(m.len());
        agree(&*h, &m, &format!("{op:?}"))?;
    }
    for (h, m) in &left {
        agree(&**h, m, "work on a copy")?;
    }
    Ok(Info::nt(pops > 0 && max > 1).count("operations", c.ops.len() as u64))
}

pub fn run(ctx: &mut Ctx) {
    let id = ctx.id.clone();
    match id.as_str() {
        "C16" => ctx.sub(
            "gen-bare",
            "generated system definitions (random field orders, markings, component types, nested components, topologies) with random histories, bare clone against field-by-field model; non-trivial: something was recorded before",
            ctx.n(40_000, 600_000),
            || case(hop(), 12),
            |c| affordable(|| check_bare(c)),
        ),
        "C17" => {
            ctx.sub(
            "gen-long",
            "the same containers with some hundred to ten thousand pushes in a row; non-trivial: a state was popped",
            ctx.n(600, 6_000),
            || {
                let many = || (prop::collection::vec(small(), 8), 0f64..1.).prop_map(|(v, u)| COp::Many(v, (100. * 100f64.powf(u)) as u16));
                let op = prop_oneof![2 => many(), 3 => Just(COp::Pop), 1 => Just(COp::Clear), 1 => Just(COp::Copy)];
                (case(op.boxed(), 4), many(), 0..crate::N_HIST).prop_map(|(mut c, m, k)| { c.sys = k; c.ops.extend([m, COp::Pop]); c }).boxed()
            },
            check_container,
            );
            ctx.sub(
            "gen-containers",
            "history containers generated for random state definitions (one to seven fields of random types), random operation sequences against a plain vector; non-trivial: a state was popped and more than one was held",
            ctx.n(100_000, 1_000_000),
            || {
                let op = prop_oneof![10 => prop::collection::vec(wide(), 8).prop_map(COp::Push), 6 => Just(COp::Pop), 1 => Just(COp::Clear), 1 => Just(COp::Copy)];
                (case(op.boxed(), 40), 0..crate::N_HIST).prop_map(|(mut c, k)| { c.sys = k; c }).boxed()
            },
            check_container,
            )
        }
        "C18" => {
            ctx.sub(
                "gen-long",
                "generated system definitions, between some hundred and twenty thousand saves; every entry must be there; non-trivial: more than one recorded component",
                ctx.n(800, 8_000),
                || {
                    let many = || (0f64..1., small()).prop_map(|(u, a)| HOp::Many((100. * 100f64.powf(u)) as u16, a));
                    let op = prop_oneof![3 => many(), 1 => Just(HOp::Save), 1 => prop::collection::vec(0.02f64..0.4, 1..4).prop_map(HOp::Walk), 1 => Just(HOp::Copy)];
                    case(op.boxed(), 4).prop_flat_map(move |c| (Just(c), many())).prop_map(|(mut c, m)| { c.ops.push(m); c }).boxed()
                },
                |c| affordable(|| check_saves(c)),
            );
            ctx.sub(
            "gen-saves",
            "generated system definitions; random sequences of saving, walking, stepping, editing, copying; after each operation the whole system must equal a copy in which the entries were appended by hand; non-trivial: more than one record and more than one recorded component",
            ctx.n(60_000, 1_000_000),
            || case(hop(), 14),
            |c| affordable(|| check_saves(c)),
            )
        }
        "C19" => ctx.sub(
            "gen-vectors",
            "generated system definitions; random sequences of all state-vector operations; after each the whole system must equal a copy edited field by field; non-trivial: at least two states and at least one component that is not a state",
            ctx.n(150_000, 2_000_000),
            || case_of(wide(), vop(), 16),
            check_vector,
        ),
        "C21" => ctx.sub(
            "gen-networks",
            "generated topologies over random component types (linear, nonlinear, one-sided and inertial connections, constant, nonlinear and infinite storage); connect and update macros against sums over the list of connections; non-trivial: some node has several connections",
            ctx.n(150_000, 2_000_000),
            || case_of(wide(), nop(), 10),
            check_net,
        ),
        _ => ctx.errors.push(format!("no generated check for {id}")),
    }
}
