//! C03, C04, C05, C22, C08: adaptive methods.
use crate::common::*;
use crate::ensure;
use crate::net::*;
use crate::odes::*;
use crate::p_fixed::{maxabs, tame};
use crate::tab::{self, norm};
use crate::with_ode;
use dess::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aspect {
    /// C03: increment, time, reported errors, derivatives
    Formula,
    /// C04: acceptance
    Accept,
    /// C05: lengths
    Length,
    /// C22: recording
    Record,
}

/// what a traced walk left behind
pub struct Trace<'a> {
    pub m: AM,
    pub ad: Ad,
    pub f: tab::F<'a>,
    /// size of the terms whose rounding enters a derivative: (t, x) -> magnitude
    pub sens: &'a dyn Fn(f64, &[f64]) -> f64,
    pub t0: f64,
    pub x0: Vec<f64>,
    /// magnitude of the states
    pub xs: f64,
    pub sched: Vec<f64>,
    /// one entry per accepted step; states already reduced to those that obey equations
    pub entries: Vec<SolverState>,
    pub t_end: f64,
    pub x_end: Vec<f64>,
    pub d_end: Vec<f64>,
    pub conf: AdaptiveSolverConfig,
    /// sources are switched on at some times: increments may vanish where errors do not
    pub switched: bool,
    /// recorded times and states (system and component histories)
    pub rec_t: Vec<f64>,
    pub rec_x: Vec<Vec<f64>>,
}
/// longest recorded walk
const MAX_STEPS: usize = 150;
const MANY: &str = "more than ten trials in a step";
/// tolerance on sums of terms of size `k`
const EPS: f64 = 3e-14;
pub fn noise(dt: f64, kscale: f64, sens: f64) -> f64 {
    EPS * (kscale + dt * sens) + 1e-300
}
/// factor by which the next trial length follows from the outcome of an accepted trial
pub fn coef(ad: &Ad, err: f64, rel: Option<f64>) -> f64 {
    match rel {
        Some(r) if r <= ad.rtol => (ad.rtol / r).powf(0.2),
        Some(_) if err <= ad.atol => (ad.atol / err).powf(0.2),
        Some(_) => 0.25,
        None if err <= ad.atol => (ad.atol / err).powf(0.2),
        None => (ad.atol / err).powf(0.25),
    }
}
pub fn tol_met(ad: &Ad, err: f64, rel: Option<f64>) -> bool {
    err < ad.atol || rel.map_or(err <= ad.atol, |r| r <= ad.rtol)
}
fn rel_close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * a.abs().max(b.abs())
}

impl Trace<'_> {
    /// lengths of the `n` trials of a step from (t, x) that begins with a trial of length `first`; none if rounding
    /// decides whether an increment is zero
    fn trials(&self, t: f64, x: &[f64], first: f64, n: i32) -> Option<Vec<f64>> {
        let mut v = vec![first];
        for _ in 1..n {
            let h = *v.last().unwrap();
            let q = self.m.tab().step(self.f, t, x, h);
            let nd = norm(&q.delta);
            let c = if nd == 0. {
                let d: Vec<f64> = q.delta.iter().zip(&q.delta_hat).map(|(a, b)| a - b).collect();
                coef(&self.ad, norm(&d), None)
            } else if nd <= noise(h, q.kscale, (self.sens)(t, x)) {
                return None;
            } else {
                0.25
            };
            v.push(h * c);
        }
        Some(v)
    }
    pub fn check(&self, asp: Aspect) -> Verdict {
        let tab = self.m.tab();
        let ad = &self.ad;
        let last = *self.sched.last().unwrap();
        let (mut t, mut x) = (self.t0, self.x0.clone());
        let mut ri = 0; // next report not yet reached
        let mut next_raw = ad.dt_init;
        let mut info = Info::nt(true);
        let (mut rejected, mut by_limit, mut capped, mut grown, mut by_atol, mut by_rtol, mut limited_max) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
        for (k, e) in self.entries.iter().enumerate() {
            while ri + 1 < self.sched.len() && t >= self.sched[ri] {
                ri += 1;
            }
            let remaining = self.sched[ri] - t;
            let w = format!("{} step {k} (t {t}, dt {}, n_iter {}, err {:?}, rel {:?})", tab.name, e.dt, e.n_iter, e.norm_err, e.norm_err_rel);
            let (Some(err), rel) = (e.norm_err, e.norm_err_rel) else {
                return Err(format!("{w}: no absolute error reported"));
            };
            if asp == Aspect::Record {
                ensure!(rel_close(e.t_curr, t, 4e-16), "{w}: recorded start time {} but the previous step ended at {t}", e.t_curr);
                ensure!(e.dt > 0., "{w}: recorded length is not positive");
                ensure!(e.n_iter >= 1, "{w}: recorded iteration count is zero");
                ensure!(t < last, "{w}: recorded step begins after the last report {last}");
            }
            let r = tab.step(self.f, t, &x, e.dt);
            let sens = (self.sens)(t, &x).max((self.sens)(t + e.dt, &e.states));
            let nz = noise(e.dt, r.kscale, sens);
            ensure!(e.states.len() == x.len(), "{w}: {} states recorded, expected {}", e.states.len(), x.len());
            let xn: Vec<f64> = x.iter().zip(&r.delta).map(|(a, b)| a + b).collect();
            let xtol = 10. * nz + 4e-16 * maxabs(&x).max(maxabs(&xn));
            if asp == Aspect::Formula || asp == Aspect::Record {
                for i in 0..x.len() {
                    ensure!(
                        close(e.states[i], xn[i], xtol),
                        "{w}: state {i} went from {} to {}, the embedded pair's higher-order solution is {} (difference {:e})",
                        x[i], e.states[i], xn[i], e.states[i] - xn[i]
                    );
                }
                let d: Vec<f64> = r.delta.iter().zip(&r.delta_hat).map(|(a, b)| a - b).collect();
                let want = norm(&d);
                ensure!(close(err, want, nz * (x.len() as f64).sqrt()), "{w}: absolute error {err} reported, the norm of the difference of the two solutions is {want}");
                let nd = norm(&r.delta);
                match rel {
                    Some(q) => {
                        ensure!(nd > 0. || r.kscale > 0., "{w}: relative error {q} reported though the increment is zero");
                        ensure!(
                            close(q * nd, err, 1e-12 * err + 10. * q.min(1e6) * nz),
                            "{w}: relative error {q} reported, expected {}", err / nd
                        );
                    }
                    // (squares of smaller ones are zero)
                    None => ensure!(nd <= nz || nd < 1e-150, "{w}: no relative error reported though the increment has norm {nd}"),
                }
            }
            // trial lengths
            let first = next_raw.min(remaining).min(ad.dt_max);
            if asp == Aspect::Length || asp == Aspect::Record {
                ensure!(e.dt <= ad.dt_max * (1. + 1e-15), "{w}: step longer than the maximum {}", ad.dt_max);
                ensure!(e.dt <= remaining * (1. + 1e-14) + 4e-16 * t.abs(), "{w}: step reaches past the next report at {}", self.sched[ri]);
            }
            if asp == Aspect::Length {
                let n = e.n_iter.max(1) as i32;
                let want = if self.switched { self.trials(t, &x, first, n).map(|v| v[n as usize - 1]) } else { Some(first * 0.25f64.powi(n - 1)) };
                let want = want.unwrap_or(e.dt);
                ensure!(
                    rel_close(e.dt, want, 1e-12) || (remaining - e.dt).abs() <= 4e-16 * t.abs(),
                    "{w}: length {} used; after {} trials from a first trial of {first} (control law {next_raw}, remaining {remaining}, maximum {}) it should be {want}",
                    e.dt, e.n_iter, ad.dt_max
                );
            }
            if asp == Aspect::Accept {
                let limit = ad.max_iter.max(1);
                ensure!(e.n_iter >= 1 && e.n_iter <= limit, "{w}: iteration count outside 1..={limit}");
                ensure!(
                    e.n_iter >= ad.max_iter || tol_met(ad, err, rel),
                    "{w}: accepted although neither tolerance (rtol {}, atol {}) is met and trials remain (limit {})", ad.rtol, ad.atol, ad.max_iter
                );
                // earlier trials must have been unacceptable
                let n = e.n_iter.min(30) as i32;
                let before = if self.switched { self.trials(t, &x, first, n).unwrap_or_default() } else { (1..n).map(|j| e.dt * 4f64.powi(j)).collect() };
                for h in before.into_iter().take((n - 1).max(0) as usize) {
                    let q = tab.step(self.f, t, &x, h);
                    let d: Vec<f64> = q.delta.iter().zip(&q.delta_hat).map(|(a, b)| a - b).collect();
                    let nzj = noise(h, q.kscale, sens) * (x.len() as f64).sqrt() + 1e-12 * norm(&d);
                    let lo = (norm(&d) - nzj).max(0.);
                    let hi = norm(&d) + nzj;
                    let nd = norm(&q.delta);
                    let rhi = if nd > 2. * nzj { Some(hi / (nd - nzj)) } else { None };
                    let _ = lo;
                    let surely = hi < ad.atol * (1. - 1e-9) || rhi.is_some_and(|r| r <= ad.rtol * (1. - 1e-9));
                    ensure!(
                        !surely,
                        "{w}: took {} trials, but the trial of length {h} had error {} and relative error {:?} and met the tolerance (rtol {}, atol {})",
                        e.n_iter, norm(&d), rhi, ad.rtol, ad.atol
                    );
                }
                // and nothing of them is left: the accepted step starts from the states before them
                for i in 0..x.len() {
                    ensure!(
                        close(e.states[i], xn[i], xtol),
                        "{w}: states {:?} -> {:?} do not follow from the states before the trials ({:?} expected)", x, e.states, xn
                    );
                }
            }
            rejected += (e.n_iter.max(1) - 1) as u64;
            by_limit += !tol_met(ad, err, rel) as u64;
            by_rtol += rel.is_some_and(|r| r <= ad.rtol) as u64;
            by_atol += (err < ad.atol) as u64;
            capped += (first < next_raw && first == remaining) as u64;
            limited_max += (first < next_raw && first == ad.dt_max) as u64;
            grown += (k > 0 && first == next_raw && e.n_iter == 1) as u64;
            next_raw = e.dt * coef(ad, err, rel);
            t += e.dt;
            x = e.states.clone();
        }
        ensure!(close(self.t_end, t, 1e-14 * ((t - self.t0).abs() + t.abs())), "{}: {} recorded steps end at {t} but the system is at {}", tab.name, self.entries.len(), self.t_end);
        ensure!(t >= last || self.t0 >= last, "walk ended at {t}, before the last report {last}");
        for i in 0..x.len() {
            ensure!(close(self.x_end[i], x[i], 1e-14 * (self.xs + x[i].abs())), "{}: final state {i} is {} but the last recorded step led to {}", tab.name, self.x_end[i], x[i]);
        }
        if asp == Aspect::Formula {
            let d = (self.f)(self.t_end, &self.x_end);
            let s = (self.sens)(self.t_end, &self.x_end);
            for i in 0..d.len() {
                ensure!(
                    close(self.d_end[i], d[i], 1e-12 * (d[i].abs() + s) + 1e-300),
                    "{}: derivative {i} after the last step is {}, but f(t,x) = {}", tab.name, self.d_end[i], d[i]
                );
            }
        }
        if asp == Aspect::Length {
            let s = self.conf.state.dt;
            ensure!(s.is_finite() && s > 0., "{}: stored next step length is {s}", tab.name);
            let want = next_raw.min(ad.dt_max);
            if !want.is_nan() {
                ensure!(rel_close(s.min(ad.dt_max), want, 1e-12), "{}: stored next step length {s}, the control law gives {next_raw} (maximum {})", tab.name, ad.dt_max);
            }
        }
        if asp == Aspect::Record {
            // records of the system agree with the recorded steps
            for (k, tr) in self.rec_t.iter().enumerate() {
                if let Some(e) = self.entries.iter().rev().find(|e| close(e.t_curr + e.dt, *tr, 1e-14 * (e.dt + tr.abs()))) {
                    for i in 0..x.len() {
                        ensure!(
                            close(self.rec_x[k][i], e.states[i], 1e-13 * (self.xs + e.states[i].abs())),
                            "record {k} at {tr}: state {i} is {} but the recorded step ending there led to {}", self.rec_x[k][i], e.states[i]
                        );
                    }
                } else if *tr > self.t0 {
                    return Err(format!("no recorded step ends at the report {tr}"));
                }
            }
            match self.conf.dt_mean() {
                None => ensure!(self.entries.is_empty(), "no mean step although {} steps are recorded", self.entries.len()),
                Some(m) => {
                    let n = self.entries.len();
                    ensure!(n > 0, "mean step {m} of an empty history");
                    let want = (self.t_end - self.t0) / n as f64;
                    ensure!(close(m, want, 1e-12 * (m + self.t_end.abs())), "mean step {m}, but {n} steps cover {}", self.t_end - self.t0);
                }
            }
            ensure!(self.conf.history.len() == self.entries.len(), "history length {} and entries {}", self.conf.history.len(), self.entries.len());
        }
        info.nontrivial = match asp {
            Aspect::Formula => !self.entries.is_empty() && self.entries.iter().any(|e| e.norm_err.unwrap_or(0.) > 0.),
            Aspect::Accept => rejected > 0 || by_limit > 0,
            Aspect::Length => self.entries.len() > 1,
            Aspect::Record => self.entries.len() > 1,
        };
        Ok(info
            .label(tab.name)
            .count("steps", self.entries.len() as u64)
            .label_if(self.entries.iter().any(|e| e.n_iter > 10), MANY)
            .label_if(self.entries.iter().any(|e| e.n_iter > 127), "more than 127 trials in a step")
            .count("rejected trials", rejected)
            .count("accepted at the iteration limit", by_limit)
            .count("met rtol", by_rtol)
            .count("met atol", by_atol)
            .count("first trial cut to the next report", capped)
            .count("first trial cut to dt_max", limited_max)
            .count("first trial from the control law", grown)
            .count("accepted without a relative error", self.entries.iter().filter(|e| e.norm_err_rel.is_none()).count() as u64))
    }
}

// ------------------------------------------------------------------ cases
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AdCase {
    p: Prob,
    m: AM,
    ad: Ad,
    gaps: Vec<f64>,
    at_start: bool,
}
/// adaptive configurations whose tolerances can be met in a moderate number of steps
pub fn ad_ok() -> BoxedStrategy<Ad> {
    (
        prop_oneof![3 => logu(1e-3, 3.), 1 => Just(0.1), 1 => logu(1e-8, 1e-3), 1 => logu(3., 1e4)],
        prop_oneof![1 => logu(0.02, 1.), 2 => Just(10.0)],
        prop_oneof![2 => Just(5u8), 3 => 1u8..8, 1 => Just(0u8), 1 => Just(255u8), 2 => 8u8..60],
        prop_oneof![6 => logu(1e-7, 3e-1), 1 => Just(1e-5), 1 => Just(0.0)],
        prop_oneof![3 => logu(1e-8, 1e-2), 1 => logu(1e-11, 1e-8), 1 => Just(1e-9)],
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(dt_init, dt_max, max_iter, rtol, atol, save, save_states)| Ad { dt_init, dt_max, max_iter, rtol, atol, save, save_states })
        .boxed()
}
/// also degenerate right-hand sides: nothing happens, or time-only, or constant drift
fn prob_deg() -> BoxedStrategy<Prob> {
    prop_oneof![
        8 => prob(2.0),
        1 => prob(2.0).prop_map(|mut p| { p.rhs.terms.iter_mut().for_each(|t| t.c = 0.); p }),
        1 => switched(),
        1 => prob(2.0).prop_map(|mut p| { p.rhs.terms.iter_mut().for_each(|t| t.w.iter_mut().for_each(|w| *w = 0.)); p }),
        1 => prob(2.0).prop_map(|mut p| { p.rhs.terms.iter_mut().for_each(|t| { t.w.iter_mut().for_each(|w| *w = 0.); t.a = 0. }); p }),
    ]
    .boxed()
}
/// at rest until sources are switched on: trials whose error is not zero though their increment is
fn switched() -> BoxedStrategy<Prob> {
    (prob(2.0), prop::collection::vec((any::<prop::sample::Index>(), -1f64..4., -2f64..2., logu(1e-9, 1.), any::<bool>()), 1..4))
        .prop_map(|(mut p, ts)| {
            let n = p.rhs.n;
            p.rhs.terms = ts
                .into_iter()
                .map(|(o, at, c, s, small)| Term { out: o.index(n.max(1)), c: if small { c * s } else { c }, g: G::Step, w: vec![0.; n], a: 1., phi: -(p.t0 + at) })
                .filter(|t| t.out < n)
                .collect();
            p
        })
        .boxed()
}
/// a jump right at the start (at zero, so that time can advance by steps however short), which no trial resolves before its step is of the absolute tolerance's size: as many
/// trials as the limit allows, up to two hundred
fn kink() -> BoxedStrategy<AdCase> {
    let limit = prop_oneof![3 => any::<u8>(), 2 => prop::sample::select(vec![0u8, 1, 2, 9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 101, 126, 127, 128, 129, 200, 254, 255])];
    (prop_oneof![3 => prob(1.0), 1 => Just(Prob { rhs: Rhs { n: 1, terms: vec![] }, x0: vec![0.], t0: 0., xs: 1., ts: 1. })], am(), limit, gaps(3, 1.), (-130f64..-3.).prop_map(|e| 10f64.powf(e)), logu(1e-2, 1.), (any::<prop::sample::Index>(), num(3.)), logu(1e-9, 0.05))
        .prop_map(|(mut p, m, max_iter, gaps, atol, dt_init, (out, c), rtol)| {
            p.t0 = 0.;
            // (no tolerance can be met at a later kink)
            p.rhs.terms.retain(|t| t.g != G::Sat && t.g != G::Step);
            p.rhs.terms.push(Term { out: out.index(p.rhs.n), c: if c == 0. { 1. } else { c }, g: G::Step, w: vec![0.; p.rhs.n], a: -1., phi: 0. });
            let ad = Ad { dt_init, dt_max: 10., max_iter, rtol, atol, save: true, save_states: true };
            AdCase { p, m, ad, gaps, at_start: false }
        })
        .boxed()
}
fn ad_case() -> BoxedStrategy<AdCase> {
    (prob_deg(), am(), ad_ok(), gaps(5, 2.), any::<bool>(), units())
        .prop_map(|(p, m, ad, gaps, at_start, u)| AdCase { p, m, ad, gaps, at_start }.scaled(u))
        .boxed()
}
impl AdCase {
    fn scaled(mut self, u: (f64, f64)) -> Self {
        self.p = self.p.scaled(u);
        self.ad = self.ad.scaled(u);
        self.gaps.iter_mut().for_each(|g| *g *= u.1);
        self
    }
}
pub fn rhs_sens(rhs: &Rhs, t: f64, x: &[f64]) -> f64 {
    rhs.terms
        .iter()
        .map(|m| m.c.abs() * (m.w.iter().zip(x).map(|(w, x)| (w * x).abs()).sum::<f64>() + (m.a * t).abs() + m.phi.abs()))
        .sum()
}
fn entries_of(c: &AdaptiveSolverConfig) -> Vec<SolverState> {
    let h = &c.history;
    (0..h.dt.len())
        .map(|i| SolverState { dt: h.dt[i], n_iter: h.n_iter[i], norm_err: h.norm_err[i], norm_err_rel: h.norm_err_rel[i], t_curr: h.t_curr[i], states: h.states[i].clone() })
        .collect()
}
fn check_trace<S: OdeSys>(c: &AdCase, asp: Aspect, max: usize) -> Verdict {
    let sched = schedule(c.p.t0, &c.gaps, c.at_start);
    let ad = c.ad.saving();
    let rhs = &c.p.rhs;
    let f = |t: f64, x: &[f64]| rhs.eval(t, x);
    let sched = limit_sched(c.m, &ad, &f, c.p.t0, &c.p.x0, sched, max);
    let mut sys = S::build(&c.p.rhs, &c.p.x0, c.p.t0, c.m.solver(&ad), sched.clone());
    sys.walk_();
    let sens = |t: f64, x: &[f64]| rhs_sens(rhs, t, x);
    let conf = sys.conf().ok_or("solver is no longer adaptive")?.clone();
    let nrec = sys.hist().time.len();
    let tr = Trace {
        m: c.m,
        ad,
        f: &f,
        sens: &sens,
        t0: c.p.t0,
        x0: c.p.x0.clone(),
        xs: c.p.xs,
        sched,
        entries: entries_of(&conf),
        t_end: sys.sys_state().time,
        x_end: sys.xs(),
        d_end: sys.dxs(),
        rec_t: sys.hist().time.clone(),
        rec_x: (0..nrec).map(|k| sys.cells().iter().map(|c| c.history.x[k]).collect()).collect(),
        conf,
        switched: c.p.rhs.terms.iter().any(|t| t.g == G::Step),
    };
    // (a walk over a single report at the start does nothing)
    Ok(tr.check(asp)?.label_if(c.p.xs != 1., "other units").label_if(c.p.rhs.n > 10, "many states"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Interval {
    gap: f64,
    /// what happens before it: a state, a parameter, the derivatives are overwritten, the solver is reconfigured
    x: Option<(usize, f64)>,
    c: Option<(usize, f64)>,
    dx: Option<(usize, f64)>,
    m: Option<AM>,
    tol: Option<(f64, f64)>,
    dt: Option<f64>,
    limit: Option<u8>,
    /// drive the method directly, step by step
    direct: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DrivenCase {
    p: Prob,
    m: AM,
    ad: Ad,
    iv: Vec<Interval>,
}
fn driven_case() -> BoxedStrategy<DrivenCase> {
    
    let iv = (
        prop_oneof![3 => 0.05f64..0.6, 1 => logu(1e-3, 0.5)],
        prop::option::weighted(0.3, (0usize..67, num(3.))),
        prop::option::weighted(0.2, (0usize..70, num(2.))),
        prop::option::weighted(0.15, (0usize..67, num(5.))),
        prop::option::weighted(0.15, am()),
        prop::option::weighted(0.2, (logu(1e-7, 1e-1), logu(1e-8, 1e-2))),
        prop::option::weighted(0.15, logu(1e-3, 3.)),
        prop::option::weighted(0.15, 0u8..9),
        prop::bool::weighted(0.4),
    )
        .prop_map(|(gap, x, c, dx, m, tol, dt, limit, direct)| Interval { gap, x, c, dx, m, tol, dt, limit, direct });
    (prob(2.0), am(), ad_ok(), prop::collection::vec(iv, 1..6), units())
        .prop_map(|(p, m, ad, mut iv, u)| {
            for i in iv.iter_mut() {
                i.gap *= u.1;
                i.x.iter_mut().for_each(|v| v.1 *= u.0);
                i.dx.iter_mut().for_each(|v| v.1 *= u.0 / u.1);
                i.tol.iter_mut().for_each(|v| v.1 *= u.0);
                i.dt.iter_mut().for_each(|v| *v *= u.1);
            }
            DrivenCase { p: p.scaled(u), m, ad: ad.scaled(u), iv }
        })
        .boxed()
}
/// the user drives the system interval by interval, or the method step by step, and changes things in between
fn check_driven<S: OdeSys>(c: &DrivenCase, asp: Aspect) -> Verdict {
    let mut ad = c.ad.saving();
    let mut m = c.m;
    let mut sys = S::build(&c.p.rhs, &c.p.x0, c.p.t0, m.solver(&ad), vec![c.p.t0]);
    let mut info = Info::nt(false);
    let (mut done, mut changed, mut nt) = (0, 0u64, false);
    for (k, iv) in c.iv.iter().enumerate() {
        if let Some((i, v)) = iv.x {
            sys.cells_mut()[i % c.p.rhs.n].state.x = v;
        }
        if let Some((i, v)) = iv.c {
            let r = sys.rhs_();
            let n = r.terms.len();
            r.terms[i % n].c *= v / 2.;
        }
        if let Some((i, v)) = iv.dx {
            sys.cells_mut()[i % c.p.rhs.n].state.dx = v;
        }
        changed += (iv.x.is_some() || iv.c.is_some() || iv.dx.is_some() || iv.m.is_some() || iv.tol.is_some()) as u64;
        let mut conf = sys.conf().ok_or("solver is no longer adaptive")?.clone();
        m = iv.m.unwrap_or(m);
        if let Some((r, a)) = iv.tol {
            (ad.rtol, ad.atol) = (r, a);
            (conf.rtol, conf.atol) = (r, a);
        }
        if let Some(l) = iv.limit {
            ad.max_iter = l;
            conf.max_iter = l;
        }
        if let Some(h) = iv.dt {
            conf.state.dt = h;
        }
        ad.dt_init = conf.state.dt;
        *sys.solver_() = match m {
            AM::Rk23 => SolverTypes::RK23BogackiShampine(Box::new(conf)),
            AM::Rk45 => SolverTypes::RK45CashKarp(Box::new(conf)),
        };
        let rhs = sys.rhs_().clone();
        let (t0, x0) = (sys.sys_state().time, sys.xs());
        let f = |t: f64, x: &[f64]| rhs.eval(t, x);
        let sens = |t: f64, x: &[f64]| rhs_sens(&rhs, t, x);
        let tr = *limit_sched(m, &ad, &f, t0, &x0, vec![t0 + iv.gap], 60).last().unwrap();
        if !(tr > t0) {
            break;
        }
        if iv.direct {
            // another system in the same state is stepped before
            let mut other = sys.clone();
            other.rhs_().terms.iter_mut().for_each(|t| t.c *= 0.5);
            match m {
                AM::Rk23 => other.rk23_bogacki_shampine(&iv.gap),
                AM::Rk45 => other.rk45_cash_karp(&iv.gap),
            };
            let mut n = 0;
            while sys.sys_state().time < tr && n < 400 {
                let before = sys.sys_state().time;
                let most = tr - before;
                let used = match m {
                    AM::Rk23 => sys.rk23_bogacki_shampine(&most),
                    AM::Rk45 => sys.rk45_cash_karp(&most),
                };
                n += 1;
                let h = sys.conf().ok_or("solver is no longer adaptive")?.history.clone();
                if asp == Aspect::Formula {
                    ensure!(sys.sys_state().time == before + used || close(sys.sys_state().time, before + used, 4e-16 * (before.abs() + used)), "the step returned length {used} but time went from {before} to {}", sys.sys_state().time);
                }
                if asp == Aspect::Record {
                    ensure!(h.dt.len() == done + n && rel_close(h.dt[done + n - 1], used, 4e-16), "step {n} returned length {used}, but {} new steps are recorded, the last one of length {:?}", h.dt.len() - done, h.dt.last());
                }
            }
        } else {
            *sys.t_report_() = vec![tr];
            sys.sys_state().i = 0;
            sys.solve_step_();
        }
        let conf = sys.conf().ok_or("solver is no longer adaptive")?.clone();
        let all = entries_of(&conf);
        ensure!(all.len() >= done, "entries of earlier intervals are gone: {} left of {done}", all.len());
        let mut own = conf;
        own.history = Default::default();
        for e in &all[done..] {
            own.history.push(e.clone());
        }
        let trace = Trace {
            m,
            ad,
            f: &f,
            sens: &sens,
            t0,
            x0,
            xs: c.p.xs,
            sched: vec![tr],
            entries: all[done..].to_vec(),
            t_end: sys.sys_state().time,
            x_end: sys.xs(),
            d_end: sys.dxs(),
            rec_t: vec![],
            rec_x: vec![],
            conf: own,
            switched: false,
        };
        done = all.len();
        let i = trace.check(asp).map_err(|e| format!("interval {k}: {e}"))?;
        nt |= i.nontrivial;
        info = info.label_if(iv.direct, "method called directly").label_if(iv.m.is_some(), "method changed");
    }
    info.nontrivial = nt && changed > 0;
    Ok(info.count("steps", done as u64).count("intervals after a change", changed))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AdChain {
    ch: Chain,
    t0: f64,
    m: AM,
    ad: Ad,
    gaps: Vec<f64>,
    at_start: bool,
}
fn ad_chain() -> BoxedStrategy<AdChain> {
    (chain(), prop_oneof![2 => Just(0.), 1 => 0f64..0.6, 1 => 0f64..3.], am(), ad_ok(), gaps(4, 1.), any::<bool>())
        .prop_map(|(ch, t0, m, ad, gaps, at_start)| AdChain { ch, t0, m, ad, gaps, at_start })
        .boxed()
}
fn chain_sens(ch: &Chain, t: f64, x: &[f64]) -> f64 {
    let tmax = maxabs(&ch.expand(x, t));
    2. * ch.diag() * (tmax + if ch.bc { 13. + 300. * t * t } else { 0. })
}
fn check_chain_trace(c: &AdChain, asp: Aspect) -> Verdict {
    let sched = schedule(c.t0, &c.gaps, c.at_start);
    let ad = c.ad.saving();
    let f = c.ch.f();
    let sched = limit_sched(c.m, &ad, &f, c.t0, &c.ch.reduce(&c.ch.temps), sched, MAX_STEPS);
    let mut sys = c.ch.build(c.m.solver(&ad), sched.clone(), c.t0);
    sys.walk_();
    let sens = |t: f64, x: &[f64]| chain_sens(&c.ch, t, x);
    let conf = sys.conf().ok_or("solver is no longer adaptive")?;
    let mut entries = entries_of(&conf);
    for e in entries.iter_mut() {
        ensure!(e.states.len() == 3, "{} states recorded", e.states.len());
        e.states = c.ch.reduce(&e.states);
    }
    let h = sys.temp_hist();
    let nrec = h[0].len();
    let tr = Trace {
        m: c.m,
        ad,
        f: &f,
        sens: &sens,
        t0: c.t0,
        x0: c.ch.reduce(&c.ch.temps),
        xs: 1.,
        sched,
        entries,
        t_end: sys.time(),
        x_end: c.ch.reduce(&sys.temps()),
        d_end: c.ch.reduce(&sys.dtemps()),
        rec_t: sys.hist().time,
        rec_x: (0..nrec).map(|k| c.ch.reduce(&[h[0][k], h[1][k], h[2][k]])).collect(),
        conf,
        switched: false,
    };
    Ok(tr.check(asp)?.label(if c.ch.bc { "boundary system" } else { "closed system" }))
}

/// The solver clones its whole recorded history at every stage, so very long recorded walks are slow: cut the schedule
/// where a reference controller has taken `max` steps.
pub fn limit_sched(m: AM, ad: &Ad, f: tab::F, t0: f64, x0: &[f64], sched: Vec<f64>, max: usize) -> Vec<f64> {
    let tab = m.tab();
    let (mut t, mut x, mut next, mut steps) = (t0, x0.to_vec(), ad.dt_init, 0);
    let mut out = vec![];
    for tr in &sched {
        while t < *tr {
            let mut h = next.min(tr - t).min(ad.dt_max);
            for n in 1..=ad.max_iter.max(1) {
                let q = tab.step(f, t, &x, h);
                let d: Vec<f64> = q.delta.iter().zip(&q.delta_hat).map(|(a, b)| a - b).collect();
                let (err, nd) = (norm(&d), norm(&q.delta));
                let rel = if nd == 0. { None } else { Some(err / nd) };
                next = h * coef(ad, err, rel);
                if n == ad.max_iter.max(1) || tol_met(ad, err, rel) {
                    for i in 0..x.len() {
                        x[i] += q.delta[i];
                    }
                    break;
                }
                h = next;
            }
            t += h;
            steps += 1;
            if steps >= max && t < *tr {
                out.push(t);
                return out;
            }
        }
        out.push(*tr);
    }
    out
}

// ------------------------------------------------------------------ without recording: reference controller end to end
/// outcome of the reference controller, or None if some decision is too close to call
struct RefRun {
    x: Vec<f64>,
    dt_next: f64,
    n_iter: u8,
    err: f64,
    steps: u64,
    rejected: u64,
    /// relative uncertainty of step lengths due to rounding
    u: f64,
    err_sum: f64,
}
/// `pert`: each step length is off by this many times its rounding
fn ref_run(m: AM, ad: &Ad, f: tab::F, sens: &dyn Fn(f64, &[f64]) -> f64, t0: f64, x0: &[f64], sched: &[f64], pert: f64) -> Result<RefRun, &'static str> {
    let tab = m.tab();
    let (mut t, mut x) = (t0, x0.to_vec());
    let mut r = RefRun { x: vec![], dt_next: ad.dt_init, n_iter: 0, err: 0., steps: 0, rejected: 0, u: 0., err_sum: 0. };
    for tr in sched {
        while t < *tr {
            let rem = tr - t;
            let short = 1e-9 * (sched[sched.len() - 1] - t0);
            if (r.dt_next / rem - 1.).abs() < 1e-6 || rem < short {
                return Err(if rem < short { "undecided: landed short" } else { "undecided: at the report" });
            }
            let mut h = r.dt_next.min(rem).min(ad.dt_max);
            if h == rem || h == ad.dt_max {
                r.u = 0.;
            }
            r.n_iter = 0;
            loop {
                let q = tab.step(f, t, &x, h);
                r.n_iter += 1;
                let d: Vec<f64> = q.delta.iter().zip(&q.delta_hat).map(|(a, b)| a - b).collect();
                let err = norm(&d);
                let nd = norm(&q.delta);
                let nz = 0.1 * noise(h, q.kscale, sens(t, &x)) * (x.len() as f64).sqrt() + 10. * r.u * err;
                let zero = nd == 0. && q.kscale == 0.;
                if !zero && (nz > 1e-3 * err || nz > 1e-3 * nd) {
                    return Err("undecided: error near rounding");
                }
                let rel = if zero { None } else { Some(err / nd) };
                let margin = 3e-3;
                if !zero && ((err / ad.atol - 1.).abs() < margin || (rel.unwrap() / ad.rtol - 1.).abs() < margin) {
                    return Err("undecided: at a tolerance");
                }
                let ok = r.n_iter >= ad.max_iter || tol_met(ad, err, rel);
                let c = if zero { f64::INFINITY } else { coef(ad, err, rel) };
                if c != 0.25 && !zero {
                    r.u += 0.2 * nz / err;
                }
                let off = if zero || c == 0.25 { 0. } else { pert * (1e-15 + 0.2 * nz / err) };
                r.dt_next = (h * c * (1. + off)).min(ad.dt_max);
                r.err = err;
                if ok {
                    r.err_sum += err;
                    break;
                }
                r.rejected += 1;
                h *= if zero { return Err("undecided: zero increment rejected") } else { 0.25 };
            }
            let q = tab.step(f, t, &x, h);
            for i in 0..x.len() {
                x[i] += q.delta[i];
            }
            t += h;
            r.steps += 1;
            if r.steps > 5000 {
                return Err("undecided: many steps");
            }
        }
    }
    r.x = x;
    Ok(r)
}
fn check_silent<S: OdeSys>(c: &AdCase, asp: Aspect) -> Verdict {
    // a single report: whether a step lands on a report exactly or one rounding short of it is not predictable, and
    // what follows a rounding-sized step is not either
    let span: f64 = c.gaps.iter().sum();
    let sched = schedule(c.p.t0, &[span], c.at_start);
    let rhs = &c.p.rhs;
    let f = |t: f64, x: &[f64]| rhs.eval(t, x);
    let sens = |t: f64, x: &[f64]| rhs_sens(rhs, t, x);
    let run = |pert| ref_run(c.m, &c.ad, &f, &sens, c.p.t0, &c.p.x0, &sched, pert);
    let (r, up, down) = match (run(0.), run(1.), run(-1.)) {
        (Ok(r), Ok(a), Ok(b)) => (r, a, b),
        (Err(l), ..) | (_, Err(l), _) | (.., Err(l)) => return Ok(Info::nt(false).label(l)),
    };
    // step control can amplify rounding: how far apart do runs end whose step lengths differ by it?
    let spread = |g: &dyn Fn(&RefRun) -> f64| (g(&r) - g(&up)).abs().max((g(&r) - g(&down)).abs());
    let xspread = (0..r.x.len()).map(|i| spread(&|q| q.x[i])).fold(0., f64::max);
    if up.steps != r.steps || down.steps != r.steps || spread(&|q| q.dt_next) > 1e-4 * r.dt_next || spread(&|q| q.err) > 1e-4 * r.err || xspread > 1e-7 * (maxabs(&r.x) + maxabs(&c.p.x0)) {
        return Ok(Info::nt(false).label("undecided: step control amplifies rounding"));
    }
    let mut ad = c.ad;
    ad.save = false;
    let mut sys = S::build(rhs, &c.p.x0, c.p.t0, c.m.solver(&ad), sched.clone());
    sys.walk_();
    let amp = (rhs.lip() * span).exp();
    let got = sys.xs();
    let tol = 1e-10 * amp * (c.p.xs + maxabs(&r.x) + maxabs(&c.p.x0)) + 100. * amp * r.err_sum * (r.u + 1e-6) + 100. * xspread;
    for i in 0..got.len() {
        ensure!(
            close(got[i], r.x[i], tol),
            "{}: final state {i} is {}, the reference controller ({} steps, {} rejected trials) gives {} (difference {:e}, tolerance {tol:e})",
            c.m.tab().name, got[i], r.steps, r.rejected, r.x[i], got[i] - r.x[i]
        );
    }
    let s = sys.conf().ok_or("solver is no longer adaptive")?.state.clone();
    let t_end = sys.sys_state().time;
    if r.steps > 0 && (t_end - s.t_curr).abs() > 1e-9 * span {
        if asp == Aspect::Accept {
            ensure!(s.n_iter == r.n_iter, "{}: last step took {} trials, the reference controller {}", c.m.tab().name, s.n_iter, r.n_iter);
        }
        if asp == Aspect::Formula {
            let e = s.norm_err.ok_or("no error reported")?;
            ensure!(close(e, r.err, 1e-2 * r.err + 1e-13 * (c.p.xs + maxabs(&r.x))), "{}: last error {e}, reference {}", c.m.tab().name, r.err);
        }
        if asp == Aspect::Length {
            ensure!(s.dt.is_finite() && s.dt > 0., "stored next step length is {}", s.dt);
            ensure!(
                rel_close(s.dt.min(ad.dt_max), r.dt_next, 1e-2),
                "{}: stored next step length {}, reference controller {} (maximum {})", c.m.tab().name, s.dt, r.dt_next, ad.dt_max
            );
        }
    }
    Ok(Info::nt(r.steps > 1).label_if(r.rejected > 0, "has rejected trials").label(c.m.tab().name).count("steps", r.steps).count("rejected trials", r.rejected))
}

fn aspect_subs(ctx: &mut Ctx, asp: Aspect, rule: &str) {
    ctx.assume("positive absolute tolerance; right-hand sides with Lipschitz constant at most 2, spans at most 2");
    ctx.sub(
        "ode",
        &format!("random ODE (1-10 states; also inert, time-only and constant ones), method, adaptive configuration and schedule; every recorded step is checked; non-trivial: {rule}"),
        ctx.n(60_000, 1_500_000),
        ad_case,
        |c| with_ode!(c.p.rhs.n, S => check_trace::<S>(c, asp, MAX_STEPS)),
    );
    ctx.sub(
        "chain",
        &format!("the two example systems with random parameters, configuration and schedule; non-trivial: {rule}"),
        ctx.n(30_000, 800_000),
        ad_chain,
        |c| check_chain_trace(c, asp),
    );
    ctx.sub(
        "long",
        &format!("walks of some hundred to three thousand recorded steps (short maximum step), {rule} or not; non-trivial: always"),
        ctx.n(160, 4_000),
        || {
            (prob(2.), am(), gaps(5, 2.), 0f64..1., logu(1e-7, 1e-1), logu(1e-9, 1e-3), any::<bool>())
                .prop_map(|(p, m, gaps, n, rtol, atol, at_start)| {
                    let dt_max = gaps.iter().sum::<f64>() / (256. * 12f64.powf(n));
                    let ad = Ad { dt_init: dt_max, dt_max, max_iter: 5, rtol, atol, save: true, save_states: true };
                    AdCase { p, m, ad, gaps, at_start }
                })
                .boxed()
        },
        |c| {
            let mut i = with_ode!(c.p.rhs.n, S => check_trace::<S>(c, asp, 4000))?;
            i.nontrivial = true;
            Ok(i)
        },
    );
    ctx.sub(
        "kink",
        "a jump of the right-hand side exactly at the start time, iteration limits of all sizes, absolute tolerances down to 1e-130: up to two hundred trials in one step; non-trivial: more than ten trials in a step",
        ctx.n(20_000, 400_000),
        kink,
        |c| {
            let mut i = with_ode!(c.p.rhs.n, S => check_trace::<S>(c, asp, 60))?;
            i.nontrivial = i.labels.iter().any(|l| l == MANY);
            Ok(i)
        },
    );
    ctx.sub(
        "driven",
        "interval by interval or method call by method call, states, parameters, derivatives, method, tolerances, step length and iteration limit changed in between; every recorded step is checked; non-trivial: as above and something was changed",
        ctx.n(40_000, 1_000_000),
        driven_case,
        |c| with_ode!(c.p.rhs.n, S => check_driven::<S>(c, asp)),
    );
    if asp != Aspect::Record {
        ctx.sub(
            "silent",
            "the same without recording: final states, stored step length, iteration count and error against a reference controller run end to end (skipped when a decision is within rounding of its threshold); non-trivial: decided, and more than one step",
            ctx.n(40_000, 1_000_000),
            || {
                (ad_case(), logu(1e-6, 0.3), logu(1e-9, 1e-2), logu(1e-2, 3.))
                    .prop_map(|(mut c, rtol, atol, dt)| {
                        c.ad.rtol = rtol;
                        c.ad.atol = atol;
                        c.ad.dt_init = dt;
                        c
                    })
                    .boxed()
            },
            |c| with_ode!(c.p.rhs.n, S => check_silent::<S>(c, asp)),
        );
    }
}
pub fn c03(ctx: &mut Ctx) {
    aspect_subs(ctx, Aspect::Formula, "some step has a nonzero error");
}
pub fn c04(ctx: &mut Ctx) {
    aspect_subs(ctx, Aspect::Accept, "a trial was rejected or the limit was reached");
    ctx.sub(
        "thresholds",
        "tolerances set to exactly the error a first trial has, or to the neighbouring numbers: at most the relative tolerance and below the absolute one is accepted, the next number beyond is not; non-trivial: errors are not zero",
        ctx.n(40_000, 800_000),
        || (prob(2.0), am(), logu(1e-3, 1.)).boxed(),
        |c| with_ode!(c.0.rhs.n, S => check_thresholds::<S>(c)),
    );
}
pub fn c05(ctx: &mut Ctx) {
    aspect_subs(ctx, Aspect::Length, "more than one step");
    ctx.sub(
        "zero-error",
        "systems at rest or moving uniformly, where the error vanishes exactly: the stored step length stays usable after every report; non-trivial: always",
        ctx.n(8_000, 100_000),
        || {
            (prob(1.), am(), ad_ok(), gaps(5, 2.), any::<bool>(), 0u8..3)
                .prop_map(|(mut p, m, ad, gaps, at_start, kind)| {
                    for t in p.rhs.terms.iter_mut() {
                        t.w.iter_mut().for_each(|w| *w = 0.);
                        match kind {
                            0 => t.c = 0.,
                            1 => t.a = 0.,
                            _ => {
                                t.g = G::Id;
                                t.phi = 0.;
                            }
                        }
                    }
                    AdCase { p, m, ad, gaps, at_start }
                })
                .boxed()
        },
        |c| with_ode!(c.p.rhs.n, S => check_zero::<S>(c)),
    );
}
fn check_thresholds<S: OdeSys>((p, m, h): &(Prob, AM, f64)) -> Verdict {
    // one report interval of the trial's length; the outcome of its first trial
    let first = |rtol: f64, atol: f64, max_iter: u8| -> Result<SolverState, String> {
        let ad = Ad { dt_init: *h, dt_max: 10., max_iter, rtol, atol, save: true, save_states: false };
        let mut s = S::build(&p.rhs, &p.x0, p.t0, m.solver(&ad), vec![p.t0, p.t0 + h]);
        s.sys_state().i = 1;
        s.solve_step_();
        let c = s.conf().ok_or("solver is no longer adaptive")?;
        Ok(SolverState { dt: c.history.dt[0], n_iter: c.history.n_iter[0], norm_err: c.history.norm_err[0], norm_err_rel: c.history.norm_err_rel[0], ..Default::default() })
    };
    let one = first(1., 1., 1)?;
    let (Some(err), Some(rel)) = (one.norm_err, one.norm_err_rel) else { return Ok(Info::nt(false).label("no relative error")) };
    if !(err > 1e-200 && rel > 1e-200) {
        return Ok(Info::nt(false).label("no error"));
    }
    let below = |x: f64| f64::from_bits(x.to_bits() - 1);
    let above = |x: f64| f64::from_bits(x.to_bits() + 1);
    for (rtol, atol, accept, what) in [
        (rel, err * 1e-3, true, "the relative tolerance is exactly the relative error"),
        (below(rel), err * 1e-3, false, "the relative tolerance is just below the relative error"),
        (above(rel), err * 1e-3, true, "the relative tolerance is just above the relative error"),
        (rel * 1e-3, above(err), true, "the absolute tolerance is just above the error"),
        (rel * 1e-3, below(err), false, "the absolute tolerance is just below the error"),
        (rel * 1e-3, err, false, "the absolute tolerance is exactly the error, which is therefore not below it"),
        (rel, err, true, "both tolerances are exactly the errors"),
    ] {
        let g = first(rtol, atol, 40)?;
        ensure!(
            (g.n_iter == 1) == accept && (!accept || g.dt == one.dt),
            "{}: a first trial of length {} has error {err:e} and relative error {rel:e}; {what} (rtol {rtol:e}, atol {atol:e}), but {} trials were made and the step has length {}",
            m.tab().name, one.dt, g.n_iter, g.dt
        );
    }
    Ok(Info::nt(true).label(m.tab().name))
}
fn check_zero<S: OdeSys>(c: &AdCase) -> Verdict {
    let sched = schedule(c.p.t0, &c.gaps, false);
    let mut sys = S::build(&c.p.rhs, &c.p.x0, c.p.t0, c.m.solver(&c.ad), sched.clone());
    for k in 0..sched.len() {
        sys.sys_state().i = k;
        sys.solve_step_();
        let s = sys.conf().ok_or("solver is no longer adaptive")?.state.dt;
        ensure!(s.is_finite() && s > 0., "{}: stored next step length is {s} after report {k}", c.m.tab().name);
    }
    Ok(Info::nt(true))
}

// ------------------------------------------------------------------ C22
fn strip<S: OdeSys>(s: &S) -> S {
    let mut s = s.clone();
    match s.solver_() {
        SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => {
            c.save = false;
            c.save_states = false;
            c.history = Default::default();
            c.state.states = vec![];
        }
        _ => {}
    }
    s
}
fn check_flags<S: OdeSys>(c: &AdCase) -> Verdict {
    let sched = schedule(c.p.t0, &c.gaps, c.at_start);
    let rhs = &c.p.rhs;
    let f = |t: f64, x: &[f64]| rhs.eval(t, x);
    let sched = limit_sched(c.m, &c.ad, &f, c.p.t0, &c.p.x0, sched, MAX_STEPS);
    let run = |save: bool, save_states: bool| {
        let mut ad = c.ad;
        ad.save = save;
        ad.save_states = save_states;
        let mut s = S::build(&c.p.rhs, &c.p.x0, c.p.t0, c.m.solver(&ad), sched.clone());
        s.walk_();
        s
    };
    let base = run(false, false);
    let b = strip(&base);
    ensure!(base.conf().unwrap().history.is_empty(), "steps were recorded although saving is off");
    ensure!(base.conf().unwrap().dt_mean().is_none(), "a mean step is reported although no steps are recorded");
    let mut n = 0;
    for (save, states) in [(false, true), (true, false), (true, true)] {
        let o = run(save, states);
        let conf = o.conf().unwrap();
        n = conf.history.len();
        ensure!(save || n == 0, "{n} steps were recorded although saving is off");
        ensure!(conf.save == save && conf.save_states == states, "the save flags were changed by the walk");
        let so = strip(&o);
        ensure!(so == b || format!("{so:?}") == format!("{b:?}"), "save {save}, save_states {states}: results differ from those with both off\n{so:?}\n{b:?}");
    }
    Ok(Info::nt(n > 1).label(c.m.tab().name))
}
/// recording over several walks and with flags switched between them
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Toggle {
    c: AdCase,
    on: Vec<bool>,
}
fn check_toggle<S: OdeSys>(c: &Toggle) -> Verdict {
    let sched = schedule(c.c.p.t0, &c.c.gaps, false);
    let mut ad = c.c.ad.saving();
    ad.save = false;
    let f = |t: f64, x: &[f64]| c.c.p.rhs.eval(t, x);
    let sched = limit_sched(c.c.m, &ad, &f, c.c.p.t0, &c.c.p.x0, sched, MAX_STEPS);
    let mut s = S::build(&c.c.p.rhs, &c.c.p.x0, c.c.p.t0, c.c.m.solver(&ad), sched.clone());
    let mut segs = 0;
    for k in 0..sched.len() {
        let on = c.on[k % c.on.len()];
        let before = match s.solver_() {
            SolverTypes::RK23BogackiShampine(q) | SolverTypes::RK45CashKarp(q) => {
                q.save = on;
                q.history.clone()
            }
            _ => unreachable!(),
        };
        let t = s.sys_state().time;
        s.solve_step_();
        let t1 = s.sys_state().time;
        s.sys_state().i += 1;
        let h = s.conf().unwrap().history.clone();
        ensure!(h.len() >= before.len(), "recorded steps disappeared");
        for j in 0..before.len() {
            ensure!(h.dt[j] == before.dt[j] && h.t_curr[j] == before.t_curr[j] && h.states[j] == before.states[j], "recorded step {j} was altered by a later step");
        }
        let new = &h.dt[before.len()..];
        if !on {
            ensure!(new.is_empty(), "{} steps recorded with saving off", new.len());
        } else {
            let sum: f64 = new.iter().sum();
            ensure!(close(sum, t1 - t, 1e-13 * (1. + t1.abs())), "steps recorded from {t} to {t1} sum to {sum}");
            ensure!(h.t_curr[before.len()] == t, "first recorded step starts at {} instead of {t}", h.t_curr[before.len()]);
            segs += 1;
        }
        let m = s.conf().unwrap().dt_mean();
        let n = h.len();
        if n == 0 {
            ensure!(m.is_none(), "mean {m:?} of no steps");
        } else {
            let want = h.dt.iter().sum::<f64>() / n as f64;
            ensure!(m.is_some_and(|m| rel_close(m, want, 1e-12)), "mean step {m:?}, average of the {n} recorded steps {want}");
        }
    }
    Ok(Info::nt(segs > 0 && segs < sched.len()).label(c.c.m.tab().name))
}
pub fn c22(ctx: &mut Ctx) {
    aspect_subs(ctx, Aspect::Record, "more than one step recorded");
    ctx.sub(
        "flags",
        "the same walk with the four combinations of save flags must agree in everything but the recorded steps; non-trivial: more than one step",
        ctx.n(40_000, 800_000),
        ad_case,
        |c| with_ode!(c.p.rhs.n, S => check_flags::<S>(c)),
    );
    ctx.sub(
        "toggle",
        "saving switched on and off between reports; non-trivial: both states occur",
        ctx.n(30_000, 600_000),
        || (ad_case(), prop::collection::vec(any::<bool>(), 1..6)).prop_map(|(c, on)| Toggle { c, on }).boxed(),
        |c| with_ode!(c.c.p.rhs.n, S => check_toggle::<S>(c)),
    );
}

// ------------------------------------------------------------------ C08
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AccCase {
    probs: Vec<(Prob, Vec<f64>)>,
    m: AM,
    ad: Ad,
}
const GROUP: usize = 9;
fn acc_case() -> BoxedStrategy<AccCase> {
    (
        prop::collection::vec((prob(1.5).prop_map(tame), gaps(4, 2.)), GROUP),
        am(),
        prop_oneof![1 => logu(1e-3, 0.3), 1 => logu(0.1, 1.)],
        prop_oneof![1 => logu(0.05, 0.3), 1 => logu(0.2, 1.)],
        logu(1e-10, 1e-2),
        prop_oneof![2 => logu(1e-12, 1e-6), 1 => logu(1e-6, 1e-3)],
        units(),
    )
        .prop_map(|(probs, m, dt_init, dt_max, rtol, atol, u)| {
            let (rtol, atol) = if m == AM::Rk23 { (rtol.max(1e-7), atol.max(1e-11)) } else { (rtol, atol) };
            let probs = probs.into_iter().map(|(p, g)| (p.scaled(u), g.into_iter().map(|g| g * u.1).collect())).collect();
            AccCase { probs, m, ad: Ad { dt_init, dt_max, max_iter: 200, rtol, atol, save: false, save_states: false }.scaled(u) }
        })
        .boxed()
}
/// allowed ratio of local error to the tolerance it was accepted under
const KACC: f64 = 0.4;
/// (largest ratio of error to bound, distance travelled, smallest bound, message for the worst report)
fn accuracy<S: OdeSys>(p: &Prob, gaps: &[f64], m: AM, ad: &Ad) -> Result<(f64, f64, f64, String), String> {
    let rhs = &p.rhs;
    let f = |t: f64, x: &[f64]| rhs.eval(t, x);
    let full = schedule(p.t0, gaps, false);
    let sched = limit_sched(m, ad, &f, p.t0, &p.x0, full.clone(), 1500);
    let mut sys = S::build(rhs, &p.x0, p.t0, m.solver(ad), sched.clone());
    set_budget(5_000_000);
    sys.walk_();
    // upper bound on the number of accepted steps
    let steps = evals() as f64 / 4.;
    let l = rhs.lip();
    let (mut t, mut x, mut var, mut worst) = (p.t0, p.x0.clone(), 0f64, 0f64);
    let (mut smallest, mut msg) = (f64::INFINITY, String::new());
    for (k, tr) in sched.iter().enumerate() {
        let n = (((tr - t) / p.ts * 300.).ceil() as usize).max(4);
        let h = (tr - t) / n as f64;
        for _ in 0..n {
            let d = tab::cash_karp().step(&f, t, &x, h).delta;
            for i in 0..x.len() {
                x[i] += d[i];
            }
            var += norm(&d);
            t += h;
        }
        t = *tr;
        ensure!(sys.cells()[0].history.x.len() > k, "record {k} missing");
        let err = sys.cells().iter().zip(&x).fold(0f64, |m, (c, x)| m.max((c.history.x[k] - x).abs()));
        let amp = (l * (tr - p.t0)).exp();
        let sum = ad.rtol * (1.1 * var) + ad.atol * steps;
        let bound = amp * (KACC * sum + 1e-14 * steps * (p.xs + maxabs(&x)) + 1e-12 * (p.xs + maxabs(&x)));
        let r = if err.is_finite() { err / bound } else { f64::INFINITY };
        if r > worst {
            worst = r;
            msg = format!("error {err:e} at report {k} (t={tr}), at most {bound:e} expected (distance {var}, at most {steps} steps, amplification {amp})");
        }
        smallest = smallest.min(bound);
    }
    Ok((worst, var, smallest, msg))
}
/// so many problems of a group may be over the bound
const LIM: usize = 3;
fn check_accuracy(c: &AccCase) -> Verdict {
    let mut bad = vec![];
    let (mut informative, mut worst) = (0, 0f64);
    for (p, g) in &c.probs {
        let (r, var, b, msg) = with_ode!(p.rhs.n, S => accuracy::<S>(p, g, c.m, &c.ad))?;
        informative += (b < 1e-2 * (1e-3 * p.xs + var)) as usize;
        worst = worst.max(r);
        if r > 1. {
            bad.push(msg);
        }
    }
    ensure!(bad.len() <= LIM, "{} rtol {} atol {}: {} of {} problems: {}", c.m.tab().name, c.ad.rtol, c.ad.atol, bad.len(), c.probs.len(), bad.join("; "));
    Ok(Info::nt(2 * informative > c.probs.len())
        .label(c.m.tab().name)
        .label(format!("worst error/bound ~1e{}", worst.max(1e-9).log10().floor()))
        .count("problems", c.probs.len() as u64)
        .count("problems over the bound (estimate accidentally small)", bad.len() as u64))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ladder {
    probs: Vec<(Prob, f64)>,
    m: AM,
    dt_init: f64,
    rtol: f64,
}
fn ladder_err<S: OdeSys>(p: &Prob, span: f64, m: AM, ad: &Ad, want: &[f64]) -> f64 {
    let mut sys = S::build(&p.rhs, &p.x0, p.t0, m.solver(ad), vec![p.t0 + span]);
    sys.walk_();
    sys.xs().iter().zip(want).fold(0f64, |m, (a, b)| m.max((a - b).abs()))
}
fn check_ladder(c: &Ladder) -> Verdict {
    let (mut bad, mut decided) = (vec![], 0);
    for (p, span) in &c.probs {
        let want = tab::accurate(&|t, x: &[f64]| p.rhs.eval(t, x), p.t0, &p.x0, p.t0 + span, ((span / p.ts * 400.).ceil() as usize).max(8));
        let travel = norm(&p.x0.iter().zip(&want).map(|(a, b)| a - b).collect::<Vec<_>>());
        let e = |k: i32| {
            let ad = Ad { dt_init: c.dt_init, dt_max: 0.4, max_iter: 200, rtol: c.rtol * 0.03f64.powi(k), atol: 1e-13, save: false, save_states: false }.scaled((p.xs, p.ts));
            with_ode!(p.rhs.n, S => ladder_err::<S>(p, *span, c.m, &ad, &want))
        };
        let (e0, e2) = (e(0), e(2));
        if e0 < 1e-9 * p.xs {
            continue;
        }
        decided += 1;
        // tolerance divided by 1100: the error follows, unless it is below the tolerance anyway
        if e2 > e0 / 33. && e2 > c.rtol * 9e-4 * travel {
            bad.push((e0, e2, travel));
        }
    }
    ensure!(
        bad.len() * 2 <= decided.max(4),
        "{}: tightening the tolerance from {} to {} does not reduce the error in {} of {decided} problems: (before, after, distance travelled) {bad:?}",
        c.m.tab().name, c.rtol, c.rtol * 9e-4, bad.len()
    );
    Ok(Info::nt(decided > 4).label(c.m.tab().name).count("problems", decided as u64).count("problems not improving", bad.len() as u64))
}
pub fn c08(ctx: &mut Ctx) {
    ctx.assume("smooth problems whose time scales are resolved by the maximum step; an embedded estimate can vanish by accident on a single problem, so three problems of a group of nine may be over the bound");
    ctx.sub(
        "bound",
        "groups of 9 random smooth ODEs, partly in other units of state and time, with reports, method, tolerances, generous iteration limit; error at each report at most amplification times a constant times the sum of tolerances, for all but three of the group; non-trivial: for most of the group the bound is below 1% of the distance travelled",
        ctx.n(10_000, 300_000),
        acc_case,
        check_accuracy,
    );
    ctx.sub(
        "ladder",
        "groups of 9 problems solved with rtol and 0.0009 rtol: the error follows, for the majority; non-trivial: more than four problems with an error above rounding level",
        ctx.n(10_000, 300_000),
        || {
            (prop::collection::vec((prob(1.5).prop_map(tame), 0.5f64..2.), GROUP), am(), logu(0.01, 0.3), logu(1e-4, 1e-2), units())
                .prop_map(|(probs, m, dt_init, rtol, u)| Ladder { probs: probs.into_iter().map(|(p, span)| (p.scaled(u), span * u.1)).collect(), m, dt_init, rtol })
                .boxed()
        },
        check_ladder,
    );
}
