//! C01, C02, C07: fixed-step methods.
use crate::common::*;
use crate::ensure;
use crate::net::*;
use crate::odes::*;
use crate::p_adapt::rhs_sens;
use crate::tab;
use crate::with_ode;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StepOp {
    m: FM,
    dt: f64,
    /// configured step = factor * dt (>= 1, so that one step spans the interval)
    factor: f64,
    poke: Option<(usize, f64)>,
    poke_rhs: bool,
    /// call the method itself, on a system configured with something else; the step may then have any sign
    #[serde(default)]
    direct: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StepCase {
    p: Prob,
    dx0: Vec<f64>,
    ops: Vec<StepOp>,
}
fn step_case() -> BoxedStrategy<StepCase> {
    let op = (fm(), logu(1e-3, 1.5), prop_oneof![Just(1.0), Just(1.0000001), 1f64..20.], prop::option::weighted(0.3, (0usize..67, num(3.))), prop::bool::weighted(0.2), 0u8..24)
        .prop_map(|(m, dt, factor, poke, poke_rhs, k)| StepOp {
            m,
            // directly: mostly forwards, sometimes backwards, tiny or by nothing at all
            dt: dt * [1., 1., 1., 1., 1., -1., -1., 1e-6, 1e-12, 0.].get(k as usize).unwrap_or(&1.),
            factor,
            poke,
            poke_rhs,
            direct: k < 10,
        });
    (prob(2.0), prop::collection::vec(num(5.), 10), prop::collection::vec(op, 1..6), units(), delay())
        .prop_map(|(p, mut dx0, mut ops, (xs, ts), late)| {
            dx0.iter_mut().for_each(|d| *d *= xs / ts);
            for o in ops.iter_mut() {
                o.dt *= ts;
                o.poke.iter_mut().for_each(|p| p.1 *= xs);
            }
            StepCase { p: p.late(late).scaled((xs, ts)), dx0, ops }
        })
        .boxed()
}
pub fn maxabs(v: &[f64]) -> f64 {
    v.iter().fold(0f64, |m, x| m.max(x.abs()))
}
fn check_steps<S: OdeSys>(c: &StepCase) -> Verdict {
    let n = c.p.rhs.n;
    let mut sys = S::build(&c.p.rhs, &c.p.x0, c.p.t0, c.ops[0].m.solver(1.), vec![c.p.t0]);
    for (cell, d) in sys.cells_mut().into_iter().zip(c.dx0.iter().cycle()) {
        cell.state.dx = *d;
    }
    let mut info = Info::nt(true);
    for (k, op) in c.ops.iter().enumerate() {
        if let Some((i, v)) = op.poke {
            sys.cells_mut()[i % n].state.x = v;
        }
        if op.poke_rhs {
            for t in sys.rhs_().terms.iter_mut() {
                t.c = -0.75 * t.c;
            }
        }
        let rhs = sys.rhs_().clone();
        let f = |t: f64, x: &[f64]| rhs.eval(t, x);
        let t0 = sys.sys_state().time;
        let t1 = t0 + op.dt;
        let dt = if op.direct { op.dt } else { t1 - t0 };
        let x = sys.xs();
        let e = op.m.tab().step(&f, t0, &x, dt);
        let step = |sys: &mut S| {
            if op.direct {
                *sys.solver_() = c.ops[0].m.solver(op.factor);
                match op.m {
                    FM::Euler => sys.euler(&dt),
                    FM::Heun => sys.heun(&dt),
                    FM::Midpoint => sys.midpoint(&dt),
                    FM::Ralston => sys.ralston(&dt),
                    FM::Rk4 => sys.rk4fixed(&dt),
                }
            } else {
                *sys.t_report_() = vec![t1];
                sys.sys_state().i = 0;
                *sys.solver_() = op.m.solver(dt * op.factor);
                sys.solve_step_();
            }
        };
        if (c.p.rhs.terms.len() + k) % 4 == 0 {
            // another system in the same state takes the step before
            let mut other = sys.clone();
            other.rhs_().terms.iter_mut().for_each(|t| t.c *= -2.);
            step(&mut other);
        }
        step(&mut sys);
        let t_after = sys.sys_state().time;
        ensure!(close(t_after, t1, 4e-16 * t1.abs().max(t0.abs())), "step {k} ({:?}): time {t0} + {dt} became {t_after}, expected {t1}", op.m);
        let scale = maxabs(&x) + e.kscale + rhs.terms.iter().map(|t| (t.a * t1).abs() * t.c.abs()).fold(0., f64::max) * dt.abs();
        let got = sys.xs();
        for i in 0..n {
            let want = x[i] + e.delta[i];
            ensure!(
                close(got[i], want, 1e-11 * scale),
                "step {k} ({:?}, dt {dt}) from t={t0}: state {i} is {} but the tableau gives {want} (was {}, difference {:e})",
                op.m, got[i], x[i], got[i] - want
            );
        }
        let d = rhs.eval(t_after, &got);
        for (i, g) in sys.dxs().iter().enumerate() {
            let s = d[i].abs() + rhs_sens(&rhs, t_after, &got);
            ensure!(close(*g, d[i], 1e-12 * s + 1e-300), "step {k} ({:?}): derivative {i} after the step is {g}, but f(t,x) = {}", op.m, d[i]);
        }
        info = info.label(op.m.tab().name).label_if(op.direct, "called directly").label_if(dt < 0., "backwards").label_if(dt == 0., "no step");
    }
    info = info.label_if(c.p.rhs.time_dep(), "time dependent").label_if(c.p.rhs.nonlinear(), "nonlinear").label(format!("n={n}"));
    let ops = c.ops.len() as u64;
    info.nontrivial = c.p.rhs.lip() * c.p.ts > 1e-3;
    info = info.label_if(c.p.xs != 1., "other units").label_if(c.p.t0 > 60. * c.p.ts, "late").label_if(n > 10, "many states");
    Ok(info.count("steps", ops))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChainStep {
    ch: Chain,
    t0: f64,
    steps: Vec<(FM, f64)>,
}
fn check_chain_steps(c: &ChainStep) -> Verdict {
    let mut sys = c.ch.build(c.steps[0].0.solver(1.), vec![c.t0], c.t0);
    let f = c.ch.f();
    for (k, (m, dt)) in c.steps.iter().enumerate() {
        let (t0, x) = (sys.time(), sys.temps());
        let t1 = t0 + dt;
        sys.prepare(m.solver(dt * 1.5), vec![t1], 0);
        let e = m.tab().step(&f, t0, &c.ch.reduce(&x), t1 - t0);
        sys.solve_step_();
        let want: Vec<f64> = c.ch.reduce(&x).iter().zip(&e.delta).map(|(a, b)| a + b).collect();
        let want = c.ch.expand(&want, t1);
        let got = sys.temps();
        let scale = maxabs(&x) + maxabs(&want) + e.kscale;
        ensure!(close(sys.time(), t1, 4e-16 * t1.abs().max(t0.abs())), "time after step is {}, expected {t1}", sys.time());
        for i in 0..3 {
            ensure!(close(got[i], want[i], 1e-10 * scale), "step {k} {m:?} dt {dt} from t {t0}: temperature {i} is {} expected {}", got[i], want[i]);
        }
    }
    Ok(Info::nt(c.ch.temps[0] != c.ch.temps[1] || c.ch.temps[1] != c.ch.temps[2]).label(if c.ch.bc { "boundary system" } else { "closed system" }))
}

pub fn c01(ctx: &mut Ctx) {
    ctx.assume("right-hand sides are sums of smooth bounded-slope terms; states and derivatives of magnitude up to about 10");
    ctx.sub(
        "steps",
        "random smooth ODE (1-10 states, optional time dependence), arbitrary stale derivatives, up to 5 consecutive single-step solves with varying method and step, states and parameters changed in between; non-trivial: the right-hand side depends on the states",
        ctx.n(240_000, 6_000_000),
        step_case,
        |c| with_ode!(c.p.rhs.n, S => check_steps::<S>(c)),
    );
    ctx.sub(
        "chain",
        "random parameters of the two example systems, random start time, up to 4 steps; non-trivial: temperatures differ",
        ctx.n(160_000, 3_000_000),
        || {
            (chain(), prop_oneof![Just(0.), 0f64..0.6, 0f64..3.], prop::collection::vec((fm(), logu(1e-3, 0.2)), 1..5))
                .prop_map(|(ch, t0, steps)| ChainStep { ch, t0, steps })
                .boxed()
        },
        check_chain_steps,
    );
}

// ---------------------------------------------------------------- C02
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WalkCase {
    p: Prob,
    m: FM,
    dt: f64,
    gaps: Vec<f64>,
    at_start: bool,
}
fn walk_dt(gaps: &[f64], pick: usize, kind: u8, frac: f64) -> f64 {
    let g = gaps[pick % gaps.len()];
    match kind {
        0 => g,
        1 => g / 2.,
        2 => g / (1. + (frac * 10.).floor()),
        3 => g * (0.02 + frac * 0.97),
        4 => g * (1. + frac),
        5 => g * (2. + 20. * frac),
        _ => g * (1. - 1e-9 * (1. + frac)),
    }
}
fn walk_case() -> BoxedStrategy<WalkCase> {
    (prob(1.5), fm(), gaps(8, 3.), 0usize..8, 0u8..7, 0f64..1., any::<bool>(), units(), delay())
        .prop_map(|(p, m, mut gaps, pick, kind, frac, at_start, u, late)| {
            gaps.iter_mut().for_each(|g| *g *= u.1);
            let dt = walk_dt(&gaps, pick, kind, frac).max(gaps.iter().sum::<f64>() / 3000.);
            WalkCase { p: p.late(late).scaled(u), m, dt, gaps, at_start }
        })
        .boxed()
}
/// reference fixed-step walk; returns states at each report and the number of steps
pub fn ref_walk(f: tab::F, m: FM, dt: f64, t0: f64, x0: &[f64], sched: &[f64]) -> (Vec<Vec<f64>>, u64, u64) {
    let tab = m.tab();
    let (mut t, mut x, mut out, mut n, mut full) = (t0, x0.to_vec(), vec![], 0, 0);
    for tr in sched {
        while t < *tr {
            let h = (tr - t).min(dt);
            if h == dt {
                full += 1;
            }
            let e = tab.step(f, t, &x, h);
            for i in 0..x.len() {
                x[i] += e.delta[i];
            }
            t += h;
            n += 1;
        }
        out.push(x.clone());
    }
    (out, n, full)
}
fn check_walk<S: OdeSys>(c: &WalkCase) -> Verdict {
    let rhs = &c.p.rhs;
    let f = |t: f64, x: &[f64]| rhs.eval(t, x);
    let sched = schedule(c.p.t0, &c.gaps, c.at_start);
    let mut sys = S::build(rhs, &c.p.x0, c.p.t0, c.m.solver(c.dt), sched.clone());
    sys.walk_();
    let (want, steps, full) = ref_walk(&f, c.m, c.dt, c.p.t0, &c.p.x0, &sched);
    let span: f64 = c.gaps.iter().sum();
    let amp = (rhs.lip() * span).min(6.).exp();
    // records at time t0 are not preceded by a step; walk stops when the last report is reached
    let cells = sys.cells();
    let nrec = if sched.len() == 1 && c.at_start { 0 } else { sched.len() };
    // rounding of the time enters through the right-hand side
    let tround = 1e-5 * rhs.terms.iter().map(|m| (m.a * c.p.t0 * m.c).abs()).sum::<f64>() * span;
    for (k, w) in want.iter().take(nrec).enumerate() {
        let scale = c.p.xs + maxabs(w) + maxabs(&c.p.x0) + tround;
        for (i, cell) in cells.iter().enumerate() {
            ensure!(cell.history.x.len() > k, "record {k} of state {i} missing");
            let g = cell.history.x[k];
            ensure!(
                close(g, w[i], 1e-10 * scale * amp),
                "{:?} dt {} report {k} at t={}: state {i} is {g}, composition of the prescribed steps gives {} (difference {:e})",
                c.m, c.dt, sched[k], w[i], g - w[i]
            );
        }
    }
    let last = want.last().unwrap();
    for (i, g) in sys.xs().iter().enumerate() {
        ensure!(close(*g, last[i], 1e-10 * (c.p.xs + maxabs(last) + maxabs(&c.p.x0) + tround) * amp), "final state {i} is {g}, expected {}", last[i]);
    }
    let cut = steps - full;
    Ok(Info::nt(rhs.lip() * c.p.ts > 1e-3)
        .label_if(c.p.xs != 1., "other units")
        .label_if(c.p.t0 > 60. * c.p.ts, "late")
        .label_if(rhs.n > 10, "many states")
        .label(c.m.tab().name)
        .label_if(cut > 0, "has shortened steps")
        .label_if(full > 0, "has full steps")
        .label_if(full == 0, "step longer than every interval")
        .label_if(cut > 0 && full > 0, "full and shortened")
        .count("steps", steps))
}
/// interval by interval: method, step, states and coefficients may change in between
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Leg {
    m: FM,
    dt: f64,
    gap: f64,
    /// walk to a schedule of this one report, or solve a step by hand
    walk: bool,
    set: Option<(usize, f64)>,
    coef: Option<(usize, f64)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LegCase {
    p: Prob,
    legs: Vec<Leg>,
}
fn check_legs<S: OdeSys>(c: &LegCase) -> Verdict {
    let mut rhs = c.p.rhs.clone();
    let mut sys = S::build(&rhs, &c.p.x0, c.p.t0, c.legs[0].m.solver(c.legs[0].dt), vec![]);
    let (mut cuts, mut steps) = (0, 0);
    for (k, l) in c.legs.iter().enumerate() {
        if let Some((i, v)) = l.set {
            let i = i % rhs.n;
            sys.cells_mut()[i].state.x = v;
        }
        if let Some((i, v)) = l.coef {
            let i = i % rhs.terms.len();
            rhs.terms[i].phi = v;
            sys.rhs_().terms[i].phi = v;
        }
        *sys.solver_() = l.m.solver(l.dt);
        let (t, x) = (sys.sys_state().time, sys.xs());
        let due = t + l.gap;
        sys.t_report_().push(due);
        let n = sys.hist().time.len();
        if l.walk {
            sys.walk_();
            ensure!(sys.hist().time.len() == n + 1, "leg {k}: {} records instead of one more than {n}", sys.hist().time.len());
        } else {
            sys.solve_step_();
            sys.sys_state().i += 1;
        }
        let f = |t: f64, x: &[f64]| rhs.eval(t, x);
        let (want, ns, full) = ref_walk(&f, l.m, l.dt, t, &x, &[due]);
        steps += ns;
        cuts += ns - full;
        let now = sys.sys_state().time;
        ensure!(close(now, due, 1e-12 * (c.p.ts + due.abs())), "leg {k}: ends at {now} instead of {due}");
        let scale = 1e-10 * (c.p.xs + maxabs(&x) + maxabs(&want[0])) * (rhs.lip() * l.gap).min(6.).exp();
        for (i, g) in sys.xs().iter().enumerate() {
            ensure!(close(*g, want[0][i], scale), "leg {k} ({:?} dt {} over {}): state {i} is {g}, composition of the prescribed steps gives {}", l.m, l.dt, l.gap, want[0][i]);
        }
    }
    Ok(Info::nt(rhs.lip() * c.p.ts > 1e-3 && c.legs.len() > 1).label_if(cuts > 0, "has shortened steps").count("steps", steps))
}
fn leg_case() -> BoxedStrategy<LegCase> {
    let leg = (fm(), logu(0.05, 1.5), 0u8..7, 0f64..1., any::<bool>(), prop::option::weighted(0.3, (0usize..9, num(3.))), prop::option::weighted(0.3, (0usize..9, num(2.)))).prop_map(|(m, gap, kind, frac, walk, set, coef)| Leg { m, dt: walk_dt(&[gap], 0, kind, frac), gap, walk, set, coef });
    (prob(1.5), prop::collection::vec(leg, 1..7), units())
        .prop_map(|(p, mut legs, u)| {
            for l in legs.iter_mut() {
                l.dt *= u.1;
                l.gap *= u.1;
                if let Some(s) = &mut l.set {
                    s.1 *= u.0;
                }
            }
            LegCase { p: p.scaled(u), legs }
        })
        .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChainWalk {
    ch: Chain,
    t0: f64,
    m: FM,
    dt: f64,
    gaps: Vec<f64>,
    at_start: bool,
}
fn check_chain_walk(c: &ChainWalk) -> Verdict {
    let sched = schedule(c.t0, &c.gaps, c.at_start);
    // keep the step inside the stable region so that rounding is not amplified
    let lam = c.ch.rate();
    let dt = c.dt.min(1.0 / lam);
    let gmax = c.gaps.iter().cloned().fold(0., f64::max);
    if dt < gmax && gmax / dt > 4000. {
        return Ok(Info::discard());
    }
    let mut sys = c.ch.build(c.m.solver(dt), sched.clone(), c.t0);
    sys.walk_();
    let f = c.ch.f();
    let (want, steps, full) = ref_walk(&f, c.m, dt, c.t0, &c.ch.reduce(&c.ch.temps), &sched);
    let h = sys.temp_hist();
    let nrec = if sched.len() == 1 && c.at_start { 0 } else { sched.len() };
    for k in 0..nrec {
        let mut w = c.ch.expand(&want[k], sched[k]);
        if k == 0 && c.at_start {
            w[0] = c.ch.temps[0]; // no step yet: the boundary has not been evaluated
        }
        for i in 0..3 {
            ensure!(h[i].len() > k, "record {k} missing");
            let scale = 1. + maxabs(&c.ch.temps) + 15.;
            ensure!(close(h[i][k], w[i], 1e-9 * scale), "{:?} dt {dt} report {k} t={}: temperature {i} is {}, expected {}", c.m, sched[k], h[i][k], w[i]);
        }
    }
    Ok(Info::nt(true).label(c.m.tab().name).label_if(steps > full && full > 0, "full and shortened").label(if c.ch.bc { "boundary system" } else { "closed system" }).count("steps", steps))
}

pub fn c02(ctx: &mut Ctx) {
    ctx.assume("Lipschitz constant times span bounded by about 5, so that rounding differences stay below the tolerance");
    ctx.sub(
        "ode-walk",
        "random ODE, fixed method, step related to the report gaps (equal, divisor, fraction, larger), uniform or not, first report at or after the start; non-trivial: right-hand side depends on the states",
        ctx.n(120_000, 3_000_000),
        walk_case,
        |c| with_ode!(c.p.rhs.n, S => check_walk::<S>(c)),
    );
    ctx.sub(
        "long",
        "the same with one to a hundred thousand steps; non-trivial: right-hand side depends on the states",
        ctx.n(320, 6_000),
        || {
            (prob(1.5), fm(), gaps(4, 3.), 0f64..1., any::<bool>())
                .prop_map(|(p, m, gaps, n, at_start)| {
                    let dt = gaps.iter().sum::<f64>() / (1000. * 100f64.powf(n));
                    WalkCase { p, m, dt, gaps, at_start }
                })
                .boxed()
        },
        |c| with_ode!(c.p.rhs.n, S => check_walk::<S>(c)),
    );
    ctx.sub(
        "legs",
        "report by report, walked or stepped by hand; method, step, states and coefficients changed in between; non-trivial: more than one leg and the right-hand side depends on the states",
        ctx.n(60_000, 1_500_000),
        leg_case,
        |c| with_ode!(c.p.rhs.n, S => check_legs::<S>(c)),
    );
    ctx.sub(
        "chain-walk",
        "the same for the two example systems with random parameters",
        ctx.n(80_000, 1_600_000),
        || {
            (chain(), prop_oneof![Just(0.), 0f64..0.6], fm(), gaps(6, 2.), 0usize..8, 0u8..7, 0f64..1., any::<bool>())
                .prop_map(|(ch, t0, m, gaps, pick, kind, frac, at_start)| {
                    let dt = walk_dt(&gaps, pick, kind, frac);
                    ChainWalk { ch, t0, m, dt, gaps, at_start }
                })
                .boxed()
        },
        check_chain_walk,
    );
}

// ---------------------------------------------------------------- C07
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OrderCase {
    m: FM,
    probs: Vec<(Prob, Vec<f64>)>,
    h: f64,
}
fn order_ref(p: &Prob, gaps: &[f64]) -> Vec<Vec<f64>> {
    let f = |t: f64, x: &[f64]| p.rhs.eval(t, x);
    let (mut t, mut x, mut out) = (p.t0, p.x0.clone(), vec![]);
    for tr in schedule(p.t0, gaps, false) {
        x = tab::accurate(&f, t, &x, tr, (((tr - t) / p.ts * 250.).ceil() as usize).max(4));
        t = tr;
        out.push(x.clone());
    }
    out
}
fn order_errors<S: OdeSys>(p: &Prob, gaps: &[f64], want: &[Vec<f64>], m: FM, h: f64) -> f64 {
    let sched = schedule(p.t0, gaps, false);
    let mut sys = S::build(&p.rhs, &p.x0, p.t0, m.solver(h), sched.clone());
    sys.walk_();
    let mut err = 0f64;
    for k in 0..sched.len() {
        for (i, c) in sys.cells().iter().enumerate() {
            err = err.max((c.history.x[k] - want[k][i]).abs());
        }
    }
    err
}
/// keep the problem in the regime where h is small against every time scale of it
pub fn tame(mut p: Prob) -> Prob {
    let n = p.rhs.n;
    let mut sum = vec![0f64; n];
    for t in p.rhs.terms.iter_mut() {
        let l: f64 = t.w.iter().map(|w| w.abs()).sum();
        if l > 1. {
            t.w.iter_mut().for_each(|w| *w /= l);
        }
        t.a *= 0.5;
        sum[t.out] += t.c.abs();
    }
    for t in p.rhs.terms.iter_mut() {
        if sum[t.out] > 2. {
            t.c *= 2. / sum[t.out];
        }
    }
    p
}
const REF: f64 = 8.;
fn check_order(c: &OrderCase) -> Verdict {
    let p = c.m.tab().order as f64;
    // the largest error over nearby steps, summed over the problems: isolated cancellations do not matter
    let refs: Vec<Vec<Vec<f64>>> = c.probs.iter().map(|(p, g)| order_ref(p, g)).collect();
    let e = |h: f64| -> f64 {
        [1., 0.87, 0.78, 0.69]
            .iter()
            .map(|r| c.probs.iter().zip(&refs).map(|((p, g), w)| with_ode!(p.rhs.n, S => order_errors::<S>(p, g, w, c.m, h * r))).sum())
            .fold(0f64, f64::max)
    };
    let floor = 1e-12 * c.probs[0].0.xs * c.probs.len() as f64;
    let mut seen = vec![];
    // an order defect shows more clearly the smaller the step, a pre-asymptotic coincidence does not persist
    for k in 0..4 {
        let h = c.h / 4f64.powi(k);
        let (e1, e2) = (e(h), e(h / REF));
        if e1 * REF.powf(-p) < floor {
            return Ok(Info::nt(k > 0).label(if k > 0 { "undecided: rounding level reached" } else { "error near rounding level" }));
        }
        let obs = (e1 / (e2 - floor).max(floor)).log2() / REF.log2();
        if obs > p - 0.5 {
            return Ok(Info::nt(true).label(c.m.tab().name).label(format!("level {k}")));
        }
        seen.push((h, e1, e2, obs));
    }
    Err(format!("{:?}: order {p} expected, observed (step, error, error at 1/{REF} of the step, order): {seen:?}", c.m))
}
pub fn c07(ctx: &mut Ctx) {
    ctx.assume("observed order is measured over a group of problems, the largest of four nearby steps, and an eightfold refinement, with a margin of one half, at four successively finer levels");
    ctx.sub(
        "order",
        "groups of 8 random smooth ODEs, partly in other units of state and time, with random report times, walked with step h and h/8 (and finer if the order is not met there) against an accurate reference; non-trivial: the error is above rounding level",
        ctx.n(4000, 100_000),
        || {
            let pr = (prob(1.5), prop::collection::vec(0.15f64..0.9, 1..4)).prop_map(|(p, g)| (tame(p), g));
            (fm(), prop::collection::vec(pr, 8), 0.02f64..0.05, units())
                .prop_map(|(m, probs, h, u)| {
                    let probs = probs.into_iter().map(|(p, g): (Prob, Vec<f64>)| (p.scaled(u), g.into_iter().map(|g| g * u.1).collect())).collect();
                    OrderCase { m, probs, h: u.1 * if m == FM::Rk4 { h * 2. } else { h } }
                })
                .boxed()
        },
        check_order,
    );
}
