//! C09-C12, C23: thermal networks - conservation, range, relaxation, consistency of records, reservoirs, symmetries.
use crate::common::*;
use crate::ensure;
use crate::net::*;
use crate::odes::*;
use crate::p_fixed::maxabs;
use crate::sim::*;
use crate::tab;
use crate::with_sys;
use dess::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- one view of all thermal systems
#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub time: Vec<f64>,
    /// node by node
    pub temp: Vec<Vec<f64>>,
    pub dtemp: Vec<Vec<f64>>,
    /// connection by connection
    pub q: Vec<Vec<f64>>,
    /// infinite for reservoirs
    pub c: Vec<f64>,
    pub conns: Vec<(usize, usize, f64)>,
    pub steps: Vec<SolverState>,
}
pub trait Thermal: Sim {
    fn params(&self) -> (Vec<f64>, Vec<(usize, usize, f64)>);
    fn node_hist(&self) -> Vec<&ThermalMassStateHistoryVec>;
    fn node_now(&self) -> Vec<ThermalMassState>;
    fn conn_hist(&self) -> Vec<&Vec<f64>>;
    fn conn_now(&self) -> Vec<f64>;
    fn rec(&self) -> Rec {
        let (c, conns) = self.params();
        let conf = match self.clone().sol() {
            SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => Some((**c).clone()),
            _ => None,
        };
        let steps = conf
            .map(|c| {
                let h = c.history;
                (0..h.dt.len())
                    .map(|i| SolverState { dt: h.dt[i], n_iter: h.n_iter[i], norm_err: h.norm_err[i], norm_err_rel: h.norm_err_rel[i], t_curr: h.t_curr[i], states: vec![] })
                    .collect()
            })
            .unwrap_or_default();
        Rec {
            time: self.sysrec().time.clone(),
            temp: self.node_hist().iter().map(|h| h.temp.clone()).collect(),
            dtemp: self.node_hist().iter().map(|h| h.dtemp.clone()).collect(),
            q: self.conn_hist().into_iter().cloned().collect(),
            c,
            conns,
            steps,
        }
    }
    /// the same, of the present instant
    fn rec_now(&self) -> Rec {
        let (c, conns) = self.params();
        Rec {
            time: vec![self.now().time],
            temp: self.node_now().iter().map(|s| vec![s.temp]).collect(),
            dtemp: self.node_now().iter().map(|s| vec![s.dtemp]).collect(),
            q: self.conn_now().into_iter().map(|q| vec![q]).collect(),
            c,
            conns,
            steps: vec![],
        }
    }
}
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
macro_rules! thermal3 {
    ($S:ty, $c0:expr) => {
        impl Thermal for $S {
            fn params(&self) -> (Vec<f64>, Vec<(usize, usize, f64)>) {
                let c0: fn(&$S) -> f64 = $c0;
                (vec![c0(self), self.m2.c, self.m3.c], vec![(0, 1, self.h12.h), (1, 2, self.h23.h)])
            }
            fn node_hist(&self) -> Vec<&ThermalMassStateHistoryVec> {
                vec![&self.m1.history, &self.m2.history, &self.m3.history]
            }
            fn node_now(&self) -> Vec<ThermalMassState> {
                vec![self.m1.state, self.m2.state, self.m3.state]
            }
            fn conn_hist(&self) -> Vec<&Vec<f64>> {
                vec![&self.h12.history.q, &self.h23.history.q]
            }
            fn conn_now(&self) -> Vec<f64> {
                vec![self.h12.state.q, self.h23.state.q]
            }
        }
    };
}
thermal3!(System3TM, |s| s.m1.c);
thermal3!(System3TMWithBC, |_| f64::INFINITY);
impl Thermal for Net {
    fn params(&self) -> (Vec<f64>, Vec<(usize, usize, f64)>) {
        let mut c: Vec<f64> = self.masses().iter().map(|m| m.c).collect();
        c.extend([f64::INFINITY; 2]);
        (c, PAIRS.iter().zip(self.conds()).map(|((a, b), q)| (*a, *b, q.h)).collect())
    }
    fn node_hist(&self) -> Vec<&ThermalMassStateHistoryVec> {
        let mut v: Vec<_> = self.masses().iter().map(|m| &m.history).collect();
        v.extend([&self.r0.history, &self.r1.history]);
        v
    }
    fn node_now(&self) -> Vec<ThermalMassState> {
        let mut v: Vec<_> = self.masses().iter().map(|m| m.state).collect();
        v.extend([self.r0.state, self.r1.state]);
        v
    }
    fn conn_hist(&self) -> Vec<&Vec<f64>> {
        self.conds().into_iter().map(|c| &c.history.q).collect()
    }
    fn conn_now(&self) -> Vec<f64> {
        self.conds().into_iter().map(|c| c.state.q).collect()
    }
}
impl Rec {
    fn fresh(&self, t0: f64) -> Vec<usize> {
        (0..self.time.len()).filter(|k| self.time[*k] > t0).collect()
    }
    fn at(&self, k: usize) -> Vec<f64> {
        self.temp.iter().map(|s| s[k]).collect()
    }
    fn complete(&self, n: usize) -> Result<(), String> {
        ensure!(
            self.time.len() == n && self.temp.iter().chain(&self.dtemp).chain(&self.q).all(|s| s.len() == n),
            "{n} records expected, got {} times, {:?} temperatures, {:?} flows",
            self.time.len(),
            self.temp.iter().map(|s| s.len()).collect::<Vec<_>>(),
            self.q.iter().map(|s| s.len()).collect::<Vec<_>>()
        );
        Ok(())
    }
}

// ---------------------------------------------------------------- cases
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TCase {
    pub w: What,
    pub sol: Sol,
    pub gaps: Vec<f64>,
    pub at_start: bool,
    /// dt * total conductance / capacitance
    pub z: f64,
    #[serde(default)]
    pub u: Units,
}
/// units of energy, time and temperature
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Units {
    pub es: f64,
    pub ts: f64,
    pub xs: f64,
}
impl Default for Units {
    fn default() -> Self {
        Units { es: 1., ts: 1., xs: 1. }
    }
}
fn nunits() -> BoxedStrategy<Units> {
    let u = || logu(1e-9, 1e9);
    prop_oneof![4 => Just(Units::default()), 1 => (u(), u(), u()).prop_map(|(es, ts, xs)| Units { es, ts, xs })].boxed()
}
/// one node of very large capacitance, sometimes
fn heavy() -> BoxedStrategy<Option<(usize, f64)>> {
    prop_oneof![5 => Just(None), 1 => (0usize..6, logu(1., 1e9)).prop_map(Some)].boxed()
}
impl Units {
    fn net(&self, n: &mut NetParams) {
        n.c.iter_mut().for_each(|c| *c *= self.es / self.xs);
        n.conns.iter_mut().for_each(|c| c.2 *= self.es / self.xs / self.ts);
        n.temps.iter_mut().for_each(|t| *t *= self.xs);
    }
    fn what(&self, w: &mut What) {
        match w {
            What::Chain(ch, t0) => {
                ch.c.iter_mut().for_each(|c| *c *= self.es / self.xs);
                ch.h.iter_mut().for_each(|h| *h *= self.es / self.xs / self.ts);
                ch.temps.iter_mut().for_each(|t| *t *= self.xs);
                *t0 *= self.ts;
            }
            What::Net(n, t0) => {
                self.net(n);
                *t0 *= self.ts;
            }
            What::Ode(_) => unreachable!(),
        }
    }
    fn sol(&self, s: &mut Sol) {
        match s {
            Sol::Fixed(_, dt) => *dt *= self.ts,
            Sol::Adapt(_, ad) => *ad = ad.scaled((self.xs, self.ts)),
        }
    }
}
fn is_bc(w: &What) -> bool {
    matches!(w, What::Chain(c, _) if c.bc)
}
fn diag(w: &What) -> f64 {
    let d = match w {
        What::Chain(c, _) => c.diag(),
        What::Net(n, _) => n.diag(),
        What::Ode(_) => unreachable!(),
    };
    if d > 0. {
        d
    } else {
        1.
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// masses only
    Closed,
    /// constant surroundings
    Autonomous,
    Any,
    Driven,
}
fn thermal(kind: Kind) -> BoxedStrategy<What> {
    let t = || prop_oneof![2 => Just(0.), 1 => 0f64..0.6, 1 => 0f64..3.];
    match kind {
        Kind::Closed => prop_oneof![
            1 => (chain_of(false), t()).prop_map(|(c, t)| What::Chain(c, t)),
            2 => (net_params(true), t()).prop_map(|(n, t)| What::Net(n, t)),
        ]
        .boxed(),
        Kind::Autonomous => prop_oneof![
            1 => (chain_of(false), t()).prop_map(|(c, t)| What::Chain(c, t)),
            2 => (net_params(false), t()).prop_map(|(n, t)| What::Net(n, t)),
        ]
        .boxed(),
        Kind::Any => prop_oneof![
            1 => (chain_of(false), t()).prop_map(|(c, t)| What::Chain(c, t)),
            2 => (chain_of(true), t()).prop_map(|(c, t)| What::Chain(c, t)),
            2 => (net_params(false), t()).prop_map(|(n, t)| What::Net(n, t)),
        ]
        .boxed(),
        Kind::Driven => (chain_of(true), prop_oneof![4 => t(), 1 => -1f64..0.]).prop_map(|(c, t)| What::Chain(c, t)).boxed(),
    }
}
/// steps of relative length z; report intervals of 0.05 to a few relative lengths
fn tcase(kind: Kind, zmax: f64) -> BoxedStrategy<TCase> {
    (
        thermal(kind),
        logu(0.02, 1.).prop_map(move |z| z * zmax),
        prop_oneof![5 => fm().prop_map(Some), 4 => Just(None)],
        am(),
        crate::p_adapt::ad_ok(),
        prop::collection::vec(prop_oneof![3 => 0.1f64..2., 1 => logu(1e-3, 0.1), 1 => 2f64..12.], 1..7),
        any::<bool>(),
        nunits(),
        heavy(),
    )
        .prop_map(move |(mut w, z, m, a, mut ad, gaps, at_start, mut u, heavy)| {
            if let Some((i, f)) = heavy {
                match &mut w {
                    What::Chain(c, _) => c.c[i % 3] *= f,
                    What::Net(n, _) => n.c[i] *= f,
                    What::Ode(_) => unreachable!(),
                }
            }
            if is_bc(&w) {
                // its reservoir's temperature is a fixed function of time
                u = Units { es: u.es, ..Units::default() };
            }
            let d = diag(&w);
            let mut sol = match m {
                Some(m) => Sol::Fixed(m, z / d),
                None => {
                    ad.dt_max = ad.dt_max.min(z / d);
                    ad.dt_init /= d;
                    Sol::Adapt(a, ad)
                }
            };
            let mut gaps: Vec<f64> = gaps.into_iter().map(|g| g / d).collect();
            // at most about 1500 fixed steps; the reservoir's law is wild on long spans, keep those short
            let s: f64 = gaps.iter().sum();
            let cap = (1500. * z / d).min(if is_bc(&w) { 4. } else { 1e9 / d });
            if s > cap {
                gaps.iter_mut().for_each(|g| *g *= cap / s);
            }
            u.what(&mut w);
            u.sol(&mut sol);
            gaps.iter_mut().for_each(|g| *g *= u.ts);
            TCase { w, sol, gaps, at_start, z, u }
        })
        .boxed()
}
/// the whole case at a late time, sometimes
fn late(c: BoxedStrategy<TCase>) -> BoxedStrategy<TCase> {
    (c, delay())
        .prop_map(|(mut c, by)| {
            if !is_bc(&c.w) {
                match &mut c.w {
                    What::Chain(_, t) | What::Net(_, t) => *t += by * c.u.ts,
                    What::Ode(_) => unreachable!(),
                }
            }
            c
        })
        .boxed()
}
impl TCase {
    fn label(&self, i: Info) -> Info {
        let far = [self.u.es, self.u.ts, self.u.xs].iter().any(|x| !(0.01..100.).contains(x));
        i.label(self.sol.name()).label(self.w.label()).label_if(far, "other units").label_if(self.w.t0() > 99. * self.u.ts, "late start")
    }
    fn sched(&self) -> Vec<f64> {
        let t0 = self.w.t0();
        let mut s = schedule(t0, &self.gaps, self.at_start);
        s.dedup();
        cheap(&self.w, &self.sol, s, 400)
    }
    fn est_steps(&self, r: &Rec) -> f64 {
        let n = match self.sol {
            Sol::Fixed(_, dt) => self.gaps.iter().sum::<f64>() / dt + self.gaps.len() as f64,
            Sol::Adapt(..) => 400.,
        };
        n + r.time.len() as f64 + 4.
    }
}
/// run `$body` with `$s` bound to the thermal system
macro_rules! with_thermal {
    ($w:expr, $solver:expr, $sched:expr, $s:ident => $body:expr) => {
        match $w {
            What::Chain(c, t) => match c.build($solver, $sched, *t) {
                ChainSys::Closed(mut $s) => $body,
                ChainSys::Driven(mut $s) => $body,
            },
            What::Net(n, t) => {
                let mut $s = Net::build(n, $solver, $sched, *t);
                $body
            }
            What::Ode(_) => unreachable!(),
        }
    };
}
/// walk, and look at the records and the final instant
fn run(w: &What, sol: &Sol, sched: &[f64]) -> Result<(Rec, Rec), String> {
    let mut s = *sol;
    if let Sol::Adapt(_, ad) = &mut s {
        if s_saves(ad) {
            ad.save_states = false;
        }
    }
    let n = if w.t0() >= *sched.last().unwrap() { 0 } else { sched.len() };
    let (r, now) = with_thermal!(w, s.solver(), sched.to_vec(), s => { s.walk_(); (s.rec(), s.rec_now()) });
    r.complete(n)?;
    Ok((r, now))
}
fn s_saves(ad: &Ad) -> bool {
    ad.save
}
fn join(a: &Rec, b: &Rec) -> Rec {
    let mut r = a.clone();
    r.time.extend(&b.time);
    for (x, y) in r.temp.iter_mut().zip(&b.temp).chain(r.dtemp.iter_mut().zip(&b.dtemp)).chain(r.q.iter_mut().zip(&b.q)) {
        x.extend(y);
    }
    r
}

// ---------------------------------------------------------------- C09
fn check_energy(c: &TCase) -> Verdict {
    let sched = c.sched();
    let (r, now) = run(&c.w, &c.sol, &sched)?;
    let r = join(&r, &now);
    let init: Vec<f64> = match &c.w {
        What::Chain(ch, _) => ch.temps.to_vec(),
        What::Net(n, _) => n.temps[..6].to_vec(),
        _ => unreachable!(),
    };
    let nm = init.len();
    let e = |t: &dyn Fn(usize) -> f64| (0..nm).map(|i| r.c[i] * t(i)).sum::<f64>();
    let e0 = e(&|i| init[i]);
    let ctot: f64 = r.c[..nm].iter().sum();
    let mut m = maxabs(&init);
    let mut exchanged = 0f64;
    for k in 0..r.time.len() {
        m = m.max(maxabs(&(0..nm).map(|i| r.temp[i][k]).collect::<Vec<_>>()));
        if !m.is_finite() || m > 1e100 {
            return Ok(Info::nt(false).label("diverged"));
        }
        let ek = e(&|i| r.temp[i][k]);
        let tol = 2e-14 * c.est_steps(&r) * (1. + c.z) * ctot * m;
        ensure!(close(ek, e0, tol), "{} at t={}: stored energy is {ek}, it was {e0} at the start (difference {:e}, rounding could explain {:e})", c.sol.name(), r.time[k], ek - e0, tol);
        exchanged = exchanged.max((0..nm).map(|i| (r.c[i] * (r.temp[i][k] - init[i])).abs()).fold(0., f64::max) / tol.max(1e-300));
    }
    Ok(c.label(Info::nt(exchanged > 1e3)).label_if(c.z > 1., "beyond the stability limit of Euler").count("records", r.time.len() as u64))
}
fn check_balance(c: &TCase) -> Verdict {
    let sched = c.sched();
    let (r, now) = run(&c.w, &c.sol, &sched)?;
    let r = join(&r, &now);
    let mut open = false;
    for k in r.fresh(c.w.t0()) {
        let temps = r.at(k);
        if !temps.iter().all(|t| t.abs() < 1e100) {
            return Ok(Info::nt(false).label("diverged"));
        }
        let (mut gain, mut inflow, mut scale) = (0., 0., 0.);
        for i in 0..r.c.len() {
            if r.c[i].is_finite() {
                gain += r.c[i] * r.dtemp[i][k];
            }
        }
        for (j, (a, b, h)) in r.conns.iter().enumerate() {
            let q = r.q[j][k];
            scale += h * (temps[*a].abs() + temps[*b].abs()) + q.abs();
            match (r.c[*a].is_finite(), r.c[*b].is_finite()) {
                (true, false) => inflow -= q,
                (false, true) => inflow += q,
                _ => {}
            }
        }
        open |= inflow != 0.;
        ensure!(
            close(gain, inflow, 1e-12 * scale + 1e-300),
            "{} at t={}: the masses gain {gain} W but {inflow} W flows in from the reservoirs", c.sol.name(), r.time[k]
        );
        // a reservoir's own rate stays zero whatever flows through it
    }
    Ok(c.label(Info::nt(open)))
}
/// a single connection removes from one end what it delivers to the other
fn check_pair(c: &TCase) -> Verdict {
    let What::Net(n, t0) = &c.w else { unreachable!() };
    let sched = c.sched();
    let (r, now) = run(&c.w, &c.sol, &sched)?;
    let r = join(&r, &now);
    let Some((a, b, h)) = n.conns.first().copied() else { return Ok(Info::nt(false)) };
    let (ca, cb) = (r.c[a], r.c[b]);
    for k in 0..r.time.len() {
        let (da, db) = (r.temp[a][k] - n.temps[a], r.temp[b][k] - n.temps[b]);
        let tol = 2e-14 * c.est_steps(&r) * (1. + c.z) * maxabs(&n.temps) * 8.;
        if ca.is_finite() && cb.is_finite() {
            ensure!(close(ca * da, -cb * db, tol * (ca + cb)), "{} at t={}: node {a} gained {} J but node {b} lost {} J", c.sol.name(), r.time[k], ca * da, -cb * db);
        }
        for i in (0..8).filter(|i| *i != a && *i != b) {
            ensure!(r.temp[i][k] == n.temps[i], "{}: node {i} is not connected to anything, but went from {} to {}", c.sol.name(), n.temps[i], r.temp[i][k]);
            ensure!(r.dtemp[i][k] == 0., "{}: node {i} is not connected to anything, but its rate of change is {}", c.sol.name(), r.dtemp[i][k]);
        }
        if r.time[k] > *t0 {
            let (fa, fb) = (if ca.is_finite() { ca * r.dtemp[a][k] } else { 0. }, if cb.is_finite() { cb * r.dtemp[b][k] } else { 0. });
            let scale = 1e-12 * h * (r.temp[a][k].abs() + r.temp[b][k].abs()) + 1e-300;
            if ca.is_finite() && cb.is_finite() {
                ensure!(close(fa, -fb, scale), "{}: node {a} receives {fa} W while node {b} loses {} W", c.sol.name(), -fb);
            }
        }
    }
    Ok(c.label(Info::nt(n.temps[a] != n.temps[b])).label(match (ca.is_finite(), cb.is_finite()) { (true, true) => "mass-mass", _ => "mass-reservoir" }))
}
fn one_conn() -> BoxedStrategy<TCase> {
    (late(tcase(Kind::Autonomous, 1.)), 0..PAIRS.len(), hval(), prop::collection::vec(capac(), 6), prop::collection::vec(temp(), 8))
        .prop_map(|(mut t, k, h, c, temps)| {
            // (without any connection the steps were made for a unit rate)
            let d = if matches!(&t.w, What::Net(n, _) if n.diag() == 0.) { 1. / t.u.ts } else { diag(&t.w) };
            let t0 = t.w.t0();
            let mut n = NetParams { c, temps, conns: vec![(PAIRS[k].0, PAIRS[k].1, h)] };
            t.u.net(&mut n);
            let s = d / n.diag();
            t.w = What::Net(n, t0);
            t.gaps.iter_mut().for_each(|g| *g *= s);
            match &mut t.sol {
                Sol::Fixed(_, dt) => *dt *= s,
                Sol::Adapt(_, ad) => {
                    ad.dt_init *= s;
                    ad.dt_max *= s;
                }
            }
            t
        })
        .boxed()
}
pub fn c09(ctx: &mut Ctx) {
    ctx.assume("capacitances 0.2 to 20, conductances up to 10, steps up to three times the stability limit of Euler; walks that overflow are set aside");
    ctx.sub(
        "closed",
        "random closed networks (chain example, six masses with random connections), any solver: the stored energy at every record and at the end equals the initial one up to rounding; non-trivial: some mass exchanged heat worth a thousand times the rounding allowance",
        ctx.n(120_000, 2_400_000),
        || late(prop_oneof![3 => tcase(Kind::Closed, 1.), 1 => tcase(Kind::Closed, 3.)].boxed()),
        check_energy,
    );
    ctx.sub(
        "balance",
        "networks with reservoirs, constant or time dependent: energy gained by the masses per unit time equals the flow in from reservoirs at every record after a step; non-trivial: reservoirs exchange heat",
        ctx.n(80_000, 1_600_000),
        || late(prop_oneof![3 => tcase(Kind::Any, 1.), 1 => tcase(Kind::Any, 3.)].boxed()),
        check_balance,
    );
    ctx.sub(
        "pair",
        "a network with a single connection: what one end loses the other gains, in rate and in total; unconnected nodes stay as they are; non-trivial: ends differ in temperature",
        ctx.n(80_000, 1_200_000),
        one_conn,
        check_pair,
    );
}

// ---------------------------------------------------------------- C10
fn uniform() -> BoxedStrategy<TCase> {
    (late(tcase(Kind::Autonomous, 20.)), temp())
        .prop_map(|(mut c, t)| {
            let t = t * c.u.xs;
            match &mut c.w {
                What::Chain(ch, _) => ch.temps = [t; 3],
                What::Net(n, _) => n.temps = vec![t; 8],
                _ => {}
            }
            c
        })
        .boxed()
}
fn check_uniform(c: &TCase) -> Verdict {
    let sched = c.sched();
    let t = match &c.w {
        What::Chain(ch, _) => ch.temps[0],
        What::Net(n, _) => n.temps[0],
        _ => unreachable!(),
    };
    let (r, now) = run(&c.w, &c.sol, &sched)?;
    let r = join(&r, &now);
    for k in 0..r.time.len() {
        for i in 0..r.temp.len() {
            ensure!(r.temp[i][k] == t, "{}: a system at uniform temperature {t} has node {i} at {} at t={}", c.sol.name(), r.temp[i][k], r.time[k]);
            ensure!(r.dtemp[i][k] == 0., "{}: a system at uniform temperature {t} has node {i} changing at rate {}", c.sol.name(), r.dtemp[i][k]);
        }
        ensure!(r.q.iter().all(|q| q[k] == 0.), "{}: heat flows in a system at uniform temperature", c.sol.name());
    }
    ensure!(close(now.time[0], *sched.last().unwrap(), 1e-12 * (c.u.ts + now.time[0].abs())), "{}: stopped at {}", c.sol.name(), now.time[0]);
    Ok(c.label(Info::nt(r.conns.iter().any(|c| c.2 != 0.))))
}
fn check_range(c: &TCase) -> Verdict {
    let sched = c.sched();
    let (r, now) = run(&c.w, &c.sol, &sched)?;
    let r = join(&r, &now);
    let t0 = c.w.t0();
    let mut driven = false;
    let mut prev: Vec<f64> = match &c.w {
        What::Chain(ch, _) if ch.bc => {
            driven = true;
            let mut v = ch.temps[1..].to_vec();
            // everything the reservoir may be at
            v.extend([bc_range(t0, *sched.last().unwrap()).0, bc_range(t0, *sched.last().unwrap()).1]);
            v
        }
        What::Chain(ch, _) => ch.temps.to_vec(),
        What::Net(n, _) => n.temps.clone(),
        _ => unreachable!(),
    };
    let (nodes0, mut moved) = (prev.clone(), 0f64);
    let slack = 1e-13 * c.est_steps(&r) * (maxabs(&prev) + 1e-3 * c.u.xs);
    for k in 0..r.time.len() {
        let now = r.at(k);
        if driven && r.time[k] <= t0 {
            continue; // the reservoir has not been set yet
        }
        // nodes that influence each other form a component: compare with the range of that component
        for i in 0..now.len() {
            let comp = if driven { (0..prev.len()).collect() } else { component(&r, i) };
            let (lo, hi) = comp.iter().map(|j| prev[*j]).fold((f64::MAX, f64::MIN), |(a, b), x| (a.min(x), b.max(x)));
            ensure!(
                now[i] >= lo - slack && now[i] <= hi + slack,
                "{} (relative step {}): node {i} is at {} at t={}, outside the earlier range {lo}..{hi} of the nodes it is connected with",
                c.sol.name(), c.z, now[i], r.time[k]
            );
            moved = moved.max((now[i] - nodes0[i.min(nodes0.len() - 1)]).abs());
        }
        if r.time[k] > t0 {
            for (j, (a, b, h)) in r.conns.iter().enumerate() {
                let d = now[*a] - now[*b];
                let q = r.q[j][k];
                ensure!(*h == 0. || d.abs() < slack || q * d > 0., "{}: between {} and {} degrees the flow is {q}", c.sol.name(), now[*a], now[*b]);
            }
            for i in 0..now.len() {
                if !r.c[i].is_finite() {
                    continue;
                }
                let nb: Vec<f64> = r.conns.iter().filter(|x| x.2 > 0.).filter_map(|(a, b, _)| if *a == i { Some(now[*b]) } else if *b == i { Some(now[*a]) } else { None }).collect();
                let dt = r.dtemp[i][k];
                if nb.iter().all(|t| *t > now[i] + slack) && !nb.is_empty() {
                    ensure!(dt > 0., "{}: node {i} at {} is colder than all its neighbours {nb:?} but changes at rate {dt}", c.sol.name(), now[i]);
                }
                if nb.iter().all(|t| *t < now[i] - slack) && !nb.is_empty() {
                    ensure!(dt < 0., "{}: node {i} at {} is hotter than all its neighbours {nb:?} but changes at rate {dt}", c.sol.name(), now[i]);
                }
            }
        }
        if !driven {
            prev = now;
        }
    }
    Ok(c.label(Info::nt(moved > 1e-6 * c.u.xs)).count("records", r.time.len() as u64))
}
fn bc_range(t0: f64, t1: f64) -> (f64, f64) {
    let n = 4000;
    let (mut lo, mut hi) = (f64::MAX, f64::MIN);
    for i in 0..=n {
        let v = bc_temp(t0 + (t1 - t0) * i as f64 / n as f64);
        lo = lo.min(v);
        hi = hi.max(v);
    }
    (lo - 0.15, hi + 0.15)
}
fn component(r: &Rec, i: usize) -> Vec<usize> {
    let mut seen = vec![i];
    let mut at = 0;
    while at < seen.len() {
        let x = seen[at];
        at += 1;
        // reservoirs are not moved, so nothing behind them matters to a mass; a reservoir itself stays where it is
        if !r.c[x].is_finite() {
            continue;
        }
        for (a, b, h) in &r.conns {
            if *h > 0. {
                for y in [(*a, *b), (*b, *a)] {
                    if y.0 == x && !seen.contains(&y.1) {
                        seen.push(y.1);
                    }
                }
            }
        }
    }
    seen
}
/// driven systems: only methods for which the range is provably kept under forcing
fn range_case() -> BoxedStrategy<TCase> {
    let driven = (tcase(Kind::Driven, 1.), any::<u8>()).prop_map(|(mut c, k)| {
        let dt = c.z / diag(&c.w);
        c.sol = match k % 3 {
            0 => Sol::Fixed(FM::Euler, dt),
            1 => Sol::Fixed(FM::Heun, dt),
            _ => Sol::Fixed(FM::Ralston, dt / 2.),
        };
        c
    });
    prop_oneof![5 => late(tcase(Kind::Autonomous, 1.)), 1 => driven].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Relax {
    n: NetParams,
    sol: Sol,
    chain: bool,
}
/// symmetric eigenvalues by Jacobi rotations
fn eig(mut a: Vec<Vec<f64>>) -> Vec<f64> {
    let n = a.len();
    for _ in 0..60 {
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q].abs() < 1e-300 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2. * a[p][q]);
                let t = th.signum() / (th.abs() + (th * th + 1.).sqrt());
                let t = if th == 0. { 1. } else { t };
                let (c, s) = (1. / (t * t + 1.).sqrt(), t / (t * t + 1.).sqrt());
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
            }
        }
    }
    let mut v: Vec<f64> = (0..n).map(|i| a[i][i]).collect();
    v.sort_by(f64::total_cmp);
    v
}
fn relax() -> BoxedStrategy<Relax> {
    (
        any::<bool>(),
        prop::collection::vec(0.5f64..3., 6),
        prop::collection::vec(temp(), 8),
        prop::collection::vec((0usize..6, 1f64..4.), 6),
        prop::collection::vec((0usize..15, 1f64..4.), 0..4),
        prop_oneof![1 => Just(0u8), 1 => Just(1), 1 => Just(2)],
        (prop::option::of(fm()), am(), 0.3f64..0.9, logu(1e-5, 1e-2), logu(1e-9, 1e-4)),
        nunits(),
    )
        .prop_map(|(chain, mut c, mut temps, tree, extra, res, (m, a, z, rtol, atol), u)| {
            let mut conns: Vec<(usize, usize, f64)> = vec![];
            let mut add = |a: usize, b: usize, h: f64| {
                if !conns.iter().any(|(i, j, _)| (*i, *j) == (a, b) || (*i, *j) == (b, a)) {
                    conns.push((a, b, h))
                }
            };
            if chain {
                add(0, 1, tree[0].1);
                add(1, 2, tree[1].1);
                c.truncate(3);
                temps.truncate(3);
            } else {
                for i in 1..6 {
                    add(tree[i].0 % i, i, tree[i].1);
                }
                for (k, h) in extra {
                    add(PAIRS[k].0, PAIRS[k].1, h);
                }
                // no reservoir, one, or two at the same temperature
                if res > 0 {
                    add(6, tree[0].0, tree[0].1);
                }
                if res > 1 {
                    add(7, (tree[0].0 + 3) % 6, tree[0].1);
                    temps[7] = temps[6];
                }
            }
            let mut n = NetParams { c, temps, conns };
            let dt = z / relax_diag(&n);
            let mut sol = match m {
                Some(m) => Sol::Fixed(m, dt),
                None => Sol::Adapt(a, Ad { dt_init: dt / 3., dt_max: dt, max_iter: 20, rtol, atol, save: false, save_states: false }),
            };
            u.net(&mut n);
            u.sol(&mut sol);
            Relax { n, sol, chain }
        })
        .boxed()
}
fn relax_diag(n: &NetParams) -> f64 {
    (0..n.c.len()).map(|i| n.conns.iter().filter(|(a, b, _)| *a == i || *b == i).map(|c| c.2).sum::<f64>() / n.c[i]).fold(0., f64::max)
}
fn check_relax(c: &Relax) -> Verdict {
    let n = c.n.c.len();
    let mut l = vec![vec![0.; n]; n];
    let mut grounded = None;
    for (a, b, h) in &c.n.conns {
        for x in [*a, *b] {
            if x < n {
                l[x][x] += h / c.n.c[x];
            } else {
                grounded = Some(c.n.temps[x]);
            }
        }
        if *a < n && *b < n {
            let v = h / (c.n.c[*a] * c.n.c[*b]).sqrt();
            l[*a][*b] -= v;
            l[*b][*a] -= v;
        }
    }
    let e = eig(l);
    let rate = if grounded.is_some() { e[0] } else { e[1] };
    let (goal, ref0) = match grounded {
        Some(t) => (t, t),
        None => {
            let ct: f64 = c.n.c.iter().sum();
            ((0..n).map(|i| c.n.c[i] * c.n.temps[i]).sum::<f64>() / ct, c.n.temps[0])
        }
    };
    let dt = match &c.sol {
        Sol::Fixed(_, dt) => *dt,
        Sol::Adapt(_, ad) => ad.dt_max,
    };
    // at least 200 steps: a single one may shrink a fast mode by no more than a fifth
    let t = (35. / rate).max(200. * dt);
    if !(rate > 0.) || t / dt > 4000. {
        return Ok(Info::nt(false).label("too stiff to follow"));
    }
    let w = if c.chain {
        What::Chain(Chain { bc: false, c: [c.n.c[0], c.n.c[1], c.n.c[2]], h: [c.n.conns[0].2, c.n.conns[1].2], temps: [c.n.temps[0], c.n.temps[1], c.n.temps[2]] }, 0.)
    } else {
        What::Net(c.n.clone(), 0.)
    };
    let (r, _) = run(&w, &c.sol, &[t / 2., t])?;
    let spread = c.n.temps[..n].iter().fold(0f64, |m, x| m.max((x - goal).abs()));
    let tol = 1e-5 * spread + 1e-9 * maxabs(&c.n.temps);
    for i in 0..n {
        let x = r.temp[i][1];
        ensure!(close(x, goal, tol), "{}: after {} of the slowest time constant node {i} is at {x}, the equilibrium is {goal} (start: {:?}, first {ref0})", c.sol.name(), 35., c.n.temps);
    }
    Ok(Info::nt(spread > 1e-5 * maxabs(&c.n.temps)).label(c.sol.name()).label(if c.chain { "chain" } else if grounded.is_some() { "with reservoirs" } else { "closed" }))
}
pub fn c10(ctx: &mut Ctx) {
    ctx.assume("range: step times total conductance over capacitance at most 1 at every node (the linear-stability radius of monotonicity of all seven methods); under a time-dependent reservoir only Euler, Heun and Ralston, which keep the range under forcing");
    ctx.sub(
        "uniform",
        "closed networks and networks with reservoirs, all at one temperature, steps up to 20 times the stability limit, any solver: nothing changes; non-trivial: something is connected",
        ctx.n(80_000, 1_600_000),
        uniform,
        check_uniform,
    );
    ctx.sub(
        "range",
        "random networks with monotone steps: every record lies in the range spanned, at the record before, by the nodes it is connected with; flows go from hot to cold; non-trivial: temperatures move",
        ctx.n(100_000, 2_000_000),
        range_case,
        check_range,
    );
    ctx.sub(
        "relax",
        "connected networks walked for 35 of their slowest time constants end at the capacitance-weighted mean or at the reservoirs' temperature; non-trivial: they started away from it",
        ctx.n(10_000, 200_000),
        relax,
        check_relax,
    );
}

// ---------------------------------------------------------------- C11
fn check_consistent(r: &Rec, ks: &[usize], who: &str) -> Result<(), String> {
    for &k in ks {
        let t = r.at(k);
        if !t.iter().all(|x| x.abs() < 1e100) {
            continue;
        }
        let mut inflow = vec![0.; r.c.len()];
        let mut scale = vec![0.; r.c.len()];
        for (j, (a, b, h)) in r.conns.iter().enumerate() {
            let q = r.q[j][k];
            let s = h * (t[*a].abs() + t[*b].abs());
            let want = h * (t[*a] - t[*b]);
            ensure!(close(q, want, 1e-13 * s + 1e-300), "{who}: at t={} the flow of connection {j} is {q}, but its ends are at {} and {} and its conductance is {h}", r.time[k], t[*a], t[*b]);
            inflow[*a] -= q;
            inflow[*b] += q;
            scale[*a] += s;
            scale[*b] += s;
        }
        for i in 0..r.c.len() {
            let want = inflow[i] / r.c[i];
            ensure!(
                close(r.dtemp[i][k], want, 1e-12 * scale[i] / r.c[i] + 1e-300),
                "{who}: at t={} the rate of node {i} is {}, but its net inflow is {} and its capacitance {}", r.time[k], r.dtemp[i][k], inflow[i], r.c[i]
            );
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Driving {
    c: TCase,
    manual: bool,
    /// junk left in flows and rates before the walk
    junk: f64,
}
/// bring all temperatures this much closer to the first
fn squeeze(w: &mut What, by: f64) {
    let t = match w {
        What::Chain(c, _) => &mut c.temps[..],
        What::Net(n, _) => &mut n.temps[..],
        What::Ode(_) => unreachable!(),
    };
    let t0 = t[0];
    t.iter_mut().for_each(|x| *x = t0 + (*x - t0) * by);
}
fn squeezing() -> BoxedStrategy<f64> {
    prop_oneof![3 => Just(1.), 1 => logu(1e-14, 1.)].boxed()
}
fn driving() -> BoxedStrategy<Driving> {
    (late(prop_oneof![3 => tcase(Kind::Any, 1.), 1 => tcase(Kind::Any, 3.)].boxed()), any::<bool>(), num(50.), squeezing())
        .prop_map(|(mut c, manual, junk, by)| {
            if by != 1. {
                squeeze(&mut c.w, by);
            }
            Driving { c, manual, junk }
        })
        .boxed()
}
fn with_junk(n: &mut NetJunk<'_>, junk: f64) {
    for x in n.0.iter_mut() {
        **x = junk;
    }
}
struct NetJunk<'a>(Vec<&'a mut f64>);
trait Junk {
    fn slots(&mut self) -> NetJunk<'_>;
}
impl Junk for System3TM {
    fn slots(&mut self) -> NetJunk<'_> {
        NetJunk(vec![&mut self.m1.state.dtemp, &mut self.m2.state.dtemp, &mut self.m3.state.dtemp, &mut self.h12.state.q, &mut self.h23.state.q])
    }
}
impl Junk for System3TMWithBC {
    fn slots(&mut self) -> NetJunk<'_> {
        NetJunk(vec![&mut self.m1.state.dtemp, &mut self.m2.state.dtemp, &mut self.m3.state.dtemp, &mut self.h12.state.q, &mut self.h23.state.q])
    }
}
impl Junk for Net {
    fn slots(&mut self) -> NetJunk<'_> {
        let mut v = vec![&mut self.m0.state.dtemp, &mut self.m1.state.dtemp, &mut self.m2.state.dtemp, &mut self.m3.state.dtemp, &mut self.m4.state.dtemp, &mut self.m5.state.dtemp, &mut self.c01.state.q];
        v.push(&mut self.d60.state.q);
        NetJunk(v)
    }
}
fn drive<S: Thermal + Junk>(mut s: S, c: &Driving, sched: &[f64]) -> Verdict {
    let t0 = s.now().time;
    with_junk(&mut s.slots(), c.junk);
    if c.manual {
        for k in 0..sched.len() {
            s.manual();
            let fresh = s.now().time > t0;
            if fresh {
                check_consistent(&s.rec_now(), &[0], &format!("{} after step to report {k}", c.c.sol.name()))?;
            }
        }
    } else {
        s.walk_();
    }
    let r = s.rec();
    r.complete(sched.len())?;
    check_consistent(&r, &r.fresh(t0), &format!("{} record", c.c.sol.name()))?;
    if s.now().time > t0 {
        check_consistent(&s.rec_now(), &[0], &format!("{} final state", c.c.sol.name()))?;
    }
    // what is current at the end is what was recorded last
    if let Some(k) = r.time.len().checked_sub(1) {
        ensure!(s.rec_now().at(0) == r.at(k), "{}: the last record differs from the final temperatures", c.c.sol.name());
        ensure!(r.q.iter().zip(s.conn_now()).all(|(q, n)| q[k] == n), "{}: the last record differs from the final flows", c.c.sol.name());
    }
    let nt = r.fresh(t0).iter().any(|k| r.q.iter().any(|q| q[*k] != 0.));
    Ok(c.c.label(Info::nt(nt)).label(if c.manual { "stepped by hand" } else { "walked" }).count("records", r.time.len() as u64))
}
fn check_records(c: &Driving) -> Verdict {
    let mut sched = c.c.sched();
    if c.c.w.t0() >= *sched.last().unwrap() {
        sched.push(sched[0] + if is_bc(&c.c.w) { 0.1 } else { 0.1 * c.c.u.ts.max(1e-6 * sched[0].abs()) });
    }
    with_thermal!(&c.c.w, c.c.sol.solver(), sched.clone(), s => { let _ = &mut s; drive(s, c, &sched) })
}
fn walked<S: Sim>(mut s: S) -> (Vec<f64>, Vec<Vec<f64>>) {
    s.walk_();
    (s.sysrec().time.clone(), s.series().into_iter().cloned().collect())
}
/// generic systems: the recorded derivative is f at the recorded time and states
fn check_ode_records(c: &(Prob, Sol, Vec<f64>, bool, (f64, f64), f64)) -> Verdict {
    let (p, sol, gaps, at_start, u, by) = c;
    let p = &p.clone().late(*by).scaled(*u);
    let gaps: Vec<f64> = gaps.iter().map(|g| g * u.1).collect();
    let sol = &match sol {
        Sol::Fixed(m, dt) => Sol::Fixed(*m, dt * u.1),
        Sol::Adapt(m, a) => Sol::Adapt(*m, a.scaled(*u)),
    };
    let w = What::Ode(p.clone());
    let sched = cheap(&w, sol, schedule(p.t0, &gaps, *at_start), 400);
    let f = |t: f64, x: &[f64]| p.rhs.eval(t, x);
    let (time, series) = with_sys!(&w, sol.solver(), sched.clone(), s => walked(s));
    let n = p.rhs.n;
    for k in 0..time.len() {
        if time[k] <= p.t0 {
            continue;
        }
        let x: Vec<f64> = (0..n).map(|i| series[2 * i][k]).collect();
        let d = f(time[k], &x);
        let s: f64 = p.rhs.terms.iter().map(|m| m.c.abs() * (1. + (m.a * time[k]).abs() + m.w.iter().zip(&x).map(|(w, x)| (w * x).abs()).sum::<f64>())).sum();
        for i in 0..n {
            let g = series[2 * i + 1][k];
            ensure!(close(g, d[i], 1e-12 * s), "{}: at t={} the recorded rate {i} is {g}, but f at the recorded states is {}", sol.name(), time[k], d[i]);
        }
    }
    Ok(Info::nt(p.rhs.lip() * u.1 > 1e-3).label_if(*u != (1., 1.), "other units").label_if(*by != 0., "late start").label(sol.name()).label_if(p.rhs.time_dep(), "time dependent"))
}
pub fn c11(ctx: &mut Ctx) {
    ctx.assume("records written after a step (the entry at the start time precedes every step)");
    ctx.sub(
        "networks",
        "example systems and random networks, arbitrary stale flows and rates at the start, walked or stepped by hand, any solver: every record after a step has q = h (Ta - Tb) and c dT/dt = net inflow; non-trivial: heat flows",
        ctx.n(120_000, 2_400_000),
        driving,
        check_records,
    );
    ctx.sub(
        "odes",
        "generic systems, autonomous or not: recorded derivatives are those of the recorded time and states; non-trivial: right-hand side depends on the states",
        ctx.n(60_000, 1_200_000),
        || (prob(2.0), sols(), gaps(6, 2.), any::<bool>(), units(), delay()).boxed(),
        check_ode_records,
    );
}

// ---------------------------------------------------------------- C21 with the library's own components
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ends {
    /// (is a reservoir, temperature, rate, capacitance)
    a: (bool, f64, f64, f64),
    b: (bool, f64, f64, f64),
    h: f64,
    stale: f64,
}
fn wide() -> BoxedStrategy<f64> {
    prop_oneof![3 => num(50.), 1 => Just(0.), 2 => (logu(1e-100, 1e100), any::<bool>()).prop_map(|(v, n)| if n { -v } else { v })].boxed()
}
fn ends() -> BoxedStrategy<Ends> {
    let end = || (any::<bool>(), wide(), wide(), prop_oneof![capac(), logu(1e-9, 1e9)]);
    (end(), end(), prop_oneof![3 => hval(), 1 => Just(0.), 1 => wide()], wide(), prop_oneof![2 => Just(None), 2 => (0.0f64..18., any::<bool>()).prop_map(Some)])
        .prop_map(|(a, mut b, h, stale, near)| {
            if let Some((d, neg)) = near {
                // ends close to each other
                b.1 = a.1 + (if neg { -1. } else { 1. }) * 10f64.powf(-d) * if d > 9. { a.1.abs() } else { 1. };
            }
            Ends { a, b, h, stale }
        })
        .boxed()
}
fn check_ends(c: &Ends) -> Verdict {
    macro_rules! pair {
        ($a:expr, $b:expr) => {{
            struct Two<A, B> {
                a: A,
                b: B,
                q: Conductance,
            }
            let mut s = Two { a: $a, b: $b, q: cond(c.h) };
            s.q.state.q = c.stale;
            let s = &mut s;
            dess::connect_states!(s, (a, b, q));
            let q = (s.q.state.q, s.q.flow(), s.a.state(), s.b.state());
            let d0 = (s.a.deriv(), s.b.deriv());
            dess::update_derivs!(s, (a, b, q));
            (q, d0, (s.a.deriv(), s.b.deriv()), (s.a.state(), s.b.state()), s.q.flow())
        }};
    }
    let m = |e: &(bool, f64, f64, f64)| {
        let mut m = mass(e.3, e.1);
        m.state.dtemp = e.2;
        m
    };
    let r = |e: &(bool, f64, f64, f64)| {
        let mut m = reservoir(e.1);
        m.state.dtemp = e.2;
        m
    };
    let ((q, flow, ta, tb), d0, d1, after, flow1) = match (c.a.0, c.b.0) {
        (false, false) => pair!(m(&c.a), m(&c.b)),
        (false, true) => pair!(m(&c.a), r(&c.b)),
        (true, false) => pair!(r(&c.a), m(&c.b)),
        (true, true) => pair!(r(&c.a), r(&c.b)),
    };
    let want = c.h * (c.a.1 - c.b.1);
    let scale = (c.h * c.a.1).abs() + (c.h * c.b.1).abs();
    if !scale.is_finite() {
        return Ok(Info::default());
    }
    ensure!(close(q, want, 4. * f64::EPSILON * scale + 1e-300), "connecting ends at {} and {} with conductance {} gives flow {q}, not {want}", c.a.1, c.b.1, c.h);
    ensure!(flow == q && flow1 == q && (ta, tb) == (c.a.1, c.b.1) && after == (ta, tb), "flow() is {flow}, then {flow1}, with recorded flow {q}; ends at {} and {} are at {ta} and {tb}, then {after:?}", c.a.1, c.b.1);
    ensure!(d0 == (c.a.2, c.b.2), "connecting changed rates {:?} to {d0:?}", (c.a.2, c.b.2));
    for (who, e, d0, d1, sign) in [("first", &c.a, d0.0, d1.0, -1.), ("second", &c.b, d0.1, d1.1, 1.)] {
        let gain = if e.0 { 0. } else { sign * q / e.3 };
        let want = d0 + gain;
        if want.is_finite() {
            ensure!(close(d1, want, 4. * f64::EPSILON * (d0.abs() + gain.abs()) + 1e-300), "flow {q} out of the first into the second: the {who} end (capacitance {}, rate {d0}) gets rate {d1}, not {want}", if e.0 { f64::INFINITY } else { e.3 });
        }
    }
    Ok(Info::nt(want != 0.).label(if c.a.0 || c.b.0 { "with a reservoir" } else { "masses" }).label_if(want != 0. && (c.a.1 - c.b.1).abs() < 1e-6 * (1. + c.a.1.abs()), "nearly equal ends"))
}
pub fn c21(ctx: &mut Ctx) {
    ctx.sub(
        "components",
        "two of the library's own masses or reservoirs and a conductance, temperatures from equal over nearly equal to 1e100: flow h (Ta - Tb), rates changed by the flow over the capacitance; non-trivial: heat flows",
        ctx.n(100_000, 2_000_000),
        ends,
        check_ends,
    );
}

// ---------------------------------------------------------------- C12
fn check_reservoirs(c: &TCase) -> Verdict {
    let What::Net(n, t0) = &c.w else { unreachable!() };
    let sched = c.sched();
    let (r, now) = run(&c.w, &c.sol, &sched)?;
    let r = join(&r, &now);
    let mut heat = false;
    for k in 0..r.time.len() {
        for i in [6, 7] {
            ensure!(r.temp[i][k] == n.temps[i], "{}: reservoir at {} is at {} at t={}", c.sol.name(), n.temps[i], r.temp[i][k], r.time[k]);
            ensure!(r.dtemp[i][k] == 0. || r.time[k] <= *t0, "{}: reservoir changes at rate {}", c.sol.name(), r.dtemp[i][k]);
        }
        heat |= r.conns.iter().zip(&r.q).any(|(c, q)| (c.0 > 5 || c.1 > 5) && q[k] != 0.);
    }
    Ok(c.label(Info::nt(heat)))
}
fn check_boundary(c: &TCase) -> Verdict {
    let What::Chain(ch, t0) = &c.w else { unreachable!() };
    let mut c = c.clone();
    if let Sol::Adapt(_, ad) = &mut c.sol {
        ad.save = true;
    }
    let sched = cheap(&c.w, &c.sol, schedule(*t0, &c.gaps, c.at_start), 120);
    let (r, now) = run(&c.w, &c.sol, &sched)?;
    let all = join(&r, &now);
    for k in all.fresh(*t0) {
        let t = all.time[k];
        let want = bc_temp(t);
        ensure!(close(all.temp[0][k], want, 1e-12 * (1. + t * t) * (100. + want.abs())), "{}: at t={t} the reservoir is at {}, its boundary condition prescribes {want}", c.sol.name(), all.temp[0][k]);
        ensure!(all.dtemp[0][k] == 0., "{}: at t={t} the reservoir has rate {}", c.sol.name(), all.dtemp[0][k]);
    }
    // the masses: composition of the method's steps on the driven equations
    let f = ch.f();
    let x0 = ch.temps[1..].to_vec();
    let want: Vec<Vec<f64>> = match &c.sol {
        Sol::Fixed(m, dt) => crate::p_fixed::ref_walk(&f, *m, *dt, *t0, &x0, &sched).0,
        Sol::Adapt(m, _) => {
            let tab = m.tab();
            let (mut t, mut x, mut out, mut it) = (*t0, x0.clone(), vec![], r.steps.iter());
            for tr in &sched {
                while t < *tr {
                    let Some(s) = it.next() else { return Err(format!("recorded steps end at {t}, before the report at {tr}")) };
                    let e = tab.step(&f, t, &x, s.dt);
                    for i in 0..2 {
                        x[i] += e.delta[i];
                    }
                    t += s.dt;
                }
                out.push(x.clone());
            }
            out
        }
    };
    let mut moved = 0f64;
    for k in 0..r.time.len() {
        let scale = maxabs(&ch.temps) + 10. + 3. * (-4. * t0.min(0.)).exp();
        for i in 0..2 {
            let g = r.temp[i + 1][k];
            // rounding in t is amplified by the boundary's slope 600 t
            ensure!(
                close(g, want[k][i], 1e-10 * scale * (1. + sched[k] * sched[k])),
                "{}: at t={} mass {} is at {g}, the driven equations give {}", c.sol.name(), r.time[k], i + 2, want[k][i]
            );
            moved = moved.max((g - x0[i]).abs());
        }
    }
    Ok(Info::nt(moved > 1e-6).label(c.sol.name()))
}
/// small steps: the driven trajectory approaches the true solution
fn check_driven_truth(c: &(Chain, f64, bool, u8)) -> Verdict {
    let (ch, span, rk45, m) = c;
    let f = ch.f();
    let sol = if *rk45 {
        Sol::Adapt(if m % 2 == 0 { AM::Rk45 } else { AM::Rk23 }, Ad { dt_init: 1e-3, dt_max: 0.002, max_iter: 40, rtol: 1e-7, atol: 1e-9, save: false, save_states: false })
    } else {
        Sol::Fixed([FM::Rk4, FM::Heun, FM::Midpoint, FM::Ralston][*m as usize % 4], span / 1500.)
    };
    let sched = vec![span / 2., *span];
    let (r, _) = run(&What::Chain(ch.clone(), 0.), &sol, &sched)?;
    let want = tab::accurate(&f, 0., &ch.temps[1..], *span, 4000);
    for i in 0..2 {
        let g = r.temp[i + 1][1];
        let tol = 2e-3 * (1. + maxabs(&ch.temps)) * (ch.diag() * 1e-2).max(1e-2);
        ensure!(close(g, want[i], tol), "{}: mass {} at t={span} is at {g}, the true driven solution is {} (tolerance {tol:e})", sol.name(), i + 2, want[i]);
    }
    Ok(Info::nt(true).label(sol.name()))
}
pub fn c12(ctx: &mut Ctx) {
    ctx.assume("boundary systems start at t in [-1, 3]; spans up to 4");
    ctx.sub(
        "constant",
        "random networks with two reservoirs, any solver, steps up to three times the stability limit: the reservoirs never move; non-trivial: heat flows through a reservoir",
        ctx.n(60_000, 1_200_000),
        || {
            prop_oneof![3 => tcase(Kind::Autonomous, 1.), 1 => tcase(Kind::Autonomous, 3.)]
                .prop_filter_map("chain", |c| if matches!(c.w, What::Net(..)) { Some(c) } else { None })
                .boxed()
        },
        check_reservoirs,
    );
    ctx.sub(
        "boundary",
        "the boundary example with random parameters, any solver and schedule: reservoir temperature at every record after a step is the prescribed function of its time; masses equal the composition of the method's steps on the driven equations; non-trivial: masses move",
        ctx.n(80_000, 1_600_000),
        || tcase(Kind::Driven, 1.),
        check_boundary,
    );
    ctx.sub(
        "truth",
        "the boundary example with small steps or tight tolerances: masses agree with an accurate solution of the driven equations; non-trivial: always",
        ctx.n(1_500, 30_000),
        || (chain_of(true), 0.2f64..1.2, any::<bool>(), any::<u8>()).boxed(),
        check_driven_truth,
    );
}

// ---------------------------------------------------------------- C23
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sym {
    /// reverse the chain
    Mirror,
    /// relabel the masses of a network
    Permute(Vec<usize>),
    /// add to all temperatures
    Shift(f64),
    /// multiply temperatures (and the absolute tolerance) by a power of two
    Scale(i32, bool),
    /// multiply capacitances and conductances by a power of two
    Size(i32),
    /// multiply times, divide conductances by a power of two
    Clock(i32),
    /// start later
    Later(f64),
    /// linear combination of this and other initial temperatures
    Combine(Vec<f64>, f64, f64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SymCase {
    c: TCase,
    sym: Sym,
}
fn sym_case() -> BoxedStrategy<SymCase> {
    let any_sys = || tcase(Kind::Autonomous, 1.);
    let chain_only = || tcase(Kind::Autonomous, 1.).prop_filter_map("net", |c| if matches!(c.w, What::Chain(..)) { Some(c) } else { None });
    let net_only = || tcase(Kind::Autonomous, 1.).prop_filter_map("chain", |c| if matches!(c.w, What::Net(..)) { Some(c) } else { None });
    let p = || prop_oneof![3 => 1i32..12, 3 => -12i32..0, 1 => 12i32..40, 1 => -40i32..-11];
    prop_oneof![
        2 => chain_only().prop_map(|c| SymCase { c, sym: Sym::Mirror }),
        2 => (net_only(), Just((0..6).collect::<Vec<usize>>()).prop_shuffle()).prop_map(|(c, v)| SymCase { c, sym: Sym::Permute(v) }),
        2 => (any_sys(), num(200.)).prop_map(|(c, s)| SymCase { c, sym: Sym::Shift(s) }),
        2 => (any_sys(), p(), any::<bool>()).prop_map(|(c, k, neg)| SymCase { c, sym: Sym::Scale(k, neg) }),
        2 => (tcase(Kind::Any, 1.), p()).prop_map(|(c, k)| SymCase { c, sym: Sym::Size(k) }),
        2 => (any_sys(), p()).prop_map(|(c, k)| SymCase { c, sym: Sym::Clock(k) }),
        2 => (any_sys(), num(5.)).prop_map(|(c, s)| SymCase { c, sym: Sym::Later(s) }),
        2 => (any_sys().prop_filter_map("adaptive", |c| if matches!(c.sol, Sol::Fixed(..)) { Some(c) } else { None }), prop::collection::vec(temp(), 8), num(3.), num(3.))
            .prop_map(|(c, t, a, b)| SymCase { c, sym: Sym::Combine(t, a, b) }),
    ]
    .boxed()
}
fn temps_mut(w: &mut What) -> Vec<&mut f64> {
    match w {
        What::Chain(c, _) => c.temps.iter_mut().collect(),
        What::Net(n, _) => n.temps.iter_mut().collect(),
        _ => unreachable!(),
    }
}
/// were all decisions of an adaptive run clear of rounding?
fn clear_cut(c: &TCase, r: &Rec, scale: f64) -> bool {
    let Sol::Adapt(_, ad) = &c.sol else { return true };
    let mut sched = c.sched();
    sched.retain(|t| *t > c.w.t0());
    r.steps.iter().all(|s| {
        let err = s.norm_err.unwrap_or(0.);
        let noise = 1e-14 * scale;
        // a trial that was rejected had to miss by a margin as well: unknown, so only first-trial steps or errors far off
        let far = |a: f64, b: f64, n: f64| (a - b).abs() > 1e-5 * b + 10. * n;
        let rel_noise = s.norm_err_rel.map_or(0., |r| if err > 0. { r * noise / err } else { 1. });
        err > 1e4 * noise
            && far(err, ad.atol, noise)
            && s.norm_err_rel.is_some_and(|r| far(r, ad.rtol, rel_noise))
            && s.n_iter == 1
            && sched.iter().all(|t| (t - s.t_curr - s.dt).abs() < 4e-16 * t.abs() || (t - s.t_curr - s.dt).abs() > 1e-7 * s.dt)
            && s.dt > 1e-7 * c.u.ts
    })
}
fn check_sym(c: &SymCase) -> Verdict {
    let mut a = c.c.clone();
    if let Sol::Adapt(_, ad) = &mut a.sol {
        ad.save = true;
    }
    let sched = { let t0 = a.w.t0(); let mut s = schedule(t0, &a.gaps, a.at_start); s.dedup(); cheap(&a.w, &a.sol, s, 120) };
    let (mut w, mut sol, mut sb) = (a.w.clone(), a.sol, sched.clone());
    let (ra, _) = run(&a.w, &a.sol, &sched)?;
    let mut scale = maxabs(&temps_mut(&mut a.w.clone()).iter().map(|t| **t).collect::<Vec<_>>()) + 1e-6 * a.u.xs;
    if matches!(&a.w, What::Chain(c, _) if c.bc) {
        scale = scale.max(13.);
    }
    let steps = a.est_steps(&ra);
    let base = 1e-13 * steps;
    let n = ra.temp.len();
    let label;
    // expected value of (node, record) in the second run
    let mut node: Vec<usize> = (0..n).collect();
    let (mut tmul, mut tadd, mut dmul, mut qmul, mut exact) = (1., 0., 1., 1., false);
    let (mut tm, mut tsh) = (1., 0.);
    match &c.sym {
        Sym::Mirror => {
            label = "mirror";
            let What::Chain(ch, _) = &mut w else { unreachable!() };
            ch.c.reverse();
            ch.h.reverse();
            ch.temps.reverse();
            node.reverse();
        }
        Sym::Permute(v) => {
            label = "permute";
            let What::Net(p, _) = &mut w else { unreachable!() };
            let mut q = p.clone();
            for i in 0..6 {
                q.c[v[i]] = p.c[i];
                q.temps[v[i]] = p.temps[i];
            }
            for x in q.conns.iter_mut() {
                let m = |i: usize| if i < 6 { v[i] } else { i };
                *x = (m(x.0), m(x.1), x.2);
            }
            *p = q;
            for i in 0..6 {
                node[v[i]] = i;
            }
        }
        Sym::Shift(s) => {
            label = "shift";
            let s = &(s * a.u.xs);
            temps_mut(&mut w).into_iter().for_each(|t| *t += s);
            tadd = *s;
            scale += s.abs();
        }
        Sym::Scale(k, neg) => {
            label = "scale";
            tmul = 2f64.powi(*k) * if *neg { -1. } else { 1. };
            temps_mut(&mut w).into_iter().for_each(|t| *t *= tmul);
            if let Sol::Adapt(_, ad) = &mut sol {
                ad.atol *= tmul.abs();
            }
            dmul = tmul;
            qmul = tmul;
            exact = true;
        }
        Sym::Size(k) => {
            label = "size";
            let f = 2f64.powi(*k);
            match &mut w {
                What::Chain(ch, _) => {
                    ch.c.iter_mut().for_each(|c| *c *= f);
                    ch.h.iter_mut().for_each(|c| *c *= f);
                }
                What::Net(p, _) => {
                    p.c.iter_mut().for_each(|c| *c *= f);
                    p.conns.iter_mut().for_each(|c| c.2 *= f);
                }
                _ => {}
            }
            qmul = f;
            exact = true;
        }
        Sym::Clock(k) => {
            label = "clock";
            let f = 2f64.powi(*k);
            match &mut w {
                What::Chain(ch, t) => {
                    ch.h.iter_mut().for_each(|c| *c /= f);
                    *t *= f;
                }
                What::Net(p, t) => {
                    p.conns.iter_mut().for_each(|c| c.2 /= f);
                    *t *= f;
                }
                _ => {}
            }
            match &mut sol {
                Sol::Fixed(_, dt) => *dt *= f,
                Sol::Adapt(_, ad) => {
                    ad.dt_init *= f;
                    ad.dt_max *= f;
                }
            }
            sb.iter_mut().for_each(|t| *t *= f);
            tm = f;
            dmul = 1. / f;
            qmul = 1. / f;
            exact = true;
        }
        Sym::Later(s) => {
            label = "later";
            let s = &(s * a.u.ts);
            match &mut w {
                What::Chain(_, t) | What::Net(_, t) => *t += s,
                _ => {}
            }
            sb.iter_mut().for_each(|t| *t += s);
            tsh = *s;
        }
        Sym::Combine(t2, ca, cb) => {
            let t2 = &t2.iter().map(|t| t * a.u.xs).collect::<Vec<_>>();
            let mut w2 = a.w.clone();
            for (x, y) in temps_mut(&mut w2).into_iter().zip(t2) {
                *x = *y;
            }
            for (x, y) in temps_mut(&mut w).into_iter().zip(t2) {
                *x = ca * *x + cb * y;
            }
            let (rb, _) = run(&w2, &a.sol, &sched)?;
            let (rc, _) = run(&w, &a.sol, &sched)?;
            let s = (scale + maxabs(t2)) * (ca.abs() + cb.abs() + 1.);
            for k in ra.fresh(a.w.t0()) {
                for i in 0..n {
                    let want = ca * ra.temp[i][k] + cb * rb.temp[i][k];
                    ensure!(
                        close(rc.temp[i][k], want, base * s),
                        "{}: the solution from combined temperatures has node {i} at {} at t={}, the combined solutions give {want}", a.sol.name(), rc.temp[i][k], ra.time[k]
                    );
                }
                for j in 0..ra.q.len() {
                    let want = ca * ra.q[j][k] + cb * rb.q[j][k];
                    ensure!(close(rc.q[j][k], want, base * s * ra.conns[j].2 * 2.), "{}: flow {j} is {}, the combined solutions give {want}", a.sol.name(), rc.q[j][k]);
                }
            }
            return Ok(Info::nt(*ca != 0. && *cb != 0.).label("superpose").label(a.sol.name()));
        }
    }
    let (rb, _) = run(&w, &sol, &sb)?;
    let mut b = a.clone();
    b.w = w;
    b.sol = sol;
    let settled = exact || clear_cut(&a, &ra, scale);
    if !settled {
        return Ok(Info::nt(false).label("decisions too close to call").label(label));
    }
    ensure!(ra.time.len() == rb.time.len(), "{label}: {} records became {}", ra.time.len(), rb.time.len());
    // perturbations of adaptive step lengths by rounding act on the solution through the truncation error only
    let tol = match &a.sol {
        Sol::Fixed(..) => base * scale * tmul.abs(),
        Sol::Adapt(..) => (base.max(1e-12 * steps) + 1e-9) * scale * tmul.abs(),
    };
    let d = diag(&a.w);
    for k in ra.fresh(a.w.t0()) {
        let tt = ra.time[k] * tm + tsh;
        ensure!(close(rb.time[k], tt, 4e-15 * (a.u.ts * tm + tt.abs() + tsh.abs())), "{label}: record {k} at {} instead of {tt}", rb.time[k]);
        for i in 0..n {
            let want = ra.temp[node[i]][k] * tmul + tadd;
            ensure!(
                close(rb.temp[i][k], want, tol),
                "{label} ({}): node {i} at t={} is at {}, the transformed original run gives {want} (difference {:e})", a.sol.name(), rb.time[k], rb.temp[i][k], rb.temp[i][k] - want
            );
            let want = ra.dtemp[node[i]][k] * dmul;
            ensure!(close(rb.dtemp[i][k], want, 4. * tol * d * (dmul / tmul).abs()), "{label} ({}): rate of node {i} is {}, expected {want}", a.sol.name(), rb.dtemp[i][k]);
        }
        // flows: by connection, oriented
        for (j, (x, y, h)) in rb.conns.iter().enumerate() {
            let (p, q) = (node[*x], node[*y]);
            let Some((jj, sgn)) = ra.conns.iter().enumerate().find_map(|(m, (u, v, _))| if (*u, *v) == (p, q) { Some((m, 1.)) } else if (*u, *v) == (q, p) { Some((m, -1.)) } else { None }) else {
                continue;
            };
            let want = sgn * ra.q[jj][k] * qmul;
            ensure!(close(rb.q[j][k], want, 2. * tol * h.abs() + 1e-300), "{label} ({}): flow {j} at t={} is {}, expected {want}", a.sol.name(), rb.time[k], rb.q[j][k]);
        }
    }
    let moved = (0..n).any(|i| ra.temp[i].first() != ra.temp[i].last());
    let nontrivial = moved && ra.time.len() > 1;
    Ok(a.label(Info::nt(nontrivial)).label(label))
}
pub fn c23(ctx: &mut Ctx) {
    ctx.assume("monotone steps (at most the stability limit of Euler); for transformations that are not exact in floating point, adaptive runs whose accept/reject decisions are close to a tolerance are set aside");
    ctx.sub(
        "symmetries",
        "random example systems and networks run twice, related by mirroring, relabelling, temperature shift or scale, size, clock rate, start time, or superposition; non-trivial: temperatures move and the comparison was made",
        ctx.n(160_000, 3_000_000),
        sym_case,
        check_sym,
    );
}
