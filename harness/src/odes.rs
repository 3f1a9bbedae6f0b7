//! Systems defined the way a user defines them (`#[solver]`, `#[use_state]`, ...), with a right-hand side
//! chosen at run time, plus the strategies that generate them.
use crate::common::count_eval;
use crate::lits;
use crate::tab;
use dess::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ components
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
pub struct CellState {
    pub x: f64,
    pub dx: f64,
}

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Cell {
    pub c: f64,
    pub state: CellState,
    pub history: CellStateHistoryVec,
}
impl HasState for Cell {
    fn state(&self) -> f64 {
        self.state.x
    }
    fn set_state(&mut self, val: f64) {
        self.state.x = val;
    }
    fn deriv(&self) -> f64 {
        self.state.dx
    }
    fn set_deriv(&mut self, val: f64) {
        self.state.dx = val;
    }
    fn storage(&self) -> f64 {
        self.c
    }
}

// ------------------------------------------------------------------ right-hand sides
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Serialize, Deserialize)]
pub enum G {
    Id,
    Sin,
    Tanh,
    /// u^2 / (1 + u^2): smooth, bounded, Lipschitz < 1
    Sat,
    /// 1 from 0 on: a source that is switched on
    Step,
}
#[derive(Clone, Debug, PartialEq, PartialOrd, Serialize, Deserialize)]
pub struct Term {
    pub out: usize,
    pub c: f64,
    pub g: G,
    pub w: Vec<f64>,
    pub a: f64,
    pub phi: f64,
}
/// d_out += c * g(w.x + a*t + phi)
#[derive(Clone, Debug, PartialEq, PartialOrd, Serialize, Deserialize, Default)]
pub struct Rhs {
    pub n: usize,
    pub terms: Vec<Term>,
}
impl Rhs {
    pub fn eval(&self, t: f64, x: &[f64]) -> Vec<f64> {
        let mut d = vec![0.; x.len()];
        for m in &self.terms {
            let u = m.w.iter().zip(x).map(|(w, x)| w * x).sum::<f64>() + m.a * t + m.phi;
            let v = match m.g {
                G::Id => u,
                G::Sin => u.sin(),
                G::Tanh => u.tanh(),
                G::Sat => u * u / (1. + u * u),
                G::Step => (u >= 0.) as u8 as f64,
            };
            d[m.out] += m.c * v;
        }
        d
    }
    /// Lipschitz constant in x, max norm
    pub fn lip(&self) -> f64 {
        let mut l = vec![0.; self.n.max(1)];
        for m in &self.terms {
            l[m.out] += m.c.abs() * m.w.iter().map(|w| w.abs()).sum::<f64>();
        }
        l.into_iter().fold(0., f64::max)
    }
    pub fn time_dep(&self) -> bool {
        self.terms.iter().any(|m| m.a != 0. && m.c != 0.)
    }
    pub fn nonlinear(&self) -> bool {
        self.terms.iter().any(|m| m.g != G::Id && m.c != 0. && m.w.iter().any(|w| *w != 0.))
    }
    /// scale so that lip <= l
    pub fn limited(mut self, l: f64) -> Self {
        let k = self.lip();
        if k > l {
            for m in &mut self.terms {
                m.c *= l / k;
            }
        }
        self
    }
}

// ------------------------------------------------------------------ solver choice
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ad {
    pub dt_init: f64,
    pub dt_max: f64,
    pub max_iter: u8,
    pub rtol: f64,
    pub atol: f64,
    pub save: bool,
    pub save_states: bool,
}
impl Ad {
    pub fn conf(&self) -> AdaptiveSolverConfig {
        let mut c = AdaptiveSolverConfig::default();
        c.dt_max = self.dt_max;
        c.max_iter = self.max_iter;
        c.rtol = self.rtol;
        c.atol = self.atol;
        c.save = self.save;
        c.save_states = self.save_states;
        c.state.dt = self.dt_init;
        c
    }
    pub fn scaled(mut self, (xs, ts): (f64, f64)) -> Self {
        self.dt_init *= ts;
        self.dt_max *= ts;
        self.atol *= xs;
        self
    }
    pub fn saving(mut self) -> Self {
        self.save = true;
        self.save_states = true;
        self
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FM {
    Euler,
    Heun,
    Midpoint,
    Ralston,
    Rk4,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum AM {
    Rk23,
    Rk45,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sol {
    Fixed(FM, f64),
    Adapt(AM, Ad),
}
impl FM {
    pub fn tab(self) -> tab::Tab {
        match self {
            FM::Euler => tab::euler(),
            FM::Heun => tab::heun(),
            FM::Midpoint => tab::midpoint(),
            FM::Ralston => tab::ralston(),
            FM::Rk4 => tab::rk4(),
        }
    }
    pub fn solver(self, dt: f64) -> SolverTypes {
        match self {
            FM::Euler => SolverTypes::EulerFixed { dt },
            FM::Heun => SolverTypes::HeunsMethod { dt },
            FM::Midpoint => SolverTypes::MidpointMethod { dt },
            FM::Ralston => SolverTypes::RalstonsMethod { dt },
            FM::Rk4 => SolverTypes::RK4Fixed { dt },
        }
    }
    pub const ALL: [FM; 5] = [FM::Euler, FM::Heun, FM::Midpoint, FM::Ralston, FM::Rk4];
}
impl AM {
    pub fn tab(self) -> tab::Tab {
        match self {
            AM::Rk23 => tab::bogacki_shampine(),
            AM::Rk45 => tab::cash_karp(),
        }
    }
    pub fn solver(self, ad: &Ad) -> SolverTypes {
        match self {
            AM::Rk23 => SolverTypes::RK23BogackiShampine(Box::new(ad.conf())),
            AM::Rk45 => SolverTypes::RK45CashKarp(Box::new(ad.conf())),
        }
    }
}
impl Sol {
    pub fn solver(&self) -> SolverTypes {
        match self {
            Sol::Fixed(m, dt) => m.solver(*dt),
            Sol::Adapt(m, ad) => m.solver(ad),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Sol::Fixed(m, _) => m.tab().name,
            Sol::Adapt(m, _) => m.tab().name,
        }
    }
}

// ------------------------------------------------------------------ systems
pub trait OdeSys: SolverVariantMethods + Clone + PartialEq + std::fmt::Debug + Serialize + for<'a> Deserialize<'a> {
    fn build(rhs: &Rhs, x0: &[f64], t0: f64, solver: SolverTypes, t_report: Vec<f64>) -> Self;
    fn walk_(&mut self);
    fn solve_step_(&mut self);
    fn save_(&mut self);
    fn cells(&self) -> Vec<&Cell>;
    fn cells_mut(&mut self) -> Vec<&mut Cell>;
    fn xs(&self) -> Vec<f64> {
        self.cells().iter().map(|c| c.state.x).collect()
    }
    fn dxs(&self) -> Vec<f64> {
        self.cells().iter().map(|c| c.state.dx).collect()
    }
    fn sys_state(&mut self) -> &mut SystemState;
    fn hist(&self) -> &SystemStateHistoryVec;
    fn t_report_(&mut self) -> &mut Vec<f64>;
    fn solver_(&mut self) -> &mut SolverTypes;
    fn rhs_(&mut self) -> &mut Rhs;
    fn conf(&self) -> Option<&AdaptiveSolverConfig>;
}

macro_rules! ode_sys {
    ($name:ident, $n:expr, [$($f:ident),+]) => {
        #[solver(
            fn update_derivs(&mut self) {
                count_eval();
                self.reset_derivs();
                let x = [$(self.$f.state.x),+];
                let d = self.rhs.eval(self.state.time, &x);
                let mut it = d.into_iter();
                $( self.$f.step_deriv(it.next().unwrap()); )+
            }
        )]
        #[derive(HistoryMethods, BareClone, Default)]
        #[common_derives]
        pub struct $name {
            pub solver_type: SolverTypes,
            $(#[use_state] pub $f: Cell,)+
            pub rhs: Rhs,
            pub t_report: Vec<f64>,
            pub state: SystemState,
            pub history: SystemStateHistoryVec,
        }
        impl OdeSys for $name {
            fn build(rhs: &Rhs, x0: &[f64], t0: f64, solver: SolverTypes, t_report: Vec<f64>) -> Self {
                let mut s = Self { solver_type: solver, rhs: rhs.clone(), t_report, ..Default::default() };
                s.state.time = t0;
                for (c, x) in s.cells_mut().into_iter().zip(x0) {
                    c.state.x = *x;
                    c.c = 1.0;
                }
                s
            }
            fn walk_(&mut self) { self.walk() }
            fn solve_step_(&mut self) { self.solve_step() }
            fn save_(&mut self) { self.save_state() }
            fn cells(&self) -> Vec<&Cell> { vec![$(&self.$f),+] }
            fn cells_mut(&mut self) -> Vec<&mut Cell> { vec![$(&mut self.$f),+] }
            fn sys_state(&mut self) -> &mut SystemState { &mut self.state }
            fn hist(&self) -> &SystemStateHistoryVec { &self.history }
            fn t_report_(&mut self) -> &mut Vec<f64> { &mut self.t_report }
            fn solver_(&mut self) -> &mut SolverTypes { &mut self.solver_type }
            fn rhs_(&mut self) -> &mut Rhs { &mut self.rhs }
            fn conf(&self) -> Option<&AdaptiveSolverConfig> {
                match &self.solver_type {
                    SolverTypes::RK23BogackiShampine(c) => Some(c),
                    SolverTypes::RK45CashKarp(c) => Some(c),
                    _ => None,
                }
            }
        }
    };
}
ode_sys!(Ode1, 1, [a]);
ode_sys!(Ode2, 2, [a, b]);
ode_sys!(Ode3, 3, [a, b, c]);
ode_sys!(Ode4, 4, [a, b, c, d]);
ode_sys!(Ode5, 5, [a, b, c, d, e]);
ode_sys!(Ode7, 7, [a, b, c, d, e, f, g]);
ode_sys!(Ode10, 10, [a, b, c, d, e, f, g, h, i, j]);
ode_sys!(Ode21, 21, [a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s, t, u]);
ode_sys!(Ode67, 67, [
    a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s, t, u, v, w, x_, y, z, aa, ab, ac, ad, ae, af, ag, ah, ai, aj, ak, al, am, an, ao,
    ap, aq, ar, as_, at, au, av, aw, ax, ay, az, ba, bb, bc, bd, be, bf, bg, bh, bi, bj, bk, bl, bm, bn, bo
]);
pub const DIMS: [usize; 9] = [1, 2, 3, 4, 5, 7, 10, 21, 67];

/// run `$body` with `$S` bound to the system type of dimension `$n`
#[macro_export]
macro_rules! with_ode {
    ($n:expr, $S:ident => $body:expr) => {
        match $n {
            1 => { type $S = $crate::odes::Ode1; $body }
            2 => { type $S = $crate::odes::Ode2; $body }
            3 => { type $S = $crate::odes::Ode3; $body }
            4 => { type $S = $crate::odes::Ode4; $body }
            5 => { type $S = $crate::odes::Ode5; $body }
            7 => { type $S = $crate::odes::Ode7; $body }
            10 => { type $S = $crate::odes::Ode10; $body }
            21 => { type $S = $crate::odes::Ode21; $body }
            67 => { type $S = $crate::odes::Ode67; $body }
            _ => unreachable!(),
        }
    };
}

// ------------------------------------------------------------------ strategies
/// a finite number of ordinary magnitude, with simple values favoured
pub fn num(mag: f64) -> BoxedStrategy<f64> {
    let base = prop_oneof![
        2 => prop::sample::select(vec![0.0, 1.0, -1.0, 0.5, 2.0, -0.25]).prop_map(move |v: f64| if v.abs() <= mag { v } else { v * mag / 2.0 }),
        6 => -mag..mag,
        1 => (-3f64..0f64, any::<bool>()).prop_map(move |(e, s)| mag * 10f64.powf(e) * if s { 1. } else { -1. }),
    ]
    .boxed();
    lits::or_signed(base, 11, mag)
}
pub fn logu(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    lits::or((lo.log10()..hi.log10()).prop_map(|e| 10f64.powf(e)).boxed(), 13, lo, hi)
}
pub fn dims() -> BoxedStrategy<usize> {
    prop_oneof![60 => Just(1usize), 60 => Just(2), 60 => Just(3), 40 => Just(4), 20 => Just(5), 20 => Just(7), 20 => Just(10), 4 => Just(21), 1 => Just(67)].boxed()
}
pub fn term(n: usize) -> BoxedStrategy<Term> {
    (
        0..n,
        num(2.),
        prop::sample::select(vec![G::Id, G::Id, G::Sin, G::Tanh, G::Sat]),
        prop::collection::vec(prop_oneof![1 => Just(0.), 2 => num(1.5)], n),
        prop_oneof![2 => Just(0.), 3 => num(4.)],
        num(2.),
    )
        .prop_map(|(out, c, g, w, a, phi)| Term { out, c, g, w, a, phi })
        .boxed()
}
/// right-hand side with Lipschitz constant at most `lip`
pub fn rhs(n: usize, lip: f64) -> BoxedStrategy<Rhs> {
    prop::collection::vec(term(n), 1..(n + 4)).prop_map(move |terms| Rhs { n, terms }.limited(lip)).boxed()
}
/// generic ODE problem
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prob {
    pub rhs: Rhs,
    pub x0: Vec<f64>,
    pub t0: f64,
    /// units of state and time: everything about the problem is of this order
    #[serde(default = "one")]
    pub xs: f64,
    #[serde(default = "one")]
    pub ts: f64,
}
fn one() -> f64 {
    1.
}
impl Prob {
    /// the same problem in other units of state and time
    pub fn scaled(mut self, (xs, ts): (f64, f64)) -> Self {
        for m in self.rhs.terms.iter_mut() {
            m.c *= xs / ts;
            m.w.iter_mut().for_each(|w| *w /= xs);
            m.a /= ts;
        }
        self.x0.iter_mut().for_each(|x| *x *= xs);
        self.t0 *= ts;
        self.xs *= xs;
        self.ts *= ts;
        self
    }
    /// starting at a large time
    pub fn late(mut self, t: f64) -> Self {
        self.t0 += t;
        self
    }
}
/// units of state and time: mostly 1
pub fn units() -> BoxedStrategy<(f64, f64)> {
    prop_oneof![4 => Just((1., 1.)), 1 => (logu(1e-9, 1e9), logu(1e-9, 1e9))].boxed()
}
/// a delay of the whole problem: mostly none
pub fn delay() -> BoxedStrategy<f64> {
    prop_oneof![6 => Just(0.), 1 => logu(1e2, 1e7)].boxed()
}
pub fn t0s() -> BoxedStrategy<f64> {
    prop_oneof![3 => Just(0.0), 2 => -3f64..3., 1 => lits::or((0f64..50.).boxed(), 2, 0.1, 50.)].boxed()
}
pub fn prob(lip: f64) -> BoxedStrategy<Prob> {
    dims()
        .prop_flat_map(move |n| (rhs(n, lip), prop::collection::vec(num(3.), n), t0s()))
        .prop_map(|(rhs, x0, t0)| Prob { rhs, x0, t0, xs: 1., ts: 1. })
        .boxed()
}
pub fn fm() -> BoxedStrategy<FM> {
    prop::sample::select(FM::ALL.to_vec()).boxed()
}
pub fn am() -> BoxedStrategy<AM> {
    prop::sample::select(vec![AM::Rk23, AM::Rk45]).boxed()
}
/// strictly increasing report offsets (relative to the start), total length about `span` at most
pub fn gaps(max_n: usize, span: f64) -> BoxedStrategy<Vec<f64>> {
    let g = prop_oneof![3 => lits::or((0.05f64..1.0).boxed(), 13, 0.05, 1.), 1 => logu(1e-3, 1.0), 1 => Just(0.5), 1 => Just(0.25)];
    (prop::collection::vec(g, 1..=max_n), any::<bool>())
        .prop_map(move |(mut v, uniform)| {
            if uniform {
                let d = v[0];
                v.iter_mut().for_each(|x| *x = d);
            }
            let s: f64 = v.iter().sum();
            if s > span {
                v.iter_mut().for_each(|x| *x *= span / s);
            }
            v
        })
        .boxed()
}
/// schedule: first report at t0 (as the examples do) or later
pub fn schedule(t0: f64, gaps: &[f64], first_at_start: bool) -> Vec<f64> {
    let mut out = vec![];
    let mut t = t0;
    if first_at_start {
        out.push(t0);
    }
    for g in gaps {
        t += g;
        out.push(t);
    }
    out
}
pub fn ad() -> BoxedStrategy<Ad> {
    (
        logu(1e-3, 3.),
        prop_oneof![1 => logu(0.02, 1.), 2 => Just(10.0)],
        prop_oneof![2 => Just(5u8), 2 => 1u8..12, 1 => Just(0u8), 1 => Just(255u8), 2 => 20u8..60],
        logu(1e-9, 1e-1),
        logu(1e-12, 1e-2),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(dt_init, dt_max, max_iter, rtol, atol, save, save_states)| Ad { dt_init, dt_max, max_iter, rtol, atol, save, save_states })
        .boxed()
}
