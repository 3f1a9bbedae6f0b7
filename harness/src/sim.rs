//! One interface over all systems used by the walk-level properties: generic ODE systems, the two example systems and a
//! larger thermal network.
use crate::net::*;
use crate::odes::*;
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ network: six masses, two reservoirs, all pairs
/// a connection between two of the eight nodes (0-5 masses, 6-7 reservoirs)
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct NetParams {
    pub c: Vec<f64>,
    pub temps: Vec<f64>,
    /// (node, node, conductance): at most one per unordered pair, oriented as listed
    pub conns: Vec<(usize, usize, f64)>,
}
macro_rules! net_sys {
    ($(($i:expr, $j:expr, $a:ident, $b:ident, $c:ident)),+) => {
        #[solver(
            fn update_derivs(&mut self) {
                self.reset_derivs();
                connect_states!(self, $(($a, $b, $c)),+);
                update_derivs!(self, $(($a, $b, $c)),+);
            }
        )]
        #[derive(HistoryMethods, BareClone, Default)]
        #[common_derives]
        pub struct Net {
            #[use_state] pub m0: ThermalMass,
            #[use_state] pub m1: ThermalMass,
            #[use_state] pub r0: ThermalReservoir,
            pub solver_type: SolverTypes,
            #[use_state] pub m2: ThermalMass,
            $(#[save_state] pub $c: Conductance,)+
            #[use_state] pub m3: ThermalMass,
            pub t_report: Vec<f64>,
            #[save_state] pub r1: ThermalReservoir,
            #[use_state] pub m4: ThermalMass,
            pub state: SystemState,
            #[use_state] pub m5: ThermalMass,
            pub history: SystemStateHistoryVec,
        }
        pub const PAIRS: &[(usize, usize)] = &[$(($i, $j)),+];
        impl Net {
            pub fn conds(&self) -> Vec<&Conductance> { vec![$(&self.$c),+] }
            pub fn conds_mut(&mut self) -> Vec<&mut Conductance> { vec![$(&mut self.$c),+] }
        }
    };
}
net_sys!(
    (0, 1, m0, m1, c01), (0, 2, m0, m2, c02), (3, 0, m3, m0, c30), (0, 4, m0, m4, c04), (0, 5, m0, m5, c05),
    (1, 2, m1, m2, c12), (1, 3, m1, m3, c13), (4, 1, m4, m1, c41), (1, 5, m1, m5, c15), (2, 3, m2, m3, c23),
    (2, 4, m2, m4, c24), (5, 2, m5, m2, c52), (3, 4, m3, m4, c34), (3, 5, m3, m5, c35), (4, 5, m4, m5, c45),
    (6, 0, r0, m0, d60), (1, 6, m1, r0, d16), (6, 2, r0, m2, d62), (3, 6, m3, r0, d36), (6, 4, r0, m4, d64), (6, 5, r0, m5, d65),
    (7, 0, r1, m0, d70), (7, 1, r1, m1, d71), (2, 7, m2, r1, d27), (7, 3, r1, m3, d73), (4, 7, m4, r1, d47), (7, 5, r1, m5, d75)
);
impl Net {
    pub fn masses(&self) -> [&ThermalMass; 6] {
        [&self.m0, &self.m1, &self.m2, &self.m3, &self.m4, &self.m5]
    }
    pub fn masses_mut(&mut self) -> [&mut ThermalMass; 6] {
        [&mut self.m0, &mut self.m1, &mut self.m2, &mut self.m3, &mut self.m4, &mut self.m5]
    }
    pub fn build(p: &NetParams, solver: SolverTypes, t_report: Vec<f64>, t0: f64) -> Self {
        let mut s = Net { solver_type: solver, t_report, ..Default::default() };
        s.state.time = t0;
        for (i, m) in s.masses_mut().into_iter().enumerate() {
            m.c = p.c[i];
            m.state.temp = p.temps[i];
        }
        s.r0.state.temp = p.temps[6];
        s.r1.state.temp = p.temps[7];
        for (k, q) in s.conds_mut().into_iter().enumerate() {
            let (a, b) = PAIRS[k];
            q.h = p.conns.iter().filter(|(i, j, _)| (*i == a && *j == b) || (*i == b && *j == a)).map(|c| c.2).sum();
        }
        s
    }
    pub fn temps(&self) -> Vec<f64> {
        let mut v: Vec<f64> = self.masses().iter().map(|m| m.state.temp).collect();
        v.push(self.r0.state.temp);
        v.push(self.r1.state.temp);
        v
    }
    /// recorded temperatures, node by node
    pub fn temp_hist(&self) -> Vec<Vec<f64>> {
        let mut v: Vec<Vec<f64>> = self.masses().iter().map(|m| m.history.temp.clone()).collect();
        v.push(self.r0.history.temp.clone());
        v.push(self.r1.history.temp.clone());
        v
    }
    pub fn dtemp_hist(&self) -> Vec<Vec<f64>> {
        let mut v: Vec<Vec<f64>> = self.masses().iter().map(|m| m.history.dtemp.clone()).collect();
        v.push(self.r0.history.dtemp.clone());
        v.push(self.r1.history.dtemp.clone());
        v
    }
}
impl NetParams {
    pub fn h(&self, k: usize) -> f64 {
        let (a, b) = PAIRS[k];
        self.conns.iter().filter(|(i, j, _)| (*i == a && *j == b) || (*i == b && *j == a)).map(|c| c.2).sum()
    }
    /// derivatives of the six masses
    pub fn f(&self) -> impl Fn(f64, &[f64]) -> Vec<f64> + '_ {
        let hs: Vec<f64> = (0..PAIRS.len()).map(|k| self.h(k)).collect();
        move |_t, x| {
            let mut d = vec![0.; 6];
            let temp = |i: usize| if i < 6 { x[i] } else { self.temps[i] };
            for (k, (a, b)) in PAIRS.iter().enumerate() {
                let q = hs[k] * (temp(*a) - temp(*b));
                if *a < 6 {
                    d[*a] -= q / self.c[*a];
                }
                if *b < 6 {
                    d[*b] += q / self.c[*b];
                }
            }
            d
        }
    }
    /// largest total conductance over capacitance
    pub fn diag(&self) -> f64 {
        (0..6)
            .map(|i| PAIRS.iter().enumerate().filter(|(_, (a, b))| *a == i || *b == i).map(|(k, _)| self.h(k)).sum::<f64>() / self.c[i])
            .fold(0., f64::max)
    }
    pub fn closed(&self) -> bool {
        self.conns.iter().all(|(a, b, h)| *h == 0. || (*a < 6 && *b < 6))
    }
}
pub fn net_params(closed: bool) -> BoxedStrategy<NetParams> {
    let n = if closed { 15 } else { PAIRS.len() };
    (
        prop::collection::vec(capac(), 6),
        prop::collection::vec(temp(), 8),
        prop::collection::vec((0..n, hval()), 0..14),
    )
        .prop_map(|(c, temps, list)| {
            let mut conns: Vec<(usize, usize, f64)> = vec![];
            for (k, h) in list {
                let (a, b) = PAIRS[k];
                if !conns.iter().any(|(i, j, _)| *i == a && *j == b) {
                    conns.push((a, b, h));
                }
            }
            NetParams { c, temps, conns }
        })
        .boxed()
}

// ------------------------------------------------------------------ the interface
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fmt {
    Yaml,
    Json,
    Bincode,
}
pub fn fmts() -> BoxedStrategy<Fmt> {
    prop::sample::select(vec![Fmt::Yaml, Fmt::Json, Fmt::Bincode]).boxed()
}
/// serialisation of anything, through the library's own methods
pub trait Doc: SerdeAPI + Clone + PartialEq + std::fmt::Debug {
    fn ser(&self, f: Fmt) -> Vec<u8> {
        match f {
            Fmt::Yaml => self.to_yaml().into_bytes(),
            Fmt::Json => self.to_json().into_bytes(),
            Fmt::Bincode => self.to_bincode(),
        }
    }
    fn de(f: Fmt, b: &[u8]) -> Result<Self, String> {
        let text = || std::str::from_utf8(b).map_err(|e| e.to_string());
        match f {
            Fmt::Yaml => Self::from_yaml(text()?).map_err(|e| e.to_string()),
            Fmt::Json => Self::from_json(text()?).map_err(|e| e.to_string()),
            Fmt::Bincode => Self::from_bincode(b).map_err(|e| e.to_string()),
        }
    }
}
impl<T: SerdeAPI + Clone + PartialEq + std::fmt::Debug> Doc for T {}

pub trait Sim: Doc + BareClone + Send {
    fn walk_(&mut self);
    fn step_(&mut self);
    fn save_(&mut self);
    fn st(&mut self) -> &mut SystemState;
    fn now(&self) -> SystemState;
    fn rep(&mut self) -> &mut Vec<f64>;
    fn sol(&mut self) -> &mut SolverTypes;
    fn sysrec(&self) -> &SystemStateHistoryVec;
    fn sysrec_mut(&mut self) -> &mut SystemStateHistoryVec;
    /// every recorded component series
    fn series(&self) -> Vec<&Vec<f64>>;
    fn clear_components(&mut self);
    /// make it another system in the same state: everything happens at half the rate
    fn other(&mut self);
    fn current(&self) -> Vec<f64>;
    fn clear_all(&mut self) {
        self.clear_components();
        *self.sysrec_mut() = SystemStateHistoryVec { i: vec![], time: vec![] };
    }
    fn adaptive(&mut self) -> Option<&mut AdaptiveSolverConfig> {
        match self.sol() {
            SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => Some(c),
            _ => None,
        }
    }
    /// one report interval as a user would drive it by hand
    fn manual(&mut self) {
        self.step_();
        self.st().i += 1;
        self.save_();
    }
}
macro_rules! impl_sim {
    ($S:ty, masses [$($m:ident),*], conds [$($c:ident),*]) => {
        impl Sim for $S {
            fn walk_(&mut self) { self.walk() }
            fn step_(&mut self) { self.solve_step() }
            fn save_(&mut self) { self.save_state() }
            fn st(&mut self) -> &mut SystemState { &mut self.state }
            fn now(&self) -> SystemState { self.state }
            fn rep(&mut self) -> &mut Vec<f64> { &mut self.t_report }
            fn sol(&mut self) -> &mut SolverTypes { &mut self.solver_type }
            fn sysrec(&self) -> &SystemStateHistoryVec { &self.history }
            fn sysrec_mut(&mut self) -> &mut SystemStateHistoryVec { &mut self.history }
            fn series(&self) -> Vec<&Vec<f64>> {
                let mut v: Vec<&Vec<f64>> = vec![];
                $(v.push(&self.$m.history.temp); v.push(&self.$m.history.dtemp);)*
                $(v.push(&self.$c.history.q);)*
                v
            }
            fn clear_components(&mut self) {
                $(self.$m.history.temp = vec![]; self.$m.history.dtemp = vec![];)*
                $(self.$c.history.q = vec![];)*
            }
            fn other(&mut self) { $(self.$c.h *= 0.5;)* }
            fn current(&self) -> Vec<f64> {
                let mut v = vec![];
                $(v.push(self.$m.state.temp); v.push(self.$m.state.dtemp);)*
                $(v.push(self.$c.state.q);)*
                v
            }
        }
    };
}
impl_sim!(System3TM, masses [m1, m2, m3], conds [h12, h23]);
impl_sim!(System3TMWithBC, masses [m1, m2, m3], conds [h12, h23]);
impl_sim!(Net, masses [m0, m1, m2, m3, m4, m5, r0, r1], conds [c01, c02, c30, c04, c05, c12, c13, c41, c15, c23, c24, c52, c34, c35, c45,
    d60, d16, d62, d36, d64, d65, d70, d71, d27, d73, d47, d75]);
macro_rules! impl_sim_ode {
    ($($S:ty),+) => { $(
        impl Sim for $S {
            fn walk_(&mut self) { self.walk() }
            fn step_(&mut self) { self.solve_step() }
            fn save_(&mut self) { self.save_state() }
            fn st(&mut self) -> &mut SystemState { &mut self.state }
            fn now(&self) -> SystemState { self.state }
            fn rep(&mut self) -> &mut Vec<f64> { &mut self.t_report }
            fn sol(&mut self) -> &mut SolverTypes { &mut self.solver_type }
            fn sysrec(&self) -> &SystemStateHistoryVec { &self.history }
            fn sysrec_mut(&mut self) -> &mut SystemStateHistoryVec { &mut self.history }
            fn series(&self) -> Vec<&Vec<f64>> {
                self.cells().into_iter().flat_map(|c| [&c.history.x, &c.history.dx]).collect()
            }
            fn clear_components(&mut self) {
                for c in self.cells_mut() { c.history.x = vec![]; c.history.dx = vec![]; }
            }
            fn other(&mut self) { self.rhs.terms.iter_mut().for_each(|t| t.c *= 0.5) }
            fn current(&self) -> Vec<f64> {
                self.cells().into_iter().flat_map(|c| [c.state.x, c.state.dx]).collect()
            }
        }
    )+ };
}
impl_sim_ode!(Ode1, Ode2, Ode3, Ode4, Ode5, Ode7, Ode10, Ode21, Ode67);

// ------------------------------------------------------------------ what to simulate
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Ode(Prob),
    Chain(Chain, f64),
    Net(NetParams, f64),
}
pub fn what() -> BoxedStrategy<What> {
    let t = || prop_oneof![2 => Just(0.), 1 => 0f64..0.6, 1 => 0f64..3.];
    prop_oneof![
        4 => prob(2.0).prop_map(What::Ode),
        3 => (chain(), t()).prop_map(|(c, t)| What::Chain(c, t)),
        1 => (net_params(false), t()).prop_map(|(n, t)| What::Net(n, t)),
    ]
    .boxed()
}
impl What {
    pub fn t0(&self) -> f64 {
        match self {
            What::Ode(p) => p.t0,
            What::Chain(_, t) | What::Net(_, t) => *t,
        }
    }
    pub fn x0(&self) -> Vec<f64> {
        match self {
            What::Ode(p) => p.x0.clone(),
            What::Chain(c, _) => c.reduce(&c.temps),
            What::Net(n, _) => n.temps[..6].to_vec(),
        }
    }
    pub fn f(&self) -> Box<dyn Fn(f64, &[f64]) -> Vec<f64> + '_> {
        match self {
            What::Ode(p) => Box::new(|t, x| p.rhs.eval(t, x)),
            What::Chain(c, _) => Box::new(c.f()),
            What::Net(n, _) => Box::new(n.f()),
        }
    }
    /// bound on the rate at which anything changes, relative
    pub fn rate(&self) -> f64 {
        match self {
            What::Ode(p) => p.rhs.lip(),
            What::Chain(c, _) => c.rate(),
            What::Net(n, _) => 2. * n.diag(),
        }
    }
    pub fn label(&self) -> &'static str {
        match self {
            What::Ode(_) => "generic ODE",
            What::Chain(c, _) if c.bc => "example with boundary",
            What::Chain(..) => "example",
            What::Net(..) => "network",
        }
    }
}
/// evaluate `$body` with `$sys` bound to the concrete system
#[macro_export]
macro_rules! with_sys {
    ($what:expr, $solver:expr, $sched:expr, $sys:ident => $body:expr) => {{
        use $crate::odes::OdeSys as _;
        match $what {
            $crate::sim::What::Ode(p) => $crate::with_ode!(p.rhs.n, S => { let $sys = S::build(&p.rhs, &p.x0, p.t0, $solver, $sched); $body }),
            $crate::sim::What::Chain(c, t) => match c.build($solver, $sched, *t) {
                $crate::net::ChainSys::Closed($sys) => $body,
                $crate::net::ChainSys::Driven($sys) => $body,
            },
            $crate::sim::What::Net(n, t) => { let $sys = $crate::sim::Net::build(n, $solver, $sched, *t); $body }
        }
    }};
}
/// any solver: fixed step relative to the span, or adaptive
pub fn sols() -> BoxedStrategy<Sol> {
    prop_oneof![
        5 => (fm(), logu(0.004, 2.)).prop_map(|(m, dt)| Sol::Fixed(m, dt)),
        5 => (am(), crate::p_adapt::ad_ok()).prop_map(|(m, a)| Sol::Adapt(m, a)),
    ]
    .boxed()
}
/// cut a schedule so that the walk stays cheap
pub fn cheap(what: &What, sol: &Sol, sched: Vec<f64>, max: usize) -> Vec<f64> {
    match sol {
        Sol::Fixed(..) => sched,
        Sol::Adapt(m, ad) => crate::p_adapt::limit_sched(*m, ad, &*what.f(), what.t0(), &what.x0(), sched, max),
    }
}
