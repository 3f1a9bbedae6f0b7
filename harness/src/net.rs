//! Thermal systems: the two example systems behind one interface, reference equations, strategies.
use crate::lits;
use crate::odes::*;
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// boundary temperature of the example system with a time-dependent reservoir
pub fn bc_temp(t: f64) -> f64 {
    10.0 + 3.0 * (100.0 * t * t).sin() * (-t / 0.25).exp()
}

/// parameters of an example system (closed chain, or chain driven by the reservoir)
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Chain {
    pub bc: bool,
    pub c: [f64; 3],
    pub h: [f64; 2],
    pub temps: [f64; 3],
}
#[derive(Clone, Debug, PartialEq)]
pub enum ChainSys {
    Closed(System3TM),
    Driven(System3TMWithBC),
}
macro_rules! both {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            ChainSys::Closed($x) => $e,
            ChainSys::Driven($x) => $e,
        }
    };
}

pub fn mass(c: f64, t: f64) -> ThermalMass {
    let mut m = ThermalMass::default();
    m.c = c;
    m.state.temp = t;
    m
}
pub fn reservoir(t: f64) -> ThermalReservoir {
    let mut m = ThermalReservoir::default();
    m.state.temp = t;
    m
}
pub fn cond(h: f64) -> Conductance {
    let mut m = Conductance::default();
    m.h = h;
    m
}
impl Chain {
    pub fn build(&self, solver: SolverTypes, t_report: Vec<f64>, t0: f64) -> ChainSys {
        let st = SystemState { time: t0, ..Default::default() };
        if self.bc {
            ChainSys::Driven(System3TMWithBC {
                solver_type: solver,
                m1: reservoir(self.temps[0]),
                m2: mass(self.c[1], self.temps[1]),
                h12: cond(self.h[0]),
                m3: mass(self.c[2], self.temps[2]),
                h23: cond(self.h[1]),
                t_report,
                state: st,
                history: Default::default(),
            })
        } else {
            ChainSys::Closed(System3TM {
                solver_type: solver,
                m1: mass(self.c[0], self.temps[0]),
                m2: mass(self.c[1], self.temps[1]),
                h12: cond(self.h[0]),
                m3: mass(self.c[2], self.temps[2]),
                h23: cond(self.h[1]),
                t_report,
                state: st,
                history: Default::default(),
            })
        }
    }
    /// states that obey differential equations
    pub fn reduce(&self, x: &[f64]) -> Vec<f64> {
        if self.bc {
            x[1..].to_vec()
        } else {
            x.to_vec()
        }
    }
    pub fn expand(&self, x: &[f64], t: f64) -> Vec<f64> {
        if self.bc {
            vec![bc_temp(t), x[0], x[1]]
        } else {
            x.to_vec()
        }
    }
    pub fn f(&self) -> impl Fn(f64, &[f64]) -> Vec<f64> + '_ {
        move |t, x| {
            let x = self.expand(x, t);
            let (q1, q2) = (self.h[0] * (x[0] - x[1]), self.h[1] * (x[1] - x[2]));
            let d2 = (q1 - q2) / self.c[1];
            let d3 = q2 / self.c[2];
            if self.bc {
                vec![d2, d3]
            } else {
                vec![-q1 / self.c[0], d2, d3]
            }
        }
    }
    /// largest total conductance over capacitance of a node: bounds the decay rates by twice this
    pub fn diag(&self) -> f64 {
        let a = if self.bc { 0. } else { self.h[0] / self.c[0] };
        a.max((self.h[0] + self.h[1]) / self.c[1]).max(self.h[1] / self.c[2])
    }
    pub fn rate(&self) -> f64 {
        2. * self.diag()
    }
}
impl ChainSys {
    pub fn time(&self) -> f64 {
        both!(self, s => s.state.time)
    }
    pub fn index(&self) -> usize {
        both!(self, s => s.state.i)
    }
    pub fn temps(&self) -> [f64; 3] {
        both!(self, s => [s.m1.state.temp, s.m2.state.temp, s.m3.state.temp])
    }
    pub fn dtemps(&self) -> [f64; 3] {
        both!(self, s => [s.m1.state.dtemp, s.m2.state.dtemp, s.m3.state.dtemp])
    }
    pub fn flows(&self) -> [f64; 2] {
        both!(self, s => [s.h12.state.q, s.h23.state.q])
    }
    pub fn temp_hist(&self) -> [Vec<f64>; 3] {
        both!(self, s => [s.m1.history.temp.clone(), s.m2.history.temp.clone(), s.m3.history.temp.clone()])
    }
    pub fn dtemp_hist(&self) -> [Vec<f64>; 3] {
        both!(self, s => [s.m1.history.dtemp.clone(), s.m2.history.dtemp.clone(), s.m3.history.dtemp.clone()])
    }
    pub fn flow_hist(&self) -> [Vec<f64>; 2] {
        both!(self, s => [s.h12.history.q.clone(), s.h23.history.q.clone()])
    }
    pub fn hist(&self) -> SystemStateHistoryVec {
        both!(self, s => s.history.clone())
    }
    pub fn walk_(&mut self) {
        both!(self, s => s.walk())
    }
    pub fn solve_step_(&mut self) {
        both!(self, s => s.solve_step())
    }
    pub fn save_(&mut self) {
        both!(self, s => s.save_state())
    }
    pub fn set_report(&mut self, t: Vec<f64>) {
        both!(self, s => s.t_report = t)
    }
    pub fn report(&self) -> Vec<f64> {
        both!(self, s => s.t_report.clone())
    }
    pub fn set_index(&mut self, i: usize) {
        both!(self, s => s.state.i = i)
    }
    pub fn solver_mut(&mut self) -> &mut SolverTypes {
        both!(self, s => &mut s.solver_type)
    }
    pub fn conf(&self) -> Option<AdaptiveSolverConfig> {
        match both!(self, s => &s.solver_type) {
            SolverTypes::RK23BogackiShampine(c) => Some((**c).clone()),
            SolverTypes::RK45CashKarp(c) => Some((**c).clone()),
            _ => None,
        }
    }
    pub fn prepare(&mut self, sol: SolverTypes, t: Vec<f64>, i: usize) {
        *self.solver_mut() = sol;
        self.set_report(t);
        self.set_index(i);
    }
    pub fn bare(&self) -> Self {
        match self {
            ChainSys::Closed(s) => ChainSys::Closed(s.bare_clone()),
            ChainSys::Driven(s) => ChainSys::Driven(s.bare_clone()),
        }
    }
}

pub fn capac() -> BoxedStrategy<f64> {
    lits::or(prop_oneof![2 => 0.5f64..4., 1 => Just(1.0), 1 => logu(0.2, 20.)].boxed(), 14, 0.2, 20.)
}
pub fn hval() -> BoxedStrategy<f64> {
    lits::or(prop_oneof![3 => 0.1f64..6., 1 => Just(5.0), 1 => logu(1e-3, 10.)].boxed(), 14, 1e-3, 10.)
}
pub fn temp() -> BoxedStrategy<f64> {
    lits::or_signed(prop_oneof![3 => -20f64..40., 1 => Just(0.), 1 => Just(10.), 1 => -400f64..1500.].boxed(), 14, 400.)
}
pub fn chain_of(bc: bool) -> BoxedStrategy<Chain> {
    (
        [capac(), capac(), capac()],
        [hval(), hval()],
        [temp(), temp(), temp()],
        // a connection that is closed, nodes at the same temperature
        prop_oneof![10 => Just(2usize), 1 => 0usize..2],
        prop_oneof![10 => Just(3usize), 1 => 0usize..3],
    )
        .prop_map(move |(c, mut h, mut temps, closed, same)| {
            if closed < 2 {
                h[closed] = 0.;
            }
            if same < 3 {
                temps[same] = temps[(same + 1) % 3];
            }
            Chain { bc, c, h, temps }
        })
        .boxed()
}
pub fn chain() -> BoxedStrategy<Chain> {
    prop_oneof![chain_of(false), chain_of(true)].boxed()
}

