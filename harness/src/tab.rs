//! Reference Runge-Kutta formulas, straight from the published Butcher tableaus.

pub struct Tab {
    pub name: &'static str,
    pub order: u32,
    pub c: Vec<f64>,
    pub a: Vec<Vec<f64>>,
    pub b: Vec<f64>,
    /// weights of the embedded (lower-order) solution
    pub bhat: Option<Vec<f64>>,
}

fn r(n: i64, d: i64) -> f64 {
    n as f64 / d as f64
}

pub fn euler() -> Tab {
    Tab { name: "euler", order: 1, c: vec![0.], a: vec![vec![]], b: vec![1.], bhat: None }
}
pub fn heun() -> Tab {
    Tab { name: "heun", order: 2, c: vec![0., 1.], a: vec![vec![], vec![1.]], b: vec![0.5, 0.5], bhat: None }
}
pub fn midpoint() -> Tab {
    Tab { name: "midpoint", order: 2, c: vec![0., 0.5], a: vec![vec![], vec![0.5]], b: vec![0., 1.], bhat: None }
}
pub fn ralston() -> Tab {
    Tab { name: "ralston", order: 2, c: vec![0., r(2, 3)], a: vec![vec![], vec![r(2, 3)]], b: vec![0.25, 0.75], bhat: None }
}
pub fn rk4() -> Tab {
    Tab {
        name: "rk4",
        order: 4,
        c: vec![0., 0.5, 0.5, 1.],
        a: vec![vec![], vec![0.5], vec![0., 0.5], vec![0., 0., 1.]],
        b: vec![r(1, 6), r(1, 3), r(1, 3), r(1, 6)],
        bhat: None,
    }
}
pub fn bogacki_shampine() -> Tab {
    Tab {
        name: "rk23",
        order: 3,
        c: vec![0., 0.5, 0.75, 1.],
        a: vec![vec![], vec![0.5], vec![0., 0.75], vec![r(2, 9), r(1, 3), r(4, 9)]],
        b: vec![r(2, 9), r(1, 3), r(4, 9), 0.],
        bhat: Some(vec![r(7, 24), r(1, 4), r(1, 3), r(1, 8)]),
    }
}
pub fn cash_karp() -> Tab {
    Tab {
        name: "rk45",
        order: 5,
        c: vec![0., r(1, 5), r(3, 10), r(3, 5), 1., r(7, 8)],
        a: vec![
            vec![],
            vec![r(1, 5)],
            vec![r(3, 40), r(9, 40)],
            vec![r(3, 10), r(-9, 10), r(6, 5)],
            vec![r(-11, 54), r(5, 2), r(-70, 27), r(35, 27)],
            vec![r(1631, 55296), r(175, 512), r(575, 13824), r(44275, 110592), r(253, 4096)],
        ],
        b: vec![r(37, 378), 0., r(250, 621), r(125, 594), 0., r(512, 1771)],
        bhat: Some(vec![r(2825, 27648), 0., r(18575, 48384), r(13525, 55296), r(277, 14336), r(1, 4)]),
    }
}

pub struct StepOut {
    pub delta: Vec<f64>,
    pub delta_hat: Vec<f64>,
    /// dt * max over stages and components of |k|: the scale of rounding errors
    pub kscale: f64,
}

pub type F<'a> = &'a dyn Fn(f64, &[f64]) -> Vec<f64>;

impl Tab {
    pub fn step(&self, f: F, t: f64, x: &[f64], dt: f64) -> StepOut {
        let n = x.len();
        let mut ks: Vec<Vec<f64>> = vec![];
        for s in 0..self.c.len() {
            let mut xs = x.to_vec();
            for (j, aj) in self.a[s].iter().enumerate() {
                for i in 0..n {
                    xs[i] += dt * aj * ks[j][i];
                }
            }
            ks.push(f(t + self.c[s] * dt, &xs));
        }
        let comb = |w: &[f64]| -> Vec<f64> { (0..n).map(|i| dt * w.iter().zip(&ks).map(|(b, k)| b * k[i]).sum::<f64>()).collect() };
        let kmax = ks.iter().flatten().fold(0f64, |m, k| m.max(k.abs()));
        StepOut { delta: comb(&self.b), delta_hat: self.bhat.as_ref().map(|b| comb(b)).unwrap_or_default(), kscale: kmax * dt.abs() }
    }
}

pub fn norm(v: &[f64]) -> f64 {
    let m = v.iter().fold(0f64, |m, x| m.max(x.abs()));
    if m == 0. || !m.is_finite() {
        return m;
    }
    m * v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
}

/// accurate solution at time t1, classical RK4 refined so that the local error is negligible for smooth f with Lipschitz constant l
pub fn accurate(f: F, t0: f64, x0: &[f64], t1: f64, steps: usize) -> Vec<f64> {
    let tab = cash_karp();
    let mut x = x0.to_vec();
    let h = (t1 - t0) / steps as f64;
    for k in 0..steps {
        let d = tab.step(f, t0 + k as f64 * h, &x, h).delta;
        for i in 0..x.len() {
            x[i] += d[i];
        }
    }
    x
}
