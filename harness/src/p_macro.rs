//! C20: what the macros accept and reject, decided by the compiler on generated definitions.
use crate::common::*;
use crate::ensure;
use crate::gen;
use crate::p_walk::{thread_file, Scratch};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::process::{Command, Stdio};

struct Rustc {
    externs: Vec<(String, PathBuf)>,
    deps: PathBuf,
}
impl Rustc {
    fn new(ctx: &Ctx) -> Result<Self, String> {
        let p = gen::project(ctx, "#![allow(unused)]\nfn main() {}\n").map_err(|e| e.to_string())?;
        let o = p.cargo().arg("--message-format=json").output().map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("stub project: {}", String::from_utf8_lossy(&o.stderr)));
        }
        let mut externs = vec![];
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or("").to_string();
            if name == "dess" || name == "serde" {
                if let Some(f) = v["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()).find(|f| f.ends_with(".rlib")) {
                    externs.push((name, PathBuf::from(f)));
                }
            }
        }
        if externs.len() != 2 {
            return Err(format!("libraries found: {externs:?}"));
        }
        Ok(Rustc { externs, deps: p.target().join("debug/deps") })
    }
    /// does the compiler accept it? otherwise its first error
    fn accepts(&self, code: &str, sc: &Scratch) -> Result<Result<(), String>, String> {
        let f = thread_file(sc, "rs");
        std::fs::write(&f, code).map_err(|e| e.to_string())?;
        let mut c = Command::new("rustc");
        c.arg("--edition=2021").arg("--crate-type=lib").arg("--crate-name=t").arg("--emit=metadata").arg("-o").arg(thread_file(sc, "rmeta")).arg("-L").arg(format!("dependency={}", self.deps.display()));
        for (n, p) in &self.externs {
            c.arg("--extern").arg(format!("{n}={}", p.display()));
        }
        let o = c.arg(&f).stdin(Stdio::null()).stdout(Stdio::null()).output().map_err(|e| e.to_string())?;
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        match o.status.code() {
            Some(0) => Ok(Ok(())),
            Some(_) => Ok(Err(err.lines().find(|l| l.starts_with("error")).unwrap_or("error").to_string())),
            None => Err(format!("the compiler was ended by a signal: {err}")),
        }
    }
}
fn decide(r: &Rustc, sc: &Scratch, code: &str, want: bool, what: &str) -> Verdict {
    // not being able to run the compiler is no verdict on the macros
    let got = match r.accepts(code, sc) {
        Ok(g) => g,
        Err(_) => return Ok(Info::discard()),
    };
    match (&got, want) {
        (Ok(()), false) => return Err(format!("{what} is accepted:\n{code}")),
        (Err(e), true) => return Err(format!("{what} is rejected ({e}):\n{code}")),
        _ => {}
    }
    Ok(Info::nt(true).label(if want { "accepted" } else { "rejected" }))
}
const HEAD: &str = "#![allow(unused, unexpected_cfgs)]
use dess::prelude::*;
use serde::{Deserialize, Serialize};
macro_rules! nothing { () => {} }
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
pub struct NodeState { pub x: f64, pub dx: f64 }
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Node { pub state: NodeState, pub history: NodeStateHistoryVec }
impl HasState for Node {
    fn state(&self) -> f64 { self.state.x }
    fn set_state(&mut self, val: f64) { self.state.x = val; }
    fn deriv(&self) -> f64 { self.state.dx }
    fn set_deriv(&mut self, val: f64) { self.state.dx = val; }
    fn storage(&self) -> f64 { 1. }
}
";
// ------------------------------------------------------------------ items given to an attribute
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
    /// the required function, in one of several forms
    Update(u8),
    Fn(String, u8),
    /// something that is no function
    Other(u8),
}
impl Item {
    fn text(&self) -> String {
        match self {
            Item::Update(k) => match k % 5 {
                0 => "fn update_derivs(&mut self) { self.reset_derivs(); }".into(),
                1 => "/// derivatives\n    fn update_derivs(&mut self) { self.reset_derivs(); self.a.set_deriv(-self.a.state()); }".into(),
                2 => "#[inline]\n    fn update_derivs(&mut self) { let t = self.state.time; self.a.set_deriv(t); }".into(),
                3 => "#[allow(dead_code)]\n    fn update_derivs(&mut self) { fn inner() -> f64 { 1. } const K: f64 = 2.; let f = |x: f64| x * K; self.a.set_deriv(f(inner())); }".into(),
                _ => "fn update_derivs(&mut self) {}".into(),
            },
            Item::Fn(n, k) => match k % 4 {
                0 => format!("fn {n}(&mut self) {{}}"),
                1 => format!("/// something\n    fn {n}(&self) -> f64 {{ 1. }}"),
                2 => format!("fn {n}() {{}}"),
                _ => format!("fn {n}(&mut self, dt: &f64) {{ let _ = dt; }}"),
            },
            Item::Other(k) => match k % 19 {
                0 => "const LIMIT: usize = 3;",
                1 => "type Alias = f64;",
                2 => "nothing! {}",
                3 => "nothing!();",
                4 => "struct Inner;",
                5 => "dt = 0.1",
                6 => "use std::fmt;",
                7 => "static Z: u8 = 0;",
                8 => "mod inner {}",
                9 => "enum Kind { A }",
                10 => "extern crate std;",
                11 => "pub const P: f64 = 1.;",
                12 => "trait Other {}",
                13 => "impl S {}",
                14 => "1 + 1",
                15 => "let x = 1;",
                16 => "\"text\"",
                17 => "/// documented\n    const DOC: u8 = 1;",
                _ => "const N: f64 = 0.;",
            }
            .into(),
        }
    }
}
fn list(items: &[Item]) -> String {
    items.iter().map(|i| i.text()).collect::<Vec<_>>().join("\n    ")
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SolverCase {
    items: Vec<Item>,
    nodes: usize,
    derives_first: bool,
}
fn fn_names() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(vec!["euler", "step", "walk", "solve_step", "helper", "update_deriv", "update_derivs2", "update_derivs_", "_update_derivs", "updatederivs", "reset_derivs", "step_time", "sc", "sc_mut", "state", "states", "set_states", "rk4fixed", "new", "default", "save_state", "bare_clone", "derivs", "heun"]).prop_map(|s| s.to_string()),
        1 => "[a-z][a-z_]{2,9}".prop_map(|s| format!("{s}_f")),
    ]
    .boxed()
}
fn solver_case() -> BoxedStrategy<SolverCase> {
    let good = any::<u8>().prop_map(|k| vec![Item::Update(k)]);
    let other = prop_oneof![3 => (fn_names(), any::<u8>()).prop_map(|(n, k)| Item::Fn(n, k)), 3 => any::<u8>().prop_map(Item::Other), 2 => any::<u8>().prop_map(Item::Update)];
    let bad = (prop::option::weighted(0.8, any::<u8>()), prop_oneof![12 => prop::collection::vec(other.clone(), 0..3), 1 => prop::collection::vec(other, 3..20)], any::<u16>()).prop_map(|(u, mut v, at)| {
        if let Some(k) = u {
            let i = at as usize % (v.len() + 1);
            v.insert(i, Item::Update(k));
        }
        v
    });
    (prop_oneof![1 => good.boxed(), 2 => bad.boxed()], 1usize..4, any::<bool>()).prop_map(|(items, nodes, derives_first)| SolverCase { items, nodes, derives_first }).boxed()
}
fn check_solver(c: &SolverCase, r: &Rustc, sc: &Scratch) -> Verdict {
    let want = c.items.len() == 1 && matches!(c.items[0], Item::Update(_));
    let nodes = ["a", "b", "c"][..c.nodes].iter().map(|n| format!("    #[use_state] pub {n}: Node,\n")).collect::<String>();
    let d = "#[derive(HistoryMethods, BareClone, Default)]\n";
    let attr = format!("#[solver(\n    {}\n)]\n", list(&c.items));
    let (p, q) = if c.derives_first { (d.to_string(), attr) } else { (attr, d.to_string()) };
    let code = format!("{HEAD}{p}{q}#[common_derives]\npub struct S {{\n{nodes}    pub solver_type: SolverTypes,\n    pub t_report: Vec<f64>,\n    pub state: SystemState,\n    pub history: SystemStateHistoryVec,\n}}\npub fn works(s: &mut S) {{ s.update_derivs(); s.walk(); s.solve_step(); s.save_state(); let _ = s.states(); }}\n");
    Ok(decide(r, sc, &code, want, "a system definition with these solver arguments")?.label(match c.items.iter().filter(|i| matches!(i, Item::Update(_))).count() {
        0 => "required function missing",
        1 => "required function once",
        _ => "required function repeated",
    }))
}
// ------------------------------------------------------------------ Python API functions
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PyCase {
    items: Vec<Item>,
    skip: bool,
}
fn py_case() -> BoxedStrategy<PyCase> {
    let names = prop_oneof![
        6 => prop::sample::select(vec!["__new__", "new_py", "walk_py", "get_x", "set_x", "Default", "default_", "default_value", "py_default", "_default", "default_pyo", "len_py", "dt_mean_py", "__copy_", "helper", "from_x", "clone_it", "update", "defaults", "x_default_py"]).prop_map(|s| s.to_string()),
        1 => "[a-z][a-z_]{2,9}".prop_map(|s| format!("{s}_f")),
    ];
    let good = (names, any::<u8>()).prop_map(|(n, k)| Item::Fn(n, k)).boxed();
    let bad = prop_oneof![3 => (prop::sample::select(vec!["default", "default_py"]), any::<u8>()).prop_map(|(n, k)| Item::Fn(n.into(), k)), 2 => any::<u8>().prop_map(Item::Other)];
    (prop_oneof![8 => prop::collection::vec(good.clone(), 0..5), 1 => prop::collection::vec(good, 5..30)], prop::option::weighted(0.55, (bad, any::<u16>())), any::<bool>())
        .prop_map(|(mut items, bad, skip)| {
            let mut seen = std::collections::HashSet::new();
            items.retain(|i| matches!(i, Item::Fn(n, _) if seen.insert(n.clone())));
            if let Some((b, at)) = bad {
                let i = at as usize % (items.len() + 1);
                items.insert(i, b);
            }
            PyCase { items, skip }
        })
        .boxed()
}
fn check_py(c: &PyCase, r: &Rustc, sc: &Scratch) -> Verdict {
    let want = c.items.iter().all(|i| matches!(i, Item::Fn(n, _) if n != "default" && n != "default_py"));
    let skip = if c.skip { "    #[skip_get]\n" } else { "" };
    let code = format!("{HEAD}#[pyo3_api(\n    {}\n)]\n#[derive(Default)]\n#[common_derives]\npub struct S {{\n    pub x: f64,\n{skip}    pub y: Vec<f64>,\n}}\npub fn works() -> S {{ S::default() }}\n", list(&c.items));
    Ok(decide(r, sc, &code, want, "a Python API with these functions")?.label(format!("{} items", c.items.len())))
}
// ------------------------------------------------------------------ history methods
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HistCase {
    /// own state and history, if any, before which field
    state: Option<u8>,
    /// components: name, mark (none, use, save)
    comps: Vec<(u8, u8)>,
    others: Vec<u8>,
}
fn hist_case() -> BoxedStrategy<HistCase> {
    (
        prop::option::weighted(0.35, any::<u8>()),
        prop_oneof![2 => prop::collection::vec((any::<u8>(), Just(0u8)), 0..4), 1 => prop::collection::vec((any::<u8>(), 0u8..3), 0..4)],
        prop::collection::vec(any::<u8>(), 0..4),
    )
        .prop_map(|(state, comps, others)| HistCase { state, comps, others })
        .boxed()
}
fn check_hist(c: &HistCase, r: &Rustc, sc: &Scratch) -> Verdict {
    let mut fields: Vec<String> = vec![];
    for (k, (n, m)) in c.comps.iter().enumerate() {
        let m = ["", "#[use_state] ", "#[save_state] "][*m as usize % 3];
        fields.push(format!("{m}pub {}{k}: Node", ["a", "state_", "node", "history_"][*n as usize % 4]));
    }
    for (k, o) in c.others.iter().enumerate() {
        let (n, t) = [("states", "Vec<f64>"), ("my_state", "NodeState"), ("state_x", "f64"), ("h", "f64"), ("history_x", "NodeStateHistoryVec"), ("stat", "u8"), ("history", "NodeStateHistoryVec"), ("old_state", "Option<f64>")][*o as usize % 8];
        if n == "history" {
            if c.state.is_none() && !fields.iter().any(|f| f.contains("pub history:")) {
                fields.push("pub history: NodeStateHistoryVec".into());
            }
            continue;
        }
        fields.push(format!("/// {n}\n    pub {n}{k}: {t}"));
    }
    if let Some(at) = c.state {
        let i = at as usize % (fields.len() + 1);
        fields.insert(i, "pub state: NodeState".into());
        let j = (at as usize / 7) % (fields.len() + 1);
        fields.insert(j, "pub history: NodeStateHistoryVec".into());
    }
    let want = c.state.is_some() || c.comps.iter().any(|(_, m)| m % 3 != 0);
    if fields.is_empty() {
        fields.push("pub h: f64".into());
    }
    let uses = if want { "pub fn works(s: &mut S) { s.save_state(); }\n" } else { "" };
    let code = format!("{HEAD}#[derive(HistoryMethods, Default, Clone)]\npub struct S {{\n    {},\n}}\n{uses}", fields.join(",\n    "));
    ensure!(!code.is_empty(), "no code");
    Ok(decide(r, sc, &code, want, "history methods for this type")?.label_if(c.state.is_some(), "has a state").label_if(c.comps.iter().any(|(_, m)| m % 3 != 0), "has marked fields"))
}
pub fn c20(ctx: &mut Ctx) {
    ctx.assume("the Python API is judged with the pyo3 feature of the defining crate off (with it on, see C26 and C27)");
    monitor::CPU_LIMIT.store(600, std::sync::atomic::Ordering::Relaxed);
    let r = match Rustc::new(ctx) {
        Ok(r) => r,
        Err(e) => {
            ctx.errors.push(e);
            return;
        }
    };
    let sc = Scratch::new(ctx, "macro");
    ctx.sub(
        "solver",
        "system definitions whose solver arguments are a random list of the required function, other functions (many named like methods of the traits) and items that are no functions; accepted exactly if the list is the required function alone; non-trivial: always",
        ctx.n(360, 6000),
        solver_case,
        |c| check_solver(c, &r, &sc),
    );
    ctx.sub(
        "python-api",
        "Python API attributes with random functions, possibly one with a reserved name or one item that is no function among them; non-trivial: always",
        ctx.n(280, 5000),
        py_case,
        |c| check_py(c, &r, &sc),
    );
    ctx.sub(
        "history-methods",
        "types with and without a state, with marked and unmarked components and misleadingly named fields; refused exactly without state and marked fields; non-trivial: always",
        ctx.n(280, 5000),
        hist_case,
        |c| check_hist(c, &r, &sc),
    );
}
