//! Random system definitions as Rust programs (C16-C21): generated from a seed, compiled against /repo's working tree
//! and run as a process of their own, which does the checking (gen/rt.rs).
use crate::common::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct R(u64);
impl R {
    pub fn new(seed: u64) -> Self {
        R(seed ^ 0x5851F42D4C957F2D)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n.max(1)
    }
    /// in percent
    pub fn chance(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// fresh names, unhelpfully ordered; none may contain "inf" or "NaN"
struct Names(HashSet<String>);
impl Names {
    fn new(r: &mut R, used: &mut Names) -> String {
        const A: &[&str] = &["m", "zone", "a", "z", "node", "wall", "b", "h", "tank", "pipe", "air", "cell", "y", "k", "s", "history_x", "state_x", "t", "c", "mass", "flow", "cap", "w", "core", "skin", "len", "value", "time_c", "i_c", "new_a", "x", "temp", "time", "i", "dt", "states", "derivs", "storages", "iter", "val", "new", "solver", "history_len", "state2_", "_m", "use_state_", "save", "deriv", "sc", "stateful", "historic", "wärme"];
        loop {
            let mut n = r.pick(A).to_string();
            if r.chance(60) {
                let _ = write!(n, "{}", r.below(30));
            }
            if !["state", "history", "solver_type", "t_report"].contains(&n.as_str()) && used.0.insert(n.clone()) {
                return n;
            }
        }
    }
}

const COPY_TYPES: &[(&str, &str)] = &[
    ("f64", "v"),
    ("u8", "v.abs() as u8"),
    ("bool", "v > 0."),
    ("usize", "v.abs() as usize"),
    ("i32", "(v * 100.) as i32"),
    ("Option<f64>", "(v > 0.).then_some(v)"),
    ("(f64, u8)", "(v, v.abs() as u8)"),
    ("[f64; 2]", "[v, -v]"),
];
const ANY_TYPES: &[(&str, &str)] = &[
    ("String", "format!(\"{v}\")"),
    ("Vec<f64>", "vec![v; (v.abs() as usize) % 3]"),
    ("Option<String>", "(v > 0.).then(|| format!(\"{v}\"))"),
    ("Vec<Vec<u8>>", "vec![vec![v.abs() as u8]; 2]"),
    ("Box<f64>", "Box::new(v)"),
];

#[derive(Clone)]
struct CompTy {
    name: String,
    node: bool,
    flow: bool,
    /// marked inner component: (field, index of type, marked)
    inner: Option<(String, usize, bool)>,
}

/// other attributes around a field's marker, which the macros have to see through
fn around(r: &mut R, marker: &str) -> String {
    const OTHER: &[&str] = &["/// documented\n    ", "/// two\n    /// lines\n    ", "#[allow(dead_code)] ", "#[serde(default)] ", "#[doc(alias = \"other-name\")] "];
    let mut s = String::new();
    for _ in 0..[0, 0, 0, 1, 1, 2][r.below(6)] {
        s += r.pick(OTHER);
    }
    // a component may carry both markers, which says no more than the stronger one
    match (marker.contains("use_state"), r.below(10)) {
        (true, 0) => s += &format!("#[save_state] {marker}"),
        (true, 1) => s += &format!("{marker}#[save_state] "),
        _ => s += marker,
    }
    for _ in 0..[0, 0, 0, 1, 1, 2][r.below(6)] {
        s += r.pick(OTHER);
    }
    // an attribute may be given once only
    if s.matches("serde").count() > 1 {
        return around(r, marker);
    }
    s
}

/// a component type with its state; returns the code
fn component(r: &mut R, name: &str, kind: u8, inner: Option<(String, String, bool)>, out: &mut String) {
    // kind: 0 node, 1 flow, 2 both (inertial connection)
    let (node, flow) = (kind != 1, kind != 0);
    let mut used = Names(HashSet::new());
    let x = Names::new(r, &mut used);
    let dx = Names::new(r, &mut used);
    let mut state: Vec<(String, String, Option<String>)> = vec![(x.clone(), "f64".into(), None)];
    if node {
        state.push((dx.clone(), "f64".into(), None));
    }
    for _ in 0..r.below(3) {
        let (t, e) = r.pick(COPY_TYPES);
        state.push((Names::new(r, &mut used), t.to_string(), Some(e.to_string())));
    }
    r.shuffle(&mut state);
    let vis = if r.chance(80) { "pub " } else { "pub(crate) " };
    let _ = writeln!(out, "#[derive(Copy, HistoryVec, Default)]\n#[common_derives]\npub struct {name}State {{");
    for (n, t, _) in &state {
        let _ = writeln!(out, "    /// {n}\n    {vis}{n}: {t},");
    }
    let _ = writeln!(out, "}}");
    // the component
    let mut used = Names(HashSet::from(["cap".to_string(), "par".to_string()]));
    if let Some((f, ..)) = &inner {
        used.0.insert(f.clone());
    }
    let mut fields: Vec<(String, String, String, Option<String>)> = vec![
        (String::new(), "cap".into(), "f64".into(), Some("0.25 + v.abs()".into())),
        (String::new(), "par".into(), "f64".into(), Some("v".into())),
        (String::new(), "state".into(), format!("{name}State"), None),
        (String::new(), "history".into(), format!("{name}StateHistoryVec"), None),
    ];
    for _ in 0..r.below(3) {
        let (t, e) = if r.chance(70) { r.pick(COPY_TYPES) } else { r.pick(ANY_TYPES) };
        fields.push((String::new(), Names::new(r, &mut used), t.to_string(), Some(e.to_string())));
    }
    if let Some((f, t, marked)) = &inner {
        let m = if *marked { if r.chance(70) { "#[save_state] " } else { "#[use_state] " } } else { "" };
        fields.push((m.into(), f.clone(), t.clone(), None));
    }
    r.shuffle(&mut fields);
    let derives = *r.pick(&["#[derive(HistoryMethods, BareClone, Default)]\n#[common_derives]", "#[common_derives]\n#[derive(HistoryMethods, BareClone, Default)]", "#[derive(BareClone, Default)]\n#[common_derives]\n#[derive(HistoryMethods)]"]);
    let _ = writeln!(out, "{derives}\npub struct {name} {{");
    for (m, n, t, _) in &fields {
        let m = around(r, m);
        let _ = writeln!(out, "    {m}pub {n}: {t},");
    }
    let _ = writeln!(out, "}}");
    let storage = *r.pick(&["self.cap", "self.cap", "self.cap * 2.5", "0.75", "f64::INFINITY", "self.cap + self.state.X * self.state.X"]);
    let storage = storage.replace("X", &x);
    if node {
        let _ = writeln!(out, "impl HasState for {name} {{");
        let _ = writeln!(out, "    fn state(&self) -> f64 {{ self.state.{x} }}\n    fn set_state(&mut self, val: f64) {{ self.state.{x} = val; }}");
        let _ = writeln!(out, "    fn deriv(&self) -> f64 {{ self.state.{dx} }}\n    fn set_deriv(&mut self, val: f64) {{ self.state.{dx} = val; }}");
        if r.chance(40) {
            let _ = writeln!(out, "    fn step_deriv(&mut self, val: f64) {{ self.state.{dx} += val; }}");
        }
        if r.chance(20) {
            let _ = writeln!(out, "    fn step_state(&mut self, val: f64) {{ self.state.{x} += val; }}");
        }
        if r.chance(20) {
            let _ = writeln!(out, "    fn step_state_by_dt(&mut self, dt: &f64) {{ self.state.{x} += dt * self.state.{dx}; }}");
        }
        let _ = writeln!(out, "    fn storage(&self) -> f64 {{ {storage} }}\n}}");
    }
    // (potential, derivative) given to the connection; A and B are the ends
    let law = *r.pick(&[
        ("self.cap * (A - B)", ""),
        ("self.cap * (A - B)", ""),
        ("self.par * (A - 2. * B)", ""),
        ("self.cap * (A - B) * (A - B).abs()", ""),
        ("self.par * A + 0.25", ""),
        ("self.cap * (A - B) + 0.125 * DA", ""),
        ("self.cap * (A.max(B) - 0.5)", ""),
    ]);
    if flow {
        let real = |s: &str| s.replace("DA", "p0.deriv()").replace('A', "p0.state()").replace('B', "p1.state()");
        let _ = writeln!(out, "impl Flow for {name} {{");
        if kind == 1 {
            let _ = writeln!(out, "    fn set_flow(&mut self, p0: &dyn HasState, p1: &dyn HasState) {{ let _ = (p0, p1); self.state.{x} = {}; }}", real(law.0));
            let _ = writeln!(out, "    fn flow(&self) -> f64 {{ self.state.{x} }}\n}}");
        } else {
            let _ = writeln!(out, "    fn set_flow(&mut self, p0: &dyn HasState, p1: &dyn HasState) {{ self.state.{dx} = (p0.state() - p1.state()) / self.cap; }}");
            let _ = writeln!(out, "    fn flow(&self) -> f64 {{ self.state.{x} * 0.5 }}\n}}");
        }
    }
    let raw = |s: &str| s.replace("DA", "a.dx()").replace('A', "a.x()").replace('B', "b.x()");
    let _ = writeln!(out, "impl Comp for {name} {{\n    fn x(&self) -> f64 {{ self.state.{x} }}\n    fn set_x(&mut self, v: f64) {{ self.state.{x} = v; }}");
    if node {
        let _ = writeln!(out, "    fn dx(&self) -> f64 {{ self.state.{dx} }}\n    fn set_dx(&mut self, v: f64) {{ self.state.{dx} = v; }}\n    fn storage_(&self) -> f64 {{ {storage} }}");
    } else {
        let _ = writeln!(out, "    fn dx(&self) -> f64 {{ 0. }}\n    fn set_dx(&mut self, _v: f64) {{}}\n    fn storage_(&self) -> f64 {{ 1. }}");
    }
    let _ = writeln!(out, "    fn fill(&mut self, v: &[f64]) {{");
    let mut k = 0;
    for (_, n, _, e) in &fields {
        if let Some(e) = e {
            let _ = writeln!(out, "        self.{n} = {{ let v = v[{}]; {e} }};", k % 8);
            k += 1;
        }
    }
    for (n, _, e) in &state {
        if let Some(e) = e {
            let _ = writeln!(out, "        self.state.{n} = {{ let v = v[{}]; {e} }};", k % 8);
            k += 1;
        }
    }
    let _ = writeln!(out, "    }}\n    fn push_raw(&mut self) {{");
    for (n, ..) in &state {
        let _ = writeln!(out, "        self.history.{n}.push(self.state.{n});");
    }
    let _ = writeln!(out, "    }}\n    fn clear_raw(&mut self) {{");
    for (n, ..) in &state {
        let _ = writeln!(out, "        self.history.{n} = vec![];");
    }
    let ls = state.iter().map(|(n, ..)| format!("self.history.{n}.len()")).collect::<Vec<_>>().join(", ");
    let _ = writeln!(out, "    }}\n    fn hist_lens(&self) -> Vec<usize> {{ vec![{ls}] }}");
    match kind {
        0 => {
            let _ = writeln!(out, "    fn law(&self, _a: &dyn Comp, _b: &dyn Comp) -> (f64, f64) {{ unreachable!() }}\n    fn flow_(&self) -> f64 {{ unreachable!() }}\n}}");
        }
        1 => {
            let _ = writeln!(out, "    fn law(&self, a: &dyn Comp, b: &dyn Comp) -> (f64, f64) {{ let _ = (a, b); ({}, 0.) }}\n    fn flow_(&self) -> f64 {{ self.state.{x} }}\n}}", raw(law.0));
        }
        _ => {
            let _ = writeln!(out, "    fn law(&self, a: &dyn Comp, b: &dyn Comp) -> (f64, f64) {{ (self.state.{x}, (a.x() - b.x()) / self.cap) }}\n    fn flow_(&self) -> f64 {{ self.state.{x} * 0.5 }}\n}}");
        }
    }
}

/// a structure without state of its own holding components
fn group(r: &mut R, name: &str, inner: &[(String, String, bool)], out: &mut String) {
    let mut f: Vec<String> = inner.iter().map(|(n, t, m)| { let m = if !*m { "" } else if r.chance(70) { "#[save_state] " } else { "#[use_state] " }; format!("    {}pub {n}: {t},", around(r, m)) }).collect();
    f.push("    pub tag: String,".into());
    r.shuffle(&mut f);
    let _ = writeln!(out, "#[derive(HistoryMethods, BareClone, Default)]\n#[common_derives]\npub struct {name} {{\n{}\n}}", f.join("\n"));
}

struct Flat {
    path: String,
    used: bool,
    recorded: bool,
    node: bool,
    flow: bool,
    top: bool,
}
fn world(r: &mut R, w: usize, n_sys: usize, out: &mut String) {
    let _ = writeln!(out, "pub mod w{w} {{\nuse crate::rt::*;\nuse dess::prelude::*;\nuse serde::{{Deserialize, Serialize}};");
    let mut tys: Vec<CompTy> = vec![];
    let kinds: Vec<u8> = vec![0, 0, 1, 1, if r.chance(50) { 2 } else { 0 }];
    for (k, kind) in kinds.iter().enumerate() {
        let inner = (k > 0 && r.chance(25)).then(|| {
            // only one level below
            let cands: Vec<usize> = (0..k).filter(|j| tys[*j].inner.is_none()).collect();
            (["inner", "sub", "a_part", "zz"][r.below(4)].to_string(), *r.pick(&cands), r.chance(75))
        });
        let name = format!("{}{k}", if *kind == 0 { "Node" } else if *kind == 1 { "Link" } else { "Coil" });
        component(r, &name, *kind, inner.as_ref().map(|(f, t, m)| (f.clone(), tys[*t].name.clone(), *m)), out);
        tys.push(CompTy { name, node: *kind != 1, flow: *kind != 0, inner });
    }
    let mut groups: Vec<(String, Vec<(String, usize, bool)>)> = vec![];
    for g in 0..r.below(3) {
        let n = 1 + r.below(2);
        let mut v: Vec<(String, usize, bool)> = (0..n).map(|k| (format!("{}{k}", ["part", "g", "x"][r.below(3)]), r.below(tys.len()), r.chance(75))).collect();
        v[0].2 = true;
        let name = format!("Group{g}");
        group(r, &name, &v.iter().map(|(f, t, m)| (f.clone(), tys[*t].name.clone(), *m)).collect::<Vec<_>>(), out);
        groups.push((name, v));
    }
    for s in 0..n_sys {
        system(r, w % 10 == 4 && s == 2, &format!("Sys{s}"), &format!("w{w}::Sys{s}"), &tys, &groups, out);
    }
    let _ = writeln!(out, "}}");
}
fn system(r: &mut R, wide: bool, name: &str, shown: &str, tys: &[CompTy], groups: &[(String, Vec<(String, usize, bool)>)], out: &mut String) {
    let mut used = Names(HashSet::new());
    let n_nodes = match r.below(if wide { 1 } else { 32 }) {
        _ if wide => 34 + r.below(40),
        0..3 => r.below(2),
        3..5 => 7 + r.below(14),
        k => 1 + k % 6,
    };
    let n_flows = if n_nodes == 0 { r.below(2) } else { r.below(n_nodes + 3) };
    let nodes: Vec<usize> = (0..tys.len()).filter(|k| tys[*k].node && !tys[*k].flow).collect();
    let flows: Vec<usize> = (0..tys.len()).filter(|k| tys[*k].flow).collect();
    // field: (attribute, name, type, expression to fill it)
    let mut fields: Vec<(String, String, String, Option<String>)> = vec![
        (String::new(), "state".into(), "SystemState".into(), None),
        (String::new(), "history".into(), "SystemStateHistoryVec".into(), None),
        (String::new(), "t_report".into(), "Vec<f64>".into(), None),
        (String::new(), "solver_type".into(), "SolverTypes".into(), None),
    ];
    let mark = |r: &mut R, node: bool, stateful: usize| -> &'static str {
        if node && r.chance(stateful) {
            "#[use_state] "
        } else if r.chance(75) {
            "#[save_state] "
        } else {
            ""
        }
    };
    let mut comps: Vec<(String, usize, String)> = vec![]; // name, type, mark
    for _ in 0..n_nodes {
        let t = *r.pick(&nodes);
        comps.push((Names::new(r, &mut used), t, mark(r, true, 85).into()));
    }
    for _ in 0..n_flows {
        let t = *r.pick(&flows);
        comps.push((Names::new(r, &mut used), t, mark(r, tys[t].node, 70).into()));
    }
    let mut grp: Vec<(String, usize, bool)> = vec![];
    if !groups.is_empty() && r.chance(50) {
        grp.push((Names::new(r, &mut used), r.below(groups.len()), r.chance(80)));
    }
    for (n, t, m) in &comps {
        fields.push((m.clone(), n.clone(), tys[*t].name.clone(), None));
    }
    for (n, g, m) in &grp {
        fields.push((if *m { "#[save_state] ".into() } else { String::new() }, n.clone(), groups[*g].0.clone(), None));
    }
    for _ in 0..r.below(3) {
        let (t, e) = if r.chance(50) { r.pick(COPY_TYPES) } else { r.pick(ANY_TYPES) };
        fields.push((String::new(), Names::new(r, &mut used), t.to_string(), Some(e.to_string())));
    }
    r.shuffle(&mut fields);
    // flattened components, in declaration order
    let mut flat: Vec<Flat> = vec![];
    for (m, n, t, _) in &fields {
        let marked = !m.is_empty();
        if let Some(c) = tys.iter().find(|c| c.name == *t) {
            flat.push(Flat { path: n.clone(), used: m.contains("use_state"), recorded: marked, node: c.node, flow: c.flow, top: true });
            if let Some((f, k, im)) = &c.inner {
                flat.push(Flat { path: format!("{n}.{f}"), used: false, recorded: marked && *im, node: tys[*k].node, flow: tys[*k].flow, top: false });
            }
        } else if let Some((_, v)) = groups.iter().find(|g| g.0 == *t) {
            for (f, k, im) in v {
                flat.push(Flat { path: format!("{n}.{f}"), used: false, recorded: marked && *im, node: tys[*k].node, flow: tys[*k].flow, top: false });
                if let Some((g, j, jm)) = &tys[*k].inner {
                    flat.push(Flat { path: format!("{n}.{f}.{g}"), used: false, recorded: marked && *im && *jm, node: tys[*j].node, flow: tys[*j].flow, top: false });
                }
            }
        }
    }
    // connections: each flow once, ends are nodes (a coil may be an end as well)
    let mut ends: Vec<usize> = (0..flat.len()).filter(|k| flat[*k].top && flat[*k].node && !flat[*k].flow).collect();
    let mut conns: Vec<(usize, usize, usize)> = vec![];
    if !ends.is_empty() {
        if r.chance(30) {
            let lonely = r.below(ends.len());
            if ends.len() > 2 {
                ends.remove(lonely);
            }
        }
        let mut fl: Vec<usize> = (0..flat.len()).filter(|k| flat[*k].top && flat[*k].flow).collect();
        r.shuffle(&mut fl);
        for f in fl {
            if r.chance(8) {
                continue;
            }
            let a = *r.pick(&ends);
            let mut b = *r.pick(&ends);
            if a == b && !r.chance(10) {
                let others: Vec<usize> = ends.iter().copied().filter(|e| *e != a).collect();
                if others.is_empty() {
                    continue;
                }
                b = *r.pick(&others);
            }
            conns.push((a, b, f));
        }
    }
    // the macros take the list in one or several invocations
    let mut parts: Vec<&[(usize, usize, usize)]> = vec![];
    if conns.len() > 1 && r.chance(30) {
        let k = 1 + r.below(conns.len() - 1);
        parts.extend([&conns[..k], &conns[k..]]);
    } else if !conns.is_empty() {
        parts.push(&conns[..]);
    }
    let list = |p: &[(usize, usize, usize)]| p.iter().map(|(a, b, f)| format!("({}, {}, {})", flat[*a].path, flat[*b].path, flat[*f].path)).collect::<Vec<_>>().join(", ");
    let conn = parts.iter().map(|p| format!("connect_states!(self, {});", list(p))).collect::<Vec<_>>().join("\n        ");
    let upd = parts.iter().map(|p| format!("update_derivs!(self, {});", list(p))).collect::<Vec<_>>().join("\n        ");
    let doc = if r.chance(50) { "/// derivatives\n    " } else { "" };
    let solver = format!("#[solver(\n    {doc}fn update_derivs(&mut self) {{\n        crate::rt::tick();\n        self.reset_derivs();\n        {conn}\n        {upd}\n    }}\n)]");
    let derives = match r.below(3) {
        0 => format!("{solver}\n#[derive(HistoryMethods, BareClone, Default)]\n#[common_derives]"),
        1 => format!("#[derive(HistoryMethods, BareClone, Default)]\n{solver}\n#[common_derives]"),
        _ => format!("#[derive(HistoryMethods, BareClone)]\n#[derive(Default)]\n{solver}\n#[common_derives]"),
    };
    let _ = writeln!(out, "{derives}\npub struct {name} {{");
    for (m, n, t, _) in &fields {
        let m = around(r, m);
        let _ = writeln!(out, "    {m}pub {n}: {t},");
    }
    let _ = writeln!(out, "}}\nimpl Raw for {name} {{");
    for (sig, amp) in [("fn comp(&self, k: usize) -> &dyn Comp", "&"), ("fn comp_mut(&mut self, k: usize) -> &mut dyn Comp", "&mut ")] {
        let arms = flat.iter().enumerate().map(|(k, f)| format!("{k} => {amp}self.{},", f.path)).collect::<Vec<_>>().join(" ");
        let _ = writeln!(out, "    {sig} {{ match k {{ {arms} _ => unreachable!() }} }}");
    }
    let info = flat.iter().map(|f| format!("Info_ {{ path: {:?}, used: {}, recorded: {} }}", f.path, f.used, f.recorded)).collect::<Vec<_>>().join(", ");
    let _ = writeln!(out, "    fn info(&self) -> &'static [Info_] {{ const I: &[Info_] = &[{info}]; I }}");
    let _ = writeln!(out, "    fn conns(&self) -> &'static [(usize, usize, usize)] {{ const C: &[(usize, usize, usize)] = &{conns:?}; C }}");
    let mut fill = String::new();
    for (k, (_, n, _, e)) in fields.iter().filter(|f| f.3.is_some()).enumerate() {
        let _ = write!(fill, "self.{n} = {{ let v = v[{k}]; {} }}; ", e.as_ref().unwrap());
    }
    let _ = writeln!(out, "    fn fill_extra(&mut self, v: &[f64]) {{ let _ = v; {fill} }}");
    let _ = writeln!(
        out,
        "    fn st(&mut self) -> &mut SystemState {{ &mut self.state }}
    fn now(&self) -> SystemState {{ self.state }}
    fn rep(&mut self) -> &mut Vec<f64> {{ &mut self.t_report }}
    fn sol(&mut self) -> &mut SolverTypes {{ &mut self.solver_type }}
    fn sysrec(&self) -> &SystemStateHistoryVec {{ &self.history }}
    fn sysrec_mut(&mut self) -> &mut SystemStateHistoryVec {{ &mut self.history }}
    fn walk_(&mut self) {{ self.walk() }}
    fn step_(&mut self) {{ self.solve_step() }}
    fn save_(&mut self) {{ self.save_state() }}
    fn connect_(&mut self) {{
        {conn}
    }}
    fn update_(&mut self) {{
        {upd}
    }}
    fn name(&self) -> &'static str {{ {shown:?} }}
}}"
    );
}
/// a state type only for its history container
fn container(r: &mut R, name: &str, out: &mut String) {
    let mut used = Names(HashSet::new());
    let n = if r.chance(8) { 8 + r.below(22) } else { 1 + r.below(7) };
    let mut f: Vec<(String, &str, &str)> = vec![];
    for _ in 0..n {
        let (t, e) = if r.chance(65) { r.pick(COPY_TYPES) } else { r.pick(ANY_TYPES) };
        f.push((Names::new(r, &mut used), t, e));
    }
    let _ = writeln!(out, "#[derive(HistoryVec)]\n#[common_derives]\npub struct {name} {{");
    for (n, t, _) in &f {
        let _ = writeln!(out, "    pub {n}: {t},");
    }
    let mk = f.iter().enumerate().map(|(k, (n, _, e))| format!("{n}: {{ let v = v[{}]; {e} }}", k % 8)).collect::<Vec<_>>().join(", ");
    let show = |s: &str| f.iter().map(|(n, ..)| format!("format!(\"{{:?}}\", {s}.{n})")).collect::<Vec<_>>().join(", ");
    let fields = f.iter().map(|(n, ..)| format!("self.{n}.iter().map(|x| format!(\"{{x:?}}\")).collect()")).collect::<Vec<_>>().join(", ");
    let _ = writeln!(
        out,
        "}}
impl HistBox for {name}HistoryVec {{
    fn push_(&mut self, v: &[f64]) -> Vec<String> {{ let s = {name} {{ {mk} }}; let d = vec![{}]; self.push(s); d }}
    fn pop_(&mut self) -> Option<Vec<String>> {{ self.pop().map(|s| vec![{}]) }}
    fn clear_(&mut self) {{ self.clear() }}
    fn len_(&self) -> usize {{ self.len() }}
    fn empty_(&self) -> bool {{ self.is_empty() }}
    fn fields(&self) -> Vec<Vec<String>> {{ vec![{fields}] }}
    fn copy(&self) -> Box<dyn HistBox> {{ Box::new(self.clone()) }}
    fn name(&self) -> &'static str {{ {name:?} }}
}}",
        show("s"),
        show("s"),
    );
}
const SYS_PER_WORLD: usize = 5;
pub fn program(seed: u64, worlds: u64, id: &str) -> String {
    let mut r = R::new(hash64(&format!("program {seed} {worlds} {id}")));
    let mut out = String::from("#![allow(dead_code, unused, unexpected_cfgs, clippy::all)]\n#[path = \"common.rs\"] mod common;\nmod lits;\nmod rt;\nuse rt::*;\n");
    let n_hist = if id == "C17" { 4 * worlds } else { 1 };
    let n_worlds = if id == "C17" { 1 } else { worlds };
    for w in 0..n_worlds {
        world(&mut r, w as usize, SYS_PER_WORLD, &mut out);
    }
    let _ = writeln!(out, "pub mod hists {{\nuse crate::rt::*;\nuse dess::prelude::*;\nuse serde::{{Deserialize, Serialize}};");
    for k in 0..n_hist {
        container(&mut r, &format!("Rec{k}"), &mut out);
    }
    let _ = writeln!(out, "}}");
    let n = n_worlds as usize * SYS_PER_WORLD;
    let _ = writeln!(out, "pub const N_SYS: usize = {n};\npub const N_HIST: usize = {n_hist};\npub const PROG: (u64, u64) = ({seed}, {worlds});");
    let arms = (0..n).map(|k| format!("{k} => Box::<w{}::Sys{}>::default(),", k / SYS_PER_WORLD, k % SYS_PER_WORLD)).collect::<Vec<_>>().join("\n        ");
    let _ = writeln!(out, "pub fn make(k: usize) -> Box<dyn GenSys> {{\n    match k {{\n        {arms}\n        _ => unreachable!(),\n    }}\n}}");
    let arms = (0..n_hist).map(|k| format!("{k} => Box::new(hists::Rec{k}HistoryVec::new()),")).collect::<Vec<_>>().join("\n        ");
    let _ = writeln!(out, "pub fn make_hist(k: usize) -> Box<dyn HistBox> {{\n    match k {{\n        {arms}\n        _ => unreachable!(),\n    }}\n}}");
    out.push_str(MAIN);
    out
}
const MAIN: &str = r#"
fn main() {
    use common::*;
    let verif = std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    install_panic_hook();
    monitor::start();
    let args: Vec<String> = std::env::args().collect();
    let mut ctx = Ctx::new(&args[1], tier, seed, args.get(2).map(std::path::PathBuf::from), verif);
    rt::run(&mut ctx);
    std::process::exit(ctx.finish());
}
"#;

/// where a generated program lives and is built
pub struct Project {
    pub dir: PathBuf,
    pub name: String,
    target: PathBuf,
}
pub fn project(ctx: &Ctx, main: &str) -> std::io::Result<Project> {
    let name = format!("vg{}", ctx.id.to_lowercase());
    let dir = ctx.verif.join("target-gen").join(&name);
    std::fs::create_dir_all(dir.join("src"))?;
    let harness = ctx.verif.join("harness");
    let toml = std::fs::read_to_string(harness.join("Cargo.toml"))?
        .replace("name = \"vh\"", &format!("name = \"{name}\""))
        .replace("[profile.dev]\nopt-level = 2", "[profile.dev]\nopt-level = 0");
    let lock = std::fs::read_to_string(harness.join("Cargo.lock"))?.replace("name = \"vh\"", &format!("name = \"{name}\""));
    let put = |p: PathBuf, s: &str| -> std::io::Result<()> {
        if std::fs::read_to_string(&p).ok().as_deref() != Some(s) {
            std::fs::write(p, s)?;
        }
        Ok(())
    };
    put(dir.join("Cargo.toml"), &toml)?;
    put(dir.join("Cargo.lock"), &lock)?;
    put(dir.join("src/main.rs"), main)?;
    put(dir.join("src/common.rs"), include_str!("common.rs"))?;
    put(dir.join("src/lits.rs"), include_str!("lits.rs"))?;
    put(dir.join("src/rt.rs"), include_str!("../gen/rt.rs"))?;
    let target = std::env::var_os("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or(ctx.verif.join("target"));
    Ok(Project { dir, name, target })
}
impl Project {
    /// build with the harness' target directory, so that its dependencies are built only once
    pub fn cargo(&self) -> Command {
        let mut c = Command::new("cargo");
        c.arg("build").arg("--offline").arg("--manifest-path").arg(self.dir.join("Cargo.toml")).arg("--target-dir").arg(&self.target).stdin(Stdio::null());
        c
    }
    pub fn bin(&self) -> PathBuf {
        self.target.join("debug").join(&self.name)
    }
    pub fn target(&self) -> &Path {
        &self.target
    }
}
/// generate, build and run the checks of this property in a generated program
pub fn run(ctx: &mut Ctx) {
    if ctx.failed() {
        return;
    }
    let worlds = ctx.n(10, 60).min(60);
    let mut prog = (ctx.seed, worlds);
    if let Some(p) = &ctx.replay {
        #[derive(serde::Deserialize)]
        struct Head {
            sub: String,
            case: serde_yaml::Value,
        }
        let Ok(h) = serde_yaml::from_str::<Head>(&std::fs::read_to_string(p).unwrap_or_default()) else { return };
        if !h.sub.starts_with("gen-") {
            return;
        }
        if let Some(q) = h.case.get("prog").and_then(|v| serde_yaml::from_value::<(u64, u64)>(v.clone()).ok()) {
            prog = q;
        }
    }
    let main = program(prog.0, prog.1, &ctx.id);
    let p = match project(ctx, &main) {
        Ok(p) => p,
        Err(e) => {
            ctx.errors.push(format!("generated program: {e}"));
            return;
        }
    };
    let o = match p.cargo().output() {
        Ok(o) => o,
        Err(e) => {
            ctx.errors.push(format!("cargo: {e}"));
            return;
        }
    };
    if !o.status.success() {
        let text = String::from_utf8_lossy(&o.stderr).to_string();
        if !text.contains(&format!("could not compile `{}`", p.name)) {
            ctx.errors.push(format!("generated program: {text}"));
            return;
        }
        // well-formed definitions must compile
        let first: String = text.lines().skip_while(|l| !l.starts_with("error")).take(30).collect::<Vec<_>>().join("\n");
        ctx.violation("gen-build", &format!("well-formed system definitions are not accepted by the compiler:\n{first}"), &serde_json::json!({"prog": [prog.0, prog.1]}));
        return;
    }
    let ev = ctx.verif.join("out").join(format!("gen-{}", ctx.id));
    std::fs::create_dir_all(ev.join("out")).ok();
    let mut c = Command::new(p.bin());
    c.arg(&ctx.id).env("VERIF_DIR", &ev).env("VERIF_SEED", ctx.seed.to_string()).stdin(Stdio::null());
    if let Some(r) = &ctx.replay {
        c.arg(r);
    }
    let o = match c.output() {
        Ok(o) => o,
        Err(e) => {
            ctx.errors.push(format!("generated program: {e}"));
            return;
        }
    };
    if std::env::var("VH_VERBOSE").is_ok() {
        eprint!("{}", String::from_utf8_lossy(&o.stderr));
    }
    ctx.replay_ran |= ctx.replay.is_some();
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let made = ev.join("out/replays");
    match o.status.code() {
        Some(0) => {}
        Some(1) => {
            let lines: Vec<&str> = text.lines().filter(|l| !l.starts_with("VIOLATION")).collect();
            let mut path = ctx.replay.clone();
            if path.is_none() {
                // keep the replay with the others
                for f in std::fs::read_dir(&made).into_iter().flatten().flatten() {
                    let to = ctx.verif.join("out/replays");
                    std::fs::create_dir_all(&to).ok();
                    let to = to.join(f.file_name());
                    if std::fs::rename(f.path(), &to).is_ok() {
                        path = Some(to);
                    }
                }
            }
            ctx.violations.push(Violation { sub: "generated program".into(), message: lines.join("\n"), replay: path.unwrap_or(made) });
        }
        c => ctx.errors.push(format!("generated program ended with {c:?}: {}{}", text, String::from_utf8_lossy(&o.stderr))),
    }
    if ctx.replay.is_some() {
        print!("{text}");
        return;
    }
    // its evidence becomes part of ours
    let Ok(e) = std::fs::read_to_string(ev.join("evidence").join(format!("{}.json", ctx.id))) else { return };
    let Ok(e) = serde_json::from_str::<serde_json::Value>(&e) else { return };
    for (name, s) in e["coverage"]["sub_checks"].as_object().into_iter().flatten() {
        let num = |k: &str| s[k].as_u64().unwrap_or(0);
        let map = |k: &str| s[k].as_object().into_iter().flatten().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect();
        let mut rep = SubReport { name: name.clone(), rule: s["rule"].as_str().unwrap_or("").into(), evaluations: num("evaluations"), discards: num("discarded"), nontrivial: num("nontrivial"), labels: map("labels"), counts: map("counts"), ..Default::default() };
        rep.distinct = (0..num("distinct_nontrivial")).collect();
        rep.labels.insert("generated definitions".into(), if ctx.id == "C17" { 4 * worlds } else { worlds * SYS_PER_WORLD as u64 });
        rep.samples = e["coverage"]["samples"].as_array().into_iter().flatten().filter(|x| x["sub"] == *name).filter_map(|x| x["case"].as_str().map(String::from)).collect();
        ctx.subs.push(rep);
    }
}
