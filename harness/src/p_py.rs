//! C26, C27: the Python module, driven by generated programs in child interpreters (one per worker thread).
use crate::common::*;
use crate::ensure;
use crate::net::*;
use crate::odes::*;
use crate::p_walk::*;
use crate::sim::*;
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;

// ---------------------------------------------------------------- the interpreter
struct Py {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}
impl Drop for Py {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}
/// processor seconds used by a child of ours
fn cpu(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.);
    (n(11) + n(12)) / 100.
}
impl Py {
    fn start() -> Py {
        let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
        let cwd = format!("{verif}/out/py-cwd");
        std::fs::create_dir_all(&cwd).ok();
        let mut child = Command::new(std::env::var("VH_PYTHON").unwrap_or("/usr/bin/python3.12".into()))
            .args(["-I", "-S", "-B"])
            .arg(format!("{verif}/harness/py/server.py"))
            .arg(std::env::var("VH_PYMOD").unwrap_or(format!("{verif}/target-py/mod")))
            .current_dir(&cwd)
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(if std::env::var("VH_VERBOSE").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("python");
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in stdout.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        let p = Py { child, stdin, rx };
        match p.rx.recv_timeout(Duration::from_secs(120)) {
            Ok(l) if l == "ready" => p,
            Ok(l) if l.starts_with("import: ") => panic!("the module cannot be imported: {}", &l[8..]),
            r => {
                // the module cannot even be imported: no verdict about a case
                eprintln!("ERROR: the Python interpreter did not start with the module: {r:?}");
                std::process::exit(2);
            }
        }
    }
    fn run(&mut self, src: &str) -> Result<Reply, String> {
        let line = serde_json::json!({ "src": src }).to_string() + "\n";
        let t0 = cpu(self.child.id());
        if self.stdin.write_all(line.as_bytes()).and_then(|_| self.stdin.flush()).is_err() {
            return Err(format!("the interpreter died: {:?}\n{src}", self.child.wait()));
        }
        loop {
            match self.rx.recv_timeout(Duration::from_secs(1)) {
                Ok(l) => return serde_json::from_str(&l).map_err(|e| format!("reply {l}: {e}")),
                Err(RecvTimeoutError::Timeout) => {
                    if cpu(self.child.id()) - t0 > 60. {
                        return Err(format!("the call did not return within 60 s of processor time\n{src}"));
                    }
                }
                Err(RecvTimeoutError::Disconnected) => return Err(format!("the interpreter died: {:?}\n{src}", self.child.wait())),
            }
        }
    }
}
#[derive(Deserialize)]
struct Reply {
    out: Vec<String>,
    exc: Option<String>,
}
thread_local! {
    static PY: RefCell<Option<Py>> = const { RefCell::new(None) };
}
/// run a program that must not raise; what it put into `out`
fn py(src: &str) -> Result<Vec<String>, String> {
    PY.with(|p| {
        let mut p = p.borrow_mut();
        let r = p.get_or_insert_with(Py::start).run(src);
        match r {
            Ok(Reply { exc: Some(e), out }) => Err(format!("raised {e} after {} results of\n{}", out.len(), short(src))),
            Ok(r) => Ok(r.out),
            Err(e) => {
                *p = None;
                Err(e)
            }
        }
    })
}
fn short(s: &str) -> String {
    if s.len() > 2500 { format!("{}…", s.chars().take(2500).collect::<String>()) } else { s.into() }
}

// ---------------------------------------------------------------- values as the interpreter shows them
trait Enc {
    fn enc(&self) -> String;
}
impl Enc for f64 {
    fn enc(&self) -> String {
        format!("float {:016x}", self.to_bits())
    }
}
impl Enc for bool {
    fn enc(&self) -> String {
        format!("bool {}", *self as u8)
    }
}
macro_rules! enc_int { ($($t:ty),+) => { $(impl Enc for $t { fn enc(&self) -> String { format!("int {self}") } })+ } }
enc_int!(u8, usize);
impl Enc for String {
    fn enc(&self) -> String {
        format!("str {self}")
    }
}
impl<T: Enc> Enc for Option<T> {
    fn enc(&self) -> String {
        self.as_ref().map(T::enc).unwrap_or("none".into())
    }
}
impl<T: Enc> Enc for Vec<T> {
    fn enc(&self) -> String {
        format!("[{}]", self.iter().map(T::enc).collect::<Vec<_>>().join(", "))
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// a class of the module: its attributes as the documentation of the structure gives them
trait Class: Doc + Default + Enc {
    const NAME: &'static str;
    fn attrs(&self) -> Vec<(&'static str, String)>;
    fn walks() -> bool {
        false
    }
    fn walk_it(&mut self) {}
    fn lit(&self) -> String {
        format!("{}.from_bincode(bytes.fromhex('{}'))", Self::NAME, hex(&self.to_bincode()))
    }
}
macro_rules! class {
    ($($T:ident { $($a:ident),* } $(+ $m:ident)? ;)+) => { $(
        impl Enc for $T {
            fn enc(&self) -> String { format!(concat!(stringify!($T), " {}"), hex(&self.to_bincode())) }
        }
        impl Class for $T {
            const NAME: &'static str = stringify!($T);
            fn attrs(&self) -> Vec<(&'static str, String)> {
                #[allow(unused_mut)]
                let mut v = vec![$((concat!(".", stringify!($a)), self.$a.enc())),*];
                $( v.extend($m(self)); )?
                v
            }
        }
    )+ };
}
class! {
    ThermalMass { c, state, history };
    ThermalMassState { temp, dtemp };
    ThermalMassStateHistoryVec { temp, dtemp } + mass_len;
    ThermalReservoir { state, history };
    Conductance { h, state, history };
    ConductanceState { q };
    ConductanceStateHistoryVec { q } + cond_len;
    AdaptiveSolverConfig { dt_max, max_iter, atol, rtol, save, save_states, state, history };
    SolverState { dt, n_iter, norm_err, norm_err_rel, t_curr, states };
    SolverStateHistoryVec { dt, n_iter, norm_err, norm_err_rel, t_curr, states } + conf_len;
    SystemState { i, time };
    SystemStateHistoryVec { i, time } + sys_len;
}
fn mass_len(h: &ThermalMassStateHistoryVec) -> Vec<(&'static str, String)> {
    vec![(".len()", h.temp.len().enc())]
}
fn cond_len(h: &ConductanceStateHistoryVec) -> Vec<(&'static str, String)> {
    vec![(".len()", h.q.len().enc())]
}
fn conf_len(h: &SolverStateHistoryVec) -> Vec<(&'static str, String)> {
    vec![(".len()", h.dt.len().enc())]
}
fn sys_len(h: &SystemStateHistoryVec) -> Vec<(&'static str, String)> {
    vec![(".len()", h.time.len().enc())]
}
macro_rules! class_sys {
    ($($T:ident),+) => { $(
        impl Enc for $T {
            fn enc(&self) -> String { format!(concat!(stringify!($T), " {}"), hex(&self.to_bincode())) }
        }
        impl Class for $T {
            const NAME: &'static str = stringify!($T);
            fn attrs(&self) -> Vec<(&'static str, String)> {
                let conf: Option<AdaptiveSolverConfig> = match &self.solver_type {
                    SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => Some((**c).clone()),
                    _ => None,
                };
                vec![
                    (".m1", self.m1.enc()), (".m2", self.m2.enc()), (".m3", self.m3.enc()), (".h12", self.h12.enc()), (".h23", self.h23.enc()),
                    (".t_report", self.t_report.enc()), (".state", self.state.enc()), (".history", self.history.enc()),
                    (".solver_type", self.solver_type.to_json().enc()), (".solver_conf", conf.enc()),
                ]
            }
            fn walks() -> bool { true }
            fn walk_it(&mut self) { self.walk() }
        }
    )+ };
}
class_sys!(System3TM, System3TMWithBC);

/// as `with_doc`, for the types that Python sees
macro_rules! with_class {
    ($c:expr, $x:ident => $body:expr) => {{
        let c: &DocCase = $c;
        let b = Bag::of(c);
        match c.type_ {
            0 => { let $x = b.mass(0); $body }
            1 => { let $x = b.mass(0).state; $body }
            2 => { let $x = b.mass(0).history; $body }
            3 => { let $x = b.res(0); $body }
            4 => { let $x = b.cond(0); $body }
            5 => { let $x = b.cond(0).state; $body }
            6 => { let $x = b.cond(0).history; $body }
            7 => { let $x = c.conf.conf(); $body }
            8 => { let $x = c.conf.conf().state; $body }
            9 => { let $x = c.conf.conf().history; $body }
            11 => { let $x = b.state(); $body }
            12 => { let $x = b.history(); $body }
            13 => { let $x = b.sys(); $body }
            _ => { let $x = b.bc(); $body }
        }
    }};
}
fn class_case() -> BoxedStrategy<DocCase> {
    doc_case()
        .prop_map(|mut c| {
            if c.type_ == 10 || c.type_ > 14 {
                c.type_ = 13 + c.type_ % 2;
            }
            c
        })
        .boxed()
}
fn quote(s: &str) -> String {
    serde_json::Value::String(s.into()).to_string()
}
fn from_fmt(class: &str, f: Fmt, b: &[u8]) -> String {
    match f {
        Fmt::Yaml => format!("{class}.from_yaml({})", quote(std::str::from_utf8(b).unwrap())),
        Fmt::Json => format!("{class}.from_json({})", quote(std::str::from_utf8(b).unwrap())),
        Fmt::Bincode => format!("{class}.from_bincode(bytes.fromhex('{}'))", hex(b)),
    }
}
fn to_fmt(f: Fmt) -> &'static str {
    match f {
        Fmt::Yaml => "to_yaml()",
        Fmt::Json => "to_json()",
        Fmt::Bincode => "to_bincode()",
    }
}
fn enc_fmt(f: Fmt, b: &[u8]) -> String {
    match f {
        Fmt::Bincode => format!("bytes {}", hex(b)),
        _ => format!("str {}", std::str::from_utf8(b).unwrap()),
    }
}
fn same(what: &str, got: &str, want: &str, src: &str) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    Err(format!("{what}: Python has {} where Rust has {} after\n{}", short(got), short(want), short(src)))
}

// ---------------------------------------------------------------- C26
fn exchange<T: Class>(x: &T, c: &DocCase, sc: &Scratch) -> Verdict {
    let bytes = x.ser(c.fmt);
    let Ok(here) = T::de(c.fmt, &bytes) else { return Ok(Info::nt(false).label("not readable in Rust either")) };
    let mut src = format!("x = {}\nout.append(enc(x))\nout.append(enc(x.{}))\n", from_fmt(T::NAME, c.fmt, &bytes), to_fmt(c.fmt));
    let mut want = vec![here.enc(), enc_fmt(c.fmt, &here.ser(c.fmt))];
    let file = c.file && c.fmt != Fmt::Bincode;
    let (mut p, mut q) = (String::new(), String::new());
    if file {
        p = named_file(sc, if c.fmt == Fmt::Json { "json" } else { "yaml" }, c.idx[1] & 63)?;
        q = thread_file(sc, if c.fmt == Fmt::Json { "b.json" } else { "b.yaml" });
        // the module writes p, the library writes q; each reads the other's
        here.to_file(&q).map_err(|e| e.to_string())?;
        std::fs::write(&p, "x: [1, 2, 3]\n".repeat(c.idx[0] % 300)).map_err(|e| e.to_string())?;
        src += &format!("x.to_file({})\nout.append(enc({}.from_file({})))\n", quote(&p), T::NAME, quote(&q));
        want.push(T::from_file(&q).map_err(|e| e.to_string())?.enc());
    }
    let got = py(&src)?;
    for (k, (g, w)) in got.iter().zip(&want).enumerate() {
        same(["value", "text", "value from a file"][k], g, w, &src)?;
    }
    ensure!(got.len() == want.len(), "{} results", got.len());
    if file {
        let a = std::fs::read(&p).map_err(|e| format!("file written by Python: {e}"))?;
        let b = std::fs::read(&q).map_err(|e| e.to_string())?;
        ensure!(a == b, "the file written by Python differs from the file written by Rust: {} and {}", String::from_utf8_lossy(&a), String::from_utf8_lossy(&b));
    }
    Ok(Info::nt(true).label(T::NAME).label_if(file, "file"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum How {
    /// the constructor that takes the solver as JSON
    Json,
    /// the constructor of the adaptive method (otherwise as Json)
    Special,
    /// loaded after some manual steps in Rust
    Load(Fmt, usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum PyOp {
    Walk,
    Reload(Fmt),
    Clone,
    Copy,
    Deep,
    File(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WalkPy {
    chain: Chain,
    t0: f64,
    sol: Sol,
    gaps: Vec<f64>,
    at_start: bool,
    how: How,
    ops: Vec<PyOp>,
}
fn walk_py() -> BoxedStrategy<WalkPy> {
    let how = prop_oneof![3 => Just(How::Json), 3 => Just(How::Special), 3 => (fmts(), 0usize..5).prop_map(|(f, k)| How::Load(f, k))];
    let op = prop_oneof![
        2 => Just(PyOp::Walk), 3 => fmts().prop_map(PyOp::Reload), 1 => Just(PyOp::Clone), 1 => Just(PyOp::Copy), 1 => Just(PyOp::Deep),
        1 => any::<bool>().prop_map(PyOp::File)
    ];
    (chain(), prop_oneof![1 => Just(0.), 1 => 0f64..3.], sols(), gaps(6, 2.), any::<bool>(), how, prop::collection::vec(op, 0..4))
        .prop_map(|(chain, t0, sol, gaps, at_start, how, mut ops)| {
            ops.push(PyOp::Walk);
            WalkPy { chain, t0, sol, gaps, at_start, how, ops }
        })
        .boxed()
}
/// the same with many reports
fn long_py() -> BoxedStrategy<WalkPy> {
    (walk_py(), logu(150., 6000.), 0.3f64..3., prop::collection::vec(0.5f64..1.5, 1..9))
        .prop_map(|(mut w, n, d, shape)| {
            let gap = 2. / n;
            match &mut w.sol {
                Sol::Fixed(_, dt) => *dt = gap * d,
                Sol::Adapt(_, a) => {
                    a.rtol = a.rtol.max(1e-3);
                    a.dt_max = a.dt_max.max(gap);
                }
            }
            let recorded = matches!(&w.sol, Sol::Adapt(_, a) if a.save);
            let n = if recorded { n.min(1500.) } else { n } as usize;
            w.gaps = (0..n).map(|k| gap * shape[k % shape.len()]).collect();
            if let How::Load(_, k) = &mut w.how {
                *k *= n / 5;
            }
            w
        })
        .boxed()
}
fn list(v: &[f64]) -> String {
    format!("[{}]", v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", "))
}
fn pybool(b: bool) -> &'static str {
    if b { "True" } else { "False" }
}
fn conf_src(a: &AdaptiveSolverConfig) -> String {
    format!(
        "AdaptiveSolverConfig({:?}, {:?}, {}, {:?}, {:?}, {}, {})",
        a.state.dt, a.dt_max, a.max_iter, a.rtol, a.atol, pybool(a.save), pybool(a.save_states)
    )
}
fn drive<S: Class + Sim>(mut sys: S, w: &WalkPy, made: Option<String>, sc: &Scratch) -> Verdict {
    let mut src = match (&w.how, made) {
        (how, None) => {
            let f = if let How::Load(f, _) = how { *f } else { Fmt::Bincode };
            let b = sys.ser(f);
            sys = S::de(f, &b)?;
            format!("s = {}\n", from_fmt(S::NAME, f, &b))
        }
        (_, Some(m)) => format!("s = {m}\n"),
    };
    src += "out.append(enc(s))\n";
    let mut want = vec![sys.enc()];
    let mut names = vec!["built".to_string()];
    for op in &w.ops {
        match op {
            PyOp::Walk => {
                src += "s.walk()\n";
                sys.walk_();
            }
            PyOp::Reload(f) => {
                src += &match f {
                    Fmt::Yaml => format!("s = {}.from_yaml(s.to_yaml())\n", S::NAME),
                    Fmt::Json => format!("s = {}.from_json(s.to_json())\n", S::NAME),
                    Fmt::Bincode => format!("s = {}.from_bincode(s.to_bincode())\n", S::NAME),
                };
                sys = S::de(*f, &sys.ser(*f))?;
            }
            PyOp::Clone => src += "s = s.clone()\n",
            PyOp::Copy => src += "s = copy.copy(s)\n",
            PyOp::Deep => src += "s = copy.deepcopy(s)\n",
            PyOp::File(json) => {
                let p = thread_file(sc, if *json { "json" } else { "yaml" });
                src += &format!("s.to_file({0})\ns = {1}.from_file({0})\n", quote(&p), S::NAME);
                let f = if *json { Fmt::Json } else { Fmt::Yaml };
                sys = S::de(f, &sys.ser(f))?;
            }
        }
        src += "out.append(enc(s))\n";
        want.push(sys.enc());
        names.push(format!("after {op:?}"));
    }
    src += "out.append(enc(s.to_yaml()))\n";
    want.push(enc_fmt(Fmt::Yaml, &sys.ser(Fmt::Yaml)));
    names.push("as text at the end".into());
    let got = py(&src)?;
    ensure!(got.len() == want.len(), "{} results", got.len());
    for k in 0..want.len() {
        same(&names[k], &got[k], &want[k], &src)?;
    }
    Ok(Info::nt(sys.sysrec().time.len() > 1).label(S::NAME).label(match w.how {
        How::Json => "constructor",
        How::Special => "constructor of the method",
        How::Load(..) => "loaded",
    }))
}
fn check_walk(w: &WalkPy, sc: &Scratch, most: usize) -> Verdict {
    let load = matches!(w.how, How::Load(..));
    let t0 = if load { w.t0 } else { 0. };
    let what = What::Chain(w.chain.clone(), t0);
    let mut sched = cheap(&what, &w.sol, schedule(t0, &w.gaps, w.at_start), most);
    sched.dedup();
    // the solver reaches the constructor as JSON, whose numbers Rust reads the same way
    let solver = w.sol.solver();
    let text = solver.to_json();
    let conf = match &solver {
        SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => Some((**c).clone()),
        _ => None,
    };
    let special = matches!(w.how, How::Special) && conf.is_some();
    let solver = if load || special { solver } else { SolverTypes::from_json(&text).map_err(|e| e.to_string())? };
    let ch = &w.chain;
    let m1 = if ch.bc { format!("ThermalReservoir({:?})", ch.temps[0]) } else { format!("ThermalMass({:?}, {:?})", ch.c[0], ch.temps[0]) };
    let args = format!(
        "{m1}, ThermalMass({:?}, {:?}), Conductance({:?}), ThermalMass({:?}, {:?}), Conductance({:?}), {}",
        ch.c[1], ch.temps[1], ch.h[0], ch.c[2], ch.temps[2], ch.h[1], list(&sched)
    );
    let class = if ch.bc { "System3TMWithBC" } else { "System3TM" };
    let made = if special {
        let name = if matches!(solver, SolverTypes::RK45CashKarp(_)) { "new_rk45_cash_karp" } else { "new_rk23_bogacki_shampine" };
        format!("{class}.{name}({}, {args})", conf_src(&conf.unwrap()))
    } else {
        format!("{class}({}, {args})", quote(&text))
    };
    fn prep<S: Sim>(mut s: S, how: &How, n: usize) -> S {
        if let How::Load(_, k) = how {
            for _ in 0..(*k).min(n) {
                s.manual();
            }
        }
        s
    }
    match ch.build(solver, sched.clone(), t0) {
        ChainSys::Closed(s) => drive(prep(s, &w.how, sched.len()), w, (!load).then_some(made), sc),
        ChainSys::Driven(s) => drive(prep(s, &w.how, sched.len()), w, (!load).then_some(made), sc),
    }
}
pub fn c26(ctx: &mut Ctx) {
    ctx.assume("library and module are compiled by the same compiler for the same machine");
    let sc = Scratch::new(ctx, "files");
    ctx.sub(
        "walks",
        "random parameters, solver and schedule of both example systems; built in Python by either constructor or loaded in any format from a Rust system that has done some steps; walked, reloaded, copied; every intermediate value bitwise the same as in Rust; non-trivial: at least two records",
        ctx.n(8_000, 200_000),
        walk_py,
        |w| check_walk(w, &sc, 150),
    );
    ctx.sub(
        "long",
        "the same with some hundred to six thousand reports; non-trivial: at least two records",
        ctx.n(240, 5_000),
        long_py,
        |w| check_walk(w, &sc, 12_000),
    );
    ctx.sub(
        "values",
        "every class of the module with arbitrary finite content: what Rust writes (YAML, JSON, binary, files) Python reads as the same value and writes as the same text, and the other way round; non-trivial: always",
        ctx.n(24_000, 500_000),
        class_case,
        |c| with_class!(c, x => exchange(&x, c, &sc)),
    );
}

// ---------------------------------------------------------------- C27
/// how a constructor is called: which arguments by name, which optional ones left out
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CtorCase {
    doc: DocCase,
    which: u8,
    /// number of arguments given by position; the rest by name, in an order derived from `order`
    positional: usize,
    order: u64,
    /// optional arguments: given, None, left out
    opts: (u8, u8),
    /// whole numbers given as Python ints
    ints: Vec<i32>,
    use_ints: bool,
    tuple: bool,
}
fn ctor_case() -> BoxedStrategy<CtorCase> {
    (doc_case(), 0u8..10, 0usize..10, any::<u64>(), (0u8..3, 0u8..3), prop::collection::vec(-1000i32..1000, 8), prop::bool::weighted(0.25), any::<bool>())
        .prop_map(|(doc, which, positional, order, opts, ints, use_ints, tuple)| CtorCase { doc, which, positional, order, opts, ints, use_ints, tuple })
        .boxed()
}
fn call(f: &str, args: &[(&str, Option<String>)], c: &CtorCase) -> String {
    let mut pos = vec![];
    let mut named = vec![];
    let mut by_name = false;
    for (k, (n, a)) in args.iter().enumerate() {
        match a {
            Some(a) if k < c.positional && !by_name => pos.push(a.clone()),
            Some(a) => {
                by_name = true;
                named.push(format!("{n}={a}"))
            }
            None => by_name = true,
        }
    }
    let mut o = c.order;
    for i in (1..named.len()).rev() {
        named.swap(i, (o % (i as u64 + 1)) as usize);
        o /= i as u64 + 1;
    }
    pos.extend(named);
    format!("{f}({})", pos.join(", "))
}
/// everything Python can see of `x` must equal the model
fn inspect<T: Class>(expr: &str, model: &T, label: &str) -> Verdict {
    let attrs = model.attrs();
    let mut src = format!("x = {expr}\nout.append(enc(x))\n");
    for (a, _) in &attrs {
        src += &format!("out.append(enc(x{a}))\n");
    }
    // reading leaves no trace
    for (a, _) in attrs.iter().rev() {
        src += &format!("out.append(enc(x{a}))\n");
    }
    src += "out.append(enc(x))\n";
    let got = py(&src)?;
    let n = attrs.len();
    ensure!(got.len() == 2 * n + 2, "{} results", got.len());
    for (k, (a, want)) in attrs.iter().enumerate() {
        same(&format!("{}{a}", T::NAME), &got[1 + k], want, &src)?;
        same(&format!("{}{a} read again", T::NAME), &got[2 * n - k], want, &src)?;
    }
    same(T::NAME, &got[0], &model.enc(), &src)?;
    same(&format!("{} after reading its attributes", T::NAME), &got[2 * n + 1], &model.enc(), &src)?;
    Ok(Info::nt(true).label(label.to_string()))
}
fn check_ctor(c: &CtorCase) -> Verdict {
    let b = Bag::of(&c.doc);
    // the value and how Python is told about it
    let num = |k: usize| -> (f64, String) {
        if c.use_ints {
            (c.ints[k % 8] as f64, format!("{}", c.ints[k % 8]))
        } else {
            (c.doc.nums[k], format!("{:?}", c.doc.nums[k]))
        }
    };
    let sched = || -> (Vec<f64>, String) {
        let v: Vec<f64> = if c.use_ints { c.ints.iter().map(|x| *x as f64).collect() } else { c.doc.t_report.clone() };
        let s = if c.use_ints { format!("{:?}", c.ints) } else { list(&v) };
        (v, if c.tuple { format!("tuple({s})") } else { s })
    };
    match c.which {
        0 => {
            let (a, t) = (num(0), num(1));
            let mut m = ThermalMass::default();
            m.c = a.0;
            m.state.temp = t.0;
            inspect(&call("ThermalMass", &[("c", Some(a.1)), ("temp0", Some(t.1))], c), &m, "ThermalMass")
        }
        1 => {
            let t = num(0);
            let mut m = ThermalReservoir::default();
            m.state.temp = t.0;
            inspect(&call("ThermalReservoir", &[("temp0", Some(t.1))], c), &m, "ThermalReservoir")
        }
        2 => {
            let t = num(0);
            let mut m = Conductance::default();
            m.h = t.0;
            inspect(&call("Conductance", &[("h", Some(t.1))], c), &m, "Conductance")
        }
        3 => {
            let (dt, max, rtol, atol) = (num(0), num(1), num(2), num(3));
            let (iter, flags) = (c.doc.idx[5] as u8, (c.order & 1 == 1, c.order & 2 == 2));
            let opt = |k: u8, v: bool| match k {
                0 => (v, Some(pybool(v).to_string())),
                1 => (false, Some("None".to_string())),
                _ => (false, None),
            };
            let (save, states) = (opt(c.opts.0, flags.0), opt(c.opts.1, flags.1));
            let m = AdaptiveSolverConfig {
                dt_max: max.0,
                max_iter: iter,
                atol: atol.0,
                rtol: rtol.0,
                save: save.0,
                save_states: states.0,
                state: SolverState { dt: dt.0, n_iter: 0, norm_err: None, norm_err_rel: None, t_curr: 0., states: vec![] },
                history: Default::default(),
            };
            let e = call(
                "AdaptiveSolverConfig",
                &[
                    ("dt_init", Some(dt.1)),
                    ("dt_max", Some(max.1)),
                    ("max_iter", Some(iter.to_string())),
                    ("rtol", Some(rtol.1)),
                    ("atol", Some(atol.1)),
                    ("save", save.1),
                    ("save_states", states.1),
                ],
                c,
            );
            inspect(&e, &m, "AdaptiveSolverConfig")
        }
        k => {
            let (m2, h12, m3, h23) = (b.mass(3), b.cond(6), b.mass(8), b.cond(11));
            let (v, t) = sched();
            let bc = k >= 7;
            let class = if bc { "System3TMWithBC" } else { "System3TM" };
            let m1 = if bc { b.res(0).lit() } else { b.mass(0).lit() };
            let (first, solver, f) = match k % 3 {
                1 => {
                    let text = c.doc.conf.solver().to_json();
                    // a number at the end of the range may not be readable from JSON
                    let Ok(s) = SolverTypes::from_json(&text) else { return Ok(Info::nt(false)) };
                    (("solver_type", Some(quote(&text))), s, class.to_string())
                }
                2 => (("sol", Some(c.doc.conf.conf().lit())), SolverTypes::RK45CashKarp(Box::new(c.doc.conf.conf())), format!("{class}.new_rk45_cash_karp")),
                _ => (("sol", Some(c.doc.conf.conf().lit())), SolverTypes::RK23BogackiShampine(Box::new(c.doc.conf.conf())), format!("{class}.new_rk23_bogacki_shampine")),
            };
            let args = [
                first,
                ("m1", Some(m1)),
                ("m2", Some(m2.lit())),
                ("h12", Some(h12.lit())),
                ("m3", Some(m3.lit())),
                ("h23", Some(h23.lit())),
                ("t_report", Some(t)),
            ];
            let e = call(&f, &args, c);
            if bc {
                let s = System3TMWithBC { solver_type: solver, m1: b.res(0), m2, h12, m3, h23, t_report: v, state: Default::default(), history: Default::default() };
                inspect(&e, &s, &f)
            } else {
                let s = System3TM { solver_type: solver, m1: b.mass(0), m2, h12, m3, h23, t_report: v, state: Default::default(), history: Default::default() };
                inspect(&e, &s, &f)
            }
        }
    }
}
fn check_attrs<T: Class>(x: &T, c: &DocCase) -> Verdict {
    inspect(&x.lit(), x, T::NAME)?;
    if c.type_ == 7 {
        // mean of the recorded step lengths
        let conf = c.conf.conf();
        let r = py(&format!("out.append(enc({}.dt_mean()))", conf.lit()))?;
        let n = conf.history.dt.len();
        if n == 0 {
            same("dt_mean()", &r[0], "none", "an empty history")?;
        } else {
            let sum = conf.history.dt.iter().sum::<f64>();
            let big = conf.history.dt.iter().fold(0f64, |m, x| m.max(x.abs()));
            let got = r[0].strip_prefix("float ").and_then(|h| u64::from_str_radix(h, 16).ok()).map(f64::from_bits);
            let Some(got) = got else { return Err(format!("dt_mean() is {} for {:?}", r[0], conf.history.dt)) };
            if big < 1e300 {
                ensure!(close(got, sum / n as f64, 1e-14 * big + 1e-320), "dt_mean() is {got} for {:?}", conf.history.dt);
            }
        }
    }
    Ok(Info::nt(true).label(T::NAME))
}
fn check_copies<T: Class>(x: &T, c: &DocCase) -> Verdict {
    let want = x.enc();
    let mut src = format!(
        "x = {}\ny = x.clone()\nz = copy.copy(x)\nw = copy.deepcopy(x)\nl = copy.deepcopy([x, [x]])\nfor o in (x, y, z, w, l[0], l[1][0]): out.append(enc(o))\n",
        x.lit()
    );
    src += "for o in (y, z, w, l[0]):\n    out.append(enc(o is x))\n    out.append(enc(type(o) is type(x)))\n";
    src += &format!("d = {0}.default()\nout.append(enc(d))\nout.append(enc({0}.default()))\n", T::NAME);
    let got = py(&src)?;
    ensure!(got.len() == 16, "{} results", got.len());
    for (k, n) in ["original", "clone()", "copy.copy()", "copy.deepcopy()", "deepcopy of a list", "deepcopy of a nested list"].iter().enumerate() {
        same(n, &got[k], &want, &src)?;
    }
    for k in 0..4 {
        same("identity of a copy", &got[6 + 2 * k], "bool 0", &src)?;
        same("type of a copy", &got[7 + 2 * k], "bool 1", &src)?;
    }
    same("default()", &got[14], &T::default().enc(), &src)?;
    same("default() again", &got[15], &T::default().enc(), &src)?;
    let _ = c;
    Ok(Info::nt(*x != T::default()).label(T::NAME))
}
/// walking one object changes nothing but that object
fn check_indep(w: &WalkPy) -> Verdict {
    let what = What::Chain(w.chain.clone(), w.t0);
    let mut sched = cheap(&what, &w.sol, schedule(w.t0, &w.gaps, w.at_start), 80);
    sched.dedup();
    fn go<S: Class + Sim>(mut s: S, w: &WalkPy, n: usize) -> Verdict {
        if let How::Load(_, k) = w.how {
            for _ in 0..k.min(n) {
                s.manual();
            }
        }
        let before = s.clone();
        let mut after = s.clone();
        after.walk_();
        let mut src = format!("x = {}\ncs = [x.clone(), copy.copy(x), copy.deepcopy(x)]\n", s.lit());
        let attrs = before.attrs();
        src += "parts = [";
        src += &attrs.iter().map(|(a, _)| format!("x{a}")).collect::<Vec<_>>().join(", ");
        src += &format!("]\nadopted = {}(x.solver_type, x.m1, x.m2, x.h12, x.m3, x.h23, x.t_report)\n", S::NAME);
        src += "a0 = enc(adopted)\nx.walk()\nout.append(enc(x))\nfor o in cs: out.append(enc(o))\nfor o in parts: out.append(enc(o))\nout.append(enc(enc(adopted) == a0))\n";
        // now the copies walk, each for itself
        src += "cs[0].walk()\nfor o in cs: out.append(enc(o))\ncs[2].walk()\nfor o in cs: out.append(enc(o))\nout.append(enc(x))\n";
        for (a, _) in &attrs {
            src += &format!("out.append(enc(x{a}))\n");
        }
        // a list handed out or handed in is not shared
        src += "t = x.t_report\nt.append(1e9)\nout.append(enc(x))\n";
        let got = py(&src)?;
        let (b, a) = (before.enc(), after.enc());
        let mut want = vec![("the walked system".to_string(), a.clone())];
        for k in 0..3 {
            want.push((format!("copy {k} after the original walked"), b.clone()));
        }
        for (n, v) in &attrs {
            want.push((format!("{n} fetched before the walk"), v.clone()));
        }
        want.push(("a system built from the same parts, untouched".into(), "bool 1".into()));
        for k in 0..3 {
            want.push((format!("copy {k} after copy 0 walked"), if k == 0 { a.clone() } else { b.clone() }));
        }
        for k in 0..3 {
            want.push((format!("copy {k} after copies 0 and 2 walked"), if k == 1 { b.clone() } else { a.clone() }));
        }
        want.push(("the original after its copies walked".into(), a.clone()));
        for (n, v) in after.attrs() {
            want.push((format!("{n} after the walk"), v));
        }
        want.push(("the system after its schedule was fetched and edited".into(), a.clone()));
        ensure!(got.len() == want.len(), "{} results for {}", got.len(), want.len());
        for (g, (n, v)) in got.iter().zip(&want) {
            same(n, g, v, &src)?;
        }
        Ok(Info::nt(a != b).label(S::NAME))
    }
    match w.chain.build(w.sol.solver(), sched.clone(), w.t0) {
        ChainSys::Closed(s) => go(s, w, sched.len()),
        ChainSys::Driven(s) => go(s, w, sched.len()),
    }
}
/// attributes and copies of a system with a long past, at every level
fn check_aged(w: &WalkPy) -> Verdict {
    let what = What::Chain(w.chain.clone(), w.t0);
    let mut sched = cheap(&what, &w.sol, schedule(w.t0, &w.gaps, w.at_start), 12_000);
    sched.dedup();
    fn parts<S: Class + Sim>(mut s: S, first: impl Fn(&S) -> Verdict, rest: impl Fn(&S) -> Verdict) -> Verdict {
        s.walk_();
        inspect(&s.lit(), &s, S::NAME)?;
        first(&s)?;
        rest(&s)?;
        Ok(Info::nt(s.sysrec().time.len() > 1000).label(S::NAME))
    }
    macro_rules! rest {
        () => {
            |s| {
                inspect(&s.history.lit(), &s.history, "the history")?;
                inspect(&s.m2.lit(), &s.m2, "a mass")?;
                inspect(&s.m3.history.lit(), &s.m3.history, "the history of a mass")?;
                inspect(&s.h12.lit(), &s.h12, "a conductance")?;
                inspect(&s.h23.history.lit(), &s.h23.history, "the history of a conductance")?;
                if let SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) = &s.solver_type {
                    inspect(&c.lit(), &**c, "the configuration")?;
                    inspect(&c.history.lit(), &c.history, "its history")?;
                }
                Ok(Info::nt(true))
            }
        };
    }
    match w.chain.build(w.sol.solver(), sched, w.t0) {
        ChainSys::Closed(s) => parts(s, |s| inspect(&s.m1.lit(), &s.m1, "a mass"), rest!()),
        ChainSys::Driven(s) => parts(s, |_| Ok(Info::nt(true)), rest!()),
    }
}
/// calls that must be refused with an ordinary exception
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadCase {
    doc: DocCase,
    kind: u8,
    pick: usize,
    bad: usize,
    text: String,
    bytes: Vec<u8>,
}
fn bad_case() -> BoxedStrategy<BadCase> {
    (class_case(), 0u8..8, 0usize..100, 0usize..100, ".{0,40}", prop::collection::vec(any::<u8>(), 0..30))
        .prop_map(|(doc, kind, pick, bad, text, bytes)| BadCase { doc, kind, pick, bad, text, bytes })
        .boxed()
}
/// the arguments of each constructor and their kinds: f number, u small whole number, o optional flag, M mass, R reservoir, H conductance,
/// A configuration, S solver text, T schedule
const CTORS: &[(&str, &[(&str, char)])] = &[
    ("ThermalMass", &[("c", 'f'), ("temp0", 'f')]),
    ("ThermalReservoir", &[("temp0", 'f')]),
    ("Conductance", &[("h", 'f')]),
    ("AdaptiveSolverConfig", &[("dt_init", 'f'), ("dt_max", 'f'), ("max_iter", 'u'), ("rtol", 'f'), ("atol", 'f'), ("save", 'o'), ("save_states", 'o')]),
    ("System3TM", &[("solver_type", 'S'), ("m1", 'M'), ("m2", 'M'), ("h12", 'H'), ("m3", 'M'), ("h23", 'H'), ("t_report", 'T')]),
    ("System3TM.new_rk45_cash_karp", &[("sol", 'A'), ("m1", 'M'), ("m2", 'M'), ("h12", 'H'), ("m3", 'M'), ("h23", 'H'), ("t_report", 'T')]),
    ("System3TM.new_rk23_bogacki_shampine", &[("sol", 'A'), ("m1", 'M'), ("m2", 'M'), ("h12", 'H'), ("m3", 'M'), ("h23", 'H'), ("t_report", 'T')]),
    ("System3TMWithBC", &[("solver_type", 'S'), ("m1", 'R'), ("m2", 'M'), ("h12", 'H'), ("m3", 'M'), ("h23", 'H'), ("t_report", 'T')]),
    ("System3TMWithBC.new_rk45_cash_karp", &[("sol", 'A'), ("m1", 'R'), ("m2", 'M'), ("h12", 'H'), ("m3", 'M'), ("h23", 'H'), ("t_report", 'T')]),
    ("System3TMWithBC.new_rk23_bogacki_shampine", &[("sol", 'A'), ("m1", 'R'), ("m2", 'M'), ("h12", 'H'), ("m3", 'M'), ("h23", 'H'), ("t_report", 'T')]),
];
fn good_arg(k: char) -> &'static str {
    match k {
        'f' => "1.5",
        'u' => "3",
        'o' => "True",
        'M' => "ThermalMass(1.0, 2.0)",
        'R' => "ThermalReservoir(3.0)",
        'H' => "Conductance(4.0)",
        'A' => "AdaptiveSolverConfig.default()",
        'S' => "'{\"RK4Fixed\":{\"dt\":0.1}}'",
        _ => "[0.0, 0.5]",
    }
}
/// arguments that do not fit
fn bad_args(k: char) -> Vec<&'static str> {
    let objs = ["object()", "{}", "lambda: 1", "[1.0, 'x']", "3j", "Conductance"];
    let mut v: Vec<&str> = objs.to_vec();
    v.extend(match k {
        'f' => vec!["'1.0'", "None", "b'1'", "[1.0]", "Conductance(1.0)"],
        'u' => vec!["-1", "256", "10**30", "1.5", "'3'", "None"],
        'o' => vec!["1", "0", "'True'", "0.0", "[]"],
        'M' => vec!["None", "1.0", "ThermalReservoir(1.0)", "Conductance(1.0)", "ThermalMass", "ThermalMass(1.0, 2.0).state"],
        'R' => vec!["None", "1.0", "ThermalMass(1.0, 1.0)", "Conductance(1.0)", "ThermalReservoir"],
        'H' => vec!["None", "1.0", "ThermalMass(1.0, 1.0)", "ThermalReservoir(1.0)"],
        'A' => vec!["None", "1.0", "'{}'", "SolverState.default()", "ThermalMass(1.0, 1.0)"],
        'S' => vec!["None", "1.0", "''", "'{}'", "'RK4Fixed'", "'{\"RK4Fixed\":{}}'", "'{\"RK4\":{\"dt\":0.1}}'", "'{\"RK4Fixed\":{\"dt\":\"a\"}}'", "'{\"RK4Fixed\":{\"dt\":0.1}'", "b'x'", "AdaptiveSolverConfig.default()"],
        _ => vec!["None", "1.0", "['a']", "[None]", "[[0.0]]", "'0.0'"],
    });
    v
}
fn check_bad(c: &BadCase) -> Verdict {
    let (name, args) = CTORS[c.pick % CTORS.len()];
    let good: Vec<String> = args.iter().map(|(_, k)| good_arg(*k).to_string()).collect();
    let required = args.iter().filter(|(_, k)| *k != 'o').count();
    let class = with_class!(&c.doc, x => { fn n<T: Class>(_: &T) -> &'static str { T::NAME } n(&x) });
    let lit = with_class!(&c.doc, x => x.lit());
    let (label, expr) = match c.kind {
        0 => {
            let k = c.bad % args.len();
            let bad = bad_args(args[k].1);
            let mut a = good.clone();
            a[k] = bad[(c.bad / args.len() + c.pick) % bad.len()].into();
            ("wrong argument", format!("{name}({})", a.join(", ")))
        }
        1 => ("missing argument", format!("{name}({})", {
            let skip = c.bad % required;
            args.iter().enumerate().filter(|(k, _)| *k != skip).map(|(k, (n, _))| format!("{n}={}", good[k])).collect::<Vec<_>>().join(", ")
        })),
        2 => ("surplus argument", format!("{name}({}, 1.0)", good.join(", "))),
        3 => ("unknown name", format!("{name}({}, surplus=1.0)", good.join(", "))),
        4 => {
            let garbage = quote(&c.text);
            // text that happens to be a document is not garbage
            let (f, ok) = if c.bad % 2 == 0 { ("from_json", false) } else { ("from_yaml", with_class!(&c.doc, x => { fn p<T: Class>(_: &T, t: &str) -> bool { T::from_yaml(t).is_ok() } p(&x, &c.text) })) };
            if ok {
                return Ok(Info::discard());
            }
            ("garbage text", format!("{class}.{f}({garbage})"))
        }
        5 => {
            if with_class!(&c.doc, x => { fn p<T: Class>(_: &T, t: &[u8]) -> bool { T::from_bincode(t).is_ok() } p(&x, &c.bytes) }) {
                return Ok(Info::nt(false).label("accidental binary document"));
            }
            ("garbage bytes", format!("{class}.from_bincode(bytes.fromhex('{}'))", hex(&c.bytes)))
        }
        6 => {
            let p = ["/nonexistent/x.yaml", "/nonexistent/x.json", "x.toml", "noextension", "", "/", ".yaml/", "x.yml"][c.bad % 8];
            if c.pick % 2 == 0 || p == "x.yml" {
                ("file that is not there", format!("{class}.from_file('/nonexistent{p}')"))
            } else {
                ("file that cannot be written", format!("{lit}.to_file('{p}')"))
            }
        }
        _ => {
            let attrs = with_class!(&c.doc, x => x.attrs());
            let a = attrs.iter().filter(|a| !a.0.ends_with(')')).nth(c.bad % 3).unwrap_or(&attrs[0]).0;
            ("attribute that does not exist", format!("getattr({lit}, '{}_')", &a[1..]))
        }
    };
    let src = format!("out.append(attempt(lambda: {expr}))\nok = {name}({})\nout.append(type(ok).__name__)", good.join(", "));
    let got = py(&src)?;
    ensure!(got[0] == "raised", "{label}: {} {}", short(&expr), got[0]);
    ensure!(got.get(1).map(String::as_str) == Some(name.split('.').next().unwrap()), "a proper call made {:?}", got.get(1));
    Ok(Info::nt(true).label(label))
}
pub fn c27(ctx: &mut Ctx) {
    ctx.assume("finite numbers");
    ctx.sub(
        "constructors",
        "all ten constructors; every argument random and distinct, by position or by name in any order, optional ones given, None or left out, floats or ints, lists or tuples; every attribute and the whole object against the structure they describe; non-trivial: always",
        ctx.n(16_000, 400_000),
        ctor_case,
        check_ctor,
    );
    ctx.sub(
        "attributes",
        "every class with arbitrary finite content; every attribute read twice, forwards and backwards; non-trivial: always",
        ctx.n(16_000, 400_000),
        class_case,
        |c| with_class!(c, x => check_attrs(&x, c)),
    );
    ctx.sub(
        "copies",
        "every class with arbitrary content: clone(), copy, deepcopy (also inside lists), default(); non-trivial: content differs from the default",
        ctx.n(16_000, 400_000),
        class_case,
        |c| with_class!(c, x => check_copies(&x, c)),
    );
    ctx.sub(
        "independence",
        "both systems at a random point of a walk: walking the original leaves copies, fetched attributes and systems built from the same parts alone, and the other way round; non-trivial: the walk changed the system",
        ctx.n(6_000, 150_000),
        walk_py,
        check_indep,
    );
    ctx.sub(
        "aged",
        "both systems after a walk over some hundred to six thousand reports, and every part of them: all attributes read twice; non-trivial: more than a thousand records",
        ctx.n(200, 4_000),
        long_py,
        check_aged,
    );
    ctx.sub(
        "refusals",
        "wrong, missing, surplus or misnamed constructor arguments, garbage documents, impossible files, attributes that do not exist: each raises an ordinary exception and leaves the module usable; non-trivial: refused",
        ctx.n(24_000, 500_000),
        bad_case,
        check_bad,
    );
}
