//! C15, C17, C24, C25, C28: malformed input, history containers, grids, approximate equality, benchmark files.
use crate::common::*;
use crate::ensure;
use crate::odes::*;
use crate::p_walk::*;
use crate::sim::*;
use crate::with_doc;
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- C15
/// equal, NaN counting as equal to NaN
fn same_value<T: Doc>(f: Fmt, a: &T, b: &T) -> Result<(), String> {
    if a == b || format!("{a:?}") == format!("{b:?}") {
        return Ok(());
    }
    same_doc(f, a, b).map(|_| ())
}
/// reading must end in a value or an error; a value must survive being written again
fn read_any<T: Doc>(f: Fmt, bytes: &[u8], file: Option<&str>) -> Result<bool, String> {
    let name = std::any::type_name::<T>().rsplit("::").next().unwrap().to_string();
    let ctx = |m: String| format!("{name}, {f:?}, {}: {m}", String::from_utf8_lossy(bytes));
    let again = |x: &T| -> Result<(), String> {
        let text = guarded(|| x.ser(f)).map_err(|m| ctx(format!("accepted input cannot be written again: {m}")))?;
        let y = guarded(|| T::de(f, &text)).map_err(&ctx)?.map_err(|e| ctx(format!("accepted input, written again as {}, is rejected: {e}", String::from_utf8_lossy(&text))))?;
        same_value(f, x, &y).map_err(|e| ctx(format!("accepted input, written and read again: {e}")))
    };
    let mut ok = false;
    match guarded(|| T::de(f, bytes)).map_err(&ctx)? {
        Ok(x) => {
            again(&x)?;
            ok = true;
        }
        Err(_) => {}
    }
    if let (Some(p), true) = (file, f != Fmt::Bincode) {
        std::fs::write(p, bytes).map_err(|e| e.to_string())?;
        if let Ok(x) = guarded(|| T::from_file(p)).map_err(&ctx)? {
            again(&x)?;
        }
    }
    Ok(ok)
}
#[macro_export]
macro_rules! with_type {
    ($k:expr, $T:ident => $body:expr) => {{
        use dess_examples::three_thrml_mass_w_bc_sys as w;
        match $k {
            0 => { type $T = ThermalMass; $body }
            1 => { type $T = ThermalMassState; $body }
            2 => { type $T = ThermalMassStateHistoryVec; $body }
            3 => { type $T = ThermalReservoir; $body }
            4 => { type $T = Conductance; $body }
            5 => { type $T = ConductanceState; $body }
            6 => { type $T = ConductanceStateHistoryVec; $body }
            7 => { type $T = AdaptiveSolverConfig; $body }
            8 => { type $T = SolverState; $body }
            9 => { type $T = SolverStateHistoryVec; $body }
            10 => { type $T = SolverTypes; $body }
            11 => { type $T = SystemState; $body }
            12 => { type $T = SystemStateHistoryVec; $body }
            13 => { type $T = System3TM; $body }
            14 => { type $T = w::System3TMWithBC; $body }
            15 => { type $T = w::SystemState3TM; $body }
            _ => { type $T = w::SystemState3TMHistoryVec; $body }
        }
    }};
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    Delete(u16, u8),
    Insert(u16, Vec<u8>),
    Token(u16, String),
    DupLine(u16),
    SwapLines(u16, u16),
    Truncate(u16),
    Flip(u16, u8),
    Word(u16, u64),
    Value(u16, String),
}
const TOKENS: &[&str] = &[
    "null", "~", "true", "false", "1", "-1", "1.5", "1e400", "-1e400", "1e-400", ".nan", ".inf", "-.inf", "NaN", "Infinity", "18446744073709551616", "-9223372036854775809", "340282366920938463463374607431768211456", "256", "0x10", "0o7", "1_000", "\"\"", "\"1.5\"", "abc", "[]", "{}", "[1]", "[[]]", "{\"a\": 1}",
    "&a", "*a", "<<: *a", "!!float 1", "!!binary aGk=", "!RK4Fixed", "RK4Fixed", "!EulerFixed", "- ", "? ", "|", ">", "#", "---", "...", "%YAML 1.2", "\t", "\u{0}", "\u{feff}", "\u{7f}", "é", "😀", "\\u0000", "\\ud800", "'", "\"", ":", ",", "[", "]", "{", "}", "\n", "\r\n", "  ",
];
fn muts() -> BoxedStrategy<Mut> {
    let tok = || prop_oneof![6 => prop::sample::select(TOKENS).prop_map(|s| s.to_string()), 1 => "[ -~]{0,6}", 1 => (1usize..400, prop::sample::select(vec!["[", "{\"a\":", "- ", "!a ", "{a: ", "[{"])).prop_map(|(n, s)| s.repeat(n))];
    prop_oneof![
        2 => (any::<u16>(), 1u8..20).prop_map(|(a, b)| Mut::Delete(a, b)),
        1 => (any::<u16>(), prop::collection::vec(any::<u8>(), 1..6)).prop_map(|(a, b)| Mut::Insert(a, b)),
        3 => (any::<u16>(), tok()).prop_map(|(a, b)| Mut::Token(a, b)),
        4 => (any::<u16>(), tok()).prop_map(|(a, b)| Mut::Value(a, b)),
        1 => any::<u16>().prop_map(Mut::DupLine),
        1 => any::<(u16, u16)>().prop_map(|(a, b)| Mut::SwapLines(a, b)),
        1 => any::<u16>().prop_map(Mut::Truncate),
        2 => (any::<u16>(), 1u8..=255).prop_map(|(a, b)| Mut::Flip(a, b)),
        2 => (any::<u16>(), prop_oneof![prop::sample::select(vec![0u64, 1, 2, 7, 255, 1 << 20, 1 << 32, 1 << 61, u64::MAX, i64::MAX as u64, f64::NAN.to_bits(), f64::INFINITY.to_bits()]), any::<u64>()]).prop_map(|(a, b)| Mut::Word(a, b)),
    ]
    .boxed()
}
fn mutate(mut b: Vec<u8>, ms: &[Mut]) -> Vec<u8> {
    for m in ms {
        let n = b.len();
        let at = |p: u16| p as usize * (n + 1) / 65536;
        match m {
            Mut::Delete(p, k) => {
                let i = at(*p);
                b.drain(i..(i + *k as usize).min(n));
            }
            Mut::Insert(p, v) => {
                let i = at(*p);
                b.splice(i..i, v.iter().copied());
            }
            Mut::Token(p, t) => {
                let i = at(*p);
                b.splice(i..i, t.bytes());
            }
            Mut::Value(p, t) => {
                // replace what follows the next colon, up to the end of the value
                let i = at(*p);
                if let Some(k) = b[i..].iter().position(|c| *c == b':').map(|k| i + k + 1) {
                    let e = b[k..].iter().position(|c| b",}\n]".contains(c)).map_or(b.len(), |e| k + e);
                    b.splice(k..e, format!(" {t}").bytes());
                }
            }
            Mut::DupLine(p) => {
                let i = at(*p);
                let s = b[..i].iter().rposition(|c| *c == b'\n').map_or(0, |k| k + 1);
                let e = b[i..].iter().position(|c| *c == b'\n').map_or(b.len(), |k| i + k + 1);
                let line = b[s..e].to_vec();
                b.splice(s..s, line);
            }
            Mut::SwapLines(p, q) => {
                let mut lines: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
                let k = lines.len();
                lines.swap(*p as usize % k, *q as usize % k);
                b = lines.join(&b'\n');
            }
            Mut::Truncate(p) => b.truncate(at(*p)),
            Mut::Flip(p, x) => {
                if n > 0 {
                    b[*p as usize * n / 65536] ^= x;
                }
            }
            Mut::Word(p, w) => {
                let i = at(*p) / 8 * 8;
                for (k, x) in w.to_le_bytes().iter().enumerate() {
                    if i + k < n {
                        b[i + k] = *x;
                    }
                }
            }
        }
    }
    b
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MutCase {
    doc: DocCase,
    ms: Vec<Mut>,
    /// read as this type and format (mostly the document's own)
    as_type: Option<u8>,
    as_fmt: Option<Fmt>,
}
fn mut_case() -> BoxedStrategy<MutCase> {
    (doc_case(), prop::collection::vec(muts(), 0..4), prop_oneof![8 => Just(None), 1 => (0..N_TYPES).prop_map(Some)], prop_oneof![8 => Just(None), 1 => fmts().prop_map(Some)])
        .prop_map(|(doc, ms, as_type, as_fmt)| MutCase { doc, ms, as_type, as_fmt })
        .boxed()
}
fn check_mut(c: &MutCase, sc: &Scratch) -> Verdict {
    let bytes = with_doc!(&c.doc, x => x.ser(c.doc.fmt));
    let m = mutate(bytes.clone(), &c.ms);
    let f = c.as_fmt.unwrap_or(c.doc.fmt);
    let file = c.doc.file.then(|| thread_file(sc, if f == Fmt::Json { "json" } else { "yaml" }));
    let ok = with_type!(c.as_type.unwrap_or(c.doc.type_), T => read_any::<T>(f, &m, file.as_deref())?);
    Ok(Info::nt(m != bytes).label(if ok { "accepted" } else { "rejected" }).label(format!("{f:?}")))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawCase {
    type_: u8,
    fmt: Fmt,
    bytes: Vec<u8>,
    file: bool,
}
fn raw_case() -> BoxedStrategy<RawCase> {
    let b = prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 0..200),
        2 => prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => any::<u8>()], 0..300),
        3 => prop::collection::vec(prop::sample::select(TOKENS), 0..20).prop_map(|v| v.concat().into_bytes()),
        3 => prop::collection::vec(prop::sample::select(vec!["temp", "dtemp", "state", "history", "c", "h", "q", "i", "time", ": ", "\n", "  ", "1.0", "[", "]", "{", "}", ",", "\"", "- ", "dt", "RK4Fixed", "EulerFixed", "!", "m1", "solver_type"]), 0..30).prop_map(|v| v.concat().into_bytes()),
        1 => (1usize..3000, prop::sample::select(vec!["[", "{\"state\":", "- ", "? ", "{a: ", "[{", "!RK4Fixed ", "&a ", "state:\n "])).prop_map(|(n, s)| s.repeat(n).into_bytes()),
    ];
    (0..N_TYPES, fmts(), b, any::<bool>()).prop_map(|(type_, fmt, bytes, file)| RawCase { type_, fmt, bytes, file }).boxed()
}
fn check_raw(c: &RawCase, sc: &Scratch) -> Verdict {
    let file = c.file.then(|| thread_file(sc, if c.fmt == Fmt::Json { "json" } else { "yaml" }));
    let ok = with_type!(c.type_, T => read_any::<T>(c.fmt, &c.bytes, file.as_deref())?);
    Ok(Info::nt(!c.bytes.is_empty()).label(if ok { "accepted" } else { "rejected" }).label(format!("{:?}", c.fmt)))
}
/// one leaf or branch of a valid document replaced by something of another type: must be an error
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WrongCase {
    doc: DocCase,
    pick: u16,
    with: u8,
}
fn paths(v: &serde_json::Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    use serde_json::Value as V;
    if !at.is_empty() {
        out.push(at.clone());
    }
    match v {
        V::Object(m) => {
            for (k, w) in m {
                at.push(k.clone());
                paths(w, at, out);
                at.pop();
            }
        }
        V::Array(m) => {
            for (k, w) in m.iter().enumerate() {
                at.push(k.to_string());
                paths(w, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(mut v: &'a mut serde_json::Value, p: &[String]) -> &'a mut serde_json::Value {
    for k in p {
        v = match v {
            serde_json::Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            serde_json::Value::Object(o) => o.get_mut(k).unwrap(),
            _ => unreachable!(),
        };
    }
    v
}
fn check_wrong(c: &WrongCase, sc: &Scratch) -> Verdict {
    use serde_json::{json, Value as V};
    let mut v = with_doc!(&c.doc, x => serde_json::to_value(&x).map_err(|e| e.to_string())?);
    let mut all = vec![];
    paths(&v, &mut vec![], &mut all);
    if all.is_empty() {
        return Ok(Info::discard());
    }
    let p = all[c.pick as usize * all.len() / 65536].clone();
    let original = v.clone();
    let place = at(&mut v, &p);
    let was = place.clone();
    let list = |v: &V| v.is_array();
    let wrong = match (&was, c.with % 8) {
        (V::Null, 0) => json!("abc"),
        (V::Null, 1) => json!([1.5]),
        (V::Null, 2) => json!({"a": 1}),
        (V::Null, _) => json!(true),
        (V::Number(_), 0) => json!("abc"),
        (V::Number(_), 1) => json!([1.5]),
        (V::Number(_), 2) => json!({"a": 1}),
        (V::Number(_), 3) => json!(false),
        (V::Number(_), 4) => json!([]),
        (V::Number(n), 5) if n.is_u64() => json!(-1),
        (V::Number(n), 5 | 6) if n.is_u64() => json!(1.5),
        (V::Number(_), _) => json!("x y"),
        (V::Bool(_), 0) => json!("abc"),
        (V::Bool(_), 1) => json!(1),
        (V::Bool(_), 2) => json!([true]),
        (V::Bool(_), 3) => json!({}),
        (V::Bool(_), _) => json!(null),
        (x, 0) if list(x) => json!(1.5),
        (x, 1) if list(x) => json!("abc"),
        (x, 2) if list(x) => json!({"a": 1}),
        (x, _) if list(x) => json!(true),
        (V::Object(_), 0) => json!(1.5),
        (V::Object(_), 1) => json!("abc"),
        (V::Object(_), 2) => json!(true),
        (V::Object(_), _) => json!(null),
        _ => json!([1]),
    };
    *place = wrong.clone();
    // YAML writes the variant of an enum as a tag
    let write = |v: &serde_json::Value| -> Result<String, String> {
        if c.doc.fmt == Fmt::Json {
            return Ok(v.to_string());
        }
        let mut y = serde_yaml::to_value(v).map_err(|e| e.to_string())?;
        retag(&mut y, c.doc.type_ == 10);
        serde_yaml::to_string(&y).map_err(|e| e.to_string())
    };
    let text = write(&v)?;
    let sound = write(&original)?;
    let f = if c.doc.fmt == Fmt::Json { Fmt::Json } else { Fmt::Yaml };
    let file = c.doc.file.then(|| thread_file(sc, if f == Fmt::Json { "json" } else { "yaml" }));
    let key = p.join(".");
    with_type!(c.doc.type_, T => {
        let name = std::any::type_name::<T>().rsplit("::").next().unwrap();
        if let Err(e) = T::de(f, sound.as_bytes()) {
            return Err(format!("{name} from {f:?}: a valid document is refused: {e}\n{sound}"));
        }
        if let Ok(x) = guarded(|| T::de(f, text.as_bytes()))? {
            return Err(format!("{name} from {f:?}: {key} given as {wrong} instead of {was} is accepted: {x:?}"));
        }
        if let Some(q) = &file {
            std::fs::write(q, &text).map_err(|e| e.to_string())?;
            if let Ok(x) = guarded(|| T::from_file(q))? {
                return Err(format!("{name} from a {f:?} file: {key} given as {wrong} instead of {was} is accepted: {x:?}"));
            }
        }
    });
    Ok(Info::nt(true).label(format!("{f:?}")).label(kind(&was)))
}
fn kind(v: &serde_json::Value) -> &'static str {
    match v {
        serde_json::Value::Null => "optional",
        serde_json::Value::Bool(_) => "flag",
        serde_json::Value::Number(_) => "number",
        serde_json::Value::Array(_) => "list",
        _ => "structure",
    }
}
/// turn the one-entry mapping of an enum into a tagged value
fn retag(v: &mut serde_yaml::Value, top: bool) {
    use serde_yaml::value::{Tag, TaggedValue};
    use serde_yaml::Value as Y;
    let tag = |m: &mut Y| {
        if let Y::Mapping(k) = m {
            if k.len() == 1 {
                let (name, val) = k.iter().next().map(|(a, b)| (a.clone(), b.clone())).unwrap();
                if let Y::String(n) = name {
                    *m = Y::Tagged(Box::new(TaggedValue { tag: Tag::new(n), value: val }));
                }
            }
        }
    };
    if top {
        tag(v);
    } else if let Y::Mapping(m) = v {
        if let Some(s) = m.get_mut("solver_type") {
            tag(s);
        }
    }
}
/// a strict beginning of a binary or JSON document is malformed
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CutCase {
    doc: DocCase,
    at: u16,
}
fn check_cut(c: &CutCase) -> Verdict {
    let f = if c.doc.fmt == Fmt::Yaml { Fmt::Bincode } else { c.doc.fmt };
    let b = with_doc!(&c.doc, x => x.ser(f));
    let k = c.at as usize * b.len() / 65536;
    with_type!(c.doc.type_, T => {
        if let Ok(x) = guarded(|| T::de(f, &b[..k]))? {
            return Err(format!("the first {k} of {} bytes of a {f:?} document are accepted as {x:?}", b.len()));
        }
    });
    Ok(Info::nt(k > 0).label(format!("{f:?}")))
}
/// a document with more behind it is malformed
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MoreCase {
    doc: DocCase,
    with: u8,
    blank: u8,
}
fn check_more(c: &MoreCase, sc: &Scratch) -> Verdict {
    let f = if c.doc.fmt == Fmt::Json { Fmt::Json } else { Fmt::Yaml };
    let own = String::from_utf8(with_doc!(&c.doc, x => x.ser(f))).map_err(|e| e.to_string())?;
    let blank = ["", "\n", "  ", "\n\n", " \r\n"][c.blank as usize % 5];
    let (label, text) = if f == Fmt::Json {
        let more = [own.as_str(), "null", "1", "{}", "[]", "}", "]", ",", "\"", "garbage", "//", "\u{feff}", "0.5e"][c.with as usize % 13];
        (if c.with as usize % 13 == 0 { "another document" } else { "text" }, format!("{own}{blank}{more}"))
    } else {
        let k = c.with as usize % 9;
        let more = ["---\n", "---\n", "---\n", "---\n", "---\n", "...\n---\n", "", "", ""][k].to_string()
            + [own.as_str(), "1\n", "[]\n", "{a: 1}\n", "null\n", own.as_str(), "garbage\n", "]\n", "}\n"][k];
        (if k < 6 { "another document" } else { "text" }, format!("{own}{}{more}", if c.blank % 2 == 0 { "" } else { "\n" }))
    };
    let file = c.doc.file.then(|| thread_file(sc, if f == Fmt::Json { "json" } else { "yaml" }));
    with_type!(c.doc.type_, T => {
        if let Err(e) = T::de(f, format!("{own}{}", if f == Fmt::Json { blank } else { "" }).as_bytes()) {
            return Err(format!("a valid document is refused: {e}\n{own}"));
        }
        let r = match &file {
            None => guarded(|| T::de(f, text.as_bytes()))?,
            Some(p) => {
                std::fs::write(p, &text).map_err(|e| e.to_string())?;
                guarded(|| T::from_file(p).map_err(|e| e.to_string()))?
            }
        };
        if let Ok(x) = r {
            return Err(format!("a {f:?} document with more behind it is accepted as {x:?}:\n{text}"));
        }
    });
    Ok(Info::nt(true).label(format!("{f:?} and {label}")))
}
/// file names that must be refused
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExtCase {
    doc: DocCase,
    stem: String,
    ext: Option<String>,
    exists: bool,
    missing_dir: bool,
}
fn ext_case() -> BoxedStrategy<ExtCase> {
    let ext = prop_oneof![
        6 => prop::sample::select(vec!["yml", "json5", "jsonl", "JSON", "YAML", "Yaml", "txt", "bin", "bincode", "toml", "yaml~", "json.bak", "yaml.gz", "bak", "", "js", "jso", "yam", "y", "json ", " yaml", "ndjson", "myyaml", "csv", "rs"]).prop_map(|s| s.to_string()),
        3 => "[a-zA-Z0-9]{1,6}",
    ]
    .prop_filter("supported", |e| e != "json" && e != "yaml" && !e.ends_with(".json") && !e.ends_with(".yaml"));
    (
        doc_case(),
        prop_oneof![Just("f".to_string()), Just("x.json".to_string()), Just("yaml".to_string()), Just("json".to_string()), Just("a b".to_string()), "[a-z]{1,8}", Just(".hidden".to_string()), Just(".yaml".to_string()), Just(".json".to_string())],
        prop::option::weighted(0.8, ext),
        any::<bool>(),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(doc, stem, ext, exists, missing_dir)| ExtCase { doc, stem, ext, exists, missing_dir })
        .boxed()
}
fn check_ext(c: &ExtCase, sc: &Scratch) -> Verdict {
    let dir = PathBuf::from(thread_file(sc, "d"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let mut p = dir.clone();
    if c.missing_dir {
        p.push("nowhere");
    }
    p.push(match &c.ext {
        Some(e) => format!("{}.{e}", c.stem),
        None => c.stem.clone(),
    });
    let supported = matches!(p.extension().and_then(|e| e.to_str()), Some("json" | "yaml"));
    let path = p.to_str().unwrap().to_string();
    let text = with_doc!(&c.doc, x => if c.doc.fmt == Fmt::Json { x.to_json() } else { x.to_yaml() });
    let exists = c.exists && !c.missing_dir;
    let mut info = Info::nt(!supported).label_if(exists, "file existed").label_if(c.missing_dir, "missing directory").label_if(supported, "supported extension");
    if exists {
        std::fs::write(&p, &text).map_err(|e| e.to_string())?;
    }
    let before = snapshot(&dir);
    with_doc!(&c.doc, x => {
        let r = read_guard(&x, &path)?;
        // reading
        if supported {
            if !exists { ensure!(r.is_err(), "reading the missing file {path} gave {r:?}"); }
        } else {
            ensure!(r.is_err(), "reading {path} (unsupported extension{}) gave {r:?}", if exists { "" } else { ", missing file" });
        }
        ensure!(snapshot(&dir) == before, "reading {path} changed files: {:?} instead of {:?}", snapshot(&dir).keys(), before.keys());
        // writing
        let w = guarded(|| x.to_file(&path))?;
        if c.missing_dir {
            ensure!(w.is_err(), "writing to {path} in a missing directory succeeded");
        }
        if !supported {
            ensure!(w.is_err(), "writing {path} (unsupported extension) succeeded");
        }
        if !supported || c.missing_dir {
            ensure!(snapshot(&dir) == before, "a refused write to {path} created or changed a file: {:?} instead of {:?}", snapshot(&dir).keys(), before.keys());
        } else {
            ensure!(w.is_ok(), "writing {path} failed: {w:?}");
            let now = snapshot(&dir);
            ensure!(now.len() == 1, "writing {path} left {:?}", now.keys());
        }
    });
    if c.missing_dir && supported {
        info.nontrivial = true;
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(info)
}
fn read_guard<T: Doc>(_: &T, path: &str) -> Result<Result<T, String>, String> {
    guarded(|| T::from_file(path).map_err(|e| e.to_string()))
}
/// every file below a directory with its content
pub fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if e.file_type().is_ok_and(|t| t.is_dir()) {
                todo.push(p.clone());
                out.insert(p, b"directory".to_vec());
            } else {
                out.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    out
}
pub fn c15(ctx: &mut Ctx) {
    ctx.assume("JSON numbers compared up to two units in the last place (known finding of C14)");
    let sc = Scratch::new(ctx, "files");
    ctx.sub(
        "mutated",
        "valid documents of every public type and format (arbitrary numbers, histories, flags) with up to three random edits of text, tokens, values or bytes, sometimes read as another type or format; in memory and from files; non-trivial: the document was changed",
        ctx.n(400_000, 6_000_000),
        mut_case,
        |c| check_mut(c, &sc),
    );
    ctx.sub(
        "arbitrary",
        "random bytes, mostly-zero bytes, token soup, field-name soup and deep nesting, read as every type and format; non-trivial: not empty",
        ctx.n(300_000, 5_000_000),
        raw_case,
        |c| check_raw(c, &sc),
    );
    ctx.sub(
        "wrong-type",
        "valid documents with one field, list, list element or structure replaced by a value of another type; must be refused; non-trivial: always",
        ctx.n(200_000, 3_000_000),
        || (doc_case(), any::<u16>(), any::<u8>()).prop_map(|(doc, pick, with)| WrongCase { doc, pick, with }).boxed(),
        |c| check_wrong(c, &sc),
    );
    ctx.sub(
        "cut",
        "strict beginnings of binary and JSON documents; must be refused; non-trivial: not empty",
        ctx.n(150_000, 2_000_000),
        || (doc_case(), any::<u16>()).prop_map(|(doc, at)| CutCase { doc, at }).boxed(),
        check_cut,
    );
    ctx.sub(
        "surplus",
        "valid JSON and YAML documents followed by another document or other text, as text or file; must be refused; non-trivial: always",
        ctx.n(100_000, 2_000_000),
        || (doc_case(), any::<u8>(), any::<u8>()).prop_map(|(doc, with, blank)| MoreCase { doc, with, blank }).boxed(),
        |c| check_more(c, &sc),
    );
    ctx.sub(
        "file-names",
        "random file names with unsupported or no extension, existing or missing files, missing directories, for reading and writing; non-trivial: the access must be refused",
        ctx.n(60_000, 600_000),
        ext_case,
        |c| check_ext(c, &sc),
    );
}

// ---------------------------------------------------------------- C17
#[derive(Clone, Debug, Serialize, Deserialize)]
enum HOp {
    Push(Vec<f64>, u8),
    Pop,
    Clear,
    /// go on with a copy; afterwards the original must not have moved
    Copy,
    Reload(Fmt),
    /// a new container
    New(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HCase {
    type_: u8,
    ops: Vec<HOp>,
}
fn hop() -> BoxedStrategy<HOp> {
    prop_oneof![
        12 => (prop::collection::vec(fnum(), 6), any::<u8>()).prop_map(|(v, k)| HOp::Push(v, k)),
        6 => Just(HOp::Pop),
        1 => Just(HOp::Clear),
        1 => Just(HOp::Copy),
        1 => prop::sample::select(vec![Fmt::Yaml, Fmt::Bincode]).prop_map(HOp::Reload),
        1 => any::<bool>().prop_map(HOp::New),
    ]
    .boxed()
}
/// one generated container with its state type
trait Hist: Doc + Default {
    type S: Clone + PartialEq + std::fmt::Debug;
    fn fresh() -> Self;
    fn state(v: &[f64], k: u8) -> Self::S;
    fn push_(&mut self, s: Self::S);
    fn pop_(&mut self) -> Option<Self::S>;
    fn clear_(&mut self);
    fn len_(&self) -> usize;
    fn empty_(&self) -> bool;
    /// fields, each as the list of its values printed
    fn fields(&self) -> Vec<Vec<String>>;
    fn want(m: &[Self::S]) -> Vec<Vec<String>>;
}
macro_rules! impl_hist {
    ($H:ty, $S:ty, [$($f:ident),+], |$v:ident, $k:ident| $mk:expr) => {
        impl Hist for $H {
            type S = $S;
            fn fresh() -> Self { <$H>::new() }
            fn state($v: &[f64], $k: u8) -> $S { let _ = $k; $mk }
            fn push_(&mut self, s: $S) { self.push(s) }
            fn pop_(&mut self) -> Option<$S> { self.pop() }
            fn clear_(&mut self) { self.clear() }
            fn len_(&self) -> usize { self.len() }
            fn empty_(&self) -> bool { self.is_empty() }
            fn fields(&self) -> Vec<Vec<String>> { vec![$(self.$f.iter().map(|x| format!("{x:?}")).collect()),+] }
            fn want(m: &[$S]) -> Vec<Vec<String>> { vec![$(m.iter().map(|x| format!("{:?}", x.$f)).collect()),+] }
        }
    };
}
impl_hist!(ThermalMassStateHistoryVec, ThermalMassState, [temp, dtemp], |v, k| ThermalMassState { temp: v[0], dtemp: v[1] });
impl_hist!(ConductanceStateHistoryVec, ConductanceState, [q], |v, k| ConductanceState { q: v[0] });
impl_hist!(SystemStateHistoryVec, SystemState, [i, time], |v, k| SystemState { i: k as usize * 77, time: v[0] });
impl_hist!(CellStateHistoryVec, CellState, [x, dx], |v, k| CellState { x: v[0], dx: v[1] });
impl_hist!(SolverStateHistoryVec, SolverState, [dt, n_iter, norm_err, norm_err_rel, t_curr, states], |v, k| SolverState {
    dt: v[0],
    n_iter: k,
    norm_err: (k & 1 == 0).then_some(v[1]),
    norm_err_rel: (k & 2 == 0).then_some(v[2]),
    t_curr: v[3],
    states: v[4..4 + (k as usize % 3)].to_vec(),
});
fn agree<H: Hist>(h: &H, m: &[H::S], what: &str) -> Result<(), String> {
    ensure!(h.len_() == m.len(), "after {what}: length {} instead of {}", h.len_(), m.len());
    ensure!(h.empty_() == m.is_empty(), "after {what}: emptiness is {} with {} entries", h.empty_(), m.len());
    let (f, w) = (h.fields(), H::want(m));
    for (k, (f, w)) in f.iter().zip(&w).enumerate() {
        ensure!(f == w, "after {what}: field {k} is {f:?} instead of {w:?}");
    }
    Ok(())
}
fn run_hist<H: Hist>(ops: &[HOp]) -> Verdict {
    let mut h = H::fresh();
    let mut m: Vec<H::S> = vec![];
    agree(&h, &m, "creation")?;
    let mut left: Vec<(H, Vec<H::S>)> = vec![];
    let (mut pops, mut max) = (0, 0);
    for op in ops {
        match op {
            HOp::Push(v, k) => {
                h.push_(H::state(v, *k));
                m.push(H::state(v, *k));
            }
            HOp::Pop => {
                let (a, b) = (h.pop_(), m.pop());
                ensure!(a == b, "pop gave {a:?} instead of {b:?}");
                pops += b.is_some() as u64;
            }
            HOp::Clear => {
                h.clear_();
                m.clear();
            }
            HOp::Copy => {
                let copy = h.clone();
                left.push((std::mem::replace(&mut h, copy), m.clone()));
            }
            HOp::Reload(f) => h = H::de(*f, &h.ser(*f))?,
            HOp::New(d) => {
                h = if *d { H::default() } else { H::fresh() };
                m.clear();
            }
        }
        max = max.max(m.len());
        agree(&h, &m, &format!("{op:?}"))?;
    }
    for (h, m) in &left {
        agree(h, m, "work on a copy")?;
    }
    // drain: the states come back last first
    while let Some(s) = m.pop() {
        let g = h.pop_();
        ensure!(g.as_ref() == Some(&s), "pop gave {g:?} instead of {s:?}");
    }
    ensure!(h.pop_().is_none() && h.empty_() && h.len_() == 0, "a drained container is not empty: {h:?}");
    let name = std::any::type_name::<H>().rsplit("::").next().unwrap();
    Ok(Info::nt(pops > 0 && max > 1).label(name).count("operations", ops.len() as u64))
}
/// few operations on containers that hold thousands of entries
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongHist {
    type_: u8,
    base: Vec<f64>,
    /// push so many, then pop so many
    blocks: Vec<(u32, u32)>,
    clear: bool,
}
fn run_long<H: Hist>(c: &LongHist) -> Verdict {
    let mut h = H::fresh();
    let mut m: Vec<H::S> = vec![];
    let mut k = 0u32;
    for (b, (push, pop)) in c.blocks.iter().enumerate() {
        for _ in 0..*push {
            let v: Vec<f64> = c.base.iter().map(|x| x + k as f64).collect();
            h.push_(H::state(&v, k as u8));
            m.push(H::state(&v, k as u8));
            k += 1;
            ensure!(h.len_() == m.len(), "length {} after {} entries were pushed", h.len_(), m.len());
        }
        for _ in 0..*pop {
            let (a, b) = (h.pop_(), m.pop());
            ensure!(a == b, "pop gave {a:?} instead of {b:?} with {} entries left", m.len());
        }
        ensure!(h.len_() == m.len() && h.empty_() == m.is_empty(), "length {} instead of {}", h.len_(), m.len());
        let (f, w) = (h.fields(), H::want(&m));
        for (i, (f, w)) in f.iter().zip(&w).enumerate() {
            if f != w {
                let at = f.iter().zip(w).take_while(|(a, b)| a == b).count();
                return Err(format!("after {} entries: field {i} differs from entry {at} on: {:?} instead of {:?}", m.len(), f.get(at), w.get(at)));
            }
        }
        if b == 0 && c.clear {
            h.clear_();
            m.clear();
            ensure!(h.empty_() && h.len_() == 0 && h.fields() == H::want(&m), "entries remain after clear");
        }
    }
    Ok(Info::nt(true).count("entries", k as u64))
}
pub fn c17(ctx: &mut Ctx) {
    ctx.assume("states pushed hold finite numbers");
    ctx.sub(
        "long",
        "containers with some hundred to thirty thousand, now and then up to two hundred thousand entries; non-trivial: always",
        ctx.n(400, 6_000),
        || {
            let n = |lo: f64, hi: f64| (0f64..1.).prop_map(move |u| (lo * (hi / lo).powf(u)) as u32);
            (0u8..5, prop::collection::vec((-4i32..4).prop_map(|x| x as f64 / 4.), 6), prop::collection::vec((prop_oneof![15 => n(300., 30_000.), 1 => n(60_000., 200_000.)], n(1., 30_000.)), 1..3), any::<bool>())
                .prop_map(|(type_, base, blocks, clear)| LongHist { type_, base, blocks, clear })
                .boxed()
        },
        |c| match c.type_ {
            0 => run_long::<ThermalMassStateHistoryVec>(c),
            1 => run_long::<ConductanceStateHistoryVec>(c),
            2 => run_long::<SystemStateHistoryVec>(c),
            3 => run_long::<CellStateHistoryVec>(c),
            _ => run_long::<SolverStateHistoryVec>(c),
        },
    );
    ctx.sub(
        "containers",
        "random operation sequences (push, pop, clear, copy, reload, new) on every history container of library and examples and one of the harness' own, against a plain vector of states; non-trivial: a state was popped and more than one was held",
        ctx.n(200_000, 3_000_000),
        || (0u8..5, prop::collection::vec(hop(), 0..60)).prop_map(|(type_, ops)| HCase { type_, ops }).boxed(),
        |c| match c.type_ {
            0 => run_hist::<ThermalMassStateHistoryVec>(&c.ops),
            1 => run_hist::<ConductanceStateHistoryVec>(&c.ops),
            2 => run_hist::<SystemStateHistoryVec>(&c.ops),
            3 => run_hist::<CellStateHistoryVec>(&c.ops),
            _ => run_hist::<SolverStateHistoryVec>(&c.ops),
        },
    );
}

// ---------------------------------------------------------------- C24
fn moderate() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => num(100.),
        2 => (any::<bool>(), logu(1e-100, 1e100)).prop_map(|(s, v)| if s { v } else { -v }),
        1 => prop::sample::select(vec![0., -0., 1., -1., 0.1, 1e16, 1e-16, 1. / 3.]),
        1 => (-1000i32..1000).prop_map(|k| k as f64),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grid {
    a: f64,
    b: f64,
    n: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Elem {
    Num(f64),
    Special(usize),
}
const SPECIAL: &[f64] = &[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0., -0., f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, 1e300, f64::EPSILON];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Slope {
    v: Vec<f64>,
    n: usize,
    slope: f64,
}
fn grid() -> BoxedStrategy<Grid> {
    let ab = prop_oneof![
        4 => (moderate(), moderate()),
        1 => moderate().prop_map(|a| (a, a)),
        2 => (moderate(), logu(1e-14, 1.), any::<bool>()).prop_map(|(a, d, s)| (a, if s { a * (1. + d) } else { a * (1. - d) })),
    ];
    (ab, prop_oneof![2 => 0usize..4, 6 => 2usize..60, 2 => 60usize..3000]).prop_map(|((a, b), n)| Grid { a, b, n }).boxed()
}
fn check_grid(c: &Grid) -> Verdict {
    check_grid_of(c, 1)
}
/// (spacing is compared with every element and its successor, `stride` apart)
fn check_grid_of(c: &Grid, stride: usize) -> Verdict {
    let v = Vec::<f64>::linspace(c.a, c.b, c.n);
    ensure!(v.len() == c.n, "{} elements instead of {}", v.len(), c.n);
    if c.n == 0 {
        return Ok(Info::nt(false).label("empty"));
    }
    let m = c.a.abs().max(c.b.abs());
    let tol = 8. * f64::EPSILON * m;
    ensure!(close(v[0], c.a, tol), "starts at {:e} instead of {:e}", v[0], c.a);
    if c.n == 1 {
        return Ok(Info::nt(true).label("one element"));
    }
    ensure!(close(v[c.n - 1], c.b, tol), "ends at {:e} instead of {:e}", v[c.n - 1], c.b);
    for (i, x) in v.iter().enumerate() {
        let f = i as f64 / (c.n - 1) as f64;
        let w = c.a * (1. - f) + c.b * f;
        ensure!(close(*x, w, tol), "element {i} of {} is {x:e} instead of {w:e}", c.n);
    }
    let h = (c.b - c.a) / (c.n - 1) as f64;
    for (i, d) in v.windows(2).map(|w| w[1] - w[0]).enumerate().filter(|(i, _)| i % stride == 0 || *i + 100 > c.n) {
        ensure!(close(d, h, 2. * tol), "spacing {i} is {d:e} instead of {h:e}");
        ensure!(d * (c.b - c.a).signum() >= -tol, "order is broken at {i}");
    }
    Ok(Info::nt(c.a != c.b).label(if c.a < c.b { "rising" } else { "falling or constant" }))
}
fn check_diff(v: &Vec<f64>) -> Verdict {
    let keep = v.clone();
    let d = v.diff();
    ensure!(*v == keep, "taking differences changed the sequence");
    ensure!(d.len() == v.len().saturating_sub(1), "{} differences of {} elements", d.len(), v.len());
    let m = v.iter().fold(0f64, |a, b| a.max(b.abs()));
    let mut s = v.first().copied().unwrap_or(0.);
    for (i, x) in d.iter().enumerate() {
        let w = v[i + 1] - v[i];
        ensure!(close(*x, w, 4. * f64::EPSILON * w.abs()), "difference {i} is {x:e} instead of {w:e}");
        s += x;
        ensure!(close(s, v[i + 1], 4. * f64::EPSILON * m * (i + 2) as f64), "cumulative sum {s:e} instead of {:e}", v[i + 1]);
    }
    Ok(Info::nt(v.len() > 1).label_if(v.len() < 2, "fewer than two elements"))
}
pub fn c24(ctx: &mut Ctx) {
    ctx.assume("magnitudes up to 1e102, grids of up to a million elements");
    ctx.sub("grids", "random ends (also equal and nearly equal, any order and sign) and element counts including 0 and 1; non-trivial: ends differ, or one element", ctx.n(300_000, 5_000_000), grid, check_grid);
    ctx.sub(
        "differences",
        "random sequences, monotone or not, with repeated values; non-trivial: at least two elements",
        ctx.n(300_000, 5_000_000),
        || prop_oneof![3 => prop::collection::vec(moderate(), 0..40), 1 => prop::collection::vec(num(3.), 0..200), 1 => (moderate(), 0usize..9).prop_map(|(x, n)| vec![x; n])].boxed(),
        check_diff,
    );
    ctx.sub(
        "differences-of-special-values",
        "sequences with infinite, undefined, subnormal and extreme elements; non-trivial: one of them is not finite",
        ctx.n(100_000, 1_000_000),
        || prop::collection::vec(prop_oneof![2 => num(3.).prop_map(Elem::Num), 3 => (0..SPECIAL.len()).prop_map(Elem::Special)], 1..30).boxed(),
        |c| {
            let v: Vec<f64> = c.iter().map(|e| match e { Elem::Num(x) => *x, Elem::Special(k) => SPECIAL[*k] }).collect();
            let d = v.diff();
            ensure!(d.len() == v.len() - 1, "{} differences of {} elements", d.len(), v.len());
            for (i, x) in d.iter().enumerate() {
                let w = v[i + 1] - v[i];
                ensure!(close(*x, w, 4. * f64::EPSILON * w.abs()) || *x == w || x.is_nan() && w.is_nan(), "difference {i} is {x:e} instead of {w:e}");
            }
            Ok(Info::nt(v.iter().any(|x| !x.is_finite())))
        },
    );
    ctx.sub(
        "long-grids",
        "the same grids with three thousand to a million elements; non-trivial: ends differ",
        ctx.n(3_000, 40_000),
        || (grid(), logu(3e3, 1e6)).prop_map(|(g, n)| Grid { n: n as usize, ..g }).boxed(),
        check_grid,
    );
    ctx.sub(
        "huge-grids",
        "the same grids with more elements than single precision counts (sixteen to twenty-two million); non-trivial: ends differ",
        ctx.n(8, 80),
        || (grid(), 16_000_000usize..22_000_000).prop_map(|(g, n)| Grid { n, ..g }).boxed(),
        |c| check_grid_of(c, 1.max(c.n / 1_000_000)),
    );
    ctx.sub(
        "long-differences",
        "sequences of a thousand to three hundred thousand elements repeating a random pattern on a slope; non-trivial: always",
        ctx.n(3_000, 40_000),
        || (prop::collection::vec(num(3.), 1..40), logu(1e3, 3e5), num(1e-3)).prop_map(|(v, n, slope)| Slope { v, n: n as usize, slope }).boxed(),
        |c| check_diff(&(0..c.n).map(|k| c.v[k % c.v.len()] + c.slope * k as f64).collect()),
    );
}

// ---------------------------------------------------------------- C25
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Near {
    a: f64,
    b: f64,
    eps: Option<f64>,
    more: f64,
}
fn nearly() -> BoxedStrategy<Near> {
    let eps = || prop_oneof![2 => Just(None), 5 => logu(1e-16, 1.).prop_map(Some), 2 => logu(1., 1e6).prop_map(Some), 1 => logu(1e-200, 1e-16).prop_map(Some)];
    let scale = || (any::<bool>(), prop_oneof![3 => logu(1e-3, 1e3), 2 => logu(1e-12, 1e12), 1 => logu(1e-200, 1e200), 1 => Just(0.)]).prop_map(|(s, v)| if s { v } else { -v });
    prop_oneof![
        // near the decision: relative or absolute difference about the tolerance
        4 => (scale(), eps(), logu(0.3, 3.), any::<bool>(), any::<bool>()).prop_map(|(a, e, k, s, rel)| {
            let t = e.unwrap_or(1e-8) * k * if s { 1. } else { -1. };
            let b = if rel { let t = t.clamp(-0.999, 0.999); a * (1. + t) / (1. - t) } else { a + t };
            (a, b, e)
        }),
        2 => (scale(), scale(), eps()),
        1 => (scale(), eps()).prop_map(|(a, e)| (a, a, e)),
        1 => (scale(), eps(), logu(1e-12, 1.)).prop_map(|(a, e, d)| (a, -a * (1. + d), e)),
        1 => (scale(), eps()).prop_map(|(a, e)| (a, -a, e)),
    ]
    .prop_flat_map(|(a, b, eps)| logu(1., 1e6).prop_map(move |more| Near { a, b, eps, more }))
    .boxed()
}
fn check_near(c: &Near) -> Verdict {
    let (a, b) = (c.a, c.b);
    let e = c.eps.unwrap_or(1e-8);
    let r = almost_eq(a, b, c.eps);
    let (d, s) = ((a - b).abs(), (a + b).abs());
    let rel = if d == 0. { 0. } else { d / s };
    let want = d < e || rel < e;
    // within rounding of the tolerance either answer is right
    let tight = |x: f64| (x - e).abs() <= 8. * f64::EPSILON * e;
    let cancel = |x: f64| x <= e * (1. + 1e-12) && x >= e * (1. - 1e-12);
    let open = tight(d) || tight(rel) || cancel(rel) || cancel(d);
    if !open {
        ensure!(r == want, "almost_eq({a:e}, {b:e}, {:?}) is {r}: difference {d:e}, relative to the sum {rel:e}", c.eps);
    }
    ensure!(almost_eq(b, a, c.eps) == r, "almost_eq({a:e}, {b:e}, {:?}) is {r} but the other way round it is not", c.eps);
    ensure!(almost_eq(-a, -b, c.eps) == r, "negating both changes almost_eq({a:e}, {b:e}, {:?})", c.eps);
    ensure!(almost_eq(a, a, c.eps) && almost_eq(b, b, c.eps), "equal values are not almost equal under {:?}", c.eps);
    ensure!(!r || almost_eq(a, b, Some(e * c.more)), "enlarging the tolerance from {e:e} to {:e} loses equality of {a:e}, {b:e}", e * c.more);
    ensure!(almost_eq(a, b, Some(e)) == r, "tolerance {:?} and {e:e} differ", c.eps);
    Ok(Info::nt(a != b && !open).label(if r { "almost equal" } else { "different" }).label_if(c.eps.is_none(), "default tolerance").label_if(open, "within rounding of the tolerance"))
}
pub fn c25(ctx: &mut Ctx) {
    ctx.assume("magnitudes below 1e207; pairs whose difference is within rounding of the tolerance are not judged (symmetry and the like still are)");
    ctx.sub(
        "pairs",
        "pairs with differences around the tolerance (absolute and relative), unrelated pairs, equal and opposite pairs, tolerances from 1e-200 to 1e6 and the default; non-trivial: values differ and the difference is not within rounding of the tolerance",
        ctx.n(1_000_000, 20_000_000),
        nearly,
        check_near,
    );
}

// ---------------------------------------------------------------- C28
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BenchCase {
    /// name of the directory that stands for the repository
    dir: String,
    /// content of files that exist before: (which benchmark, length)
    old: Vec<(u8, u16)>,
    extra: Vec<String>,
    /// successive runs: overwrite or not
    runs: Vec<bool>,
}
const KINDS: &[&str] = &["euler", "heuns", "midpoint", "ralstons", "rk23", "rk4", "rk45"];
fn bench_case() -> BoxedStrategy<BenchCase> {
    (
        prop_oneof![3 => "[a-z]{1,8}", 1 => Just("with space".to_string()), 1 => Just("ünïcode".to_string()), 1 => Just("dess-examples".to_string())],
        prop::collection::vec((0u8..7, prop_oneof![Just(0u16), 1u16..100, 20_000u16..60_000]), 0..7),
        prop::collection::vec(prop::sample::select(vec!["euler_baseline.yaml", "rk23_benchmark.yaml", "notes.txt", "rk5 benchmark.yaml", "benchmark.yaml", "euler_w_bc_baseline.yaml"]).prop_map(|s| s.to_string()), 0..4),
        prop_oneof![2 => Just(vec![true]), 1 => Just(vec![false]), 1 => prop::collection::vec(any::<bool>(), 1..4)],
    )
        .prop_map(|(dir, old, extra, runs)| BenchCase { dir, old, extra, runs })
        .boxed()
}
fn lay_out(root: &Path, c: &BenchCase) -> Result<PathBuf, String> {
    let _ = std::fs::remove_dir_all(root);
    let fix = root.join(&c.dir).join("dess-examples/src/tests/fixtures");
    std::fs::create_dir_all(&fix).map_err(|e| e.to_string())?;
    std::fs::create_dir_all(root.join(&c.dir).join("dess/src")).map_err(|e| e.to_string())?;
    for (k, n) in &c.old {
        std::fs::write(fix.join(format!("{} benchmark.yaml", KINDS[*k as usize])), "old: 1\n".repeat(*n as usize / 7)).map_err(|e| e.to_string())?;
    }
    for e in &c.extra {
        std::fs::write(fix.join(e), "extra").map_err(|e| e.to_string())?;
    }
    Ok(fix)
}
fn expected() -> Vec<(String, System3TM)> {
    use dess_examples::three_thermal_mass_sys as t;
    let mut all = vec![
        ("euler", t::mock_euler_sys()),
        ("heuns", t::mock_heuns_sys()),
        ("midpoint", t::mock_midpoint_sys()),
        ("ralstons", t::mock_ralstons_sys()),
        ("rk23", t::mock_rk23_sys()),
        ("rk4", t::mock_rk4fixed_sys()),
        ("rk45", t::mock_rk45_sys()),
    ];
    all.iter_mut().for_each(|(_, s)| s.walk());
    all.into_iter().map(|(k, s)| (format!("{k} benchmark.yaml"), s)).collect()
}
fn solver_name(s: &SolverTypes) -> &'static str {
    match s {
        SolverTypes::EulerFixed { .. } => "euler",
        SolverTypes::HeunsMethod { .. } => "heuns",
        SolverTypes::MidpointMethod { .. } => "midpoint",
        SolverTypes::RalstonsMethod { .. } => "ralstons",
        SolverTypes::RK23BogackiShampine(_) => "rk23",
        SolverTypes::RK4Fixed { .. } => "rk4",
        SolverTypes::RK45CashKarp(_) => "rk45",
    }
}
/// runs in a process of its own: the environment variable and the working directory are the process'
fn in_child(args: &[&str], manifest: Option<&Path>, cwd: &Path, limit: u64) -> Result<(bool, String), String> {
    let exe = if args.first() == Some(&"--driver") { driver()? } else { std::env::current_exe().map_err(|e| e.to_string())? };
    let args = if args.first() == Some(&"--driver") { &args[1..] } else { args };
    let mut cmd = std::process::Command::new(exe);
    cmd.args(args).current_dir(cwd).env_remove("CARGO_MANIFEST_DIR").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped()).stdin(std::process::Stdio::null());
    if let Some(m) = manifest {
        cmd.env("CARGO_MANIFEST_DIR", m);
    }
    let mut ch = cmd.spawn().map_err(|e| e.to_string())?;
    let t0 = std::time::Instant::now();
    loop {
        if let Some(st) = ch.try_wait().map_err(|e| e.to_string())? {
            let mut e = String::new();
            use std::io::Read;
            let _ = ch.stderr.take().unwrap().read_to_string(&mut e);
            return Ok((st.success(), e));
        }
        if t0.elapsed().as_secs() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return Ok((false, "time limit".into()));
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
}
fn driver() -> Result<PathBuf, String> {
    let p = PathBuf::from(std::env::var("VH_DRIVER").unwrap_or("/verif/target-bin/debug/dess-examples".into()));
    if p.exists() { Ok(p) } else { Err(format!("no driver binary {}", p.display())) }
}
pub fn child_run(overwrite: bool) {
    dess_examples::three_thermal_mass_sys::run_three_tm_sys(overwrite);
    dess_examples::three_thrml_mass_w_bc_sys::run_three_tm_w_bc_sys();
    if !overwrite {
        dess_examples::tests::euler_three_thermal_mass_sys::baseline_three_tm_sys(false);
        dess_examples::tests::euler_three_thrml_mass_w_bc_sys::baseline_three_tm_w_bc_sys(false);
    }
}
fn check_bench(c: &BenchCase, sc: &Scratch, want: &[(String, System3TM)]) -> Verdict {
    let root = PathBuf::from(thread_file(sc, "root"));
    let fix = lay_out(&root, c)?;
    let manifest = root.join(&c.dir).join("dess-examples");
    let mut wrote = false;
    for over in &c.runs {
        let before = snapshot(&root);
        let (ok, err) = in_child(&["child-run", if *over { "true" } else { "false" }], Some(&manifest), &root, 120)?;
        ensure!(ok, "the example runs (overwrite: {over}) failed: {err}");
        let after = snapshot(&root);
        if !over {
            ensure!(after == before, "running without overwriting changed files: {:?}", changed(&before, &after));
            continue;
        }
        wrote = true;
        let mut names: Vec<PathBuf> = want.iter().map(|(n, _)| fix.join(n)).collect();
        names.sort();
        for p in changed(&before, &after) {
            ensure!(names.contains(&p), "overwriting benchmarks changed {}", p.display());
        }
        for (n, s) in want {
            let p = fix.join(n);
            ensure!(after.contains_key(&p), "no benchmark file {n} was written");
            let got = System3TM::from_file(p.to_str().unwrap()).map_err(|e| format!("{n} cannot be read back: {e}"))?;
            ensure!(n.starts_with(&format!("{} ", solver_name(&got.solver_type))), "{n} holds a system walked by {}", solver_name(&got.solver_type));
            ensure!(got == *s, "{n} does not hold the system walked by that solver");
            ensure!(got.state.time >= *got.t_report.last().unwrap() && got.history.len() == got.m1.history.len() && !got.history.is_empty(), "{n} holds a system that was not walked to its end");
        }
    }
    let _ = std::fs::remove_dir_all(&root);
    Ok(Info::nt(!c.old.is_empty() || c.runs.len() > 1).label_if(wrote, "overwriting").label_if(!wrote, "not overwriting"))
}
fn changed(a: &BTreeMap<PathBuf, Vec<u8>>, b: &BTreeMap<PathBuf, Vec<u8>>) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = b.iter().filter(|(k, x)| a.get(*k) != Some(x)).map(|(k, _)| k.clone()).collect();
    v.extend(a.keys().filter(|k| !b.contains_key(*k)).cloned());
    v.sort();
    v
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ArgsCase {
    lay: BenchCase,
    args: Vec<String>,
    manifest: bool,
}
fn args_case() -> BoxedStrategy<ArgsCase> {
    let a = || {
        prop_oneof![
            6 => prop::sample::select(vec!["True", "TRUE", "tru", "true ", " true", "truee", "t", "1", "yes", "y", "on", "overwrite", "--overwrite", "--true", "-t", "", "false", "False", "0", "no", "true=1", "\"true\"", "all", "benchmark", "--benchmark=true"]).prop_map(|s| s.to_string()),
            1 => "[ -~]{0,8}",
        ]
        .prop_filter("the overwrite request itself", |s| s != "true")
    };
    let later = prop_oneof![3 => a().boxed(), 1 => Just("true".to_string()).boxed()];
    (bench_case(), prop::option::weighted(0.9, (a(), prop::collection::vec(later, 0..3))), prop::bool::weighted(0.9))
        .prop_map(|(lay, args, manifest)| ArgsCase { lay, args: args.map(|(f, mut r)| { r.insert(0, f); r }).unwrap_or_default(), manifest })
        .boxed()
}
fn check_args(c: &ArgsCase, sc: &Scratch) -> Verdict {
    let root = PathBuf::from(thread_file(sc, "root"));
    lay_out(&root, &c.lay)?;
    let manifest = root.join(&c.lay.dir).join("dess-examples");
    let before = snapshot(&root);
    let mut args = vec!["--driver"];
    args.extend(c.args.iter().map(|s| s.as_str()));
    let cwd = root.join(&c.lay.dir);
    let (ok, err) = in_child(&args, c.manifest.then_some(manifest.as_path()), &cwd, 60)?;
    let after = snapshot(&root);
    ensure!(after == before, "the example driver run with {:?} created or changed {:?}", c.args, changed(&before, &after));
    ensure!(ok, "the example driver run with {:?} failed: {err}", c.args);
    let _ = std::fs::remove_dir_all(&root);
    Ok(Info::nt(!c.args.is_empty()).label_if(c.args.iter().any(|a| a.to_lowercase().contains("true")), "something like the request among the arguments"))
}
pub fn c28(ctx: &mut Ctx) {
    ctx.assume("the request is the word `true` as first argument, as the driver documents; the driver itself is never run with it, because its baselines take hours");
    if let Err(e) = driver() {
        ctx.errors.push(e);
        return;
    }
    let sc = Scratch::new(ctx, "bench");
    let want = expected();
    ctx.sub(
        "runs",
        "the example runs, in a process of their own with the manifest directory pointing into a scratch tree, with random directory names, earlier files (empty, short, long) and sequences of overwriting and non-overwriting runs; non-trivial: files existed before or several runs",
        ctx.n(400, 6000),
        bench_case,
        |c| check_bench(c, &sc, &want),
    );
    ctx.sub(
        "driver",
        "the driver binary with random argument lists that do not make the request, many resembling it, in a scratch tree; non-trivial: at least one argument",
        ctx.n(600, 8000),
        args_case,
        |c| check_args(c, &sc),
    );
}
