//! Dictionary for the generators, as fuzzers keep one: round numbers and the numeric literals that occur in the
//! sources under test. It only biases which inputs are tried; no verdict depends on it.
use proptest::prelude::*;
use std::path::Path;
use std::sync::OnceLock;

const ROUND: &[f64] = &[
    1., 2., 3., 4., 5., 6., 7., 8., 9., 10., 12., 15., 16., 20., 24., 25., 30., 32., 50., 60., 64., 99., 100., 101., 127., 128., 150., 200., 250., 255., 256., 300., 365., 400., 500., 512., 1000.,
    1024., 3600., 4096., 10000., 65535., 65536., 86400., 1e5, 1e6, 0.5, 0.25, 0.2, 0.125, 0.1, 0.05, 0.01, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e-9, 1e-10, 1e-12, 1.5, 2.5, 0.75, 273.15, 298.15, 3.5,
];
fn scan(dir: &Path, out: &mut Vec<f64>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    let mut ps: Vec<_> = d.flatten().map(|e| e.path()).collect();
    ps.sort();
    for p in ps {
        let name = p.file_name().unwrap_or_default().to_string_lossy().into_owned();
        if p.is_dir() {
            if name != "target" && name != "tests" {
                scan(&p, out);
            }
        } else if name.ends_with(".rs") {
            let Ok(s) = std::fs::read_to_string(&p) else { continue };
            for line in s.lines() {
                numbers(line.split("//").next().unwrap(), out);
            }
        }
    }
}
fn numbers(line: &str, out: &mut Vec<f64>) {
    let b: Vec<char> = line.chars().collect();
    let mut i = 0;
    let mut prev: Option<(f64, usize)> = None;
    while i < b.len() {
        if !b[i].is_ascii_digit() || i > 0 && (b[i - 1].is_alphanumeric() || b[i - 1] == '_') {
            i += 1;
            continue;
        }
        let from = i;
        let mut s = String::new();
        while i < b.len() {
            match b[i] {
                '_' => (),
                c if c.is_ascii_digit() => s.push(c),
                '.' if !s.contains('.') && b.get(i + 1) != Some(&'.') => s.push('.'),
                'e' | 'E' if !s.contains('e') && b.get(i + 1).is_some_and(|c| c.is_ascii_digit() || *c == '-' || *c == '+') => {
                    s.push('e');
                    i += 1;
                    s.push(b[i]);
                }
                _ => break,
            }
            i += 1;
        }
        if let Ok(v) = s.trim_end_matches('.').parse::<f64>() {
            out.push(v);
            if let Some((p, end)) = prev {
                match b[end..from].iter().collect::<String>().trim() {
                    "<<" if v < 40. => out.push(p * 2f64.powf(v)),
                    "*" => out.push(p * v),
                    "/" if v != 0. => out.push(p / v),
                    _ => (),
                }
            }
            prev = Some((v, i));
        }
    }
}
pub fn all() -> &'static [f64] {
    static ALL: OnceLock<Vec<f64>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = ROUND.to_vec();
        let repo = std::env::var("VH_REPO").unwrap_or("/repo".into());
        for d in ["dess", "dess-examples", "dess-examples-pyo3"] {
            scan(&Path::new(&repo).join(d), &mut v);
        }
        v.retain(|x| x.is_finite() && *x > 0.);
        v.sort_by(f64::total_cmp);
        v.dedup();
        v
    })
}
/// positive dictionary values in a range and their neighbours, if there are any
pub fn within(lo: f64, hi: f64) -> Option<BoxedStrategy<f64>> {
    let v: Vec<f64> = all().iter().copied().filter(|x| lo <= *x && *x <= hi).collect();
    (!v.is_empty()).then(|| {
        (prop::sample::select(v), prop_oneof![4 => Just(0u8), 1 => 1u8..5])
            .prop_map(move |(x, k)| {
                let y = match k {
                    1 => x - 1.,
                    2 => x + 1.,
                    3 => x * (1. - 1e-6),
                    4 => x * (1. + 1e-6),
                    _ => x,
                };
                if lo <= y && y <= hi { y } else { x }
            })
            .boxed()
    })
}
/// `base`, now and then replaced by a dictionary value within the same range
pub fn or(base: BoxedStrategy<f64>, weight: u32, lo: f64, hi: f64) -> BoxedStrategy<f64> {
    match within(lo, hi) {
        Some(l) => prop_oneof![weight => base, 1 => l].boxed(),
        None => base,
    }
}
/// the same for numbers of either sign
pub fn or_signed(base: BoxedStrategy<f64>, weight: u32, mag: f64) -> BoxedStrategy<f64> {
    match within(mag * 1e-6, mag) {
        Some(l) => prop_oneof![weight => base, 1 => (l, any::<bool>()).prop_map(|(x, s)| if s { -x } else { x })].boxed(),
        None => base,
    }
}
