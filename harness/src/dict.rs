//! Dictionary of the numbers and names written in the sources under test (as
//! fuzzers make from the program they run): values and sizes that the code
//! treats specially are tried on purpose. What is expected does not depend on it.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::fs;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict { pub nums: Vec<f64>, pub names: Vec<String> }

fn visit(d: &Path, out: &mut Dict) {
    let mut v: Vec<_> = fs::read_dir(d).into_iter().flatten().filter_map(|e| e.ok()).map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() { visit(&p, out); }
        else if p.extension().map_or(false, |x| x == "rs") { if let Ok(t) = fs::read_to_string(&p) { scan(&t, out); } }
    }
}

pub fn scan(text: &str, out: &mut Dict) {
    let text = text.split("#[cfg(test)]").next().unwrap_or("");
    for line in text.lines() {
        let b: Vec<char> = line.chars().collect();
        let mut i = 0;
        let mut prev = ' ';
        let mut shift = false; // after "1 <<"
        while i < b.len() {
            let c = b[i];
            if c == '/' && b.get(i + 1) == Some(&'/') { break; }
            if c == '"' {
                let mut s = String::new();
                i += 1;
                while i < b.len() && b[i] != '"' { if b[i] == '\\' { i += 1; } if i < b.len() { s.push(b[i]); } i += 1; }
                i += 1;
                for w in s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
                    let first = w.chars().next().unwrap_or('0');
                    if (first.is_ascii_alphabetic() || first == '_') && w.len() <= 20 && w.chars().any(|c| c.is_ascii_alphabetic()) && !["sin", "cos"].contains(&w) && !out.names.contains(&w.to_string()) { out.names.push(w.to_string()); }
                }
                prev = '"';
                continue;
            }
            if c.is_ascii_digit() && !(prev.is_ascii_alphanumeric() || prev == '_') && prev != '.' {
                let mut s = String::new();
                let hex = c == '0' && matches!(b.get(i + 1), Some('x') | Some('b'));
                let radix = if hex && b[i + 1] == 'b' { 2 } else { 16 };
                if hex { i += 2; }
                while i < b.len() {
                    let c = b[i];
                    let exp = !hex && matches!(s.chars().last(), Some('e') | Some('E'));
                    if c == '_' { i += 1; continue; }
                    let ok = if hex { c.is_digit(radix) } else {
                        c.is_ascii_digit() || (c == '.' && b.get(i + 1) != Some(&'.') && !b.get(i + 1).map_or(false, |x| x.is_ascii_alphabetic()))
                        || ((c == 'e' || c == 'E') && b.get(i + 1).map_or(false, |x| x.is_ascii_digit() || *x == '-' || *x == '+')) || (exp && (c == '-' || c == '+')) };
                    if !ok { break; }
                    s.push(c);
                    i += 1;
                }
                let v = if hex { u64::from_str_radix(&s, radix).ok().map(|x| x as f64) } else { s.parse::<f64>().ok() };
                if let Some(v) = v {
                    let rest: String = b[i..].iter().collect();
                    let before: String = b[..i].iter().collect();
                    if shift && v < 53. { out.nums.push(2f64.powi(v as i32)); }
                    if before.contains("pow") && v < 20. { for x in [10f64.powi(v as i32), 10f64.powi(-(v as i32)), 2f64.powi(v as i32)] { out.nums.push(x); } }
                    shift = rest.trim_start_matches(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == ' ').starts_with("<<");
                    out.nums.push(v);
                }
                // suffixes such as f64 and usize
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') { i += 1; }
                prev = '0';
                continue;
            }
            prev = c;
            i += 1;
        }
        for (w, v) in [("EPSILON", f64::EPSILON), ("u8::MAX", 255.), ("i8::MAX", 127.), ("u16::MAX", 65535.), ("i16::MAX", 32767.), ("i32::MAX", 2147483647.), ("u32::MAX", 4294967295.), ("as u8", 255.), ("as u16", 65535.), ("as i16", 32767.), ("as i8", 127.), ("as f32", 16777216.), ("::PI", std::f64::consts::PI), ("_PI_2", std::f64::consts::FRAC_PI_2)] {
            if line.contains(w) { out.nums.push(v); }
        }
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        visit(Path::new("/repo/src"), &mut d);
        d.nums.retain(|x| x.is_finite());
        d.nums.sort_by(|a, b| a.partial_cmp(b).unwrap());
        d.nums.dedup();
        d
    })
}

/// A number of the dictionary or close to one, of magnitude between 1e-12 and `max` (or zero).
pub fn number(max: f64) -> BoxedStrategy<f64> {
    let v: Vec<f64> = dict().nums.iter().cloned().filter(|x| *x == 0. || (x.abs() <= max && x.abs() >= 1e-12)).collect();
    let v = if v.is_empty() { vec![0., 1.] } else { v };
    (prop::sample::select(v), any::<bool>(), 0u8..16).prop_map(move |(x, neg, how)| {
        let y = match how {
            0..=4 => x, 5 => x + 1., 6 => x - 1., 7 => x + 0.5, 8 => x - 0.5, 9 => x * (1. + 1e-6), 10 => x * (1. - 1e-6),
            11 => x * 2., 12 => x / 2., 13 => x * 1.1, 14 => x * 0.9, _ => x * 3.,
        };
        let y = if y.abs() > max { x } else { y };
        if neg { -y } else { y }
    }).boxed()
}

/// Whole numbers of the dictionary between `lo` and `hi`.
pub fn ints(lo: usize, hi: usize) -> Vec<usize> {
    dict().nums.iter().filter(|x| x.fract() == 0. && **x >= lo as f64 && **x <= hi as f64).map(|x| *x as usize).collect()
}

/// Sizes at or somewhat above those of the dictionary between `lo` and `hi`, if there are any.
pub fn sizes(lo: usize, hi: usize) -> Option<BoxedStrategy<usize>> {
    let v = ints(lo, hi);
    if v.is_empty() { return None; }
    Some((prop::sample::select(v), 0usize..6).prop_map(move |(n, how)| [n - 1, n, n + 1, n + 2, n + 3, n + 5][how].max(1)).boxed())
}

pub fn names() -> Vec<String> { dict().names.clone() }

/// Lists of `lo` to `hi` elements; some longer ones, also of lengths of the dictionary up to `max`.
pub fn list<T: std::fmt::Debug + Clone + 'static>(e: BoxedStrategy<T>, lo: usize, hi: usize, max: usize) -> BoxedStrategy<Vec<T>> {
    let all = prop_oneof![150 => prop::collection::vec(e.clone(), lo..hi), 1 => prop::collection::vec(e.clone(), hi..(3 * hi).min(max + 1).max(hi + 1))].boxed();
    match sizes(hi.max(7), max) {
        None => all,
        Some(n) => prop_oneof![100 => all, 1 => n.prop_flat_map(move |n| prop::collection::vec(e.clone(), n..=n + 3))].boxed(),
    }
}
