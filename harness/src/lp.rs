//! Reader of the LP file format, written from its rules.

use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct Lp {
    pub maximize: bool,
    pub obj: BTreeMap<String, f64>,
    pub constant: f64,
    pub rows: Vec<(String, BTreeMap<String, f64>, char, f64)>,
    pub bounds: BTreeMap<String, (f64, f64)>,
    pub ints: BTreeSet<String>,
    /// Variables listed more than once in one row or the objective (readers do not add these up)
    pub twice: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
enum T { Num(f64), Name(String), Sign(f64), Colon, Cmp(char) }

fn number(s: &str) -> Option<f64> {
    let t = s.to_ascii_lowercase();
    if t == "inf" || t == "infinity" { return Some(f64::INFINITY); }
    if !t.starts_with(|c: char| c.is_ascii_digit() || c == '.') { return None; }
    t.parse().ok()
}

fn tokens(line: &str, out: &mut Vec<T>) -> Result<(), String> {
    let b: Vec<char> = line.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '\\' { break; }
        if c.is_whitespace() { i += 1; continue; }
        match c {
            '+' => { out.push(T::Sign(1.)); i += 1; }
            '-' => { out.push(T::Sign(-1.)); i += 1; }
            ':' => { out.push(T::Colon); i += 1; }
            '<' | '>' | '=' => {
                let mut s = String::new();
                while i < b.len() && "<>=".contains(b[i]) { s.push(b[i]); i += 1; }
                out.push(T::Cmp(match s.as_str() { "<" | "<=" | "=<" => '<', ">" | ">=" | "=>" => '>', "=" => '=', _ => return Err(format!("comparison {:?}", s)) }));
            }
            _ => {
                let mut s = String::new();
                let num = c.is_ascii_digit() || c == '.';
                while i < b.len() && !b[i].is_whitespace() && !"+-:<>=\\".contains(b[i]) {
                    s.push(b[i]);
                    i += 1;
                    // exponent sign
                    if num && (s.ends_with('e') || s.ends_with('E')) && i < b.len() && (b[i] == '+' || b[i] == '-') { s.push(b[i]); i += 1; }
                }
                match number(&s) {
                    Some(v) => out.push(T::Num(v)),
                    None if num => {
                        // 2x is 2 times x
                        let k = s.find(|c: char| !(c.is_ascii_digit() || c == '.')).ok_or(format!("number {:?}", s))?;
                        out.push(T::Num(s[..k].parse().map_err(|_| format!("number {:?}", s))?));
                        out.push(T::Name(s[k..].to_string()));
                    }
                    None => out.push(T::Name(s)),
                }
            }
        }
    }
    Ok(())
}

/// Reads a linear expression from t[*i..] up to a comparison or the end.
fn expr(t: &[T], i: &mut usize, m: &mut BTreeMap<String, f64>, constant: &mut f64, twice: &mut Vec<String>, until_label: bool) -> Result<(), String> {
    loop {
        let mut sign = 1.;
        while let Some(T::Sign(s)) = t.get(*i) { sign *= s; *i += 1; }
        match t.get(*i) {
            None | Some(T::Cmp(_)) => return Ok(()),
            Some(T::Num(v)) => {
                *i += 1;
                if let Some(T::Name(n)) = t.get(*i) {
                    if until_label && t.get(*i + 1) == Some(&T::Colon) { *constant += sign * v; return Ok(()); }
                    if m.contains_key(n) { twice.push(n.clone()); }
                    *m.entry(n.clone()).or_insert(0.) += sign * v;
                    *i += 1;
                } else { *constant += sign * v; }
            }
            Some(T::Name(n)) => {
                if until_label && t.get(*i + 1) == Some(&T::Colon) { return Ok(()); }
                if m.contains_key(n) { twice.push(n.clone()); }
                *m.entry(n.clone()).or_insert(0.) += sign;
                *i += 1;
            }
            Some(x) => return Err(format!("unexpected {:?} in expression", x)),
        }
    }
}

fn signed(t: &[T], i: &mut usize) -> Option<f64> {
    let k = *i;
    let mut sign = 1.;
    while let Some(T::Sign(s)) = t.get(*i) { sign *= s; *i += 1; }
    if let Some(T::Num(v)) = t.get(*i) { *i += 1; return Some(sign * v); }
    *i = k;
    None
}

pub fn parse(text: &str) -> Result<Lp, String> {
    let mut lp = Lp::default();
    let mut sections: Vec<(char, Vec<Vec<T>>)> = Vec::new();
    let mut ended = false;
    for line in text.lines() {
        let key = line.split('\\').next().unwrap().trim().to_ascii_lowercase();
        let key = key.split_whitespace().collect::<Vec<_>>().join(" ");
        let s = match key.as_str() {
            "minimize" | "minimise" | "minimum" | "min" => Some('m'),
            "maximize" | "maximise" | "maximum" | "max" => Some('M'),
            "subject to" | "such that" | "st" | "s.t." | "st." => Some('s'),
            "bounds" | "bound" => Some('b'),
            "general" | "generals" | "gen" | "integer" | "integers" | "int" => Some('g'),
            "binary" | "binaries" | "bin" => Some('B'),
            "end" => Some('e'),
            _ => None,
        };
        match s {
            Some('e') => { ended = true; break; }
            Some(c) => sections.push((c, vec![])),
            None => {
                let mut t = vec![];
                tokens(line, &mut t)?;
                if t.is_empty() { continue; }
                match sections.last_mut() { Some(s) => s.1.push(t), None => return Err(format!("{:?} before any section", line)) }
            }
        }
    }
    if !ended { return Err("no end".into()); }
    let order: String = sections.iter().map(|s| s.0.to_ascii_lowercase()).collect();
    if !order.starts_with("ms") { return Err(format!("sections are {:?}", order)); }
    for (c, lines) in sections {
        match c {
            'm' | 'M' => {
                lp.maximize = c == 'M';
                let t: Vec<T> = lines.concat();
                let mut i = 0;
                if t.get(1) == Some(&T::Colon) { i = 2; }
                expr(&t, &mut i, &mut lp.obj, &mut lp.constant, &mut lp.twice, false)?;
                if i != t.len() { return Err(format!("objective has {:?}", t[i])); }
            }
            's' => {
                let t: Vec<T> = lines.concat();
                let mut i = 0;
                while i < t.len() {
                    let name = match (t.get(i), t.get(i + 1)) {
                        (Some(T::Name(n)), Some(T::Colon)) => { i += 2; n.clone() }
                        _ => String::new(),
                    };
                    let mut m = BTreeMap::new();
                    let mut k = 0.;
                    expr(&t, &mut i, &mut m, &mut k, &mut lp.twice, true)?;
                    let c = match t.get(i) { Some(T::Cmp(c)) => *c, x => return Err(format!("row {:?} has {:?} instead of a comparison", name, x)) };
                    i += 1;
                    let r = signed(&t, &mut i).ok_or(format!("row {:?} has no right-hand side", name))?;
                    lp.rows.push((name, m, c, r - k));
                }
            }
            'b' => for t in lines {
                let mut i = 0;
                let first = signed(&t, &mut i);
                let bad = || format!("bound {:?}", t);
                let flip = |c: char| match c { '<' => '>', '>' => '<', c => c };
                let mut set: Vec<(char, f64)> = vec![];
                if let Some(v) = first {
                    let c = match t.get(i) { Some(T::Cmp(c)) => *c, _ => return Err(bad()) };
                    i += 1;
                    set.push((flip(c), v));
                }
                let n = match t.get(i) { Some(T::Name(n)) => n.clone(), _ => return Err(bad()) };
                i += 1;
                let b = lp.bounds.entry(n).or_insert((0., f64::INFINITY));
                match t.get(i) {
                    None => (),
                    Some(T::Name(f)) if f.eq_ignore_ascii_case("free") => { set.push(('>', f64::NEG_INFINITY)); set.push(('<', f64::INFINITY)); i += 1; }
                    Some(T::Cmp(c)) => { i += 1; let v = signed(&t, &mut i).ok_or_else(bad)?; set.push((*c, v)); }
                    _ => return Err(bad()),
                }
                if i != t.len() || set.is_empty() { return Err(bad()); }
                for (c, v) in set { match c { '<' => b.1 = v, '>' => b.0 = v, _ => *b = (v, v) } }
            },
            _ => for t in lines.concat() {
                match t {
                    T::Name(n) => {
                        if c == 'B' { lp.bounds.insert(n.clone(), (0., 1.)); }
                        lp.ints.insert(n);
                    }
                    x => return Err(format!("{:?} among integer variables", x)),
                }
            },
        }
    }
    Ok(lp)
}

impl Lp {
    /// Variable index of a name x_<i>.
    pub fn index(name: &str, pre: &str) -> Option<usize> {
        let d = name.strip_prefix(pre)?;
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) { return None; }
        d.parse().ok()
    }
}

/// Does the file state: minimize c x, a x = b, l <= x <= u, p x integer?
pub fn states(lp: &Lp, c: &[f64], a: &[(usize, usize, f64)], b: &[f64], l: &[f64], u: &[f64], p: &[bool]) -> Result<(), String> {
    let (nx, na) = (c.len(), b.len());
    let near = |w: f64, v: f64, big: f64| w == v || (v.is_infinite() && v.signum() == w.signum() && w.abs() >= 1e30) || (w - v).abs() <= 5e-10 * v.abs() + 1e-13 * big;
    let var = |n: &str| -> Result<usize, String> { match Lp::index(n, "x_") { Some(i) if i < nx => Ok(i), _ => Err(format!("unknown variable {:?}", n)) } };
    if let Some(n) = lp.twice.first() { return Err(format!("variable {:?} is listed twice in one expression", n)); }
    if lp.maximize { return Err("the problem is to be maximized".into()); }
    let vec = |m: &BTreeMap<String, f64>| -> Result<Vec<f64>, String> { let mut v = vec![0.; nx]; for (n, x) in m.iter() { v[var(n)?] += x; } Ok(v) };
    if lp.constant != 0. { return Err("the objective has a constant".into()); }
    for (i, (w, v)) in vec(&lp.obj)?.iter().zip(c.iter()).enumerate() {
        if !near(*w, *v, 0.) { return Err(format!("objective coefficient of variable {} is {:?} instead of {:?}", i, w, v)); }
    }
    if lp.rows.len() != na { return Err(format!("{} rows instead of {}", lp.rows.len(), na)); }
    let mut seen = vec![false; na];
    for (n, m, s, r) in lp.rows.iter() {
        let k = match Lp::index(n, "c_") { Some(k) if k < na && !seen[k] => k, _ => return Err(format!("row name {:?}", n)) };
        seen[k] = true;
        if *s != '=' { return Err(format!("row {} is not an equality", k)); }
        if !near(*r, b[k], 0.) { return Err(format!("right-hand side of row {} is {:?} instead of {:?}", k, r, b[k])); }
        let (mut want, mut big) = (vec![0.; nx], vec![0.; nx]);
        for t in a.iter().filter(|t| t.0 == k) { want[t.1] += t.2; big[t.1] += t.2.abs(); }
        for (i, w) in vec(m)?.iter().enumerate() {
            if !near(*w, want[i], big[i]) { return Err(format!("coefficient of variable {} in row {} is {:?} instead of {:?}", i, k, w, want[i])); }
        }
    }
    let mut seen: BTreeMap<usize, (f64, f64)> = BTreeMap::new();
    for (n, b) in lp.bounds.iter() { seen.insert(var(n)?, *b); }
    for i in 0..nx {
        let (wl, wu) = *seen.get(&i).unwrap_or(&(0., f64::INFINITY));
        if !near(wl, l[i], 0.) || !near(wu, u[i], 0.) { return Err(format!("limits of variable {} are {:?} and {:?} instead of {:?} and {:?}", i, wl, wu, l[i], u[i])); }
    }
    let mut ints = vec![false; nx];
    for n in lp.ints.iter() { ints[var(n)?] = true; }
    if ints != p { return Err(format!("integer variables are {:?} instead of {:?}", ints, p)); }
    Ok(())
}
