//! C17, C18: solution files.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use numopt::matrix::coo::CooMat;
use numopt::problem::base::ProblemSol;
use numopt::problem::milp::ProblemMilp;
use numopt::solver::base::SolverStatus;
use numopt::solver::cbc_cmd::SolverCbcCmd;

use crate::fw::{guard, Ctx, Prop, Res, Tier};

pub fn problem(nx: usize, na: usize) -> ProblemMilp {
    // integers and limits of all kinds: none of them matters for reading
    let l = (0..nx).map(|i| [0., -1e8, 1., -2.5][(i + na) % 4]).collect();
    let u = (0..nx).map(|i| [1., 1e8, 7.25][(i + nx) % 3]).collect();
    ProblemMilp::new((0..nx).map(|i| (i % 3) as f64 - 1.).collect(), CooMat::from_nnz((na, nx), 0), vec![0.; na], l, u, (0..nx).map(|i| (i + nx) % 2 == 0).collect(), None)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entry { pub var: bool, pub idx: u32, pub val: f64, pub mul: f64, pub fmt: (u8, u8), pub marked: bool }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SolCase { pub nx: usize, pub na: usize, pub cbc: bool, pub head: u8, pub entries: Vec<Entry>, pub eol: u8,
    /// Starts with this, which says neither, instead of the head
    #[serde(default)]
    pub word: Option<String> }

fn value() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => Just(0.),
        5 => (-20i32..21).prop_map(|x| x as f64 / 4.),
        3 => -1e4f64..1e4,
        1 => (-1.0f64..1.0, -15i32..16).prop_map(|(m, e)| m * 10f64.powi(e)),
        1 => prop::sample::select(vec![-0., 1e30, -1e30, 1.797693134862315e308, 5e-324]),
        1 => crate::dict::number(1e12),
    ].boxed()
}

/// The ways numbers are printed by solvers.
pub fn print_num(x: f64, f: u8) -> String {
    match f % 6 {
        0 => format!("{}", x),
        1 => format!("{:?}", x),
        2 => format!("{:.7}", x),
        3 => format!("{:e}", x),
        4 => { // C's %.8g exponent style
            let s = format!("{:.7e}", x);
            let (m, e) = s.split_once('e').unwrap();
            let n: i32 = e.parse().unwrap();
            format!("{}e{}{:02}", m, if n < 0 { '-' } else { '+' }, n.abs())
        }
        _ => format!("{:.0}", x),
    }
}

/// Heads of cbc's and clp's files: text, and 0 solved, 1 infeasible, 2 neither.
const CBC_HEADS: [(&str, u8); 12] = [
    ("Optimal - objective value 12.50000000", 0), ("Optimal - objective value 0.00000000", 0), ("Optimal (within gap tolerance) - objective value -3.00000000", 0),
    ("Infeasible - objective value 0.00000000", 1), ("Integer infeasible - objective value 50.00000000", 1), ("Infeasible", 1),
    ("Unbounded - objective value 0.00000000", 2), ("Stopped on time - objective value 4.00000000", 2), ("Stopped on iterations - objective value 1.00000000", 2),
    ("Stopped on nodes - objective value 7.00000000", 2), ("Status unknown - objective value 0.00000000", 2), ("", 2),
];
const CLP_HEADS: [(&str, u8); 11] = [
    ("Optimal - objective value           12.5", 0), ("Optimal - objective value              -0", 0),
    ("optimal\nObjective value      12.50000000", 0), ("optimal\nObjective value              0", 0), ("Optimal - objective value 1e+20", 0),
    ("Infeasible - objective value               0", 1), ("infeasible\nObjective value 3", 1), ("Infeasible", 1),
    ("Unbounded - objective value               0", 2), ("unbounded\nObjective value 0", 2), ("Stopped on iterations - objective value               0", 2),
];

pub fn head(cbc: bool, k: u8) -> (&'static str, u8) {
    if cbc { CBC_HEADS[k as usize % CBC_HEADS.len()] } else { CLP_HEADS[k as usize % CLP_HEADS.len()] }
}

fn entries(max: usize) -> BoxedStrategy<Vec<Entry>> {
    prop::collection::vec((prop::bool::weighted(0.6), any::<u32>(), value(), value(), (0u8..6, 0u8..6), prop::bool::weighted(0.15))
        .prop_map(|(var, idx, val, mul, fmt, marked)| Entry { var, idx, val, mul, fmt, marked }), 0..=max).boxed()
}

/// Keeps one entry per variable and row, with indices in range.
fn distinct(nx: usize, na: usize, es: Vec<Entry>) -> Vec<Entry> {
    let mut seen = std::collections::HashSet::new();
    es.into_iter().filter_map(|mut e| {
        let n = if e.var { nx } else { na };
        if n == 0 { return None; }
        e.idx %= n as u32;
        if seen.insert((e.var, e.idx)) { Some(e) } else { None }
    }).collect()
}

/// Starts of files that say neither optimal nor infeasible.
fn word() -> BoxedStrategy<Option<String>> {
    let mut v: Vec<String> = ["Not optimal", "Suboptimal", "Near optimal", "Feasible", "Solved", "Best", "Presolved", "Primal", "Relaxation optimal", "Almost", "Opt", "Optima", "ptimal", "Feasible but not optimal", "Integer", "Integer feasible", "Integer optimal", "inf", "1", "0", "Stopped optimal", "- Optimal", "Unknown", "Interrupted", "Time", "Limit", "Result - Optimal", "Optimality", "Optimality not proven", "Optimum", "Optimize", "Nonoptimal", "Optimal_not"].iter().map(|s| s.to_string()).collect();
    v.extend(crate::dict::names().into_iter().filter(|n| { let n = n.to_ascii_lowercase(); !n.starts_with("optimal") && !n.starts_with("infeasible") }));
    prop_oneof![40 => Just(None), 1 => (prop::sample::select(v), 0u8..4).prop_map(|(s, k)| Some(match k { 0 => s, 1 => s.to_ascii_lowercase(), 2 => format!("{} solution", s), _ => s.to_ascii_uppercase() }))].boxed()
}

fn sol_case(heads: BoxedStrategy<u8>) -> BoxedStrategy<SolCase> {
    let all = prop_oneof![1000 => (0usize..=5, 0usize..=5, entries(10)), 200 => (0usize..=40, 0usize..=40, entries(60)), 100 => (0usize..=3000, 0usize..=3000, entries(40)),
        1 => (0usize..=200_000, 0usize..=200_000, entries(40)), 1 => (400usize..=2000, 400usize..=2000, entries(2500))].boxed();
    let all = match crate::dict::sizes(7, 100_000) {
        None => all,
        Some(n) => prop_oneof![600 => all, 1 => (n, any::<bool>()).prop_flat_map(|(n, full)| { let k = if full { n.min(1500) } else { 10 }; ((n + 1)..(n + 10), n..(n + 10), entries(2 * k)) })].boxed(),
    };
    all.prop_flat_map(move |(nx, na, e)| (Just(nx), Just(na), any::<bool>(), heads.clone(), Just(e), 0u8..6, word()))
        .prop_map(|(nx, na, cbc, head, e, eol, word)| SolCase { nx, na, cbc, head, entries: distinct(nx, na, e), eol, word }).boxed()
}

impl SolCase {
    pub fn lines(&self) -> Vec<Vec<String>> {
        self.entries.iter().enumerate().map(|(k, e)| {
            let mut t = vec![];
            if e.marked { t.push("**".to_string()); }
            t.push(k.to_string());
            t.push(format!("{}_{}", if e.var { "x" } else { "c" }, e.idx));
            t.push(print_num(e.val, e.fmt.0));
            t.push(print_num(e.mul, e.fmt.1));
            t
        }).collect()
    }

    fn text(&self, lines: &[Vec<String>]) -> String {
        let nl = if self.eol == 1 { "\r\n" } else { "\n" };
        let mut s = match &self.word { Some(w) => format!("{} - objective value 12.50000000", w), None => head(self.cbc, self.head).0.replace('\n', nl) };
        for l in lines.iter() {
            s += nl;
            let mut l = l.clone();
            if l.first().map(|x| x.as_str()) == Some("**") { l.remove(0); s += "** "; }
            for (i, t) in l.iter().enumerate() {
                match (self.eol, i) {
                    (2, 0) => s += t,
                    (2, _) => { s += " "; s += t; }
                    (3, 0) => s += t,
                    (3, _) => { s += "\t"; s += t; }
                    (_, 0) => s += &format!("{:>7}", t),
                    (_, 1) => s += &format!(" {:<15}", t),
                    _ => s += &format!(" {:>15}", t),
                }
            }
        }
        if self.eol != 4 { s += nl; }
        s
    }
}

fn read(name: &str, text: &[u8], p: &ProblemMilp, cbc: bool) -> Result<std::io::Result<(SolverStatus, ProblemSol)>, String> {
    std::fs::write(name, text).map_err(|e| e.to_string())?;
    guard("reading", || SolverCbcCmd::read_sol_file(name, p, cbc))
}

pub struct C17;

impl Prop for C17 {
    const ID: &'static str = "C17";
    type Case = SolCase;
    fn rule() -> &'static str {
        "random well-formed cbc and clp solution files: all status lines, any subset of variables and rows in any order, all number formats, marked lines, several layouts; non-trivial: a solved file with at least three entries of which one has a positive and one a negative reduced cost"
    }
    fn assumptions() -> Vec<&'static str> { vec!["the formats are those of the installed cbc 2.10 and clp 1.17 and clp's older lower-case one"] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 300000 } else { 4000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<SolCase> { sol_case(prop_oneof![2 => 0u8..3, 1 => any::<u8>()].boxed()) }
    fn describe(c: &SolCase) -> Option<String> { Some(format!("{} variables, {} rows, cbc {}:\n{}", c.nx, c.na, c.cbc, c.text(&c.lines()))) }
    fn check(c: &SolCase, ctx: &mut Ctx) -> Res {
        let p = problem(c.nx, c.na);
        let (st, s) = read("s.sol", c.text(&c.lines()).as_bytes(), &p, c.cbc)?.map_err(|e| format!("reading a good file fails: {}", e))?;
        let (h, k) = match &c.word { Some(w) => (w.as_str(), 2), None => head(c.cbc, c.head) };
        let want = [SolverStatus::Solved, SolverStatus::Infeasible, SolverStatus::Error];
        ensure!(st == want[k as usize], "status is {} for {:?}", st, h);
        ensure!(s.x.len() == c.nx && s.lam.len() == c.na && s.nu.is_empty() && s.mu.len() == c.nx && s.pi.len() == c.nx, "sizes of the solution are {}, {}, {}, {}, {}", s.x.len(), s.lam.len(), s.nu.len(), s.mu.len(), s.pi.len());
        ctx.label(&format!("{} {}", if c.cbc { "cbc" } else { "clp" }, if c.word.is_some() { "another word".to_string() } else { h.split(" - ").next().unwrap().replace('\n', "/") }));
        if k != 0 { return Ok(()); }
        let (mut x, mut lam, mut mu, mut pi) = (vec![0.; c.nx], vec![0.; c.na], vec![0.; c.nx], vec![0.; c.nx]);
        let (mut pos, mut neg) = (false, false);
        for e in c.entries.iter() {
            let v: f64 = print_num(e.val, e.fmt.0).parse().unwrap();
            let m: f64 = print_num(e.mul, e.fmt.1).parse().unwrap();
            let i = e.idx as usize;
            if e.var {
                ctx.label_if(p.p()[i] && v != v.round(), "integer variable with a fraction");
                x[i] = v;
                if m > 0. { pi[i] = m; pos = true; } else if m < 0. { mu[i] = -m; neg = true; }
            } else { lam[i] = m; }
            ctx.label_if(e.marked, "marked entry");
            ctx.label_if(e.idx > 65535, "index above 65535");
        }
        ensure!(s.x == x, "values are {:?} instead of {:?}", s.x, x);
        ensure!(s.lam == lam, "row multipliers are {:?} instead of {:?}", s.lam, lam);
        ensure!(s.pi == pi, "lower-limit multipliers are {:?} instead of {:?}", s.pi, pi);
        ensure!(s.mu == mu, "upper-limit multipliers are {:?} instead of {:?}", s.mu, mu);
        ctx.label_if(c.entries.len() > 255, "more than 255 entries");
        if c.entries.len() >= 3 && pos && neg { ctx.nontrivial(); }
        Ok(())
    }
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    /// Removes tokens from the end of an entry line
    Short(u16, u8),
    /// Puts something that is not a number in place of value or multiplier
    NotNum(u16, bool, u8),
    /// Names what the problem does not have
    Unknown(u16, u8),
    /// Joins two entry lines' tokens wrongly: drops the name
    NoName(u16),
    /// Cuts the file at a byte
    Cut(u16),
    /// Overwrites bytes
    Bytes(Vec<(u16, u8)>),
    /// Anything
    Raw(Vec<u8>),
    /// Words of solution files in random order
    Words(Vec<u8>),
    Missing,
    Directory,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DamCase { pub s: SolCase, pub d: Damage }

const GARBAGE: [&str; 14] = ["abc", "1.2.3", "--1", "1e", "0x10", "1,5", "x_0", "*", "1e5e5", "+-2", "NaN?", "12a", "1_000", "Ⅷ"];
const WORDS: [&str; 20] = ["Optimal", "optimal", "Infeasible", "infeasible", "-", "objective", "value", "0", "1", "x_0", "c_0", "x_1", "\n", "\n", "**", "-3.5", "1e400", "x_", "_", "Unbounded"];

pub struct C18;

impl Prop for C18 {
    const ID: &'static str = "C18";
    type Case = DamCase;
    fn rule() -> &'static str {
        "random solution files damaged in a random way (lines cut short, numbers replaced, unknown names, files cut at a byte, bytes overwritten) and random bytes and words; non-trivial: a file that says optimal with at least two entries, one of them damaged"
    }
    fn assumptions() -> Vec<&'static str> { vec!["which error or status results is only required where the damage is certain: an entry line that is incomplete, not numeric or names what the problem does not have"] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 300_000 } else { 5_000_000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<DamCase> {
        let d = prop_oneof![
            3 => (any::<u16>(), 1u8..4).prop_map(|(k, n)| Damage::Short(k, n)),
            3 => (any::<u16>(), any::<bool>(), any::<u8>()).prop_map(|(k, w, g)| Damage::NotNum(k, w, g)),
            3 => (any::<u16>(), any::<u8>()).prop_map(|(k, n)| Damage::Unknown(k, n)),
            1 => any::<u16>().prop_map(Damage::NoName),
            2 => any::<u16>().prop_map(Damage::Cut),
            2 => prop::collection::vec((any::<u16>(), prop_oneof![any::<u8>(), prop::sample::select(b"\n \t_xc*-.e0129".to_vec())]), 1..5).prop_map(Damage::Bytes),
            1 => prop::collection::vec(any::<u8>(), 0..60).prop_map(Damage::Raw),
            2 => prop::collection::vec(0u8..20, 0..30).prop_map(Damage::Words),
            1 => prop_oneof![Just(Damage::Missing), Just(Damage::Directory)],
        ];
        (sol_case(prop_oneof![3 => 0u8..3, 1 => any::<u8>()].boxed()), d).prop_map(|(s, d)| DamCase { s, d }).boxed()
    }
    fn describe(c: &DamCase) -> Option<String> { Some(format!("{} variables, {} rows, cbc {}, {:?}:\n{}", c.s.nx, c.s.na, c.s.cbc, c.d, String::from_utf8_lossy(&damaged(c).0))) }
    fn check(c: &DamCase, ctx: &mut Ctx) -> Res {
        let s = &c.s;
        let p = problem(s.nx, s.na);
        let k = if s.word.is_some() { 2 } else { head(s.cbc, s.head).1 };
        let (bytes, certain) = damaged(c);
        let name = "d.sol";
        std::fs::remove_file(name).ok();
        std::fs::remove_dir(name).ok();
        let r = match c.d {
            Damage::Missing => guard("reading", || SolverCbcCmd::read_sol_file(name, &p, s.cbc))?,
            Damage::Directory => {
                std::fs::create_dir(name).map_err(|e| e.to_string())?;
                let r = guard("reading", || SolverCbcCmd::read_sol_file(name, &p, s.cbc))?;
                std::fs::remove_dir(name).ok();
                r
            }
            _ => read(name, &bytes, &p, s.cbc)?,
        };
        let text = String::from_utf8_lossy(&bytes).to_string();
        let first = text.lines().next().unwrap_or("").to_ascii_lowercase();
        if let Ok((st, sol)) = &r {
            ensure!(sol.x.len() == s.nx && sol.lam.len() == s.na && sol.nu.is_empty() && sol.mu.len() == s.nx && sol.pi.len() == s.nx, "sizes of the solution do not fit the problem");
            let gone = matches!(c.d, Damage::Missing | Damage::Directory);
            ensure!(*st != SolverStatus::Solved || (!gone && says(&first, "optimal").map_or(false, |k| first[..k].trim().is_empty())), "solved is reported for a file that starts with {:?}", first);
            ensure!(*st != SolverStatus::Infeasible || (!gone && says(&first, "infeasible").is_some()), "infeasible is reported for a file that starts with {:?}", first);
        }
        ctx.label(match c.d { Damage::Short(..) => "line cut short", Damage::NotNum(..) => "not a number", Damage::Unknown(..) => "unknown name", Damage::NoName(_) => "no name", Damage::Cut(_) => "file cut",
            Damage::Bytes(_) => "bytes changed", Damage::Raw(_) => "random bytes", Damage::Words(_) => "random words", Damage::Missing => "missing", Damage::Directory => "directory" });
        if certain && k == 0 {
            ensure!(r.is_err(), "a damaged entry line is accepted ({:?})", c.d);
            if s.entries.len() >= 2 { ctx.nontrivial(); }
            ctx.label("error required");
        }
        Ok(())
    }
}

/// Where the line first has this as a word of its own.
fn says(line: &str, word: &str) -> Option<usize> {
    let part = |c: char| c.is_alphanumeric() || c == '_';
    line.match_indices(word).map(|x| x.0).find(|k| !line[..*k].ends_with(part) && !line[k + word.len()..].starts_with(part))
}

/// The damaged file, and whether it surely has a bad entry line.
fn damaged(c: &DamCase) -> (Vec<u8>, bool) {
    let s = &c.s;
    let mut lines = s.lines();
    let n = lines.len();
    let off = |l: &Vec<String>| if l[0] == "**" { 1 } else { 0 };
    let mut certain = false;
    match &c.d {
        Damage::Short(k, m) if n > 0 => {
            let l = &mut lines[*k as usize % n];
            let len = l.len() - *m as usize;
            l.truncate(len);
            certain = true;
        }
        Damage::NotNum(k, w, g) if n > 0 => {
            let l = &mut lines[*k as usize % n];
            let o = off(l);
            l[o + 2 + *w as usize] = GARBAGE[*g as usize % GARBAGE.len()].to_string();
            certain = true;
        }
        Damage::Unknown(k, m) if n > 0 => {
            let l = &mut lines[*k as usize % n];
            let o = off(l);
            let (nx, na) = (s.nx, s.na);
            l[o + 1] = match m % 27 {
                // names that only start like the name of a variable or row, or are not how it is written
                18 => "x_0_1".into(), 19 => "c_0_".into(), 20 => "x_+0".into(), 21 => "x_00".into(), 22 => "X_0".into(), 23 => "x__0".into(), 24 => "x0".into(),
                25 => format!("{}_{}", if *k & 1 == 0 { "x" } else { "c" }, ["0_c", "0_0", "01", "0001", "0x"][(*k as usize >> 1) % 5]),
                26 => format!("{}_0", ["xx", "cx", "x_c", "C", "r", "v", "R", "x\u{e9}"][*k as usize % 8]),
                0 => format!("x_{}", nx), 1 => format!("c_{}", na), 2 => format!("x_{}", nx + 1 + *m as usize * 1000), 3 => format!("c_{}", na + 7),
                4 => "y_0".into(), 5 => "x".into(), 6 => "x_".into(), 7 => "c_".into(), 8 => "_0".into(), 9 => "x_-1".into(), 10 => "xc_0".into(),
                11 => "c_99999999999999999999999".into(), 12 => "x_1.0".into(),
                // numbers that are small only in so many bits
                13 => format!("{}_{}", if *k & 1 == 0 { "x" } else { "c" }, (1u64 << 32) + (*k as u64 >> 1) % 3), 14 => "x_18446744073709551616".into(),
                15 => if nx <= 65536 && na <= 65536 { format!("{}_{}", if *k & 1 == 0 { "x" } else { "c" }, 65536) } else { "c_18446744073709551617".into() },
                16 => if nx <= 256 && na <= 256 { format!("{}_{}", if *k & 1 == 0 { "x" } else { "c" }, 256) } else { "x_18446744073709551615".into() }, _ => "obj".into(),
            };
            certain = true;
        }
        Damage::NoName(k) if n > 0 => {
            let l = &mut lines[*k as usize % n];
            let o = off(l);
            l.remove(o + 1);
            certain = true;
        }
        _ => (),
    }
    let mut b = s.text(&lines).into_bytes();
    match &c.d {
        Damage::Cut(k) => { let k = *k as usize % (b.len() + 1); b.truncate(k); }
        Damage::Bytes(v) => for (k, x) in v { let n = b.len(); if n > 0 { b[*k as usize % n] = *x; } },
        Damage::Raw(v) => b = v.clone(),
        Damage::Words(v) => b = v.iter().map(|k| WORDS[*k as usize]).collect::<Vec<_>>().join(" ").into_bytes(),
        _ => (),
    }
    (b, certain)
}
