//! C19, C20, C21: linear problems solved with the real cbc and clp.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;

use numopt::matrix::coo::CooMat;
use numopt::model::constraint::{Constraint, ConstraintKind};
use numopt::model::model::{Model, Objective};
use numopt::model::node::Node;
use numopt::model::node_cmp::NodeCmp;
use numopt::model::variable::VariableScalar;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::cbc_cmd::SolverCbcCmd;
use numopt::solver::clp_cmd::SolverClpCmd;
use simple_error::SimpleError;

use crate::fw::{guard, Ctx, Prop, Res, Tier};
use crate::lpref::{self, Opt};
use crate::shim;
use crate::stdp::dot;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Row {
    /// (variable, quarters)
    pub t: Vec<(u8, i8)>,
    /// 0 ==, 1 <=, 2 >=
    pub kind: u8,
    /// Distance of the right-hand side from the row's value at the inner point, in quarters; None: a free right-hand side
    pub gap: Option<u8>,
    pub rhs: i8,
    /// Which terms go to the right, and the constant on the left
    pub right: u8,
    pub k: i8,
    /// Repeated with a right-hand side further off, so that they contradict
    pub clash: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LinCase {
    pub model: bool,
    /// Inner point, in halves for continuous variables
    pub x: Vec<i8>,
    pub int: Vec<bool>,
    /// Distances of limits from the inner point in halves; 255: none
    pub lim: Vec<(u8, u8)>,
    pub far: u8,
    pub c: Vec<i8>,
    pub ck: i8,
    pub max: bool,
    pub rows: Vec<Row>,
    pub milp: bool,
    pub forms: Vec<u8>,
    pub log: u8,
}

pub fn lin_case(ints: bool) -> BoxedStrategy<LinCase> {
    let coef = || prop_oneof![4 => prop::sample::select(vec![4i8, -4, 8, -8, 12, -12]), 2 => -20i8..21];
    let dist = move || if ints { prop_oneof![1 => Just(0u8), 8 => 1u8..5].boxed() } else { prop_oneof![1 => Just(0u8), 8 => 1u8..12, 1 => Just(255u8)].boxed() };
    // mostly small; some with indices of two digits
    prop_oneof![19 => (1usize..=6, Just(0usize), Just(4usize)), 1 => if ints { (7usize..=12, Just(1usize), Just(6usize)) } else { (7usize..=24, Just(4usize), Just(14usize)) }].prop_flat_map(move |(n, r0, r1)| {
        // the reference enumerates the integer points
        let int = if !ints { 0. } else if n > 6 { 3. / n as f64 } else { 0.7 };
        let row = (prop::collection::vec((0..n as u8, coef()), 1..5), prop_oneof![2 => Just(0u8), 3 => 1u8..3], prop::option::weighted(0.85, prop_oneof![1 => Just(0u8), 2 => 0u8..20]),
                   -30i8..31, any::<u8>(), prop_oneof![2 => Just(0i8), 1 => -8i8..9], prop::bool::weighted(0.03))
            .prop_map(|(t, kind, gap, rhs, right, k, clash)| Row { t, kind, gap, rhs, right, k, clash });
        (
            (any::<bool>(), prop::collection::vec(-8i8..9, n), prop::collection::vec(prop::bool::weighted(int), n),
             prop::collection::vec((dist(), dist()), n), prop_oneof![8 => Just(0u8), 1 => 1u8..4]),
            (prop::collection::vec(prop_oneof![1 => Just(0i8), 5 => coef()], n), prop_oneof![Just(0i8), -9i8..10], any::<bool>(),
             prop::collection::vec(row, r0..=r1), any::<bool>(), prop::collection::vec(any::<u8>(), 12), 0u8..3),
        )
    }).prop_map(move |((model, x, int, lim, far), (c, ck, max, rows, milp, forms, log))| {
        let mut k = LinCase { model, x, int, lim, far, c, ck, max, rows, milp, forms, log };
        if k.x.len() > 8 && !ints {
            // solvable by construction
            for r in k.rows.iter_mut() { if r.gap.is_none() { r.gap = Some(r.rhs.unsigned_abs()); } r.clash = false; }
            for l in k.lim.iter_mut() { if l.0 == 255 { l.0 = 40; } if l.1 == 255 { l.1 = 40; } }
        }
        k
    }).boxed()
}

/// A linear problem with rows of any kind.
#[derive(Clone, Debug, Default)]
pub struct Lin {
    pub n: usize,
    pub c: Vec<f64>,
    pub rows: Vec<(Vec<(usize, f64)>, u8, f64)>,
    pub l: Vec<f64>,
    pub u: Vec<f64>,
    pub int: Vec<bool>,
}

impl LinCase {
    pub fn lin(&self) -> Lin {
        let n = self.x.len();
        let x: Vec<f64> = (0..n).map(|i| if self.int[i] { (self.x[i] / 2) as f64 } else { self.x[i] as f64 / 2. }).collect();
        let lim = |i: usize, d: u8, s: f64| -> f64 {
            if d == 255 {
                if self.model { s * 1e3 } else if self.far == 1 { s * 1e8 } else { s * f64::INFINITY }
            } else { x[i] + s * d as f64 / 2. }
        };
        let l: Vec<f64> = (0..n).map(|i| lim(i, self.lim[i].0, -1.)).collect();
        let u: Vec<f64> = (0..n).map(|i| lim(i, self.lim[i].1, 1.)).collect();
        let mut rows = vec![];
        for r in self.rows.iter() {
            let t: Vec<(usize, f64)> = r.t.iter().map(|(v, a)| (*v as usize, *a as f64 / 4.)).collect();
            let at: f64 = t.iter().map(|(v, a)| a * x[*v]).sum();
            let kind = if self.model { r.kind } else { 0 };
            let d = r.gap.map(|g| g as f64 / 4.);
            let b = match (d, kind) { (None, _) => r.rhs as f64 / 2., (Some(_), 0) => at, (Some(d), 1) => at + d, (Some(d), _) => at - d };
            rows.push((t.clone(), kind, b));
            if r.clash {
                match kind { 0 => rows.push((t, 0, b + 1.)), 1 => rows.push((t, 2, b + 1.)), _ => rows.push((t, 1, b - 1.)) }
            }
        }
        let mut c: Vec<f64> = self.c.iter().map(|a| *a as f64 / 4.).collect();
        // cbc and clp do not take problems without objective and rows
        if c.iter().all(|x| *x == 0.) && (rows.is_empty() || rows.iter().all(|r| (0..n).all(|i| r.0.iter().filter(|t| t.0 == i).map(|t| t.1).sum::<f64>() == 0.))) { c[0] = 1.; }
        Lin { n, c, rows, l, u, int: self.int.clone() }
    }
}

impl LinCase {
    /// The inner point satisfies everything and all variables are limited.
    pub fn sure(&self, g: &Lin) -> bool {
        self.rows.iter().all(|r| r.gap.is_some() && !r.clash) && g.l.iter().chain(g.u.iter()).all(|x| x.is_finite())
    }
}

impl Lin {
    fn dense(&self, r: usize) -> Vec<f64> { let mut v = vec![0.; self.n]; for (i, a) in self.rows[r].0.iter() { v[*i] += a; } v }

    /// Exact optimum of min s*c x.
    pub fn reference(&self, s: f64) -> Option<Opt> {
        // too slow and too long numbers
        if self.n > 8 && !self.int.iter().any(|x| *x) { return None; }
        let m = self.rows.len();
        let slack: Vec<usize> = (0..m).filter(|r| self.rows[*r].1 != 0).collect();
        let nn = self.n + slack.len();
        let mut c: Vec<f64> = self.c.iter().map(|x| s * x).collect();
        c.resize(nn, 0.);
        let (mut l, mut u, mut p) = (self.l.clone(), self.u.clone(), self.int.clone());
        for r in slack.iter() { p.push(false); if self.rows[*r].1 == 1 { l.push(f64::NEG_INFINITY); u.push(0.); } else { l.push(0.); u.push(f64::INFINITY); } }
        let a: Vec<Vec<f64>> = (0..m).map(|r| {
            let mut v = self.dense(r);
            v.resize(nn, 0.);
            if let Some(k) = slack.iter().position(|q| *q == r) { v[self.n + k] = -1.; }
            v
        }).collect();
        let b: Vec<f64> = self.rows.iter().map(|r| r.2).collect();
        if p.iter().any(|x| *x) { lpref::solve_int(&c, &a, &b, &l, &u, &p) } else { lpref::solve(&c, &a, &b, &l, &u) }
    }
}

pub const TOL: f64 = 1e-6;

/// Is the point feasible for a x = b, l <= x <= u, p x integer?
pub fn feasible(a: &[(usize, usize, f64)], b: &[f64], l: &[f64], u: &[f64], p: &[bool], x: &[f64], tol: f64) -> Res {
    for i in 0..l.len() {
        let t = tol * (1. + x[i].abs());
        ensure!(x[i] >= l[i] - t && x[i] <= u[i] + t, "variable {} is {:?}, its limits are {:?} and {:?}", i, x[i], l[i], u[i]);
        ensure!(!p[i] || (x[i] - x[i].round()).abs() <= tol * 10., "integer variable {} is {:?}", i, x[i]);
    }
    for r in 0..b.len() {
        let (mut s, mut big) = (-b[r], b[r].abs());
        for t in a.iter().filter(|t| t.0 == r) { s += t.2 * x[t.1]; big += (t.2 * x[t.1]).abs(); }
        ensure!(s.abs() <= tol * (1. + big), "row {} is off by {:?}", r, s);
    }
    Ok(())
}

/// Do the multipliers prove that x minimizes c x (c the gradient for nonlinear problems)?
pub fn optimal(c: &[f64], a: &[(usize, usize, f64)], lam: &[f64], l: &[f64], u: &[f64], x: &[f64], pi: &[f64], mu: &[f64], tol: f64) -> Res {
    let scale = 1. + lam.iter().chain(pi.iter()).chain(mu.iter()).fold(0f64, |m, v| m.max(v.abs()));
    for i in 0..c.len() {
        let (mut s, mut big) = (c[i] - pi[i] + mu[i], c[i].abs() + pi[i].abs() + mu[i].abs());
        for t in a.iter().filter(|t| t.1 == i) { s -= t.2 * lam[t.0]; big += (t.2 * lam[t.0]).abs(); }
        ensure!(s.abs() <= tol * (1. + big + scale * 0.01), "stationarity at variable {} is off by {:?} (gradient {:?}, pi {:?}, mu {:?}, lam {:?})", i, s, c[i], pi[i], mu[i], lam);
        ensure!(pi[i] >= -tol * scale && mu[i] >= -tol * scale, "multipliers of the limits of variable {} are {:?} and {:?}", i, pi[i], mu[i]);
        // complementarity, relative to the size of multiplier and distance
        let at = |m: f64, d: f64| m.abs() <= tol * scale || d.abs() <= tol * (1. + x[i].abs()) || (m * d).abs() <= tol * scale;
        ensure!(at(pi[i], x[i] - l[i]), "variable {} is {:?}, its lower limit is {:?} and has multiplier {:?}", i, x[i], l[i], pi[i]);
        ensure!(at(mu[i], u[i] - x[i]), "variable {} is {:?}, its upper limit is {:?} and has multiplier {:?}", i, x[i], u[i], mu[i]);
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
pub enum Which { Cbc, Clp }

pub fn real(w: Which, log: u8) -> Box<dyn Solver> {
    let mut s: Box<dyn Solver> = match w { Which::Cbc => Box::new(SolverCbcCmd::new()), Which::Clp => Box::new(SolverClpCmd::new()) };
    s.set_param("logLevel", SolverParam::IntParam(log as i32)).unwrap();
    s
}

/// Passes problems on and keeps the results.
pub struct Spy { pub inner: Box<dyn Solver>, pub seen: RefCell<Vec<(crate::stdp::View, Vec<f64>, Option<(String, Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>)>)>> }

impl Solver for Spy {
    fn get_params(&self) -> &HashMap<String, SolverParam> { self.inner.get_params() }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> { self.inner.get_params_mut() }
    fn solve(&self, p: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> {
        let v = crate::stdp::view(p);
        let c = match p { Problem::Lp(q) => q.c().to_vec(), Problem::Milp(q) => q.c().to_vec(), _ => vec![] };
        let r = self.inner.solve(p);
        let s = r.as_ref().ok().map(|(st, s)| (format!("{}", st), s.x.clone(), s.lam.clone(), s.mu.clone(), s.pi.clone()));
        self.seen.borrow_mut().push((v, c, s));
        r
    }
}

/// The model of a case, its variables, constraints per row, and limits as (variable, constraint).
pub fn build_model(c: &LinCase, g: &Lin) -> (Model, Vec<Node>, Vec<Constraint>, Vec<Constraint>) {
    let vars: Vec<Node> = (0..g.n).map(|i| if g.int[i] { VariableScalar::new_integer(&format!("v{}", i)) } else { VariableScalar::new_continuous(&format!("v{}", i)) }).collect();
    let form = |k: usize| c.forms[k % c.forms.len()];
    let term = |v: usize, a: f64, k: usize| -> Node {
        let f = form(k);
        if a == 1. && f % 2 == 0 { vars[v].clone() } else if a == -1. && f % 2 == 0 { -&vars[v] } else if f % 3 == 0 { &vars[v] * a } else { a * &vars[v] }
    };
    let sum = |t: &[(usize, f64)], k0: f64, salt: usize| -> Option<Node> {
        let mut e: Option<Node> = None;
        for (k, (v, a)) in t.iter().enumerate() {
            e = Some(match e { None => term(*v, *a, k + salt), Some(e) => if form(k + salt + 3) % 4 == 0 { e - term(*v, -*a, k + salt) } else { e + term(*v, *a, k + salt) } });
        }
        if k0 != 0. { e = e.map(|e| if form(salt) % 2 == 0 { e + k0 } else { k0 + e }); }
        e
    };
    let mut m = Model::new();
    let t: Vec<(usize, f64)> = (0..g.n).filter(|i| g.c[*i] != 0.).map(|i| (i, g.c[i])).collect();
    if let Some(e) = sum(&t, c.ck as f64, 1) { m.set_objective(if c.max { Objective::maximize(&e) } else { Objective::minimize(&e) }); }
    let mut rows = vec![];
    for (k, (t, kind, b)) in g.rows.iter().enumerate() {
        let r = &c.rows[k.min(c.rows.len() - 1)];
        let (mut left, mut right) = (vec![], vec![]);
        for (i, x) in t.iter().enumerate() { if i > 0 && r.right >> i & 1 == 1 { right.push((x.0, -x.1)); } else { left.push(*x); } }
        let lk = r.k as f64 / 4.;
        let l = sum(&left, lk, k).unwrap();
        let x = match sum(&right, *b + lk, k + 5) {
            Some(r) => match kind { 0 => l.equal(&r), 1 => l.leq(&r), _ => l.geq(&r) },
            None => { let v = *b + lk; match kind { 0 => l.equal(v), 1 => l.leq(v), _ => l.geq(v) } }
        };
        rows.push(x);
    }
    let mut lims = vec![];
    for i in 0..g.n {
        let v = &vars[i];
        let lo = |lims: &mut Vec<Constraint>| { let l = g.l[i]; lims.push(if form(i) % 3 == 0 && !g.int[i] { l.leq(v) } else { v.geq(l) }); if form(i) % 5 == 0 { lims.push(v.geq(l - 1.)); } };
        let hi = |lims: &mut Vec<Constraint>| { let u = g.u[i]; if form(i) % 7 == 0 { lims.push(v.leq(u + 2.)); } lims.push(if form(i + 1) % 3 == 0 && !g.int[i] { u.geq(v) } else { v.leq(u) }); };
        if form(i) % 2 == 0 { lo(&mut lims); hi(&mut lims); } else { hi(&mut lims); lo(&mut lims); }
    }
    let first = form(7) % 2 == 0;
    if first { for x in lims.iter() { m.add_constraint(x); } }
    for x in rows.iter() { m.add_constraint(x); }
    if !first { for x in lims.iter() { m.add_constraint(x); } }
    (m, vars, rows, lims)
}

fn status_ok(st: &str, want: &Option<Opt>) -> Res {
    let want = match want { Some(w) => w, None => { ensure!(st == "solved", "status is {}, the problem has a feasible point and limited variables", st); return Ok(()); } };
    match want {
        Opt::Value(v) => ensure!(st == "solved", "status is {}, the problem has optimum {:?}", st, v),
        Opt::Infeasible => ensure!(st == "infeasible", "status is {}, the problem is infeasible", st),
        Opt::Unbounded => ensure!(st != "solved", "status is {}, the problem is unbounded", st),
    }
    Ok(())
}

/// Does the solver itself, given the right file, answer wrongly?
pub fn solver_at_fault(w: Which, c: &[f64], a: &[(usize, usize, f64)], b: &[f64], l: &[f64], u: &[f64], p: &[bool], sure: bool) -> bool {
    let (lp, _) = shim::kept();
    let sol = shim::rerun(if w == Which::Cbc { "cbc" } else { "clp" });
    let lp = match crate::lp::parse(&lp) { Ok(x) => x, Err(_) => return false };
    if crate::lp::states(&lp, c, a, b, l, u, p).is_err() { return false; }
    let n = c.len();
    let rows: Vec<Vec<f64>> = (0..b.len()).map(|r| { let mut v = vec![0.; n]; for t in a.iter().filter(|t| t.0 == r) { v[t.1] += t.2; } v }).collect();
    let int = p.iter().any(|x| *x);
    let want = if sure && !int { None } else { match if int { lpref::solve_int(c, &rows, b, l, u, p) } else { lpref::solve(c, &rows, b, l, u) } { Some(w) => Some(w), None => return false } };
    let head = sol.lines().next().unwrap_or("");
    let says = if head.starts_with("Optimal") { 0 } else if head.starts_with("Infeasible") || head.starts_with("Integer infeasible") { 1 } else { 2 };
    let v = match (&want, says) {
        (None, 0) => None, (None, _) => return true,
        (Some(Opt::Value(v)), 0) => Some(*v), (Some(Opt::Value(_)), _) => return true, (Some(Opt::Infeasible), s) => return s != 1, (Some(Opt::Unbounded), s) => return s == 0,
    };
    let (mut x, mut lam, mut pi, mut mu) = (vec![0.; n], vec![0.; b.len()], vec![0.; n], vec![0.; n]);
    for line in sol.lines().skip(1) {
        let t: Vec<&str> = line.split_whitespace().filter(|s| *s != "**").collect();
        if t.len() != 4 { return true; }
        let (val, m): (f64, f64) = match (t[2].parse(), t[3].parse()) { (Ok(a), Ok(b)) => (a, b), _ => return true };
        if let Some(i) = crate::lp::Lp::index(t[1], "x_") { x[i] = val; if m > 0. { pi[i] = m } else { mu[i] = -m } }
        if let Some(i) = crate::lp::Lp::index(t[1], "c_") { lam[i] = m; }
    }
    let got = dot(c, &x);
    if feasible(a, b, l, u, p, &x, TOL * 0.5).is_err() { return true; }
    if v.map_or(false, |v| (got - v).abs() > TOL * 5. * (1. + v.abs() + c.iter().zip(x.iter()).map(|(a, b)| (a * b).abs()).sum::<f64>())) { return true; }
    !int && optimal(c, a, &lam, l, u, &x, &pi, &mu, TOL * 0.5).is_err()
}

pub fn run(c: &LinCase, w: Which, ctx: &mut Ctx) -> Res {
    shim::install("proxy");
    shim::forget();
    let r = attempt(c, w, ctx);
    for f in std::fs::read_dir(".").unwrap().filter_map(|e| e.ok()) { std::fs::remove_file(f.path()).ok(); }
    match r {
        Err((m, Some(v))) => {
            let (cc, a, b, l, u, p) = &v;
            if solver_at_fault(w, cc, a, b, l, u, p, c.sure(&c.lin())) { ctx.label("the solver itself is wrong"); return Ok(()); }
            Err(m)
        }
        Err((m, None)) => Err(m),
        Ok(()) => Ok(()),
    }
}

type Data = (Vec<f64>, Vec<(usize, usize, f64)>, Vec<f64>, Vec<f64>, Vec<f64>, Vec<bool>);

fn attempt(c: &LinCase, w: Which, ctx: &mut Ctx) -> Result<(), (String, Option<Data>)> {
    let mut data = None;
    inner(c, w, ctx, &mut data).map_err(|m| (m, data))
}

fn inner(c: &LinCase, w: Which, ctx: &mut Ctx, data: &mut Option<Data>) -> Res {
    let g = c.lin();
    let sense = if c.model && c.max { -1. } else { 1. };
    let int = g.int.iter().any(|x| *x);
    // without a reference, the multipliers still prove optimality
    let want = g.reference(sense);
    if want.is_none() && (int || !c.sure(&g)) { ctx.label("no reference"); return Ok(()); }
    ctx.label(match want { Some(Opt::Value(_)) => "has an optimum", Some(Opt::Infeasible) => "infeasible", Some(Opt::Unbounded) => "unbounded", None => "large, has an optimum" });
    ctx.label_if(g.n > 10, "more than ten variables");
    let solver = real(w, c.log);
    if !c.model {
        let a: Vec<(usize, usize, f64)> = g.rows.iter().enumerate().flat_map(|(r, x)| x.0.iter().map(move |t| (r, t.0, t.1))).collect();
        let mat = CooMat::new((g.rows.len(), g.n), a.iter().map(|t| t.0).collect(), a.iter().map(|t| t.1).collect(), a.iter().map(|t| t.2).collect());
        let b: Vec<f64> = g.rows.iter().map(|r| r.2).collect();
        let mut p = if int || (c.milp && w == Which::Cbc) { Problem::Milp(ProblemMilp::new(g.c.clone(), mat, b.clone(), g.l.clone(), g.u.clone(), g.int.clone(), None)) }
                    else { Problem::Lp(ProblemLp::new(g.c.clone(), mat, b.clone(), g.l.clone(), g.u.clone(), None)) };
        ctx.label(if matches!(p, Problem::Lp(_)) { "problem (lp)" } else { "problem (milp)" });
        *data = Some((g.c.clone(), a.clone(), b.clone(), g.l.clone(), g.u.clone(), g.int.clone()));
        let (st, s) = guard("solve", || solver.solve(&mut p))?.map_err(|e| format!("solve fails: {}", e))?;
        status_ok(&format!("{}", st), &want)?;
        if !matches!(want, Some(Opt::Infeasible) | Some(Opt::Unbounded)) {
            feasible(&a, &b, &g.l, &g.u, &g.int, &s.x, TOL)?;
            let got = dot(&g.c, &s.x);
            if let Some(Opt::Value(v)) = want { ensure!((got - v).abs() <= TOL * 10. * (1. + v.abs() + g.c.iter().zip(s.x.iter()).map(|(a, b)| (a * b).abs()).sum::<f64>()), "objective is {:?}, the optimum {:?}", got, v); }
            if !int { optimal(&g.c, &a, &s.lam, &g.l, &g.u, &s.x, &s.pi, &s.mu, TOL)?; }
            ctx.label_if(s.lam.iter().any(|x| *x != 0.), "nonzero row multiplier");
            ctx.label_if(s.mu.iter().any(|x| *x > 0.), "nonzero upper-limit multiplier");
            if !a.is_empty() && g.n >= 2 && (int || s.lam.iter().any(|x| *x != 0.)) { ctx.nontrivial(); }
        }
    } else {
        ctx.label("model");
        let (mut m, vars, rows, lims) = build_model(c, &g);
        let spy = Spy { inner: solver, seen: RefCell::new(vec![]) };
        guard("solve", || m.solve(&spy))?.map_err(|e| format!("solve fails: {}", e))?;
        let seen = spy.seen.borrow();
        let (v, cc, sol) = &seen[0];
        *data = Some((cc.clone(), v.a.clone(), v.b.clone(), v.l.clone(), v.u.clone(), v.p.clone()));
        let st = format!("{}", m.solver_status().ok_or("no status")?);
        status_ok(&st, &want)?;
        if !matches!(want, Some(Opt::Infeasible) | Some(Opt::Unbounded)) {
            // The standard problem
            let (_, sx, slam, smu, spi) = sol.as_ref().unwrap();
            feasible(&v.a, &v.b, &v.l, &v.u, &v.p, sx, TOL)?;
            if !int { optimal(cc, &v.a, slam, &v.l, &v.u, sx, spi, smu, TOL)?; }
            // The model
            let fp = m.final_primals();
            let mut x = vec![0.; g.n];
            for i in 0..g.n { x[i] = match fp.get(&vars[i]) { Some(x) => *x, None => return Err(format!("no value for variable {}", i)) }; }
            for i in 0..g.n {
                let t = TOL * (1. + x[i].abs());
                ensure!(x[i] >= g.l[i] - t && x[i] <= g.u[i] + t, "variable {} is {:?}, its limits are {:?} and {:?}", i, x[i], g.l[i], g.u[i]);
                ensure!(!g.int[i] || (x[i] - x[i].round()).abs() <= TOL * 10., "integer variable {} is {:?}", i, x[i]);
            }
            let mut gs = vec![];
            for (r, (t, kind, b)) in g.rows.iter().enumerate() {
                let (mut s, mut big) = (-*b, b.abs());
                for (i, a) in t.iter() { s += a * x[*i]; big += (a * x[*i]).abs(); }
                let tol = TOL * (1. + big);
                ensure!(match kind { 0 => s.abs() <= tol, 1 => s <= tol, _ => s >= -tol }, "constraint {} is violated by {:?}", rows[r], s);
                gs.push((s, tol));
            }
            let got = sense * dot(&g.c, &x);
            if let Some(Opt::Value(opt)) = want { ensure!((got - opt).abs() <= TOL * 10. * (1. + opt.abs() + g.c.iter().zip(x.iter()).map(|(a, b)| (a * b).abs()).sum::<f64>()), "objective is {:?}, the optimum {:?}", sense * got, sense * opt); }
            if !int {
                let fd = m.final_duals();
                let mut grad: Vec<f64> = g.c.iter().map(|c| sense * c).collect();
                let mut big: Vec<f64> = grad.iter().map(|x| 1. + x.abs()).collect();
                let mut scale: f64 = 1.;
                for d in fd.values() { scale = scale.max(d.abs()); }
                let mut any = false;
                for (r, (_, kind, _)) in g.rows.iter().enumerate() {
                    // of several equal limits of a variable one has the dual
                    let limit = *kind != 0 && g.dense(r).iter().filter(|a| **a != 0.).count() <= 1;
                    let d = match fd.get(&rows[r]) { Some(d) => *d, None if limit => 0., None => return Err(format!("no dual for {}", rows[r])) };
                    any |= d != 0.;
                    if *kind != 0 {
                        ensure!(d >= -TOL * scale, "dual of {} is {:?}", rows[r], d);
                        ensure!(d.abs() <= TOL * scale || gs[r].0.abs() <= gs[r].1, "dual of {} is {:?}, which is not tight ({:?})", rows[r], d, gs[r].0);
                    }
                    let s = match kind { 0 | 2 => 1., _ => -1. };
                    for (i, a) in g.dense(r).iter().enumerate() { grad[i] -= s * d * a; big[i] += (d * a).abs(); }
                }
                for q in lims.iter() {
                    let d = *fd.get(q).unwrap_or(&0.);
                    let text = format!("{}", q);
                    let i = (0..g.n).rev().find(|i| text.contains(&format!("v{}", i))).unwrap();
                    // which limit it is, by its violation
                    let up = limit_is_upper(q, &vars[i]);
                    let lim = limit_value(q, &vars[i], up);
                    ensure!(d >= -TOL * scale, "dual of {} is {:?}", q, d);
                    ensure!(d.abs() <= TOL * scale || (x[i] - lim).abs() <= TOL * (1. + x[i].abs()), "dual of {} is {:?}, which is not tight at {:?}", q, d, x[i]);
                    grad[i] -= if up { -d } else { d };
                    big[i] += d.abs();
                }
                for i in 0..g.n { ensure!(grad[i].abs() <= TOL * (big[i] + scale * 0.01), "stationarity of the model at variable {} is off by {:?}", i, grad[i]); }
                if any && g.n >= 2 { ctx.nontrivial(); ctx.label("model with nonzero duals"); }
            } else if !rows.is_empty() && g.n >= 2 { ctx.nontrivial(); }
        }
    }
    let left: Vec<String> = std::fs::read_dir(".").unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect();
    ensure!(left.is_empty(), "files {:?} are left behind", left);
    Ok(())
}

fn limit_is_upper(q: &Constraint, v: &Node) -> bool {
    let m: HashMap<&Node, f64> = [(v, 1e7)].into_iter().collect();
    let m2: HashMap<&Node, f64> = [(v, -1e7)].into_iter().collect();
    let _ = ConstraintKind::Equal;
    q.violation(&m) > q.violation(&m2)
}

fn limit_value(q: &Constraint, v: &Node, up: bool) -> f64 {
    let x = if up { 1e6 } else { -1e6 };
    let m: HashMap<&Node, f64> = [(v, x)].into_iter().collect();
    if up { x - q.violation(&m) } else { x + q.violation(&m) }
}

fn describe(c: &LinCase) -> Option<String> {
    let g = c.lin();
    if c.model { let (m, ..) = build_model(c, &g); Some(format!("{}", m)) } else { Some(format!("{:?}", g)) }
}

pub struct C19;
impl Prop for C19 {
    const ID: &'static str = "C19";
    type Case = LinCase;
    fn rule() -> &'static str {
        "random linear problems and models (mostly up to 6 variables and 8 rows, some up to 24 variables and 14 rows, feasible, infeasible and unbounded) solved with the real cbc, compared with an exact rational simplex; non-trivial: at least two variables and a row with a nonzero multiplier"
    }
    fn assumptions() -> Vec<&'static str> { vec!["data are small fractions, so that solver tolerances do not decide; problems without objective and rows, which cbc cannot take, are left out; numbers are checked to 1e-6 relative"] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 12_000 } else { 400_000 } }
    fn shrink_iters() -> u32 { 800 }
    fn strategy(_t: Tier) -> BoxedStrategy<LinCase> { lin_case(false) }
    fn describe(c: &LinCase) -> Option<String> { describe(c) }
    fn check(c: &LinCase, ctx: &mut Ctx) -> Res { run(c, Which::Cbc, ctx) }
}

pub struct C20;
impl Prop for C20 {
    const ID: &'static str = "C20";
    type Case = LinCase;
    fn rule() -> &'static str {
        "random mixed-integer linear problems and models (mostly up to 6 variables and 8 rows, some up to 12 variables and 6 rows, feasible and infeasible) solved with the real cbc, compared with enumeration of the integer points; non-trivial: at least two variables, a row and an integer variable"
    }
    fn assumptions() -> Vec<&'static str> { vec!["data are small fractions, so that solver tolerances do not decide; all variables have limits"] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 10_000 } else { 300_000 } }
    fn shrink_iters() -> u32 { 800 }
    fn strategy(_t: Tier) -> BoxedStrategy<LinCase> { lin_case(true).prop_map(|mut c| { if c.int.iter().all(|x| !*x) { c.int[0] = true; } c }).boxed() }
    fn describe(c: &LinCase) -> Option<String> { describe(c) }
    fn check(c: &LinCase, ctx: &mut Ctx) -> Res { run(c, Which::Cbc, ctx) }
}

pub struct C21;
impl Prop for C21 {
    const ID: &'static str = "C21";
    type Case = LinCase;
    fn rule() -> &'static str {
        "random linear problems and models (mostly up to 6 variables and 8 rows, some up to 24 variables and 14 rows, feasible, infeasible and unbounded) solved with the real clp, compared with an exact rational simplex; non-trivial: at least two variables and a row with a nonzero multiplier"
    }
    fn assumptions() -> Vec<&'static str> { vec!["data are small fractions, so that solver tolerances do not decide; problems without objective and rows, which clp cannot take, are left out; numbers are checked to 1e-6 relative"] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 12_000 } else { 400_000 } }
    fn shrink_iters() -> u32 { 800 }
    fn strategy(_t: Tier) -> BoxedStrategy<LinCase> { lin_case(false) }
    fn describe(c: &LinCase) -> Option<String> { describe(c) }
    fn check(c: &LinCase, ctx: &mut Ctx) -> Res { run(c, Which::Clp, ctx) }
}
