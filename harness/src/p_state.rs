//! C12, C13: solving a model with a stand-in solver; model histories.

use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use simple_error::SimpleError;

use numopt::model::constant::ConstantScalar;
use numopt::model::constraint::Constraint;
use numopt::model::model::{Model, Objective};
use numopt::model::model_std::ModelStd;
use numopt::model::node::Node;
use numopt::model::node_func::NodeFunc;
use numopt::model::variable::VariableScalar;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::base::{Solver, SolverParam, SolverStatus};

use crate::fw::{guard, Ctx, Prop, Res, Tier};
use crate::modelgen::{model_case, ModelCase, Opt};
use crate::p_ident::kind;
use crate::stdp::{dense, eval, view, Vals, View};
use crate::tape::{self, Ins, Limits, Mix, VarSpec, B};

pub fn status(k: u8) -> SolverStatus {
    match k % 4 { 0 => SolverStatus::Solved, 1 => SolverStatus::Infeasible, 2 => SolverStatus::Unknown, _ => SolverStatus::Error }
}

/// What the stand-in solver saw and returned.
pub struct Seen { pub view: View, pub evals: Vec<Vals>, pub sol: ProblemSol }

/// Records the problem and returns made-up vectors, all of whose entries differ.
pub struct Fake { pub params: HashMap<String, SolverParam>, pub err: bool, pub status: u8, pub seed: f64, pub at: Vec<f64>, pub seen: RefCell<Vec<Seen>> }

impl Fake {
    pub fn new(status: u8, err: bool, seed: f64, at: Vec<f64>) -> Fake { Fake { params: HashMap::new(), err, status, seed, at, seen: RefCell::new(vec![]) } }
}

fn made_up(seed: f64, what: usize, i: usize) -> f64 {
    let h = (what * 131 + i * 7919) as f64 * 0.618;
    let sign = if (h + seed).fract() < 0.5 { -1. } else { 1. };
    // in a third of the solutions a quarter of the entries are zero, tiny or huge
    if seed.fract() > 0.6 {
        let k = ((h * 3.7 + seed * 11.3).fract() * 32.) as usize;
        if k < 8 { return [0., 0., -0., 1e-300, -1e-9, 1e-12, 1e20, -1e8][k]; }
    }
    sign * (what as f64 * 1e4 + i as f64 * 10. + 1. + seed)
}

impl Solver for Fake {
    fn get_params(&self) -> &HashMap<String, SolverParam> { &self.params }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> { &mut self.params }
    fn solve(&self, problem: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> {
        let v = view(problem);
        let evals = self.at.iter().map(|t| eval(problem, &vec![*t; v.nx])).collect();
        let mk = |w: usize, n: usize| -> Vec<f64> { (0..n).map(|i| made_up(self.seed, w, i)).collect() };
        let sol = || ProblemSol { x: mk(1, v.nx), lam: mk(2, v.na), nu: mk(3, v.nf), mu: mk(4, v.nx), pi: mk(5, v.nx) };
        self.seen.borrow_mut().push(Seen { evals, sol: sol(), view: v.clone() });
        if self.err { return Err(SimpleError::new("made up")); }
        Ok((status(self.status), sol()))
    }
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TCon {
    Bound { v: u8, upper: bool, form: u8 },
    Row { coefs: Vec<(u8, i8)>, kind: u8 },
    Nl { t: u8, v: u8, w: u8, kind: u8 },
    Dup(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OwnCase { pub vars: Vec<VarSpec>, pub cons: Vec<TCon>, pub sense: u8, pub obj: u8, pub status: u8, pub seed: f64, pub order: Vec<u16> }

pub struct C12;

enum Own { Bound(usize, bool, f64), Row(f64, u8), Nl(f64, u8) }

impl Prop for C12 {
    const ID: &'static str = "C12";
    type Case = OwnCase;
    fn rule() -> &'static str {
        "random models whose constraints all carry a distinct constant, solved with a stand-in solver that returns made-up vectors with distinct entries; variables and rows are recognized by their limits and constants in the problem the solver was given; non-trivial: at least two variables and three kinds of multiplier positions were compared"
    }
    fn assumptions() -> Vec<&'static str> { vec![
        "an inequality that became a row with a slack variable has the multiplier of the slack's limit as its dual, an equality that of its row",
    ] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 600000 } else { 8000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<OwnCase> {
        let con = prop_oneof![
            3 => (any::<u8>(), any::<bool>(), 0u8..3).prop_map(|(v, upper, form)| TCon::Bound { v, upper, form }),
            3 => (prop::collection::vec((any::<u8>(), prop::sample::select(vec![-3i8, -2, -1, 2, 3, 5])), 1..4), 0u8..3).prop_map(|(coefs, kind)| TCon::Row { coefs, kind }),
            2 => (0u8..5, any::<u8>(), any::<u8>(), 0u8..3).prop_map(|(t, v, w, kind)| TCon::Nl { t, v, w, kind }),
            1 => any::<u8>().prop_map(TCon::Dup),
        ];
        let con2 = con.clone().boxed();
        let (small, big) = ((tape::vars(1, 5, false, true), prop::collection::vec(con.clone(), 0..8)), (tape::vars(6, 14, false, true), prop::collection::vec(con, 8..30)));
        let big = match crate::dict::sizes(7, 60) {
            None => big.boxed(),
            Some(n) => { let con = con2; prop_oneof![3 => big, 1 => n.prop_flat_map(move |n| (tape::vars(1, n, false, true), prop::collection::vec(con.clone(), n..=n + 3)))].boxed() }
        };
        (prop_oneof![24 => small, 1 => big], 0u8..3, 0u8..4, 0u8..4, 0.0f64..0.9, prop::collection::vec(any::<u16>(), 0..12))
            .prop_map(|((vars, cons), sense, obj, status, seed, order)| OwnCase { vars, cons, sense, obj, status, seed, order }).boxed()
    }
    fn check(c: &OwnCase, ctx: &mut Ctx) -> Res {
        let n = c.vars.len();
        let vars: Vec<Node> = c.vars.iter().map(|v| if v.int { VariableScalar::new_integer(&v.name) } else { VariableScalar::new_continuous(&v.name) }).collect();
        let mut list: Vec<(Constraint, usize)> = Vec::new(); // with index into own
        let mut own: Vec<Own> = Vec::new();
        let mk = |l: Node, k: u8, t: f64| Constraint::new(l, kind(k), ConstantScalar::new(t), "");
        for v in 0..n {
            for upper in [true, false] {
                let t = 1000. + (own.len() as f64);
                let t = if upper { t } else { -t };
                own.push(Own::Bound(v, upper, t));
                list.push((mk(vars[v].clone(), if upper { 1 } else { 2 }, t), own.len() - 1));
            }
        }
        for (k, x) in c.cons.iter().enumerate() {
            let tag = 10. + 1.5 * k as f64;
            match x {
                TCon::Bound { v, upper, form } => {
                    let v = *v as usize % n;
                    let t = 100. + tag;
                    let t = if *upper { t } else { -t };
                    let kk = if *upper { 1 } else { 2 };
                    let con = match form {
                        0 => mk(vars[v].clone(), kk, t),
                        1 => mk(&vars[v] + 2., kk, t + 2.),
                        _ => mk(&vars[v] - t, kk, 0.),
                    };
                    own.push(Own::Bound(v, *upper, t));
                    list.push((con, own.len() - 1));
                }
                TCon::Row { coefs, kind } => {
                    let mut sum: HashMap<usize, i32> = HashMap::new();
                    let mut e: Option<Node> = None;
                    for (v, a) in coefs { let v = *v as usize % n; *sum.entry(v).or_insert(0) += *a as i32; let t = (*a as f64) * &vars[v]; e = Some(match e { None => t, Some(e) => e + t }); }
                    let nz: Vec<i32> = sum.values().cloned().filter(|a| *a != 0).collect();
                    if nz.is_empty() || nz == vec![1] { continue; }
                    own.push(Own::Row(tag, *kind));
                    list.push((mk(e.unwrap(), *kind, tag), own.len() - 1));
                }
                TCon::Nl { t, v, w, kind } => {
                    let (x, y) = (&vars[*v as usize % n], &vars[*w as usize % n]);
                    let e = match t { 0 => x * y, 1 => x.sin() + y, 2 => x * x, 3 => x * y.cos(), _ => x * y + 3. * x };
                    own.push(Own::Nl(tag, *kind));
                    list.push((mk(e, *kind, tag), own.len() - 1));
                }
                TCon::Dup(k) => { let x = &list[*k as usize % list.len()]; let d = (x.0.clone(), x.1); list.push(d); ctx.label("constraint added twice"); }
            }
        }
        // Any order of adding
        for (i, s) in c.order.iter().enumerate() { let j = *s as usize % list.len(); let i = i % list.len(); list.swap(i, j); }
        let mut m = Model::new();
        let f = match c.obj { 0 => &vars[0] * 2., 1 => &vars[0] * &vars[n - 1], 2 => vars[0].cos(), _ => &vars[n - 1] + 1. };
        match c.sense { 0 => m.set_objective(Objective::minimize(&f)), 1 => m.set_objective(Objective::maximize(&f)), _ => () }
        for (x, _) in list.iter() { m.add_constraint(x); }
        let s = Fake::new(c.status, false, c.seed, vec![0., 1.]);
        let r = guard("solve", || m.solve(&s))?;
        ensure!(r.is_ok(), "solve failed though the solver did not");
        let seen = s.seen.borrow();
        ensure!(seen.len() == 1, "the solver was called {} times", seen.len());
        let seen = &seen[0];
        let v = &seen.view;
        ctx.label(v.kind);
        ensure!(m.solver_status() == Some(&status(c.status)), "status is {:?}, the solver returned {:?}", m.solver_status(), status(c.status));
        // Columns by their limits
        let lim = |v: usize, upper: bool| own.iter().filter_map(|o| match o { Own::Bound(w, u, t) if *w == v && *u == upper => Some(*t), _ => None })
            .fold(if upper { f64::INFINITY } else { f64::NEG_INFINITY }, |a, b| if upper { a.min(b) } else { a.max(b) });
        let primals = m.final_primals();
        let duals = m.final_duals();
        let mut col = vec![0; n];
        for i in 0..n {
            let (l, u) = (lim(i, false), lim(i, true));
            let at: Vec<usize> = (0..v.nx).filter(|k| v.l[*k] == l && v.u[*k] == u).collect();
            ensure!(at.len() == 1, "{} columns have the limits {} and {} of variable {}", at.len(), l, u, i);
            col[i] = at[0];
            let got = primals.get(&vars[i]);
            ensure!(got == Some(&seen.sol.x[at[0]]), "final value of variable {} is {:?}, the solver returned {:?} for it", i, got, seen.sol.x[at[0]]);
        }
        let mut kinds: HashSet<(u8, u8)> = HashSet::new();
        let slack = |r: usize, lin: bool| -> Option<usize> {
            let mut it = if lin { v.a.iter() } else { seen.evals[0].j.iter() };
            it.find(|t| t.0 == r && !col.contains(&t.1)).map(|t| t.1)
        };
        let limit = |c: usize, a: f64, k: u8| if (k == 1) == (a < 0.) { seen.sol.mu[c] } else { seen.sol.pi[c] };
        let mut bound_done: HashMap<(usize, bool), Vec<f64>> = HashMap::new();
        for (con, o) in list.iter() {
            let got = duals.get(con).cloned();
            match &own[*o] {
                Own::Bound(w, upper, t) => {
                    let want = if *upper { seen.sol.mu[col[*w]] } else { seen.sol.pi[col[*w]] };
                    if *t == lim(*w, *upper) {
                        ensure!(got == Some(want), "dual of bound {} is {:?}, the solver returned {:?} for this limit", con, got, want);
                        bound_done.entry((*w, *upper)).or_default().push(want);
                        kinds.insert((0, *upper as u8));
                    } else {
                        ensure!(got.map_or(true, |g| g == 0.), "dual of implied bound {} is {:?}", con, got);
                        ctx.label("implied bound");
                    }
                }
                Own::Row(t, k) => {
                    let rows: Vec<usize> = (0..v.na).filter(|r| v.b[*r] == *t).collect();
                    ensure!(!rows.is_empty(), "no linear row for {}", con);
                    let wants: Vec<f64> = rows.iter().map(|r| if *k == 0 { seen.sol.lam[*r] } else {
                        slack(*r, true).map_or(f64::NAN, |c| { let a: f64 = v.a.iter().filter(|t| t.0 == *r && t.1 == c).map(|t| t.2).sum(); limit(c, a, *k) }) }).collect();
                    ensure!(got.map_or(false, |g| wants.contains(&g)), "dual of {} is {:?}, the solver returned {:?} for it", con, got, wants);
                    kinds.insert((1, *k));
                }
                Own::Nl(t, k) => {
                    let rows: Vec<usize> = (0..v.nf).filter(|r| seen.evals[0].f[*r] == -*t).collect();
                    ensure!(!rows.is_empty(), "no nonlinear row for {}", con);
                    let wants: Vec<f64> = rows.iter().map(|r| if *k == 0 { seen.sol.nu[*r] } else {
                        slack(*r, false).map_or(f64::NAN, |c| { let a: f64 = seen.evals[0].j.iter().filter(|t| t.0 == *r && t.1 == c).map(|t| t.2).sum(); limit(c, a, *k) }) }).collect();
                    ensure!(got.map_or(false, |g| wants.contains(&g)), "dual of {} is {:?}, the solver returned {:?} for it", con, got, wants);
                    kinds.insert((2, *k));
                }
            }
        }
        for (k, v) in duals.iter() { ensure!(list.iter().any(|(c, _)| c == *k), "dual {:?} for a constraint that is not the model's", v); }
        for k in kinds.iter() { ctx.label(&format!("{} {}", ["limit", "linear row", "nonlinear row"][k.0 as usize], if k.0 == 0 { ["lower", "upper"][k.1 as usize] } else { ["==", "<=", ">="][k.1 as usize] })); }
        if n >= 2 && kinds.len() >= 3 { ctx.nontrivial(); }
        Ok(())
    }
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    Add(u8),
    AddMany(Vec<u8>),
    Obj(u8, u8),
    Init(Vec<(u8, f64)>),
    Solve { err: bool, status: u8, seed: f64 },
    Std,
    Print,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistCase { pub pool: ModelCase, pub exprs: Vec<u16>, pub ops: Vec<HOp> }

/// Makes constants such that sums of coefficients are exact in any order.
fn dyadic(c: &mut ModelCase) {
    let d = |x: &mut f64| { *x = if x.is_finite() { (x.max(-8.).min(8.) * 8.).round() / 8. } else { 1. } };
    let p2 = |x: &mut f64| { *x = if *x < 0. { -2. } else { 4. } };
    for i in c.tape.ins.iter_mut() {
        match i {
            Ins::C(v) => d(v),
            Ins::Sr(B::Div, _, v, _) => p2(v),
            Ins::Sr(_, _, v, _) | Ins::Sl(_, v, _, _) => d(v),
            Ins::Bin(o, ..) if *o == B::Div => *o = B::Mul,
            Ins::RawDiv(a, b) => *i = Ins::RawMul(*a, *b),
            _ => (),
        }
        if let Ins::Sl(o, ..) = i { if *o == B::Div { *o = B::Sub; } }
    }
    for x in c.cons.iter_mut() {
        match x {
            crate::modelgen::Con::Bound { c, .. } | crate::modelgen::Con::Row { c, .. } => d(c),
            crate::modelgen::Con::Expr { r: crate::modelgen::Rhs::C(c), .. } | crate::modelgen::Con::Expr { r: crate::modelgen::Rhs::Auto(c), .. } => d(c),
            crate::modelgen::Con::Held { d: a, off, .. } => { d(a); d(off); }
            _ => (),
        }
    }
    for p in c.points.iter_mut() { for x in p.iter_mut() { d(x); } }
}

fn close(a: f64, b: f64, big: f64) -> bool {
    a == b || !a.is_finite() || !b.is_finite() || (a - b).abs() <= 1e-7 * (1. + a.abs() + b.abs()) + 1e-12 * big
}

/// Compares two problems up to the order of their variables.
fn same_problem(a: &Seen, b: &Seen, ctx: &mut Ctx) -> Res {
    let (v, w) = (&a.view, &b.view);
    ensure!(v.kind == w.kind, "problem is {}, that of a fresh model {}", v.kind, w.kind);
    ensure!(v.nx == w.nx && v.na == w.na && v.nf == w.nf, "problem has {}/{}/{} variables and rows, that of a fresh model {}/{}/{}", v.nx, v.na, v.nf, w.nx, w.na, w.nf);
    let mut big: f64 = 1.;
    for x in v.b.iter().chain(v.a.iter().map(|t| &t.2)) { big = big.max(x.abs()); }
    for e in a.evals.iter() { for x in e.gphi.iter().chain(e.f.iter()).chain(e.j.iter().map(|t| &t.2)).chain(e.hphi.iter().map(|t| &t.2)) { if x.is_finite() { big = big.max(x.abs()); } } }
    for r in 0..v.na { ensure!(close(v.b[r], w.b[r], big), "right-hand side {} is {:?}, in a fresh model {:?}", r, v.b[r], w.b[r]); }
    let sig = |s: &Seen| -> Vec<Vec<f64>> {
        let v = &s.view;
        let da = dense(&v.a, v.na, v.nx);
        let djs: Vec<_> = s.evals.iter().map(|e| dense(&e.j, v.nf, v.nx)).collect();
        (0..v.nx).map(|i| {
            let mut x = vec![v.l[i], v.u[i], v.p[i] as u8 as f64, v.x0.as_ref().map_or(0., |x| x[i])];
            for e in s.evals.iter() { x.push(e.gphi[i]); }
            for r in 0..v.na { x.push(da[r][i]); }
            for d in djs.iter() { for r in 0..v.nf { x.push(d[r][i]); } }
            x
        }).collect()
    };
    for (e, f) in a.evals.iter().zip(b.evals.iter()) {
        ensure!(close(e.phi, f.phi, big), "objective is {:?}, in a fresh model {:?}", e.phi, f.phi);
        for r in 0..v.nf { ensure!(close(e.f[r], f.f[r], big), "constraint {} is {:?}, in a fresh model {:?}", r, e.f[r], f.f[r]); }
    }
    let (sa, sb) = (sig(a), sig(b));
    let mut taken = vec![false; v.nx];
    let mut perm = vec![0; v.nx];
    let mut unique = true;
    for i in 0..v.nx {
        let cand: Vec<usize> = (0..v.nx).filter(|j| sa[i].iter().zip(sb[*j].iter()).all(|(x, y)| close(*x, *y, big))).collect();
        if cand.len() > 1 { unique = false; }
        let j = match cand.iter().find(|j| !taken[**j]) { Some(j) => *j, None => return Err(format!("no variable of a fresh model's problem is like variable {} (limits, start, coefficients {:?})", i, sa[i])) };
        taken[j] = true;
        perm[i] = j;
    }
    if unique {
        for (e, f) in a.evals.iter().zip(b.evals.iter()) {
            let mut pairs = vec![(&e.hphi, &f.hphi)];
            for r in 0..v.nf { pairs.push((&e.h[r], &f.h[r])); }
            for (s, t) in pairs {
                let (x, y) = (dense(s, v.nx, v.nx), dense(t, v.nx, v.nx));
                for i in 0..v.nx { for j in 0..i + 1 {
                    let p = x[i][j] + if i != j { x[j][i] } else { 0. };
                    let (k, l) = (perm[i], perm[j]);
                    let q = y[k][l] + if k != l { y[l][k] } else { 0. };
                    ensure!(close(p, q, big), "second derivative {:?}, in a fresh model {:?}", p, q);
                } }
            }
        }
        ctx.label("Hessians compared");
    }
    Ok(())
}

pub struct C13;
const L13: Limits = Limits { size: 12, order: 0, raw: true };

impl Prop for C13 {
    const ID: &'static str = "C13";
    type Case = HistCase;
    fn rule() -> &'static str {
        "random histories of additions, objective and initial-value changes, solves (succeeding with any status or failing) and standardizations over a pool of random constraints and expressions; non-trivial: the history has at least two solves and a change between them"
    }
    fn assumptions() -> Vec<&'static str> { vec![
        "problems are compared up to the order of their variables, with a tolerance for the order of summation; constants are dyadic so that sums of coefficients are exact in any order",
    ] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 400000 } else { 6000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<HistCase> {
        let o = Opt { mix: Mix::General, len: 6, max_vars: 4, max_cons: 6, wide: false, unique: false, ints: true, bounds: 4 };
        let op = prop_oneof![
            4 => any::<u8>().prop_map(HOp::Add),
            2 => crate::dict::list(any::<u8>().boxed(), 0, 4, 120).prop_map(HOp::AddMany),
            2 => (0u8..3, any::<u8>()).prop_map(|(s, e)| HOp::Obj(s, e)),
            2 => crate::dict::list((any::<u8>(), (-8i32..8).prop_map(|x| x as f64 / 4.)).boxed(), 0, 4, 60).prop_map(HOp::Init),
            5 => (prop::bool::weighted(0.3), 0u8..4, 0.0f64..0.9).prop_map(|(err, status, seed)| HOp::Solve { err, status, seed }),
            1 => Just(HOp::Std),
            1 => Just(HOp::Print),
        ];
        (prop_oneof![model_case(o), model_case(Opt { mix: Mix::Linear, ..o })], prop::collection::vec(any::<u16>(), 1..4), crate::dict::list(op.boxed(), 1, 14, 60))
            .prop_map(|(mut pool, exprs, ops)| { dyadic(&mut pool); HistCase { pool, exprs, ops } }).boxed()
    }
    fn describe(c: &HistCase) -> Option<String> { c.pool.text(&L13).map(|t| format!("pool: {}; history: {:?}", t, c.ops)) }
    fn check(c: &HistCase, ctx: &mut Ctx) -> Res {
        let w = c.pool.resolve_with(&L13, &c.exprs)?;
        let mut m = Model::new();
        // Reference state
        let mut cons: Vec<Constraint> = Vec::new();
        let mut obj: (u8, Option<Node>) = (2, None);
        let mut init: HashMap<Node, f64> = HashMap::new();
        let mut last: Option<(SolverStatus, HashMap<Node, f64>, HashMap<Constraint, f64>)> = None;
        let (mut solves, mut changed, mut again) = (0, false, false);
        let build = |cons: &Vec<Constraint>, obj: &(u8, Option<Node>), init: &HashMap<Node, f64>| -> Model {
            let mut f = Model::new();
            for c in cons.iter() { f.add_constraint(c); }
            match obj { (0, Some(e)) => f.set_objective(Objective::minimize(e)), (1, Some(e)) => f.set_objective(Objective::maximize(e)), _ => () }
            f.set_init_primals(&init.iter().map(|(k, v)| (k, *v)).collect());
            f
        };
        for (step, o) in c.ops.iter().enumerate() {
            match o {
                HOp::Add(k) => if !w.constraints.is_empty() {
                    let x = &w.constraints[*k as usize % w.constraints.len()];
                    m.add_constraint(x);
                    cons.push(x.clone());
                    changed = true;
                },
                HOp::AddMany(ks) => if !w.constraints.is_empty() {
                    let xs: Vec<&Constraint> = ks.iter().map(|k| &w.constraints[*k as usize % w.constraints.len()]).collect();
                    m.add_constraints(&xs);
                    cons.extend(xs.into_iter().cloned());
                    changed = true;
                },
                HOp::Obj(s, e) => {
                    let e = &w.extra[*e as usize % w.extra.len()];
                    match s { 0 => m.set_objective(Objective::minimize(e)), 1 => m.set_objective(Objective::maximize(e)), _ => m.set_objective(Objective::empty()) }
                    obj = (*s, Some(e.clone()));
                    changed = true;
                }
                HOp::Init(vs) => {
                    let vals: HashMap<&Node, f64> = vs.iter().map(|(k, x)| {
                        let k = *k as usize % (w.vars.len() + 1);
                        (if k < w.vars.len() { &w.vars[k] } else { &w.stranger }, *x)
                    }).collect();
                    m.set_init_primals(&vals);
                    init = vals.iter().map(|(k, v)| ((*k).clone(), *v)).collect();
                    changed = true;
                }
                HOp::Solve { err, status: st, seed } => {
                    let seed = *seed + step as f64;
                    let s = Fake::new(*st, *err, seed, vec![0.5, 1.25]);
                    let r = guard("solve", || m.solve(&s))?;
                    ensure!(r.is_ok() == !*err, "solve returned {:?}, the solver {}", r.is_ok(), if *err { "an error" } else { "a result" });
                    let mut fresh = build(&cons, &obj, &init);
                    let fs = Fake::new(*st, false, seed, vec![0.5, 1.25]);
                    guard("solve", || fresh.solve(&fs))?.map_err(|e| format!("fresh model: {}", e))?;
                    ensure!(s.seen.borrow().len() == 1, "the solver was called {} times", s.seen.borrow().len());
                    same_problem(&s.seen.borrow()[0], &fs.seen.borrow()[0], ctx)?;
                    if *err {
                        ensure!(m.solver_status().is_none() && m.final_primals().is_empty() && m.final_duals().is_empty(),
                                "after a failed solve status is {:?}, with {} primals and {} duals", m.solver_status(), m.final_primals().len(), m.final_duals().len());
                        last = None;
                        ctx.label("failed solve");
                    } else {
                        let sol = &s.seen.borrow()[0].sol;
                        let (fp, fd) = (fresh.final_primals(), fresh.final_duals());
                        let (mp, md) = (m.final_primals(), m.final_duals());
                        for v in w.vars.iter() { ensure!(fp.contains_key(v) == mp.contains_key(v), "final value for {} {}, in a fresh model {}", v, mp.contains_key(v), fp.contains_key(v)); }
                        for k in cons.iter() { ensure!(fd.contains_key(k) == md.contains_key(k), "final dual for {} {}, in a fresh model {}", k, md.contains_key(k), fd.contains_key(k)); }
                        ensure!(mp.len() == fp.len() && md.len() == fd.len(), "{} primals and {} duals, in a fresh model {} and {}", mp.len(), md.len(), fp.len(), fd.len());
                        for (k, x) in mp.iter() { ensure!(sol.x.contains(x), "final value {:?} of {} is not from the last solve", x, k); }
                        for (k, x) in md.iter() { ensure!([&sol.lam, &sol.nu, &sol.mu, &sol.pi].iter().any(|s| s.contains(x)), "final dual {:?} of {} is not from the last solve", x, k); }
                        last = Some((status(*st), mp.iter().map(|(k, v)| ((*k).clone(), *v)).collect(), md.iter().map(|(k, v)| ((*k).clone(), *v)).collect()));
                        ctx.label("solve");
                    }
                    solves += 1;
                    if solves > 1 && changed { again = true; }
                    changed = false;
                }
                HOp::Std => { guard("std_problem", || { m.std_problem(); m.std_components(); })?; }
                HOp::Print => { guard("printing", || format!("{}", m))?; }
            }
            // Contents
            ensure!(m.constraints().len() == cons.len() && m.constraints().iter().zip(cons.iter()).all(|(a, b)| a == b), "after step {} the model's constraints are not those added", step);
            let same = match (m.objective(), &obj) {
                (Objective::Minimize(a), (0, Some(b))) | (Objective::Maximize(a), (1, Some(b))) => a == b,
                (Objective::Empty, (2, _)) => true,
                _ => false,
            };
            ensure!(same, "after step {} the model's objective is not the latest", step);
            let mi = m.init_primals();
            ensure!(mi.len() == init.len() && init.iter().all(|(k, v)| mi.get(k) == Some(v)), "after step {} the initial values are not the latest", step);
            // Results
            match &last {
                None => ensure!(m.solver_status().is_none() && m.final_primals().is_empty() && m.final_duals().is_empty(), "after step {} there are results without a solve", step),
                Some((s, p, d)) => {
                    ensure!(m.solver_status() == Some(s), "after step {} status is {:?}, that of the last solve was {:?}", step, m.solver_status(), s);
                    let (mp, md) = (m.final_primals(), m.final_duals());
                    ensure!(mp.len() == p.len() && p.iter().all(|(k, v)| mp.get(k) == Some(v)), "after step {} the final values changed without a solve", step);
                    ensure!(md.len() == d.len() && d.iter().all(|(k, v)| md.get(k) == Some(v)), "after step {} the final duals changed without a solve", step);
                }
            }
        }
        if again { ctx.nontrivial(); }
        Ok(())
    }
}
