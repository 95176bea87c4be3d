//! C31: ways of writing a linear model.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};

use numopt::model::constraint::Constraint;
use numopt::model::model::{Model, Objective};
use numopt::model::node::Node;
use numopt::model::node_cmp::NodeCmp;
use numopt::model::variable::VariableScalar;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::ipopt::SolverIpopt;

use crate::fw::{guard, Ctx, Prop, Res, Tier};
use crate::lpref::Opt;
use crate::p_e2e::{lin_case, real, solver_at_fault, Lin, LinCase, Spy, Which, TOL};
use crate::p_nlp::square;
use crate::shim;
use crate::stdp::dot;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RewCase { pub base: LinCase, pub ways: Vec<Vec<u8>> }

/// Choices, read one after the other; zero is the plain way
struct Pick<'a>(&'a [u8], Cell<usize>);
impl<'a> Pick<'a> {
    fn n(&self, n: usize) -> usize { let k = self.1.get(); self.1.set(k + 1); if self.0.is_empty() { 0 } else { (self.0[k % self.0.len()] as usize + k / self.0.len() * 7 * (self.0[k % self.0.len()] != 0) as usize) % n } }
    fn order(&self, n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); for i in 1..n { let j = self.n(i + 1); v.swap(i, i - j.min(i)); } v }
}

struct Written { m: Model, vars: Vec<Node>, cons: Vec<(Constraint, Vec<f64>, u8, f64)>, grad: Vec<f64> }

const NAMES: [&str; 16] = ["x", "x", "y", "_s_a0_", "_s_a1_", "c_0", "x_0", "x_1", "", "x 1", "inf", "2x", "<=", "free", "End", "\u{e9}"];

/// Writes the model min (or max, if `max`) c x + ck in one of many ways.
fn write(g: &Lin, ck: f64, max: bool, way: &[u8]) -> Written {
    let p = Pick(way, Cell::new(0));
    let int = g.int.iter().any(|x| *x);
    let n = g.n;
    let extra = !int && p.n(4) == 1 && n >= 2;
    let nn = n + extra as usize;
    let name = |i: usize| { let k = p.n(40); if k == 0 { format!("v{}", i) } else { NAMES[k % NAMES.len()].to_string() } };
    let mut vars: Vec<Option<Node>> = vec![None; nn];
    for i in p.order(nn) { vars[i] = Some(if i < n && g.int[i] { VariableScalar::new_integer(&name(i)) } else { VariableScalar::new_continuous(&name(i)) }); }
    let vars: Vec<Node> = vars.into_iter().map(|v| v.unwrap()).collect();
    // Linear forms: terms in any order, some in parts, the extra variable w = x_0 + x_1 in place of x_0
    let form = |t: &[(usize, f64)], k: f64| -> Node {
        let mut ts: Vec<(usize, f64)> = vec![];
        for (i, a) in t.iter() {
            match p.n(8) {
                1 => { ts.push((*i, a / 2.)); ts.push((*i, a / 2.)); }
                2 => { ts.push((*i, 3. * a)); ts.push((*i, -2. * a)); }
                _ => ts.push((*i, *a)),
            }
        }
        let o = p.order(ts.len());
        let f = if p.n(6) == 1 { 4. } else { 1. };
        let mut e: Option<Node> = None;
        for j in o {
            let (i, a) = (ts[j].0, ts[j].1 / f);
            let x = &vars[i];
            let term = |a: f64| -> Node { match p.n(4) { 1 => x * a, 2 if a != 0. && (1. / a).fract() == 0. => x / (1. / a), 3 => -(x * -a), _ => a * x } };
            e = Some(match e { None => term(a), Some(e) => match p.n(3) { 1 => e - term(-a), 2 => term(a) + e, _ => e + term(a) } });
        }
        let e = match e { Some(e) if f != 1. => if p.n(2) == 1 { f * e } else { e * f }, Some(e) => e, None => 0. * &vars[0] };
        if k != 0. { if p.n(2) == 1 { k + e } else { e + k } } else { e }
    };
    let sum = |t: &[(usize, f64)]| -> Vec<(usize, f64)> {
        if !extra || t.iter().any(|t| t.0 == n) || p.n(2) == 0 { return t.to_vec(); }
        t.iter().flat_map(|(i, a)| if *i == 0 { vec![(n, *a), (1, -a)] } else { vec![(*i, *a)] }).collect()
    };
    let dense = |t: &[(usize, f64)]| -> Vec<f64> { let mut v = vec![0.; nn]; for (i, a) in t.iter() { v[*i] += a; } v };
    let mut cons: Vec<(Constraint, Vec<f64>, u8, f64)> = vec![];
    let put = |cons: &mut Vec<(Constraint, Vec<f64>, u8, f64)>, t: &[(usize, f64)], kind: u8, b: f64| {
        let s = [1., -1., 2., 0.5, -4.][p.n(5)];
        let t: Vec<(usize, f64)> = t.iter().map(|(i, a)| (*i, a * s)).collect();
        let t = if t.iter().filter(|t| t.1 != 0.).count() > 1 { sum(&t) } else { t };
        let b = b * s;
        let kind = if s < 0. { [0, 2, 1][kind as usize] } else { kind };
        // Which terms go right, and how sides are arranged
        let cut = if p.n(3) == 1 { p.n(t.len().max(1)) } else { t.len() };
        let k = [0., 1., -2.5][p.n(3)];
        let right: Vec<(usize, f64)> = t[cut..].iter().map(|(i, a)| (*i, -a)).collect();
        let swap = p.n(3) == 1;
        let q = if right.is_empty() {
            let l = form(&t, k);
            let r = b + k;
            match (kind, swap) { (0, false) => l.equal(r), (1, false) => l.leq(r), (_, false) => l.geq(r), (0, _) => r.equal(&l), (1, _) => r.geq(&l), _ => r.leq(&l) }
        } else {
            let (l, r) = (form(&t[..cut], k), form(&right, b + k));
            match (kind, swap) { (0, false) => l.equal(&r), (1, false) => l.leq(&r), (_, false) => l.geq(&r), (0, _) => r.equal(&l), (1, _) => r.geq(&l), _ => r.leq(&l) }
        };
        // The dual of an equality is for the difference of its sides, left less right
        let (a, b) = if kind == 0 && swap { (dense(&t).iter().map(|a| -a).collect(), -b) } else { (dense(&t), b) };
        cons.push((q, a, kind, b));
    };
    for (t, kind, b) in g.rows.iter() {
        if *kind == 0 && p.n(6) == 1 { put(&mut cons, t, 1, *b); put(&mut cons, t, 2, *b); } else { put(&mut cons, t, *kind, *b); }
        if *kind != 0 && p.n(8) == 1 { put(&mut cons, t, *kind, if *kind == 1 { b + 3. } else { b - 3. }); }
    }
    for i in 0..n {
        for up in [false, true].iter() {
            let (b, k) = if *up { (g.u[i], 1) } else { (g.l[i], 2) };
            put(&mut cons, &[(i, 1.)], k, b);
            if p.n(8) == 1 { put(&mut cons, &[(i, 1.)], k, if *up { b + 1. } else { b - 1. }); }
        }
    }
    if extra { put(&mut cons, &[(n, 1.), (0, -1.), (1, -1.)], 0, 0.); }
    let o = p.order(cons.len());
    let cons: Vec<(Constraint, Vec<f64>, u8, f64)> = o.into_iter().map(|k| cons[k].clone()).collect();
    // The objective, in one sense or the other
    let t: Vec<(usize, f64)> = (0..n).filter(|i| g.c[*i] != 0.).map(|i| (i, g.c[i])).collect();
    let t = sum(&t);
    let grad = dense(&t);
    let flip = p.n(3) == 1;
    let t2: Vec<(usize, f64)> = t.iter().map(|(i, a)| (*i, if flip { -a } else { *a })).collect();
    let mut m = Model::new();
    if !t.is_empty() { let f = form(&t2, if flip { -ck } else { ck }); m.set_objective(if max != flip { Objective::maximize(&f) } else { Objective::minimize(&f) }); }
    if p.n(2) == 1 { let v: Vec<&Constraint> = cons.iter().map(|c| &c.0).collect(); let (a, b) = v.split_at(v.len() / 2); m.add_constraints(a); m.add_constraints(b); } else { for c in cons.iter() { m.add_constraint(&c.0); } }
    Written { m, vars, cons, grad }
}

/// 0 cbc, 1 clp, 2 ipopt
fn one(c: &RewCase, g: &Lin, want: &Opt, way: &[u8], k: usize, ctx: &mut Ctx) -> Res {
    let sense = if c.base.max { -1. } else { 1. };
    let int = g.int.iter().any(|x| *x);
    let which = if int || way.is_empty() { 0 } else { way[way.len() - 1] % 5 };
    let mut w = write(g, c.base.ck as f64, c.base.max, way);
    shim::forget();
    let inner: Box<dyn Solver> = if which < 4 { real(if which % 2 == 0 { Which::Cbc } else { Which::Clp }, c.base.log) } else {
        let mut s = SolverIpopt::new();
        s.set_param("print_level", SolverParam::IntParam(0)).unwrap();
        s.set_param("sb", SolverParam::StrParam("yes".into())).unwrap();
        Box::new(s)
    };
    let spy = Spy { inner, seen: RefCell::new(vec![]) };
    let name = ["cbc", "clp", "cbc", "clp", "ipopt"][which as usize];
    ctx.label(name);
    let done = guard("solve", || w.m.solve(&spy))?;
    if which == 4 {
        // Ipopt does not take more equations than variables, and only looks for a feasible point when there are as many
        if done.is_err() || w.m.solver_status() != Some(&SolverStatus::Solved) { ctx.label("ipopt does not solve it"); return Ok(()); }
        if spy.seen.borrow().first().map_or(true, |x| square(&x.0)) { ctx.label("square with ipopt"); return Ok(()); }
    }
    else { done.map_err(|e| format!("way {}: {} fails: {}", k, name, e))?; }
    let r = judge(c, g, want, &w, sense, int, if which < 4 { TOL } else { 1e-3 });
    if r.is_err() && which < 4 {
        if let Some((v, cc, _)) = spy.seen.borrow().first() {
            if solver_at_fault(if which % 2 == 0 { Which::Cbc } else { Which::Clp }, cc, &v.a, &v.b, &v.l, &v.u, &v.p, false) { ctx.label("the solver itself is wrong"); return Ok(()); }
        }
    }
    if std::env::var("NV_PRINT").is_ok() && r.is_err() { let k = shim::kept(); eprintln!("{}\n{}", k.0, k.1); }
    r.map_err(|m| format!("way {} with {}: {}\n{}", k, name, m, w.m))
}

fn judge(_c: &RewCase, g: &Lin, want: &Opt, w: &Written, sense: f64, int: bool, tol: f64) -> Res {
    let st = w.m.solver_status().map(|s| format!("{}", s)).ok_or("no status")?;
    let opt = match want {
        Opt::Infeasible => { ensure!(st == "infeasible", "status is {}, the problem is infeasible", st); return Ok(()); }
        Opt::Unbounded => { ensure!(st != "solved", "status is {}, the problem is unbounded", st); return Ok(()); }
        Opt::Value(v) => *v,
    };
    ensure!(st == "solved", "status is {}, the problem has optimum {:?}", st, sense * opt);
    let fp = w.m.final_primals();
    let mut x = vec![];
    for (i, v) in w.vars.iter().enumerate() { x.push(match fp.get(v) { Some(x) => *x, None => return Err(format!("no value for variable {}", i)) }); }
    let got = sense * dot(&g.c, &x[..g.n]);
    let size = 1. + opt.abs() + g.c.iter().zip(x.iter()).map(|(a, b)| (a * b).abs()).sum::<f64>();
    ensure!((got - opt).abs() <= 10. * tol * size, "the objective is {:?}, the optimum {:?}", sense * got, sense * opt);
    for i in 0..g.n { ensure!(!g.int[i] || (x[i] - x[i].round()).abs() <= 10. * tol, "integer variable {} is {:?}", i, x[i]); }
    let fd = w.m.final_duals();
    let scale = fd.values().fold(1f64, |m, d| m.max(d.abs()));
    let mut grad: Vec<f64> = w.grad.iter().map(|c| sense * c).collect();
    let mut big: Vec<f64> = grad.iter().map(|x| 1. + x.abs()).collect();
    for (q, a, kind, b) in w.cons.iter() {
        let v = dot(a, &x) - b;
        let t = tol * (1. + b.abs() + a.iter().zip(x.iter()).map(|(a, x)| (a * x).abs()).sum::<f64>());
        ensure!(match kind { 0 => v.abs() <= t, 1 => v <= t, _ => v >= -t }, "constraint {} is off by {:?}", q, v);
        if int { continue; }
        let limit = *kind != 0 && a.iter().filter(|a| **a != 0.).count() <= 1;
        let d = match fd.get(q) { Some(d) => *d, None if limit => 0., None => return Err(format!("no dual for {}", q)) };
        if *kind != 0 {
            ensure!(d >= -tol * scale, "the dual of {} is {:?}", q, d);
            ensure!(d <= tol * scale || v.abs() <= t || (d * v).abs() <= tol * scale * size, "the dual of {} is {:?}, which is off by {:?}", q, d, v);
        }
        let s = if *kind == 1 { -1. } else { 1. };
        for i in 0..x.len() { grad[i] -= s * d * a[i]; big[i] += (d * a[i]).abs(); }
    }
    if !int { for i in 0..x.len() { ensure!(grad[i].abs() <= tol * (big[i] + scale), "the duals leave {:?} of the objective's coefficient for variable {}", grad[i], i); } }
    Ok(())
}

pub struct C31;
impl Prop for C31 {
    const ID: &'static str = "C31";
    type Case = RewCase;
    fn rule() -> &'static str {
        "random linear and mixed-integer models, each written in three ways (order and names of variables, order, side and scale of terms and constraints, terms in parts, common factors, sense of the objective, equalities as pairs, implied constraints, a variable standing for a sum) and solved with different real solvers; results are compared with the exact optimum and with each other through it; non-trivial: at least two variables, rows, and an optimum that is not zero"
    }
    fn assumptions() -> Vec<&'static str> { vec!["Ipopt's results count only where it reports solved, and to 1e-3", "data are small fractions, so that solver tolerances do not decide"] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 7000 } else { 150_000 } }
    fn shrink_iters() -> u32 { 800 }
    fn strategy(_t: Tier) -> BoxedStrategy<RewCase> {
        let way = prop::collection::vec(any::<u8>(), 0..60);
        (prop_oneof![3 => lin_case(false), 1 => lin_case(true)], prop::collection::vec(way, 3)).prop_map(|(mut base, ways)| { base.model = true; RewCase { base, ways } }).boxed()
    }
    fn describe(c: &RewCase) -> Option<String> {
        let g = c.base.lin();
        Some(c.ways.iter().map(|w| format!("{}", write(&g, c.base.ck as f64, c.base.max, w).m)).collect::<Vec<_>>().join("\n"))
    }
    fn check(c: &RewCase, ctx: &mut Ctx) -> Res {
        let g = c.base.lin();
        let want = match g.reference(if c.base.max { -1. } else { 1. }) { Some(w) => w, None => { ctx.label("no reference"); return Ok(()); } };
        ctx.label(match want { Opt::Value(_) => "has an optimum", Opt::Infeasible => "infeasible", Opt::Unbounded => "unbounded" });
        shim::install("proxy");
        let mut r = Ok(());
        for (k, w) in c.ways.iter().enumerate() { r = one(c, &g, &want, w, k, ctx); if r.is_err() { break; } }
        for f in std::fs::read_dir(".").unwrap().filter_map(|e| e.ok()) { std::fs::remove_file(f.path()).ok(); }
        r?;
        if g.n >= 2 && !g.rows.is_empty() && matches!(want, Opt::Value(v) if v != 0.) { ctx.nontrivial(); }
        Ok(())
    }
}
