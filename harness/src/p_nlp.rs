//! C24: nonlinear and linear models and problems solved with the real Ipopt.

use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use simple_error::SimpleError;

use numopt::matrix::coo::CooMat;
use numopt::model::constraint::Constraint;
use numopt::model::model::{Model, Objective};
use numopt::model::node::Node;
use numopt::model::node_cmp::NodeCmp;
use numopt::model::node_func::NodeFunc;
use numopt::model::variable::VariableScalar;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::lp::ProblemLp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::ipopt::SolverIpopt;

use crate::fw::{guard, Ctx, Prop, Res, Tier};
use crate::p_e2e::{feasible, optimal};
use crate::stdp::{eval, view, Vals, View};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum T {
    /// a * x
    Lin(u8, i8),
    /// a * (sum of c x + k)^2
    Sq(u8, Vec<(u8, i8)>, i8),
    /// a * x^4
    Quart(u8, u8),
    /// a / x, for variables kept positive
    Inv(u8, u8),
    /// a * f(x), not convex; f: 0 sin, 1 cos, 2 x y, 3 x/(2+y^2)
    Odd(u8, i8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NCon {
    pub t: Vec<T>,
    /// 0 ==, 1 <=, 2 >=; convex functions are written so that the set is convex
    pub kind: u8,
    /// Distance to the inner point, in quarters (at least one)
    pub gap: u8,
    /// Written with a part on the right
    pub right: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NlpCase {
    /// 0 model, 1 problem (lp)
    pub how: u8,
    pub x: Vec<i8>,
    pub lim: Vec<(u8, u8)>,
    pub obj: Vec<T>,
    pub max: bool,
    pub cons: Vec<NCon>,
    pub init: Vec<Option<i8>>,
    pub forms: Vec<u8>,
}

/// A value and its gradient.
#[derive(Clone)]
struct G { v: f64, g: Vec<f64>, m: f64 }

struct P { n: usize, x: Vec<f64>, l: Vec<f64>, u: Vec<f64> }

impl P {
    fn term(&self, t: &T, x: &[f64]) -> G {
        let mut g = vec![0.; self.n];
        let id = |i: &u8| *i as usize % self.n;
        let v = match t {
            T::Lin(i, a) => { g[id(i)] = q(*a); q(*a) * x[id(i)] }
            T::Sq(a, c, k) => {
                let a = (1 + *a) as f64 / 4.;
                let s: f64 = c.iter().map(|(i, c)| q(*c) * x[id(i)]).sum::<f64>() + q(*k);
                for (i, c) in c.iter() { g[id(i)] += 2. * a * s * q(*c); }
                a * s * s
            }
            T::Quart(a, i) => { let a = (1 + *a) as f64 / 4.; let y = x[id(i)]; g[id(i)] = 4. * a * y * y * y; a * y * y * y * y }
            T::Inv(a, i) => { let a = (1 + *a) as f64 / 4.; let y = x[id(i)]; g[id(i)] = -a / (y * y); a / y }
            T::Odd(f, a, i, j) => {
                let (a, i, j) = (q(*a), id(i), id(j));
                match f {
                    0 => { g[i] = a * x[i].cos(); a * x[i].sin() }
                    1 => { g[i] = -a * x[i].sin(); a * x[i].cos() }
                    2 => { g[i] += a * x[j]; g[j] += a * x[i]; a * x[i] * x[j] }
                    _ => { let d = 2. + x[j] * x[j]; g[i] += a / d; g[j] -= a * x[i] * 2. * x[j] / (d * d); a * x[i] / d }
                }
            }
        };
        G { v, m: v.abs() + g.iter().map(|x| x.abs()).sum::<f64>(), g }
    }
    fn sum(&self, ts: &[T], x: &[f64]) -> G {
        let mut r = G { v: 0., g: vec![0.; self.n], m: 0. };
        for t in ts { let y = self.term(t, x); r.v += y.v; r.m += y.m; for i in 0..self.n { r.g[i] += y.g[i]; } }
        r
    }
    fn node(&self, t: &T, v: &[Node]) -> Node {
        let id = |i: &u8| *i as usize % self.n;
        match t {
            T::Lin(i, a) => q(*a) * &v[id(i)],
            T::Sq(a, c, k) => {
                let mut s: Option<Node> = None;
                for (i, c) in c.iter() { let y = &v[id(i)] * q(*c); s = Some(match s { Some(s) => s + y, None => y }); }
                let s = s.unwrap() + q(*k);
                ((1 + *a) as f64 / 4.) * (&s * &s)
            }
            T::Quart(a, i) => { let y = &v[id(i)] * &v[id(i)]; &y * &y * ((1 + *a) as f64 / 4.) }
            T::Inv(a, i) => ((1 + *a) as f64 / 4.) / &v[id(i)],
            T::Odd(f, a, i, j) => {
                let (a, x, y) = (q(*a), &v[id(i)], &v[id(j)]);
                match f { 0 => a * x.sin(), 1 => x.cos() * a, 2 => a * x * y, _ => a * x / (y * y + 2.) }
            }
        }
    }
}

fn q(a: i8) -> f64 { a as f64 / 4. }

fn linear(t: &T) -> bool { matches!(t, T::Lin(..)) }
fn convex(t: &T) -> bool { !matches!(t, T::Odd(..)) }

pub fn nlp_case() -> BoxedStrategy<NlpCase> {
    let coef = || prop_oneof![4 => prop::sample::select(vec![4i8, -4, 8, -8, 12]), 2 => (1i8..17), 1 => (-16i8..0)];
    // mostly small; some with indices of two digits
    (prop_oneof![19 => 1usize..=5, 1 => 6usize..=14], prop_oneof![3 => Just(false), 2 => Just(true)], prop_oneof![5 => Just(0u8), 1 => Just(1u8)]).prop_flat_map(move |(n, odd, how)| {
        let (terms, rows) = if n > 5 { (14, 14) } else { (4, 4) };
        let v = 0..n as u8;
        let odd = odd && how == 0;
        let lin = (v.clone(), coef()).prop_map(|(i, a)| T::Lin(i, a));
        let nonlin = prop_oneof![
            4 => (0u8..8, prop::collection::vec((v.clone(), coef()), 1..4), -12i8..13).prop_map(|(a, c, k)| T::Sq(a, c, k)),
            1 => (0u8..4, v.clone()).prop_map(|(a, i)| T::Quart(a, i)),
            1 => (0u8..4, v.clone()).prop_map(|(a, i)| T::Inv(a, i)),
            (if odd { 4 } else { 0 }) => (0u8..4, coef(), v.clone(), v.clone()).prop_map(|(f, a, i, j)| T::Odd(f, a, i, j)),
        ];
        let term = prop_oneof![3 => lin.clone(), (if how == 1 { 0 } else { 4 }) => nonlin.clone()];
        let con = prop_oneof![
            3 => (prop::collection::vec(lin.clone(), 1..4), 0u8..3),
            (if how == 1 { 0 } else { 3 }) => (prop::collection::vec(term.clone(), 1..4), 1u8..3),
            (if odd { 1 } else { 0 }) => (prop::collection::vec(term.clone(), 1..4), Just(0u8)),
        ];
        let con = (con, 0u8..16, any::<u8>()).prop_map(|((t, kind), gap, right)| NCon { t, kind, gap, right });
        (
            (Just(how), prop::collection::vec(-8i8..9, n), prop::collection::vec((prop_oneof![16 => 0u8..10, 2 => Just(255u8), 1 => Just(254u8)], prop_oneof![8 => 0u8..10, 1 => Just(255u8)]), n)),
            (prop::collection::vec(term, 0..=terms), any::<bool>(), prop::collection::vec(con, 0..=rows), prop::collection::vec(prop::option::weighted(0.3, -8i8..9), n), prop::collection::vec(any::<u8>(), 10)),
        )
    }).prop_map(|((how, x, lim), (obj, max, cons, init, forms))| NlpCase { how, x, lim, obj, max, cons, init, forms }).boxed()
}

impl NlpCase {
    fn inverses(&self) -> BTreeSet<usize> {
        let n = self.x.len();
        self.obj.iter().chain(self.cons.iter().flat_map(|c| c.t.iter())).filter_map(|t| if let T::Inv(_, i) = t { Some(*i as usize % n) } else { None }).collect()
    }

    fn p(&self) -> P {
        let n = self.x.len();
        let pos = self.inverses();
        let x: Vec<f64> = (0..n).map(|i| { let y = self.x[i] as f64 / 2.; if pos.contains(&i) { y.abs() + 1. } else { y } }).collect();
        let l = (0..n).map(|i| {
            if self.lim[i].0 == 254 { return x[i]; }
            if pos.contains(&i) { return (x[i] - (1 + self.lim[i].0.min(8)) as f64 / 2.).max(0.5); }
            match self.lim[i].0 { 255 => -1e8, d => x[i] - (1 + d) as f64 / 2. }
        }).collect();
        let u = (0..n).map(|i| match if self.lim[i].0 == 254 { 254 } else { self.lim[i].1 } { 254 => x[i], 255 => 1e8, d => x[i] + (1 + d) as f64 / 2. }).collect();
        P { n, x, l, u }
    }

    /// Constraint functions g (kind 0 g == 0, 1 g <= 0, 2 g >= 0) as terms, sign and constant.
    fn con(&self, p: &P, c: &NCon) -> (Vec<T>, f64, f64, u8) {
        let at = p.sum(&c.t, &p.x).v;
        let gap = (1 + c.gap) as f64 / 4.;
        let lin = c.t.iter().all(linear);
        // terms s * t + k
        match c.kind {
            0 => (c.t.clone(), 1., -at, 0),
            1 => (c.t.clone(), 1., -at - gap, 1),
            _ if lin => (c.t.clone(), 1., -at + gap, 2),
            _ => (c.t.clone(), -1., at + gap, 2),
        }
    }

    /// Convex with an interior point, and with a minimum at moderate values.
    fn easy(&self, p: &P) -> bool {
        if !self.obj.iter().all(convex) || !self.cons.iter().all(|c| c.t.iter().all(convex)) { return false; }
        if self.cons.iter().any(|c| c.kind == 0 && !c.t.iter().all(linear)) { return false; }
        if !(0..p.n).all(|i| p.l[i] > -1e8 && p.u[i] < 1e8 && p.l[i] < p.u[i]) { return false; }
        // equality rows independent
        let mut rows: Vec<Vec<f64>> = self.cons.iter().filter(|c| c.kind == 0).map(|c| p.sum(&c.t, &p.x).g).collect();
        let m = rows.len();
        let mut used = 0;
        for j in 0..p.n {
            if let Some(r) = (used..m).find(|r| rows[*r][j].abs() > 1e-9) {
                rows.swap(used, r);
                for r in used + 1..m { let f = rows[r][j] / rows[used][j]; for k in 0..p.n { rows[r][k] -= f * rows[used][k]; } }
                used += 1;
            }
        }
        used == m && m < p.n
    }
}

pub struct Spy { inner: SolverIpopt, seen: RefCell<Vec<(View, Option<Vals>, Option<(String, ProblemSol)>)>> }

impl Solver for Spy {
    fn get_params(&self) -> &HashMap<String, SolverParam> { self.inner.get_params() }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> { self.inner.get_params_mut() }
    fn solve(&self, p: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> {
        let v = view(p);
        let r = self.inner.solve(p);
        match r {
            Ok((st, s)) => {
                let e = eval(p, &s.x);
                let copy = ProblemSol { x: s.x.clone(), lam: s.lam.clone(), nu: s.nu.clone(), mu: s.mu.clone(), pi: s.pi.clone() };
                self.seen.borrow_mut().push((v, Some(e), Some((format!("{}", st), copy))));
                Ok((st, s))
            }
            Err(e) => { self.seen.borrow_mut().push((v, None, None)); Err(e) }
        }
    }
}

fn solver() -> SolverIpopt {
    // Ipopt reads this file where it runs: give up early when it gets nowhere
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| match std::env::var("NV_OPT") {
        Ok(p) => { std::fs::copy(p, "ipopt.opt").unwrap(); }
        Err(_) => std::fs::write("ipopt.opt", "max_iter 400\nmax_cpu_time 3\n").unwrap(),
    });
    let mut s = SolverIpopt::new();
    s.set_param("print_level", SolverParam::IntParam(std::env::var("NV_PRINT").ok().and_then(|s| s.parse().ok()).unwrap_or(0))).unwrap();
    s.set_param("sb", SolverParam::StrParam("yes".into())).unwrap();
    s
}

pub const TOL: f64 = 3e-4;

/// As many rows as variables that are not fixed
pub fn square(v: &View) -> bool { v.na + v.nf + (0..v.nx).filter(|i| v.l[*i] == v.u[*i]).count() >= v.nx }

fn problem_kkt(v: &View, e: &Vals, s: &ProblemSol) -> Res {
    feasible(&v.a, &v.b, &v.l, &v.u, &v.p, &s.x, TOL)?;
    for k in 0..v.nf {
        let big: f64 = 1. + e.j.iter().filter(|t| t.0 == k).map(|t| (t.2 * s.x[t.1]).abs()).sum::<f64>();
        ensure!(e.f[k].abs() <= TOL * big, "nonlinear constraint {} of the problem is {:?} at the solution", k, e.f[k]);
    }
    let mut a = v.a.clone();
    a.extend(e.j.iter().map(|t| (t.0 + v.na, t.1, t.2)));
    let mut lam = s.lam.clone();
    lam.extend(s.nu.iter());
    optimal(&e.gphi, &a, &lam, &v.l, &v.u, &s.x, &s.pi, &s.mu, TOL).map_err(|m| format!("problem: {}", m))
}

fn build(c: &NlpCase, p: &P) -> (Model, Vec<Node>, Vec<Constraint>, Vec<(Constraint, usize, bool, f64)>) {
    let f = |k: usize| c.forms[k % c.forms.len()];
    let vars: Vec<Node> = (0..p.n).map(|i| VariableScalar::new_continuous(&format!("v{}", i))).collect();
    let mut m = Model::new();
    let add = |ts: &[T], s: f64| -> Option<Node> {
        let mut e: Option<Node> = None;
        for t in ts {
            let y = p.node(t, &vars);
            let y = if s < 0. { -y } else { y };
            e = Some(match e { Some(e) => e + y, None => y });
        }
        e
    };
    if let Some(o) = add(&c.obj, if c.max { -1. } else { 1. }) { m.set_objective(if c.max { Objective::maximize(&o) } else { Objective::minimize(&o) }); }
    let mut lims = vec![];
    for i in 0..p.n {
        if p.l[i] > -1e8 { lims.push((match f(i) % 3 { 0 => vars[i].geq(p.l[i]), 1 => p.l[i].leq(&vars[i]), _ => (-2. * &vars[i]).leq(-2. * p.l[i]) }, i, false, if f(i) % 3 == 2 { 2. } else { 1. })); }
        if p.u[i] < 1e8 { lims.push((match f(i + 1) % 3 { 0 => vars[i].leq(p.u[i]), 1 => p.u[i].geq(&vars[i]), _ => (&vars[i] * 0.5 + 1.).leq(0.5 * p.u[i] + 1.) }, i, true, if f(i + 1) % 3 == 2 { 0.5 } else { 1. })); }
    }
    let mut rows = vec![];
    for con in c.cons.iter() {
        let (ts, s, k, kind) = c.con(p, con);
        // some terms move to the right
        let cut = if con.right % 3 == 0 { ts.len() - 1 } else { ts.len() };
        let left = add(&ts[..cut], s);
        let right = add(&ts[cut..], -s);
        let q = match (left, right) {
            (Some(l), None) => match kind { 0 => l.equal(-k), 1 => (l + k).leq(0.), _ => l.geq(-k) },
            (Some(l), Some(r)) => match kind { 0 => (l + k).equal(&r), 1 => l.leq(r - k), _ => l.geq(&(r - k)) },
            (None, Some(r)) => match kind { 0 => k.equal(&r), 1 => k.leq(&r), _ => k.geq(&r) },
            (None, None) => unreachable!(),
        };
        rows.push(q);
    }
    let order = f(3) % 2 == 0;
    if order { for q in rows.iter() { m.add_constraint(q); } }
    for (q, ..) in lims.iter() { m.add_constraint(q); }
    if !order { for q in rows.iter() { m.add_constraint(q); } }
    // Ipopt scales by the gradient at the starting point
    let pos = c.inverses();
    let init: HashMap<&Node, f64> = (0..p.n).filter_map(|i| match c.init[i] {
        Some(x) if pos.contains(&i) => Some((&vars[i], x.abs() as f64 / 2. + 1.)),
        None if pos.contains(&i) => Some((&vars[i], 1.)),
        x => x.map(|x| (&vars[i], x as f64 / 2.)),
    }).collect();
    if !init.is_empty() { m.set_init_primals(&init); }
    (m, vars, rows, lims)
}

fn direct(c: &NlpCase, p: &P, ctx: &mut Ctx) -> Res {
    // linear rows with slack limits
    let rows: Vec<&NCon> = c.cons.iter().collect();
    let nx = p.n + rows.len();
    let sense = if c.max { -1. } else { 1. };
    let mut cc: Vec<f64> = p.sum(&c.obj, &p.x).g.iter().map(|x| sense * x).collect();
    cc.resize(nx, 0.);
    let (mut l, mut u) = (p.l.clone(), p.u.clone());
    let mut a = vec![];
    let mut b = vec![];
    for (r, con) in rows.iter().enumerate() {
        for t in con.t.iter() { if let T::Lin(i, y) = t { a.push((r, *i as usize % p.n, q(*y))); } }
        a.push((r, p.n + r, -1.));
        let at = p.sum(&con.t, &p.x).v;
        let gap = (1 + con.gap) as f64 / 4.;
        b.push(at);
        let _ = match con.kind { 0 => { l.push(-gap); u.push(gap); } 1 => { l.push(-1e8); u.push(gap); } _ => { l.push(-gap); u.push(1e8); } };
    }
    let mat = CooMat::new((rows.len(), nx), a.iter().map(|t| t.0).collect(), a.iter().map(|t| t.1).collect(), a.iter().map(|t| t.2).collect());
    let x0 = if c.init.iter().any(|x| x.is_some()) { let mut v: Vec<f64> = c.init.iter().map(|x| x.unwrap_or(1) as f64 / 2.).collect(); v.resize(nx, 0.); Some(v) } else { None };
    let bounded = (0..p.n).all(|i| p.l[i] > -1e8 && p.u[i] < 1e8 && p.l[i] < p.u[i]);
    ctx.label_if((0..p.n).any(|i| p.l[i] == p.u[i]), "fixed variable");
    let mut prob = Problem::Lp(ProblemLp::new(cc.clone(), mat, b.clone(), l.clone(), u.clone(), x0));
    ctx.label("problem (lp)");
    let v = view(&prob);
    let (st, s) = guard("solve", || solver().solve(&mut prob))?.map_err(|e| format!("solve fails: {}", e))?;
    ensure!(!bounded || st == SolverStatus::Solved, "a bounded linear problem with an interior point is reported as {}", st);
    if st != SolverStatus::Solved { ctx.label("not solved"); return Ok(()); }
    if square(&v) { ctx.label("square"); return feasible(&v.a, &v.b, &v.l, &v.u, &v.p, &s.x, TOL); }
    let e = Vals { phi: 0., gphi: cc, hphi: vec![], f: vec![], j: vec![], h: vec![] };
    if s.x.iter().any(|x| x.abs() > 2e3) { ctx.label("ends far out"); return Ok(()); }
    problem_kkt(&v, &e, &s)?;
    if s.lam.iter().any(|x| x.abs() > 1e-3) && p.n >= 2 { ctx.nontrivial(); }
    Ok(())
}

pub struct C24;
impl Prop for C24 {
    const ID: &'static str = "C24";
    type Case = NlpCase;
    fn rule() -> &'static str {
        "random smooth models (up to 5 variables and 4 constraints besides limits, one in twenty up to 14 variables and rows; squares, fourth powers, quotients, products, sines; linear and nonlinear equalities and inequalities; two thirds convex) and linear problems solved with the real Ipopt, with the optimality conditions computed from separately coded functions and gradients; non-trivial: solved, at least two variables, and a constraint other than a limit with a nonzero multiplier"
    }
    fn assumptions() -> Vec<&'static str> { vec![
        "solved is demanded only of convex problems whose variables all have finite limits, with an interior point and independent equality rows", "if Ipopt fails on such a problem it is started again from points near the interior point, and must fail there as well to count", "conditions are checked to 3e-4 relative",
    ] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 24000 } else { 500000 } }
    fn shrink_iters() -> u32 { 800 }
    fn strategy(_t: Tier) -> BoxedStrategy<NlpCase> { nlp_case() }
    fn describe(c: &NlpCase) -> Option<String> {
        let p = c.p();
        if c.how == 1 { return Some(format!("linear problem {:?}", c)); }
        let (m, ..) = build(c, &p);
        Some(format!("{}", m))
    }
    fn check(c: &NlpCase, ctx: &mut Ctx) -> Res {
        let p = c.p();
        if c.how == 1 { return direct(c, &p, ctx); }
        let easy = c.easy(&p);
        let (mut m, vars, rows, lims) = build(c, &p);
        let spy = Spy { inner: solver(), seen: RefCell::new(vec![]) };
        let r = guard("solve", || m.solve(&spy))?;
        let seen = spy.seen.borrow();
        // Ipopt does not take problems without variables
        if r.is_err() && seen.len() == 1 && seen[0].0.nx == 0 { ctx.label("no variables"); return Ok(()); }
        ensure!(r.is_ok(), "solve fails: {}", r.err().unwrap());
        ensure!(seen.len() == 1, "the solver was asked {} times", seen.len());
        let (v, e, sol) = &seen[0];
        let (st, s) = sol.as_ref().unwrap();
        ctx.label(&format!("{} model: {}{}", v.kind, if easy { "convex, " } else { "" }, st));
        let reported = format!("{}", m.solver_status().ok_or("no status")?);
        ensure!(&reported == st, "the model's status is {}, the solver's {}", reported, st);
        if easy && st != "solved" && std::env::var("NV_LAX").is_err() {
            // Ipopt itself fails now and then: it must fail from other points as well
            for k in 0..4 {
                let (mut m, vars, ..) = build(c, &p);
                let init: HashMap<&Node, f64> = (0..p.n).map(|i| (&vars[i], p.x[i] + [0., 0.11, -0.07, 0.19][k])).collect();
                m.set_init_primals(&init);
                let other = solver();
                guard("solve", || m.solve(&other))?.map_err(|e| format!("solve fails: {}", e))?;
                if m.solver_status() == Some(&SolverStatus::Solved) { ctx.label("solved from another point only"); return Ok(()); }
            }
            return Err(format!("a convex problem with an interior point is reported as {}", st));
        }
        if st != "solved" { return Ok(()); }
        ctx.label_if((0..p.n).any(|i| p.l[i] == p.u[i]), "fixed variable");
        // Ipopt only looks for a feasible point of square problems
        if square(v) { ctx.label("square"); return feasible(&v.a, &v.b, &v.l, &v.u, &v.p, &s.x, TOL); }
        if s.x.iter().any(|x| x.abs() > 2e3) { ctx.label("ends far out"); return Ok(()); }
        problem_kkt(v, e.as_ref().unwrap(), s)?;
        // In terms of the model
        let fp = m.final_primals();
        let mut x = vec![0.; p.n];
        for i in 0..p.n {
            let named = m.constraints().iter().any(|_| true);
            x[i] = match fp.get(&vars[i]) { Some(x) => *x, None if !named || !used(c, &p, i) => p.x[i], None => return Err(format!("no value for variable {}", i)) };
        }
        let sense = 1.; // terms are written negated when maximizing, so the standard objective is theirs
        let o = p.sum(&c.obj, &x);
        let mut grad: Vec<f64> = o.g.iter().map(|g| sense * g).collect();
        let mut big: Vec<f64> = grad.iter().map(|g| 1. + g.abs()).collect();
        let fd = m.final_duals();
        let scale = 1. + fd.values().fold(0f64, |m, d| m.max(d.abs()));
        let mut active = false;
        for (r, con) in c.cons.iter().enumerate() {
            let (ts, sg, k, kind) = c.con(&p, con);
            let g = p.sum(&ts, &x);
            let val = sg * g.v + k;
            let tol = TOL * (1. + g.m + k.abs());
            ensure!(match kind { 0 => val.abs() <= tol, 1 => val <= tol, _ => val >= -tol }, "constraint {} is violated by {:?}", rows[r], val);
            let single = kind != 0 && ts.iter().all(linear);
            let d = match fd.get(&rows[r]) { Some(d) => *d, None if single && g.g.iter().filter(|x| **x != 0.).count() <= 1 => 0., None => return Err(format!("no dual for {}", rows[r])) };
            if kind != 0 {
                ensure!(d >= -TOL * scale, "dual of {} is {:?}", rows[r], d);
                ensure!(d.abs() <= TOL * scale || val.abs() <= tol || (d * val).abs() <= TOL * scale, "dual of {} is {:?}, which is not tight ({:?})", rows[r], d, val);
            }
            active |= d.abs() > 1e-3;
            let t = if kind == 1 { -1. } else { 1. } * sg * d;
            for i in 0..p.n { grad[i] -= t * g.g[i]; big[i] += (t * g.g[i]).abs(); }
        }
        for (q, i, up, fac) in lims.iter() {
            let d = *fd.get(q).unwrap_or(&0.);
            let lim = if *up { p.u[*i] } else { p.l[*i] };
            let t = TOL * (1. + x[*i].abs());
            ensure!(if *up { x[*i] <= lim + t } else { x[*i] >= lim - t }, "limit {} is violated at {:?}", q, x[*i]);
            ensure!(d >= -TOL * scale, "dual of {} is {:?}", q, d);
            ensure!(d.abs() <= TOL * scale || (x[*i] - lim).abs() <= t || (d * (x[*i] - lim)).abs() <= TOL * scale, "dual of {} is {:?}, which is not tight at {:?}", q, d, x[*i]);
            let d = d * fac;
            grad[*i] -= if *up { -d } else { d };
            big[*i] += d.abs();
        }
        for i in 0..p.n {
            ensure!(grad[i].abs() <= TOL * (big[i] + scale * 0.01), "stationarity of the model at variable {} is off by {:?}", i, grad[i]);
        }
        ctx.label_if(active, "nonzero dual of a constraint");
        ctx.label_if(v.nf > 0, "nonlinear rows");
        if active && p.n >= 2 { ctx.nontrivial(); }
        Ok(())
    }
}

/// Is the variable in any limit, row or term?
fn used(c: &NlpCase, p: &P, i: usize) -> bool {
    let y: Vec<f64> = p.x.iter().enumerate().map(|(k, x)| x + 0.37 + 0.11 * k as f64).collect();
    p.l[i] > -1e8 || p.u[i] < 1e8 || p.sum(&c.obj, &y).g[i] != 0. || c.cons.iter().any(|q| q.t.iter().any(|t| p.term(t, &y).g[i] != 0.))
}
