//! C29 data that does not fit together, C30 paths.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

use numopt::matrix::coo::CooMat;
use numopt::matrix::csr::CsrMat;
use numopt::model::constant::ConstantScalar;
use numopt::model::node::Node;
use numopt::model::node_base::NodeBase;
use numopt::model::node_diff::NodeDiff;
use numopt::model::node_func::NodeFunc;
use numopt::model::variable::VariableScalar;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;

use crate::fw::{guard, Ctx, Prop, Res, Tier};
use crate::p_expr::{describe, expr_case, labels, outs, ExprCase};
use crate::probgen::*;
use crate::stdp::view;
use crate::tape::{values, Limits};

// ---------------------------------------------------------------- C29

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Defect {
    None, C(i8), B(i8), L(i8), U(i8), P(i8), X0(i8), ACols(i8), ARows(i8), HphiRows(i8), HphiCols(i8), JCols(i8), JRows(i8), HCount(i8), HRows(u8, i8), HCols(u8, i8),
    /// Lengths of rows, columns and values of a coordinate matrix
    Coo(i8, i8, i8),
    /// The same for one made from positions only
    Pattern(i8, i8),
    /// Row pointers, columns, values, last row pointer
    Csr(i8, i8, i8, i8),
    /// Multipliers for the combined Hessian
    Comb(i8),
    /// Product with a vector
    Times(i8),
    /// Quotient by a constant: numerator, value, how it is made, how it is written
    Div(u8, f64, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FitCase { pub p: ProbCase, pub d: Defect }

fn off(n: usize, d: i8) -> usize { if d < 0 { n.saturating_sub(d.unsigned_abs() as usize) } else { n + d as usize } }
fn fit<T: Clone>(v: &[T], d: i8, fill: T) -> Vec<T> { let mut v = v.to_vec(); let n = off(v.len(), d); v.resize(n, fill); v }
fn pat(r: usize, c: usize, p: &[(usize, usize)]) -> CooMat<f64> { CooMat::from_pattern((r, c), p.iter().map(|t| t.0).collect(), p.iter().map(|t| t.1).collect()) }

/// Does the problem type have this part, and do the sizes differ?
fn applies(p: &ProbCase, d: &Defect) -> Option<bool> {
    let (nx, na, nf) = (p.nx, p.na(), p.nf());
    let ch = |n: usize, d: i8| Some(off(n, d) != n);
    match d {
        Defect::None => Some(false),
        Defect::C(d) => if p.nlp() { None } else { ch(nx, *d) },
        Defect::B(d) => ch(na, *d),
        Defect::L(d) | Defect::U(d) => ch(nx, *d),
        Defect::P(d) => if p.kind == MILP || p.kind == MINLP { ch(nx, *d) } else { None },
        Defect::X0(d) => if p.x0.is_some() { ch(nx, *d) } else { None },
        Defect::ACols(d) => ch(nx, *d),
        Defect::ARows(d) => ch(na, *d),
        Defect::HphiRows(d) | Defect::HphiCols(d) | Defect::JCols(d) => if p.nlp() { ch(nx, *d) } else { None },
        Defect::JRows(d) | Defect::HCount(d) => if p.nlp() { ch(nf, *d) } else { None },
        Defect::HRows(_, d) | Defect::HCols(_, d) => if p.nlp() && nf > 0 { ch(nx, *d) } else { None },
        _ => None,
    }
}

fn make(p: &ProbCase, d: &Defect) -> Problem {
    let (nx, na, nf) = (p.nx, p.na(), p.nf());
    let by = |x: bool, k: i8| if x { k } else { 0 };
    macro_rules! k { ($v:ident) => { match d { Defect::$v(k) => *k, _ => by(false, 0) } } }
    let (r, c, v): (Vec<usize>, Vec<usize>, Vec<f64>) = (p.a.iter().map(|t| t.0).collect(), p.a.iter().map(|t| t.1).collect(), p.a.iter().map(|t| t.2).collect());
    let a = CooMat::new((off(na, k!(ARows)), off(nx, k!(ACols))), r, c, v);
    let b = fit(&p.b, k!(B), 1.);
    let (l, u) = (fit(&p.l(), k!(L), -1.), fit(&p.u(), k!(U), 1.));
    let int = fit(&p.p, k!(P), false);
    let x0 = p.x0.as_ref().map(|x| fit(x, k!(X0), 0.));
    let cc = fit(&p.c, k!(C), 2.);
    let hphi = pat(off(nx, k!(HphiRows)), off(nx, k!(HphiCols)), &p.hphi);
    let j = pat(off(nf, k!(JRows)), off(nx, k!(JCols)), &p.j);
    let mut h: Vec<CooMat<f64>> = p.h.iter().enumerate().map(|(i, x)| {
        let (mut r, mut c) = (nx, nx);
        match d { Defect::HRows(k, q) if *k as usize % nf == i => r = off(nx, *q), Defect::HCols(k, q) if *k as usize % nf == i => c = off(nx, *q), _ => () }
        pat(r, c, x)
    }).collect();
    let n = off(nf, k!(HCount));
    h.resize(n, pat(nx, nx, &[]));
    let eval = Box::new(|_: &mut f64, _: &mut Vec<f64>, _: &mut CooMat<f64>, _: &mut Vec<f64>, _: &mut CooMat<f64>, _: &mut Vec<CooMat<f64>>, _: &[f64]| {});
    match p.kind {
        LP => Problem::Lp(ProblemLp::new(cc, a, b, l, u, x0)),
        MILP => Problem::Milp(ProblemMilp::new(cc, a, b, l, u, int, x0)),
        NLP => Problem::Nlp(ProblemNlp::new(hphi, a, b, j, h, l, u, x0, eval)),
        _ => Problem::Minlp(ProblemMinlp::new(hphi, a, b, j, h, l, u, int, x0, eval)),
    }
}

pub struct C29;
impl Prop for C29 {
    const ID: &'static str = "C29";
    type Case = FitCase;
    fn rule() -> &'static str {
        "random problems of all types and matrices, made from data that fits together or with the size of one part changed, and uses of them with vectors of right and wrong sizes; quotients by constants; non-trivial: the size of one part was wrong or the constant zero"
    }
    fn assumptions() -> Vec<&'static str> { vec!["a refusal is a panic (or an error) at creation or use; positions of matrix entries are not judged, only sizes"] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 400_000 } else { 8_000_000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<FitCase> {
        let k = || prop_oneof![4 => Just(-1i8), 4 => Just(1i8), 1 => -6i8..7];
        let q = || prop_oneof![2 => Just(0i8), 1 => -2i8..3];
        let d = prop_oneof![
            2 => Just(Defect::None), 2 => k().prop_map(Defect::C), 2 => k().prop_map(Defect::B), 2 => k().prop_map(Defect::L), 2 => k().prop_map(Defect::U), 2 => k().prop_map(Defect::P),
            2 => k().prop_map(Defect::X0), 1 => k().prop_map(Defect::ACols), 1 => k().prop_map(Defect::ARows), 1 => k().prop_map(Defect::HphiRows), 1 => k().prop_map(Defect::HphiCols),
            1 => k().prop_map(Defect::JCols), 1 => k().prop_map(Defect::JRows), 1 => k().prop_map(Defect::HCount), 1 => (any::<u8>(), k()).prop_map(|(a, b)| Defect::HRows(a, b)),
            1 => (any::<u8>(), k()).prop_map(|(a, b)| Defect::HCols(a, b)),
            1 => (q(), q(), q()).prop_map(|(a, b, c)| Defect::Coo(a, b, c)), 1 => (q(), q()).prop_map(|(a, b)| Defect::Pattern(a, b)),
            2 => (any::<u8>(), prop_oneof![3 => Just(0.), 1 => Just(-0.), 2 => (-8i8..9).prop_map(|x| x as f64 / 4.), 1 => prop::sample::select(vec![1., -1., 5e-324, -1e-300, 1e-9, 1e300])], any::<u8>(), any::<u8>()).prop_map(|(a, b, c, d)| Defect::Div(a, b, c, d)),
            1 => (q(), q(), q(), q()).prop_map(|(a, b, c, d)| Defect::Csr(a, b, c, d)), 1 => q().prop_map(Defect::Comb), 1 => q().prop_map(Defect::Times),
        ];
        (prob_case(vec![LP, MILP, NLP, MINLP]), d).prop_map(|(p, d)| FitCase { p, d }).boxed()
    }
    fn check(c: &FitCase, ctx: &mut Ctx) -> Res {
        let p = &c.p;
        let (nx, na, nf) = (p.nx, p.na(), p.nf());
        let verdict = |bad: bool, r: Result<(), String>, ctx: &mut Ctx, what: &str| -> Res {
            if bad { ctx.nontrivial(); ctx.label(&format!("refused: {}", what)); ensure!(r.is_err(), "{}: data that does not fit together is accepted", what); }
            else { ctx.label(&format!("accepted: {}", what)); ensure!(r.is_ok(), "{}: data that fits together is refused: {}", what, r.unwrap_err()); }
            Ok(())
        };
        let (r, k, v): (Vec<usize>, Vec<usize>, Vec<f64>) = (p.a.iter().map(|t| t.0).collect(), p.a.iter().map(|t| t.1).collect(), p.a.iter().map(|t| t.2).collect());
        match &c.d {
            Defect::Coo(x, y, z) => {
                let (r, k, v) = (fit(&r, *x, 0), fit(&k, *y, 0), fit(&v, *z, 1.));
                let bad = r.len() != k.len() || r.len() != v.len();
                let m = guard("making", || CooMat::new((na, nx), r.clone(), k.clone(), v.clone()));
                if let Ok(m) = &m { ensure!(m.rows() == na && m.cols() == nx && m.nnz() == r.len() && m.row_inds() == &r[..] && m.col_inds() == &k[..] && m.data() == &v[..], "the matrix differs from its data"); }
                verdict(bad, m.map(|_| ()), ctx, "coordinate matrix")
            }
            Defect::Pattern(x, y) => {
                let (r, k) = (fit(&r, *x, 0), fit(&k, *y, 0));
                let m = guard("making", || CooMat::<f64>::from_pattern((na, nx), r.clone(), k.clone()));
                if let Ok(m) = &m { ensure!(m.rows() == na && m.cols() == nx && m.nnz() == r.len() && m.row_inds() == &r[..] && m.col_inds() == &k[..] && m.data() == &vec![0.; r.len()][..], "the matrix differs from its data"); }
                verdict(r.len() != k.len(), m.map(|_| ()), ctx, "matrix from positions")
            }
            Defect::Csr(x, y, z, w) => {
                let m = p.a_mat().to_csr();
                let (mut ptr, ind, dat) = (fit(m.indptr(), *x, m.nnz()), fit(m.indices(), *y, 0), fit(m.data(), *z, 1.));
                if let Some(t) = ptr.last_mut() { *t = off(*t, *w); }
                let bad = ptr.len() != na + 1 || ind.len() != dat.len() || *ptr.last().unwrap_or(&0) != dat.len();
                // an empty list of row pointers is no case for a message
                if ptr.is_empty() { return Ok(()); }
                let m = guard("making", || CsrMat::new((na, nx), ptr.clone(), ind.clone(), dat.clone()));
                if let Ok(m) = &m { ensure!(m.rows() == na && m.cols() == nx && m.nnz() == ind.len() && m.indptr() == &ptr[..] && m.indices() == &ind[..] && m.data() == &dat[..], "the matrix differs from its data"); }
                verdict(bad, m.map(|_| ()), ctx, "compressed matrix")
            }
            Defect::Times(d) => {
                let m = p.a_mat();
                let x = vec![1.; off(nx, *d)];
                let y = guard("product", || &m * x.clone());
                if let Ok(y) = &y { ensure!(y.len() == na, "the product has {} entries instead of {}", y.len(), na); }
                verdict(x.len() != nx, y.map(|_| ()), ctx, "product with a vector")
            }
            Defect::Div(num, val, made, form) => {
                let x = VariableScalar::new_continuous("x");
                let v = *val;
                let den = guard("making", || match made % 4 { 0 => ConstantScalar::new(v), 1 => ConstantScalar::new(v) + 0., 2 => ConstantScalar::new(v) * ConstantScalar::new(1.), _ => if v == 0. { 0. * &x } else { -ConstantScalar::new(-v) } })?;
                let num = match num % 7 { 0 => x.clone(), 1 => &x + 1., 2 => x.sin() * 2., 3 => ConstantScalar::new(0.), 4 => ConstantScalar::new(3.), 5 => 1. / &x, _ => ConstantScalar::new(1.) };
                let y = guard("dividing", || match form % 7 {
                    0 => &num / v, 1 => num.clone() / v, 2 => &num / &den, 3 => &num / den.clone(), 4 => num.clone() / &den, 5 => num.clone() / den.clone(),
                    _ => if let Node::ConstantScalar(c) = &num { if made % 2 == 0 { c.value() / &den } else { c.value() / den.clone() } } else { &num / &den },
                });
                if let Ok(y) = &y { if v != 0. {
                    let at = 0.625;
                    let vals: HashMap<&Node, f64> = vec![(&x, at)].into_iter().collect();
                    let (got, want) = (y.evaluate(&vals), num.evaluate(&vals) / v);
                    ensure!(got == want || (got - want).abs() <= 1e-12 * want.abs(), "{} / {:?} evaluates to {:?}", num, v, got);
                } }
                verdict(v == 0., y.map(|_| ()), ctx, "quotient by a constant")
            }
            Defect::Comb(d) => {
                if !p.nlp() { return Ok(()); }
                let nu = vec![1.; off(nf, *d)];
                let mut q = p.build();
                let y = guard("combine_h", || match &mut q { Problem::Nlp(q) => q.combine_h(&nu), Problem::Minlp(q) => q.combine_h(&nu), _ => () });
                verdict(nu.len() != nf, y, ctx, "combined Hessian")
            }
            d => {
                let bad = match applies(p, d) { Some(b) => b, None => { ctx.label("part not there"); return Ok(()); } };
                let name = format!("{:?}", d);
                let what = format!("{} with {}", KINDS[p.kind as usize], name.split('(').next().unwrap());
                let m = guard("making", || make(p, d));
                if let Ok(m) = &m { if !bad {
                    let v = view(m);
                    ensure!(v.nx == nx && v.na == na && v.nf == nf && v.kind == KINDS[p.kind as usize], "the problem has {} variables and {} and {} rows, made for {}, {} and {}", v.nx, v.na, v.nf, nx, na, nf);
                    let s = ProblemSol::new(nx, na, nf);
                    ensure!(s.x == vec![0.; nx] && s.lam == vec![0.; na] && s.nu == vec![0.; nf] && s.pi == vec![0.; nx] && s.mu == vec![0.; nx], "a new solution is {:?}", s);
                } }
                verdict(bad, m.map(|_| ()), ctx, &what)
            }
        }
    }
}

// ---------------------------------------------------------------- C30

pub struct C30;
const L30: Limits = Limits { size: 30, order: 1, raw: true };
const MAX_PATHS: usize = 400;

/// All paths of arguments from a node to variables, with how often each occurs.
fn paths_of(n: &Node, path: &mut Vec<Node>, out: &mut Vec<Vec<Node>>) -> bool {
    if out.len() > MAX_PATHS { return false; }
    path.push(n.clone());
    let mut ok = true;
    match n {
        Node::VariableScalar(_) => out.push(path.clone()),
        _ => for a in n.arguments() { ok &= paths_of(a, path, out); if !ok { break; } },
    }
    path.pop();
    ok
}

fn count(v: &[Vec<Node>]) -> HashMap<&Vec<Node>, usize> { let mut m = HashMap::new(); for p in v.iter() { *m.entry(p).or_insert(0) += 1; } m }

impl Prop for C30 {
    const ID: &'static str = "C30";
    type Case = ExprCase;
    fn rule() -> &'static str {
        "random expression programs and sets of requested variables (with repeats, uninvolved ones, same names); the listed paths are compared with a recursive enumeration, and the chain rule over them with the true derivative; non-trivial: some variable has at least two paths, one of length three or more"
    }
    fn assumptions() -> Vec<&'static str> { vec!["expressions with more than 400 paths are left out"] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 300_000 } else { 6_000_000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<ExprCase> { expr_case(4, 16, true, false, 1, 90) }
    fn describe(c: &ExprCase) -> Option<String> { describe(c, &L30) }
    fn check(c: &ExprCase, ctx: &mut Ctx) -> Res {
        let p = c.tape.resolve(&c.points, &L30);
        let vars = p.make_vars();
        let outs = outs(&p, c.sel);
        let nodes = guard("building", || p.build(&vars, &outs))?;
        for slot in outs.iter() {
            let s = &p.slots[*slot];
            let node = &nodes[slot];
            labels(&p, *slot, ctx);
            let mut all: Vec<Vec<Node>> = vec![];
            if !paths_of(node, &mut vec![], &mut all) { ctx.label("too many paths"); continue; }
            // Partial derivatives are by the arguments: by anything else they are zero
            let args: Vec<&Node> = node.arguments();
            let deeper: Vec<&Node> = args.iter().flat_map(|a| a.arguments()).collect();
            for other in deeper.iter().cloned().chain(vars.iter()).chain(nodes.values()) {
                if args.iter().any(|a| *a == other) || other == node { continue; }
                let d = guard("partial", || node.partial(other))?;
                ensure!(d.is_constant_with_value(0.), "the partial derivative of {} by {}, which is not an argument of it, is {}", node, other, d);
                ctx.label("partial by what is no argument");
            }
            let alien = VariableScalar::new_continuous(p.vars.first().map_or("x", |v| v.name.as_str()));
            let mut req: Vec<&Node> = (0..p.n()).filter(|i| c.mask >> (i % 16) & 1 == 1).map(|i| &vars[i]).collect();
            if c.mask >> 8 & 1 == 1 { req.insert(0, &alien); }
            if c.mask >> 9 & 1 == 1 && !req.is_empty() { let r = req[0]; req.push(r); ctx.label("repeated request"); }
            let got = guard("all_simple_paths", || node.all_simple_paths(&req))?;
            let want: HashSet<&Node> = req.iter().cloned().collect();
            ensure!(got.len() == want.len() && want.iter().all(|v| got.contains_key(*v)), "paths for {} of {} requested variables", got.len(), want.len());
            for v in want.iter() {
                let w: Vec<Vec<Node>> = all.iter().filter(|q| q.last().unwrap() == *v).cloned().collect();
                let g = &got[*v];
                ensure!(count(g) == count(&w), "{} paths to {} are listed, there are {} (or they differ)", g.len(), v, w.len());
                if g.len() >= 2 && g.iter().any(|q| q.len() >= 3) { ctx.nontrivial(); }
                ctx.label_if(count(&w).values().any(|k| *k > 1), "a path occurs more than once");
                ctx.label_if(g.is_empty(), "no path");
                // The chain rule over them
                if let Some(i) = vars.iter().position(|x| x == *v) {
                    for (k, x) in c.points.iter().enumerate() {
                        if !p.ok_at(*slot, k) { continue; }
                        let vals = values(&vars, x);
                        let ev = s.val[k].g[i];
                        let (mut d, mut big) = (0., 0f64);
                        for q in g.iter() {
                            let mut m = 1.;
                            for w in q.windows(2) { m *= guard("partial", || w[0].partial(&w[1]))?.evaluate(&vals); }
                            if m == 0. { continue; }
                            d += m;
                            big = big.max(m.abs());
                        }
                        if !d.is_finite() || big > 1e9 { ctx.label("chain rule skipped"); continue; }
                        ensure!(ev.near(d) || (d - ev.v).abs() <= 1e-9 * big, "the chain rule over the paths to {}#{} gives {:?}, the derivative is {:?} +- {:e} at point {}", p.vars[i].name, i, d, ev.v, ev.tol(), k);
                        ctx.label("chain rule compared");
                    }
                }
            }
        }
        Ok(())
    }
}
