//! C14 evaluation and views, C15 matrices, C16 LP files.

use std::collections::BTreeMap;

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use numopt::matrix::coo::CooMat;
use numopt::problem::base::Problem;
use numopt::problem::milp::ProblemMilpIO;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;

use crate::fw::{guard, Ctx, Prop, Res, Tier};
use crate::modelgen::{model_case, ModelCase, Opt};
use crate::probgen::*;
use crate::stdp::{self, trip, view, Trip, Vals};
use crate::tape::{Limits, Mix};
use numopt::model::model_std::ModelStd;

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum EOp { Eval(u8), Comb(Vec<f64>), View }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Source { Hand(ProbCase), Model(ModelCase) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EvalCase { pub src: Source, pub pts: Vec<Vec<f64>>, pub ops: Vec<EOp>, pub entry: u8, #[serde(default)] pub near: u8 }

fn bits(x: f64) -> u64 { if x.is_nan() { u64::MAX } else if x == 0. { 0 } else { x.to_bits() } }
fn same(a: f64, b: f64) -> bool { bits(a) == bits(b) }
fn same_v(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y)) }
fn same_t(a: &Trip, b: &Trip) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && same(x.2, y.2)) }

fn vals_of(p: &ProblemMinlp) -> Vals {
    Vals { phi: p.phi(), gphi: p.gphi().to_vec(), hphi: trip(p.hphi()), f: p.f().to_vec(), j: trip(p.j()), h: p.h().iter().map(trip).collect() }
}

/// The objective exactly, or but for rounding in adding up terms of this size
fn diff(a: &Vals, b: &Vals, exact_phi: bool, size: f64) -> Option<String> {
    let phi = if exact_phi { same(a.phi, b.phi) } else { a.phi == b.phi || (a.phi.is_nan() && b.phi.is_nan()) || (a.phi - b.phi).abs() <= 1e-13 * size };
    if !phi { return Some(format!("objective is {:?} instead of {:?}", a.phi, b.phi)); }
    if !same_v(&a.gphi, &b.gphi) { return Some(format!("objective gradient is {:?} instead of {:?}", a.gphi, b.gphi)); }
    if !same_t(&a.hphi, &b.hphi) { return Some(format!("objective Hessian is {:?} instead of {:?}", a.hphi, b.hphi)); }
    if !same_v(&a.f, &b.f) { return Some(format!("constraint values are {:?} instead of {:?}", a.f, b.f)); }
    if !same_t(&a.j, &b.j) { return Some(format!("constraint Jacobian is {:?} instead of {:?}", a.j, b.j)); }
    if a.h.len() != b.h.len() { return Some(format!("{} constraint Hessians instead of {}", a.h.len(), b.h.len())); }
    for (k, (x, y)) in a.h.iter().zip(b.h.iter()).enumerate() { if !same_t(x, y) { return Some(format!("Hessian of constraint {} is {:?} instead of {:?}", k, x, y)); } }
    None
}

/// The problem as its most general type.
fn minlp<'a>(p: &'a mut Problem, via: u8) -> &'a mut ProblemMinlp {
    match p {
        Problem::Lp(x) => match via % 3 { 0 => x.as_mut_minlp(), 1 => x.as_mut_milp().as_mut_minlp(), _ => x.as_mut_nlp().as_mut_minlp() },
        Problem::Milp(x) => x.as_mut_minlp(),
        Problem::Nlp(x) => x.as_mut_minlp(),
        Problem::Minlp(x) => x,
    }
}

/// The problem as a nonlinear one, where it can be one and the general type is reached through it.
fn nlp<'a>(p: &'a mut Problem, via: u8) -> Option<&'a mut ProblemNlp> {
    match p {
        Problem::Lp(x) if via % 3 == 2 => Some(x.as_mut_nlp()),
        Problem::Nlp(x) => Some(x),
        _ => None,
    }
}

type Data = (usize, usize, usize, Vec<f64>, Vec<f64>, Vec<bool>, Option<Vec<f64>>, Trip, Vec<f64>);

macro_rules! data { ($x:expr, $nf:expr, $p:expr) => { ($x.nx(), $x.na(), $nf, $x.l().to_vec(), $x.u().to_vec(), $p, $x.x0().map(|v| v.to_vec()), trip($x.a()), $x.b().to_vec()) }; }

/// Data of every view.
fn views(p: &mut Problem) -> Vec<(&'static str, Data, Option<Vec<f64>>)> {
    let mut out: Vec<(&'static str, Data, Option<Vec<f64>>)> = vec![];
    match p {
        Problem::Lp(x) => {
            let no = vec![false; x.nx()];
            out.push(("lp", data!(x, 0, no.clone()), Some(x.c().to_vec())));
            let q = x.as_mut_nlp();
            out.push(("lp as nlp", data!(q, q.nf(), no.clone()), None));
            let q = x.as_mut_nlp().as_mut_minlp();
            out.push(("lp as nlp as minlp", data!(q, q.nf(), q.p().to_vec()), None));
            let q = x.as_mut_milp();
            out.push(("lp as milp", data!(q, 0, q.p().to_vec()), Some(q.c().to_vec())));
            let q = q.as_mut_minlp();
            out.push(("lp as milp as minlp", data!(q, q.nf(), q.p().to_vec()), None));
            let q = x.as_mut_minlp();
            out.push(("lp as minlp", data!(q, q.nf(), q.p().to_vec()), None));
        }
        Problem::Milp(x) => {
            out.push(("milp", data!(x, 0, x.p().to_vec()), Some(x.c().to_vec())));
            let q = x.as_mut_minlp();
            out.push(("milp as minlp", data!(q, q.nf(), q.p().to_vec()), None));
        }
        Problem::Nlp(x) => {
            out.push(("nlp", data!(x, x.nf(), vec![false; x.nx()]), None));
            let q = x.as_mut_minlp();
            out.push(("nlp as minlp", data!(q, q.nf(), q.p().to_vec()), None));
        }
        Problem::Minlp(x) => out.push(("minlp", data!(x, x.nf(), x.p().to_vec()), None)),
    }
    out
}

pub struct C14;
const L14: Limits = Limits { size: 14, order: 0, raw: true };

impl Prop for C14 {
    const ID: &'static str = "C14";
    type Case = EvalCase;
    fn rule() -> &'static str {
        "problems of all four types, made by hand with known functions or as standard problems of random models, evaluated and combined in random orders through all views; non-trivial: a point is evaluated again after another one and the problem has nonlinear constraints"
    }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 500000 } else { 8000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<EvalCase> {
        let o = Opt { mix: Mix::General, len: 8, max_vars: 4, max_cons: 4, wide: false, unique: false, ints: true, bounds: 2 };
        let src = prop_oneof![3 => prob_case(vec![LP, MILP, NLP, NLP, MINLP, MINLP]).prop_map(Source::Hand), 1 => model_case(o).prop_map(Source::Model)];
        let op = prop_oneof![5 => (0u8..3).prop_map(EOp::Eval), 3 => prop::collection::vec(prop_oneof![(-3i32..4).prop_map(|x| x as f64), -2.0f64..2.0], 24).prop_map(EOp::Comb), 1 => Just(EOp::View)];
        (src, prop::collection::vec(prop::collection::vec(prop_oneof![(-4i32..5).prop_map(|x| x as f64), -2.0f64..2.0, Just(0.)], 30), 3), crate::dict::list(op.boxed(), 2, 9, 60), any::<u8>(), 0u8..16)
            .prop_map(|(src, pts, ops, entry, near)| EvalCase { src, pts, ops, entry, near }).boxed()
    }
    fn check(c: &EvalCase, ctx: &mut Ctx) -> Res {
        let mut p = match &c.src {
            Source::Hand(h) => h.build(),
            Source::Model(m) => {
                let w = m.resolve(&L14)?;
                let model = w.model();
                guard("std_problem", || model.std_problem())?.prob
            }
        };
        let v = view(&p);
        ctx.label(&format!("{} {}", if matches!(c.src, Source::Hand(_)) { "hand-made" } else { "model's" }, v.kind));
        if v.nx == 0 { ctx.label("no variables"); return Ok(()); }
        let mut pts: Vec<Vec<f64>> = c.pts.iter().map(|x| (0..v.nx).map(|i| x[i % x.len()]).collect()).collect();
        // Points that are almost the same
        let q = pts[0].clone();
        match c.near {
            1 => pts[1] = q.iter().map(|x| x + 1e-10).collect(),
            2 => { pts[1] = q.clone(); pts[1][v.nx - 1] += 1e-12; }
            3 => { pts[1] = q.clone(); pts[1][0] += 0.5; }
            4 => { pts[1] = q.clone(); pts[1][v.nx - 1] -= 0.5; }
            5 => { pts[1] = q.clone(); pts[1].rotate_left(1); }
            6 => pts[1] = q.iter().map(|x| -x).collect(),
            7 => pts[1] = q.iter().map(|x| x * (1. + 1e-7)).collect(),
            _ => (),
        }
        if c.near > 0 && c.near < 8 { ctx.label("related points"); }
        let check_views = |p: &mut Problem| -> Res {
            let all = views(p);
            for (name, d, _) in all.iter() {
                ensure!(d == &all[0].1, "seen as {} the problem is {:?}, not {:?}", name, d, all[0].1);
            }
            for (name, _, g) in all.iter() { if g.is_some() { ensure!(g == &all[0].2, "seen as {} the objective is {:?}, not {:?}", name, g, all[0].2); } }
            Ok(())
        };
        check_views(&mut p)?;
        if let Source::Hand(h) = &c.src {
            let d = &views(&mut p)[0].1;
            let want: Data = (h.nx, h.na(), h.nf(), h.l(), h.u(), h.p.clone(), h.x0.clone(), h.a.clone(), h.b.clone());
            ensure!(d == &want, "the problem is {:?}, made from {:?}", d, want);
        }
        let shape0 = (v.nx, v.na, v.nf);
        let lin = matches!(v.kind, "lp" | "milp");
        let cvec: Vec<f64> = match &p { Problem::Lp(x) => x.c().to_vec(), Problem::Milp(x) => x.c().to_vec(), _ => vec![] };
        let mut first: Vec<Option<Vals>> = vec![None; pts.len()];
        let mut order: Vec<u8> = vec![];
        let mut cur: Option<usize> = None;
        let pattern0: Vec<(usize, usize)> = trip(minlp(&mut p, c.entry).hcomb()).iter().map(|t| (t.0, t.1)).collect();
        // some points come in one place, changed from one evaluation to the next
        let mut place: Vec<f64> = vec![0.; v.nx];
        let again: Vec<EOp> = vec![EOp::Eval(2), EOp::Eval(1), EOp::Eval(0)];
        for (step, op) in c.ops.iter().chain(again.iter()).enumerate() {
            match op {
                EOp::Eval(k) => {
                    let k = *k as usize % pts.len();
                    if step >= c.ops.len() && first[k].is_none() { continue; }
                    // through the type itself, or as a general one
                    let direct = (c.entry as usize / 3 + step) % 2 == 0;
                    let x: &[f64] = if (c.entry as usize / 6 + step / 3) % 2 == 0 { place.copy_from_slice(&pts[k]); &place } else { &pts[k] };
                    match nlp(&mut p, c.entry) {
                        Some(q) if direct => { guard("evaluate", || q.evaluate(x))?; ctx.label("evaluated as nlp"); }
                        _ => { let q = minlp(&mut p, c.entry); guard("evaluate", || q.evaluate(x))?; }
                    }
                    if let Some(q) = nlp(&mut p, c.entry) {
                        let a = Vals { phi: q.phi(), gphi: q.gphi().to_vec(), hphi: trip(q.hphi()), f: q.f().to_vec(), j: trip(q.j()), h: q.h().iter().map(trip).collect() };
                        let b = vals_of(q.as_mut_minlp());
                        if let Some(m) = diff(&a, &b, true, 0.) { return Err(format!("step {}, as nlp rather than minlp: {}", step, m)); }
                    }
                    let q = minlp(&mut p, c.entry);
                    let got = vals_of(q);
                    let want = match &c.src {
                        Source::Hand(h) => Some(h.vals(&pts[k])),
                        _ if lin => Some(Vals { phi: stdp::dot(&cvec, &pts[k]), gphi: cvec.clone(), hphi: vec![], f: vec![], j: vec![], h: vec![] }),
                        _ => first[k].clone(),
                    };
                    if let Some(w) = want {
                        if let Some(m) = diff(&got, &w, !lin, pts[k].iter().zip(cvec.iter()).map(|(a, b)| (a * b).abs()).sum()) { return Err(format!("step {}, point {}: {}", step, k, m)); }
                    }
                    if order.contains(&(k as u8)) && order.last() != Some(&(k as u8)) && v.nf > 0 { ctx.nontrivial(); ctx.label("evaluated again"); }
                    order.push(k as u8);
                    first[k] = Some(got);
                    cur = Some(k);
                }
                EOp::Comb(nu) => {
                    let nu: Vec<f64> = (0..v.nf).map(|i| nu[i % nu.len()]).collect();
                    let before = vals_of(minlp(&mut p, c.entry));
                    match nlp(&mut p, c.entry) {
                        Some(q) if (c.entry as usize / 3 + step) % 2 == 0 => guard("combine_h", || q.combine_h(&nu))?,
                        _ => { let q = minlp(&mut p, c.entry); guard("combine_h", || q.combine_h(&nu))? }
                    }
                    let got = trip(minlp(&mut p, c.entry).hcomb());
                    if let Some(q) = nlp(&mut p, c.entry) { ensure!(same_t(&trip(q.hcomb()), &got), "step {}: the combined Hessian as nlp is {:?}, as minlp {:?}", step, trip(q.hcomb()), got); }
                    let q = minlp(&mut p, c.entry);
                    let want: Trip = before.h.iter().zip(nu.iter()).flat_map(|(h, n)| h.iter().map(move |t| (t.0, t.1, n * t.2))).collect();
                    // any order or summation of the entries stands for the same matrix
                    if !same_t(&got, &want) {
                        let (a, b) = (stdp::dense(&got, v.nx, v.nx), stdp::dense(&want, v.nx, v.nx));
                        let big = stdp::dense_abs(&want, v.nx, v.nx);
                        for i in 0..v.nx { for j in 0..v.nx {
                            ensure!(a[i][j] == b[i][j] || !b[i][j].is_finite() || (a[i][j] - b[i][j]).abs() <= 1e-12 * big[i][j],
                                    "step {}: combined Hessian has {:?} at {},{} instead of {:?}", step, a[i][j], i, j, b[i][j]);
                        } }
                    }
                    ensure!(got.iter().map(|t| (t.0, t.1)).collect::<Vec<_>>() == pattern0, "step {}: combined Hessian has another pattern", step);
                    if let Some(m) = diff(&vals_of(q), &before, true, 0.) { return Err(format!("step {}: combining changed the values: {}", step, m)); }
                    if v.nf > 0 && cur.is_some() { ctx.label("combined"); }
                }
                EOp::View => { check_views(&mut p)?; }
            }
            let w = view(&p);
            ensure!((w.nx, w.na, w.nf) == shape0 && w == v, "step {} changed the problem's data", step);
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MatCase { pub r: usize, pub c: usize, pub e: Vec<(usize, usize, i16)>, pub x: Vec<i16>, pub edits: Vec<(u16, u8, u8)>, pub ctor: u8,
    /// Power of two that the entries are multiplied with (numbers with fractions only)
    #[serde(default)]
    pub scale: i8 }

pub struct C15;

trait Num: numopt::matrix::item::MatItem + PartialEq + std::fmt::Debug { fn of(x: i16, scale: i8) -> Self; }
impl Num for f64 { fn of(x: i16, scale: i8) -> f64 { x as f64 / 8. * 2f64.powi(scale as i32) } }
impl Num for i64 { fn of(x: i16, _: i8) -> i64 { x as i64 } }

fn mat_check<T: Num>(c: &MatCase, ctx: &mut Ctx) -> Res {
    let (r, n) = (c.r, c.c);
    let mut e: Vec<(usize, usize, T)> = c.e.iter().map(|t| (t.0, t.1, T::of(t.2, c.scale))).collect();
    let rows: Vec<usize> = e.iter().map(|t| t.0).collect();
    let cols: Vec<usize> = e.iter().map(|t| t.1).collect();
    let vals: Vec<T> = e.iter().map(|t| t.2).collect();
    let mut m = match c.ctor % 3 {
        0 => CooMat::new((r, n), rows, cols, vals),
        1 => { let mut m = CooMat::from_pattern((r, n), rows, cols); m.data_mut().copy_from_slice(&vals); m }
        _ => {
            let mut m = CooMat::from_nnz((r, n), e.len());
            for (k, t) in e.iter().enumerate() { m.set_row_ind(k, t.0); m.set_col_ind(k, t.1); m.data_mut()[k] = t.2; }
            m
        }
    };
    for (k, i, j) in c.edits.iter() {
        if e.is_empty() { break; }
        let k = *k as usize % e.len();
        let (i, j) = (*i as usize % r, *j as usize % n);
        m.set_row_ind(k, i);
        m.set_col_ind(k, j);
        e[k].0 = i;
        e[k].1 = j;
    }
    ensure!(m.rows() == r && m.cols() == n && m.nnz() == e.len(), "the matrix is {}x{} with {} entries", m.rows(), m.cols(), m.nnz());
    let all: Vec<(usize, usize, T)> = m.iter().map(|(a, b, v)| (*a, *b, *v)).collect();
    ensure!(all == e, "iteration gives {:?} instead of {:?}", all, e);
    ensure!((0..e.len()).all(|k| (m.row_inds()[k], m.col_inds()[k], m.data()[k]) == e[k]), "entries are not those given");
    let mut sums: BTreeMap<(usize, usize), T> = BTreeMap::new();
    let mut given: Vec<Vec<(usize, T)>> = vec![vec![]; r];
    for t in e.iter() {
        *sums.entry((t.0, t.1)).or_insert(T::zero()) += t.2;
        given[t.0].push((t.1, t.2));
    }
    // Product
    let x: Vec<T> = (0..n).map(|i| T::of(c.x[i % c.x.len()], 0)).collect();
    let y = &m * x.clone();
    let mut want = vec![T::zero(); r];
    for (k, v) in sums.iter() { want[k.0] += *v * x[k.1]; }
    ensure!(y == want, "product is {:?} instead of {:?}", y, want);
    // Rows
    let mut s = m.to_csr();
    ensure!(s.rows() == r && s.cols() == n && s.nnz() == e.len(), "in rows the matrix is {}x{} with {} entries", s.rows(), s.cols(), s.nnz());
    let check_ptr = |s: &numopt::matrix::csr::CsrMat<T>| -> Res {
        ensure!(s.indptr().len() == r + 1 && s.indptr()[0] == 0 && s.indptr()[r] == s.nnz() && s.data().len() == s.nnz() && s.indptr().windows(2).all(|w| w[0] <= w[1]), "row pointers {:?} for {} entries", s.indptr(), s.nnz());
        Ok(())
    };
    check_ptr(&s)?;
    let same_set = |a: &[(usize, T)], b: &[(usize, T)]| -> bool {
        let mut b = b.to_vec();
        for x in a { match b.iter().position(|y| y == x) { Some(k) => { b.remove(k); } None => return false } }
        b.is_empty()
    };
    for i in 0..r {
        let row: Vec<(usize, T)> = (s.indptr()[i]..s.indptr()[i + 1]).map(|k| (s.indices()[k], s.data()[k])).collect();
        let want = &given[i];
        ensure!(same_set(&row, want), "row {} has {:?} instead of {:?}", i, row, want);
    }
    let dup = sums.len() < e.len();
    let mut columns: Vec<Vec<usize>> = vec![vec![]; r];
    for k in sums.keys() { columns[k.0].push(k.1); }
    for round in 0..2 {
        s.sum_duplicates();
        check_ptr(&s)?;
        ensure!(s.rows() == r && s.cols() == n, "summing duplicates changed the shape");
        for i in 0..r {
            let row: Vec<(usize, T)> = (s.indptr()[i]..s.indptr()[i + 1]).map(|k| (s.indices()[k], s.data()[k])).collect();
            let mut cols: Vec<usize> = row.iter().map(|t| t.0).collect();
            cols.sort();
            let k = cols.len();
            cols.dedup();
            ensure!(cols.len() == k, "after summing duplicates row {} is {:?}", i, row);
            let want = &columns[i];
            ensure!(&cols == want, "after summing duplicates ({}) row {} has columns {:?} instead of {:?}", round, i, cols, want);
            for (j, v) in row.iter() { ensure!(*v == sums[&(i, *j)], "after summing duplicates entry {},{} is {:?} instead of {:?}", i, j, v, sums[&(i, *j)]); }
        }
    }
    ensure!(m.nnz() == e.len() && (0..e.len()).all(|k| (m.row_inds()[k], m.col_inds()[k], m.data()[k]) == e[k]), "converting changed the matrix");
    let mut z = m.clone();
    if !e.is_empty() { z.data_mut()[0] = T::of(77, 0); z.set_col_ind(0, n - 1); ensure!((m.row_inds()[0], m.col_inds()[0], m.data()[0]) == e[0], "changing a copy changed the matrix"); }
    ctx.label_if(dup, "duplicates");
    ctx.label_if(given.iter().any(|g| g.is_empty()), "empty row");
    ctx.label_if(given.iter().any(|g| g.len() > 255), "row of more than 255 entries");
    ctx.label_if(r > 1000 || n > 1000, "more than 1000 rows or columns");
    if dup && r >= 2 && e.len() >= 4 { ctx.nontrivial(); }
    Ok(())
}

impl Prop for C15 {
    const ID: &'static str = "C15";
    type Case = MatCase;
    fn rule() -> &'static str {
        "random coordinate matrices up to 7x7 (some up to 40x40, few up to 400x400 with up to 900 entries, often in one row, and up to 100000x100000) of integers and of dyadic numbers, with empty rows, repeated positions and later edits of positions; non-trivial: at least two rows, four entries and a repeated position"
    }
    fn assumptions() -> Vec<&'static str> { vec!["entries are such that sums and products are exact"] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 1_000_000 } else { 20_000_000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<MatCase> {
        // sizes, entries at most, and whether most entries are in one row
        let sizes = prop_oneof![
            1350 => (0usize..=7, 1usize..=7, Just(12usize), Just(false)),
            150 => (1usize..=40, 1usize..=40, Just(120usize), Just(false)),
            5 => (1usize..=400, 1usize..=400, Just(900usize), any::<bool>()),
            1 => (1usize..=100_000, 1usize..=100_000, Just(60usize), any::<bool>()),
        ].boxed();
        let sizes = match crate::dict::sizes(7, 100_000) {
            None => sizes,
            Some(n) => prop_oneof![400 => sizes, 1 => (n, 0usize..6, any::<bool>(), 0u8..3).prop_map(|(n, s, one, how)| match how { 0 => (n, s + 1, 3 * n.min(1000), one), 1 => (s + 1, n, 3 * n.min(1000), one), _ => (n, n, 3 * n.min(1000), one) })].boxed(),
        };
        sizes.prop_flat_map(|(r, c, k, one)| {
                let e: BoxedStrategy<Vec<(usize, usize, i16)>> = if r == 0 { Just(vec![]).boxed() } else { prop::collection::vec((0..r, 0..c, prop_oneof![19 => -40i16..41, 1 => any::<i16>()]), 0..k).boxed() };
                let scale = prop_oneof![6 => Just(0i8), 1 => prop::sample::select(vec![-60i8, -33, -20, -10, 10, 24, 50])];
                (Just(r), Just(c), e, prop::collection::vec(prop_oneof![19 => -20i16..21, 1 => any::<i16>()], 1..8), prop::collection::vec(any::<(u16, u8, u8)>(), 0..3), any::<u8>(), Just(one), scale)
            })
            .prop_map(|(r, c, mut e, x, edits, ctor, one, scale)| {
                if one { for t in e.iter_mut() { if t.2 % 4 != 0 { t.0 = r / 2; } } }
                MatCase { r, c, e, x, edits, ctor, scale }
            }).boxed()
    }
    fn check(c: &MatCase, ctx: &mut Ctx) -> Res {
        mat_check::<f64>(c, ctx)?;
        mat_check::<i64>(c, ctx)
    }
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LpCase { pub p: ProbCase, pub stale: u16, pub twice: bool }

pub struct C16;

impl Prop for C16 {
    const ID: &'static str = "C16";
    type Case = LpCase;
    fn rule() -> &'static str {
        "random linear and mixed-integer problems (repeated entries, empty rows, unused variables, infinite limits, numbers of all magnitudes), written over files with older content and read by an independent reader of the LP format; non-trivial: at least two rows, two variables and an integer variable"
    }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 80_000 } else { 1_500_000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<LpCase> {
        let big = (prob_case(vec![MILP]), 1usize..30, 1usize..30).prop_flat_map(|(p, nx, na)| {
            (Just(p), Just(nx), prop::collection::vec(wild(), nx), prop::collection::vec((0..na, 0..nx, wild()), 0..60), prop::collection::vec(wild(), na), prop::collection::vec(any::<bool>(), nx))
        }).prop_map(|(p, nx, c, a, b, ints)| {
            let l = (0..nx).map(|i| p.l[i % p.l.len()] + i as f64).collect();
            let u = (0..nx).map(|i| p.u[i % p.u.len()] + i as f64).collect();
            ProbCase { nx, c, a, b, l, u, p: ints, x0: None, ..p }
        });
        (prop_oneof![6 => prob_case(vec![LP, MILP, MILP]), 1 => big], 0u16..2000, any::<bool>())
            .prop_map(|(p, stale, twice)| LpCase { p, stale, twice }).boxed()
    }
    fn describe(c: &LpCase) -> Option<String> {
        let mut p = c.p.build();
        let text = written(&mut p, "describe.lp", 0).ok()?;
        std::fs::remove_file("describe.lp").ok();
        Some(text)
    }
    fn check(c: &LpCase, ctx: &mut Ctx) -> Res {
        let h = &c.p;
        let mut p = h.build();
        let mut text = written(&mut p, "p.lp", c.stale)?;
        if c.twice { let again = written(&mut p, "p.lp", 0)?; ensure!(text == again, "written again the file is different"); text = again; }
        std::fs::remove_file("p.lp").map_err(|e| e.to_string())?;
        let lp = crate::lp::parse(&text).map_err(|e| format!("the file is not in LP format: {}\n{}", e, text))?;
        crate::lp::states(&lp, &h.c, &h.a, &h.b, &h.l(), &h.u(), &h.p).map_err(|e| format!("{}\n{}", e, text))?;
        let q = match &mut p { Problem::Lp(x) => x.as_mut_milp(), Problem::Milp(x) => x, _ => unreachable!() };
        let r = guard("writing", || q.write_to_lp_file("no/such/dir/p.lp"))?;
        ensure!(r.is_err(), "writing to a directory that is missing succeeds");
        let mut pos: Vec<(usize, usize)> = h.a.iter().map(|t| (t.0, t.1)).collect();
        pos.sort();
        let k = pos.len();
        pos.dedup();
        ctx.label_if(pos.len() < k, "repeated entries");
        ctx.label_if((0..h.na()).any(|i| !h.a.iter().any(|t| t.0 == i)), "empty row");
        ctx.label_if(h.l().iter().chain(h.u().iter()).any(|x| x.is_infinite()), "infinite limit");
        if h.na() >= 2 && h.nx >= 2 && h.p.iter().any(|x| *x) { ctx.nontrivial(); }
        Ok(())
    }
}

fn written(p: &mut Problem, name: &str, stale: u16) -> Result<String, String> {
    if stale > 0 { std::fs::write(name, "stale\n".repeat(stale as usize)).map_err(|e| e.to_string())?; }
    let q = match p { Problem::Lp(x) => x.as_mut_milp(), Problem::Milp(x) => x, _ => unreachable!() };
    guard("writing", || q.write_to_lp_file(name))?.map_err(|e| format!("writing fails: {}", e))?;
    std::fs::read_to_string(name).map_err(|e| e.to_string())
}
