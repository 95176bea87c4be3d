//! Uniform view of numopt's problem types.

use numopt::matrix::coo::CooMat;
use numopt::problem::base::Problem;

pub type Trip = Vec<(usize, usize, f64)>;

#[derive(Clone, Debug, PartialEq)]
pub struct View {
    pub kind: &'static str,
    pub nx: usize, pub na: usize, pub nf: usize,
    pub l: Vec<f64>, pub u: Vec<f64>, pub p: Vec<bool>, pub x0: Option<Vec<f64>>,
    pub a: Trip, pub b: Vec<f64>,
    pub shape_a: (usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Vals { pub phi: f64, pub gphi: Vec<f64>, pub hphi: Trip, pub f: Vec<f64>, pub j: Trip, pub h: Vec<Trip> }

pub fn trip(m: &CooMat<f64>) -> Trip {
    (0..m.nnz()).map(|k| (m.row_inds()[k], m.col_inds()[k], m.data()[k])).collect()
}

macro_rules! common {
    ($k:expr, $x:expr, $nf:expr, $p:expr) => {
        View { kind: $k, nx: $x.nx(), na: $x.na(), nf: $nf, l: $x.l().to_vec(), u: $x.u().to_vec(), p: $p,
               x0: $x.x0().map(|v| v.to_vec()), a: trip($x.a()), b: $x.b().to_vec(), shape_a: ($x.a().rows(), $x.a().cols()) }
    };
}

pub fn view(p: &Problem) -> View {
    match p {
        Problem::Lp(x) => common!("lp", x, 0, vec![false; x.nx()]),
        Problem::Milp(x) => common!("milp", x, 0, x.p().to_vec()),
        Problem::Nlp(x) => common!("nlp", x, x.nf(), vec![false; x.nx()]),
        Problem::Minlp(x) => common!("minlp", x, x.nf(), x.p().to_vec()),
    }
}

pub fn dot(c: &[f64], x: &[f64]) -> f64 { c.iter().zip(x).map(|(a, b)| a * b).sum() }

macro_rules! evald {
    ($x:expr, $at:expr) => {{
        $x.evaluate($at);
        Vals { phi: $x.phi(), gphi: $x.gphi().to_vec(), hphi: trip($x.hphi()), f: $x.f().to_vec(), j: trip($x.j()),
               h: $x.h().iter().map(trip).collect() }
    }};
}

pub fn eval(p: &mut Problem, x: &[f64]) -> Vals {
    match p {
        Problem::Lp(q) => Vals { phi: dot(q.c(), x), gphi: q.c().to_vec(), hphi: vec![], f: vec![], j: vec![], h: vec![] },
        Problem::Milp(q) => Vals { phi: dot(q.c(), x), gphi: q.c().to_vec(), hphi: vec![], f: vec![], j: vec![], h: vec![] },
        Problem::Nlp(q) => evald!(q, x),
        Problem::Minlp(q) => evald!(q, x),
    }
}

pub fn combine(p: &mut Problem, nu: &[f64]) -> Trip {
    match p {
        Problem::Nlp(q) => { q.combine_h(nu); trip(q.hcomb()) }
        Problem::Minlp(q) => { q.combine_h(nu); trip(q.hcomb()) }
        _ => vec![],
    }
}

/// Dense matrix with duplicates added up.
pub fn dense(t: &Trip, r: usize, c: usize) -> Vec<Vec<f64>> {
    let mut m = vec![vec![0.; c]; r];
    for (i, j, v) in t.iter() { m[*i][*j] += *v; }
    m
}

/// Sum of absolute values of the entries at each position.
pub fn dense_abs(t: &Trip, r: usize, c: usize) -> Vec<Vec<f64>> {
    let mut m = vec![vec![0.; c]; r];
    for (i, j, v) in t.iter() { m[*i][*j] += v.abs(); }
    m
}
