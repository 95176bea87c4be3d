//! Generated problems built by hand, with functions known exactly.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use numopt::matrix::coo::CooMat;
use numopt::problem::base::Problem;
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;

use crate::fw::{decode, INF_CODE};
use crate::stdp::{Trip, Vals};

pub const LP: u8 = 0;
pub const MILP: u8 = 1;
pub const NLP: u8 = 2;
pub const MINLP: u8 = 3;
pub const KINDS: [&str; 4] = ["lp", "milp", "nlp", "minlp"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ProbCase {
    pub kind: u8,
    pub nx: usize,
    pub c: Vec<f64>,
    pub a: Vec<(usize, usize, f64)>,
    pub b: Vec<f64>,
    pub l: Vec<f64>,
    pub u: Vec<f64>,
    pub p: Vec<bool>,
    pub x0: Option<Vec<f64>>,
    pub hphi: Vec<(usize, usize)>,
    pub j: Vec<(usize, usize)>,
    pub h: Vec<Vec<(usize, usize)>>,
    pub salt: u8,
}

/// Numbers with plain, long and extreme magnitudes.
pub fn number() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => (-9i32..=9).prop_map(|x| x as f64),
        3 => prop::sample::select(vec![1., -1., 0., -0., 0.5, -0.1, 1e-3, 100., 1. / 3., -2. / 3., 1.0000001, 0.9999999999, 10.]),
        2 => -1e3f64..1e3,
        1 => (-1.0f64..1.0, -12i32..13).prop_map(|(m, e)| m * 10f64.powi(e)),
        1 => crate::dict::number(1e12),
    ].boxed()
}

/// Also numbers that no one should have in a problem
pub fn wild() -> BoxedStrategy<f64> {
    prop_oneof![30 => number(), 1 => prop::sample::select(vec![1e20, -1e20, 1e100, -1e-100, 123456789012., 99999999999.5, -4294967296., 2147483648., 9007199254740993., 1e-20, 1.7e308, 5e-324, -2.2250738585072014e-308])].boxed()
}

fn limit() -> BoxedStrategy<f64> {
    prop_oneof![6 => number(), 2 => prop::sample::select(vec![1e8, -1e8, 1e9, INF_CODE, -INF_CODE])].boxed()
}

/// Entries at random positions, duplicates included.
pub fn entries(r: usize, c: usize, max: usize) -> BoxedStrategy<Vec<(usize, usize)>> {
    if r == 0 || c == 0 { return Just(vec![]).boxed(); }
    prop::collection::vec((0..r, 0..c), 0..=max).boxed()
}

fn lower(n: usize, max: usize) -> BoxedStrategy<Vec<(usize, usize)>> {
    entries(n, n, max).prop_map(|v| v.into_iter().map(|(a, b)| (a.max(b), a.min(b))).collect()).boxed()
}

pub fn prob_case(kinds: Vec<u8>) -> BoxedStrategy<ProbCase> {
    prob_sizes(kinds, 1)
}

/// `large` in about 3000 of the problems are large
pub fn prob_sizes(kinds: Vec<u8>, large: u32) -> BoxedStrategy<ProbCase> {
    // mostly small; some with indices of two digits; few with more than 255 of everything
    let sizes = prop_oneof![2800 => (1usize..=6, 0usize..=5, 0usize..=4), 200 => (7usize..=40, 0usize..=30, 0usize..=40), large => (240usize..=340, 0usize..=320, 0usize..=300)].boxed();
    let sizes = match crate::dict::sizes(7, 700) {
        None => sizes,
        Some(n) => prop_oneof![
            (if large == 0 { 1 } else { 300 }) => sizes,
            (if large == 0 { 0 } else { 1 }) => (n, 0usize..5, 0usize..5, 0u8..5).prop_map(|(n, a, b, which)| match which { 0 => (n, n, a), 1 => (n, a, n), 2 => (a + 1, n, b), 3 => (a + 1, b, n), _ => (n, a, b) }),
        ].boxed(),
    };
    (prop::sample::select(kinds), sizes)
        .prop_flat_map(|(kind, (nx, na, nf))| {
            let k = if nx.max(na).max(nf) > 40 { 60 } else if nx.max(na).max(nf) > 6 { 6 } else { 1 };
            let nf = if kind < NLP { 0 } else { nf };
            let nl = kind >= NLP;
            (
                (Just(kind), Just(nx), prop::collection::vec(number(), nx), entries(na, nx, 10 * k), prop::collection::vec(number(), 10 * k),
                 prop::collection::vec(number(), na), prop::collection::vec(limit(), nx), prop::collection::vec(limit(), nx)),
                (prop_oneof![2 => prop::collection::vec(prop::bool::weighted(0.4), nx), 1 => prop::collection::vec(prop::bool::weighted(0.95), nx)], prop::option::of(prop::collection::vec(number(), nx)),
                 if nl { lower(nx, 5 * k) } else { Just(vec![]).boxed() }, entries(nf, nx, 8 * k), prop::collection::vec(lower(nx, 4), nf), any::<u8>()),
            )
        })
        .prop_map(|((kind, nx, c, pat, vals, b, l, u), (p, x0, hphi, j, h, salt))| {
            let a = pat.into_iter().zip(vals.into_iter()).map(|((r, c), v)| (r, c, v)).collect();
            let p = if kind == MILP || kind == MINLP { p } else { vec![false; nx] };
            ProbCase { kind, nx, c, a, b, l, u, p, x0, hphi, j, h, salt }
        }).boxed()
}

/// Value of slot k of array `tag` at x.
pub fn slot(tag: usize, k: usize, salt: u8, x: &[f64]) -> f64 {
    let z = tag * 31 + k * 7 + salt as usize;
    let al = ((z * 37) % 41) as f64 / 4. - 5.;
    let be = ((z * 23) % 29) as f64 / 8. - 1.75;
    al + be * x[(k + tag + salt as usize) % x.len()]
}

fn coo(r: usize, c: usize, pat: &[(usize, usize)]) -> CooMat<f64> {
    CooMat::from_pattern((r, c), pat.iter().map(|t| t.0).collect(), pat.iter().map(|t| t.1).collect())
}

impl ProbCase {
    pub fn na(&self) -> usize { self.b.len() }
    pub fn nf(&self) -> usize { self.h.len() }
    pub fn l(&self) -> Vec<f64> { self.l.iter().map(|x| decode(*x)).collect() }
    pub fn u(&self) -> Vec<f64> { self.u.iter().map(|x| decode(*x)).collect() }
    pub fn a_mat(&self) -> CooMat<f64> {
        CooMat::new((self.na(), self.nx), self.a.iter().map(|t| t.0).collect(), self.a.iter().map(|t| t.1).collect(), self.a.iter().map(|t| t.2).collect())
    }

    pub fn nlp(&self) -> bool { self.kind >= NLP }

    /// Exact values at x (bitwise those of `build`'s problem for nonlinear kinds).
    pub fn vals(&self, x: &[f64]) -> Vals {
        let s = self.salt;
        if !self.nlp() { return Vals { phi: crate::stdp::dot(&self.c, x), gphi: self.c.clone(), hphi: vec![], f: vec![], j: vec![], h: vec![] }; }
        Vals {
            phi: slot(1, 0, s, x),
            gphi: (0..self.nx).map(|k| slot(2, k, s, x)).collect(),
            hphi: self.hphi.iter().enumerate().map(|(k, t)| (t.0, t.1, slot(3, k, s, x))).collect(),
            f: (0..self.nf()).map(|k| slot(4, k, s, x)).collect(),
            j: self.j.iter().enumerate().map(|(k, t)| (t.0, t.1, slot(5, k, s, x))).collect(),
            h: self.h.iter().enumerate().map(|(i, h)| h.iter().enumerate().map(|(k, t)| (t.0, t.1, slot(6 + i, k, s, x))).collect()).collect(),
        }
    }

    pub fn hcomb(&self, v: &Vals, nu: &[f64]) -> Trip {
        v.h.iter().zip(nu).flat_map(|(h, n)| h.iter().map(move |t| (t.0, t.1, n * t.2))).collect()
    }

    pub fn build(&self) -> Problem {
        let (a, b, l, u, x0) = (self.a_mat(), self.b.clone(), self.l(), self.u(), self.x0.clone());
        let (nx, nf) = (self.nx, self.nf());
        let s = self.salt;
        let eval = Box::new(move |phi: &mut f64, gphi: &mut Vec<f64>, hphi: &mut CooMat<f64>, f: &mut Vec<f64>, j: &mut CooMat<f64>, h: &mut Vec<CooMat<f64>>, x: &[f64]| {
            *phi = slot(1, 0, s, x);
            for (k, v) in gphi.iter_mut().enumerate() { *v = slot(2, k, s, x); }
            for (k, v) in hphi.data_mut().iter_mut().enumerate() { *v = slot(3, k, s, x); }
            for (k, v) in f.iter_mut().enumerate() { *v = slot(4, k, s, x); }
            for (k, v) in j.data_mut().iter_mut().enumerate() { *v = slot(5, k, s, x); }
            for (i, m) in h.iter_mut().enumerate() { for (k, v) in m.data_mut().iter_mut().enumerate() { *v = slot(6 + i, k, s, x); } }
        });
        match self.kind {
            LP => Problem::Lp(ProblemLp::new(self.c.clone(), a, b, l, u, x0)),
            MILP => Problem::Milp(ProblemMilp::new(self.c.clone(), a, b, l, u, self.p.clone(), x0)),
            NLP => Problem::Nlp(ProblemNlp::new(coo(nx, nx, &self.hphi), a, b, coo(nf, nx, &self.j), self.h.iter().map(|h| coo(nx, nx, h)).collect(), l, u, x0, eval)),
            _ => Problem::Minlp(ProblemMinlp::new(coo(nx, nx, &self.hphi), a, b, coo(nf, nx, &self.j), self.h.iter().map(|h| coo(nx, nx, h)).collect(), l, u, self.p.clone(), x0, eval)),
        }
    }
}
