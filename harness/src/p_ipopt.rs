//! C22, C23: SolverIpopt with a stand-in for libipopt (see bin/ipopt.rs).

use std::cell::RefCell;
use std::os::raw::{c_char, c_int, c_void};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::ipopt::SolverIpopt;

use crate::fw::{decode, guard, Ctx, Prop, Res, Tier, INF_CODE, NAN_CODE};
use crate::probgen::{number, prob_case, ProbCase, KINDS, LP, NLP};
use crate::stdp::{dense, dense_abs, view, Trip};

pub type EvalF = extern "C" fn(c_int, *const f64, c_int, *mut f64, *mut c_void) -> c_int;
pub type EvalGrad = extern "C" fn(c_int, *const f64, c_int, *mut f64, *mut c_void) -> c_int;
pub type EvalG = extern "C" fn(c_int, *const f64, c_int, c_int, *mut f64, *mut c_void) -> c_int;
pub type EvalJac = extern "C" fn(c_int, *const f64, c_int, c_int, c_int, *mut c_int, *mut c_int, *mut f64, *mut c_void) -> c_int;
pub type EvalH = extern "C" fn(c_int, *const f64, c_int, f64, c_int, *const f64, c_int, c_int, *mut c_int, *mut c_int, *mut f64, *mut c_void) -> c_int;

#[derive(Clone, Copy)]
pub struct Callbacks { pub f: EvalF, pub g: EvalG, pub grad: EvalGrad, pub jac: EvalJac, pub h: EvalH }

/// What the stand-in does in the current solve.
#[derive(Default)]
struct Script {
    refuse_create: bool,
    refuse_int: bool,
    refuse_str: bool,
    code: c_int,
    /// Vectors to return (padded with zeros)
    x: Vec<f64>, lam: Vec<f64>, zl: Vec<f64>, zu: Vec<f64>,
    /// What to ask for
    asks: Option<(AskCase, usize)>,
}

#[derive(Default)]
struct Log {
    created: Vec<Made>,
    ints: Vec<(usize, String, i32)>,
    strs: Vec<(usize, String, Vec<u8>)>,
    nums: usize,
    solves: Vec<(usize, Vec<f64>)>,
    freed: Vec<usize>,
    errors: Vec<String>,
    result: Option<Res>,
    labels: Vec<&'static str>,
}

#[derive(Clone)]
struct Made { n: c_int, l: Vec<f64>, u: Vec<f64>, m: c_int, gl: Vec<f64>, gu: Vec<f64>, nj: c_int, nh: c_int, style: c_int, cb: Callbacks }

thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}

/// Handles are 0x1000 + 16 k for the k-th problem made since the script was set.
fn handle(k: usize) -> *mut c_void { (0x1000 + 16 * k) as *mut c_void }

fn live(h: *mut c_void, what: &str) -> Option<usize> {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        let a = h as usize;
        if a < 0x1000 || (a - 0x1000) % 16 != 0 || (a - 0x1000) / 16 >= l.created.len() { l.errors.push(format!("{} with a problem that was never created", what)); return None; }
        let k = (a - 0x1000) / 16;
        if l.freed.contains(&k) { l.errors.push(format!("{} with a problem that was freed", what)); return None; }
        Some(k)
    })
}

unsafe fn vec_of(p: *const f64, n: c_int) -> Vec<f64> {
    if p.is_null() || n <= 0 { return vec![]; }
    std::slice::from_raw_parts(p, n as usize).to_vec()
}

pub unsafe fn create(n: c_int, xl: *const f64, xu: *const f64, m: c_int, gl: *const f64, gu: *const f64, nj: c_int, nh: c_int, style: c_int, cb: Callbacks) -> *mut c_void {
    if SCRIPT.with(|s| s.borrow().refuse_create) { LOG.with(|l| l.borrow_mut().labels.push("creation refused")); return std::ptr::null_mut(); }
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.created.push(Made { n, l: vec_of(xl, n), u: vec_of(xu, n), m, gl: vec_of(gl, m), gu: vec_of(gu, m), nj, nh, style, cb });
        handle(l.created.len() - 1)
    })
}

unsafe fn text(p: *const c_char) -> Vec<u8> { if p.is_null() { vec![] } else { std::ffi::CStr::from_ptr(p).to_bytes().to_vec() } }

pub unsafe fn int_option(h: *mut c_void, key: *const c_char, v: c_int) -> c_int {
    let k = match live(h, "setting an option") { Some(k) => k, None => return 0 };
    let key = String::from_utf8_lossy(&text(key)).to_string();
    LOG.with(|l| l.borrow_mut().ints.push((k, key, v)));
    if SCRIPT.with(|s| s.borrow().refuse_int) { 0 } else { 1 }
}

pub unsafe fn str_option(h: *mut c_void, key: *const c_char, v: *const c_char) -> c_int {
    let k = match live(h, "setting an option") { Some(k) => k, None => return 0 };
    let key = String::from_utf8_lossy(&text(key)).to_string();
    let v = text(v);
    LOG.with(|l| l.borrow_mut().strs.push((k, key, v)));
    if SCRIPT.with(|s| s.borrow().refuse_str) { 0 } else { 1 }
}

pub unsafe fn num_option(h: *mut c_void) -> c_int { if live(h, "setting an option").is_some() { LOG.with(|l| l.borrow_mut().nums += 1); } 1 }

pub unsafe fn free(h: *mut c_void) { if let Some(k) = live(h, "freeing") { LOG.with(|l| l.borrow_mut().freed.push(k)); } }

pub unsafe fn solve(h: *mut c_void, x: *mut f64, g: *mut f64, obj: *mut f64, lam: *mut f64, zl: *mut f64, zu: *mut f64, user: *mut c_void) -> c_int {
    let k = match live(h, "solving") { Some(k) => k, None => return -199 };
    let made = LOG.with(|l| l.borrow().created[k].clone());
    let (n, m) = (made.n.max(0) as usize, made.m.max(0) as usize);
    if x.is_null() { LOG.with(|l| l.borrow_mut().errors.push("no starting point is given".into())); return -100; }
    LOG.with(|l| l.borrow_mut().solves.push((k, std::slice::from_raw_parts(x, n).to_vec())));
    let asks = SCRIPT.with(|s| s.borrow_mut().asks.take());
    if let Some((c, skip)) = asks {
        let mut labels = vec![];
        let r = ask(&c, skip, &made, user, &mut labels);
        LOG.with(|l| { let mut l = l.borrow_mut(); l.result = Some(r); l.labels.extend(labels); });
    }
    SCRIPT.with(|s| {
        let s = s.borrow();
        let put = |p: *mut f64, v: &[f64], n: usize| { if !p.is_null() { for i in 0..n { *p.add(i) = v.get(i).cloned().unwrap_or(0.); } } };
        put(x, &s.x, n);
        put(lam, &s.lam, m);
        put(zl, &s.zl, n);
        put(zu, &s.zu, n);
        let _ = (g, obj);
        s.code
    })
}

fn solver() -> SolverIpopt { SolverIpopt::new() }

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask {
    F(u8),
    Grad(u8),
    G(u8),
    Jac(u8),
    JacPos,
    /// point, multipliers, objective factor
    H(u8, u8, f64),
    HPos,
    /// callback, defect, point
    Bad(u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AskCase {
    pub prob: ProbCase,
    pub points: Vec<Vec<f64>>,
    pub lambdas: Vec<Vec<f64>>,
    pub asks: Vec<(Ask, u8)>,
}

const GUARD: f64 = 7.25e77;
const GUARD_I: c_int = 0x5a5a_5a5a;

struct Buf { v: Vec<f64>, n: usize }
impl Buf {
    fn new(n: usize) -> Buf { let mut v = vec![f64::NAN; n]; v.extend([GUARD; 6]); Buf { v, n } }
    fn ptr(&mut self) -> *mut f64 { self.v.as_mut_ptr() }
    fn done(&self, what: &str) -> Result<&[f64], String> {
        if self.v[self.n..].iter().any(|x| *x != GUARD) { return Err(format!("{}: written beyond the announced {} values", what, self.n)); }
        Ok(&self.v[..self.n])
    }
    fn untouched(&self, what: &str) -> Res {
        self.done(what)?;
        ensure!(self.v[..self.n].iter().all(|x| x.is_nan()), "{}: values are written although the request is refused", what);
        Ok(())
    }
}
struct Ibuf { v: Vec<c_int>, n: usize }
impl Ibuf {
    fn new(n: usize) -> Ibuf { let mut v = vec![-77; n]; v.extend([GUARD_I; 6]); Ibuf { v, n } }
    fn ptr(&mut self) -> *mut c_int { self.v.as_mut_ptr() }
    fn done(&self, what: &str) -> Result<&[c_int], String> {
        if self.v[self.n..].iter().any(|x| *x != GUARD_I) { return Err(format!("{}: written beyond the announced {} positions", what, self.n)); }
        Ok(&self.v[..self.n])
    }
}

fn close(a: f64, b: f64, big: f64) -> bool { a == b || (a - b).abs() <= 1e-12 * (1e-300 + big + b.abs()) || (a.is_nan() && b.is_nan()) }

fn same_matrix(what: &str, got: &Trip, want: &Trip, r: usize, c: usize) -> Res {
    let (g, w, big) = (dense(got, r, c), dense(want, r, c), dense_abs(want, r, c));
    for i in 0..r { for j in 0..c {
        ensure!(close(g[i][j], w[i][j], big[i][j]), "{}: entry ({}, {}) is {:?}, it should be {:?}", what, i, j, g[i][j], w[i][j]);
    } }
    Ok(())
}

/// Asks through the callbacks and compares with the problem's true values.
unsafe fn ask(c: &AskCase, _skip: usize, made: &Made, user: *mut c_void, labels: &mut Vec<&'static str>) -> Res {
    let p = &c.prob;
    let (nx, na, nf) = (p.nx, p.na(), p.nf());
    let m = na + nf;
    ensure!(made.n as usize == nx && made.m as usize == m, "created with {} variables and {} rows instead of {} and {}", made.n, made.m, nx, m);
    let (nj, nh) = (made.nj.max(0) as usize, made.nh.max(0) as usize);
    let cb = made.cb;
    let (n_, m_) = (nx as c_int, m as c_int);
    // Positions, kept from the last request
    let jac_pos = || -> Result<Vec<(usize, usize)>, String> {
        let (mut r, mut k) = (Ibuf::new(nj), Ibuf::new(nj));
        let ok = (cb.jac)(n_, std::ptr::null(), 0, m_, nj as c_int, r.ptr(), k.ptr(), std::ptr::null_mut(), user);
        ensure!(ok == 1, "positions of the Jacobian are refused");
        let (r, k) = (r.done("Jacobian rows")?, k.done("Jacobian columns")?);
        for i in 0..nj { ensure!(r[i] >= 0 && (r[i] as usize) < m && k[i] >= 0 && (k[i] as usize) < nx, "Jacobian position {} is ({}, {})", i, r[i], k[i]); }
        Ok((0..nj).map(|i| (r[i] as usize, k[i] as usize)).collect())
    };
    let h_pos = || -> Result<Vec<(usize, usize)>, String> {
        let (mut r, mut k) = (Ibuf::new(nh), Ibuf::new(nh));
        let ok = (cb.h)(n_, std::ptr::null(), 0, 0., m_, std::ptr::null(), 0, nh as c_int, r.ptr(), k.ptr(), std::ptr::null_mut(), user);
        ensure!(ok == 1, "positions of the Hessian are refused");
        let (r, k) = (r.done("Hessian rows")?, k.done("Hessian columns")?);
        for i in 0..nh { ensure!(r[i] >= 0 && (r[i] as usize) < nx && k[i] >= 0 && k[i] <= r[i], "Hessian position {} is ({}, {})", i, r[i], k[i]); }
        Ok((0..nh).map(|i| (r[i] as usize, k[i] as usize)).collect())
    };
    let jp = jac_pos()?;
    let hp = h_pos()?;
    let mut last: Option<usize> = None;
    let mut last_lam: Option<usize> = None;
    // The solver may keep its iterate and its multipliers in one place each
    let mut place: Vec<f64> = vec![0.; nx];
    let mut lam_place: Vec<f64> = vec![0.; m];
    for (step, (a, flags)) in c.asks.iter().enumerate() {
        let same_place = flags & 16 != 0;
        let pt = |k: &u8| *k as usize % c.points.len();
        // Truthful: new when it differs, either way when it does not
        let newness = |k: usize, last: Option<usize>| -> c_int { if last.map_or(true, |l| c.points[l] != c.points[k]) { 1 } else { (*flags & 1) as c_int } };
        match a {
            Ask::F(k) => {
                let k = pt(k);
                let x = &c.points[k];
                let xp = if same_place { place.copy_from_slice(x); place.as_ptr() } else { x.as_ptr() };
                let nw = newness(k, last);
                let mut o = Buf::new(1);
                let r = (cb.f)(n_, xp, nw, o.ptr(), user);
                ensure!(r == 1, "request {} for the objective is refused", step);
                let v = p.vals(x);
                let big: f64 = if p.kind == LP { p.c.iter().zip(x.iter()).map(|(a, b)| (a * b).abs()).sum() } else { 0. };
                let got = o.done("objective")?[0];
                ensure!(close(got, v.phi, big), "request {} (new_x {}): objective is {:?}, it is {:?} there", step, nw, got, v.phi);
                last = Some(k);
            }
            Ask::Grad(k) => {
                let k = pt(k);
                let x = &c.points[k];
                let xp = if same_place { place.copy_from_slice(x); place.as_ptr() } else { x.as_ptr() };
                let nw = newness(k, last);
                let mut o = Buf::new(nx);
                let r = (cb.grad)(n_, xp, nw, o.ptr(), user);
                ensure!(r == 1, "request {} for the gradient is refused", step);
                let v = p.vals(x);
                let got = o.done("gradient")?;
                for i in 0..nx { ensure!(close(got[i], v.gphi[i], 0.), "request {} (new_x {}): gradient entry {} is {:?}, it is {:?} there", step, nw, i, got[i], v.gphi[i]); }
                last = Some(k);
            }
            Ask::G(k) => {
                let k = pt(k);
                let x = &c.points[k];
                let xp = if same_place { place.copy_from_slice(x); place.as_ptr() } else { x.as_ptr() };
                let nw = newness(k, last);
                let mut o = Buf::new(m);
                let r = (cb.g)(n_, xp, nw, m_, o.ptr(), user);
                ensure!(r == 1, "request {} for the constraints is refused", step);
                let v = p.vals(x);
                let got = o.done("constraints")?;
                for i in 0..na {
                    let mut w = -p.b[i];
                    let mut big = p.b[i].abs();
                    for t in p.a.iter().filter(|t| t.0 == i) { w += t.2 * x[t.1]; big += (t.2 * x[t.1]).abs(); }
                    ensure!(close(got[i], w, big * 4.), "request {} (new_x {}): linear row {} is {:?}, its residual is {:?}", step, nw, i, got[i], w);
                }
                for i in 0..nf { ensure!(close(got[na + i], v.f[i], 0.), "request {} (new_x {}): nonlinear row {} is {:?}, it is {:?} there", step, nw, i, got[na + i], v.f[i]); }
                last = Some(k);
            }
            Ask::Jac(k) => {
                let k = pt(k);
                let x = &c.points[k];
                let xp = if same_place { place.copy_from_slice(x); place.as_ptr() } else { x.as_ptr() };
                let nw = newness(k, last);
                let mut o = Buf::new(nj);
                let r = (cb.jac)(n_, xp, nw, m_, nj as c_int, std::ptr::null_mut(), std::ptr::null_mut(), o.ptr(), user);
                ensure!(r == 1, "request {} for the Jacobian is refused", step);
                let v = p.vals(x);
                let got = o.done("Jacobian")?;
                let t: Trip = (0..nj).map(|i| (jp[i].0, jp[i].1, got[i])).collect();
                let mut w: Trip = p.a.clone();
                w.extend(v.j.iter().map(|t| (t.0 + na, t.1, t.2)));
                same_matrix(&format!("request {} (new_x {}): Jacobian", step, nw), &t, &w, m, nx)?;
                last = Some(k);
            }
            Ask::H(k, q, s) => {
                let k = pt(k);
                let x = &c.points[k];
                let xp = if same_place { place.copy_from_slice(x); place.as_ptr() } else { x.as_ptr() };
                let nw = newness(k, last);
                let q = *q as usize % c.lambdas.len();
                let lam = &c.lambdas[q][..m];
                let lp = if same_place { lam_place.copy_from_slice(lam); lam_place.as_ptr() } else { lam.as_ptr() };
                let nl = if last_lam.map_or(true, |l| c.lambdas[l] != c.lambdas[q]) { 1 } else { ((*flags >> 1) & 1) as c_int };
                let mut o = Buf::new(nh);
                let r = (cb.h)(n_, xp, nw, *s, m_, lp, nl, nh as c_int, std::ptr::null_mut(), std::ptr::null_mut(), o.ptr(), user);
                ensure!(r == 1, "request {} for the Hessian is refused", step);
                let v = p.vals(x);
                let got = o.done("Hessian")?;
                let t: Trip = (0..nh).map(|i| (hp[i].0, hp[i].1, got[i])).collect();
                let mut w: Trip = v.hphi.iter().map(|t| (t.0, t.1, s * t.2)).collect();
                w.extend(p.hcomb(&v, &lam[na..]));
                same_matrix(&format!("request {} (new_x {}, new_lambda {}): Hessian", step, nw, nl), &t, &w, nx, nx)?;
                last = Some(k);
                last_lam = Some(q);
                if nw == 0 { labels.push("Hessian at a seen point"); if nl == 1 && nf > 0 { labels.push("Hessian at a seen point with new multipliers"); } }
            }
            Ask::JacPos => { ensure!(jac_pos()? == jp, "the positions of the Jacobian have changed"); }
            Ask::HPos => { ensure!(h_pos()? == hp, "the positions of the Hessian have changed"); }
            Ask::Bad(which, how, k) => {
                let x = &c.points[pt(k)];
                let wrong = |n: c_int| -> c_int { match (*flags >> 2) % 4 { 0 => n + 1, 1 => n - 1, 2 => -1 - n, _ => n + 7 } };
                let lam = &c.lambdas[0][..m];
                let (mut o, mut o2) = (Buf::new(nx.max(m).max(nj).max(nh)), (Ibuf::new(nj.max(nh)), Ibuf::new(nj.max(nh))));
                let mut null = std::ptr::null_mut::<f64>();
                let _ = &mut null;
                let xp = x.as_ptr();
                let np = std::ptr::null::<f64>();
                let ni = std::ptr::null_mut::<c_int>();
                let nu = std::ptr::null_mut::<c_void>();
                let (r, what): (c_int, &str) = match (which % 5, how % 8) {
                    (0, 0..=2) => ((cb.f)(wrong(n_), xp, 1, o.ptr(), user), "objective, number of variables"),
                    (0, 3..=4) => ((cb.f)(n_, np, 1, o.ptr(), user), "objective, no point"),
                    (0, 5) => ((cb.f)(n_, xp, 1, null, user), "objective, no place for the value"),
                    (0, _) => ((cb.f)(n_, xp, 1, o.ptr(), nu), "objective, no problem"),
                    (1, 0..=2) => ((cb.grad)(wrong(n_), xp, 1, o.ptr(), user), "gradient, number of variables"),
                    (1, 3..=4) => ((cb.grad)(n_, np, 1, o.ptr(), user), "gradient, no point"),
                    (1, 5) => ((cb.grad)(n_, xp, 1, null, user), "gradient, no place for the values"),
                    (1, _) => ((cb.grad)(n_, xp, 1, o.ptr(), nu), "gradient, no problem"),
                    (2, 0..=1) => ((cb.g)(wrong(n_), xp, 1, m_, o.ptr(), user), "constraints, number of variables"),
                    (2, 2..=3) => ((cb.g)(n_, xp, 1, wrong(m_), o.ptr(), user), "constraints, number of rows"),
                    (2, 4) => ((cb.g)(n_, np, 1, m_, o.ptr(), user), "constraints, no point"),
                    (2, 5) if m > 0 => ((cb.g)(n_, xp, 1, m_, null, user), "constraints, no place for the values"),
                    (2, _) => ((cb.g)(n_, xp, 1, m_, o.ptr(), nu), "constraints, no problem"),
                    (3, 0) => ((cb.jac)(wrong(n_), xp, 1, m_, nj as c_int, ni, ni, o.ptr(), user), "Jacobian, number of variables"),
                    (3, 1) => ((cb.jac)(n_, xp, 1, wrong(m_), nj as c_int, ni, ni, o.ptr(), user), "Jacobian, number of rows"),
                    (3, 2) => ((cb.jac)(n_, xp, 1, m_, wrong(nj as c_int), ni, ni, o.ptr(), user), "Jacobian, number of values"),
                    (3, 3) => ((cb.jac)(n_, np, 1, m_, nj as c_int, ni, ni, o.ptr(), user), "Jacobian, no point"),
                    (3, 4) => ((cb.jac)(n_, np, 0, m_, nj as c_int, ni, o2.1.ptr(), null, user), "Jacobian positions, no place for the rows"),
                    (3, 5) => ((cb.jac)(n_, np, 0, m_, nj as c_int, o2.0.ptr(), ni, null, user), "Jacobian positions, no place for the columns"),
                    (3, 6) => ((cb.jac)(n_, np, 0, m_, wrong(nj as c_int), o2.0.ptr(), o2.1.ptr(), null, user), "Jacobian positions, number of values"),
                    (3, _) => ((cb.jac)(n_, xp, 1, m_, nj as c_int, ni, ni, o.ptr(), nu), "Jacobian, no problem"),
                    (_, 0) => ((cb.h)(wrong(n_), xp, 1, 1., m_, lam.as_ptr(), 1, nh as c_int, ni, ni, o.ptr(), user), "Hessian, number of variables"),
                    (_, 1) => ((cb.h)(n_, xp, 1, 1., wrong(m_), lam.as_ptr(), 1, nh as c_int, ni, ni, o.ptr(), user), "Hessian, number of rows"),
                    (_, 2) => ((cb.h)(n_, xp, 1, 1., m_, lam.as_ptr(), 1, wrong(nh as c_int), ni, ni, o.ptr(), user), "Hessian, number of values"),
                    (_, 3) => ((cb.h)(n_, np, 1, 1., m_, lam.as_ptr(), 1, nh as c_int, ni, ni, o.ptr(), user), "Hessian, no point"),
                    (_, 4) if nf > 0 => ((cb.h)(n_, xp, 1, 1., m_, np, 1, nh as c_int, ni, ni, o.ptr(), user), "Hessian, no multipliers"),
                    (_, 5) => ((cb.h)(n_, np, 0, 1., m_, np, 0, nh as c_int, ni, o2.1.ptr(), null, user), "Hessian positions, no place for the rows"),
                    (_, 6) => ((cb.h)(n_, np, 0, 1., m_, np, 0, nh as c_int, o2.0.ptr(), ni, null, user), "Hessian positions, no place for the columns"),
                    (_, _) => ((cb.h)(n_, xp, 1, 1., m_, lam.as_ptr(), 1, nh as c_int, ni, ni, o.ptr(), nu), "Hessian, no problem"),
                };
                ensure!(r == 0, "malformed request {} ({}) is answered", step, what);
                o.untouched(what)?;
                o2.0.done(what)?;
                o2.1.done(what)?;
                // what was last seen is open now
                last = None;
                last_lam = None;
                labels.push("malformed request");
            }
        }
    }
    Ok(())
}

pub struct C22;
impl Prop for C22 {
    const ID: &'static str = "C22";
    type Case = AskCase;
    fn rule() -> &'static str {
        "random problems (linear and nonlinear, empty and duplicate patterns) solved with a stand-in libipopt that asks a random sequence of well-formed requests with truthful newness flags and malformed requests, with buffers pre-filled and guarded; non-trivial: rows of both kinds or a nonlinear row, at least three kinds of requests, and a request at a point flagged as seen"
    }
    fn assumptions() -> Vec<&'static str> { vec!["a point (multipliers) may be flagged as seen only if the last well-formed request that carried a point (multipliers) carried the same one, as Ipopt does"] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 600000 } else { 10000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<AskCase> {
        prob_case(vec![NLP, NLP, NLP, NLP, LP]).prop_flat_map(|prob| {
            let nx = prob.nx;
            let m = (prob.na() + prob.nf()).max(1);
            let any_ask = prop_oneof![
                3 => any::<u8>().prop_map(Ask::F), 3 => any::<u8>().prop_map(Ask::Grad), 3 => any::<u8>().prop_map(Ask::G), 3 => any::<u8>().prop_map(Ask::Jac),
                5 => (any::<u8>(), any::<u8>(), prop_oneof![2 => Just(1.), 1 => Just(0.), 2 => -3.0f64..3.]).prop_map(|(a, b, s)| Ask::H(a, b, s)),
                1 => Just(Ask::JacPos), 1 => Just(Ask::HPos),
                2 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Ask::Bad(a, b, c)),
            ];
            (Just(prob), prop::collection::vec(prop::collection::vec(-4.0f64..4., nx), 1..=3),
             prop::collection::vec(prop::collection::vec(prop_oneof![1 => Just(0.), 4 => -3.0f64..3.], m), 1..=3), crate::dict::list((any_ask, any::<u8>()).boxed(), 1, 14, 60))
        }).prop_map(|(prob, points, lambdas, asks)| AskCase { prob, points, lambdas, asks }).boxed()
    }
    fn check(c: &AskCase, ctx: &mut Ctx) -> Res {
        let mut prob = c.prob.build();
        LOG.with(|l| *l.borrow_mut() = Log::default());
        SCRIPT.with(|s| *s.borrow_mut() = Script { asks: Some((c.clone(), 0)), ..Script::default() });
        guard("solve", || solver().solve(&mut prob))?.map_err(|e| format!("solve fails: {}", e))?;
        let (r, labels) = LOG.with(|l| { let mut l = l.borrow_mut(); (l.result.take(), std::mem::take(&mut l.labels)) });
        r.ok_or("the stand-in was not run")??;
        for l in labels.iter() { ctx.label(l); }
        ctx.label(KINDS[c.prob.kind as usize]);
        let mut kinds = std::collections::HashSet::new();
        for (a, _) in c.asks.iter() { kinds.insert(std::mem::discriminant(a)); }
        ctx.label_if(c.prob.na() > 0 && c.prob.nf() > 0, "linear and nonlinear rows");
        if c.prob.nf() > 0 && kinds.len() >= 3 && labels.iter().any(|l| l.starts_with("Hessian at a seen")) { ctx.nontrivial(); }
        Ok(())
    }
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Set { Level(i32), Sb(String), WrongType(bool), Remove(bool) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Run {
    pub prob: ProbCase,
    pub set: Vec<Set>,
    /// 0 none, 1 create, 2 int option, 3 str option
    pub fault: u8,
    pub code: i32,
    pub vals: Vec<f64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PassCase { pub runs: Vec<Run> }

fn bits(x: f64) -> u64 { if x.is_nan() { 1 } else if x == 0. { 0 } else { x.to_bits() } }
fn same(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| bits(*x) == bits(*y)) }

pub struct C23;
impl Prop for C23 {
    const ID: &'static str = "C23";
    type Case = PassCase;
    fn rule() -> &'static str {
        "sequences of solves of random problems by one solver with random parameter settings, with a stand-in libipopt that records how it is used, returns made-up codes and vectors, and may refuse to create the problem or take an option; non-trivial: a problem with linear and nonlinear rows was solved with random vectors"
    }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 500000 } else { 8000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<PassCase> {
        let set = prop_oneof![
            5 => prop_oneof![2 => 0i32..13, 2 => any::<i32>(), 1 => crate::dict::number(1e9).prop_map(|x| x as i32)].prop_map(Set::Level),
            5 => prop_oneof![3 => prop::sample::select(vec!["yes", "no", "", "maybe", "a b", "é"]).prop_map(|s| s.to_string()), 1 => "[ -~]{0,9}", 1 => prop::sample::select({ let mut v = crate::dict::names(); v.push("x".into()); v }), 1 => "[a-c]{0,3}\\x00[a-c]{0,3}"].prop_map(Set::Sb),
            1 => any::<bool>().prop_map(Set::WrongType), 1 => any::<bool>().prop_map(Set::Remove),
        ];
        let val = prop_oneof![8 => number(), 1 => prop::sample::select(vec![INF_CODE, -INF_CODE, NAN_CODE])];
        let run = (prob_case(vec![NLP, NLP, NLP, LP]), prop::collection::vec(set, 0..3), prop_oneof![6 => Just(0u8), 1 => 1u8..4],
                   prop_oneof![3 => Just(0), 2 => Just(1), 2 => Just(2), 3 => 3i32..8, 3 => prop::sample::select(vec![-1, -2, -3, -4, -10, -11, -12, -13, -100, -101, -102, -199]), 1 => any::<i32>()],
                   prop::collection::vec(val, 30))
            .prop_map(|(prob, set, fault, code, vals)| Run { prob, set, fault, code, vals });
        crate::dict::list(run.boxed(), 1, 4, 12).prop_map(|runs| PassCase { runs }).boxed()
    }
    fn check(c: &PassCase, ctx: &mut Ctx) -> Res {
        let mut s = solver();
        let (mut level, mut sb): (Option<i32>, Option<String>) = (Some(5), Some("no".into()));
        for (k, r) in c.runs.iter().enumerate() {
            for x in r.set.iter() {
                match x {
                    Set::Level(v) => { if level.is_some() { s.set_param("print_level", SolverParam::IntParam(*v)).map_err(|e| format!("set_param fails: {}", e))?; level = Some(*v); } }
                    Set::Sb(v) => { if sb.is_some() { s.set_param("sb", SolverParam::StrParam(v.clone())).map_err(|e| format!("set_param fails: {}", e))?; sb = Some(v.clone()); } }
                    Set::WrongType(l) => {
                        let (name, v) = if *l { ("print_level", SolverParam::StrParam("5".into())) } else { ("sb", SolverParam::IntParam(1)) };
                        s.get_params_mut().insert(name.into(), v);
                        if *l { level = None } else { sb = None }
                    }
                    Set::Remove(l) => { s.get_params_mut().remove(if *l { "print_level" } else { "sb" }); if *l { level = None } else { sb = None } }
                }
            }
            let p = &r.prob;
            let (nx, na, nf) = (p.nx, p.na(), p.nf());
            let m = na + nf;
            let v: Vec<f64> = r.vals.iter().map(|x| decode(*x)).collect();
            let at = |i: usize| v[(i + i / v.len()) % v.len()];
            let x: Vec<f64> = (0..nx).map(|i| at(i)).collect();
            let lam: Vec<f64> = (0..m).map(|i| at(6 + i)).collect();
            let zl: Vec<f64> = (0..nx).map(|i| at(16 + i)).collect();
            let zu: Vec<f64> = (0..nx).map(|i| at(23 + i)).collect();
            LOG.with(|l| *l.borrow_mut() = Log::default());
            SCRIPT.with(|q| *q.borrow_mut() = Script { refuse_create: r.fault == 1, refuse_int: r.fault == 2, refuse_str: r.fault == 3, code: r.code, x: x.clone(), lam: lam.clone(), zl: zl.clone(), zu: zu.clone(), asks: None });
            let mut prob = p.build();
            let before = view(&prob);
            let res = guard("solve", || s.solve(&mut prob))?;
            ensure!(view(&prob) == before || format!("{:?}", view(&prob)) == format!("{:?}", before), "solve {} changes the problem", k);
            let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
            ensure!(log.errors.is_empty(), "solve {}: {}", k, log.errors.join("; "));
            for i in 0..log.created.len() { ensure!(log.freed.contains(&i), "solve {}: the problem created for Ipopt is not freed", k); }
            for l in log.labels.iter() { ctx.label(l); }
            let nul = sb.as_ref().map_or(false, |t| t.contains('\0'));
            let bad = level.is_none() || sb.is_none() || nul || r.fault != 0;
            match res {
                Err(_) => {
                    ensure!(bad, "solve {} fails: {}", k, "without reason");
                    ensure!(log.solves.is_empty(), "solve {}: Ipopt is run although solve fails", k);
                    ctx.label("refused");
                }
                Ok((st, sol)) => {
                    ensure!(!bad, "solve {} succeeds although {}", k, if r.fault == 1 { "the problem is not created" } else { "an option cannot be set" });
                    ensure!(log.created.len() == 1 && log.solves.len() == 1, "solve {}: {} problems are created and {} runs made", k, log.created.len(), log.solves.len());
                    let g = &log.created[0];
                    ensure!(g.n as usize == nx && g.m as usize == m && g.style == 0, "solve {}: created with {} variables, {} rows, index style {}", k, g.n, g.m, g.style);
                    ensure!(same(&g.l, &p.l()) && same(&g.u, &p.u()), "solve {}: the limits given to Ipopt are {:?} and {:?}, not {:?} and {:?}", k, g.l, g.u, p.l(), p.u());
                    ensure!(g.gl == vec![0.; m] && g.gu == vec![0.; m], "solve {}: the targets of the rows are {:?} and {:?}", k, g.gl, g.gu);
                    let last_int = log.ints.iter().rev().find(|o| o.1 == "print_level").map(|o| o.2);
                    let last_sb = log.strs.iter().rev().find(|o| o.1 == "sb").map(|o| o.2.clone());
                    ensure!(last_int == level, "solve {}: print_level given to Ipopt is {:?}, set is {:?}", k, last_int, level);
                    ensure!(last_sb == sb.as_ref().map(|t| t.clone().into_bytes()), "solve {}: sb given to Ipopt is {:?}, set is {:?}", k, last_sb, sb);
                    let want = p.x0.clone().unwrap_or(vec![0.; nx]);
                    ensure!(same(&log.solves[0].1, &want), "solve {}: the starting point is {:?}, not {:?}", k, log.solves[0].1, want);
                    let status = match r.code { 0 | 1 => SolverStatus::Solved, 2 => SolverStatus::Infeasible, _ => SolverStatus::Error };
                    ensure!(st == status, "solve {}: status is {} for code {}", k, st, r.code);
                    let neg = |v: &[f64]| -> Vec<f64> { v.iter().map(|x| -x).collect() };
                    ensure!(same(&sol.x, &x), "solve {}: x is {:?}, Ipopt returned {:?}", k, sol.x, x);
                    ensure!(same(&sol.lam, &neg(&lam[..na])), "solve {}: lam is {:?}, Ipopt returned {:?}", k, sol.lam, lam);
                    ensure!(same(&sol.nu, &neg(&lam[na..])), "solve {}: nu is {:?}, Ipopt returned {:?}", k, sol.nu, lam);
                    // Ipopt leaves the multipliers of fixed variables at zero: they follow from the others
                    let (l, u) = (p.l(), p.u());
                    let left = |i: usize| status == SolverStatus::Solved && l[i] == u[i] && zl[i] == 0. && zu[i] == 0.;
                    ensure!((0..nx).all(|i| left(i) || same(&sol.pi[i..=i], &zl[i..=i]) && same(&sol.mu[i..=i], &zu[i..=i])), "solve {}: pi and mu are {:?} and {:?}, Ipopt returned {:?} and {:?}", k, sol.pi, sol.mu, zl, zu);
                    for i in (0..nx).filter(|i| left(*i)) {
                        let v = p.vals(&x);
                        let mut t = vec![v.gphi[i]];
                        t.extend(p.a.iter().filter(|t| t.1 == i).map(|t| t.2 * lam[t.0]));
                        t.extend(v.j.iter().filter(|t| t.1 == i).map(|t| t.2 * lam[na + t.0]));
                        let (red, big): (f64, f64) = (t.iter().sum(), t.iter().map(|x| x.abs()).sum());
                        if !big.is_finite() { ctx.label("fixed variable, not finite"); continue; }
                        let (a, b) = (sol.pi[i], sol.mu[i]);
                        ensure!((a - red.max(0.)).abs() <= 1e-12 * big && (b - (-red).max(0.)).abs() <= 1e-12 * big, "solve {}: the multipliers of fixed variable {} are {:?} and {:?}, the others leave {:?}", k, i, a, b, red);
                        ctx.label("fixed variable");
                    }
                    ctx.label(&format!("{}", status));
                    if na > 0 && nf > 0 { ctx.nontrivial(); }
                }
            }
        }
        Ok(())
    }
}
