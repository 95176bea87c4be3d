//! C08-C11: models and their standard problems.

use std::collections::{HashMap, HashSet};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

use numopt::model::constraint::Constraint;
use numopt::model::model::Model;
use numopt::model::model_std::{ModelStd, ModelStdProb};

use crate::fw::{guard, Ctx, Prop, Res, Tier};
use crate::modelgen::{model_case, ModelCase, Opt, M};
use crate::stdp::{combine, dense, dense_abs, eval, view, View};
use crate::tape::{Limits, Mix};

/// Column of each model variable; the other columns are slacks.
fn columns(m: &M, sp: &ModelStdProb, v: &View) -> Result<(Vec<Option<usize>>, Vec<usize>), String> {
    let mut seen = vec![false; v.nx];
    for (_n, i) in sp.var2index.iter() {
        ensure!(*i < v.nx, "variable index {} in a problem with {} variables", i, v.nx);
        ensure!(!seen[*i], "two variables have index {}", i);
        seen[*i] = true;
    }
    let cols: Vec<Option<usize>> = m.vars.iter().map(|x| sp.var2index.get(x).cloned()).collect();
    let dep = m.depends();
    for (i, c) in cols.iter().enumerate() {
        ensure!(c.is_some() || dep >> i & 1 == 0, "variable {}#{} of the model is missing in the problem", m.prog.vars[i].name, i);
    }
    let used: HashSet<usize> = cols.iter().filter_map(|c| *c).collect();
    let slacks = (0..v.nx).filter(|i| !used.contains(i)).collect();
    Ok((cols, slacks))
}

fn point(m: &M, cols: &[Option<usize>], k: usize, nx: usize) -> Vec<f64> {
    let mut x = vec![0.; nx];
    for (i, c) in cols.iter().enumerate() { if let Some(c) = c { x[*c] = m.prog.points[k][i]; } }
    x
}

const FTOL: f64 = 3e-8;

/// Whether some slack values make the point feasible; None if not decided.
fn feasible(sp: &mut ModelStdProb, v: &View, xs: &[f64], slacks: &[usize], scale: f64) -> Option<bool> {
    let is_slack: HashSet<usize> = slacks.iter().cloned().collect();
    let mut x = xs.to_vec();
    let mut ok = true;
    for i in 0..v.nx {
        if !is_slack.contains(&i) {
            let t = FTOL * (1. + x[i].abs());
            if !(x[i] >= v.l[i] - t && x[i] <= v.u[i] + t) { ok = false; }
        }
    }
    let base = eval(&mut sp.prob, &x);
    let mut rows: Vec<(f64, f64, Vec<(usize, f64)>)> = Vec::new(); // residual, scale, slacks
    for r in 0..v.na { rows.push((-v.b[r], v.b[r].abs(), vec![])); }
    for (r, c, a) in v.a.iter() {
        if is_slack.contains(c) { rows[*r].2.push((*c, *a)); }
        else { rows[*r].0 += a * x[*c]; rows[*r].1 += (a * x[*c]).abs(); }
    }
    for r in 0..v.nf { rows.push((base.f[r], scale, vec![])); }
    for (r, c, a) in base.j.iter() { if is_slack.contains(c) { rows[v.na + *r].2.push((*c, *a)); } }
    let mut seen: HashMap<usize, usize> = HashMap::new();
    for (r, row) in rows.iter().enumerate() {
        for (c, _) in row.2.iter() { if *seen.entry(*c).or_insert(r) != r { return None; } }
    }
    let mut single = true;
    for (res, sc, sl) in rows.iter() {
        let tol = FTOL * (1. + sc);
        if !res.is_finite() { ok = false; continue; }
        let mut coef: HashMap<usize, f64> = HashMap::new();
        for (c, a) in sl { *coef.entry(*c).or_insert(0.) += a; }
        let (mut lo, mut hi) = (0., 0.);
        for (c, a) in coef.iter() {
            let (p, q) = (a * v.l[*c], a * v.u[*c]);
            if !(v.l[*c] <= v.u[*c]) { ok = false; }
            lo += p.min(q); hi += p.max(q);
        }
        if !(-res >= lo - tol && -res <= hi + tol) { ok = false; }
        if coef.len() > 1 { single = false; }
        for (c, a) in coef.iter() { if *a != 0. { x[*c] = -res / a; } }
    }
    // A slack of no row only needs bounds that allow a value
    for c in slacks { if !seen.contains_key(c) && !(v.l[*c] <= v.u[*c]) { ok = false; } }
    if ok && single && v.nf > 0 {
        let f = eval(&mut sp.prob, &x).f;
        if f.iter().any(|r| !(r.abs() <= 2. * FTOL * (1. + scale))) { ok = false; }
    }
    Some(ok)
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Sat { Yes, No, Unclear }

/// Whether constraint c holds at point k, if that is clear.
fn holds(m: &M, c: usize, k: usize) -> Sat {
    if !m.con_ok(c, k) { return Sat::Unclear; }
    let g = m.g(c, k).f;
    if g.e > 1e-11 * (1. + g.m) { return Sat::Unclear; }
    let r = match m.cons[c].kind { 0 => g.v.abs(), 1 => g.v, _ => -g.v };
    if r + 16. * g.e <= 1e-9 { Sat::Yes } else if r >= 1e-4 * (1. + g.m) { Sat::No } else { Sat::Unclear }
}

/// Limits by default and constraints for point k.
fn model_sat(m: &M, cons: &[usize], cols: &[Option<usize>], k: usize) -> (Sat, f64) {
    let mut sat = Sat::Yes;
    let mut scale: f64 = 0.;
    for c in cons {
        let s = holds(m, *c, k);
        if s == Sat::No { return (Sat::No, scale); }
        if s == Sat::Unclear { sat = Sat::Unclear; }
        scale = scale.max(m.g(*c, k).f.m);
    }
    for i in 0..m.n() {
        let x = m.prog.points[k][i];
        if x.abs() < 0.9e8 || cols[i].is_none() { continue; }
        let upper = x > 0.;
        let direct = |c: &usize| m.cons[*c].direct.map_or(false, |(v, u, _)| v == i && u == upper);
        let any_direct = |c: &usize| m.cons[*c].direct.map_or(false, |(v, _, _)| v == i);
        if cons.iter().any(direct) { continue; }
        if cons.iter().all(|c| any_direct(c) || m.con_used(*c) >> i & 1 == 0) {
            if x.abs() > 1e8 * (1. + 1e-6) { return (Sat::No, scale); }
            if x.abs() > 1e8 { sat = Sat::Unclear; }
        } else { sat = Sat::Unclear; }
    }
    (sat, scale)
}

fn equivalent(m: &M, cons: &[usize], model: &Model, what: &str, ctx: &mut Ctx) -> Res {
    let mut sp = guard("std_problem", || model.std_problem())?;
    let v = view(&sp.prob);
    let cols: Vec<Option<usize>> = m.vars.iter().map(|x| sp.var2index.get(x).cloned()).collect();
    let used: HashSet<usize> = cols.iter().filter_map(|c| *c).collect();
    let slacks: Vec<usize> = (0..v.nx).filter(|i| !used.contains(i)).collect();
    for k in 0..m.prog.points.len() {
        let (sat, scale) = model_sat(m, cons, &cols, k);
        if sat == Sat::Unclear { ctx.label("feasibility unclear"); continue; }
        let big = m.prog.points[k].iter().any(|x| x.abs() > 1e7);
        if scale > 1e7 && !(big && cons.iter().all(|c| m.cons[*c].direct.is_some())) { ctx.label("too large"); continue; }
        let xs = point(m, &cols, k, v.nx);
        let f = match feasible(&mut sp, &v, &xs, &slacks, scale) { Some(f) => f, None => { ctx.label("slack in several rows"); continue; } };
        let want = sat == Sat::Yes;
        ensure!(f == want, "point {} {} the constraints of {} but the standard problem has {}slack values for it",
                k, if want { "satisfies" } else { "violates" }, what, if f { "" } else { "no " });
        ctx.label(if want { "feasible point" } else { "infeasible point" });
        ctx.label_if(big, "point beyond the default range");
        if !cons.is_empty() && v.na + v.nf + v.nx > 0 { ctx.nontrivial(); }
    }
    Ok(())
}

fn model_strategy(len: usize, max_vars: usize, max_cons: usize, wide: bool, bounds: u32) -> BoxedStrategy<ModelCase> {
    let o = Opt { mix: Mix::General, len, max_vars, max_cons, wide, unique: false, ints: true, bounds };
    prop_oneof![
        1 => model_case(o),
        1 => model_case(Opt { mix: Mix::Linear, ..o }),
        1 => model_case(Opt { unique: true, ints: false, ..o }),
        1 => model_case(Opt { unique: true, mix: Mix::Linear, ints: false, ..o }),
    ].boxed()
}

pub struct C08;
const L8: Limits = Limits { size: 24, order: 1, raw: true };

impl Prop for C08 {
    const ID: &'static str = "C08";
    type Case = ModelCase;
    fn rule() -> &'static str {
        "random models (0-6 constraints written as bounds in several forms, rows, or pairs of expressions; any sense) and random points, checked as a whole and constraint by constraint; non-trivial: there is a constraint and a point clearly satisfying or clearly violating was compared with the standard problem"
    }
    fn assumptions() -> Vec<&'static str> { vec![
        "points within a margin of a constraint's boundary are not judged, except points exactly on it, which count as satisfying",
        "slack values are found row by row, which is complete as long as no slack variable is shared by two rows (otherwise the point is not judged)",
        "the standard objective is compared as the model's objective, negated when maximizing, up to an additive constant",
    ] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 360000 } else { 6000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<ModelCase> { model_strategy(8, 4, 6, true, 6) }
    fn describe(c: &ModelCase) -> Option<String> { c.text(&L8) }
    fn check(c: &ModelCase, ctx: &mut Ctx) -> Res {
        let m = c.resolve(&L8)?;
        let model = m.model();
        let all: Vec<usize> = (0..m.cons.len()).collect();
        equivalent(&m, &all, &model, "the model", ctx)?;
        let mut done = 0;
        for k in 0..m.cons.len() {
            if m.cons[k].dup_of.is_some() || done >= 3 || m.cons.len() == 1 { continue; }
            done += 1;
            let mut one = Model::new();
            one.add_constraint(&m.constraints[k]);
            equivalent(&m, &[k], &one, &format!("constraint {}", k), ctx)?;
        }
        // Objective, integers, initial point
        let mut sp = guard("std_problem", || model.std_problem())?;
        let v = view(&sp.prob);
        ctx.label(v.kind);
        let (cols, slacks) = columns(&m, &sp, &v)?;
        let mut first: Option<(usize, f64)> = None;
        for k in 0..c.points.len() {
            if !m.obj_ok(k) { continue; }
            let mut x = point(&m, &cols, k, v.nx);
            for (i, s) in slacks.iter().enumerate() { x[*s] = c.slack[(i + k) % c.slack.len()]; }
            let phi = guard("evaluating", || eval(&mut sp.prob, &x).phi)?;
            match first {
                None => first = Some((k, phi)),
                Some((k0, phi0)) => {
                    let (a, b) = (m.min_obj(k).f, m.min_obj(k0).f);
                    let tol = a.tol() + b.tol() + 1e-11 * (a.m + b.m);
                    let d = (phi - phi0) - (a.v - b.v);
                    ensure!(d.abs() <= tol, "standard objective changes by {:?} from point {} to {}, the model's (to be minimized) by {:?}", phi - phi0, k0, k, a.v - b.v);
                    ctx.label("objective compared");
                }
            }
        }
        for (i, col) in cols.iter().enumerate() {
            if let Some(col) = col {
                ensure!(v.p[*col] == m.prog.vars[i].int, "variable {}#{} is {}an integer in the model, {}in the problem", m.prog.vars[i].name, i,
                        if m.prog.vars[i].int { "" } else { "not " }, if v.p[*col] { "" } else { "not " });
                let x0 = v.x0.as_ref().map_or(0., |x| x[*col]);
                let want = m.init[i].unwrap_or(0.);
                ensure!(x0 == want, "initial value of {}#{} is {:?}, expected {:?}", m.prog.vars[i].name, i, x0, want);
            }
        }
        for s in slacks.iter() { ensure!(!v.p[*s], "slack variable is an integer"); }
        Ok(())
    }
}

// ---------------------------------------------------------------- C09

pub struct C09;
const L9: Limits = Limits { size: 14, order: 2, raw: true };

fn find(m: &M, c: &Constraint) -> Option<usize> { m.constraints.iter().position(|x| x == c) }

impl Prop for C09 {
    const ID: &'static str = "C09";
    type Case = ModelCase;
    fn rule() -> &'static str {
        "random models with random points, slack values and multipliers; non-trivial: the problem is nonlinear and a clearly nonzero second derivative was compared"
    }
    fn assumptions() -> Vec<&'static str> { vec![
        "rows are matched with constraints through the maps of the standard problem (checked by C11); their values are lhs - rhs plus slack terms",
        "rounding is judged by a running error bound; points where something is not finite or ill-conditioned are skipped",
    ] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 360000 } else { 6000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<ModelCase> {
        let o = Opt { mix: Mix::General, len: 9, max_vars: 4, max_cons: 4, wide: false, unique: false, ints: true, bounds: 1 };
        prop_oneof![3 => model_case(o), 1 => model_case(Opt { unique: true, ..o }), 1 => model_case(Opt { mix: Mix::Linear, ..o })].boxed()
    }
    fn describe(c: &ModelCase) -> Option<String> { c.text(&L9) }
    fn check(c: &ModelCase, ctx: &mut Ctx) -> Res {
        let m = c.resolve(&L9)?;
        let model = m.model();
        let mut sp = guard("std_problem", || model.std_problem())?;
        let v = view(&sp.prob);
        ctx.label(v.kind);
        let (cols, slacks) = columns(&m, &sp, &v)?;
        let n = m.n();
        let aof: HashMap<usize, Option<usize>> = sp.aindex2constr.iter().map(|(r, c)| (*r, find(&m, c))).collect();
        let jof: HashMap<usize, Option<usize>> = sp.jindex2constr.iter().map(|(r, c)| (*r, find(&m, c))).collect();
        let da = dense(&v.a, v.na, v.nx);
        for k in 0..c.points.len() {
            let mut x = point(&m, &cols, k, v.nx);
            for (i, s) in slacks.iter().enumerate() { x[*s] = c.slack[(i + k) % c.slack.len()]; }
            let e = guard("evaluating", || eval(&mut sp.prob, &x))?;
            ensure!(e.gphi.len() == v.nx && e.f.len() == v.nf && (v.nf == 0 || e.h.len() == v.nf), "sizes of gradient, constraints or Hessians are wrong");
            // Objective
            if m.obj_ok(k) {
                let r = m.min_obj(k);
                for i in 0..n {
                    let got = cols[i].map_or(0., |c| e.gphi[c]);
                    ensure!(r.g[i].near(got), "objective gradient by {}#{} is {:?}, expected {:?} +- {:e} at point {}", m.prog.vars[i].name, i, got, r.g[i].v, r.g[i].tol(), k);
                }
                for s in slacks.iter() { ensure!(e.gphi[*s] == 0., "objective gradient by a slack variable is {:?}", e.gphi[*s]); }
                hess(&m, &cols, &e.hphi, |i, j| r.hess(i, j), "objective Hessian", k, v.nx, ctx)?;
            }
            // Linear rows
            for r in 0..v.na {
                let ci = match aof.get(&r) { Some(Some(ci)) => *ci, _ => { ctx.label("row without constraint"); continue; } };
                if !m.con_ok(ci, k) { continue; }
                let g = m.g(ci, k);
                let mut val = -v.b[r];
                let mut mag = v.b[r].abs();
                for i in 0..n {
                    let got = cols[i].map_or(0., |c| da[r][c]);
                    ensure!(g.g[i].near(got), "linear row {}: coefficient of {}#{} is {:?}, expected {:?} +- {:e}", r, m.prog.vars[i].name, i, got, g.g[i].v, g.g[i].tol());
                    let t = got * m.prog.points[k][i];
                    val += t; mag += t.abs() + g.g[i].tol() * m.prog.points[k][i].abs() * 1e13;
                }
                ensure!((val - g.f.v).abs() <= g.f.tol() + 1e-13 * mag, "linear row {} is {:?} at point {} (without slack), expected {:?}", r, val, k, g.f.v);
                ctx.label("linear row compared");
            }
            // Nonlinear rows
            let dj = dense(&e.j, v.nf, v.nx);
            let dja = dense_abs(&e.j, v.nf, v.nx);
            for r in 0..v.nf {
                let ci = match jof.get(&r) { Some(Some(ci)) => *ci, _ => { ctx.label("row without constraint"); continue; } };
                if !m.con_ok(ci, k) { continue; }
                let g = m.g(ci, k);
                let mut want = g.f.v;
                let mut tol = g.f.tol();
                for s in slacks.iter() { want += dj[r][*s] * x[*s]; tol += 1e-13 * (dja[r][*s] * x[*s]).abs(); }
                tol += 1e-14 * want.abs();
                ensure!((e.f[r] - want).abs() <= tol, "constraint row {} is {:?} at point {}, expected {:?} +- {:e}", r, e.f[r], k, want, tol);
                for i in 0..n {
                    let got = cols[i].map_or(0., |c| dj[r][c]);
                    ensure!(g.g[i].near(got), "Jacobian row {} by {}#{} is {:?}, expected {:?} +- {:e} at point {}", r, m.prog.vars[i].name, i, got, g.g[i].v, g.g[i].tol(), k);
                }
                hess(&m, &cols, &e.h[r], |i, j| g.hess(i, j), "constraint Hessian", k, v.nx, ctx)?;
                ctx.label("nonlinear row compared");
            }
            // Combined Hessian
            if v.nf > 0 {
                let nu: Vec<f64> = (0..v.nf).map(|r| c.slack[(r + 1 + k) % c.slack.len()] * if r % 3 == 2 { 0. } else { 1. }).collect();
                let t = guard("combine_h", || combine(&mut sp.prob, &nu))?;
                for (i, j, _) in t.iter() { ensure!(i >= j && *i < v.nx, "combined Hessian entry at ({}, {})", i, j); }
                let got = dense(&t, v.nx, v.nx);
                let mut want = vec![vec![0.; v.nx]; v.nx];
                let mut mag = vec![vec![0.; v.nx]; v.nx];
                for r in 0..v.nf { for (i, j, x) in e.h[r].iter() { want[*i][*j] += nu[r] * x; mag[*i][*j] += (nu[r] * x).abs(); } }
                for i in 0..v.nx { for j in 0..=i {
                    let (a, b) = (got[i][j], want[i][j]);
                    ensure!(!b.is_finite() || (a - b).abs() <= 1e-13 * mag[i][j], "combined Hessian at ({}, {}) is {:?}, expected {:?}", i, j, a, b);
                } }
                ctx.label("combined Hessian compared");
            }
        }
        Ok(())
    }
}

fn hess(m: &M, cols: &[Option<usize>], t: &crate::stdp::Trip, want: impl Fn(usize, usize) -> crate::ev::Ev, what: &str, k: usize, nx: usize, ctx: &mut Ctx) -> Res {
    for (i, j, _) in t.iter() { ensure!(i >= j && *i < nx, "{}: entry at ({}, {})", what, i, j); }
    let d = dense(t, nx, nx);
    let mut rest: f64 = 0.;
    let of: HashMap<usize, usize> = cols.iter().enumerate().filter_map(|(i, c)| c.map(|c| (c, i))).collect();
    for i in 0..nx { for j in 0..=i { if !of.contains_key(&i) || !of.contains_key(&j) { rest = rest.max(d[i][j].abs()); } } }
    ensure!(rest == 0., "{}: entry {:?} for a slack variable", what, rest);
    for i in 0..m.n() { for j in 0..=i {
        let got = match (cols[i], cols[j]) { (Some(a), Some(b)) => d[a.max(b)][a.min(b)], _ => 0. };
        let w = want(i, j);
        ensure!(w.near(got), "{} by {}#{} and {}#{} is {:?}, expected {:?} +- {:e} at point {}", what, m.prog.vars[i].name, i, m.prog.vars[j].name, j, got, w.v, w.tol(), k);
        if w.nonzero() { ctx.label("nonzero second derivative compared"); ctx.nontrivial(); }
    } }
    Ok(())
}

// ---------------------------------------------------------------- C10

pub struct C10;
const L10: Limits = Limits { size: 24, order: 2, raw: true };

impl Prop for C10 {
    const ID: &'static str = "C10";
    type Case = ModelCase;
    fn rule() -> &'static str {
        "random models, half of them linear by construction; non-trivial: the class follows from construction or from a clearly nonzero second derivative, and so does whether an integer variable is involved"
    }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 500000 } else { 8000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<ModelCase> {
        let o = Opt { mix: Mix::General, len: 7, max_vars: 4, max_cons: 5, wide: false, unique: false, ints: true, bounds: 3 };
        prop_oneof![
            2 => model_case(o),
            2 => model_case(Opt { mix: Mix::Linear, ..o }),
            1 => model_case(Opt { mix: Mix::Linear, ints: false, ..o }),
            1 => model_case(Opt { ints: false, ..o }),
        ].boxed()
    }
    fn describe(c: &ModelCase) -> Option<String> { c.text(&L10) }
    fn check(c: &ModelCase, ctx: &mut Ctx) -> Res {
        let m = c.resolve(&L10)?;
        let model = m.model();
        let sp = guard("std_problem", || model.std_problem())?;
        let kind = view(&sp.prob).kind;
        let linear_kind = kind == "lp" || kind == "milp";
        let int_kind = kind == "milp" || kind == "minlp";
        ctx.label(kind);
        let np = c.points.len();
        let ok0 = (0..np).any(|k| m.obj_ok(k) && (0..m.cons.len()).all(|c| m.con_ok(c, k)));
        let lin = m.obj_lin() && (0..m.cons.len()).all(|c| m.con_lin(c));
        let curved = |h: &crate::ev::Hd| h.h.iter().any(|x| x.nonzero());
        let nonlin_obj = m.sense < 2 && (0..np).any(|k| m.obj_ok(k) && curved(&m.min_obj(k)));
        let nonlin_con = (0..m.cons.len()).filter(|c| (0..np).any(|k| m.con_ok(*c, k) && curved(&m.g(*c, k)))).count();
        let mut known_class = false;
        if lin && ok0 {
            ensure!(linear_kind, "built from linear operations but the problem is {}", kind);
            ctx.label("linear by construction");
            known_class = true;
        }
        if nonlin_obj || nonlin_con > 0 {
            ensure!(!linear_kind, "has {} but the problem is {}", if nonlin_obj { "a nonlinear objective" } else { "a nonlinear constraint" }, kind);
            ctx.label_if(nonlin_obj && nonlin_con == 0, "only the objective is nonlinear");
            ctx.label_if(!nonlin_obj && nonlin_con == 1, "a single nonlinear constraint");
            known_class = true;
        }
        let ints: u128 = (0..m.n()).filter(|i| m.prog.vars[*i].int).map(|i| 1 << i).sum();
        let used = m.obj_used() | (0..m.cons.len()).fold(0, |u, c| u | m.con_used(c));
        let dep = m.depends();
        let mut known_int = false;
        if dep & ints != 0 {
            ensure!(int_kind, "involves an integer variable but the problem is {}", kind);
            ctx.label_if((dep & ints).count_ones() == 1, "a single integer variable");
            known_int = true;
        } else if used & ints == 0 {
            ensure!(!int_kind, "involves no integer variable but the problem is {}", kind);
            known_int = true;
        }
        if known_class && known_int && !m.cons.is_empty() { ctx.nontrivial(); }
        Ok(())
    }
}

// ---------------------------------------------------------------- C11

pub struct C11;
const L11: Limits = Limits { size: 20, order: 1, raw: true };

/// (variable, is upper, value, error) if constraint c, seen at point k, is an
/// inequality in a single variable with constant coefficient.
fn as_bound(m: &M, c: usize, k: usize) -> Option<(usize, bool, f64, f64)> {
    if m.cons[c].kind == 0 || !m.con_ok(c, k) { return None; }
    let g = m.g(c, k);
    let nz: Vec<usize> = (0..m.n()).filter(|i| g.g[*i].nonzero()).collect();
    if nz.len() != 1 { return None; }
    let i = nz[0];
    let a = g.g[i].v;
    let x = m.prog.points[k][i];
    let val = x - g.f.v / a;
    let tol = 1e-11 * (1. + x.abs() + g.f.m / a.abs()) + g.f.tol() / a.abs() + 1e-11 * val.abs();
    let upper = (m.cons[c].kind == 1) == (a > 0.);
    Some((i, upper, val, tol))
}

impl Prop for C11 {
    const ID: &'static str = "C11";
    type Case = ModelCase;
    fn rule() -> &'static str {
        "random models rich in bounds on the same variables, ties and repeated constraints; non-trivial: at least two constraints, one of them attached to a row and one to a limit of a model variable, were compared with their positions"
    }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 500000 } else { 8000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<ModelCase> { model_strategy(5, 3, 9, true, 14) }
    fn describe(c: &ModelCase) -> Option<String> { c.text(&L11) }
    fn check(c: &ModelCase, ctx: &mut Ctx) -> Res {
        let m = c.resolve(&L11)?;
        let model = m.model();
        let mut sp = guard("std_problem", || model.std_problem())?;
        let v = view(&sp.prob);
        let (cols, _slacks) = columns(&m, &sp, &v)?;
        let of: HashMap<usize, usize> = cols.iter().enumerate().filter_map(|(i, c)| c.map(|c| (c, i))).collect();
        let da = dense(&v.a, v.na, v.nx);
        let mut attached = vec![false; m.cons.len()];
        let (mut rows, mut limits) = (0, 0);
        let np = c.points.len();
        let evals: Vec<_> = (0..np).map(|k| { let x = point(&m, &cols, k, v.nx); guard("evaluating", || eval(&mut sp.prob, &x)) }).collect::<Result<_, _>>()?;
        let same = |ci: usize| -> Vec<usize> { let c = &m.constraints[ci]; (0..m.cons.len()).filter(|k| &m.constraints[*k] == c).collect() };
        // Rows; remembers which constraint each row's slack belongs to
        let mut slack_of: HashMap<usize, Vec<usize>> = HashMap::new();
        for (lin, map) in [(true, &sp.aindex2constr), (false, &sp.jindex2constr)] {
            for (r, con) in map.iter() {
                let n = if lin { v.na } else { v.nf };
                ensure!(*r < n, "{} row {} of {}", if lin { "linear" } else { "nonlinear" }, r, n);
                let ci = find(&m, con).ok_or("a row is attached to a constraint that is not the model's")?;
                for s in same(ci) { attached[s] = true; }
                for k in 0..np {
                    if !m.con_ok(ci, k) { continue; }
                    let g = m.g(ci, k);
                    if lin {
                        let mut val = -v.b[*r];
                        let mut mag = val.abs();
                        for (i, c) in cols.iter().enumerate() { if let Some(c) = c {
                            let t = da[*r][*c] * m.prog.points[k][i];
                            val += t;
                            mag += t.abs() + 1e13 * g.g[i].tol() * m.prog.points[k][i].abs();
                        } }
                        ensure!((val - g.f.v).abs() <= g.f.tol() + 1e-13 * mag, "linear row {} is {:?} at point {}, its constraint {} is {:?}", r, val, k, ci, g.f.v);
                    } else {
                        let val = evals[k].f[*r];
                        ensure!(g.f.near(val), "nonlinear row {} is {:?} at point {}, its constraint {} is {:?}", r, val, k, ci, g.f.v);
                    }
                    rows += 1;
                }
                let entries: Vec<(usize, f64)> = if lin { v.a.iter().filter(|t| t.0 == *r).map(|t| (t.1, t.2)).collect() }
                    else if np > 0 { evals[0].j.iter().filter(|t| t.0 == *r).map(|t| (t.1, t.2)).collect() } else { vec![] };
                let mut limited = false;
                for (col, a) in entries {
                    if of.contains_key(&col) { continue; }
                    slack_of.entry(col).or_default().push(ci);
                    // lhs - rhs + a*s = 0
                    let upper = (m.cons[ci].kind == 1) == (a < 0.);
                    let at = if upper { sp.uindex2constr.get(&col) } else { sp.lindex2constr.get(&col) };
                    if at == Some(con) { limited = true; }
                }
                if m.cons[ci].kind != 0 {
                    ensure!(limited, "inequality {} has row {} but no slack limit there is attached to it", ci, r);
                    ctx.label("inequality with row and slack limit");
                } else { ctx.label("equality with row"); }
            }
        }
        for (upper, map) in [(true, &sp.uindex2constr), (false, &sp.lindex2constr)] {
            let side = if upper { "upper" } else { "lower" };
            for (i, con) in map.iter() {
                ensure!(*i < v.nx, "{} limit {} of {}", side, i, v.nx);
                let ci = find(&m, con).ok_or("a limit is attached to a constraint that is not the model's")?;
                for s in same(ci) { attached[s] = true; }
                match of.get(i) {
                    None => ensure!(slack_of.get(i).map_or(false, |x| x.contains(&ci)), "{} limit of slack {} is attached to constraint {}, whose row does not have it", side, i, ci),
                    Some(mv) => {
                        let lim = if upper { v.u[*i] } else { v.l[*i] };
                        ensure!(m.cons[ci].kind != 0, "{} limit attached to an equality", side);
                        if let Some((dv, du, dc)) = m.cons[ci].direct {
                            ensure!(dv == *mv && du == upper, "{} limit of {}#{} is attached to a bound of another kind", side, m.prog.vars[*mv].name, mv);
                            ensure!(lim == dc, "{} limit of {}#{} is {:?}, its constraint says {:?}", side, m.prog.vars[*mv].name, mv, lim, dc);
                            limits += 1;
                        } else {
                            for k in 0..np {
                                if !m.con_ok(ci, k) { continue; }
                                match as_bound(&m, ci, k) {
                                    Some((bi, bu, val, tol)) => {
                                        ensure!(bi == *mv && bu == upper && (val - lim).abs() <= tol, "{} limit of {}#{} is {:?}, its constraint {} imposes {} {:?} on {}", side, m.prog.vars[*mv].name, mv, lim, ci, if bu { "<=" } else { ">=" }, val, bi);
                                        limits += 1;
                                    }
                                    None => {
                                        let g = m.g(ci, k);
                                        let many = (0..m.n()).filter(|i| g.g[*i].nonzero()).count();
                                        ensure!(many <= 1, "{} limit of {}#{} is attached to constraint {} in several variables", side, m.prog.vars[*mv].name, mv, ci);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        // The rest is implied by a tighter bound
        for ci in 0..m.cons.len() {
            let direct = m.cons[ci].direct;
            let bound = match direct {
                Some((i, u, x)) => Some((i, u, x, 0.)),
                None => if m.con_lin(ci) || !attached[ci] { (0..np).find_map(|k| as_bound(&m, ci, k)) } else { None },
            };
            if let (Some((i, u, x, tol)), true) = (bound, direct.is_some() || !attached[ci]) {
                if let Some(col) = cols[i] {
                    let lim = if u { v.u[col] } else { v.l[col] };
                    ensure!(if u { lim <= x + tol } else { lim >= x - tol }, "limit of {}#{} is {:?}, looser than constraint {} ({:?})", m.prog.vars[i].name, i, lim, ci, x);
                    if !attached[ci] {
                        let at = if u { sp.uindex2constr.get(&col) } else { sp.lindex2constr.get(&col) };
                        ensure!(at.is_some(), "constraint {} bounds {}#{} but is attached to nothing, nor is any other bound", ci, m.prog.vars[i].name, i);
                        ctx.label("implied bound");
                        if (lim - x).abs() <= tol { ctx.label("tie"); }
                    }
                } else { ensure!(attached[ci] || !attached[ci] && !m.depends() >> i & 1 == 1, "constraint {} bounds a variable that is not in the problem", ci); }
            } else if !attached[ci] && (0..np).any(|k| m.con_ok(ci, k)) {
                return Err(format!("constraint {} is attached to nothing", ci));
            }
        }
        ctx.label_n("row compared", rows);
        ctx.label_n("limit compared", limits);
        if m.cons.len() >= 2 && rows > 0 && limits > 0 { ctx.nontrivial(); }
        Ok(())
    }
}
