//! C01-C05: expressions.

use std::collections::{HashMap, HashSet};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use numopt::model::constraint::{Constraint, ConstraintKind};
use numopt::model::model::{Model, Objective};
use numopt::model::node::Node;
use numopt::model::node_base::NodeBase;
use numopt::model::node_diff::NodeDiff;
use numopt::model::node_std::NodeStd;
use numopt::model::variable::VariableScalar;

use crate::fw::{guard, Ctx, Prop, Res, Tier};
use crate::tape::{self, values, Limits, Mix, Prog, Tape, R};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExprCase {
    pub tape: Tape,
    pub points: Vec<Vec<f64>>,
    pub sel: u16,
    pub mask: u16,
    pub extra: f64,
}

/// Expression programs with points for all of their variables.
pub fn expr_case(max_vars: usize, len: usize, raw: bool, unique: bool, linear_weight: u32, deep: usize) -> BoxedStrategy<ExprCase> {
    let v = move || prop_oneof![
        1 => tape::vars(0, 1, unique, true),
        8 => tape::vars(1, max_vars, unique, true),
    ].boxed();
    let t = prop_oneof![
        3 => tape::tape(v(), 1..=6, Mix::General, raw),
        4 => tape::tape(v(), 4..=len, Mix::General, raw),
        linear_weight => tape::tape(v(), 1..=len, Mix::Linear, raw),
    ];
    let t = prop_oneof![
        180 => t,
        3 => tape::chain(v(), deep / 3..=deep, Mix::General),
        3 => tape::chain(v(), deep / 3..=deep, Mix::Linear),
        1 => tape::broad(7..=40, unique, 5..=40, Mix::General),
        linear_weight => tape::broad(7..=40, unique, 5..=40, Mix::Linear),
    ].boxed();
    let t = match crate::dict::sizes(7, (2 * deep).min(120)) {
        None => t,
        Some(n) => prop_oneof![
            (if deep <= 30 { 900 } else { 250 }) => t,
            1 => (n, 0u8..4).prop_flat_map(move |(n, how)| match how {
                0 => tape::chain(tape::vars(1, 4, unique, true), n..=n + 4, Mix::General),
                1 => tape::chain(tape::vars(1, 4, unique, true), n..=n + 4, Mix::Linear),
                2 => tape::broad(n..=n + 3, unique, n..=2 * n, Mix::General),
                _ => tape::broad(n..=n + 3, unique, n..=2 * n, Mix::Linear),
            }),
        ].boxed(),
    };
    t.prop_flat_map(|t| {
        let n = t.vars.len();
        (Just(t), prop::collection::vec(tape::point(n), 1..=3), any::<u16>(), any::<u16>(), tape::var_value())
    }).prop_map(|(tape, points, sel, mask, extra)| ExprCase { tape, points, sel, mask, extra }).boxed()
}

pub fn labels(p: &Prog, slot: usize, ctx: &mut Ctx) {
    let mut need = vec![false; p.slots.len()];
    need[slot] = true;
    let mut uses = vec![0; p.slots.len()];
    for i in (0..=slot).rev() {
        if need[i] { for a in p.slots[i].r.args() { need[a] = true; uses[a] += 1; } }
    }
    let s = &p.slots;
    ctx.label_if((p.n()..s.len()).any(|i| need[i] && uses[i] > 1), "shared sub-expression");
    ctx.label_if((0..s.len()).any(|i| need[i] && { let a = s[i].r.args(); a.len() == 2 && a[0] == a[1] }), "repeated argument");
    ctx.label_if((0..s.len()).any(|i| need[i] && matches!(s[i].r, R::RawAdd(_) | R::RawMul(..) | R::RawDiv(..) | R::RawSin(_) | R::RawCos(_))), "raw constructor");
    ctx.label_if((0..s.len()).any(|i| need[i] && matches!(s[i].r, R::Bin(tape::B::Div, ..) | R::Sl(tape::B::Div, ..) | R::RawDiv(..))), "division");
    ctx.label_if((0..p.n()).any(|i| (0..i).any(|j| need[i] && need[j] && p.vars[i].name == p.vars[j].name)), "two variables with one name");
    ctx.label_if(s[slot].varfree, "no variable");
    ctx.label_if(s[slot].lin, "linear");
    ctx.label_if(s[slot].size >= 20, "large (20+ leaves)");
    ctx.label_if(s[slot].size >= 50, "very large (50+ leaves)");
}

fn ops(p: &Prog, slot: usize) -> usize {
    let mut need = vec![false; p.slots.len()];
    need[slot] = true;
    let mut k = 0;
    for i in (0..=slot).rev() {
        if need[i] { let a = p.slots[i].r.args(); if !a.is_empty() { k += 1; } for a in a { need[a] = true; } }
    }
    k
}

/// Is the variable in the expression?
pub fn reaches(node: &Node, var: &Node) -> bool {
    let mut seen: HashSet<*const Node> = HashSet::new();
    let mut todo = vec![node];
    while let Some(n) = todo.pop() {
        if n == var { return true; }
        for a in n.arguments() { if seen.insert(a as *const Node) { todo.push(a); } }
    }
    false
}

pub fn outs(p: &Prog, sel: u16) -> Vec<usize> {
    let mut o = vec![p.last()];
    let s = p.sel(sel);
    if s != p.last() { o.push(s); }
    o
}

pub fn describe(c: &ExprCase, lim: &Limits) -> Option<String> {
    let p = c.tape.resolve(&c.points, lim);
    let o = outs(&p, c.sel);
    let mut s = o.iter().map(|k| p.text(*k)).collect::<Vec<_>>().join("  ;  ");
    if s.len() > 1500 { s.truncate(1500); s.push_str("..."); }
    Some(format!("{}  at {:?}", s, c.points))
}

// ---------------------------------------------------------------- C01

pub struct C01;
const L1: Limits = Limits { size: 80, order: 1, raw: true };

impl Prop for C01 {
    const ID: &'static str = "C01";
    type Case = ExprCase;
    fn rule() -> &'static str {
        "random expression programs (all operators, operand forms, functions and raw constructors) at random points; non-trivial: at least 3 operations and at least one point where the value is finite, well-conditioned and was compared"
    }
    fn assumptions() -> Vec<&'static str> { vec![
        "rounding is judged by a running error bound that allows reassociation, distribution and constant folding",
        "points where some intermediate value is not finite or divides by (almost) zero are not compared",
    ] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 1200000 } else { 24000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<ExprCase> {
        // Large values only here: derivatives may well overflow on the way to a small result
        let large = prop_oneof![60 => Just(vec![]), 1 => prop::collection::vec(prop_oneof![1 => tape::var_value(), 2 => (-10.0f64..10.0, 4i32..16).prop_map(|(m, e)| m * 10f64.powi(e))], 1..6)];
        (expr_case(4, 24, true, false, 2, 150), large).prop_map(|(mut c, large)| {
            if !large.is_empty() { if let Some(p) = c.points.first_mut() { for (i, x) in p.iter_mut().enumerate() { *x = large[i % large.len()]; } } }
            c
        }).boxed()
    }
    fn describe(c: &ExprCase) -> Option<String> { describe(c, &L1) }
    fn check(c: &ExprCase, ctx: &mut Ctx) -> Res {
        let p = c.tape.resolve(&c.points, &L1);
        let vars = p.make_vars();
        let outs = outs(&p, c.sel);
        let nodes = guard("building", || p.build(&vars, &outs))?;
        for slot in outs.iter() {
            let s = &p.slots[*slot];
            let node = &nodes[slot];
            labels(&p, *slot, ctx);
            for (k, x) in c.points.iter().enumerate() {
                if !p.ok_at(*slot, k) { ctx.label("point skipped"); continue; }
                let ev = s.val[k].f;
                let vals = values(&vars, x);
                let v = guard("evaluating", || node.evaluate(&vals))?;
                ensure!(ev.near(v), "value is {:?}, expected {:?} +- {:e} at point {}", v, ev.v, ev.tol(), k);
                if ev.sharp() && ops(&p, *slot) >= 3 { ctx.nontrivial(); }
                ctx.label("point compared");
                // Values for other variables are ignored
                let other: Vec<Node> = p.vars.iter().map(|v| VariableScalar::new_continuous(&v.name)).collect();
                let mut vals2 = vals.clone();
                for o in other.iter() { vals2.insert(o, c.extra); }
                let w = guard("evaluating", || node.evaluate(&vals2))?;
                ensure!(w.to_bits() == v.to_bits() || ev.near(w), "value changes from {:?} to {:?} when other variables get values", v, w);
                // Variables without a value
                if p.n() > 0 {
                    let m = c.mask as usize % p.n();
                    let mut vals3 = values(&vars, x);
                    vals3.remove(&vars[m]);
                    if c.mask & 1 == 1 { vals3.insert(&other[m], x[m]); }
                    let w = guard("evaluating", || node.evaluate(&vals3))?;
                    if s.used >> m & 1 == 0 {
                        ensure!(ev.near(w), "value is {:?}, expected {:?} without a value for a variable not involved", w, ev.v);
                    } else if s.val[k].g[m].nonzero() {
                        ctx.label("missing variable");
                        ensure!(w.is_nan(), "value is {:?} without a value for {}#{}", w, p.vars[m].name, m);
                    }
                    if reaches(node, &vars[m]) {
                        ctx.label("missing variable somewhere in the expression");
                        ensure!(w.is_nan(), "value is {:?} without a value for {}#{}", w, p.vars[m].name, m);
                        // also where the other variables have special values
                        for y in [0., 1., 2., c.extra] {
                            for (i, v) in vars.iter().enumerate() { if i != m { vals3.insert(v, if c.sel >> (i % 16) & 1 == 1 { x[i] } else { y }); } }
                            let w = guard("evaluating", || node.evaluate(&vals3))?;
                            ensure!(w.is_nan(), "value is {:?} without a value for {}#{}", w, p.vars[m].name, m);
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C02

pub struct C02;
const L2: Limits = Limits { size: 40, order: 1, raw: true };

impl Prop for C02 {
    const ID: &'static str = "C02";
    type Case = ExprCase;
    fn rule() -> &'static str {
        "random expression programs, variable subsets and points; non-trivial: the expression is not linear and at some point a derivative that is finite, well-conditioned and clearly not zero was compared"
    }
    fn assumptions() -> Vec<&'static str> { C01::assumptions() }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 600000 } else { 12000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<ExprCase> { expr_case(4, 16, true, false, 1, 90) }
    fn describe(c: &ExprCase) -> Option<String> { describe(c, &L2) }
    fn check(c: &ExprCase, ctx: &mut Ctx) -> Res {
        let p = c.tape.resolve(&c.points, &L2);
        let vars = p.make_vars();
        let outs = outs(&p, c.sel);
        let nodes = guard("building", || p.build(&vars, &outs))?;
        for slot in outs.iter() {
            let s = &p.slots[*slot];
            let node = &nodes[slot];
            labels(&p, *slot, ctx);
            let alien = VariableScalar::new_continuous(p.vars.first().map_or("x", |v| v.name.as_str()));
            let mut req: Vec<&Node> = Vec::new();
            for i in 0..p.n() { if c.mask >> (i % 16) & 1 == 1 { req.push(&vars[i]); } }
            if c.mask >> 8 & 1 == 1 { req.insert(0, &alien); }
            if c.mask >> 9 & 1 == 1 && !req.is_empty() { let r = req[0]; req.push(r); ctx.label("repeated request"); }
            let ds = guard("derivatives", || node.derivatives(&req))?;
            let want: HashSet<&Node> = req.iter().cloned().collect();
            ensure!(ds.len() == want.len() && want.iter().all(|v| ds.contains_key(*v)),
                    "derivatives for {} of {} requested variables", ds.len(), want.len());
            for (i, v) in vars.iter().enumerate() {
                let one = guard("derivative", || node.derivative(v))?;
                let many = ds.get(v);
                for (k, x) in c.points.iter().enumerate() {
                    let h = &s.val[k];
                    if !p.ok_at(*slot, k) { ctx.label("point skipped"); continue; }
                    let ev = h.g[i];
                    let vals = values(&vars, x);
                    let d = guard("evaluating", || one.evaluate(&vals))?;
                    ensure!(ev.near(d), "derivative by {}#{} is {:?}, expected {:?} +- {:e} at point {}", p.vars[i].name, i, d, ev.v, ev.tol(), k);
                    if ev.nonzero() && ev.sharp() && !s.lin { ctx.nontrivial(); }
                    if let Some(m) = many {
                        let d = guard("evaluating", || m.evaluate(&vals))?;
                        ensure!(ev.near(d), "derivative by {}#{} (of several) is {:?}, expected {:?} +- {:e} at point {}", p.vars[i].name, i, d, ev.v, ev.tol(), k);
                        ctx.label("compared (several variables)");
                    }
                    ctx.label("compared");
                }
                if s.used >> i & 1 == 0 {
                    // Not involved: zero whatever the values
                    let vals = values(&vars, &vec![0.75; p.n()]);
                    let d = guard("evaluating", || one.evaluate(&vals))?;
                    ensure!(d == 0., "derivative by uninvolved {}#{} is {:?}", p.vars[i].name, i, d);
                    ctx.label("uninvolved variable");
                }
            }
            if let Some(d) = ds.get(&alien) {
                let vals = values(&vars, &vec![0.75; p.n()]);
                let d = d.evaluate(&vals);
                ensure!(d == 0., "derivative by an uninvolved variable of the same name is {:?}", d);
                ctx.label("uninvolved variable");
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C03

pub struct C03;
const L3: Limits = Limits { size: 18, order: 2, raw: true };

impl Prop for C03 {
    const ID: &'static str = "C03";
    type Case = ExprCase;
    fn rule() -> &'static str {
        "random expression programs at random points; non-trivial: the expression has at least two variables and at some point a second derivative that is finite, well-conditioned and clearly not zero was compared"
    }
    fn assumptions() -> Vec<&'static str> { C01::assumptions() }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 500000 } else { 10000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<ExprCase> { expr_case(4, 12, true, false, 1, 24) }
    fn describe(c: &ExprCase) -> Option<String> { describe(c, &L3) }
    fn check(c: &ExprCase, ctx: &mut Ctx) -> Res {
        let p = c.tape.resolve(&c.points, &L3);
        let vars = p.make_vars();
        let outs = outs(&p, c.sel);
        let nodes = guard("building", || p.build(&vars, &outs))?;
        let pos: HashMap<&Node, usize> = vars.iter().enumerate().map(|(i, v)| (v, i)).collect();
        for slot in outs.iter() {
            let s = &p.slots[*slot];
            let node = &nodes[slot];
            labels(&p, *slot, ctx);
            let comp = guard("std_components", || node.std_components())?;
            let n = p.n();
            // Structure
            let mut g: Vec<Option<&Node>> = vec![None; n];
            for (v, e) in comp.gphi.iter() {
                let i = *pos.get(v).ok_or_else(|| "gradient entry for a variable that is not there".to_string())?;
                ensure!(g[i].is_none(), "two gradient entries for {}#{}", p.vars[i].name, i);
                ensure!(s.used >> i & 1 == 1, "gradient entry for unused {}#{}", p.vars[i].name, i);
                g[i] = Some(e);
            }
            let mut h: HashMap<(usize, usize), &Node> = HashMap::new();
            for (v, w, e) in comp.hphi.iter() {
                let i = *pos.get(v).ok_or_else(|| "Hessian entry for a variable that is not there".to_string())?;
                let j = *pos.get(w).ok_or_else(|| "Hessian entry for a variable that is not there".to_string())?;
                let key = (i.max(j), i.min(j));
                ensure!(h.insert(key, e).is_none(), "two Hessian entries for {}#{} and {}#{}", p.vars[i].name, i, p.vars[j].name, j);
            }
            ctx.label_if(comp.prop.affine, "affine");
            for (k, x) in c.points.iter().enumerate() {
                if !p.ok_at(*slot, k) { ctx.label("point skipped"); continue; }
                let ev = &s.val[k];
                let vals = values(&vars, x);
                let v = guard("evaluating", || comp.phi.evaluate(&vals))?;
                ensure!(ev.f.near(v), "component phi is {:?}, expected {:?}", v, ev.f.v);
                for i in 0..n {
                    match g[i] {
                        Some(e) => {
                            let v = guard("evaluating", || e.evaluate(&vals))?;
                            ensure!(ev.g[i].near(v), "gradient entry {}#{} is {:?}, expected {:?} +- {:e}", p.vars[i].name, i, v, ev.g[i].v, ev.g[i].tol());
                        }
                        None => ensure!(!ev.g[i].nonzero(), "no gradient entry for {}#{} although the derivative is {:?}", p.vars[i].name, i, ev.g[i].v),
                    }
                    for j in 0..=i {
                        let r = ev.hess(i, j);
                        match h.get(&(i, j)) {
                            Some(e) => {
                                let v = guard("evaluating", || e.evaluate(&vals))?;
                                ensure!(r.near(v), "Hessian entry {}#{} {}#{} is {:?}, expected {:?} +- {:e}", p.vars[i].name, i, p.vars[j].name, j, v, r.v, r.tol());
                                ctx.label("second derivative compared");
                                if i != j && r.nonzero() { ctx.label("off-diagonal"); }
                            }
                            None => ensure!(!r.nonzero(), "no Hessian entry for {}#{} {}#{} although the second derivative is {:?}", p.vars[i].name, i, p.vars[j].name, j, r.v),
                        }
                        if r.nonzero() && r.sharp() && s.used.count_ones() >= 2 { ctx.nontrivial(); }
                    }
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C04

pub struct C04;
const L4: Limits = Limits { size: 120, order: 1, raw: true };

impl Prop for C04 {
    const ID: &'static str = "C04";
    type Case = ExprCase;
    fn rule() -> &'static str {
        "random expression programs, half of them made of linear operations only, at random points; non-trivial: either the expression is reported as affine, has a variable and was compared at a well-conditioned point, or it is not reported as affine and depends on a variable"
    }
    fn assumptions() -> Vec<&'static str> { C01::assumptions() }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 900000 } else { 18000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<ExprCase> { expr_case(5, 20, true, false, 8, 150) }
    fn describe(c: &ExprCase) -> Option<String> { describe(c, &L4) }
    fn check(c: &ExprCase, ctx: &mut Ctx) -> Res {
        let p = c.tape.resolve(&c.points, &L4);
        let vars = p.make_vars();
        let outs = outs(&p, c.sel);
        let nodes = guard("building", || p.build(&vars, &outs))?;
        let pos: HashMap<&Node, usize> = vars.iter().enumerate().map(|(i, v)| (v, i)).collect();
        for slot in outs.iter() {
            let s = &p.slots[*slot];
            let node = &nodes[slot];
            labels(&p, *slot, ctx);
            let prop = guard("std_properties", || node.std_properties())?;
            let mut a: Vec<Option<f64>> = vec![None; p.n()];
            for (v, x) in prop.a.iter() {
                let i = *pos.get(v).ok_or_else(|| "reported variable that is not there".to_string())?;
                ensure!(s.used >> i & 1 == 1, "reported variable {}#{} was not used", p.vars[i].name, i);
                a[i] = Some(*x);
            }
            let ok_somewhere = (0..c.points.len()).any(|k| p.ok_at(*slot, k));
            if s.lin && ok_somewhere {
                ensure!(prop.affine, "built from linear operations but not reported as affine");
            }
            ctx.label(if prop.affine { "reported affine" } else { "reported not affine" });
            ctx.label_if(prop.affine && !s.lin, "affine though built with nonlinear operations");
            for (k, x) in c.points.iter().enumerate() {
                if !p.ok_at(*slot, k) { ctx.label("point skipped"); continue; }
                let ev = &s.val[k];
                for i in 0..p.n() {
                    if ev.g[i].nonzero() {
                        ensure!(a[i].is_some(), "depends on {}#{} (derivative {:?}) but it is not reported", p.vars[i].name, i, ev.g[i].v);
                        if !prop.affine { ctx.nontrivial(); }
                    }
                    if prop.affine {
                        let v = a[i].unwrap_or(0.);
                        ensure!(ev.g[i].near(v), "coefficient of {}#{} is {:?}, the derivative {:?} +- {:e}", p.vars[i].name, i, v, ev.g[i].v, ev.g[i].tol());
                    }
                }
                if prop.affine {
                    let mut v = prop.b;
                    let mut m = prop.b.abs();
                    for i in 0..p.n() { let t = a[i].unwrap_or(0.) * x[i]; v += t; m += t.abs(); }
                    let tol = ev.f.tol() + 1e-13 * m + (0..p.n()).map(|i| ev.g[i].tol() * x[i].abs()).sum::<f64>();
                    ensure!((v - ev.f.v).abs() <= tol, "affine form gives {:?}, expected {:?} +- {:e} (constant {:?})", v, ev.f.v, tol, prop.b);
                    ctx.label("affine form compared");
                    if ev.f.sharp() && !prop.a.is_empty() { ctx.nontrivial(); }
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C05

/// Reads an expression by the usual rules, evaluating it.
pub struct Parser<'a> { s: &'a [u8], i: usize, env: &'a HashMap<String, f64> }

impl<'a> Parser<'a> {
    pub fn eval(s: &'a str, env: &'a HashMap<String, f64>) -> Result<f64, String> {
        let mut p = Parser { s: s.as_bytes(), i: 0, env };
        let v = p.expr()?;
        p.ws();
        if p.i != p.s.len() { return Err(format!("cannot read {:?} at {}", s, p.i)); }
        Ok(v)
    }
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i] == b' ' { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.i).unwrap_or(&0) }
    fn expr(&mut self) -> Result<f64, String> {
        let mut v = self.term()?;
        loop {
            match self.peek() {
                b'+' => { self.i += 1; v += self.term()?; }
                b'-' => { self.i += 1; v -= self.term()?; }
                _ => return Ok(v),
            }
        }
    }
    fn term(&mut self) -> Result<f64, String> {
        let mut v = self.factor()?;
        loop {
            match self.peek() {
                b'*' => { self.i += 1; v *= self.factor()?; }
                b'/' => { self.i += 1; v /= self.factor()?; }
                _ => return Ok(v),
            }
        }
    }
    fn factor(&mut self) -> Result<f64, String> {
        match self.peek() {
            b'-' => { self.i += 1; Ok(-self.factor()?) }
            b'+' => { self.i += 1; self.factor() }
            b'(' => {
                self.i += 1;
                let v = self.expr()?;
                if self.peek() != b')' { return Err("missing )".into()); }
                self.i += 1;
                Ok(v)
            }
            c if c.is_ascii_digit() || c == b'.' => {
                let st = self.i;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_digit() || self.s[self.i] == b'.') { self.i += 1; }
                if self.i < self.s.len() && (self.s[self.i] | 32) == b'e' {
                    let save = self.i;
                    self.i += 1;
                    if self.i < self.s.len() && (self.s[self.i] == b'-' || self.s[self.i] == b'+') { self.i += 1; }
                    let d = self.i;
                    while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; }
                    if d == self.i { self.i = save; }
                }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                t.parse().map_err(|_| format!("bad number {:?}", t))
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.i;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') { self.i += 1; }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                if self.peek() == b'(' && (t == "sin" || t == "cos") {
                    self.i += 1;
                    let v = self.expr()?;
                    if self.peek() != b')' { return Err("missing )".into()); }
                    self.i += 1;
                    return Ok(if t == "sin" { v.sin() } else { v.cos() });
                }
                self.env.get(t).cloned().ok_or_else(|| format!("unknown name {:?}", t))
            }
            c => Err(format!("unexpected {:?} at {}", c as char, self.i)),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PrintCase {
    pub e: ExprCase,
    pub cons: Vec<(u16, u16, u8, String)>,
    pub sense: u8,
}

pub struct C05;
const L5: Limits = Limits { size: 120, order: 0, raw: true };

fn label_text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        2 => "[a-z]{1,6}( [a-z]{1,5})?".boxed(),
        1 => Just(" : ".to_string()),
        1 => "[ -~]{1,12}".boxed(),
        1 => prop::sample::select({ let mut v = crate::dict::names(); v.push("_".into()); v }).boxed(),
        1 => "[a-z ]{20,90}".boxed(),
    ].boxed()
}

fn same_text(p: &Prog, slot: usize, c: &ExprCase, text: &str, what: &str, ctx: &mut Ctx) -> Res {
    for (k, x) in c.points.iter().enumerate() {
        if !p.ok_at(slot, k) { ctx.label("point skipped"); continue; }
        let env: HashMap<String, f64> = p.vars.iter().zip(x).map(|(v, x)| (v.name.clone(), *x)).collect();
        let v = Parser::eval(text, &env).map_err(|e| format!("{} printed as {:?}: {}", what, text, e))?;
        let ev = p.slots[slot].val[k].f;
        ensure!(ev.near(v), "{} is printed as {:?}, which is {:?}, expected {:?} +- {:e} at point {}", what, text, v, ev.v, ev.tol(), k);
        ctx.label("compared");
        if ev.sharp() && text.contains('(') { ctx.nontrivial(); }
    }
    Ok(())
}

/// Splits a printed constraint at its relation.
fn split_rel(s: &str) -> Option<(&str, &str, &str)> {
    let mut found = None;
    for op in [" == ", " <= ", " >= "].iter() {
        for (i, _) in s.match_indices(op) {
            if found.is_some() { return None; }
            found = Some((&s[..i], *op, &s[i + op.len()..]));
        }
    }
    found
}

impl Prop for C05 {
    const ID: &'static str = "C05";
    type Case = PrintCase;
    fn rule() -> &'static str {
        "random expressions over uniquely named variables, random constraints with random labels and models made of them; non-trivial: a printed form with a parenthesis was read back and compared at a well-conditioned point"
    }
    fn assumptions() -> Vec<&'static str> { vec![
        "variables have distinct names that are identifiers, and labels are one line",
        "an own parser reads the printed text (products and quotients from left to right before sums)",
    ] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 600000 } else { 12000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<PrintCase> {
        let con = (any::<u16>(), any::<u16>(), 0u8..3, label_text()).boxed();
        let short = prop::collection::vec(con.clone(), 0..4).boxed();
        let long = crate::dict::sizes(4, 400).unwrap_or((4usize..300).boxed());
        let long = prop_oneof![1 => long, 2 => (4usize..40).boxed(), 1 => (200usize..320).boxed()].prop_flat_map(move |n| prop::collection::vec(con.clone(), n)).boxed();
        (expr_case(3, 14, true, true, 2, 120), prop_oneof![1500 => short, 1 => long], 0u8..3)
            .prop_map(|(e, cons, sense)| PrintCase { e, cons, sense }).boxed()
    }
    fn describe(c: &PrintCase) -> Option<String> { describe(&c.e, &L5) }
    fn check(c: &PrintCase, ctx: &mut Ctx) -> Res {
        let e = &c.e;
        let p = e.tape.resolve(&e.points, &L5);
        let vars = p.make_vars();
        let mut want = outs(&p, e.sel);
        let cons: Vec<(usize, usize, u8, &str)> = c.cons.iter().map(|(a, b, k, l)| (p.sel(*a), p.sel(*b), *k, l.as_str())).collect();
        for (a, b, _, _) in cons.iter() { want.push(*a); want.push(*b); }
        let nodes = guard("building", || p.build(&vars, &want))?;
        for slot in outs(&p, e.sel) {
            labels(&p, slot, ctx);
            let text = guard("printing", || format!("{}", nodes[&slot]))?;
            same_text(&p, slot, e, &text, "expression", ctx)?;
            let dbg = guard("printing", || format!("{:?}", nodes[&slot]))?;
            same_text(&p, slot, e, &dbg, "expression (debug)", ctx)?;
        }
        let mut m = Model::new();
        let obj = p.last();
        match c.sense {
            0 => m.set_objective(Objective::minimize(&nodes[&obj])),
            1 => m.set_objective(Objective::maximize(&nodes[&obj])),
            _ => (),
        }
        let rel = |k: u8| match k { 0 => " == ", 1 => " <= ", _ => " >= " };
        let kind = |k: u8| match k { 0 => ConstraintKind::Equal, 1 => ConstraintKind::LessEqual, _ => ConstraintKind::GreaterEqual };
        let check_con = |a: usize, b: usize, k: u8, text: &str, ctx: &mut Ctx| -> Res {
            let (l, r, rhs) = split_rel(text).ok_or_else(|| format!("constraint printed as {:?} without exactly one relation", text))?;
            ensure!(r == rel(k), "constraint with {} printed as {:?}", rel(k), text);
            same_text(&p, a, e, l, "left-hand side", ctx)?;
            same_text(&p, b, e, rhs, "right-hand side", ctx)
        };
        for (a, b, k, l) in cons.iter() {
            let con = Constraint::new(nodes[a].clone(), kind(*k), nodes[b].clone(), l);
            let text = guard("printing", || format!("{}", con))?;
            check_con(*a, *b, *k, &text, ctx)?;
            m.add_constraint(&con);
        }
        let text = guard("printing", || format!("{}", m))?;
        // Lines that are not empty, in order
        let mut lines = text.split('\n').filter(|l| !l.is_empty());
        let head = lines.next().unwrap_or("");
        let want_head = match c.sense { 0 => "Minimize", 1 => "Maximize", _ => "Find point" };
        ensure!(head == want_head, "model starts with {:?}, expected {:?}", head, want_head);
        if c.sense < 2 {
            let o = lines.next().unwrap_or("");
            same_text(&p, obj, e, o, "objective", ctx)?;
        }
        if !cons.is_empty() {
            let s = lines.next().unwrap_or("");
            ensure!(s == "Subject to", "model shows {:?} instead of Subject to", s);
        }
        for (a, b, k, l) in cons.iter() {
            let line = lines.next().ok_or("constraint missing in printed model")?;
            let body = if l.is_empty() { line } else {
                ctx.label("labelled constraint");
                let suf = format!(" : {}", l);
                line.strip_suffix(suf.as_str()).ok_or_else(|| format!("label {:?} missing in {:?}", l, line))?
            };
            check_con(*a, *b, *k, body, ctx)?;
        }
        ensure!(lines.next().is_none(), "printed model has lines left over: {:?}", text);
        Ok(())
    }
}
