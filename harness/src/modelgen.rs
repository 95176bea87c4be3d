//! Generated optimization models with their reference.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

use numopt::model::constraint::Constraint;
use numopt::model::model::{Model, Objective};
use numopt::model::node::Node;
use numopt::model::node_cmp::NodeCmp;
use numopt::model::variable::VariableScalar;

use crate::ev::Hd;
use crate::fw::guard;
use crate::p_ident::kind;
use crate::tape::{self, constant, var_value, Limits, Mix, Prog, Tape, B, R};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rhs { Sel(u16), C(f64), Auto(f64) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Con {
    Bound { v: u8, c: f64, kind: u8, form: u8 },
    Row { coefs: Vec<(u8, f64)>, c: f64, kind: u8, var_right: Option<u8> },
    Expr { l: u16, r: Rhs, kind: u8 },
    /// The same constraint once more
    Dup(u8),
    /// A row or (`nl`) an expression that holds at the first point with margin `d` if it is an inequality, or is off by `off`
    Held { coefs: Vec<(u8, f64)>, nl: Option<u16>, kind: u8, d: f64, off: f64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ModelCase {
    pub tape: Tape,
    /// 0 minimize, 1 maximize, 2 none
    pub sense: u8,
    pub obj: u16,
    pub cons: Vec<Con>,
    pub init: Vec<(u8, f64)>,
    pub points: Vec<Vec<f64>>,
    pub slack: Vec<f64>,
}

/// A constraint of a resolved model: lhs and rhs slots.
#[derive(Clone, Debug)]
pub struct RCon { pub l: usize, pub r: usize, pub kind: u8,
    /// (variable, is upper, value) when written directly as a bound
    pub direct: Option<(usize, bool, f64)>,
    form: u8, pub dup_of: Option<usize> }

pub struct M {
    pub prog: Prog,
    pub sense: u8,
    pub obj: usize,
    pub cons: Vec<RCon>,
    pub vars: Vec<Node>,
    pub nodes: HashMap<usize, Node>,
    pub constraints: Vec<Constraint>,
    pub init: Vec<Option<f64>>,
    pub stranger: Node,
    /// Nodes asked for besides those of the model
    pub extra: Vec<Node>,
}

#[derive(Clone, Copy, Debug)]
pub struct Opt { pub mix: Mix, pub len: usize, pub max_vars: usize, pub max_cons: usize, pub wide: bool, pub unique: bool, pub ints: bool, pub bounds: u32 }

fn bound_const(wide: bool) -> BoxedStrategy<f64> {
    if wide {
        prop_oneof![
            8 => (-4i32..=4).prop_map(|x| x as f64),
            2 => constant(),
            1 => prop::sample::select(vec![1e8, -1e8, 2e8, -2e8, 1e9, -5e9, 99999999., 0., -0.]),
            1 => crate::dict::number(1e10),
        ].boxed()
    } else {
        prop_oneof![8 => (-4i32..=4).prop_map(|x| x as f64), 2 => constant()].boxed()
    }
}

fn con(o: Opt) -> BoxedStrategy<Con> {
    let bc = bound_const(o.wide);
    prop_oneof![
        o.bounds => (any::<u8>(), bc, 0u8..3, 0u8..10).prop_map(|(v, c, kind, form)| Con::Bound { v, c, kind, form }),
        2 => (prop::collection::vec((any::<u8>(), (-4i32..=4).prop_map(|x| x as f64)), 1..5), constant(), 0u8..3, prop::option::weighted(0.3, any::<u8>()))
            .prop_map(|(coefs, c, kind, var_right)| Con::Row { coefs, c, kind, var_right }),
        4 => (any::<u16>(), prop_oneof![
                1 => any::<u16>().prop_map(Rhs::Sel),
                2 => constant().prop_map(Rhs::C),
                2 => prop_oneof![2 => Just(0.), 1 => -2.0f64..2.0].prop_map(Rhs::Auto)], 0u8..3)
            .prop_map(|(l, r, kind)| Con::Expr { l, r, kind }),
        1 => any::<u8>().prop_map(Con::Dup),
    ].boxed()
}

fn big_point(n: usize, wide: bool) -> BoxedStrategy<Vec<f64>> {
    if wide {
        prop_oneof![
            9 => tape::point(n),
            1 => prop::collection::vec(prop_oneof![4 => var_value(), 1 => prop::sample::select(vec![3e8, -3e8, 2e9, -9e9, 1e8, -1e8])], n),
        ].boxed()
    } else { tape::point(n) }
}

/// Mostly small models; some with indices of two digits, few with many more.
pub fn model_case(o: Opt) -> BoxedStrategy<ModelCase> {
    let all = prop_oneof![
        2400 => sized_case(o, 1, 0),
        100 => sized_case(Opt { len: o.len * 2, max_vars: 14, max_cons: 24, ..o }, 6, 10),
        1 => sized_case(Opt { len: o.len * 3, max_vars: 110, max_cons: 140, ..o }, 15, 30),
        1 => (0u8..4).prop_flat_map(move |k| sized_of(Opt { max_vars: 12, max_cons: 140, ..o }, 3, 30, one_kind(o, k))),
        1 => (0u8..6).prop_flat_map(move |k| sized_of(Opt { max_vars: 12, max_cons: 140, ..o }, 3, 30, held(o, k))),
    ].boxed();
    match crate::dict::sizes(7, 120) {
        None => all,
        Some(n) => prop_oneof![
            800 => all,
            2 => (n, any::<bool>(), any::<bool>(), 0u8..14).prop_flat_map(move |(n, v, c, k)| {
                let (lo_v, hi_v) = if v { (n, n) } else { (3, 8) };
                let (lo_c, hi_c) = if c || !v { (n, n + 2) } else { (3, 8) };
                sized_of(Opt { len: o.len * 2, max_vars: hi_v, max_cons: hi_c, ..o }, lo_v, lo_c, if k < 7 { one_kind(o, k) } else { held(o, k - 7) })
            }),
        ].boxed(),
    }
}

/// Constraints that mostly become the same part of the problem, so that its number can be met.
fn one_kind(o: Opt, k: u8) -> BoxedStrategy<Con> {
    let all = con(o);
    let row = |kinds: Vec<u8>| (prop::collection::vec((any::<u8>(), prop::sample::select(vec![-3., -2., 2., 3.])), 1..4), constant(), prop::sample::select(kinds))
        .prop_map(|(coefs, c, kind)| Con::Row { coefs, c, kind, var_right: None });
    let one = match k {
        0 => row(vec![1, 2]).boxed(),
        1 => row(vec![0]).boxed(),
        2 => (any::<u8>(), bound_const(o.wide), 1u8..3, 0u8..4).prop_map(|(v, c, kind, form)| Con::Bound { v, c, kind, form }).boxed(),
        3 => (any::<u16>(), constant(), 0u8..3).prop_map(|(l, c, kind)| Con::Expr { l, r: Rhs::C(c), kind }).boxed(),
        _ => return all,
    };
    prop_oneof![30 => one, 1 => all].boxed()
}

/// Constraints that all hold at the first point but for a few, as without this a model with many of them has no feasible points.
fn held(o: Opt, k: u8) -> BoxedStrategy<Con> {
    let kinds = match k { 0 => vec![1, 2], 1 => vec![0], 2 => vec![1, 2], _ => vec![0, 1, 2] };
    let nl: BoxedStrategy<Option<u16>> = match k { 0 | 1 => Just(None).boxed(), 2 => any::<u16>().prop_map(Some).boxed(), _ => prop::option::weighted(0.3, any::<u16>()).boxed() };
    let off = prop_oneof![300 => Just(0.), 1 => 0.5f64..3.];
    let one = (prop::collection::vec((any::<u8>(), prop::sample::select(vec![-3., -2., 2., 3.])), 1..4), nl, prop::sample::select(kinds), prop_oneof![3 => (0i32..9).prop_map(|x| x as f64 / 4.), 1 => Just(0.)], off)
        .prop_map(|(coefs, nl, kind, d, off)| Con::Held { coefs, nl, kind, d, off }).boxed();
    if k < 4 { one } else { prop_oneof![30 => one, 1 => con(o)].boxed() }
}

fn sized_case(o: Opt, min_vars: usize, min_cons: usize) -> BoxedStrategy<ModelCase> { sized_of(o, min_vars, min_cons, con(o)) }

fn sized_of(o: Opt, min_vars: usize, min_cons: usize, con: BoxedStrategy<Con>) -> BoxedStrategy<ModelCase> {
    (tape::tape(tape::vars(min_vars, o.max_vars, o.unique, o.ints), 0..=o.len, o.mix, true), 0u8..3, any::<u16>(),
     prop::collection::vec(con, min_cons..=o.max_cons), prop::collection::vec((any::<u8>(), var_value()), 0..4),
     prop::collection::vec(-3.0f64..3.0, 4))
        .prop_flat_map(move |(tape, sense, obj, cons, init, slack)| {
            let n = tape.vars.len();
            (Just((tape, sense, obj, cons, init, slack)), prop::collection::vec(big_point(n, o.wide), 1..=3))
        })
        .prop_map(|((tape, sense, obj, cons, init, slack), points)| ModelCase { tape, sense, obj, cons, init, points, slack })
        .boxed()
}

impl ModelCase {
    pub fn resolve(&self, lim: &Limits) -> Result<M, String> { self.resolve_with(lim, &[]) }

    pub fn resolve_with(&self, lim: &Limits, extra: &[u16]) -> Result<M, String> {
        let mut p = self.tape.resolve(&self.points, lim);
        let n = p.n();
        let k0 = p.slots.len();
        // Selections refer to the program, not to what constraints add to it
        let sel = |s: u16| -> usize { let q = (s >> 1) as usize; if s & 1 == 0 { k0 - 1 - (q % k0.min(3)) } else { q % k0 } };
        let obj = sel(self.obj);
        let mut cons: Vec<RCon> = Vec::new();
        for c in self.cons.iter() {
            match c {
                Con::Bound { v, c, kind, form } => {
                    let v = *v as usize % n;
                    let c = *c;
                    let fl = |k: u8| match k { 1 => 2, 2 => 1, k => k };
                    let upper = *kind == 1;
                    let direct = if *kind != 0 && [0, 5, 9].contains(form) { Some((v, upper, c)) } else { None };
                    let (l, r, kk) = match form {
                        0 | 5 | 9 => { let r = p.push(R::C(c)); (v, r, *kind) }
                        1 => { let l = p.push(R::C(c)); (l, v, fl(*kind)) }
                        2 => { let l = p.push(R::Sr(B::Add, v, 3., true)); let r = p.push(R::C(c + 3.)); (l, r, *kind) }
                        3 => { let l = p.push(R::Neg(v, true)); let r = p.push(R::C(-c)); (l, r, fl(*kind)) }
                        4 => { let l = p.push(R::Sl(B::Mul, 2., v, true)); let r = p.push(R::C(2. * c)); (l, r, *kind) }
                        6 => { let l = p.push(R::Sr(B::Sub, v, c, true)); let r = p.push(R::C(0.)); (l, r, *kind) }
                        7 => { let l = p.push(R::Sl(B::Sub, c, v, true)); let r = p.push(R::C(0.)); (l, r, fl(*kind)) }
                        _ => { let l = p.push(R::Sl(B::Mul, 2., v, true)); let r = p.push(R::Sr(B::Add, v, c, false)); (l, r, *kind) }
                    };
                    cons.push(RCon { l, r, kind: kk, direct, form: *form, dup_of: None });
                }
                Con::Held { coefs, nl, kind, d, off } => {
                    let l = match nl {
                        Some(s) => sel(*s),
                        None => {
                            let mut t: Option<usize> = None;
                            for (v, a) in coefs.iter() {
                                let s = p.push(R::Sl(B::Mul, *a, *v as usize % n, true));
                                t = Some(match t { None => s, Some(t) => p.push(R::Bin(B::Add, t, s, 0)) });
                            }
                            t.unwrap()
                        }
                    };
                    let v = p.slots[l].val.first().map_or(0., |h| h.f.v);
                    let v = if v.is_finite() && v.abs() < 1e6 { v } else { 0. };
                    let c = match kind { 0 => v + off, 1 => v + d - off * (d + 1.), _ => v - d + off * (d + 1.) };
                    let r = p.push(R::C(c));
                    cons.push(RCon { l, r, kind: *kind, direct: None, form: 5, dup_of: None });
                }
                Con::Row { coefs, c, kind, var_right } => {
                    let mut t: Option<usize> = None;
                    for (v, a) in coefs.iter() {
                        let v = *v as usize % n;
                        let s = if *a == 1. { v } else { p.push(R::Sl(B::Mul, *a, v, true)) };
                        t = Some(match t { None => s, Some(t) => p.push(R::Bin(B::Add, t, s, 0)) });
                    }
                    let l = t.unwrap();
                    let r = match var_right { None => p.push(R::C(*c)), Some(v) => p.push(R::Sr(B::Add, *v as usize % n, *c, true)) };
                    cons.push(RCon { l, r, kind: *kind, direct: None, form: 5, dup_of: None });
                }
                Con::Expr { l, r, kind } => {
                    let l = sel(*l);
                    let r = match r {
                        Rhs::Sel(s) => sel(*s),
                        Rhs::C(c) => p.push(R::C(*c)),
                        Rhs::Auto(d) => {
                            let v = p.slots[l].val.first().map_or(0., |h| h.f.v);
                            let v = if v.is_finite() && v.abs() < 1e6 { v + d } else { *d };
                            p.push(R::C(v))
                        }
                    };
                    cons.push(RCon { l, r, kind: *kind, direct: None, form: 5, dup_of: None });
                }
                Con::Dup(k) => if !cons.is_empty() {
                    let i = *k as usize % cons.len();
                    let mut x = cons[i].clone();
                    x.dup_of = Some(x.dup_of.unwrap_or(i));
                    cons.push(x);
                },
            }
        }
        let vars = p.make_vars();
        let mut want = vec![obj];
        for c in cons.iter() { want.push(c.l); want.push(c.r); }
        for s in extra.iter() { want.push(sel(*s)); }
        let nodes = guard("building", || p.build(&vars, &want))?;
        let extra = extra.iter().map(|s| nodes[&sel(*s)].clone()).collect();
        let mut constraints: Vec<Constraint> = Vec::new();
        for c in cons.iter() {
            if let Some(d) = c.dup_of { let x = constraints[d].clone(); constraints.push(x); continue; }
            let (l, r) = (&nodes[&c.l], &nodes[&c.r]);
            let num = |s: usize| match p.slots[s].r { R::C(v) => Some(v), _ => None };
            let x = if c.form == 0 && num(c.r).is_some() {
                let v = num(c.r).unwrap();
                match c.kind { 0 => l.equal(v), 1 => l.leq(v), _ => l.geq(v) }
            } else if c.form == 1 && num(c.l).is_some() {
                let v = num(c.l).unwrap();
                match c.kind { 0 => v.equal(r), 1 => v.leq(r), _ => v.geq(r) }
            } else {
                Constraint::new(l.clone(), kind(c.kind), r.clone(), "")
            };
            constraints.push(x);
        }
        let mut init = vec![None; n];
        for (v, x) in self.init.iter() { init[*v as usize % n] = Some(*x); }
        let stranger = VariableScalar::new_continuous(&p.vars[0].name);
        Ok(M { prog: p, sense: self.sense, obj, cons, vars, nodes, constraints, init, stranger, extra })
    }

    pub fn text(&self, lim: &Limits) -> Option<String> {
        let m = self.resolve(lim).ok()?;
        let mut s = match m.sense { 0 => "min ", 1 => "max ", _ => "find" }.to_string();
        if m.sense < 2 { s += &m.prog.text(m.obj); }
        for c in m.cons.iter() {
            s += &format!("; {} {} {}{}", m.prog.text(c.l), ["==", "<=", ">="][c.kind as usize], m.prog.text(c.r), if c.dup_of.is_some() { " (again)" } else { "" });
        }
        let v = m.prog.vars.iter().enumerate().filter(|(_, v)| v.int).map(|(i, v)| format!("{}#{}", v.name, i)).collect::<Vec<_>>();
        if !v.is_empty() { s += &format!("; int {}", v.join(" ")); }
        if s.len() > 2500 { s.truncate(s.char_indices().take_while(|(i, _)| *i < 2500).last().map_or(0, |x| x.0)); s += "..."; }
        Some(format!("{}; at {:?}; init {:?}", s, self.points, m.init))
    }
}

impl M {
    pub fn n(&self) -> usize { self.prog.n() }

    pub fn model(&self) -> Model {
        let mut m = self.empty_model();
        for (k, c) in self.constraints.iter().enumerate() {
            if k % 2 == 0 { m.add_constraint(c); } else { m.add_constraints(&[c]); }
        }
        m
    }

    /// Objective and initial values without constraints.
    pub fn empty_model(&self) -> Model {
        let mut m = Model::new();
        self.set_objective(&mut m);
        self.set_init(&mut m);
        m
    }

    pub fn set_objective(&self, m: &mut Model) {
        match self.sense {
            0 => m.set_objective(Objective::minimize(&self.nodes[&self.obj])),
            1 => m.set_objective(Objective::maximize(&self.nodes[&self.obj])),
            _ => m.set_objective(Objective::empty()),
        }
    }

    pub fn set_init(&self, m: &mut Model) {
        let mut init: HashMap<&Node, f64> = HashMap::new();
        for (v, x) in self.vars.iter().zip(self.init.iter()) { if let Some(x) = x { init.insert(v, *x); } }
        if !init.is_empty() { init.insert(&self.stranger, 77.); m.set_init_primals(&init); }
    }

    /// lhs - rhs of a constraint at a point.
    pub fn g(&self, c: usize, k: usize) -> Hd {
        self.prog.slots[self.cons[c].l].val[k].sub(&self.prog.slots[self.cons[c].r].val[k])
    }

    pub fn con_ok(&self, c: usize, k: usize) -> bool {
        self.prog.ok_at(self.cons[c].l, k) && self.prog.ok_at(self.cons[c].r, k) && self.g(c, k).ok()
    }

    pub fn obj_ok(&self, k: usize) -> bool { self.sense == 2 || self.prog.ok_at(self.obj, k) }

    /// Minimized objective.
    pub fn min_obj(&self, k: usize) -> Hd {
        let p = &self.prog;
        match self.sense {
            0 => p.slots[self.obj].val[k].clone(),
            1 => p.slots[self.obj].val[k].neg(),
            _ => Hd::cst(0., p.n(), p.order),
        }
    }

    pub fn con_used(&self, c: usize) -> u128 { self.prog.slots[self.cons[c].l].used | self.prog.slots[self.cons[c].r].used }
    pub fn con_lin(&self, c: usize) -> bool { self.prog.slots[self.cons[c].l].lin && self.prog.slots[self.cons[c].r].lin }
    pub fn obj_used(&self) -> u128 { if self.sense == 2 { 0 } else { self.prog.slots[self.obj].used } }
    pub fn obj_lin(&self) -> bool { self.sense == 2 || self.prog.slots[self.obj].lin }

    /// Variables with a clearly nonzero derivative in the objective or a
    /// constraint at some point.
    pub fn depends(&self) -> u128 {
        let mut d = 0;
        for k in 0..self.prog.points.len() {
            for i in 0..self.n() {
                if self.sense < 2 && self.obj_ok(k) && self.min_obj(k).g[i].nonzero() { d |= 1 << i; }
                for c in 0..self.cons.len() {
                    if d >> i & 1 == 0 && self.con_ok(c, k) && self.g(c, k).g[i].nonzero() { d |= 1 << i; }
                }
            }
        }
        d
    }
}
