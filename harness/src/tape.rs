//! Expression programs: generated straight-line programs over variables,
//! interpreted by the reference arithmetic and by numopt's public API.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

use numopt::model::constant::ConstantScalar;
use numopt::model::function::add::FunctionAdd;
use numopt::model::function::cos::FunctionCos;
use numopt::model::function::div::FunctionDiv;
use numopt::model::function::mul::FunctionMul;
use numopt::model::function::sin::FunctionSin;
use numopt::model::node::Node;
use numopt::model::node_func::NodeFunc;
use numopt::model::variable::VariableScalar;

use crate::dict;
use crate::ev::Hd;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum B { Add, Sub, Mul, Div }

/// Raw instruction: operands are selectors resolved when the program is built,
/// so that any subsequence of a program is a program.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ins {
    C(f64),
    Bin(B, u16, u16, u8),
    Sr(B, u16, f64, bool),
    Sl(B, f64, u16, bool),
    Neg(u16, bool),
    Sin(u16),
    Cos(u16),
    RawAdd(Vec<u16>),
    RawMul(u16, u16),
    RawDiv(u16, u16),
    RawSin(u16),
    RawCos(u16),
    Sum(Vec<u16>, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VarSpec { pub name: String, pub int: bool }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tape {
    pub vars: Vec<VarSpec>,
    pub ins: Vec<Ins>,
    /// Allows expressions this large whatever the limit
    #[serde(default)]
    pub size: usize,
}

/// Resolved instruction: operands are slot numbers.
#[derive(Clone, Debug)]
pub enum R {
    Var(usize),
    C(f64),
    Bin(B, usize, usize, u8),
    Sr(B, usize, f64, bool),
    Sl(B, f64, usize, bool),
    Neg(usize, bool),
    Sin(usize),
    Cos(usize),
    RawAdd(Vec<usize>),
    RawMul(usize, usize),
    RawDiv(usize, usize),
    RawSin(usize),
    RawCos(usize),
    Sum(Vec<usize>, u8),
    Alias(usize),
}

impl R {
    pub fn args(&self) -> Vec<usize> {
        match self {
            R::Var(_) | R::C(_) => vec![],
            R::Bin(_, a, b, _) | R::RawMul(a, b) | R::RawDiv(a, b) => vec![*a, *b],
            R::Sr(_, a, _, _) | R::Sl(_, _, a, _) | R::Neg(a, _) | R::Sin(a) | R::Cos(a)
            | R::RawSin(a) | R::RawCos(a) | R::Alias(a) => vec![*a],
            R::RawAdd(v) | R::Sum(v, _) => v.clone(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Slot {
    pub r: R,
    pub val: Vec<Hd>,      // at each point
    pub size: usize,       // leaves of the expanded tree
    pub used: u128,        // variables used to build it
    pub fold: bool,        // a constant combined from constants
    pub varfree: bool,
    pub lin: bool,         // built by linear operations only
    pub nonlin_ops: bool,
}

#[derive(Clone, Debug)]
pub struct Limits { pub size: usize, pub order: u8, pub raw: bool }

#[derive(Clone, Debug)]
pub struct Prog { pub vars: Vec<VarSpec>, pub slots: Vec<Slot>, pub points: Vec<Vec<f64>>, pub order: u8 }

fn pick(sel: u16, n: usize) -> usize {
    let s = (sel >> 1) as usize;
    if sel & 1 == 0 { n - 1 - (s % n.min(3)) } else { s % n }
}

/// Value used for constants; every finite one is allowed.
pub fn constant() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => (-5i32..=5).prop_map(|x| x as f64),
        3 => (-40i32..=40).prop_map(|x| x as f64 / 8.),
        3 => -10.0f64..10.0,
        1 => prop::sample::select(vec![0., -0., 1., -1., 2., 0.5, 1e-7, -1e-7, 1e4, -3e5, 1.0 + 1e-9, 1e-3, 123456.789, 0.1, 1e8, 2.5e-10]),
        1 => dict::number(1e8),
    ].boxed()
}

pub fn var_value() -> BoxedStrategy<f64> {
    prop_oneof![
        8 => -3.0f64..3.0,
        6 => (-4i32..=4).prop_map(|x| x as f64),
        2 => (-20i32..=20).prop_map(|x| x as f64 / 4.),
        2 => prop::sample::select(vec![0., 1., -1., 1e-3, 50., -700., 1e3, 0.1]),
        1 => dict::number(1e4),
    ].boxed()
}

pub fn point(n: usize) -> BoxedStrategy<Vec<f64>> { prop::collection::vec(var_value(), n).boxed() }

/// Names drawn from a small pool (unless unique ones are wanted).
pub fn vars(min: usize, max: usize, unique: bool, ints: bool) -> BoxedStrategy<Vec<VarSpec>> {
    let pool: Vec<&'static str> = vec!["x", "y", "z", "x1", "x10", "x2", "a", "b", "_s_a0_", "_s_j0_", "alpha", "X", "cos1", "t_1"];
    let pool: Vec<String> = pool.into_iter().map(|s| s.to_string()).collect();
    let known = dict::names();
    let known = if known.is_empty() { pool.clone() } else { known };
    let name = prop_oneof![14 => prop::sample::select(pool), 1 => (prop::sample::select(known), 0u8..4).prop_map(|(s, k)| if k == 0 { s + "1" } else { s })];
    prop::collection::vec((name, any::<bool>(), 0u8..4), min..=max).prop_map(move |v| {
        let mut out: Vec<VarSpec> = Vec::new();
        for (k, (name, int, same)) in v.into_iter().enumerate() {
            let mut name = name;
            if unique { name = format!("{}_{}", name.trim_matches('_'), k); }
            else if same == 0 && k > 0 { name = out[k - 1].name.clone(); }
            out.push(VarSpec { name, int: ints && int });
        }
        out
    }).boxed()
}

fn op() -> BoxedStrategy<B> {
    prop_oneof![3 => Just(B::Add), 2 => Just(B::Sub), 3 => Just(B::Mul), 2 => Just(B::Div)].boxed()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mix { General, Linear }

pub fn ins(mix: Mix, raw: bool) -> BoxedStrategy<Ins> {
    let sel = || any::<u16>();
    match mix {
        Mix::General => {
            let base = prop_oneof![
                1 => constant().prop_map(Ins::C),
                10 => (op(), sel(), sel(), any::<u8>()).prop_map(|(o, a, b, f)| Ins::Bin(o, a, b, f)),
                4 => (op(), sel(), constant(), any::<bool>()).prop_map(|(o, a, c, f)| Ins::Sr(o, a, c, f)),
                4 => (op(), constant(), sel(), any::<bool>()).prop_map(|(o, c, a, f)| Ins::Sl(o, c, a, f)),
                1 => (sel(), any::<bool>()).prop_map(|(a, f)| Ins::Neg(a, f)),
                2 => sel().prop_map(Ins::Sin),
                2 => sel().prop_map(Ins::Cos),
                1 => (prop::collection::vec(sel(), 2..6), any::<u8>()).prop_map(|(v, f)| Ins::Sum(v, f)),
            ];
            if raw {
                prop_oneof![
                    12 => base,
                    1 => prop_oneof![
                        prop::collection::vec(sel(), 2..6).prop_map(Ins::RawAdd),
                        (sel(), sel()).prop_map(|(a, b)| Ins::RawMul(a, b)),
                        (sel(), sel()).prop_map(|(a, b)| Ins::RawDiv(a, b)),
                        sel().prop_map(Ins::RawSin),
                        sel().prop_map(Ins::RawCos),
                    ]
                ].boxed()
            } else { base.boxed() }
        }
        Mix::Linear => {
            let lop = || prop_oneof![Just(B::Add), Just(B::Sub)];
            prop_oneof![
                1 => constant().prop_map(Ins::C),
                10 => (lop(), sel(), sel(), any::<u8>()).prop_map(|(o, a, b, f)| Ins::Bin(o, a, b, f)),
                4 => (op(), sel(), constant(), any::<bool>()).prop_map(|(o, a, c, f)| Ins::Sr(o, a, c, f)),
                2 => (lop(), constant(), sel(), any::<bool>()).prop_map(|(o, c, a, f)| Ins::Sl(o, c, a, f)),
                3 => (constant(), sel(), any::<bool>()).prop_map(|(c, a, f)| Ins::Sl(B::Mul, c, a, f)),
                1 => (sel(), any::<bool>()).prop_map(|(a, f)| Ins::Neg(a, f)),
                1 => (prop::collection::vec(sel(), 2..8), any::<u8>()).prop_map(|(v, f)| Ins::Sum(v, f)),
            ].boxed()
        }
    }
}

pub fn tape(vars: BoxedStrategy<Vec<VarSpec>>, len: std::ops::RangeInclusive<usize>, mix: Mix, raw: bool) -> BoxedStrategy<Tape> {
    (vars, prop::collection::vec(ins(mix, raw), len)).prop_map(|(vars, ins)| Tape { vars, ins, size: 0 }).boxed()
}

/// A long chain: each step works on the last result and something small (deep
/// or, where steps are sums, wide expressions).
pub fn chain(vars: BoxedStrategy<Vec<VarSpec>>, len: std::ops::RangeInclusive<usize>, mix: Mix) -> BoxedStrategy<Tape> {
    // an even selector 0 is the last slot, small odd ones are variables
    let small = || (0u16..4).prop_map(|x| 2 * x + 1);
    let o = move || if mix == Mix::Linear { prop_oneof![Just(B::Add), Just(B::Sub)].boxed() } else { op() };
    let coef = || prop_oneof![(-4i32..5).prop_map(|x| x as f64 / 2.), -1.5f64..1.5].boxed();
    let step = move |sums: bool| {
        let o = move || if sums { prop_oneof![3 => Just(B::Add), 1 => Just(B::Sub)].boxed() } else { o() };
        let bin = prop_oneof![
            3 => (o(), small(), any::<u8>()).prop_map(|(o, a, f)| Ins::Bin(o, 0, a, f)),
            2 => (o(), small(), any::<u8>()).prop_map(|(o, a, f)| Ins::Bin(if o == B::Div { B::Mul } else { o }, a, 0, f)),
        ];
        if sums || mix == Mix::Linear { prop_oneof![6 => bin, 1 => (coef(), any::<bool>()).prop_map(|(c, f)| Ins::Sr(B::Add, 0, c, f)), 1 => any::<bool>().prop_map(|f| Ins::Neg(0, f))].boxed() }
        else {
            prop_oneof![
                6 => bin, 1 => (coef(), any::<bool>()).prop_map(|(c, f)| Ins::Sr(B::Add, 0, c, f)), 1 => (coef(), any::<bool>()).prop_map(|(c, f)| Ins::Sl(B::Mul, c, 0, f)),
                3 => Just(Ins::Sin(0)), 3 => Just(Ins::Cos(0)), 1 => any::<bool>().prop_map(|f| Ins::Neg(0, f)),
            ].boxed()
        }
    };
    (vars, any::<bool>()).prop_flat_map(move |(v, sums)| (Just(v), prop::collection::vec(step(sums), len.clone()))).prop_map(|(vars, ins)| Tape { size: ins.len() + 10, vars, ins }).boxed()
}

impl Tape {
    /// Resolves the program, computing the reference at the given points.
    /// Operations that would be invalid (division by something that is zero at
    /// every point) or too big are replaced by simpler ones.
    pub fn resolve(&self, points: &[Vec<f64>], lim: &Limits) -> Prog {
        let n = self.vars.len();
        let order = lim.order;
        let size = lim.size.max(self.size);
        let mut p = Prog { vars: self.vars.clone(), slots: Vec::new(), points: points.to_vec(), order };
        for i in 0..n {
            p.slots.push(Slot {
                r: R::Var(i),
                val: points.iter().map(|x| Hd::var(x[i], i, n, order)).collect(),
                size: 1, used: 1 << i, fold: false, varfree: false, lin: true, nonlin_ops: false,
            });
        }
        if n == 0 {
            p.push(R::C(1.));
        }
        for ins in self.ins.iter() {
            let k = p.slots.len();
            let fit = |p: &Prog, v: Vec<usize>| -> Vec<usize> {
                // Replace the largest operands by variables until it fits
                let mut v = v;
                for _ in 0..v.len() {
                    let tot: usize = v.iter().map(|a| p.slots[*a].size).sum();
                    if tot <= size { break; }
                    let (i, _) = v.iter().enumerate().max_by_key(|(_, a)| p.slots[**a].size).unwrap();
                    v[i] = if n > 0 { v[i] % n } else { 0 };
                }
                if v.len() > size { v.truncate(size.max(2)); }
                v
            };
            let r = match ins {
                Ins::C(c) => R::C(*c),
                Ins::Bin(o, a, b, f) => {
                    let v = fit(&p, vec![pick(*a, k), pick(*b, k)]);
                    R::Bin(*o, v[0], v[1], *f)
                }
                Ins::Sr(o, a, c, f) => {
                    let v = fit(&p, vec![pick(*a, k)]);
                    let o = if *o == B::Div && *c == 0. { B::Mul } else { *o };
                    R::Sr(o, v[0], *c, *f)
                }
                Ins::Sl(o, c, a, f) => { let v = fit(&p, vec![pick(*a, k)]); R::Sl(*o, *c, v[0], *f) }
                Ins::Neg(a, f) => R::Neg(pick(*a, k), *f),
                Ins::Sin(a) => R::Sin(pick(*a, k)),
                Ins::Cos(a) => R::Cos(pick(*a, k)),
                Ins::RawAdd(v) => R::RawAdd(fit(&p, v.iter().map(|a| pick(*a, k)).collect())),
                Ins::RawMul(a, b) => { let v = fit(&p, vec![pick(*a, k), pick(*b, k)]); R::RawMul(v[0], v[1]) }
                Ins::RawDiv(a, b) => { let v = fit(&p, vec![pick(*a, k), pick(*b, k)]); R::RawDiv(v[0], v[1]) }
                Ins::RawSin(a) => R::RawSin(pick(*a, k)),
                Ins::RawCos(a) => R::RawCos(pick(*a, k)),
                Ins::Sum(v, f) => R::Sum(fit(&p, v.iter().map(|a| pick(*a, k)).collect()), *f),
            };
            p.push(r);
        }
        p
    }
}

impl Prog {
    pub fn n(&self) -> usize { self.vars.len() }
    pub fn last(&self) -> usize { self.slots.len() - 1 }

    pub fn sel(&self, s: u16) -> usize { pick(s, self.slots.len()) }

    /// Adds a slot and returns its number.
    pub fn push(&mut self, r: R) -> usize {
        let n = self.n();
        let order = self.order;
        let np = self.points.len();
        // Division by something that cannot be divided by at any point
        let mut r = r;
        let safe = |p: &Prog, d: usize, varfree_ok: bool| -> bool {
            let s = &p.slots[d];
            let _ = varfree_ok;
            np > 0 && s.val.iter().any(|h| h.recip().f.ok()) && (!s.varfree || s.val.iter().all(|h| h.recip().f.ok()))
        };
        r = match r {
            R::Bin(B::Div, a, b, f) if !safe(self, b, true) => R::Bin(B::Mul, a, b, f),
            R::Sl(B::Div, c, a, f) if !safe(self, a, true) => R::Sl(B::Mul, c, a, f),
            R::RawDiv(a, b) if !safe(self, b, true) => R::RawMul(a, b),
            r => r,
        };
        // A pure constant that is not finite is of no use
        let c = |v: f64| Hd::cst(v, n, order);
        let bin = |o: B, x: &Hd, y: &Hd| match o { B::Add => x.add(y), B::Sub => x.sub(y), B::Mul => x.mul(y), B::Div => x.div(y) };
        let s = &self.slots;
        let val: Vec<Hd> = (0..np).map(|k| match &r {
            R::Var(_) => unreachable!(),
            R::C(v) => c(*v),
            R::Bin(o, a, b, _) => bin(*o, &s[*a].val[k], &s[*b].val[k]),
            R::Sr(o, a, v, _) => bin(*o, &s[*a].val[k], &c(*v)),
            R::Sl(o, v, a, _) => bin(*o, &c(*v), &s[*a].val[k]),
            R::Neg(a, _) => s[*a].val[k].neg(),
            R::Sin(a) | R::RawSin(a) => s[*a].val[k].sin(),
            R::Cos(a) | R::RawCos(a) => s[*a].val[k].cos(),
            R::RawAdd(v) | R::Sum(v, _) => { let mut t = c(0.); for a in v { t = t.add(&s[*a].val[k]); } t }
            R::RawMul(a, b) => s[*a].val[k].mul(&s[*b].val[k]),
            R::RawDiv(a, b) => s[*a].val[k].div(&s[*b].val[k]),
            R::Alias(a) => s[*a].val[k].clone(),
        }).collect();
        let args = r.args();
        let used = args.iter().fold(0, |u, a| u | s[*a].used);
        let size = match &r {
            R::C(_) => 1,
            R::Sr(B::Mul, a, _, _) | R::Sl(B::Mul, _, a, _) | R::Neg(a, _) => s[*a].size + 1,
            R::Sr(_, a, _, _) | R::Sl(_, _, a, _) => s[*a].size + 1,
            _ => args.iter().map(|a| s[*a].size).sum(),
        };
        let varfree = args.iter().all(|a| s[*a].varfree);
        let (fold, lin) = match &r {
            R::C(_) => (true, true),
            R::Bin(o, a, b, _) => (s[*a].fold && s[*b].fold, match o {
                B::Add | B::Sub => s[*a].lin && s[*b].lin,
                B::Mul => s[*a].lin && s[*b].lin && (s[*a].varfree || s[*b].varfree),
                B::Div => s[*a].lin && s[*b].lin && s[*b].varfree,
            }),
            R::Sr(_, a, _, _) => (s[*a].fold, s[*a].lin),
            R::Sl(o, _, a, _) => (s[*a].fold, s[*a].lin && (*o != B::Div || s[*a].varfree)),
            R::Neg(a, _) | R::Alias(a) => (s[*a].fold, s[*a].lin),
            R::Sin(a) | R::Cos(a) => (s[*a].fold, s[*a].fold),
            R::RawSin(_) | R::RawCos(_) => (false, false),
            R::RawAdd(v) => (false, v.iter().all(|a| s[*a].lin)),
            R::Sum(v, _) => (v.iter().all(|a| s[*a].fold), v.iter().all(|a| s[*a].lin)),
            R::RawMul(a, b) => (false, s[*a].lin && s[*b].lin && (s[*a].varfree || s[*b].varfree)),
            R::RawDiv(a, b) => (false, s[*a].lin && s[*b].lin && s[*b].varfree),
            R::Var(_) => (false, true),
        };
        let nonlin_ops = args.iter().any(|a| s[*a].nonlin_ops) || !lin;
        self.slots.push(Slot { r, val, size, used, fold, varfree, lin, nonlin_ops });
        self.slots.len() - 1
    }

    /// Whether anything the slot is computed from is not finite or too
    /// ill-conditioned at point k (the implementation may stop at any of it).
    pub fn ok_at(&self, slot: usize, k: usize) -> bool {
        let mut need = vec![false; self.slots.len()];
        need[slot] = true;
        for i in (0..=slot).rev() {
            if need[i] {
                if !self.slots[i].val[k].ok() { return false; }
                for a in self.slots[i].r.args() { need[a] = true; }
            }
        }
        true
    }

    fn needed(&self, outs: &[usize]) -> Vec<bool> {
        let mut need = vec![false; self.slots.len()];
        for o in outs { need[*o] = true; }
        for i in (0..self.slots.len()).rev() {
            if need[i] { for a in self.slots[i].r.args() { need[a] = true; } }
        }
        need
    }

    pub fn make_vars(&self) -> Vec<Node> {
        self.vars.iter().map(|v| if v.int { VariableScalar::new_integer(&v.name) } else { VariableScalar::new_continuous(&v.name) }).collect()
    }

    /// Builds the given slots with numopt's API.
    pub fn build(&self, vars: &[Node], outs: &[usize]) -> HashMap<usize, Node> {
        let need = self.needed(outs);
        let mut t: HashMap<usize, Node> = HashMap::new();
        for (k, s) in self.slots.iter().enumerate() {
            if !need[k] { continue; }
            let g = |a: &usize| -> Node { t.get(a).unwrap().clone() };
            let node = match &s.r {
                R::Var(i) => vars[*i].clone(),
                R::C(c) => ConstantScalar::new(*c),
                R::Bin(o, a, b, f) => bin_form(*o, &t[a], &t[b], *f),
                R::Sr(o, a, c, f) => {
                    let (x, c) = (&t[a], *c);
                    match (o, f) {
                        (B::Add, true) => x + c, (B::Add, false) => x.clone() + c,
                        (B::Sub, true) => x - c, (B::Sub, false) => x.clone() - c,
                        (B::Mul, true) => x * c, (B::Mul, false) => x.clone() * c,
                        (B::Div, true) => x / c, (B::Div, false) => x.clone() / c,
                    }
                }
                R::Sl(o, c, a, f) => {
                    let (x, c) = (&t[a], *c);
                    match (o, f) {
                        (B::Add, true) => c + x, (B::Add, false) => c + x.clone(),
                        (B::Sub, true) => c - x, (B::Sub, false) => c - x.clone(),
                        (B::Mul, true) => c * x, (B::Mul, false) => c * x.clone(),
                        (B::Div, true) => c / x, (B::Div, false) => c / x.clone(),
                    }
                }
                R::Neg(a, f) => if *f { -&t[a] } else { -g(a) },
                R::Sin(a) => t[a].sin(),
                R::Cos(a) => t[a].cos(),
                R::RawAdd(v) => FunctionAdd::new(v.iter().map(|a| g(a)).collect()),
                R::RawMul(a, b) => FunctionMul::new(g(a), g(b)),
                R::RawDiv(a, b) => FunctionDiv::new(g(a), g(b)),
                R::RawSin(a) => FunctionSin::new(g(a)),
                R::RawCos(a) => FunctionCos::new(g(a)),
                R::Sum(v, f) => {
                    let mut it = v.iter();
                    let mut x = g(it.next().unwrap());
                    for (i, a) in it.enumerate() { x = bin_form(B::Add, &x, &t[a], f.wrapping_add(i as u8)); }
                    x
                }
                R::Alias(a) => g(a),
            };
            t.insert(k, node);
        }
        t
    }

    /// Infix text for reports.
    pub fn text(&self, slot: usize) -> String { self.txt(slot, 0) }
    fn txt(&self, slot: usize, d: usize) -> String {
        if d > 12 { return "...".into(); }
        let g = |a: &usize| self.txt(*a, d + 1);
        let o = |o: &B| match o { B::Add => "+", B::Sub => "-", B::Mul => "*", B::Div => "/" };
        match &self.slots[slot].r {
            R::Var(i) => format!("{}#{}", self.vars[*i].name, i),
            R::C(c) => format!("C({:?})", c),
            R::Bin(b, x, y, _) => format!("({} {} {})", g(x), o(b), g(y)),
            R::Sr(b, x, c, _) => format!("({} {} {:?})", g(x), o(b), c),
            R::Sl(b, c, x, _) => format!("({:?} {} {})", c, o(b), g(x)),
            R::Neg(a, _) => format!("-{}", g(a)),
            R::Sin(a) => format!("sin({})", g(a)),
            R::Cos(a) => format!("cos({})", g(a)),
            R::RawAdd(v) => format!("Add[{}]", v.iter().map(g).collect::<Vec<_>>().join(", ")),
            R::RawMul(a, b) => format!("Mul[{}, {}]", g(a), g(b)),
            R::RawDiv(a, b) => format!("Div[{}, {}]", g(a), g(b)),
            R::RawSin(a) => format!("Sin[{}]", g(a)),
            R::RawCos(a) => format!("Cos[{}]", g(a)),
            R::Sum(v, _) => format!("({})", v.iter().map(g).collect::<Vec<_>>().join(" + ")),
            R::Alias(a) => g(a),
        }
    }
}

pub fn bin_form(o: B, x: &Node, y: &Node, f: u8) -> Node {
    match (o, f % 4) {
        (B::Add, 0) => x + y, (B::Add, 1) => x.clone() + y, (B::Add, 2) => x + y.clone(), (B::Add, _) => x.clone() + y.clone(),
        (B::Sub, 0) => x - y, (B::Sub, 1) => x.clone() - y, (B::Sub, 2) => x - y.clone(), (B::Sub, _) => x.clone() - y.clone(),
        (B::Mul, 0) => x * y, (B::Mul, 1) => x.clone() * y, (B::Mul, 2) => x * y.clone(), (B::Mul, _) => x.clone() * y.clone(),
        (B::Div, 0) => x / y, (B::Div, 1) => x.clone() / y, (B::Div, 2) => x / y.clone(), (B::Div, _) => x.clone() / y.clone(),
    }
}

/// Values by variable, for `evaluate`.
pub fn values<'a>(vars: &'a [Node], x: &[f64]) -> HashMap<&'a Node, f64> {
    vars.iter().zip(x.iter()).map(|(v, x)| (v, *x)).collect()
}

/// A sum of small terms over many variables.
pub fn broad(n: std::ops::RangeInclusive<usize>, unique: bool, len: std::ops::RangeInclusive<usize>, mix: Mix) -> BoxedStrategy<Tape> {
    let coef = prop_oneof![(-4i32..5).prop_map(|x| x as f64 / 2.), -1.5f64..1.5].boxed();
    (vars(*n.start(), *n.end(), unique, true), prop::collection::vec((0u8..11, prop::collection::vec(any::<u16>(), 5), coef, any::<u8>(), 0u8..10), len)).prop_map(move |(vars, t)| {
        let mut ins = Vec::new();
        for (kind, v, c, f, join) in t.into_iter() {
            // an odd selector 2 i + 1 is variable i, 0 the last slot and 2 the one before
            let v: Vec<u16> = v.iter().map(|x| 2 * (x % vars.len() as u16) + 1).collect();
            ins.push(match kind {
                0..=2 if mix == Mix::Linear => Ins::Neg(v[0], f & 1 == 0),
                3..=8 if mix == Mix::Linear => Ins::Sl(B::Mul, c, v[0], f & 1 == 0),
                0..=3 => Ins::Bin(B::Mul, v[0], v[1], f),
                4 => Ins::Bin(B::Div, v[0], v[1], f),
                5 => Ins::Sin(v[0]),
                6 => Ins::Cos(v[0]),
                7 | 8 => Ins::Sl(B::Mul, c, v[0], f & 1 == 0),
                _ => Ins::Sum(v[..2 + (f % 4) as usize].to_vec(), f),
            });
            ins.push(match join { 0..=5 => Ins::Bin(B::Add, 2, 0, f), 6 | 7 => Ins::Bin(B::Sub, 2, 0, f), _ => Ins::Bin(B::Add, 0, 2, f) });
            if join == 9 && mix != Mix::Linear { ins.push(if f & 1 == 0 { Ins::Sin(0) } else { Ins::Cos(0) }); }
        }
        Tape { size: 6 * ins.len() + 10, vars, ins }
    }).boxed()
}
