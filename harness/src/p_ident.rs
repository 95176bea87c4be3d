//! C06, C07: identity of variables and constraints; comparisons.

use std::collections::{HashMap, HashSet};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use numopt::model::constant::ConstantScalar;
use numopt::model::function::{add::FunctionAdd, cos::FunctionCos, div::FunctionDiv, mul::FunctionMul, sin::FunctionSin};
use numopt::model::constraint::{Constraint, ConstraintKind};
use numopt::model::model::{Model, Objective};
use numopt::model::model_std::ModelStd;
use numopt::model::node::Node;
use numopt::model::node_base::NodeBase;
use numopt::model::node_cmp::NodeCmp;
use numopt::model::node_diff::NodeDiff;
use numopt::model::node_func::NodeFunc;
use numopt::model::node_std::NodeStd;
use numopt::model::variable::VariableScalar;

use crate::fw::{decode, guard, Ctx, Prop, Res, Tier, INF_CODE, NAN_CODE};
use crate::tape::{self, constant, var_value, B};

const NAMES: [&str; 6] = ["x", "y", "x1", "_s_a0_", "", "x"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Var(u8, bool),
    CloneVar(u16),
    DropVar(u16),
    Expr(B, u16, u16, u8),
    ExprC(B, u16, f64),
    Fun(bool, u16),
    CloneExpr(u16),
    Con(u16, u8, u16, u8),
    ConC(u16, u8, f64, u8),
    CloneCon(u16),
    DropCon(u16),
    Derive(u16, u16),
    Std(u16),
    ModelStd(u16, u8),
    CheckNow,
    Raw(u8, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IdCase { pub ops: Vec<Op>, pub vals: Vec<f64> }

fn op() -> BoxedStrategy<Op> {
    let s = || any::<u16>();
    let o = || prop_oneof![Just(B::Add), Just(B::Sub), Just(B::Mul), Just(B::Div)];
    prop_oneof![
        4 => (any::<u8>(), any::<bool>()).prop_map(|(n, i)| Op::Var(n, i)),
        2 => s().prop_map(Op::CloneVar),
        1 => s().prop_map(Op::DropVar),
        5 => (o(), s(), s(), any::<u8>()).prop_map(|(o, a, b, f)| Op::Expr(o, a, b, f)),
        3 => (o(), s(), constant()).prop_map(|(o, a, c)| Op::ExprC(o, a, c)),
        1 => (any::<bool>(), s()).prop_map(|(k, a)| Op::Fun(k, a)),
        1 => s().prop_map(Op::CloneExpr),
        2 => (s(), 0u8..3, s(), any::<u8>()).prop_map(|(a, k, b, l)| Op::Con(a, k, b, l)),
        2 => (s(), 0u8..3, constant(), any::<u8>()).prop_map(|(a, k, c, l)| Op::ConC(a, k, c, l)),
        2 => s().prop_map(Op::CloneCon),
        1 => s().prop_map(Op::DropCon),
        2 => (s(), s()).prop_map(|(a, b)| Op::Derive(a, b)),
        1 => s().prop_map(Op::Std),
        1 => (s(), 0u8..3).prop_map(|(a, k)| Op::ModelStd(a, k)),
        1 => Just(Op::CheckNow),
        2 => (any::<u8>(), s()).prop_map(|(k, a)| Op::Raw(k, a)),
    ].boxed()
}

pub fn kind(k: u8) -> ConstraintKind { match k { 0 => ConstraintKind::Equal, 1 => ConstraintKind::LessEqual, _ => ConstraintKind::GreaterEqual } }

struct VarH { node: Node, id: usize }
struct ConH { con: Constraint, id: usize, text: String }
struct ExprH { node: Node, text: String, val: f64, size: usize }

struct World {
    vars: Vec<VarH>,
    keys: Vec<(Node, f64)>, // one handle kept per variable id, with its value
    cons: Vec<ConH>,
    ncon: usize,
    exprs: Vec<ExprH>,
    names: Vec<(String, bool)>,
    nodes: Vec<(Node, usize)>, // constants and functions made by their constructors, by identity
}

impl World {
    fn values(&self) -> HashMap<&Node, f64> { self.keys.iter().map(|(n, v)| (n, *v)).collect() }
    fn track(&mut self, node: Node, size: usize) {
        let text = format!("{}", node);
        let val = node.evaluate(&self.values());
        self.exprs.push(ExprH { node, text, val, size });
    }
    fn check(&self, ctx: &mut Ctx) -> Res {
        for a in self.vars.iter() {
            let (name, int) = &self.names[a.id];
            ensure!(a.node.name() == name, "variable {} is now called {}", name, a.node.name());
            match &a.node {
                Node::VariableScalar(v) => ensure!(v.is_integer() == *int && v.is_continuous() == !*int, "kind of variable {} changed", name),
                _ => return Err("variable is no longer one".into()),
            }
            for b in self.vars.iter() {
                let same = a.id == b.id;
                ensure!((a.node == b.node) == same, "variables {} (#{}) and {} (#{}) compare as {}", a.node, a.id, b.node, b.id, a.node == b.node);
                ensure!((a.node != b.node) == !same, "variables {} (#{}) and {} (#{}): != is wrong", a.node, a.id, b.node, b.id);
            }
        }
        // As map keys
        let mut map: HashMap<Node, usize> = HashMap::new();
        let mut set: HashSet<&Node> = HashSet::new();
        for a in self.vars.iter() {
            if let Some(old) = map.insert(a.node.clone(), a.id) { ensure!(old == a.id, "variables #{} and #{} are one map key", old, a.id); }
            set.insert(&a.node);
        }
        let ids: HashSet<usize> = self.vars.iter().map(|a| a.id).collect();
        ensure!(map.len() == ids.len() && set.len() == ids.len(), "{} variables give {} map and {} set keys", ids.len(), map.len(), set.len());
        for a in self.vars.iter() { ensure!(map.get(&a.node) == Some(&a.id), "variable {} not found under its own key", a.node); }
        for a in self.cons.iter() {
            for b in self.cons.iter() {
                let same = a.id == b.id;
                ensure!((a.con == b.con) == same, "constraints {} (#{}) and {} (#{}) compare as {}", a.con, a.id, b.con, b.id, a.con == b.con);
            }
            ensure!(format!("{}", a.con) == a.text, "constraint {:?} now prints as {}", a.text, a.con);
        }
        let mut map: HashMap<Constraint, usize> = HashMap::new();
        for a in self.cons.iter() {
            if let Some(old) = map.insert(a.con.clone(), a.id) { ensure!(old == a.id, "constraints #{} and #{} are one map key", old, a.id); }
        }
        let ids: HashSet<usize> = self.cons.iter().map(|a| a.id).collect();
        ensure!(map.len() == ids.len(), "{} constraints give {} map keys", ids.len(), map.len());
        for a in self.cons.iter() { ensure!(map.get(&a.con) == Some(&a.id), "constraint {} not found under its own key", a.con); }
        // So are other nodes, which are all separately created or kept clones
        for a in self.nodes.iter() {
            for b in self.nodes.iter() {
                let same = a.1 == b.1;
                ensure!((a.0 == b.0) == same, "nodes {} (#{}) and {} (#{}) compare as {}", a.0, a.1, b.0, b.1, a.0 == b.0);
            }
        }
        let set: HashSet<&Node> = self.nodes.iter().map(|a| &a.0).collect();
        let ids: HashSet<usize> = self.nodes.iter().map(|a| a.1).collect();
        ensure!(set.len() == ids.len(), "{} nodes give {} set keys", ids.len(), set.len());
        // Nodes in use are unchanged
        let vals = self.values();
        for e in self.exprs.iter() {
            let t = format!("{}", e.node);
            ensure!(t == e.text, "expression {:?} became {:?}", e.text, t);
            let v = e.node.evaluate(&vals);
            ensure!(v.to_bits() == e.val.to_bits() || (v.is_nan() && e.val.is_nan()), "expression {:?} evaluated to {:?}, now to {:?}", e.text, e.val, v);
        }
        let same_name = (0..self.names.len()).any(|i| (0..i).any(|j| self.names[i].0 == self.names[j].0));
        if same_name && self.vars.len() >= 3 && self.cons.len() >= 2 && self.exprs.len() >= 3 { ctx.nontrivial(); }
        ctx.label("world checked");
        Ok(())
    }
}

pub struct C06;

impl Prop for C06 {
    const ID: &'static str = "C06";
    type Case = IdCase;
    fn rule() -> &'static str {
        "random histories that create, clone, drop, combine, differentiate and standardize variables, expressions and constraints over a few coinciding names; non-trivial: at a check there were at least 3 variable handles, two variables with one name, 2 constraints and 3 expressions"
    }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 500000 } else { 8000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<IdCase> {
        (crate::dict::list(op().boxed(), 3, 40, 130), prop::collection::vec(var_value(), 8)).prop_map(|(ops, vals)| IdCase { ops, vals }).boxed()
    }
    fn check(c: &IdCase, ctx: &mut Ctx) -> Res {
        let mut w = World { vars: vec![], keys: vec![], cons: vec![], ncon: 0, exprs: vec![], names: vec![], nodes: vec![] };
        // Any node: a variable handle or an expression
        fn node(w: &World, s: u16) -> Option<(Node, usize)> {
            let n = w.vars.len() + w.exprs.len();
            if n == 0 { return None; }
            let k = s as usize % n;
            Some(if k < w.vars.len() { (w.vars[k].node.clone(), 1) } else { let e = &w.exprs[k - w.vars.len()]; (e.node.clone(), e.size) })
        }
        for o in c.ops.iter() {
            match o {
                Op::Var(n, int) => {
                    let name = NAMES[*n as usize % NAMES.len()];
                    let node = if *int { VariableScalar::new_integer(name) } else { VariableScalar::new_continuous(name) };
                    let id = w.names.len();
                    w.names.push((name.into(), *int));
                    w.keys.push((node.clone(), c.vals[id % c.vals.len()] + id as f64 / 64.));
                    w.vars.push(VarH { node, id });
                }
                Op::CloneVar(s) => if !w.vars.is_empty() {
                    let v = &w.vars[*s as usize % w.vars.len()];
                    let h = VarH { node: v.node.clone(), id: v.id };
                    w.vars.push(h);
                    ctx.label("variable cloned");
                },
                Op::DropVar(s) => if w.vars.len() > 1 { let k = *s as usize % w.vars.len(); w.vars.remove(k); },
                Op::Expr(o, a, b, f) => if let (Some((a, n)), Some((b, m))) = (node(&w, *a), node(&w, *b)) {
                    if n + m > 24 { continue; }
                    if *o == B::Div && b.is_constant_with_value(0.) { continue; }
                    let e = guard("building", || tape::bin_form(*o, &a, &b, *f))?;
                    w.track(e, n + m);
                },
                Op::ExprC(o, a, v) => if let Some((a, n)) = node(&w, *a) {
                    if n > 23 || (*o == B::Div && *v == 0.) { continue; }
                    let e = guard("building", || match o { B::Add => &a + *v, B::Sub => *v - &a, B::Mul => *v * &a, B::Div => &a / *v })?;
                    w.track(e, n + 1);
                },
                Op::Fun(k, a) => if let Some((a, n)) = node(&w, *a) {
                    let e = if *k { a.sin() } else { a.cos() };
                    w.track(e, n);
                },
                Op::CloneExpr(s) => if !w.exprs.is_empty() {
                    let e = &w.exprs[*s as usize % w.exprs.len()];
                    let h = ExprH { node: e.node.clone(), text: e.text.clone(), val: e.val, size: e.size };
                    ensure!(h.node == e.node, "clone of {:?} differs from it", e.text);
                    w.exprs.push(h);
                },
                Op::Con(a, k, b, l) => if let (Some((a, _)), Some((b, _))) = (node(&w, *a), node(&w, *b)) {
                    let con = Constraint::new(a, kind(*k), b, NAMES[*l as usize % NAMES.len()]);
                    w.cons.push(ConH { text: format!("{}", con), con, id: w.ncon });
                    w.ncon += 1;
                },
                Op::ConC(a, k, v, l) => if let Some((a, _)) = node(&w, *a) {
                    let con = Constraint::new(a, kind(*k), ConstantScalar::new(*v), NAMES[*l as usize % NAMES.len()]);
                    w.cons.push(ConH { text: format!("{}", con), con, id: w.ncon });
                    w.ncon += 1;
                },
                Op::CloneCon(s) => if !w.cons.is_empty() {
                    let x = &w.cons[*s as usize % w.cons.len()];
                    let h = ConH { con: x.con.clone(), id: x.id, text: x.text.clone() };
                    w.cons.push(h);
                    ctx.label("constraint cloned");
                },
                Op::DropCon(s) => if w.cons.len() > 1 { let k = *s as usize % w.cons.len(); w.cons.remove(k); },
                Op::Derive(a, v) => if let Some((a, n)) = node(&w, *a) {
                    if w.vars.is_empty() || n > 12 { continue; }
                    let v = w.vars[*v as usize % w.vars.len()].node.clone();
                    let d = guard("derivative", || a.derivative(&v))?;
                    w.track(d, n * 4);
                    ctx.label("derivative");
                },
                Op::Std(a) => if let Some((a, n)) = node(&w, *a) {
                    if n > 10 { continue; }
                    guard("std_components", || { a.std_components(); })?;
                },
                Op::ModelStd(a, k) => if let Some((a, n)) = node(&w, *a) {
                    if n > 10 { continue; }
                    let mut m = Model::new();
                    match k { 0 => m.set_objective(Objective::minimize(&a)), 1 => m.set_objective(Objective::maximize(&a)), _ => () }
                    for x in w.cons.iter().take(2) { if x.text.len() < 80 { m.add_constraint(&x.con); } }
                    guard("std_problem", || { m.std_problem(); })?;
                    ctx.label("model standardized");
                },
                Op::Raw(k, a) => {
                    let x = node(&w, *a).map(|x| x.0).filter(|_| *k % 8 > 2);
                    let n = w.nodes.iter().map(|n| n.1 + 1).max().unwrap_or(0);
                    match x {
                        None if *k % 8 == 2 && n > 0 => { let c = w.nodes[*a as usize % w.nodes.len()].clone(); w.nodes.push(c); }
                        None => w.nodes.push((ConstantScalar::new([0., 1., 2.5][*a as usize % 3]), n)),
                        Some(x) => w.nodes.push((match *k % 8 { 3 => FunctionAdd::new(vec![x.clone(), x]), 4 => FunctionMul::new(x.clone(), x), 5 => FunctionDiv::new(x.clone(), x), 6 => FunctionSin::new(x), _ => FunctionCos::new(x) }, n)),
                    }
                }
                Op::CheckNow => w.check(ctx)?,
            }
        }
        w.check(ctx)
    }
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CmpCase {
    pub tape: tape::Tape,
    pub points: Vec<Vec<f64>>,
    pub a: u16,
    pub b: u16,
    pub num: f64,
    /// Right-hand side equals the left one at a point (the boundary case)
    pub touch: u8,
    pub form: u8,
    pub kind: u8,
    pub tag: Option<String>,
    pub miss: u8,
}

pub struct C07;

const L7: tape::Limits = tape::Limits { size: 40, order: 0, raw: true };

impl Prop for C07 {
    const ID: &'static str = "C07";
    type Case = CmpCase;
    fn rule() -> &'static str {
        "random pairs of expressions or numbers compared through every comparison form, with random labels, evaluated at random points, at points where both sides are exactly equal, with special values and with values missing; non-trivial: a variable is involved and a point where both sides are finite was compared"
    }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 1200000 } else { 16000000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<CmpCase> {
        let special = prop_oneof![8 => var_value(), 1 => prop::sample::select(vec![INF_CODE, -INF_CODE, NAN_CODE, 1e300, -1e300, 5e-324, 1e-300])];
        tape::tape(tape::vars(0, 3, false, true), 0..=8, tape::Mix::General, true).prop_flat_map(move |t| {
            let n = t.vars.len();
            (Just(t), prop::collection::vec(prop::collection::vec(special.clone(), n), 1..=3),
             (any::<u16>(), any::<u16>(), constant(), any::<u8>(), 0u8..6, 0u8..3),
             prop::option::of("[ -~]{0,8}"), any::<u8>())
        }).prop_map(|(tape, points, (a, b, num, touch, form, kind), tag, miss)| CmpCase { tape, points, a, b, num, touch, form, kind, tag, miss }).boxed()
    }
    fn check(c: &CmpCase, ctx: &mut Ctx) -> Res {
        let points: Vec<Vec<f64>> = c.points.iter().map(|x| x.iter().map(|v| decode(*v)).collect()).collect();
        let p = c.tape.resolve(&points, &L7);
        let vars = p.make_vars();
        let (sa, sb) = (p.sel(c.a), p.sel(c.b));
        let nodes = guard("building", || p.build(&vars, &[sa, sb]))?;
        let (a, b) = (nodes[&sa].clone(), nodes[&sb].clone());
        let at: Vec<HashMap<&Node, f64>> = points.iter().enumerate().map(|(k, x)| {
            let mut v = tape::values(&vars, x);
            if !vars.is_empty() && c.miss as usize % 7 == k { v.remove(&vars[c.miss as usize % vars.len()]); }
            v
        }).collect();
        // A number that makes the sides touch
        let mut num = c.num;
        if c.touch % 3 == 0 {
            let v = a.evaluate(&at[0]);
            if v.is_finite() { num = v; ctx.label("sides touch"); }
        }
        let t = c.tag.as_deref();
        fn go<X: NodeCmp<Y>, Y>(x: &X, y: Y, k: u8, t: Option<&str>) -> Constraint {
            match (k, t) {
                (0, None) => x.equal(y), (0, Some(t)) => x.equal_and_tag(y, t),
                (1, None) => x.leq(y), (1, Some(t)) => x.leq_and_tag(y, t),
                (_, None) => x.geq(y), (_, Some(t)) => x.geq_and_tag(y, t),
            }
        }
        let nn = ConstantScalar::new(num);
        let (con, l, r) = guard("comparing", || match c.form {
            0 => (go(&a, num, c.kind, t), &a, &nn),
            1 => (go(&a, b.clone(), c.kind, t), &a, &b),
            2 => (go(&a, &b, c.kind, t), &a, &b),
            3 => (go(&num, a.clone(), c.kind, t), &nn, &a),
            4 => (go(&num, &a, c.kind, t), &nn, &a),
            _ => (Constraint::new(a.clone(), kind(c.kind), b.clone(), t.unwrap_or("")), &a, &b),
        })?;
        ctx.label(["node-number", "node-node", "node-&node", "number-node", "number-&node", "new"][c.form.min(5) as usize]);
        ensure!(*con.kind() == kind(c.kind), "wrong relation in {}", con);
        ensure!(con.label() == t.unwrap_or(""), "label is {:?}, expected {:?}", con.label(), t.unwrap_or(""));
        ensure!(format!("{}", con.lhs()) == format!("{}", l), "left-hand side is {}, expected {}", con.lhs(), l);
        ensure!(format!("{}", con.rhs()) == format!("{}", r), "right-hand side is {}, expected {}", con.rhs(), r);
        let same = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan());
        for vals in at.iter() {
            let (x, y) = (l.evaluate(vals), r.evaluate(vals));
            let (cx, cy) = (con.lhs().evaluate(vals), con.rhs().evaluate(vals));
            ensure!(same(x, cx) && same(y, cy), "sides evaluate to {:?} and {:?}, expected {:?} and {:?}", cx, cy, x, y);
            let v = guard("violation", || con.violation(vals))?;
            if x.is_nan() || y.is_nan() {
                ensure!(!(v == 0.), "violation is {:?} though the sides are {:?} and {:?}", v, x, y);
                ctx.label("cannot be evaluated");
                continue;
            }
            if x.is_infinite() && x == y { ctx.label("infinity on both sides (not judged)"); continue; }
            let holds = match c.kind { 0 => x == y, 1 => x <= y, _ => x >= y };
            let want = match c.kind { 0 => (x - y).abs(), 1 => if x <= y { 0. } else { x - y }, _ => if x >= y { 0. } else { y - x } };
            ensure!((v == 0.) == holds, "violation is {:?} but {:?} {} {:?} is {}", v, x, ["==", "<=", ">="][c.kind as usize], y, holds);
            ensure!(v == want || (v - want).abs() <= 1e-14 * want, "violation is {:?}, expected {:?} for {:?} {} {:?}", v, want, x, ["==", "<=", ">="][c.kind as usize], y);
            ctx.label(if holds { "holds" } else { "violated" });
            if x.is_finite() && y.is_finite() && (p.slots[sa].used | p.slots[sb].used) != 0 { ctx.nontrivial(); }
        }
        Ok(())
    }
}
