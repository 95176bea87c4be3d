//! C25 parameters, C26 failing commands, C27 refusals, C28 concurrent solves.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::fs;
use std::path::PathBuf;

use numopt::matrix::coo::CooMat;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::model::model_std::ModelStd;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::cbc_cmd::SolverCbcCmd;
use numopt::solver::clp_cmd::SolverClpCmd;
use numopt::solver::ipopt::SolverIpopt;

use crate::fake::{self, End, Plan};
use crate::fw::{guard, Ctx, Prop, Res, Tier};
use crate::modelgen::{model_case, ModelCase, Opt};
use crate::probgen::*;
use crate::shim;
use crate::stdp::{eval, view};
use crate::tape::{Limits, Mix};

pub fn solver(k: u8) -> Box<dyn Solver> {
    match k % 3 { 0 => Box::new(SolverCbcCmd::new()), 1 => Box::new(SolverClpCmd::new()), _ => Box::new(SolverIpopt::new()) }
}
const NAMES: [&str; 3] = ["cbc", "clp", "ipopt"];

fn dir_listing(d: &str) -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir(d).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    v.sort();
    v
}

fn clean(d: &str) {
    for e in fs::read_dir(d).into_iter().flatten().filter_map(|e| e.ok()) {
        let p = e.path();
        if p.is_dir() && !p.is_symlink() { fs::remove_dir_all(&p).ok(); } else { fs::remove_file(&p).ok(); }
    }
}

/// A directory for temporary files next to the working directory.
fn tmp_dir() -> PathBuf {
    let t = shim::keep_dir().parent().unwrap().join("tmp");
    fs::create_dir_all(&t).unwrap();
    t
}

/// The value of an argument of a recorded call.
fn arg(call: &fake::Call, key: &str) -> Option<String> {
    call.args.iter().position(|a| a.trim_start_matches('-') == key).and_then(|k| call.args.get(k + 1).cloned())
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val { Int(i32), Float(f64), Str(String) }
impl Val {
    fn param(&self) -> SolverParam { match self { Val::Int(x) => SolverParam::IntParam(*x), Val::Float(x) => SolverParam::FloatParam(*x), Val::Str(x) => SolverParam::StrParam(x.clone()) } }
    fn of(p: &SolverParam) -> Val { match p { SolverParam::IntParam(x) => Val::Int(*x), SolverParam::FloatParam(x) => Val::Float(*x), SolverParam::StrParam(x) => Val::Str(x.clone()) } }
    fn same(&self, o: &Val) -> bool { match (self, o) { (Val::Int(a), Val::Int(b)) => a == b, (Val::Float(a), Val::Float(b)) => a.to_bits() == b.to_bits(), (Val::Str(a), Val::Str(b)) => a == b, _ => false } }
    fn same_type(&self, o: &Val) -> bool { std::mem::discriminant(self) == std::mem::discriminant(o) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum POp { New(u8), Set(u8, String, Val), Solve(u8) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ParCase { pub ops: Vec<POp> }

fn val() -> BoxedStrategy<Val> {
    prop_oneof![
        5 => prop_oneof![2 => -3i32..12, 2 => any::<i32>(), 2 => prop::sample::select(vec![0, i32::MAX, i32::MIN]), 1 => crate::dict::number(1e9).prop_map(|x| x as i32)].prop_map(Val::Int),
        2 => prop_oneof![-5.0f64..5.0, prop::sample::select(vec![0., 5., 1e30])].prop_map(Val::Float),
        3 => prop_oneof![prop::sample::select(vec!["yes".to_string(), "no".into(), "".into(), "5".into(), "logLevel".into()]), prop::sample::select({ let mut v = crate::dict::names(); v.push("x".into()); v }), "[a-zA-Z0-9 _.-]{0,12}", "[a-zA-Z0-9 _.-]{20,300}", "[ -~\u{e0}-\u{ff}]{1,12}"].prop_map(Val::Str),
    ].boxed()
}

/// Names of parameters, known and unknown (those and other words of the sources, and common ones).
fn keys() -> &'static Vec<String> {
    static K: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let known = ["logLevel", "print_level", "sb"];
        let mut v: Vec<String> = vec![];
        for k in ["loglevel", "", "sb ", "log_level", "LOGLEVEL", "verbose", "seconds", "tol", "max_iter", "timeLimit", "printLevel", "output", "log", "level", "print", "SB"].iter() { v.push(k.to_string()); }
        for n in crate::dict::names() { if !known.contains(&n.as_str()) { v.push(n); } }
        // two thirds are known ones
        let n = v.len();
        for k in 0..2 * n { v.push(known[k % 3].to_string()); }
        v
    })
}

pub struct C25;

impl Prop for C25 {
    const ID: &'static str = "C25";
    type Case = ParCase;
    fn rule() -> &'static str {
        "random sequences of creating solvers, setting known and unknown parameters to values of right and wrong types, and solving with stand-in commands that record how they are called; non-trivial: a solve after an accepted and a refused change, with at least two solvers"
    }
    fn assumptions() -> Vec<&'static str> { vec!["that Ipopt is given the values is checked with C23"] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 8000 } else { 200000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<ParCase> {
        let op = prop_oneof![
            2 => (0u8..3).prop_map(POp::New),
            8 => (any::<u8>(), prop::sample::select(keys().clone()), val()).prop_map(|(s, k, v)| POp::Set(s, k, v)),
            2 => any::<u8>().prop_map(POp::Solve),
        ];
        crate::dict::list(op.boxed(), 1, 16, 80).prop_map(|ops| ParCase { ops }).boxed()
    }
    fn check(c: &ParCase, ctx: &mut Ctx) -> Res {
        shim::install("fake");
        fake::reset(None);
        let r = par(c, ctx);
        clean(".");
        r
    }
}

fn par(c: &ParCase, ctx: &mut Ctx) -> Res {
    let mut s: Vec<(u8, Box<dyn Solver>, HashMap<String, Val>)> = vec![];
    let new = |k: u8| -> (u8, Box<dyn Solver>, HashMap<String, Val>) {
        let x = solver(k);
        let m = x.get_params().iter().map(|(k, v)| (k.clone(), Val::of(v))).collect();
        (k, x, m)
    };
    let first: Vec<HashMap<String, Val>> = (0..3).map(|k| new(k).2).collect();
    s.push(new(0));
    let (mut good, mut bad, mut calls) = (false, false, 0);
    let compare = |x: &dyn Solver, m: &HashMap<String, Val>, what: &str| -> Res {
        let p = x.get_params();
        ensure!(p.len() == m.len() && m.keys().all(|k| p.contains_key(k)), "{}: the parameters are {:?} instead of {:?}", what, p.keys().collect::<Vec<_>>(), m.keys().collect::<Vec<_>>());
        for (k, v) in m.iter() {
            let got = x.get_param(k).map(Val::of);
            ensure!(got.as_ref().map_or(false, |g| g.same(v)), "{}: {} is {:?} instead of {:?}", what, k, got, v);
        }
        for k in keys().iter() { ensure!(x.get_param(k).is_some() == m.contains_key(k), "{}: reading {:?} gives {:?}", what, k, x.get_param(k).map(Val::of)); }
        Ok(())
    };
    for (step, o) in c.ops.iter().enumerate() {
        match o {
            POp::New(k) => {
                let x = new(*k);
                let known: &[&str] = if k % 3 == 2 { &["print_level", "sb"] } else { &["logLevel"] };
                for n in known { ensure!(x.2.contains_key(*n), "{} has no parameter {}", NAMES[*k as usize % 3], n); }
                let fresh = &first[*k as usize % 3];
                ensure!(x.2.len() == fresh.len() && x.2.iter().all(|(n, v)| fresh.get(n).map_or(false, |w| w.same(v))), "new {} solvers differ in their parameters: {:?} and {:?}", NAMES[*k as usize % 3], x.2, fresh);
                s.push(x);
            }
            POp::Set(i, k, v) => {
                let i = *i as usize % s.len();
                let key = k.as_str();
                let (kind, x, m) = &mut s[i];
                let ok = m.get(key).map_or(false, |w| w.same_type(v));
                let r = guard("set_param", || x.set_param(key, v.param()))?;
                ensure!(r.is_ok() == ok, "step {}: setting {} of {} to {:?} {}", step, key, NAMES[*kind as usize % 3], v, if r.is_ok() { "is accepted" } else { "fails" });
                if ok { m.insert(key.to_string(), v.clone()); good = true; } else { bad = true; ctx.label(if m.contains_key(key) { "wrong type" } else { "unknown parameter" }); }
            }
            POp::Solve(i) => {
                let i = *i as usize % s.len();
                let (kind, x, m) = &s[i];
                if kind % 3 == 2 { continue; }
                let mut p = Problem::Lp(ProblemLp::new(vec![1.], CooMat::from_nnz((0, 1), 0), vec![], vec![0.], vec![1.], None));
                let (st, _) = guard("solve", || x.solve(&mut p))?.map_err(|e| format!("solve fails: {}", e))?;
                ensure!(st == SolverStatus::Solved, "status is {}", st);
                let cs = fake::calls();
                calls += 1;
                ensure!(cs.len() == calls, "the command was run {} times for {} solves", cs.len(), calls);
                let call = &cs[calls - 1];
                ensure!(call.name == NAMES[*kind as usize % 3], "{} was run instead of {}", call.name, NAMES[*kind as usize % 3]);
                let got = arg(call, "logLevel");
                let want = match m.get("logLevel") { Some(Val::Int(v)) => format!("{}", v), w => return Err(format!("logLevel is {:?}", w)) };
                ensure!(got.as_ref() == Some(&want), "step {}: {} was run with {:?}, logLevel is {}", step, call.name, call.args, want);
                if good && bad && s.len() >= 2 { ctx.nontrivial(); }
                ctx.label("solve");
            }
        }
        for (k, (kind, x, m)) in s.iter().enumerate() { compare(x.as_ref(), m, &format!("step {}, {} solver {}", step, NAMES[*kind as usize % 3], k))?; }
    }
    Ok(())
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Env { Normal, NoCommand, NotExecutable, NoDir, NoTmp,
    /// logLevel removed or of another type
    NoParam(bool),
    /// Files cannot grow beyond so many bytes
    Full(u16)  }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FailCase { pub p: ProbCase, pub clp: bool, pub env: Env, pub head: u8, pub body: Vec<(f64, f64)>, pub body_rows: Vec<f64>, pub out: u8, pub cut: u16, pub garbage: Vec<u8>, pub eat: bool, pub noise: bool, pub end: End, pub log: i32 }

pub struct C26;

impl Prop for C26 {
    const ID: &'static str = "C26";
    type Case = FailCase;
    fn rule() -> &'static str {
        "random problems solved with stand-in commands that follow a random plan: missing, not executable, writing nothing, a full, a cut or a garbage solution file or a directory, removing the input, ending with any code or signal; also without working or temporary directory, on a full disk, or without the parameter logLevel; non-trivial: the command ran and did not end well or did not write a full solution"
    }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 16_000 } else { 300_000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<FailCase> {
        let env = prop_oneof![12 => Just(Env::Normal), 1 => Just(Env::NoCommand), 1 => Just(Env::NotExecutable), 1 => Just(Env::NoDir), 1 => Just(Env::NoTmp), 1 => any::<bool>().prop_map(Env::NoParam), 2 => prop_oneof![0u16..400, 400u16..3000].prop_map(Env::Full)];
        let end = prop_oneof![4 => Just(End::Exit(0)), 3 => (1i32..256).prop_map(End::Exit), 2 => prop::sample::select(vec![libc::SIGKILL, libc::SIGABRT, libc::SIGTERM, libc::SIGSEGV, libc::SIGPIPE]).prop_map(End::Signal)];
        let num = || prop_oneof![Just(0.), (-40i32..41).prop_map(|x| x as f64 / 4.)];
        ((prob_case(vec![LP, LP, MILP]), any::<bool>(), env, any::<u8>(), prop::collection::vec((num(), num()), 6), prop::collection::vec(num(), 6)),
         (0u8..10, any::<u16>(), prop::collection::vec(any::<u8>(), 0..40), prop::bool::weighted(0.15), any::<bool>(), end, 0i32..6))
            .prop_map(|((p, clp, env, head, body, body_rows), (out, cut, garbage, eat, noise, end, log))| FailCase { p, clp, env, head, body, body_rows, out, cut, garbage, eat, noise, end, log }).boxed()
    }
    fn check(c: &FailCase, ctx: &mut Ctx) -> Res {
        shim::install("fake");
        let r = fail(c, ctx);
        clean(".");
        clean(tmp_dir().to_str().unwrap());
        r
    }
}

fn fail(c: &FailCase, ctx: &mut Ctx) -> Res {
    let clp = c.clp && c.p.kind == LP;
    let (nx, na) = (c.p.nx, c.p.na());
    let (head, kind) = crate::p_sol::head(!clp, c.head);
    let mut text = head.to_string() + "\n";
    for k in 0..na { text += &format!("{:7} {:<15} {:15} {:15}\n", k, format!("c_{}", k), 0, c.body_rows[k % 6]); }
    for k in 0..nx { text += &format!("{:7} {:<15} {:15} {:15}\n", k, format!("x_{}", k), c.body[k % 6].0, c.body[k % 6].1); }
    let full = c.out < 4;
    let cut_at = c.cut as usize % text.len();
    let plan = Plan {
        out: match c.out { 0..=3 => Some(text.clone().into_bytes()), 4 | 5 => Some(text.as_bytes()[..cut_at].to_vec()), 6 => Some(c.garbage.clone()), 7 => Some(vec![]), _ => None },
        eat_input: c.eat, out_dir: c.out == 9, noise: c.noise as u8 + (c.noise && c.cut % 20 == 0) as u8, end: c.end.clone(),
    };
    fake::reset(Some(&plan));
    // Files of others stay
    fs::write("mine.lp", "1").ok();
    fs::write("cbc.sol", "2").ok();
    fs::write("clp_old.sol", "Optimal - objective value 1\n").ok();
    let before = dir_listing(".");
    let mut s: Box<dyn Solver> = solver(clp as u8);
    s.set_param("logLevel", SolverParam::IntParam(c.log)).map_err(|e| e.to_string())?;
    let mut p = c.p.build();
    let v0 = view(&p);
    let path = std::env::var("PATH").unwrap();
    let tmp = tmp_dir();
    let home = std::env::current_dir().unwrap();
    std::env::set_var("TMPDIR", &tmp);
    match c.env {
        Env::Normal => (),
        Env::NoCommand => std::env::set_var("PATH", &tmp.parent().unwrap().join("nowhere")),
        Env::NotExecutable => {
            let d = tmp.parent().unwrap().join("plain");
            fs::create_dir_all(&d).unwrap();
            fs::write(d.join("cbc"), "not a program").unwrap();
            fs::write(d.join("clp"), "not a program").unwrap();
            std::env::set_var("PATH", &d);
        }
        Env::NoDir => { let d = tmp.parent().unwrap().join("gone"); fs::create_dir_all(&d).unwrap(); std::env::set_current_dir(&d).unwrap(); fs::remove_dir(&d).unwrap(); }
        Env::NoTmp => std::env::set_var("TMPDIR", tmp.join("none")),
        Env::NoParam(gone) => { if gone { s.get_params_mut().remove("logLevel"); } else { s.get_params_mut().insert("logLevel".into(), SolverParam::StrParam("1".into())); } }
        Env::Full(n) => fake::file_limit(Some(n as u64)),
    }
    let r = guard("solve", || s.solve(&mut p));
    if matches!(c.env, Env::Full(_)) { fake::file_limit(None); }
    std::env::set_var("PATH", &path);
    std::env::set_current_dir(&home).unwrap();
    std::env::remove_var("TMPDIR");
    let r = r?;
    let calls = fake::calls();
    ensure!(calls.len() <= 1, "the command was run {} times", calls.len());
    let after = dir_listing(".");
    // A directory in place of the solution file is the command's
    let is_out_dir = |n: &String| c.out == 9 && calls.first().map_or(false, |k| k.args.last() == Some(n));
    let left: Vec<&String> = after.iter().filter(|n| !before.contains(n) && !is_out_dir(n)).collect();
    ensure!(left.is_empty(), "files {:?} are left behind (result {:?})", left, r.as_ref().map(|x| format!("{}", x.0)).map_err(|e| e.to_string()));
    ensure!(before.iter().all(|n| after.contains(n)), "files {:?} are missing", before.iter().filter(|n| !after.contains(n)).collect::<Vec<_>>());
    ensure!(fs::read_to_string("mine.lp").ok().as_deref() == Some("1") && fs::read_to_string("cbc.sol").ok().as_deref() == Some("2"), "files of others are changed");
    let left = dir_listing(tmp.to_str().unwrap());
    ensure!(left.is_empty(), "temporary files {:?} are left behind", left);
    ensure!(view(&p) == v0, "the problem is changed");
    let ran = !calls.is_empty();
    match c.env {
        Env::Normal => ensure!(ran, "the command was not run: {:?}", r.as_ref().map(|x| format!("{}", x.0)).map_err(|e| e.to_string())),
        Env::NoCommand | Env::NotExecutable => ensure!(!ran && r.is_err(), "the command cannot be run, but solving gives a result"),
        Env::NoDir => ensure!(r.is_err(), "files cannot be written, but solving gives a result"),
        Env::NoTmp | Env::NoParam(_) => (),
        // the input could not be written in full: nothing to run (see below for what it was run on)
        Env::Full(_) => ensure!(ran || r.is_err(), "files cannot be written, but solving gives a result"),
    }
    if let Some(call) = calls.first() {
        ensure!(call.name == if clp { "clp" } else { "cbc" }, "{} was run", call.name);
        let lp = call.lp.as_ref().ok_or("the command was run without an input file")?;
        let lp = crate::lp::parse(lp).map_err(|e| format!("the input is not in LP format: {}", e))?;
        crate::lp::states(&lp, &c.p.c, &c.p.a, &c.p.b, &c.p.l(), &c.p.u(), &c.p.p).map_err(|e| format!("the input states another problem: {}", e))?;
        ensure!(matches!(c.env, Env::NoParam(_)) || arg(call, "logLevel") == Some(c.log.to_string()), "the command was run with {:?}", call.args);
    }
    match &r {
        Ok((st, sol)) => {
            sizes(sol, nx, na)?;
            let said = ran && plan.out.as_ref().map_or(false, |b| b.to_ascii_lowercase().trim_ascii_start().starts_with(b"optimal"));
            ensure!(*st != SolverStatus::Solved || said, "solved is reported, the command wrote {:?}", plan.out.as_ref().map(|b| String::from_utf8_lossy(b).to_string()));
            if ran && full {
                let want = [SolverStatus::Solved, SolverStatus::Infeasible, SolverStatus::Error];
                ensure!(*st == want[kind as usize], "status is {} for {:?}", st, head);
                if kind == 0 {
                    for k in 0..nx {
                        let (v, m) = c.body[k % 6];
                        ensure!(sol.x[k] == v && sol.pi[k] == m.max(0.) && sol.mu[k] == (-m).max(0.), "variable {} has {:?}, {:?}, {:?} instead of {:?} and {:?}", k, sol.x[k], sol.pi[k], sol.mu[k], v, m);
                    }
                    for k in 0..na { ensure!(sol.lam[k] == c.body_rows[k % 6], "row {} has {:?} instead of {:?}", k, sol.lam[k], c.body_rows[k % 6]); }
                }
            } else if ran && c.out >= 7 {
                ensure!(*st == SolverStatus::Error, "status is {} without a solution file", st);
            }
        }
        Err(_) => ensure!(!(ran && full && matches!(c.end, End::Exit(0))) || matches!(c.env, Env::NoParam(_)), "solving fails, but the command wrote {:?}", text),
    }
    ctx.label(match c.env { Env::Normal => "command runs", Env::NoCommand => "no command", Env::NotExecutable => "not executable", Env::NoDir => "no working directory", Env::NoTmp => "no temporary directory", Env::NoParam(_) => "no logLevel", Env::Full(_) => if ran { "full disk, input fits" } else { "full disk" } });
    if ran {
        ctx.label(["full file", "cut file", "garbage", "empty file", "no file", "directory"][match c.out { 0..=3 => 0, 4 | 5 => 1, 6 => 2, 7 => 3, 8 => 4, _ => 5 }]);
        ctx.label(match c.end { End::Exit(0) => "exit 0", End::Exit(_) => "exit nonzero", End::Signal(_) => "signal" });
        ctx.label(match &r { Ok((s, _)) => match s { SolverStatus::Solved => "solved", SolverStatus::Infeasible => "infeasible", _ => "status error" }, Err(_) => "returns an error" });
        if !full || !matches!(c.end, End::Exit(0)) { ctx.nontrivial(); }
    }
    Ok(())
}

fn sizes(sol: &ProblemSol, nx: usize, na: usize) -> Res {
    ensure!(sol.x.len() == nx && sol.lam.len() == na && sol.nu.is_empty() && sol.mu.len() == nx && sol.pi.len() == nx, "sizes of the solution do not fit the problem");
    Ok(())
}

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What { Hand(ProbCase), Model(ModelCase) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RefCase { pub what: What, pub solver: u8, pub pt: Vec<f64> }

pub struct C27;
const L27: Limits = Limits { size: 12, order: 0, raw: true };

impl Prop for C27 {
    const ID: &'static str = "C27";
    type Case = RefCase;
    fn rule() -> &'static str {
        "random hand-made problems of all four types and random models, given to each solver, with stand-in cbc and clp that record being run; non-trivial: the problem has integer variables or nonlinear constraints that the solver would have to ignore"
    }
    fn assumptions() -> Vec<&'static str> { vec!["that Ipopt accepts the types it documents is checked with C23 and C24"] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 30_000 } else { 500_000 } }
    fn strategy(_t: Tier) -> BoxedStrategy<RefCase> {
        let o = Opt { mix: Mix::General, len: 5, max_vars: 4, max_cons: 4, wide: false, unique: false, ints: true, bounds: 4 };
        let what = prop_oneof![
            3 => prob_case(vec![LP, MILP, MILP, NLP, NLP, MINLP, MINLP]).prop_map(What::Hand),
            2 => prop_oneof![model_case(o), model_case(Opt { mix: Mix::Linear, ..o })].prop_map(What::Model),
        ];
        (what, 0u8..3, prop::collection::vec(-2.0f64..2.0, 1..4)).prop_map(|(what, solver, pt)| RefCase { what, solver, pt }).boxed()
    }
    fn describe(c: &RefCase) -> Option<String> { match &c.what { What::Model(m) => m.text(&L27).map(|t| format!("{}: {}", NAMES[c.solver as usize % 3], t)), _ => None } }
    fn check(c: &RefCase, ctx: &mut Ctx) -> Res {
        shim::install("fake");
        fake::reset(None);
        fs::write("mine.txt", "1").ok();
        let r = refuse(c, ctx);
        clean(".");
        r
    }
}

fn refuse(c: &RefCase, ctx: &mut Ctx) -> Res {
    let s = solver(c.solver);
    let accepts = |k: &str| match c.solver % 3 { 0 => k == "lp" || k == "milp", 1 => k == "lp", _ => k == "lp" || k == "nlp" };
    let nothing_run = || -> Res {
        let calls = fake::calls();
        ensure!(calls.is_empty(), "{:?} was run", calls.iter().map(|c| &c.name).collect::<Vec<_>>());
        ensure!(dir_listing(".") == vec!["mine.txt"], "files {:?} are there", dir_listing("."));
        Ok(())
    };
    match &c.what {
        What::Hand(h) => {
            let mut p = h.build();
            let v = view(&p);
            let ok = accepts(v.kind);
            if ok && c.solver % 3 == 2 { ctx.label("ipopt, accepted type"); return Ok(()); }
            let x: Vec<f64> = (0..h.nx).map(|i| c.pt[i % c.pt.len()]).collect();
            let e = eval(&mut p, &x);
            let r = guard("solve", || s.solve(&mut p))?;
            ctx.label(&format!("{} to {}", v.kind, NAMES[c.solver as usize % 3]));
            ensure!(view(&p) == v, "the problem is changed");
            if ok {
                let (st, sol) = r.map_err(|e| format!("a {} is refused: {}", v.kind, e))?;
                ensure!(st == SolverStatus::Solved, "status is {}", st);
                sizes(&sol, h.nx, h.na())?;
                for i in 0..h.nx {
                    ensure!((sol.x[i] - h.c[i]).abs() <= 1e-9 * h.c[i].abs(), "the solution is not that of the command");
                }
                ensure!(fake::calls().len() == 1, "the command was run {} times", fake::calls().len());
                ensure!(dir_listing(".") == vec!["mine.txt"], "files {:?} are there", dir_listing("."));
            } else {
                ensure!(r.is_err(), "a {} problem is accepted", v.kind);
                nothing_run()?;
                let now = eval_state(&p);
                if let (Some(a), true) = (now, h.nlp()) { ensure!(a == (e.phi, e.f.clone()), "the problem was evaluated"); }
                if h.p.iter().any(|x| *x) || h.nf() > 0 { ctx.nontrivial(); }
            }
        }
        What::Model(mc) => {
            let m = mc.resolve(&L27)?;
            let mut model = m.model();
            let kind = { let sp = guard("std_problem", || model.std_problem())?; view(&sp.prob).kind };
            ctx.label(&format!("model's {} to {}", kind, NAMES[c.solver as usize % 3]));
            if accepts(kind) {
                if c.solver % 3 == 2 { return Ok(()); }
                let r = guard("solve", || model.solve(s.as_ref()))?;
                ensure!(r.is_ok(), "a model that is a {} is refused: {:?}", kind, r.err().map(|e| e.to_string()));
                ensure!(model.solver_status().is_some(), "no status");
            } else {
                let r = guard("solve", || model.solve(s.as_ref()))?;
                ensure!(r.is_err(), "a model that is a {} is accepted", kind);
                ensure!(model.solver_status().is_none() && model.final_primals().is_empty() && model.final_duals().is_empty(), "there are results after a refusal");
                nothing_run()?;
                ctx.nontrivial();
            }
        }
    }
    Ok(())
}

/// Values as they are, without evaluating.
fn eval_state(p: &Problem) -> Option<(f64, Vec<f64>)> {
    match p { Problem::Nlp(q) => Some((q.phi(), q.f().to_vec())), Problem::Minlp(q) => Some((q.phi(), q.f().to_vec())), _ => None }
}

// ---------------------------------------------------------------- C28

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job { pub clp: bool, pub tag: u8, pub nx: u8, pub na: u8, pub delay_ms: u8, pub id: u16 }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ParallelCase { pub threads: Vec<Vec<Job>>, pub procs: Vec<Vec<Job>> }

impl Job {
    fn build(&self) -> Problem {
        let (nx, na) = (self.nx as usize, self.na as usize);
        let (c, b, l) = self.data();
        let a = CooMat::new((na, nx), (0..na).collect(), (0..na).map(|k| k % nx).collect(), vec![1.; na]);
        let u = vec![5000.; nx];
        if self.clp { Problem::Lp(ProblemLp::new(c, a, b, l, u, None)) } else { Problem::Milp(ProblemMilp::new(c, a, b, l, u, vec![self.tag % 2 == 0; nx], None)) }
    }
    fn data(&self) -> (Vec<f64>, Vec<f64>, Vec<f64>) {
        let id = self.id as f64;
        let first = match self.tag { 0 => 1013., 1 => 1014., 2 => 1015., 3 => 1016., t => t as f64 + 2. };
        let c = (0..self.nx as usize).map(|i| if i == 0 { first } else { id + i as f64 }).collect();
        let b = (0..self.na as usize).map(|i| id * 2. + i as f64 + 1.).collect();
        let l = (0..self.nx as usize).map(|i| -id - i as f64 - 1.).collect();
        (c, b, l)
    }
    /// Solves and says what is wrong with the result.
    pub fn run(&self) -> Res {
        std::thread::sleep(std::time::Duration::from_millis(self.delay_ms as u64));
        let mut s = solver(self.clp as u8);
        s.set_param("logLevel", SolverParam::IntParam(0)).map_err(|e| e.to_string())?;
        let mut p = self.build();
        let r = guard("solve", || s.solve(&mut p))?;
        let (c, b, l) = self.data();
        match (self.tag, r) {
            (1, r) => ensure!(r.is_err(), "job {}: a damaged solution is accepted", self.id),
            (_, Err(e)) => return Err(format!("job {:?}: solve fails: {}", self, e)),
            (0, Ok((st, _))) | (3, Ok((st, _))) => ensure!(st == SolverStatus::Error, "job {:?}: status is {}, the command failed", self, st),
            (2, Ok((st, _))) => ensure!(st == SolverStatus::Infeasible, "job {:?}: status is {}, its command said infeasible", self, st),
            (_, Ok((st, sol))) => {
                ensure!(st == SolverStatus::Solved, "job {:?}: status is {}, its command said optimal", self, st);
                ensure!(sol.x == c && sol.lam == b && sol.mu == l.iter().map(|x| -x).collect::<Vec<_>>(), "job {:?}: the solution is that of another problem: {:?}", self, sol);
            }
        }
        Ok(())
    }
}

/// A process that solves some jobs in the working directory.
pub fn worker(spec: &str) -> i32 {
    crate::fw::install_hook();
    let jobs: Vec<Job> = serde_json::from_str(spec).unwrap();
    let mut bad = String::new();
    for j in jobs { if let Err(e) = j.run() { bad = e; } }
    println!("{}", bad);
    !bad.is_empty() as i32
}

pub struct C28;

impl Prop for C28 {
    const ID: &'static str = "C28";
    type Case = ParallelCase;
    fn rule() -> &'static str {
        "random sets of solves with cbc and clp stand-ins (answering with the data of the problem they read, some of them failing) started with random delays from several threads and processes in one working directory; non-trivial: at least three solves at a time, of which two are in one process and one in another"
    }
    fn assumptions() -> Vec<&'static str> { vec!["schedules are those that random delays make, not all of them"] }
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 2_000 } else { 40_000 } }
    fn shrink_iters() -> u32 { 300 }
    fn replay_runs() -> u32 { 100 }
    fn strategy(_t: Tier) -> BoxedStrategy<ParallelCase> {
        let job = (any::<bool>(), prop_oneof![1 => 0u8..4, 4 => 4u8..40], 1u8..5, 0u8..4, 0u8..6, any::<u16>()).prop_map(|(clp, tag, nx, na, delay_ms, id)| Job { clp, tag, nx, na, delay_ms, id: id % 1000 });
        let list = prop::collection::vec(job, 1..3);
        (prop::collection::vec(list.clone(), 1..5), prop::collection::vec(list, 0..4)).prop_map(|(threads, procs)| {
            // Each job its own problem
            let mut c = ParallelCase { threads, procs };
            let mut id = 0;
            for j in c.threads.iter_mut().chain(c.procs.iter_mut()).flatten() { id += 1; j.id = id * 10 + j.id % 10; }
            c
        }).boxed()
    }
    fn check(c: &ParallelCase, ctx: &mut Ctx) -> Res {
        shim::install("fake");
        fake::reset(None);
        fs::write("mine.lp", "1").ok();
        let r = parallel(c, ctx);
        clean(".");
        r
    }
}

fn parallel(c: &ParallelCase, ctx: &mut Ctx) -> Res {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let kids: Vec<_> = c.procs.iter().map(|jobs| std::process::Command::new(&exe).arg("jobs").arg(serde_json::to_string(jobs).unwrap())
        .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap()).collect();
    let mut res: Vec<Res> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = c.threads.iter().map(|jobs| s.spawn(move || -> Res { for j in jobs { j.run()?; } Ok(()) })).collect();
        for h in hs { res.push(h.join().unwrap_or(Err("a thread panicked".into()))); }
    });
    for k in kids {
        let o = k.wait_with_output().map_err(|e| e.to_string())?;
        let t = String::from_utf8_lossy(&o.stdout).trim().to_string();
        res.push(if o.status.code() == Some(0) && t.is_empty() { Ok(()) } else { Err(if t.is_empty() { format!("a process ended with {:?}", o.status) } else { t }) });
    }
    for r in res { r?; }
    let n: usize = c.threads.iter().chain(c.procs.iter()).map(|j| j.len()).sum();
    ensure!(fake::calls().len() == n, "commands were run {} times for {} solves", fake::calls().len(), n);
    ensure!(dir_listing(".") == vec!["mine.lp"], "files {:?} are there at the end", dir_listing("."));
    ctx.label_n("solves", n as u64);
    if c.threads.len() >= 2 && !c.procs.is_empty() { ctx.nontrivial(); }
    Ok(())
}
