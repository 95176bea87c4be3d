//! Driver: runs a property's check over generated cases in child processes,
//! collects statistics, shrinks and saves failures, writes the evidence file.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

pub const SHARDS: u32 = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

/// Collects what a check saw in one case.
#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
}

impl Ctx {
    pub fn label(&mut self, s: &str) { *self.labels.entry(s.to_string()).or_insert(0) += 1; }
    pub fn label_n(&mut self, s: &str, n: u64) { *self.labels.entry(s.to_string()).or_insert(0) += n; }
    pub fn label_if(&mut self, b: bool, s: &str) { if b { self.label(s) } }
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}

pub trait Prop {
    const ID: &'static str;
    type Case: Serialize + DeserializeOwned + Debug + Clone;
    /// How cases are made and what makes one non-trivial.
    fn rule() -> &'static str;
    fn assumptions() -> Vec<&'static str> { vec![] }
    /// Level name for the evidence file.
    fn level() -> &'static str { "exploration" }
    /// Total number of cases over all shards.
    fn cases(tier: Tier) -> u32;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn check(case: &Self::Case, ctx: &mut Ctx) -> Res;
    /// Number of times a replayed case is checked (nondeterminism in the code under test).
    fn replay_runs() -> u32 { 30 }
    fn shrink_iters() -> u32 { 3000 }
    /// Human-readable form of a case.
    fn describe(_case: &Self::Case) -> Option<String> { None }
}

pub trait DynProp {
    fn id(&self) -> &'static str;
    fn child(&self, a: &ChildArgs) -> i32;
    fn replay(&self, text: &str) -> i32;
    fn parent(&self) -> i32;
}

pub struct P<T: Prop>(pub std::marker::PhantomData<T>);
pub fn p<T: Prop + 'static>() -> Box<dyn DynProp> { Box::new(P::<T>(std::marker::PhantomData)) }

pub struct ChildArgs {
    pub seed: u64,
    pub shard: u32,
    pub tier: Tier,
    pub dir: PathBuf,
    pub corpus: PathBuf,
}

#[derive(Serialize, Deserialize, Default)]
struct ChildReport {
    evaluations: u64,
    corpus: u64,
    hashes: Vec<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    failure: Option<Failure>,
}

#[derive(Serialize, Deserialize, Clone)]
struct Failure {
    property: String,
    message: String,
    case: serde_json::Value,
    #[serde(default)]
    describe: Option<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

/// Cases are saved as JSON, which has no infinities or NaN: these numbers
/// stand for them.
pub const INF_CODE: f64 = 1e301;
pub const NAN_CODE: f64 = 2e301;
pub fn decode(x: f64) -> f64 {
    if x == INF_CODE { f64::INFINITY } else if x == -INF_CODE { f64::NEG_INFINITY } else if x == NAN_CODE { f64::NAN } else { x }
}

/// Panics are reported through `guard`, not on stderr.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                  else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
                  else { "?".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Runs f, turning a panic into an error.
pub fn guard<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("{} panicked: {}", what, m))
        }
    }
}

fn checked<T: Prop>(case: &T::Case, ctx: &mut Ctx) -> Res {
    match guard("check", || T::check(case, ctx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

fn hash_str(s: &str) -> u64 {
    // FNV-1a: stable over runs
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn seed_bytes(seed: u64, id: &str, shard: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut z = seed ^ hash_str(id).rotate_left(17) ^ ((shard as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15));
    for k in 0..4 {
        z = z.wrapping_add(0x9E3779B97F4A7C15);
        let mut x = z;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
        x ^= x >> 31;
        out[k * 8..k * 8 + 8].copy_from_slice(&x.to_le_bytes());
    }
    out
}

/// For trying changes: the first failure is reported as it is.
fn fast() -> bool { std::env::var_os("NV_FAST").is_some() }

/// Keeps the case being run where the parent finds it after a crash.
struct Current { f: fs::File, running: fs::File }
impl Current {
    fn new(dir: &Path) -> Current {
        let open = |name: &str| fs::OpenOptions::new().create(true).write(true).open(dir.join(name)).unwrap();
        Current { f: open("current.json"), running: open("running") }
    }
    /// The check of the case has ended: what follows is generation or shrinking.
    fn done(&self) { self.running.write_all_at(b"0", 0).ok(); }
    fn is_running(dir: &Path) -> bool { fs::read(dir.join("running")).map_or(false, |b| b == b"1") }
    fn set(&self, s: &str) {
        self.running.write_all_at(b"1", 0).ok();
        let mut b = Vec::with_capacity(s.len() + 9);
        b.extend_from_slice(&(s.len() as u64).to_le_bytes());
        b.extend_from_slice(s.as_bytes());
        self.f.write_all_at(&b, 0).ok();
    }
    fn read(dir: &Path) -> Option<String> {
        let b = fs::read(dir.join("current.json")).ok()?;
        if b.len() < 8 { return None; }
        let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        if n == 0 || b.len() < 8 + n { return None; }
        String::from_utf8(b[8..8 + n].to_vec()).ok()
    }
}

impl<T: Prop + 'static> DynProp for P<T> {
    fn id(&self) -> &'static str { T::ID }

    fn child(&self, a: &ChildArgs) -> i32 {
        install_hook();
        let report_path = a.dir.join("report.json");
        let work = a.dir.join("work");
        fs::create_dir_all(&work).unwrap();
        std::env::set_current_dir(&work).unwrap();
        let cur = Current::new(&a.dir);
        let mut rep = ChildReport::default();
        let mut hashes: HashSet<u64> = HashSet::new();

        // Regression cases first (split over the shards)
        let mut files: Vec<PathBuf> = fs::read_dir(&a.corpus).map(|d| d.filter_map(|e| e.ok())
            .map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "json")).collect()).unwrap_or_default();
        files.sort();
        for (k, f) in files.iter().enumerate() {
            if k as u32 % SHARDS != a.shard { continue; }
            let text = fs::read_to_string(f).unwrap();
            let fail: Failure = match serde_json::from_str(&text) {
                Ok(x) => x,
                Err(e) => { eprintln!("corpus {}: {}", f.display(), e); return 2; }
            };
            let case: T::Case = match serde_json::from_value(fail.case.clone()) {
                Ok(c) => c,
                Err(e) => { eprintln!("corpus {}: {}", f.display(), e); return 2; }
            };
            cur.set(&serde_json::to_string(&fail.case).unwrap());
            rep.corpus += 1;
            for _ in 0..5 {
                let mut ctx = Ctx::default();
                if let Err(m) = checked::<T>(&case, &mut ctx) {
                    rep.failure = Some(Failure { property: T::ID.into(), message: format!("{} (regression case {})", m, f.display()),
                        case: fail.case.clone(), describe: described::<T>(&case) });
                    fs::write(&report_path, serde_json::to_string(&rep).unwrap()).unwrap();
                    return 1;
                }
            }
        }

        cur.done();
        let total = std::env::var("NV_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(T::cases(a.tier));
        let per = (total + SHARDS - 1) / SHARDS;
        let config = Config {
            cases: per,
            failure_persistence: None,
            max_shrink_iters: if fast() { 0 } else { T::shrink_iters() },
            max_shrink_time: if a.tier == Tier::Quick { 45_000 } else { 300_000 },
            max_global_rejects: 1,
            source_file: None,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(a.seed, T::ID, a.shard));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strat = T::strategy(a.tier);
        struct St { rep: ChildReport, hashes: HashSet<u64>, failed: bool, next_sample: u64, best: Option<(usize, String)> }
        let st = RefCell::new(St { rep, hashes: std::mem::take(&mut hashes), failed: false, next_sample: 1, best: None });
        let slow_ms: Option<u128> = std::env::var("NV_SLOW").ok().and_then(|s| s.parse().ok());
        let result = runner.run(&strat, |case| {
            let js = serde_json::to_string(&case).unwrap();
            cur.set(&js);
            let mut ctx = Ctx::default();
            let t0 = Instant::now();
            let r = checked::<T>(&case, &mut ctx);
            cur.done();
            if let Some(ms) = slow_ms {
                if t0.elapsed().as_millis() > ms { eprintln!("slow {:?}: {}", t0.elapsed(), js); }
            }
            let mut s = st.borrow_mut();
            if !s.failed {
                s.rep.evaluations += 1;
                for (k, v) in ctx.labels.iter() { *s.rep.labels.entry(k.clone()).or_insert(0) += v; }
                if ctx.nontrivial {
                    let fresh = s.hashes.insert(hash_str(&js));
                    let n = s.hashes.len() as u64;
                    if fresh && n >= s.next_sample && s.rep.samples.len() < 4 && js.len() < 6000 {
                        s.next_sample = n * 7;
                        let mut v = serde_json::json!({"case": serde_json::from_str::<serde_json::Value>(&js).unwrap()});
                        if let Some(d) = described::<T>(&case) { v["reads"] = d.into(); }
                        s.rep.samples.push(v);
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    s.failed = true;
                    let better = s.best.as_ref().map_or(true, |b| js.len() <= b.0);
                    if better {
                        s.best = Some((js.len(), m.clone()));
                        // In case that making it smaller takes too long
                        let f = Failure { property: T::ID.into(), message: m.clone(),
                            case: serde_json::from_str(&js).unwrap(), describe: described::<T>(&case) };
                        let part = a.dir.join("best.part");
                        if fs::write(&part, serde_json::to_string(&f).unwrap()).is_ok() {
                            fs::rename(&part, a.dir.join("best.json")).ok();
                            let first = a.dir.join("failed");
                            if !first.exists() { fs::write(&first, b"").ok(); }
                        }
                    }
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let mut st = st.into_inner();
        st.rep.hashes = st.hashes.into_iter().collect();
        let code = match result {
            Ok(()) => 0,
            Err(TestError::Fail(reason, case)) => {
                st.rep.failure = Some(Failure {
                    property: T::ID.into(),
                    message: reason.message().to_string(),
                    case: serde_json::to_value(&case).unwrap(),
                    describe: described::<T>(&case),
                });
                1
            }
            Err(e) => { eprintln!("{}: {:?}", T::ID, e); 2 }
        };
        fs::write(&report_path, serde_json::to_string(&st.rep).unwrap()).unwrap();
        code
    }

    fn replay(&self, text: &str) -> i32 {
        install_hook();
        let dir = scratch_dir("replay");
        let work = dir.join("work");
        fs::create_dir_all(&work).unwrap();
        std::env::set_current_dir(&work).unwrap();
        let fail: Failure = serde_json::from_str(text).expect("replay file");
        let case: T::Case = serde_json::from_value(fail.case).expect("case of replay file");
        if let Some(d) = T::describe(&case) { println!("{}", d); }
        let mut code = 0;
        for _ in 0..T::replay_runs() {
            let mut ctx = Ctx::default();
            if let Err(m) = checked::<T>(&case, &mut ctx) {
                println!("REPLAY property={} fails: {}", T::ID, m);
                code = 1;
                break;
            }
        }
        if code == 0 { println!("REPLAY property={} passes", T::ID); }
        std::env::set_current_dir("/").ok();
        fs::remove_dir_all(&dir).ok();
        code
    }

    fn parent(&self) -> i32 {
        let t0 = Instant::now();
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => Tier::Thorough, _ => Tier::Quick };
        let root = verif_root();
        let dir = scratch_dir(T::ID);
        let exe = std::env::current_exe().unwrap();
        let mut kids = Vec::new();
        for shard in 0..SHARDS {
            let d = dir.join(format!("s{}", shard));
            fs::create_dir_all(&d).unwrap();
            let err = fs::File::create(d.join("err.txt")).unwrap();
            let child = Command::new(&exe)
                .arg("child").arg(T::ID).arg(shard.to_string()).arg(seed.to_string())
                .arg(if tier == Tier::Quick { "quick" } else { "thorough" })
                .arg(&d).arg(root.join("corpus").join(T::ID))
                .stdin(Stdio::null()).stdout(Stdio::null()).stderr(err)
                .spawn().unwrap();
            kids.push((shard, d, child, None));
        }
        let limit = Duration::from_secs(if tier == Tier::Quick { 700 } else { 7200 });
        // A case that goes on for so long does not end
        let stuck_after = Duration::from_secs(if tier == Tier::Quick { 150 } else { 900 });
        // A failure that takes so long to make smaller is reported as it is
        let shrink_limit = Duration::from_secs(if tier == Tier::Quick { 90 } else { 600 });
        let mut seen: Vec<(Option<std::time::SystemTime>, Instant, bool)> = kids.iter().map(|_| (None, Instant::now(), false)).collect();
        let mut timeout = false;
        loop {
            if fast() && kids.iter().any(|k| k.1.join("failed").exists()) {
                for k in kids.iter_mut() { if k.3.is_none() { k.2.kill().ok(); k.3 = Some(k.2.wait().unwrap()); } }
            }
            let mut open = 0;
            for (k, s) in kids.iter_mut().zip(seen.iter_mut()) {
                if k.3.is_some() { continue; }
                let m = fs::metadata(k.1.join("current.json")).and_then(|m| m.modified()).ok();
                if m.is_none() || m != s.0 { *s = (m, Instant::now(), false); }
                else if s.1.elapsed() > stuck_after && Current::is_running(&k.1) {
                    s.2 = true;
                    k.2.kill().ok();
                    k.3 = Some(k.2.wait().unwrap());
                }
                let shrinking = fs::metadata(k.1.join("failed")).and_then(|m| m.modified()).ok()
                    .and_then(|m| m.elapsed().ok());
                if k.3.is_none() && shrinking.map_or(false, |d| d > shrink_limit) {
                    k.2.kill().ok();
                    k.3 = Some(k.2.wait().unwrap());
                }
            }
            for k in kids.iter_mut() {
                if k.3.is_none() {
                    match k.2.try_wait().unwrap() {
                        Some(s) => k.3 = Some(s),
                        None => open += 1,
                    }
                }
            }
            if open == 0 { break; }
            if t0.elapsed() > limit {
                timeout = true;
                for k in kids.iter_mut() { if k.3.is_none() { k.2.kill().ok(); k.3 = Some(k.2.wait().unwrap()); } }
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        let mut total = ChildReport::default();
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut failures: Vec<Failure> = Vec::new();
        let mut errors: Vec<String> = Vec::new();
        for ((shard, d, _c, status), s) in kids.iter().zip(seen.iter()) {
            let status = status.unwrap();
            let best: Option<Failure> = fs::read_to_string(d.join("best.json")).ok()
                .and_then(|t| serde_json::from_str(&t).ok());
            if s.2 && best.is_none() {
                if let Some(js) = Current::read(d) {
                    failures.push(Failure {
                        property: T::ID.into(),
                        message: format!("this does not end within {} s", stuck_after.as_secs()),
                        case: serde_json::from_str(&js).unwrap_or(serde_json::Value::Null),
                        describe: None,
                    });
                    continue;
                }
            }
            // (cut off if the child was ended while it wrote it)
            let report: Option<ChildReport> = fs::read_to_string(d.join("report.json")).ok()
                .and_then(|t| serde_json::from_str(&t).ok());
            if let Some(r) = report {
                total.evaluations += r.evaluations;
                total.corpus += r.corpus;
                distinct.extend(r.hashes);
                for (k, v) in r.labels { *total.labels.entry(k).or_insert(0) += v; }
                for s in r.samples { if total.samples.len() < 6 { total.samples.push(s); } }
                if let Some(f) = r.failure { failures.push(f); }
                if status.code() == Some(2) { errors.push(format!("shard {} failed: {}", shard, tail(&d.join("err.txt")))); }
            } else if let Some(f) = best {
                failures.push(f);
            } else {
                match status.signal() {
                    Some(s) if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGFPE, libc::SIGILL].contains(&s) => {
                        match Current::read(d) {
                            Some(js) => failures.push(Failure {
                                property: T::ID.into(),
                                message: format!("the process crashed with signal {}: {}", s, tail(&d.join("err.txt"))),
                                case: serde_json::from_str(&js).unwrap_or(serde_json::Value::Null),
                                describe: None,
                            }),
                            None => errors.push(format!("shard {} crashed before any case", shard)),
                        }
                    }
                    Some(libc::SIGKILL) if fast() => (),
                    _ => errors.push(format!("shard {} ended without report: {:?} {}", shard, status, tail(&d.join("err.txt")))),
                }
            }
        }
        failures.sort_by_key(|f| serde_json::to_string(&f.case).unwrap().len());
        let violations = failures.len();
        let mut code = 0;
        if let Some(f) = failures.first() {
            let text = serde_json::to_string_pretty(f).unwrap();
            let rdir = root.join("replays");
            fs::create_dir_all(&rdir).unwrap();
            let path = rdir.join(format!("{}-{:016x}.json", T::ID, hash_str(&text)));
            fs::write(&path, &text).unwrap();
            println!("{}: {}", T::ID, f.message);
            if let Some(d) = &f.describe { println!("case: {}", d); }
            println!("VIOLATION property={} replay={}", T::ID, path.display());
            code = 1;
        } else if timeout || !errors.is_empty() {
            for e in &errors { eprintln!("{}: error: {}", T::ID, e); }
            if timeout { eprintln!("{}: error: time limit", T::ID); }
            code = 2;
        }
        total.labels.insert("regression cases".into(), total.corpus);
        let ev = serde_json::json!({
            "property": T::ID,
            "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": seed,
            "level": T::level(),
            "coverage": {
                "evaluations": total.evaluations,
                "distinct_nontrivial": distinct.len(),
                "rule": T::rule(),
                "samples": total.samples,
                "classes": total.labels,
                "dictionary": { "numbers": crate::dict::dict().nums.len(), "names": crate::dict::dict().names.len() },
            },
            "assumptions": T::assumptions(),
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let edir = root.join("evidence");
        fs::create_dir_all(&edir).unwrap();
        let mut f = fs::File::create(edir.join(format!("{}.json", T::ID))).unwrap();
        f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
        f.write_all(b"\n").unwrap();
        println!("{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1} s",
                 T::ID, total.evaluations, distinct.len(), violations, t0.elapsed().as_secs_f64());
        fs::remove_dir_all(&dir).ok();
        code
    }
}

fn tail(p: &Path) -> String {
    let s = fs::read(p).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    let n = s.char_indices().rev().nth(600).map(|(i, _)| i).unwrap_or(0);
    s[n..].to_string()
}

pub fn verif_root() -> PathBuf {
    std::env::var("NV_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn scratch_dir(tag: &str) -> PathBuf {
    let base = std::env::var("NV_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let d = PathBuf::from(base).join(format!("nv-{}-{}", tag, std::process::id()));
    fs::create_dir_all(&d).unwrap();
    d
}

pub fn main_with(props: Vec<Box<dyn DynProp>>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id() == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); std::process::exit(2) });
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => { for p in &props { println!("{}", p.id()); } 0 }
        Some("run") => find(&args[2]).parent(),
        Some("replay") => {
            let text = fs::read_to_string(&args[3]).expect("replay file");
            find(&args[2]).replay(&text)
        }
        Some("child") => find(&args[2]).child(&ChildArgs {
            shard: args[3].parse().unwrap(),
            seed: args[4].parse().unwrap(),
            tier: if args[5] == "thorough" { Tier::Thorough } else { Tier::Quick },
            dir: PathBuf::from(&args[6]),
            corpus: PathBuf::from(&args[7]),
        }),
        _ => { eprintln!("usage: run ID | replay ID FILE | list"); 2 }
    };
    std::process::exit(code)
}

/// The case in words, where that can be had.
fn described<T: Prop>(case: &T::Case) -> Option<String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| T::describe(case))).unwrap_or(None)
}
