//! A stand-in for cbc and clp that follows a plan, or computes an answer that
//! tells from which problem it was made.

use serde::{Deserialize, Serialize};
use std::fs;
use std::io::Write;

use crate::lp::{self, Lp};
use crate::shim;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum End { Exit(i32), Signal(i32) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    /// What is written to the solution file; None: nothing
    pub out: Option<Vec<u8>>,
    /// The input file is removed
    pub eat_input: bool,
    /// The output is made a directory
    pub out_dir: bool,
    /// 0 none, 1 a line, 2 more than fits into a pipe, on both outputs
    pub noise: u8,
    pub end: End,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call { pub name: String, pub args: Vec<String>, pub lp: Option<String> }

pub fn calls() -> Vec<Call> {
    fs::read_to_string(shim::keep_dir().join("calls")).unwrap_or_default().lines().filter_map(|l| serde_json::from_str(l).ok()).collect()
}

pub fn reset(plan: Option<&Plan>) {
    let d = shim::keep_dir();
    fs::remove_file(d.join("calls")).ok();
    fs::remove_file(d.join("plan.json")).ok();
    if let Some(p) = plan { fs::write(d.join("plan.json"), serde_json::to_string(p).unwrap()).unwrap(); }
}

/// Limits the size of files written by this process (the stand-in lifts it for itself).
pub fn file_limit(n: Option<u64>) {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut r);
        r.rlim_cur = n.map_or(r.rlim_max, |n| n as libc::rlim_t);
        libc::setrlimit(libc::RLIMIT_FSIZE, &r);
    }
}

pub fn main(name: &str, args: &[String]) -> i32 {
    file_limit(None);
    let d = shim::keep_dir();
    let input = args.iter().find(|a| a.ends_with(".lp"));
    let out = args.last().cloned().unwrap_or_default();
    let text = input.and_then(|i| fs::read_to_string(i).ok());
    let call = Call { name: name.into(), args: args.to_vec(), lp: text.clone() };
    if let Ok(mut f) = fs::OpenOptions::new().create(true).append(true).open(d.join("calls")) {
        f.write_all((serde_json::to_string(&call).unwrap() + "\n").as_bytes()).ok();
    }
    if let Some(plan) = fs::read_to_string(d.join("plan.json")).ok().and_then(|s| serde_json::from_str::<Plan>(&s).ok()) {
        if plan.noise > 0 {
            // killed if nobody lets it go on
            unsafe { libc::alarm(20); }
            let line = b"noise, also \xff\xfe\n";
            let text = line.repeat(if plan.noise == 1 { 1 } else { 5000 });
            std::io::stdout().write_all(&text).ok();
            std::io::stdout().flush().ok();
            std::io::stderr().write_all(&text).ok();
            unsafe { libc::alarm(0); }
        }
        if plan.out_dir { fs::create_dir(&out).ok(); }
        else if let Some(b) = plan.out { fs::write(&out, b).ok(); }
        if plan.eat_input { if let Some(i) = input { fs::remove_file(i).ok(); } }
        match plan.end {
            End::Exit(c) => return c,
            End::Signal(s) => { unsafe { libc::signal(s, libc::SIG_DFL); libc::kill(libc::getpid(), s); } std::thread::sleep(std::time::Duration::from_millis(200)); return 95; }
        }
    }
    let lp = match text.as_deref().map(lp::parse) { Some(Ok(l)) => l, _ => return 94 };
    let tag = *lp.obj.get("x_0").unwrap_or(&0.);
    std::thread::sleep(std::time::Duration::from_millis((tag.abs() as u64 * 7) % 12));
    if tag == 1013. { return 1; }
    if tag == 1014. { fs::write(&out, "Optimal - objective value 1\n 0 x_0\n").ok(); return 0; }
    if tag == 1015. { fs::write(&out, "Infeasible - objective value 1\n").ok(); return 0; }
    if tag == 1016. { unsafe { libc::kill(libc::getpid(), libc::SIGKILL); } }
    let mut s = "Optimal - objective value 1.00000000\n".to_string();
    for (n, b) in lp.bounds.iter() {
        s += &format!("{:7} {:<15} {:15} {:15}\n", Lp::index(n, "x_").unwrap_or(0), n, lp.obj.get(n).unwrap_or(&0.), b.0);
    }
    for (n, _, _, b) in lp.rows.iter() { s += &format!("{:7} {:<15} {:15} {:15}\n", Lp::index(n, "c_").unwrap_or(0), n, 0, b); }
    // slowly, in pieces
    if let Ok(mut f) = fs::File::create(&out) {
        let (a, b) = s.split_at(s.len() / 2);
        f.write_all(a.as_bytes()).ok();
        f.flush().ok();
        std::thread::sleep(std::time::Duration::from_millis((tag.abs() as u64 * 5) % 7));
        f.write_all(b.as_bytes()).ok();
    }
    std::thread::sleep(std::time::Duration::from_millis((tag.abs() as u64 * 3) % 5));
    0
}
