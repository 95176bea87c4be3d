//! Stand-in for the commands cbc and clp: the program nv-shim under their
//! names. As "proxy" it runs the real command and keeps the files.

use std::fs;
use std::os::unix::fs::symlink;
use std::path::PathBuf;
use std::sync::Once;

pub const NAMES: [&str; 2] = ["cbc", "clp"];

/// The commands on PATH become this program. `mode` is what it does.
pub fn install(mode: &str) {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        // Next to the working directory, which the checks expect to be empty
        let base = std::env::current_dir().unwrap().parent().unwrap().to_path_buf();
        let bin = base.join("bin");
        let keep = base.join("keep");
        fs::create_dir_all(&bin).unwrap();
        fs::create_dir_all(&keep).unwrap();
        let exe = std::env::current_exe().unwrap().parent().unwrap().join("nv-shim");
        for n in NAMES.iter() { if !bin.join(n).exists() { symlink(&exe, bin.join(n)).unwrap(); } }
        let path = std::env::var("PATH").unwrap_or_default();
        std::env::set_var("NV_REAL_PATH", &path);
        std::env::set_var("NV_KEEP", &keep);
        std::env::set_var("NV_BIN", &bin);
        std::env::set_var("PATH", format!("{}:{}", bin.display(), path));
    });
    std::env::set_var("NV_SHIM", mode);
}

pub fn keep_dir() -> PathBuf { PathBuf::from(std::env::var("NV_KEEP").unwrap()) }

/// Text of the last LP and solution file.
pub fn kept() -> (String, String) {
    let d = keep_dir();
    (fs::read_to_string(d.join("in.lp")).unwrap_or_default(), fs::read_to_string(d.join("out.sol")).unwrap_or_default())
}

pub fn forget() {
    let d = keep_dir();
    fs::remove_file(d.join("in.lp")).ok();
    fs::remove_file(d.join("out.sol")).ok();
}

/// Called first by main: plays cbc or clp if started as such.
pub fn play() {
    let arg0 = std::env::args().next().unwrap_or_default();
    let name = arg0.rsplit('/').next().unwrap_or("").to_string();
    if !NAMES.contains(&name.as_str()) { return; }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match std::env::var("NV_SHIM").as_deref() {
        Ok("proxy") => proxy(&name, &args),
        Ok("fake") => crate::fake::main(&name, &args),
        _ => 97,
    };
    std::process::exit(code);
}

fn real(name: &str) -> Option<PathBuf> {
    let real = std::env::var("NV_REAL_PATH").unwrap();
    real.split(':').map(|d| PathBuf::from(d).join(name)).find(|p| p.is_file())
}

/// What the real command answers to the last LP file when called plainly.
pub fn rerun(name: &str) -> String {
    let d = keep_dir();
    fs::remove_file(d.join("again.sol")).ok();
    if let Some(cmd) = real(name) {
        std::process::Command::new(cmd).current_dir(&d).args(["in.lp", "logLevel", "0", "printingOptions", "all", "solve", "solution", "again.sol"])
            .stdout(std::process::Stdio::null()).status().ok();
    }
    fs::read_to_string(d.join("again.sol")).unwrap_or_default()
}

fn proxy(name: &str, args: &[String]) -> i32 {
    let keep = keep_dir();
    fs::copy(&args[0], keep.join("in.lp")).ok();
    let cmd = match real(name) { Some(c) => c, None => return 98 };
    let st = std::process::Command::new(cmd).args(args).status();
    fs::copy(&args[args.len() - 1], keep.join("out.sol")).ok();
    st.ok().and_then(|s| s.code()).unwrap_or(99)
}
