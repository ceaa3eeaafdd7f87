//! The real compiler as the transition relation: programs that use the crate under test are
//! compiled and run. The crate `lits` provides both builds of the crate under test.
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::process::Command;

pub struct Compiled {
    pub ok: bool,
    /// lines of the program (from 0) that an error points to
    pub lines: BTreeSet<usize>,
    pub text: String,
}

pub fn target() -> PathBuf {
    PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into()))
}

/// A scratch file of one check: source and executable of a program.
pub fn files(check: &str, name: &str) -> (PathBuf, PathBuf) {
    let d = target().join(check);
    std::fs::create_dir_all(&d).unwrap();
    let n: String = format!("{}-{name}", std::process::id()).chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    (d.join(format!("{n}.rs")), d.join(n))
}

/// Compiles a program against `lits` as built in `profile`.
pub fn rustc(profile: &str, file: &Path, exe: &Path) -> Compiled {
    rustc_as(profile, &["--edition", "2021", "-Awarnings"], file, exe)
}

fn rustc_as(profile: &str, flags: &[&str], file: &Path, exe: &Path) -> Compiled {
    let lib = target().join("lits").join(profile);
    let o = Command::new("rustc")
        .args(flags)
        .args(["--crate-type", "bin", "-Cdebuginfo=0"])
        .arg(file)
        .arg("-o")
        .arg(exe)
        .arg("--extern")
        .arg(format!("lits={}", lib.join("liblits.rlib").display()))
        .arg("-L")
        .arg(format!("dependency={}", lib.join("deps").display()))
        .output()
        .unwrap_or_else(|e| mc::run::die(&format!("rustc: {e}")));
    let text = String::from_utf8_lossy(&o.stderr).into_owned();
    let mark = format!("--> {}:", file.display());
    let lines = text
        .lines()
        .filter_map(|l| l.split_once(mark.as_str()))
        .filter_map(|(_, r)| r.split(':').next()?.parse::<usize>().ok())
        .map(|n| n - 1)
        .collect();
    Compiled { ok: o.status.success(), lines, text }
}

/// Compiles the program text; the source does not outlive the call.
pub fn compile(check: &str, name: &str, profile: &str, text: &str) -> (Compiled, PathBuf) {
    compile_as(check, name, profile, &["--edition", "2021", "-Awarnings"], text)
}

pub fn compile_as(check: &str, name: &str, profile: &str, flags: &[&str], text: &str) -> (Compiled, PathBuf) {
    let (src, exe) = files(check, name);
    std::fs::write(&src, text).unwrap();
    let c = rustc_as(profile, flags, &src, &exe);
    let _ = std::fs::remove_file(&src);
    (c, exe)
}

/// Runs a compiled program and removes it. Gives its output and whether it ended normally.
pub fn run(exe: &Path) -> (String, bool) {
    let o = Command::new(exe).output().unwrap_or_else(|e| mc::run::die(&format!("{}: {e}", exe.display())));
    let _ = std::fs::remove_file(exe);
    (String::from_utf8_lossy(&o.stdout).into_owned(), o.status.success())
}

pub fn build_lits(profile: &str) {
    let dir = Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().join("lits");
    let mut c = Command::new("cargo");
    c.args(["build", "--offline", "--locked", "--quiet", "--manifest-path"]).arg(dir.join("Cargo.toml")).env("CARGO_TARGET_DIR", target().join("lits"));
    if profile == "release" {
        c.arg("--release");
    }
    let o = c.output().unwrap_or_else(|e| mc::run::die(&format!("cargo: {e}")));
    if !o.status.success() {
        mc::run::die(&format!("the crate does not build:\n{}", String::from_utf8_lossy(&o.stderr)));
    }
}
