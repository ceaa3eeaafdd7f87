//! The program `ub` under the interpreter (Miri), which decides for every executed step whether it
//! is defined, and which also executes it as compiled for other targets.
use crate::rustc::target;
use mc::{Check, Cx};
use std::path::{Path, PathBuf};
use std::process::{Command, Output};

pub const HOST: &str = "x86_64-unknown-linux-gnu";

fn manifest() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().join("checks_ub/Cargo.toml")
}

/// One way to execute the program.
#[derive(Clone)]
pub struct Way {
    pub target: &'static str,
    pub debug: bool,
    pub seed: u32,
}

impl Way {
    pub fn says(&self) -> String {
        format!("{}{}", self.target, if self.debug { ", debug build" } else { "" })
    }

    fn interpret(&self, args: &[String]) -> Output {
        let mut c = Command::new("cargo");
        c.args(["miri", "run", "--offline", "--locked", "--quiet", "--target", self.target, "--manifest-path"]).arg(manifest());
        if !self.debug {
            c.arg("--release");
        }
        c.arg("--").args(args);
        c.env("RUSTUP_TOOLCHAIN", "nightly")
            .env("CARGO_TARGET_DIR", target().join("ub"))
            .env("XDG_CACHE_HOME", target().join("interp"))
            .env("RUSTFLAGS", "-Awarnings")
            // library functions with unspecified precision are not varied at random, leaks are no undefined behaviour
            .env("MIRIFLAGS", format!("-Zmiri-deterministic-floats -Zmiri-ignore-leaks -Zmiri-seed={}", self.seed));
        c.output().unwrap_or_else(|e| mc::run::die(&format!("cargo miri: {e}")))
    }

    /// Compiles the program and the target's standard library.
    fn build(&self) {
        let o = self.interpret(&["ready".into()]);
        if o.status.code() != Some(9) {
            mc::run::die(&format!("the interpreted program does not build ({}):\n{}", self.says(), tail(&o)));
        }
    }
}

fn tail(o: &Output) -> String {
    let s = String::from_utf8_lossy(&o.stderr);
    let n = s.len().saturating_sub(3000);
    s.chars().skip(n).collect()
}

fn machine(args: &[String]) -> Output {
    Command::new(target().join("ub/release/ub")).args(args).output().unwrap_or_else(|e| mc::run::die(&format!("ub: {e}")))
}

/// Builds what `check` needs and gives the jobs of the program.
pub fn prepare(tier: &str, ways: &[Way]) -> Vec<(String, u64)> {
    if !std::env::args().any(|a| a == "--child") {
        let o = Command::new("cargo")
            .args(["build", "--release", "--offline", "--locked", "--quiet", "--manifest-path"])
            .arg(manifest())
            .env("CARGO_TARGET_DIR", target().join("ub"))
            .output()
            .unwrap_or_else(|e| mc::run::die(&format!("cargo: {e}")));
        if !o.status.success() {
            mc::run::die(&format!("the program does not build:\n{}", tail(&o)));
        }
        let mut targets: Vec<&Way> = ways.iter().collect();
        targets.sort_by_key(|w| (w.target, w.debug));
        targets.dedup_by_key(|w| (w.target, w.debug));
        targets.iter().for_each(|w| w.build());
    }
    let o = machine(&["list".into(), tier.into()]);
    let jobs: Vec<(String, u64)> = String::from_utf8_lossy(&o.stdout)
        .lines()
        .filter_map(|l| l.split_once(' '))
        .filter_map(|(n, c)| Some((n.to_string(), c.parse().ok()?)))
        .collect();
    if !o.status.success() || jobs.is_empty() {
        mc::run::die(&format!("ub list: {}", tail(&o)));
    }
    jobs
}

/// Items that one process executes (starting one takes seconds).
fn chunk(job: &str) -> u64 {
    let wide = job.contains("128");
    match job.split('-').next().unwrap() {
        "constants" => 64,
        "numbers" => 30 + 40 * !wide as u64,
        "pairs" => 80 + 160 * !wide as u64,
        "roots" => 8 + 32 * !wide as u64,
        "prints" => 500,
        "threads" => 50,
        _ => 240,
    }
}

pub const DEFINED: usize = 0;
pub const SKIPPED: usize = 1;

/// Executes a range of items in both ways and compares.
fn span(job: &str, tier: &str, from: u64, to: u64, way: &Way, cx: &mut Cx) {
    let args: Vec<String> = ["run", job, &from.to_string(), &to.to_string(), tier].iter().map(|s| s.to_string()).collect();
    let show = |i: u64| -> Vec<String> { ["show", job, &i.to_string(), tier].iter().map(|s| s.to_string()).collect() };
    let head = |i: u64| {
        let o = machine(&show(i));
        let s = String::from_utf8_lossy(&o.stdout).lines().next().unwrap_or("").to_string();
        format!("{s} ({job} item {i}, {})", way.says())
    };
    let parse = |o: &Output| -> (Vec<(u64, String)>, bool) {
        let s = String::from_utf8_lossy(&o.stdout);
        let r = s.lines().filter_map(|l| l.strip_prefix("R ")?.split_once(' ')).filter_map(|(i, d)| Some((i.parse().ok()?, d.to_string()))).collect();
        (r, s.lines().any(|l| l == "END") && o.status.success())
    };
    let real = machine(&args);
    let (want, real_end) = parse(&real);
    let o = way.interpret(&args);
    let (got, end) = parse(&o);
    for (k, (i, d)) in got.iter().enumerate() {
        cx.states += 1;
        match want.get(k) {
            Some((j, w)) if i == j => {
                cx.traces += 1;
                cx.judge(DEFINED, d == w, || head(*i), || {
                    let (a, b) = (machine(&show(*i)), way.interpret(&show(*i)));
                    let (a, b) = (String::from_utf8_lossy(&a.stdout).into_owned(), String::from_utf8_lossy(&b.stdout).into_owned());
                    let x = a.lines().zip(b.lines()).find(|(a, b)| a != b).map_or(String::new(), |(a, b)| format!(": {}, but {}", a.trim(), b.trim()));
                    format!("the machine and {} give different results{x}", way.target)
                });
            }
            _ => cx.step(DEFINED),
        }
    }
    if !real_end {
        let i = from + want.len() as u64;
        cx.fail(head(i), format!("the compiled program does not end normally: {}", real.status));
    }
    if end {
        return;
    }
    let i = from + got.len() as u64;
    let text = String::from_utf8_lossy(&o.stderr);
    let error = text.lines().find(|l| l.starts_with("error")).unwrap_or("").to_string();
    let place = text.lines().find(|l| l.contains("--> ") && l.contains("/repo/")).map_or(String::new(), |l| format!(" at {}", l.trim().trim_start_matches("--> ")));
    if error.contains("unsupported operation") {
        cx.step(SKIPPED);
        if i + 1 < to {
            span(job, tier, i + 1, to, way, cx);
        }
    } else if error.contains("Undefined Behavior") || error.contains("abnormal termination") || error.contains("deadlock") || error.contains("data race") {
        cx.states += 1;
        cx.step(DEFINED);
        cx.fail(head(i), format!("{error}{place}"));
    } else {
        mc::run::die(&format!("{job} {from}..{to} ({}): {}\n{}", way.says(), o.status, tail(&o)));
    }
}

/// Adds all items of the program as jobs of the check.
pub fn add(c: &mut Check, jobs: &[(String, u64)], tier: &'static str, way: &Way) {
    for (name, n) in jobs {
        let (name, n, way) = (name.clone(), *n, way.clone());
        let size = chunk(&name);
        let title = format!("{name} {}{}", way.says(), if way.seed > 0 { format!(", schedule {}", way.seed) } else { String::new() });
        c.job(title, n.div_ceil(size), move |i, cx| {
            span(&name, tier, i * size, ((i + 1) * size).min(n), &way, cx);
            cx.sample(|| format!("{name}: items {} to {}, {}", i * size, ((i + 1) * size).min(n) - 1, way.says()));
        });
    }
}
