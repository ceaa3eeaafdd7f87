//! C25: every combination of features builds and provides what it documents. The state space is
//! the lattice of feature sets; the transition is the real compiler (through cargo) on the real
//! crate and a crate that uses the whole interface. What works without `std` is compiled with a
//! sysroot that does not have `std`.
use checks::rustc::target;
use mc::{Check, Cx};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::{Arc, Mutex};

const OUTCOMES: &[&str] = &["builds with std at hand", "builds where there is no std", "rejected: no width", "default features"];
const FEATURES: [&str; 9] = ["i16", "i32", "i64", "i128", "std", "serde", "schemars", "parity", "quick-xml"];
const LANES: u64 = 8;
const TRIPLE: &str = "x86_64-unknown-linux-gnu";

/// A sysroot that has `core` and `alloc`, but no `std`.
fn sysroot() -> PathBuf {
    let o = Command::new("rustc").args(["--print", "sysroot"]).output().unwrap_or_else(|e| mc::run::die(&format!("rustc: {e}")));
    let from = Path::new(String::from_utf8_lossy(&o.stdout).trim()).join("lib/rustlib").join(TRIPLE).join("lib");
    let root = target().join("feat/sysroot");
    let to = root.join("lib/rustlib").join(TRIPLE).join("lib");
    std::fs::create_dir_all(&to).unwrap();
    let mut found = 0;
    for e in std::fs::read_dir(&from).unwrap_or_else(|e| mc::run::die(&format!("{}: {e}", from.display()))).flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if ["libcore-", "liballoc-", "libcompiler_builtins-"].iter().any(|p| n.starts_with(p)) && n.ends_with(".rlib") {
            found += 1;
            let _ = std::os::unix::fs::symlink(e.path(), to.join(&n));
        }
    }
    if found != 3 {
        mc::run::die(&format!("{} has {found} of core, alloc and compiler_builtins", from.display()));
    }
    root
}

struct Outcome {
    ok: bool,
    /// the failing package, if one failed
    failed: Option<String>,
    text: String,
}

fn cargo(lane: u64, what: &str, release: bool, features: &str, root: Option<&Path>) -> Outcome {
    let dir = Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().join("probe");
    let mut c = Command::new("cargo");
    c.args([what, "--offline", "--locked", "--quiet", "--no-default-features", "--features", features, "--manifest-path"])
        .arg(dir.join("Cargo.toml"))
        .env("CARGO_TARGET_DIR", target().join(format!("feat/{lane}")))
        .env("CARGO_BUILD_JOBS", "2");
    if release {
        c.arg("--release");
    }
    if let Some(r) = root {
        c.args(["--target", TRIPLE]).env("RUSTFLAGS", format!("--sysroot {}", r.display()));
    }
    let o = c.output().unwrap_or_else(|e| mc::run::die(&format!("cargo: {e}")));
    let text = String::from_utf8_lossy(&o.stderr).into_owned();
    let failed = text.lines().filter_map(|l| l.split_once("could not compile `")).filter_map(|(_, r)| r.split('`').next()).map(String::from).next();
    Outcome { ok: o.status.success(), failed, text }
}

fn subset(lane: u64, n: u64, release: bool, what: &str, root: &Path, cx: &mut Cx) {
    let set: Vec<&str> = (0..9).filter(|i| n >> i & 1 == 1).map(|i| FEATURES[i]).collect();
    let has = |f: &str| set.contains(&f);
    // the integrated schemars needs std itself
    let bare = !has("std") && !has("schemars");
    let case = || format!("cargo {what}{} with features [{}]{}", if release { " --release" } else { "" }, set.join(","), if bare { ", no std at hand" } else { "" });
    cx.states += 1;
    cx.traces += 1;
    let o = cargo(lane, what, release, &set.join(","), bare.then_some(root));
    let first = || o.text.lines().find(|l| l.starts_with("error")).unwrap_or("no message").to_string();
    if !o.ok && !matches!(o.failed.as_deref(), Some("fixnum" | "probe")) {
        mc::run::die(&format!("{}: fails elsewhere:\n{}", case(), &o.text[..o.text.len().min(3000)]));
    }
    if n & 15 == 0 {
        cx.judge(2, !o.ok && o.failed.as_deref() == Some("fixnum"), case, || "is not rejected by the crate although no width is enabled".into());
    } else {
        cx.judge(bare as usize, o.ok, case, || format!("does not build or lacks a part of its interface ({}): {}", o.failed.clone().unwrap_or_default(), first()));
    }
    if n % 37 == 15 {
        cx.sample(|| format!("{}: {}", case(), if o.ok { "builds".into() } else { first() }));
    }
}

fn main() {
    let mut c = Check::new("C25", OUTCOMES);
    c.rule(
        "states are all 512 sets of the crate's nine features (and the default features with each width); the transition is \
         cargo and the compiler on the real crate together with a crate that uses the whole documented interface and asserts \
         facts about the types by trait resolution; sets without std (and without schemars, which needs it) are compiled where \
         there is no std. Sets with a width must build, sets without must be rejected.",
    );
    let root = sysroot();
    let thorough = c.thorough;
    c.bound(format!("512 feature sets, checked{}", if thorough { ", and built with code generation in the release profile" } else { "" }));
    // a target directory per set of integrations, so that each holds one set of dependencies
    let lanes: Arc<Vec<Mutex<()>>> = Arc::new((0..LANES).map(|_| Mutex::new(())).collect());
    let place = |i: u64| (i % LANES, i % LANES << 5 | i / LANES & 31 | i / LANES >> 5 << 8);
    c.job("feature sets", 512, {
        let (root, lanes) = (root.clone(), lanes.clone());
        move |i, cx| {
            let (lane, n) = place(i);
            let _own = lanes[lane as usize].lock();
            subset(lane, n, false, "check", &root, cx);
        }
    });
    c.job("default features", 4, {
        let lanes = lanes.clone();
        move |i, cx| {
            let _own = lanes[0].lock();
            let w = FEATURES[i as usize];
            cx.states += 1;
            cx.traces += 1;
            let o = cargo(0, "check", false, &format!("dflt,{w}"), None);
            cx.judge(3, o.ok, || format!("default features and {w}"), || "does not build with std's error trait".into());
        }
    });
    if thorough {
        c.job("feature sets, code generation", 512, move |i, cx| {
            let (lane, n) = place(i);
            let _own = lanes[lane as usize].lock();
            subset(lane, n, true, "build", &root, cx);
        });
    }
    c.run()
}
