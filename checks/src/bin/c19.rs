//! C19: compile-time literals. The executions enumerated are those of the compiler: programs made
//! of every (literal text, target type, position, build of the crate) of the stated sets, compiled
//! against the real crate and run.
use checks::rustc::{self, build_lits, Compiled};
use checks::{text, Fx};
use mc::lattice::core;
use mc::{Big, Check, Cx};
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::process::Command;
use std::sync::Arc;

const OUTCOMES: &[&str] = &["compiled and denotes the number", "rejected by the compiler"];

/// A target type of the programs: which build of the crate, storage and precision.
#[derive(Clone)]
struct Ty {
    krate: &'static str,
    int: u32, // bits of the widest integer of that build
    bits: u32,
    p: u32,
}
impl Ty {
    fn of<F: Fx>() -> Ty {
        let full = F::BUILD == "full";
        Ty { krate: if full { "fixnum" } else { "fixnum_narrow" }, int: if full { 128 } else { 64 }, bits: F::BITS, p: F::P }
    }
    fn lo(&self) -> i128 {
        mc::model::min_of(self.bits)
    }
    fn hi(&self) -> i128 {
        mc::model::max_of(self.bits)
    }
    fn path(&self) -> String {
        format!("lits::{}::FixedPoint<i{}, lits::{}::typenum::U{}>", self.krate, self.bits, self.krate, self.p)
    }
    fn name(&self) -> String {
        format!("{}::FixedPoint<i{}, U{}>", self.krate, self.bits, self.p)
    }
}

/// Decimal text of `bits * 10^-p` with exactly `p` fractional digits.
fn dec(bits: &Big, p: u32) -> String {
    let neg = bits.sign() < 0;
    let d = bits.abs().dec();
    let p = p as usize;
    let d = if d.len() <= p { "0".repeat(p + 1 - d.len()) + &d } else { d };
    let (i, f) = d.split_at(d.len() - p);
    format!("{}{i}{}{f}", if neg { "-" } else { "" }, if p > 0 { "." } else { "" })
}

/// Texts that the type can represent.
fn valid(t: &Ty, thorough: bool) -> Vec<String> {
    let mut s = BTreeSet::new();
    let all = core(t.bits, t.p);
    let step = if thorough { 1 } else { (all.len() / 22).max(1) };
    let mut vs: Vec<i128> = all.iter().copied().step_by(step).collect();
    let c = mc::model::pow10(t.p);
    vs.extend([0, 1, -1, 9, t.lo(), t.lo() + 1, t.hi(), t.hi() - 1, c, -c, c - 1, t.hi() / c * c, t.lo() / c * c]);
    vs.extend([c / 10 * 3, c / 100 * -7].iter().filter(|x| **x >= t.lo() && **x <= t.hi()));
    for v in vs {
        let canon = text::canonical(v, t.p).as_str().to_string();
        if t.p > 0 {
            s.insert(canon.clone()); // at least one fractional digit
            s.insert(dec(&Big::i(v), t.p)); // all fractional digits
        }
        if let Some(whole) = canon.strip_suffix(".0") {
            s.insert(whole.to_string());
            s.insert(format!("{whole}.")); // a Rust literal may end in a point
        }
    }
    for z in ["0", "-0", "00", "007", "0."] {
        if text::parse_raw(z.trim_end_matches('.'), t.p, t.lo(), t.hi()).1.is_some() {
            s.insert(z.into());
        }
    }
    if t.p > 0 {
        for z in ["-0.0", "0.0", "00.0", "-00.0"] {
            s.insert(z.into());
        }
    }
    s.into_iter().collect()
}

/// Texts that the type cannot represent, and texts that are no decimal numbers.
fn invalid(t: &Ty, malformed: bool, thorough: bool) -> Vec<String> {
    let mut s = BTreeSet::new();
    let (lo, hi) = (Big::i(t.lo()), Big::i(t.hi()));
    let one = Big::u(1);
    let c = Big::i(mc::model::pow10(t.p));
    let mut over = vec![hi.add(&one), lo.sub(&one), hi.add(&c), lo.sub(&c), hi.dbl(), lo.dbl(), hi.dbl().add(&one)];
    // values that become small or fitting if they wrap
    for w in [16u32, 32, 64, 128, 192] {
        for d in [-1i128, 0, 1, 5, 1000] {
            over.push(Big::pow(2, w).add(&Big::i(d)));
            over.push(Big::pow(2, w).neg().add(&Big::i(d)));
            if thorough {
                over.push(Big::pow(2, w - 1).add(&Big::i(d)));
                over.push(Big::pow(2, w).mul(&Big::u(3)).add(&Big::i(d)));
                over.push(Big::pow(2, w).mul(&c).add(&Big::i(d)));
            }
        }
        // the whole part wraps by itself, and after scaling
        over.push(Big::pow(2, w).mul(&c));
        over.push(Big::pow(2, w).add(&one).mul(&c).neg());
    }
    for b in over {
        if b < lo || b > hi {
            s.insert(dec(&b, t.p));
        }
    }
    // too many fractional digits, whatever they are
    for extra in if thorough { vec![1, 2, 5, 10, 20, 38, 39, 40, 64, 77, 128] } else { vec![1, 20, 40, 128] } {
        for sign in ["", "-"] {
            for (i, d) in [("0", "0"), ("0", "3"), ("1", "0")] {
                s.insert(format!("{sign}{i}.{}", d.repeat(t.p as usize + extra)));
            }
            s.insert(format!("{sign}0.{}1", "0".repeat(t.p as usize + extra - 1)));
        }
    }
    for n in [20, 39, 40, 41, 60, 100] {
        s.insert("9".repeat(n));
        s.insert(format!("-1{}", "0".repeat(n)));
        s.insert(format!("1{}.", "0".repeat(n)));
    }
    if malformed {
        for x in [
            "0x1", "0x10", "-0x1", "0b1", "0o7", "0xA", "1e1", "1E1", "1e-1", "-1e1", "1.5e1", "1.0e0", "1_000", "1_0.5", "1.5_0", "1_", "1i64", "1u8",
            "1.0f64", "1f32", "-1i16", "\"1\"", "\"1.5\"", "\"\"", "\"-1\"", "'1'", "b'1'", "b\"1\"", "true", "false", "r\"1\"", "'a'", "\" 1\"", "\"+1\"", "c\"1\"",
        ] {
            s.insert(x.into());
        }
    }
    s.into_iter().filter(|x| text::parse_raw(x.trim_end_matches('.'), t.p, t.lo(), t.hi()).1.is_none_or(|_| too_long(x, t.p))).collect()
}
fn too_long(s: &str, p: u32) -> bool {
    s.split_once('.').is_some_and(|(_, f)| f.len() > p as usize)
}

const POSITIONS: &[&str] = &["const", "static", "let", "wrapper", "macro", "block", "macro body", "spaced"];

/// The text of a literal as `line` writes it.
fn written(lit: &str, pos: &str) -> String {
    // `-1.5`, `- 1.5` and `-/* */1.5` are the same tokens
    match (pos, lit.strip_prefix('-')) {
        ("spaced", Some(l)) if l.len() % 2 == 0 => format!("- {l}"),
        ("spaced", Some(l)) => format!("-/* */{l}"),
        _ => lit.into(),
    }
}

/// One line of a program: literal `i` at a position.
fn line(t: &Ty, lit: &str, pos: &str, i: usize) -> String {
    let (k, ty, p) = (t.krate, t.path(), t.p);
    let lit = &written(lit, pos);
    match pos {
        "const" => format!("const X{i}: {ty} = lits::{k}::fixnum_const!({lit}, {p}); fn f{i}() -> i128 {{ *X{i}.as_bits() as i128 }}"),
        "static" => format!("fn f{i}() -> i128 {{ static X: [{ty}; 1] = [lits::{k}::fixnum_const!({lit}, {p})]; *X[0].as_bits() as i128 }}"),
        "let" => format!("fn f{i}() -> i128 {{ let x: {ty} = lits::{k}::fixnum!({lit}, {p}); *x.as_bits() as i128 }}"),
        "wrapper" => format!("fn f{i}() -> i128 {{ struct W({ty}); impl From<{ty}> for W {{ fn from(x: {ty}) -> W {{ W(x) }} }} let x: W = lits::{k}::fixnum!({lit}, {p}); *x.0.as_bits() as i128 }}"),
        "macro" => format!("fn f{i}() -> i128 {{ macro_rules! m {{ ($v:literal) => {{ lits::{k}::fixnum!($v, {p}) }} }} let x: {ty} = m!({lit}); *x.as_bits() as i128 }}"),
        "macro body" => format!("fn f{i}() -> i128 {{ macro_rules! m {{ ($t:ty) => {{ {{ let x: $t = lits::{k}::fixnum!({lit}, {p}); x }} }} }} *m!({ty}).as_bits() as i128 }}"),
        "spaced" => format!("const X{i}: {ty} = lits::{k}::fixnum_const!({lit}, {p}); fn f{i}() -> i128 {{ *X{i}.as_bits() as i128 }}"),
        "block" => format!("fn f{i}() -> i128 {{ fn g(x: {ty}) -> {ty} {{ x }} *g(lits::{k}::fixnum_const!({lit}, {p})).as_bits() as i128 }}"),
        _ => unreachable!(),
    }
}

fn program(lines: &[String]) -> String {
    let mut s = lines.join("\n");
    s += "\nfn main() {\n";
    for i in 0..lines.len() {
        s += &format!("println!(\"{{}}\", f{i}());\n");
    }
    s + "}\n"
}

struct Unit {
    profile: &'static str,
    name: String,
    /// type, literal, position
    cases: Vec<(Ty, String, &'static str)>,
}

fn build(u: &Unit, tag: &str, lines: &[String]) -> (Compiled, PathBuf) {
    rustc::compile("c19", &format!("{}-{}-{tag}", u.name, u.profile), u.profile, &program(lines))
}

fn case(u: &Unit, (t, lit, pos): &(Ty, String, &'static str)) -> String {
    format!("literal {lit} as {} in {pos} position, {} build", t.name(), u.profile)
}

fn run_valid(u: &Unit, cx: &mut Cx) {
    let lines: Vec<String> = u.cases.iter().enumerate().map(|(i, (t, l, p))| line(t, l, p, i)).collect();
    let (c, exe) = build(u, "valid", &lines);
    if !c.ok {
        let mut found = false;
        for &n in c.lines.iter().take(20) {
            if let Some(k) = u.cases.get(n) {
                // alone, so that nothing but this literal can be the reason
                let (alone, exe) = build(u, "alone", &[line(&k.0, &k.1, k.2, 0)]);
                let _ = std::fs::remove_file(exe);
                if !alone.ok {
                    found = true;
                    cx.fail(case(u, k), "does not compile, although the type can represent it".into());
                }
            }
        }
        if !found {
            mc::run::die(&format!("a program of valid literals does not compile for another reason:\n{}", &c.text[..c.text.len().min(3000)]));
        }
        return;
    }
    let o = Command::new(&exe).output().unwrap_or_else(|e| mc::run::die(&format!("{}: {e}", exe.display())));
    let _ = std::fs::remove_file(&exe);
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let got: Vec<&str> = out.lines().collect();
    for (i, k) in u.cases.iter().enumerate() {
        cx.states += 1;
        cx.traces += 1;
        let want = text::parse_raw(k.1.trim_end_matches('.'), k.0.p, k.0.lo(), k.0.hi()).1.unwrap();
        let g = got.get(i).copied().unwrap_or("nothing (the program ended early)");
        cx.judge(0, g == want.to_string(), || case(u, k), || format!("has bits {g}, exactly parsed it has {want}"));
    }
    cx.sample(|| format!("program {} ({}): {} literals, e.g. {}", u.name, u.profile, u.cases.len(), case(u, &u.cases[u.cases.len() / 2])));
}

fn run_invalid(u: &Unit, cx: &mut Cx) {
    let lines: Vec<String> = u.cases.iter().enumerate().map(|(i, (t, l, p))| line(t, l, p, i)).collect();
    // the same program around harmless literals must compile: only the literals are to blame
    let control: Vec<String> = u.cases.iter().enumerate().map(|(i, (t, _, p))| line(t, if i % 2 == 0 { "0" } else { "-1" }, p, i)).collect();
    let fits = u.cases.iter().all(|(t, _, _)| t.hi() >= mc::model::pow10(t.p));
    let (c, exe) = build(u, "control", &control);
    let _ = std::fs::remove_file(&exe);
    if !c.ok && fits {
        mc::run::die(&format!("the control program does not compile:\n{}", &c.text[..c.text.len().min(3000)]));
    }
    let (c, exe) = build(u, "invalid", &lines);
    let _ = std::fs::remove_file(&exe);
    for (i, k) in u.cases.iter().enumerate() {
        cx.states += 1;
        cx.traces += 1;
        let rejected = !c.ok && c.lines.contains(&i) || {
            // hidden by an earlier error, or accepted: ask the compiler about this literal alone
            let (alone, exe) = build(u, "alone", &[line(&k.0, &k.1, k.2, 0)]);
            let _ = std::fs::remove_file(exe);
            !alone.ok
        };
        cx.judge(1, rejected, || case(u, k), || "compiles".into());
    }
    cx.sample(|| format!("program {} ({}): {} literals to reject, e.g. {}", u.name, u.profile, u.cases.len(), case(u, &u.cases[u.cases.len() / 2])));
}

/// Splits the cases of several types into programs of a limited size.
fn units(profile: &'static str, name: &str, cases: Vec<(Ty, String, &'static str)>, size: usize) -> Vec<Unit> {
    cases.chunks(size).enumerate().map(|(i, c)| Unit { profile, name: format!("{name}{i}"), cases: c.to_vec() }).collect()
}

fn collect<F: Fx>(v: &mut Vec<Ty>) {
    v.push(Ty::of::<F>());
}

fn main() {
    let mut c = Check::new("C19", OUTCOMES);
    c.rule(
        "states are programs with one literal: text x target type x position (const, static, let, wrapper, user macro, \
         argument) x build of the crate (with and without i128; with and without overflow checks). The transition is the real \
         compiler on the real macros: representable texts must compile and denote what exact parsing gives; all others \
         must be rejected, each by its own error, while the same program around harmless literals compiles.",
    );
    c.bound("texts: boundary alphabet in up to 4 spellings; range +-1 step, wrapping values of every width, over-long fractions, 39 malformed shapes");
    for p in ["release", "debug"] {
        build_lits(p);
    }
    let mut tys: Vec<Ty> = vec![];
    checks::for_all_types!(collect(&mut tys));
    checks::for_narrow_types!(collect(&mut tys));
    let thorough = c.thorough;
    for profile in ["release", "debug"] {
        let (mut ok, mut bad) = (vec![], vec![]);
        for (n, t) in tys.iter().enumerate() {
            let special = [0, 1, t.bits * 3 / 20, t.bits * 3 / 10].contains(&t.p);
            if profile == "debug" && !thorough && !special {
                continue;
            }
            for (i, l) in valid(t, thorough).into_iter().enumerate() {
                if thorough {
                    for p in POSITIONS {
                        ok.push((t.clone(), l.clone(), *p));
                    }
                } else {
                    ok.push((t.clone(), l, POSITIONS[(i + n) % POSITIONS.len()]));
                }
            }
            for (i, l) in invalid(t, special, thorough).into_iter().enumerate() {
                let k = if thorough && special && profile == "release" { 2 } else { 1 };
                // every rejection costs the compiler 0.1 s
                let sparse = match (profile, special) {
                    ("release", true) => 2,
                    ("release", false) => 11,
                    _ => 7,
                };
                let sparse = match (thorough, profile, special) {
                    (false, ..) => sparse,
                    (true, "release", true) => 1,
                    (true, "release", false) => 3,
                    (true, _, true) => 2,
                    (true, _, false) => 13,
                };
                if i % sparse != n % sparse {
                    continue;
                }
                for j in 0..k {
                    bad.push((t.clone(), l.clone(), POSITIONS[(i + n + 2 * j) % POSITIONS.len()]));
                }
            }
        }
        let ok = Arc::new(units(profile, "valid", ok, 150));
        let bad = Arc::new(units(profile, "invalid", bad, 60));
        c.job(format!("valid {profile}"), ok.len() as u64, move |i, cx| run_valid(&ok[i as usize], cx));
        c.job(format!("invalid {profile}"), bad.len() as u64, move |i, cx| run_invalid(&bad[i as usize], cx));
    }
    c.run()
}
