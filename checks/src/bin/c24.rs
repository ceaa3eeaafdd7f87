//! C24: impossible precisions and mixed types do not get through the compiler. The executions
//! enumerated are those of the compiler on programs with one use of one type, and of the programs
//! that it accepts.
use checks::rustc::{build_lits, compile, run};
use mc::{Big, Check, Cx};
use std::collections::BTreeMap;
use std::sync::Arc;

const OUTCOMES: &[&str] = &["type fits: compiles and is exact", "precision too high: rejected", "precision too high: exact or an error", "type-level fact holds"];

#[derive(Clone)]
struct Ty {
    krate: &'static str,
    bits: u32,
    p: u32,
}
impl Ty {
    fn name(&self) -> String {
        format!("{}::FixedPoint<i{}, U{}>", self.krate, self.bits, self.p)
    }
    fn path(&self) -> String {
        format!("lits::{}::FixedPoint<i{}, lits::{}::typenum::U{}>", self.krate, self.bits, self.krate, self.p)
    }
    fn c(&self) -> Big {
        Big::pow(10, self.p)
    }
    fn hi(&self) -> Big {
        Big::i(mc::model::max_of(self.bits))
    }
    fn lo(&self) -> Big {
        Big::i(mc::model::min_of(self.bits))
    }
    fn within(&self, x: &Big) -> bool {
        *x >= self.lo() && *x <= self.hi()
    }
    /// Is the scale representable, i.e. is this a type of the interface at all?
    fn fits(&self) -> bool {
        self.within(&self.c())
    }
}

/// The rounded quotient; mode -1, 0 (half away from zero), 1 as in the crate.
fn div(n: &Big, d: &Big, mode: i32) -> Big {
    let (n, d) = if d.sign() < 0 { (n.neg(), d.neg()) } else { (n.clone(), d.clone()) };
    let (q, r) = Big::floor_divmod(&n, &d);
    let up = match mode {
        -1 => false,
        1 => !r.is_zero(),
        _ => {
            let twice = r.dbl();
            twice > d || twice == d && n.sign() > 0
        }
    };
    if up {
        q.add(&Big::u(1))
    } else {
        q
    }
}

fn checked(t: &Ty, x: Big) -> Option<String> {
    Some(if t.within(&x) { format!("Ok({})", x.dec()) } else { "Err(Overflow)".into() })
}
fn some(t: &Ty, x: Big) -> Option<String> {
    Some(if t.within(&x) { format!("Some({})", x.dec()) } else { "None".into() })
}
fn plain(x: Big) -> Option<String> {
    Some(x.dec())
}
fn clamp(t: &Ty, x: Big) -> Option<String> {
    plain(if x > t.hi() {
        t.hi()
    } else if x < t.lo() {
        t.lo()
    } else {
        x
    })
}
/// Canonical text of `bits * 10^-p`.
fn text(bits: &Big, p: u32) -> String {
    let d = bits.abs().dec();
    let p = p as usize;
    let d = if d.len() <= p { "0".repeat(p + 1 - d.len()) + &d } else { d };
    let (i, f) = d.split_at(d.len() - p);
    let f = f.trim_end_matches('0');
    format!("{}{i}.{}", if bits.sign() < 0 { "-" } else { "" }, if f.is_empty() { "0" } else { f })
}

/// A use of the interface: its name, an expression that gives a `String`, and what exact
/// arithmetic says it must give (nothing: the number does not exist in the type).
type Use = (&'static str, &'static str, fn(&Ty) -> Option<String>);
const USES: &[Use] = &[
    ("ONE", "T::ONE.into_bits().to_string()", |t| if t.fits() { plain(t.c()) } else { None }),
    ("ONE in a constant", "{ const ONE: T = T::ONE; ONE.into_bits().to_string() }", |t| if t.fits() { plain(t.c()) } else { None }),
    ("ZERO", "T::ZERO.into_bits().to_string()", |_| Some("0".into())),
    ("EPSILON", "T::EPSILON.into_bits().to_string()", |_| Some("1".into())),
    ("PRECISION", "T::PRECISION.to_string()", |t| Some(t.p.to_string())),
    ("MIN and MAX", "format!(\"{} {}\", T::MIN.into_bits(), T::MAX.into_bits())", |t| Some(format!("{} {}", t.lo().dec(), t.hi().dec()))),
    ("cadd", "r(b(1).cadd(b(2)))", |_| Some("Ok(3)".into())),
    ("csub", "r(T::MIN.csub(b(1)))", |_| Some("Err(Overflow)".into())),
    ("cmul", "r(b(-7).cmul(6))", |_| Some("Ok(-42)".into())),
    ("int cmul", "{ let k: I = 6; r(k.cmul(b(-7))) }", |_| Some("Ok(-42)".into())),
    ("saturating_add", "T::MAX.saturating_add(b(1)).into_bits().to_string()", |t| plain(t.hi())),
    ("cneg", "r(b(5).cneg())", |_| Some("Ok(-5)".into())),
    ("abs", "r(b(-5).abs())", |_| Some("Ok(5)".into())),
    ("half_sum", "T::half_sum(b(3), b(6), Floor).into_bits().to_string()", |_| Some("4".into())),
    ("signum", "b(-9).signum().to_string()", |_| Some("-1".into())),
    ("comparison", "format!(\"{:?} {}\", b(-9).cmp(&b(3)), b(4) == b(4))", |_| Some("Less true".into())),
    ("default", "T::default().into_bits().to_string()", |_| Some("0".into())),
    ("round_towards_zero_by", "b(-29).round_towards_zero_by(b(10)).into_bits().to_string()", |_| Some("-20".into())),
    ("next_power_of_ten", "r(b(11).next_power_of_ten())", |_| Some("Ok(100)".into())),
    ("rmul of MAX and a small number", "r(T::MAX.rmul(b(3), Ceil))", |t| checked(t, div(&t.hi().mul(&Big::u(3)), &t.c(), 1))),
    ("rmul of MAX and MIN", "r(T::MAX.rmul(T::MIN, Nearest))", |t| checked(t, div(&t.hi().mul(&t.lo()), &t.c(), 0))),
    ("rmul of small numbers", "r(b(-5).rmul(b(7), Floor))", |t| checked(t, div(&Big::i(-35), &t.c(), -1))),
    ("saturating_rmul", "T::MAX.saturating_rmul(T::MAX, Floor).into_bits().to_string()", |t| clamp(t, div(&t.hi().mul(&t.hi()), &t.c(), -1))),
    ("rdiv by MAX", "r(b(7).rdiv(T::MAX, Floor))", |t| checked(t, div(&Big::u(7).mul(&t.c()), &t.hi(), -1))),
    ("rdiv by a small number", "r(b(2).rdiv(b(-3), Nearest))", |t| checked(t, div(&Big::u(2).mul(&t.c()), &Big::i(-3), 0))),
    ("rdiv of MIN by MAX", "r(T::MIN.rdiv(T::MAX, Ceil))", |t| checked(t, div(&t.lo().mul(&t.c()), &t.hi(), 1))),
    ("rdiv by an integer", "{ let k: I = 4; r(b(-10).rdiv(k, Nearest)) }", |_| Some("Ok(-3)".into())),
    ("int rdiv", "{ let k: I = 0; r(k.rdiv(b(7), Floor)) }", |_| Some("Ok(0)".into())),
    ("recip", "r(T::MAX.recip(Floor))", |t| checked(t, div(&t.c().mul(&t.c()), &t.hi(), -1))),
    ("rsqrt", "r(T::MAX.rsqrt(Floor))", |t| checked(t, t.hi().mul(&t.c()).isqrt())),
    ("integral", "T::MAX.integral(Ceil).to_string()", |t| plain(div(&t.hi(), &t.c(), 1))),
    ("integral, Nearest", "T::MIN.integral(Nearest).to_string()", |t| plain(div(&t.lo(), &t.c(), 0))),
    ("floor", "b(1).floor().into_bits().to_string()", |t| Some(if t.p == 0 { "1".into() } else { "0".into() })),
    ("ceil", "b(-1).ceil().into_bits().to_string()", |t| Some(if t.p == 0 { "-1".into() } else { "0".into() })),
    ("round", "b(1).round().into_bits().to_string()", |t| Some(if t.p == 0 { "1".into() } else { "0".into() })),
    ("Display", "T::MAX.to_string()", |t| Some(text(&t.hi(), t.p))),
    ("Debug", "format!(\"{:?}\", b(-1))", |t| Some(text(&Big::i(-1), t.p))),
    ("parse", "o(\"-1\".parse::<T>().ok())", |t| some(t, t.c().neg())),
    ("parse of the last digit", "o(format!(\"0.{}4\", \"0\".repeat((T::PRECISION - 1).max(0) as usize)).parse::<T>().ok())", |t| some(t, if t.p == 0 { Big::u(0) } else { Big::u(4) })),
    ("from_str_exact", "o(T::from_str_exact(\"1.0\").ok())", |t| some(t, t.c())),
    ("from_decimal of steps", "o(T::from_decimal(-33, -T::PRECISION).ok())", |_| Some("Some(-33)".into())),
    ("from_decimal", "o(T::from_decimal(1, 0).ok())", |t| some(t, t.c())),
    ("to_decimal", "{ let (m, e) = b(-500).to_decimal(1 - T::PRECISION); format!(\"{m} {e}\") }", |t| Some(format!("-50 {}", 1 - t.p as i32))),
    ("try_from u8", "o(T::try_from(1u8).ok())", |t| some(t, t.c())),
    ("try_from i64", "o(T::try_from(-1i64).ok())", |t| some(t, t.c().neg())),
    ("try_from u128", "o(T::try_from(2u128).ok())", |t| some(t, t.c().dbl())),
    ("try_from f64", "o(T::try_from(1.0f64).ok())", |t| some(t, t.c())),
    ("try_from negative f64", "o(T::try_from(-0.0f64).ok())", |_| Some("Some(0)".into())),
    ("f64", "{ let f = f64::from(b(1)); let s: f64 = format!(\"1e{}\", T::PRECISION).parse().unwrap(); (f > 0. && (f * s - 1.).abs() < 1e-9).to_string() }", |_| Some("true".into())),
];

fn program(t: &Ty, uses: &[usize]) -> String {
    let k = t.krate;
    let mut s = format!(
        "use lits::{k}::{{ArithmeticError, ops::{{Bounded, CheckedAdd, CheckedMul, CheckedSub, One, RoundMode::*, RoundingDiv, RoundingMul, Zero}}}};\n\
         type I = i{};\ntype T = {};\n\
         fn b(x: I) -> T {{ T::from_bits(x) }}\n\
         fn r(x: Result<T, ArithmeticError>) -> String {{ match x {{ Ok(v) => format!(\"Ok({{}})\", v.into_bits()), Err(e) => format!(\"Err({{e:?}})\") }} }}\n\
         fn o(x: Option<T>) -> String {{ match x {{ Some(v) => format!(\"Some({{}})\", v.into_bits()), None => \"None\".into() }} }}\n",
        t.bits,
        t.path()
    );
    for (i, u) in uses.iter().enumerate() {
        s += &format!("fn u{i}() -> String {{ {} }}\n", USES[*u].1);
    }
    s += "fn main() {\n";
    for i in 0..uses.len() {
        s += &format!("println!(\"{{}}\", u{i}());\n");
    }
    s + "}\n"
}

fn case(t: &Ty, u: usize, profile: &str) -> String {
    format!("use of {} of {}, {profile} build", USES[u].0, t.name())
}

fn run_fitting(t: &Ty, profile: &'static str, cx: &mut Cx) {
    let all: Vec<usize> = (0..USES.len()).collect();
    let name = format!("{}-{}-{}-{profile}", t.krate, t.bits, t.p);
    let (c, exe) = compile("c24", &name, profile, &program(t, &all));
    let out = if c.ok { Some(run(&exe)) } else { None };
    for u in all {
        cx.states += 1;
        cx.traces += 1;
        let got = match &out {
            Some((text, _)) => text.lines().nth(u).unwrap_or("a panic").to_string(),
            None => {
                // one by one: which use is to blame?
                let (c, exe) = compile("c24", &name, profile, &program(t, &[u]));
                if c.ok {
                    run(&exe).0.trim_end().to_string()
                } else {
                    "a compile error".into()
                }
            }
        };
        let want = (USES[u].2)(t).unwrap();
        cx.judge(0, got == want, || case(t, u, profile), || format!("is {got}, exactly it is {want}"));
    }
    cx.sample(|| format!("{} ({profile}): {} uses, e.g. {}", t.name(), USES.len(), case(t, USES.len() - 5, profile)));
}

fn run_impossible(t: &Ty, profile: &'static str, u: usize, cx: &mut Cx) {
    cx.states += 1;
    cx.traces += 1;
    let name = format!("{}-{}-{}-{profile}-{u}", t.krate, t.bits, t.p);
    let (c, exe) = compile("c24", &name, profile, &program(t, &[u]));
    if !c.ok {
        cx.judge(1, true, String::new, String::new); // rejected
        cx.sample(|| format!("{}: rejected", case(t, u, profile)));
        return;
    }
    let (text, ended) = run(&exe);
    let got = text.trim_end();
    let ok = ended && (Some(got) == (USES[u].2)(t).as_deref() || got == "None" || got.starts_with("Err("));
    cx.judge(2, ok, || case(t, u, profile), || {
        let want = (USES[u].2)(t).map_or("there is no such number".into(), |w| format!("exactly it is {w}"));
        format!("compiles and gives {}, {want}", if ended { got } else { "a panic" })
    });
}

/// Facts about types, found by the compiler's own trait resolution.
/// (name, implementation condition on A and B, does it have to hold between A and itself)
const PAIRS: &[(&str, &str, bool)] = &[
    ("CheckedAdd", "A: ops::CheckedAdd<B>", true),
    ("CheckedSub", "A: ops::CheckedSub<B>", true),
    ("CheckedMul", "A: ops::CheckedMul<B>", false),
    ("RoundingMul", "A: ops::RoundingMul<B>", true),
    ("RoundingDiv", "A: ops::RoundingDiv<B>", true),
    ("PartialEq", "A: PartialEq<B>", true),
    ("PartialOrd", "A: PartialOrd<B>", true),
    ("From", "A: From<B>", true),
    ("TryFrom", "A: TryFrom<B>", true),
    ("operator +", "A: std::ops::Add<B>", false),
    ("operator -", "A: std::ops::Sub<B>", false),
    ("operator *", "A: std::ops::Mul<B>", false),
    ("operator /", "A: std::ops::Div<B>", false),
    ("operator %", "A: std::ops::Rem<B>", false),
    ("operator +=", "A: std::ops::AddAssign<B>", false),
    ("operator -=", "A: std::ops::SubAssign<B>", false),
    ("operator *=", "A: std::ops::MulAssign<B>", false),
    ("operator /=", "A: std::ops::DivAssign<B>", false),
];
/// Between a number A and an integer B: Some(true) between the number and an integer of its own
/// storage width, Some(false) never; integers of other widths are judged only if it never holds.
const INTS: &[(&str, &str, bool)] = &[
    ("CheckedAdd with an integer", "A: ops::CheckedAdd<B>", false),
    ("CheckedSub with an integer", "A: ops::CheckedSub<B>", false),
    ("CheckedMul with an integer", "A: ops::CheckedMul<B>", true),
    ("RoundingMul with an integer", "A: ops::RoundingMul<B>", false),
    ("RoundingDiv by an integer", "A: ops::RoundingDiv<B>", true),
    ("CheckedAdd to an integer", "B: ops::CheckedAdd<A>", false),
    ("CheckedSub from an integer", "B: ops::CheckedSub<A>", false),
    ("CheckedMul of an integer", "B: ops::CheckedMul<A>", true),
    ("RoundingMul of an integer", "B: ops::RoundingMul<A>", false),
    ("RoundingDiv of an integer", "B: ops::RoundingDiv<A>", true),
    ("equality with an integer", "A: PartialEq<B>", false),
    ("order with an integer", "A: PartialOrd<B>", false),
    ("integer From number", "B: From<A>", false),
];
const SINGLE: &[(&str, &str, bool)] = &[
    ("Copy", "A: Copy", true),
    ("Send", "A: Send", true),
    ("Sync", "A: Sync", true),
    ("Unpin", "A: Unpin", true),
    ("Default", "A: Default", true),
    ("Eq", "A: Eq", true),
    ("Ord", "A: Ord", true),
    ("Hash", "A: std::hash::Hash", true),
    ("Display", "A: std::fmt::Display", true),
    ("Debug", "A: std::fmt::Debug", true),
    ("FromStr", "A: std::str::FromStr", true),
    ("f64 From number", "f64: From<A>", true),
    ("number TryFrom f64", "A: TryFrom<f64>", true),
    ("number TryFrom i8", "A: TryFrom<i8>", true),
    ("number TryFrom u16", "A: TryFrom<u16>", true),
    ("number TryFrom i32", "A: TryFrom<i32>", true),
    ("number TryFrom u64", "A: TryFrom<u64>", true),
    ("number TryFrom i128", "A: TryFrom<i128>", true),
    ("number TryFrom usize", "A: TryFrom<usize>", true),
    ("number From f64", "A: From<f64>", false),
    ("number From f32", "A: From<f32>", false),
    ("f32 From number", "f32: From<A>", false),
    ("negation operator", "A: std::ops::Neg", false),
    ("Deref", "A: std::ops::Deref", false),
    ("Zero", "A: ops::Zero", true),
    ("One", "A: ops::One", true),
    ("Bounded", "A: ops::Bounded", true),
    ("Drop glue", "A: Dropping", false),
];

struct Facts {
    prelude: String,
    lines: Vec<String>,
    cases: Vec<(String, bool)>,
}
impl Facts {
    fn new(krate: &str) -> Facts {
        let mut prelude = format!("use std::marker::PhantomData; use lits::{krate}::ops;\nstruct Q<A, B>(PhantomData<(A, B)>);\ntrait Dropping {{}} impl Dropping for String {{}}\n");
        prelude += "fn p(b: bool) { println!(\"{b}\"); }\n";
        for (tag, facts) in [("P", PAIRS), ("I", INTS), ("S", SINGLE)] {
            prelude += &format!("trait No{tag} {{ {} }} impl<A, B> No{tag} for Q<A, B> {{}}\n", (0..facts.len()).map(|i| format!("const {tag}{i}: bool = false;")).collect::<String>());
            for (i, f) in facts.iter().enumerate() {
                let bound = f.1;
                prelude += &format!("impl<A, B> Q<A, B> where {bound} {{ const {tag}{i}: bool = true; }}\n");
            }
        }
        Facts { prelude, lines: vec![], cases: vec![] }
    }
    fn ask(&mut self, expr: String, case: String, want: bool) {
        self.lines.push(format!("p({expr});"));
        self.cases.push((case, want));
    }
}

fn run_facts(krate: &'static str, tys: &[Ty], ints: &[u32], row: usize, cx: &mut Cx) {
    let mut f = Facts::new(krate);
    let a = &tys[row];
    for b in tys {
        let own = a.bits == b.bits && a.p == b.p;
        for (i, (n, _, want)) in PAIRS.iter().enumerate() {
            f.ask(format!("Q::<{}, {}>::P{i}", a.path(), b.path()), format!("{n} between {} and {}", a.name(), b.name()), *want && own);
        }
    }
    for sign in ["i", "u"] {
        for w in ints {
            for (i, (n, _, want)) in INTS.iter().enumerate() {
                let own = sign == "i" && *w == a.bits;
                if !own && *want {
                    continue;
                }
                f.ask(format!("Q::<{}, {sign}{w}>::I{i}", a.path()), format!("{n}, {} and {sign}{w}", a.name()), *want);
            }
        }
    }
    for (i, (n, _, want)) in SINGLE.iter().enumerate() {
        f.ask(format!("Q::<{}, ()>::S{i}", a.path()), format!("{n}, {}", a.name()), *want);
    }
    for (what, want) in [("size_of", true), ("align_of", true)] {
        f.ask(format!("std::mem::{what}::<{}>() == std::mem::{what}::<i{}>()", a.path(), a.bits), format!("{what} of {} is that of i{}", a.name(), a.bits), want);
    }
    f.ask(format!("std::mem::needs_drop::<{}>()", a.path()), format!("{} needs no drop", a.name()), false);
    let text = format!("{}fn main() {{\n{}\n}}\n", f.prelude, f.lines.join("\n"));
    let (c, exe) = compile("c24", &format!("facts-{krate}-{row}"), "release", &text);
    if !c.ok {
        mc::run::die(&format!("the program of type-level facts does not compile:\n{}", &c.text[..c.text.len().min(3000)]));
    }
    let (out, _) = run(&exe);
    let got: Vec<&str> = out.lines().collect();
    for (i, (case, want)) in f.cases.iter().enumerate() {
        cx.states += 1;
        cx.traces += 1;
        let g = got.get(i).copied().unwrap_or("nothing");
        cx.judge(3, g == want.to_string(), || case.clone(), || format!("is {g}, it must be {want}"));
    }
    cx.sample(|| format!("{} facts of {}, e.g. {}: {}", f.cases.len(), a.name(), f.cases[7].0, f.cases[7].1));
}

fn main() {
    let mut c = Check::new("C24", OUTCOMES);
    c.rule(
        "states are programs with one use of one type (storage width x precision x use x build), and the facts about every pair \
         of types; the transition is the real compiler on the real crate, and running what it accepts. Types that fit must compile and be \
         exact in every use; with a precision that is too high every use is rejected, or is exact, or gives an error; \
         facts are decided by the compiler's trait resolution.",
    );
    c.assume("A precision is at most 2^31 - 1 digits: PRECISION is an i32.");
    for p in ["release", "debug"] {
        build_lits(p);
    }
    let thorough = c.thorough;
    let builds: [(&'static str, &[u32]); 2] = [("fixnum", &[16, 32, 64, 128]), ("fixnum_narrow", &[16, 32, 64])];
    let (mut fit, mut too) = (vec![], vec![]);
    let mut by_build: BTreeMap<&'static str, Vec<Ty>> = BTreeMap::new();
    for (krate, widths) in builds {
        for &bits in widths {
            let max = bits * 3 / 10;
            for p in (0..=44).chain([48, 56, 64]) {
                let t = Ty { krate, bits, p };
                if t.fits() {
                    assert!(p <= max);
                    by_build.entry(krate).or_default().push(t.clone());
                    for profile in ["release", "debug"] {
                        if thorough || profile == "release" || [0, 1, max - 1, max].contains(&p) {
                            fit.push((t.clone(), profile));
                        }
                    }
                    continue;
                }
                let quick = p <= max + 2 || [18, 19, 38, 39, 64].contains(&p);
                if !thorough && !quick {
                    continue;
                }
                for profile in ["release", "debug"] {
                    for u in 0..USES.len() {
                        // quick: every use in one of the two builds
                        if thorough || (u + p as usize) % 2 == (profile == "debug") as usize && (krate == "fixnum" || p == max + 1) {
                            too.push((t.clone(), profile, u));
                        }
                    }
                }
            }
        }
    }
    c.bound(format!("{} types that fit (x builds), {} uses of types that do not, {} uses in all", fit.len(), too.len(), USES.len()));
    let fit = Arc::new(fit);
    let too = Arc::new(too);
    c.job("types that fit", fit.len() as u64, {
        move |i, cx| run_fitting(&fit[i as usize].0, fit[i as usize].1, cx)
    });
    c.job("precision too high", too.len() as u64, move |i, cx| {
        let (t, profile, u) = &too[i as usize];
        run_impossible(t, profile, *u, cx)
    });
    for (krate, tys) in by_build {
        let tys: Vec<Ty> = tys.into_iter().filter(|t| thorough || [0, 1, 2, 4, 9, 18, 38].contains(&t.p)).collect();
        let n = tys.len() as u64;
        let tys = Arc::new(tys);
        c.job(format!("type-level facts of {krate}"), n, move |i, cx| run_facts(krate, &tys, &[8, 16, 32, 64, 128], i as usize, cx));
    }
    c.run()
}
