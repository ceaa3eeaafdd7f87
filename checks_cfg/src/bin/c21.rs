//! C21: results do not depend on the build configuration. One binary holds the crate in sixteen
//! configurations; every operation is run in all of them on the same operands.
use checks::{spec, text, Fx};
use checks_cfg::for_builds;
use mc::lattice::{core, full};
use mc::{Check, Cx, Exp, Mode, Out, MODES};
use std::collections::BTreeMap;
use std::fmt::Write;
use std::sync::Arc;

const OUTCOMES: &[&str] = &["same value in all builds", "same error in all builds", "different"];

/// Operations of one operand; the names are the case descriptions.
const UNARY: &[&str] = &[
    "rsqrt Floor", "rsqrt Nearest", "rsqrt Ceil", "recip Floor", "recip Nearest", "recip Ceil", "integral Floor", "integral Nearest",
    "integral Ceil", "floor", "round", "ceil", "cneg", "abs", "signum", "next_power_of_ten", "Display", "Debug", "into f64",
    "to_decimal(-40)", "to_decimal(0)", "to_decimal(7)", "to_decimal(40)", "try_from i8", "try_from u8", "try_from i16", "try_from u16", "try_from i32",
    "try_from u32", "try_from i64", "try_from u64", "try_from i128", "try_from u128", "try_from isize", "try_from usize", "try_from f64 of the bits",
    "try_from f64 of the number", "default", "as_bits, into_bits",
];
const BINARY: &[&str] = &[
    "cadd", "csub", "saturating_add", "saturating_sub", "rmul Floor", "rmul Nearest", "rmul Ceil", "saturating_rmul Floor", "saturating_rmul Nearest",
    "saturating_rmul Ceil", "rdiv Floor", "rdiv Nearest", "rdiv Ceil", "cmul int", "int cmul", "saturating_mul int", "int saturating_mul",
    "rdiv int Floor", "rdiv int Nearest", "rdiv int Ceil", "int rdiv Floor", "int rdiv Nearest", "int rdiv Ceil", "half_sum Floor",
    "half_sum Nearest", "half_sum Ceil", "round_towards_zero_by", "cmp", "eq",
];

fn opt(x: Option<i128>) -> Out {
    x.map_or(Out::Other, Out::Val)
}

fn digest(b: &[u8]) -> i128 {
    // short texts as they are, longer ones folded (FNV)
    let mut h = 0x6c62272e07bb014262b821756295c58du128;
    for &c in b {
        h = (h ^ c as u128).wrapping_mul(0x0000000001000000000000000000013bu128);
    }
    h as i128
}

fn unary<F: Fx>(op: usize, a: i128) -> Out {
    let x = F::of(a);
    let shown = |args: std::fmt::Arguments| {
        let mut b = text::Buf::new();
        let _ = b.write_fmt(args);
        Out::Val(digest(b.bytes()))
    };
    // partial functions only where they are defined
    let whole = |m, f: fn(F) -> i128| if matches!(spec::whole::<F>(a, m), Exp::Val(_)) { Out::Val(f(x)) } else { Out::Overflow };
    macro_rules! from {
        ($t:ty) => {
            opt(F::try_from(a as $t).ok().map(|v: F| v.bits()))
        };
    }
    match op {
        0..=2 => x.rsqrt(MODES[op]),
        3..=5 => x.recip(MODES[op - 3]),
        6..=8 => Out::Val(x.integral(MODES[op - 6])),
        9 => whole(Mode::Floor, |x| x.floor()),
        10 => whole(Mode::Nearest, |x| x.round()),
        11 => whole(Mode::Ceil, |x| x.ceil()),
        12 => x.cneg(),
        13 => x.abs(),
        14 => Out::Val(x.signum()),
        15 => x.npt(),
        16 => shown(format_args!("{x}")),
        17 => shown(format_args!("{x:?}")),
        18 => {
            let f: f64 = x.into();
            Out::Val(f.to_bits() as i128)
        }
        19..=22 => {
            let (m, e) = x.to_decimal([-40, 0, 7, 40][op - 19].max(-(F::P as i32)));
            Out::Val(m ^ ((e as i128) << 96))
        }
        23 => from!(i8),
        24 => from!(u8),
        25 => from!(i16),
        26 => from!(u16),
        27 => from!(i32),
        28 => from!(u32),
        29 => from!(i64),
        30 => from!(u64),
        31 => from!(i128),
        32 => from!(u128),
        33 => from!(isize),
        34 => from!(usize),
        35 => from!(f64),
        36 => {
            let f: f64 = x.into();
            opt(F::try_from(f).ok().map(|v: F| v.bits()))
        }
        37 => Out::Val(F::default().bits()),
        _ => {
            let (p, q) = x.bits2();
            Out::Val(p ^ q.rotate_left(1))
        }
    }
}

fn binary<F: Fx>(op: usize, a: i128, b: i128) -> Out {
    let (x, y) = (F::of(a), F::of(b));
    match op {
        0 => x.cadd(y),
        1 => x.csub(y),
        2 => Out::Val(x.sadd(y)),
        3 => Out::Val(x.ssub(y)),
        4..=6 => x.rmul(y, MODES[op - 4]),
        7..=9 => Out::Val(x.srmul(y, MODES[op - 7])),
        10..=12 => x.rdiv(y, MODES[op - 10]),
        13 => x.cmul_int(b),
        14 => F::int_cmul(a, y),
        15 => Out::Val(x.smul_int(b)),
        16 => Out::Val(F::int_smul(a, y)),
        17..=19 => x.rdiv_int(b, MODES[op - 17]),
        20..=22 => F::int_rdiv(a, y, MODES[op - 20]),
        23..=25 => Out::Val(x.half_sum(y, MODES[op - 23])),
        26 => Out::Val(x.rtz_by(y)),
        27 => Out::Val(x.cmp(&y) as i128),
        _ => Out::Val((x == y) as i128),
    }
}

/// One type in one build.
struct Build {
    name: &'static str,
    consts: [i128; 6],
    unary: fn(usize, i128) -> Out,
    binary: fn(usize, i128, i128) -> Out,
    parse: fn(&str) -> [Option<i128>; 2],
    float: fn(f64) -> Option<i128>,
    decimal: fn(i128, i32) -> Option<i128>,
}
fn build<F: Fx>(all: &mut BTreeMap<(u32, u32), Vec<Build>>) {
    all.entry((F::BITS, F::P)).or_default().push(Build {
        name: F::BUILD,
        consts: F::consts(),
        unary: unary::<F>,
        binary: binary::<F>,
        parse: |s| [F::parse(s), F::parse_exact(s)],
        float: |x| F::try_from(x).ok().map(|v: F| v.bits()),
        decimal: F::from_decimal,
    });
}

fn same<T: PartialEq + std::fmt::Debug>(bs: &[Build], f: impl Fn(&Build) -> T, err: impl Fn(&T) -> bool, case: impl Fn() -> String, cx: &mut Cx) {
    cx.at(|| format!("{} in {}", case(), bs[0].name));
    let want = f(&bs[0]);
    for b in &bs[1..] {
        cx.at(|| format!("{} in {}", case(), b.name));
        let got = f(b);
        let ok = got == want;
        cx.judge(
            if ok { err(&want) as usize } else { 2 },
            ok,
            || format!("{} in build {}", case(), b.name),
            || format!("got {got:?}, build {} gives {want:?}", bs[0].name),
        );
    }
}
fn is_err(o: &Out) -> bool {
    !matches!(o, Out::Val(_))
}

fn jobs(chk: &mut Check, bits: u32, p: u32, bs: Vec<Build>) {
    let thorough = chk.thorough;
    let ty = format!("FixedPoint<i{bits},U{p}>");
    let bs = Arc::new(bs);
    let names: Vec<&str> = bs.iter().map(|b| b.name).collect();
    let names = names.join(", ");
    let per = 128;

    let rows: Vec<i128> = if bits == 16 { (-32768..=32767).collect() } else { full(bits, p) };
    let (b, t, n) = (bs.clone(), ty.clone(), names.clone());
    chk.job(format!("unary {ty}"), rows.len().div_ceil(per) as u64, move |i, cx| {
        if i == 0 {
            same(&b, |b| b.consts, |_| false, || format!("{t} constants"), cx);
        }
        for &a in rows.iter().skip(i as usize * per).take(per) {
            cx.states += 1;
            cx.traces += 1;
            for (k, op) in UNARY.iter().enumerate() {
                same(&b, |b| (b.unary)(k, a), is_err, || format!("{t} {op} of bits {a}"), cx);
            }
        }
        cx.sample(|| format!("{t}: {} operations on {per} numbers in builds {n}", UNARY.len()));
    });

    let rows = core(bits, p);
    let cols: Vec<i128> = {
        let c = core(bits, p);
        let step = if thorough { 1 } else { (c.len() / 120).max(1) };
        let mut v: Vec<i128> = c.into_iter().step_by(step).collect();
        v.extend(checks_small(bits, p));
        v.sort();
        v.dedup();
        v
    };
    let (b, t) = (bs.clone(), ty.clone());
    chk.job(format!("binary {ty}"), rows.len() as u64, move |i, cx| {
        let x = rows[i as usize];
        for &y in &cols {
            cx.states += 1;
            cx.traces += 1;
            for (k, op) in BINARY.iter().enumerate() {
                same(&b, |b| (b.binary)(k, x, y), is_err, || format!("{t} {op} of bits {x} and {y}"), cx);
                same(&b, |b| (b.binary)(k, y, x), is_err, || format!("{t} {op} of bits {y} and {x}"), cx);
            }
        }
        cx.sample(|| format!("{t}: {} operations on {x} and {} others, both ways", BINARY.len(), cols.len()));
    });

    // texts
    let mut texts = words(b"0159-+. ", if thorough { 6 } else { 5 });
    for a in core(bits, p) {
        let c = text::canonical(a, p);
        let c = c.as_str();
        texts.extend([c.to_string(), format!("{c}5"), format!("{c}49"), format!("{c}{}", "0".repeat(40)), format!("+{c}"), c.trim_end_matches(".0").to_string()]);
        texts.push(format!("{}9", c.trim_end_matches(".0")));
    }
    for n in 1..60 {
        for d in ["0", "1", "9"] {
            texts.extend([d.repeat(n), format!("-{}", d.repeat(n)), format!("0.{}", d.repeat(n)), format!("-1.{}", d.repeat(n)), format!("{}.5", d.repeat(n))]);
        }
    }
    let (b, t) = (bs.clone(), ty.clone());
    chk.job(format!("texts {ty}"), texts.len().div_ceil(512) as u64, move |i, cx| {
        for s in texts.iter().skip(i as usize * 512).take(512) {
            cx.states += 1;
            cx.traces += 1;
            same(&b, |b| (b.parse)(s), |r| r[0].is_none(), || format!("{t} parse and from_str_exact {s:?}"), cx);
        }
    });

    // floats and decimals
    let (b, t) = (bs, ty.clone());
    chk.job(format!("floats {ty}"), 2048, move |e, cx| {
        let mut m = vec![0u64, 1, 2, (1 << 52) - 1, (1 << 52) - 2, 1 << 51, (1 << 51) - 1, (1 << 51) + 1];
        for k in 0..52 {
            m.extend([1 << k, (1 << 52) - (1 << k)]);
        }
        if thorough {
            m.extend((0..1 << 10).map(|k| k << 42));
        }
        for m in m {
            for neg in [false, true] {
                let x = checks::float::compose(neg, e, m & ((1 << 52) - 1));
                cx.states += 1;
                cx.traces += 1;
                same(&b, |b| (b.float)(x), |r| r.is_none(), || format!("{t} from f64 {x:e} ({:#x})", x.to_bits()), cx);
            }
        }
        let exp = e as i32 - 1024;
        if (-60..=60).contains(&exp) {
            for m in core(bits, p).into_iter().chain(checks_small(bits, p)) {
                cx.states += 1;
                cx.traces += 1;
                same(&b, |b| (b.decimal)(m, exp), |r| r.is_none(), || format!("{t} from_decimal({m}, {exp})"), cx);
            }
        }
    });
}

fn checks_small(bits: u32, p: u32) -> Vec<i128> {
    let (c, lo, hi) = (mc::model::pow10(p), mc::model::min_of(bits), mc::model::max_of(bits));
    let mut v = vec![0, 1, -1, 2, -2, 3, 7, 10, -10, c, -c, c - 1, c + 1, c / 2, -c / 2, c / 2 + 1, hi, hi - 1, lo, lo + 1, hi / 2, lo / 2, hi / 3, hi / 10];
    v.retain(|x| *x >= lo && *x <= hi);
    v
}

fn words(alphabet: &[u8], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to {
            for &c in alphabet {
                all.push(format!("{}{}", all[i], c as char));
            }
        }
        from = to;
    }
    all
}

fn main() {
    let mut c = Check::new("C21", OUTCOMES);
    c.rule(
        "states are (operation, operands) of the crate's whole numeric interface; the transition is the real operation in each of 16 build \
         configurations (std or no_std; all widths, one alone, pairs; integration features on or off; overflow checks and debug assertions on \
         or off), all linked into one binary. The result in every build must equal the result in the first.",
    );
    c.bound("13 types; numbers: every 16-bit value, boundary alphabets; pairs: core alphabet x 140 values (thorough: the whole core alphabet), both ways");
    c.bound("texts: all up to 5 (thorough 6) characters over 8, canonical texts and mutations; floats: every exponent x 112 (thorough 1136) mantissas x sign");
    c.assume("overflow checks follow the profile of the crate that defines a function (they are decided when its MIR is built)");
    let mut all = BTreeMap::new();
    for_builds!(build(&mut all));
    for ((bits, p), bs) in all {
        jobs(&mut c, bits, p, bs);
    }
    c.run()
}
