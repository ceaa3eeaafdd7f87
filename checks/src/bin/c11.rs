//! C11: parsing, with rounding and exactly.
use checks::{for_all_types, for_narrow_types, text, Fx};
use mc::{Check, Cx};
use std::collections::BTreeSet;
use std::sync::Arc;

const OUTCOMES: &[&str] = &["accepted", "accepted with rounding", "rejected", "exact accepted", "exact rejected"];

#[inline(always)]
fn state<F: Fx>(s: &str, cx: &mut Cx) {
    cx.states += 1;
    cx.traces += 1; // one text = one path of the reader's input tree, executed on the real reader
    let (want, want_exact) = text::parse::<F>(s);
    cx.at(|| format!("{} parse {s:?}", F::name()));
    let got = F::parse(s);
    let class = match got {
        Some(_) => (want != want_exact) as usize,
        None => 2,
    };
    cx.judge(class, got == want, || format!("{} parse {s:?}", F::name()), || format!("got {got:?}, model says {want:?}"));
    cx.at(|| format!("{} from_str_exact {s:?}", F::name()));
    let got = F::parse_exact(s);
    cx.judge(
        3 + got.is_none() as usize,
        got == want_exact,
        || format!("{} from_str_exact {s:?}", F::name()),
        || format!("got {got:?}, model says {want_exact:?}"),
    );
}

/// Every string over the alphabet up to the given length, in one walk.
fn strings(alphabet: &[&str], len: usize, first: usize, f: &mut dyn FnMut(&str)) {
    fn rec(alphabet: &[&str], left: usize, s: &mut String, f: &mut dyn FnMut(&str)) {
        f(s);
        if left == 0 {
            return;
        }
        for c in alphabet {
            let n = s.len();
            s.push_str(c);
            rec(alphabet, left - 1, s, f);
            s.truncate(n);
        }
    }
    let k = alphabet.len();
    let mut s = format!("{}{}", alphabet[first / k], alphabet[first % k]);
    rec(alphabet, len - 2, &mut s, f);
    if first % k == 0 {
        f(alphabet[first / k]);
    }
    if first == 0 {
        f("");
    }
}

const SMALL: &[&str] = &["0", "1", "5", "9", "-", "+", ".", " "];
const ODD: &[&str] = &[
    "0", "4", "7", ".", "-", "+", ",", "_", "e", "E", "x", "\t", "\n", "\u{a0}", "\u{2003}", "٣", "½", "\0", "é", "n", "'", "/", ":", "−",
];

fn short<F: Fx>(chk: &mut Check) {
    // longer strings for the types where they reach every digit position
    let deep = F::P <= 4 && F::P > 0 && F::BITS <= 32 || [0, 1, 2].contains(&F::P) && F::BITS >= 64;
    let len = match (deep, chk.thorough) {
        (true, true) => 8,
        (true, false) => 7,
        (false, true) => 7,
        (false, false) => 6,
    };
    let n = (SMALL.len() * SMALL.len()) as u64;
    chk.job(format!("short {}", F::name()), n, move |i, cx| {
        let mut last = String::new();
        strings(SMALL, len, i as usize, &mut |s| {
            state::<F>(s, cx);
            if cx.states % 4096 == 77 {
                last = s.to_string();
            }
        });
        cx.sample(|| format!("{}: all strings of length <= {len} over {SMALL:?} starting with {:?}, e.g. {last:?} -> {:?}", F::name(), SMALL[i as usize / SMALL.len()], F::parse(&last)));
    });
    let len = if chk.thorough { 4 } else { 3 };
    let n = (ODD.len() * ODD.len()) as u64;
    chk.job(format!("odd {}", F::name()), n, move |i, cx| strings(ODD, len, i as usize, &mut |s| state::<F>(s, cx)));
}

fn rep(c: char, n: usize) -> String {
    std::iter::repeat(c).take(n).collect()
}

/// Integer parts: small, at the limits of the type, of its storage and far beyond.
fn integers<F: Fx>() -> Vec<String> {
    let top = F::hi() / F::coef();
    let mut v: BTreeSet<String> = ["0", "1", "9", "10", "00", "007", "12", "", "-", "1 ", "a"].iter().map(|s| s.to_string()).collect();
    for x in [top - 1, top, top.saturating_add(1), top / 10, F::hi() / 10, F::hi(), F::hi() - 1] {
        v.insert(x.to_string());
        v.insert(format!("000{x}"));
    }
    for x in [i16::MAX as i128, i32::MAX as i128, i64::MAX as i128, i128::MAX, 1 << 16, 1 << 32, 1 << 64] {
        v.insert(x.to_string());
        v.insert(mc::Big::i(x).add(&mc::Big::u(1)).dec());
    }
    v.insert(top.to_string() + "0");
    v.insert(rep('9', 45));
    v.insert(rep('9', 120));
    v.insert(rep('0', 130) + "1");
    v.into_iter().collect()
}

/// Fractions: digit patterns of every length up to the precision and beyond.
fn fractions<F: Fx>(thorough: bool) -> Vec<String> {
    let p = F::P as usize;
    let mut v = BTreeSet::new();
    let tail = |x: i128| {
        let x = x.unsigned_abs() % F::coef().unsigned_abs();
        let s = format!("{x:0p$}");
        if p == 0 {
            String::new()
        } else {
            s
        }
    };
    let tails: Vec<String> = [F::hi(), F::lo(), F::hi() - 1, F::hi() / 2, 0].into_iter().map(tail).collect();
    for t in &tails {
        for e in ["", "0", "4", "5", "9", "49", "50", "51", "99", "00", "01", "4999999999999999999999999999999999999999999", "5000"] {
            v.insert(format!("{t}{e}"));
        }
    }
    let mut lens: Vec<usize> = (0..=p + 4).collect();
    lens.extend([p + 20, 41, 60, 130]);
    for n in lens {
        for c in ['0', '9', '4', '5', '1'] {
            v.insert(rep(c, n));
        }
        if n >= 1 {
            for l in ["1", "4", "5", "6", "9"] {
                v.insert(rep('0', n - 1) + l);
                v.insert(rep('9', n - 1) + l);
                v.insert(rep('4', n - 1) + l);
                v.insert(l.to_string() + &rep('0', n - 1));
            }
            // one digit in the middle
            for k in 0..n {
                if thorough || k + 2 >= p.min(n) && k <= p + 1 || k < 2 {
                    v.insert(rep('0', k) + "5" + &rep('0', n - 1 - k));
                    v.insert(rep('9', k) + "4" + &rep('9', n - 1 - k));
                }
            }
        }
    }
    for s in ["5e1", "-5", "+5", "5-", " 5", "5 ", "5.5", "5.", ".", "5_0", "٣", "5\0", "0x1"] {
        v.insert(s.to_string());
    }
    v.into_iter().collect()
}

fn long<F: Fx>(chk: &mut Check) {
    let ints = integers::<F>();
    let fracs: Arc<Vec<String>> = Arc::new(fractions::<F>(chk.thorough));
    chk.job(format!("long {}", F::name()), ints.len() as u64, move |i, cx| {
        let int = &ints[i as usize];
        let mut s = String::new();
        for sign in ["", "+", "-", "--", " -", "\t"] {
            s.clear();
            s.push_str(sign);
            s.push_str(int);
            state::<F>(&s, cx);
            s.push_str("  ");
            state::<F>(&s, cx);
            for f in fracs.iter() {
                s.clear();
                s.push_str(sign);
                s.push_str(int);
                s.push('.');
                s.push_str(f);
                state::<F>(&s, cx);
            }
        }
        cx.sample(|| format!("{}: integer part {int:?} with {} fractions, last {s:?} -> {:?}", F::name(), fracs.len(), F::parse(&s)));
    });
}

/// Texts at the range limits: MAX and MIN in decimal, off by a few last digits, with tails that
/// decide the rounding.
fn limits<F: Fx>(chk: &mut Check) {
    let r = if chk.thorough { 200 } else { 12 };
    chk.job(format!("limits {}", F::name()), 2 * r as u64 + 1, move |i, cx| {
        let d = i as i128 - r;
        for lim in [F::hi(), F::lo()] {
            let v = mc::Big::i(lim).add(&mc::Big::i(d));
            let neg = v < mc::Big::u(0);
            let dec = v.abs().dec();
            let p = F::P as usize;
            let dec = format!("{dec:0>w$}", w = p + 1);
            let (a, b) = dec.split_at(dec.len() - p);
            let sign = if neg { "-" } else { "" };
            if p == 0 {
                state::<F>(&format!("{sign}{a}"), cx);
            }
            for e in ["", "0", "4", "49", "499999999999999999999999999999999999999999", "5", "50", "500000000000000000000000000000000000000000001", "9", "99"] {
                state::<F>(&format!("{sign}{a}.{b}{e}"), cx);
            }
            for k in 0..p {
                state::<F>(&format!("{sign}{a}.{}", &b[..k]), cx);
                state::<F>(&format!("{sign}{a}.{}0", &b[..k]), cx);
            }
        }
    });
}

fn main() {
    let mut c = Check::new("C11", OUTCOMES);
    c.rule(
        "states are (type, text); transitions are parse and from_str_exact on the real crate, compared with a reference reader \
         built on exact integers: every string up to the stated length over a small alphabet and over an alphabet of \
         odd characters, sign x integer part x fraction products at every length up to and beyond the precision, and \
         neighbourhoods of MIN and MAX with deciding tails. 73 types of the full build, 34 of a build without i128.",
    );
    c.bound("strings over 8 characters: length <= 7 for small precisions, <= 6 for all types (thorough 8 and 7); 24 odd characters: length <= 3 (thorough 4)");
    c.bound("structured texts: fractions up to 130 digits, integer parts up to 131 digits");
    for_all_types!(short(&mut c));
    for_all_types!(long(&mut c));
    for_all_types!(limits(&mut c));
    for_narrow_types!(long(&mut c));
    for_narrow_types!(limits(&mut c));
    c.run()
}
