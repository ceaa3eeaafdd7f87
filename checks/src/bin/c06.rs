//! C06: square root.
use checks::{calc, for_all_types, for_i16_types, for_i32_types, spec, Fx};
use mc::lattice::{full, Set};
use mc::{Big, Check, Cx, Out, MODES};

const OUTCOMES: &[&str] = &["trace step with a value", "trace step with an error", "exact root", "rounded root", "domain violation"];

#[inline(always)]
fn state<F: Fx>(a: i128, cx: &mut Cx) {
    let x = F::of(a);
    cx.states += 1;
    let mut last = Out::Other;
    for (i, m) in MODES.into_iter().enumerate() {
        cx.at(|| format!("{} rsqrt {a} {m:?}", F::name()));
        let got = x.rsqrt(m);
        let class = match got {
            Out::Val(_) if i > 0 && last == got => 2,
            Out::Val(_) => 3,
            _ => 4,
        };
        last = got;
        cx.judge(
            class,
            spec::sqrt_ok::<F>(a, m, got),
            || format!("{} rsqrt {a} {m:?}", F::name()),
            || format!("got {got:?}, model says {:?}", spec::sqrt::<F>(a, m)),
        );
    }
}

/// Radicands around the squares of r, the midpoints between squares and their neighbours.
fn around_root<F: Fx>(r: i128, s: &mut Set) {
    let coef = Big::i(F::coef());
    let r_ = Big::i(r);
    let sq = r_.mul(&r_);
    for n in [sq, sq.add(&r_), sq.add(&r_).add(&r_)] {
        let (q, _) = Big::floor_divmod(&n, &coef);
        s.near_big(&q, 2);
    }
}

fn roots<F: Fx>(chk: &mut Check) {
    let top = spec::sqrt::<F>(F::hi(), mc::Mode::Floor).out();
    let Out::Val(top) = top else { unreachable!() };
    // root alphabet: the boundary alphabet below the largest root, and every fraction of the top
    let mut rs = Set::new(F::BITS);
    for r in full(F::BITS, F::P) {
        if r >= 0 && r <= top {
            rs.one(Some(r));
        }
    }
    for k in 1..=if chk.thorough { 400 } else { 60 } {
        rs.around(top / k, 1);
    }
    let rs: Vec<i128> = rs.vec().into_iter().filter(|r| *r >= 0 && *r <= top).collect();
    chk.job(format!("roots {}", F::name()), rs.len() as u64, move |i, cx| {
        let mut s = Set::new(F::BITS);
        around_root::<F>(rs[i as usize], &mut s);
        for a in s.vec() {
            state::<F>(a, cx);
        }
    });
    let rows = full(F::BITS, F::P);
    chk.job(format!("alphabet {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        state::<F>(a, cx);
        cx.sample(|| format!("{}: rsqrt({a}) -> {:?}", F::name(), F::of(a).rsqrt(mc::Mode::Nearest)));
    });
}

/// Every value in windows at zero, at one, at the top and at every power of two.
fn windows<F: Fx>(chk: &mut Check) {
    let w: i128 = match (F::BITS, chk.thorough) {
        (16, _) => return,
        (128, false) => 1 << 8,
        (128, true) => 1 << 14,
        (_, false) => 1 << 11,
        (_, true) => 1 << 17,
    };
    let mut starts = vec![0, F::coef() - w / 2, F::hi() - w + 1, -w / 2];
    for k in 8..F::BITS - 1 {
        starts.push((1i128 << k) - w / 2);
    }
    starts.retain(|s| *s >= F::lo() && s.checked_add(w - 1).is_some_and(|e| e <= F::hi()));
    let per = w.min(256);
    let n = (w / per) as u64;
    chk.job(format!("windows {}", F::name()), starts.len() as u64 * n, move |i, cx| {
        let from = starts[(i / n) as usize] + (i % n) as i128 * per;
        for k in 0..per {
            state::<F>(from + k, cx);
        }
    });
}

fn all16<F: Fx>(chk: &mut Check) {
    chk.job(format!("all16 {}", F::name()), 256, move |i, cx| {
        for k in 0..256 {
            state::<F>(F::lo() + (i * 256 + k) as i128, cx);
        }
    });
}

fn all32<F: Fx>(chk: &mut Check) {
    if !chk.thorough || ![0, 4, 9].contains(&F::P) {
        return;
    }
    chk.job(format!("all32 {}", F::name()), 1 << 15, move |i, cx| {
        for k in 0..1 << 16 {
            state::<F>(((i << 16) + k) as i128, cx);
        }
    });
}

fn ops<F: Fx>(v: &mut Vec<calc::Op<F>>) {
    calc::sqrt(v);
    calc::movers(v);
}
fn traces<F: Fx>(chk: &mut Check) {
    let depth = if chk.thorough { 4 } else { 3 };
    calc::trace_jobs::<F>(chk, depth, ops::<F>);
}

fn main() {
    let mut c = Check::new("C06", OUTCOMES);
    c.rule(
        "states are radicands; transitions are rsqrt with each mode on the real crate, judged by squaring (r^2 <= x < (r+1)^2 \
         and the like). 73 types: the boundary alphabet, all radicands around the squares and midpoints of a root \
         alphabet, windows of consecutive values at zero, one, MAX and every power of two, every 16-bit value; \
         plus traces mixing roots with steps.",
    );
    c.bound("i16: every value; i32: every non-negative value for P 0, 4, 9 (thorough only); wider: boundary and root alphabets, windows");
    c.bound("traces: i16 closure to fixpoint, all types depth 3 (thorough 4)");
    for_all_types!(roots(&mut c));
    for_all_types!(windows(&mut c));
    for_i16_types!(all16(&mut c));
    for_i32_types!(all32(&mut c));
    for_all_types!(traces(&mut c));
    c.run()
}
