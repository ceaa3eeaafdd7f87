//! C07: integral part, floor, ceil, round.
use checks::{calc, for_all_types, for_i16_types, for_i32_types, spec, Fx};
use mc::lattice::{core, full, Set};
use mc::model::Wide;
use mc::{Check, Cx, Exp, Mode, MODES};

const OUTCOMES: &[&str] = &["trace step with a value", "trace step with an error", "already whole", "rounded", "not representable, not called"];

#[inline(always)]
fn state<F: Fx>(a: i128, cx: &mut Cx) {
    let x = F::of(a);
    cx.states += 1;
    let class = 2 + (a % F::coef() != 0) as usize;
    for m in MODES {
        cx.at(|| format!("{} integral {a} {m:?}", F::name()));
        let got = x.integral(m);
        let want = spec::integral::<F>(a, m);
        cx.judge(class, got == want, || format!("{} integral {a} {m:?}", F::name()), || format!("got {got}, model says {want}"));
        let Exp::Val(want) = F::Wide::clamp_exp(F::w(want).times(F::w(F::coef())), F::lo(), F::hi()) else {
            // there is nothing these total functions could return
            cx.step(4);
            continue;
        };
        let name = match m {
            Mode::Floor => "floor",
            Mode::Ceil => "ceil",
            Mode::Nearest => "round",
        };
        cx.at(|| format!("{} {name} {a}", F::name()));
        let got = match m {
            Mode::Floor => x.floor(),
            Mode::Ceil => x.ceil(),
            Mode::Nearest => x.round(),
        };
        cx.judge(class, got == want, || format!("{} {name} {a}", F::name()), || format!("got {got}, model says {want}"));
    }
}

fn grid<F: Fx>(chk: &mut Check) {
    let mut s = Set::new(F::BITS);
    let coef = F::coef();
    let top = F::hi() / coef;
    let ks = if chk.thorough { full(F::BITS, 0) } else { core(F::BITS, 0) };
    for k in ks.into_iter().chain([top, -top, top - 1, -top - 1]) {
        let Some(g) = k.checked_mul(coef) else { continue };
        s.around(g, 2);
        for off in [coef / 2, -(coef / 2), coef / 2 + 1, coef / 3, coef - 1] {
            if let Some(x) = g.checked_add(off) {
                s.around(x, 1);
            }
        }
    }
    for a in full(F::BITS, F::P) {
        s.one(Some(a));
    }
    let rows = s.vec();
    chk.job(format!("grid {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        state::<F>(a, cx);
        cx.sample(|| format!("{}: integral({a}) -> {:?}", F::name(), MODES.map(|m| F::of(a).integral(m))));
    });
}

fn all16<F: Fx>(chk: &mut Check) {
    chk.job(format!("all16 {}", F::name()), 256, move |i, cx| {
        for k in 0..256 {
            state::<F>(F::lo() + (i * 256 + k) as i128, cx);
        }
    });
}

fn all32<F: Fx>(chk: &mut Check) {
    if !chk.thorough || ![1, 5, 9].contains(&F::P) {
        return;
    }
    chk.job(format!("all32 {}", F::name()), 1 << 16, move |i, cx| {
        for k in 0..1 << 16 {
            state::<F>(F::lo() + ((i << 16) + k) as i128, cx);
        }
    });
}

fn ops<F: Fx>(v: &mut Vec<calc::Op<F>>) {
    calc::whole(v);
    calc::movers(v);
}
fn traces<F: Fx>(chk: &mut Check) {
    calc::trace_jobs::<F>(chk, 3, ops::<F>);
}

fn main() {
    let mut c = Check::new("C07", OUTCOMES);
    c.rule(
        "states are register values; transitions are integral (each mode), floor, ceil and round on the real crate, compared \
         with exact rational rounding. 73 types: the boundary alphabet plus whole numbers, halves and their \
         neighbours, every 16-bit value; plus traces mixing them with steps. floor/ceil/round are not called where \
         the whole number is outside the range of the type.",
    );
    c.bound("i16: every value; i32: every value for P 1, 5, 9 (thorough only); wider: boundary alphabets and grids");
    c.bound("traces: i16 closure to fixpoint, all types depth 3");
    c.assume("floor/ceil/round of a number whose rounding is not representable is outside the property");
    for_all_types!(grid(&mut c));
    for_i16_types!(all16(&mut c));
    for_i32_types!(all32(&mut c));
    for_all_types!(traces(&mut c));
    c.run()
}
