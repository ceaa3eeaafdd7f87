//! The calculator machine: one register holding a number, one transition per (operation, operand,
//! mode). Explored exhaustively on the real type, every transition compared with the model.

use crate::{spec, Fx};
use mc::{Cx, Exp, Mode, Out, MODES};

pub struct Op<F> {
    pub name: String,
    pub real: Box<dyn Fn(F) -> Out + Send + Sync>,
    pub model: Box<dyn Fn(i128) -> Exp + Send + Sync>,
    /// also acceptable: an error, or the other neighbour
    pub lax: Lax,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Lax {
    No,
    /// ties may go either way
    Tie,
}

fn op<F: Fx>(
    name: String,
    real: impl Fn(F) -> Out + Send + Sync + 'static,
    model: impl Fn(i128) -> Exp + Send + Sync + 'static,
) -> Op<F> {
    Op { name, real: Box::new(real), model: Box::new(model), lax: Lax::No }
}

/// Operand values: small set with collisions, both signs, the grid, fractions and the extremes.
pub fn operands<F: Fx>() -> Vec<i128> {
    let c = F::coef();
    let mut v = vec![1, -1, c, -c, c / 2 + 1, F::hi(), F::lo()];
    if let Some(x) = c.checked_mul(3).filter(|x| *x <= F::hi()) {
        v.push(-x);
    }
    v.push(F::hi() / 7);
    v.dedup();
    v
}

pub fn starts<F: Fx>() -> Vec<i128> {
    let c = F::coef();
    let mut v = vec![0, 1, -1, c, -c, c / 2, F::hi() / 3, F::hi(), F::lo(), F::lo() / 7 * 5 + 3];
    v.sort();
    v.dedup();
    v
}

pub fn rmul<F: Fx>(v: &mut Vec<Op<F>>) {
    for b in operands::<F>() {
        for m in MODES {
            v.push(op(
                format!("rmul({b}, {m:?})"),
                move |a: F| a.rmul(F::of(b), m),
                move |a| spec::rmul::<F>(a, b, m),
            ));
        }
    }
}
pub fn rdiv<F: Fx>(v: &mut Vec<Op<F>>) {
    for b in operands::<F>().into_iter().chain([0]) {
        for m in MODES {
            v.push(op(
                format!("rdiv({b}, {m:?})"),
                move |a: F| a.rdiv(F::of(b), m),
                move |a| spec::rdiv::<F>(a, b, m),
            ));
        }
    }
    for m in MODES {
        v.push(op(format!("recip({m:?})"), move |a: F| a.recip(m), move |a| spec::rdiv::<F>(F::coef(), a, m)));
    }
}
pub fn ints<F: Fx>() -> Vec<i128> {
    vec![0, 1, -1, 2, -3, 10, F::hi(), F::lo()]
}
pub fn rdiv_int<F: Fx>(v: &mut Vec<Op<F>>) {
    for k in ints::<F>() {
        for m in MODES {
            v.push(op(
                format!("rdiv_int({k}, {m:?})"),
                move |a: F| a.rdiv_int(k, m),
                move |a| spec::rdiv_int::<F>(a, k, m),
            ));
        }
    }
}
pub fn int_rdiv<F: Fx>(v: &mut Vec<Op<F>>) {
    for k in [0, 1, -1, 3] {
        for m in MODES {
            if F::Wide::of_fits(k, F::coef(), F::lo(), F::hi()) {
                v.push(op(
                    format!("int_rdiv({k}, {m:?})"),
                    move |a: F| F::int_rdiv(k, a, m),
                    move |a| spec::int_rdiv::<F>(k, a, m).0,
                ));
            }
        }
    }
}

trait OfFits {
    fn of_fits(k: i128, c: i128, min: i128, max: i128) -> bool;
}
impl<W: mc::model::Wide> OfFits for W {
    fn of_fits(k: i128, c: i128, min: i128, max: i128) -> bool {
        k.checked_mul(c).is_some_and(|x| x >= min && x <= max)
    }
}

pub fn checked<F: Fx>(v: &mut Vec<Op<F>>) {
    for b in operands::<F>() {
        v.push(op(format!("cadd({b})"), move |a: F| a.cadd(F::of(b)), move |a| spec::add::<F>(a, b)));
        v.push(op(format!("csub({b})"), move |a: F| a.csub(F::of(b)), move |a| spec::sub::<F>(a, b)));
    }
    for k in ints::<F>() {
        v.push(op(format!("cmul({k})"), move |a: F| a.cmul_int(k), move |a| spec::mul_int::<F>(a, k)));
        v.push(op(format!("{k}.cmul"), move |a: F| F::int_cmul(k, a), move |a| spec::mul_int::<F>(a, k)));
    }
    v.push(op("cneg".into(), |a: F| a.cneg(), |a| spec::neg::<F>(a)));
    v.push(op("abs".into(), |a: F| a.abs(), |a| spec::abs::<F>(a)));
}

fn sat<F: Fx>(e: Exp) -> Exp {
    Exp::Val(e.saturated(F::lo(), F::hi()).unwrap())
}

pub fn saturating<F: Fx>(v: &mut Vec<Op<F>>) {
    for b in operands::<F>() {
        v.push(op(
            format!("saturating_add({b})"),
            move |a: F| Out::Val(a.sadd(F::of(b))),
            move |a| sat::<F>(spec::add::<F>(a, b)),
        ));
        v.push(op(
            format!("saturating_sub({b})"),
            move |a: F| Out::Val(a.ssub(F::of(b))),
            move |a| sat::<F>(spec::sub::<F>(a, b)),
        ));
        for m in MODES {
            v.push(op(
                format!("saturating_rmul({b}, {m:?})"),
                move |a: F| Out::Val(a.srmul(F::of(b), m)),
                move |a| sat::<F>(spec::rmul::<F>(a, b, m)),
            ));
        }
    }
    for k in ints::<F>() {
        v.push(op(
            format!("saturating_mul({k})"),
            move |a: F| Out::Val(a.smul_int(k)),
            move |a| sat::<F>(spec::mul_int::<F>(a, k)),
        ));
        v.push(op(
            format!("{k}.saturating_mul"),
            move |a: F| Out::Val(F::int_smul(k, a)),
            move |a| sat::<F>(spec::mul_int::<F>(a, k)),
        ));
    }
}

pub fn sqrt<F: Fx>(v: &mut Vec<Op<F>>) {
    for m in MODES {
        v.push(op(format!("rsqrt({m:?})"), move |a: F| a.rsqrt(m), move |a| spec::sqrt::<F>(a, m)));
    }
}

/// Plain steps that move the register, for mixing with the operations of a property.
pub fn movers<F: Fx>(v: &mut Vec<Op<F>>) {
    for b in [1, F::coef(), F::hi() / 3, F::lo()] {
        v.push(op(format!("cadd({b})"), move |a: F| a.cadd(F::of(b)), move |a| spec::add::<F>(a, b)));
    }
    v.push(op("cneg".into(), |a: F| a.cneg(), |a| spec::neg::<F>(a)));
    v.push(op("cmul(3)".into(), |a: F| a.cmul_int(3), |a| spec::mul_int::<F>(a, 3)));
}

pub fn whole<F: Fx>(v: &mut Vec<Op<F>>) {
    // floor, ceil and round are total only where the whole number is representable
    let guard = |a: i128, m: Mode| matches!(spec::whole::<F>(a, m), Exp::Val(_));
    v.push(op(
        "floor".into(),
        move |a: F| if guard(a.bits(), Mode::Floor) { Out::Val(a.floor()) } else { Out::Overflow },
        |a| spec::whole::<F>(a, Mode::Floor),
    ));
    v.push(op(
        "ceil".into(),
        move |a: F| if guard(a.bits(), Mode::Ceil) { Out::Val(a.ceil()) } else { Out::Overflow },
        |a| spec::whole::<F>(a, Mode::Ceil),
    ));
    v.push(op(
        "round".into(),
        move |a: F| if guard(a.bits(), Mode::Nearest) { Out::Val(a.round()) } else { Out::Overflow },
        |a| spec::whole::<F>(a, Mode::Nearest),
    ));
    for m in MODES {
        v.push(op(
            format!("integral({m:?})"),
            move |a: F| Out::Val(a.integral(m)),
            move |a| Exp::Val(spec::integral::<F>(a, m)),
        ));
    }
}

pub fn half<F: Fx>(v: &mut Vec<Op<F>>) {
    for b in operands::<F>() {
        for m in MODES {
            for flip in [false, true] {
                let mut o = op(
                    format!("half_sum({b}, {m:?}{})", if flip { ", flipped" } else { "" }),
                    move |a: F| {
                        Out::Val(if flip { F::of(b).half_sum(a, m) } else { a.half_sum(F::of(b), m) })
                    },
                    move |a| {
                        use mc::model::Wide;
                        Exp::Val(F::Wide::round_div(F::w(a).plus(F::w(b)), F::w(2), m).narrow().unwrap())
                    },
                );
                if m == Mode::Nearest {
                    o.lax = Lax::Tie;
                }
                v.push(o);
            }
        }
    }
}

pub fn steps<F: Fx>(v: &mut Vec<Op<F>>) {
    v.push(op("next_power_of_ten".into(), |a: F| a.npt(), |a| spec::npt::<F>(a)));
    for b in operands::<F>().into_iter().chain([0, 7]) {
        v.push(op(
            format!("round_towards_zero_by({b})"),
            move |a: F| Out::Val(a.rtz_by(F::of(b))),
            move |a| Exp::Val(spec::rtz_by::<F>(a, b)),
        ));
    }
    v.push(op("signum".into(), |a: F| Out::Val(a.signum()), |a| Exp::Val(a.signum())));
}

/// Text and decimal round trips as identity transitions.
pub fn text<F: Fx>(v: &mut Vec<Op<F>>) {
    v.push(op(
        "display+parse".into(),
        |a: F| F::parse(&a.to_string()).map_or(Out::Other, Out::Val),
        Exp::Val,
    ));
    v.push(op(
        "debug+parse_exact".into(),
        |a: F| F::parse_exact(&format!("{a:?}")).map_or(Out::Other, Out::Val),
        Exp::Val,
    ));
}
pub fn decimal<F: Fx>(v: &mut Vec<Op<F>>) {
    for max_e in [-(F::P as i32), -1, 0, 3, 10] {
        if max_e < -(F::P as i32) {
            continue;
        }
        v.push(op(
            format!("to_decimal({max_e})+from_decimal"),
            move |a: F| {
                let (m, e) = a.to_decimal(max_e);
                F::from_decimal(m, e).map_or(Out::Other, Out::Val)
            },
            Exp::Val,
        ));
    }
    for e in [-(F::P as i32), 0, 1] {
        v.push(op(
            format!("from_decimal(bits, {e})"),
            move |a: F| F::from_decimal(a.bits(), e).map_or(Out::Overflow, Out::Val),
            move |a| spec::from_decimal::<F>(a, e).map_or(Exp::Above, Exp::Val),
        ));
    }
}

impl<F: Fx> Op<F> {
    /// Executes the transition on the real type and judges it. Returns the successor register.
    #[inline]
    pub fn fire(&self, a: i128, cx: &mut Cx, path: impl Fn() -> String) -> i128 {
        cx.at(|| format!("{} {} from bits {a}, then {}", F::name(), path(), self.name));
        let got = (self.real)(F::of(a));
        let want = (self.model)(a);
        let ok = got == want.out()
            || match (self.lax, got, want) {
                (Lax::Tie, Out::Val(g), Exp::Val(w)) => (g - w).abs() == 1 && self.tie_ok(a, g),
                _ => false,
            };
        cx.step(if matches!(got, Out::Val(_)) { TRACE_OK } else { TRACE_ERR });
        if !ok {
            cx.fail(
                format!("{} {} on bits {a}", F::name(), self.name),
                format!("trace {}: got {got:?}, model says {want:?}", path()),
            );
        }
        match got {
            Out::Val(v) => v,
            _ => a,
        }
    }

    // half_sum ties: |2g - (a+b)| = 1, i.e. both neighbours are equally near. The model's answer is
    // one neighbour; the other is one unit away on the side of the exact mean.
    fn tie_ok(&self, a: i128, g: i128) -> bool {
        let Exp::Val(w) = (self.model)(a) else { return false };
        // recover b from the name is not needed: the model of Floor and Ceil brackets the mean
        let b: i128 = self.name["half_sum(".len()..].split(',').next().unwrap().parse().unwrap();
        spec::half_sum_ok::<F>(a, b, Mode::Nearest, g) && spec::half_sum_ok::<F>(a, b, Mode::Nearest, w)
    }
}

/// Outcome classes 0 and 1 of every check are the ones of the calculator.
pub const TRACE_OK: usize = 0;
pub const TRACE_ERR: usize = 1;

/// Breadth-first closure over all register values reachable from `from` (16-bit types only).
pub fn closure<F: Fx>(ops: &[Op<F>], from: &[i128], cx: &mut Cx) {
    assert!(F::BITS == 16);
    let mut seen = vec![false; 1 << 16];
    let ix = |x: i128| (x + (1 << 15)) as usize;
    let mut frontier: Vec<i128> = vec![];
    for &s in from {
        if !seen[ix(s)] {
            seen[ix(s)] = true;
            frontier.push(s);
        }
    }
    let mut depth = 0;
    let mut states = frontier.len() as u64;
    while !frontier.is_empty() {
        let mut next = vec![];
        for &a in &frontier {
            for o in ops {
                let b = o.fire(a, cx, || format!("closure depth {depth}"));
                if !seen[ix(b)] {
                    seen[ix(b)] = true;
                    states += 1;
                    next.push(b);
                }
            }
            if cx.failed() {
                return;
            }
        }
        frontier = next;
        depth += 1;
    }
    cx.states += states;
    cx.traces += states; // each reached state is the end of one executed shortest trace
    cx.sample(|| format!("{}: {} operations, closure of {} register values at depth {}", F::name(), ops.len(), states, depth));
}

/// All operation sequences of length `depth` from `start` whose first operation is `first`.
pub fn sequences<F: Fx>(ops: &[Op<F>], start: i128, first: usize, depth: usize, cx: &mut Cx) {
    let mut path = vec![start];
    let mut names = vec![first];
    let s = ops[first].fire(start, cx, || format!("from {start}"));
    path.push(s);
    rec(ops, depth - 1, &mut path, &mut names, cx);
    cx.sample(|| {
        let tail = |k: usize| ops[(first + 7 * k) % ops.len()].name.clone();
        format!("{}: all length-{depth} sequences {start} -> {} -> * (e.g. {}, {})", F::name(), ops[first].name, tail(1), tail(2))
    });
}

fn rec<F: Fx>(ops: &[Op<F>], depth: usize, path: &mut Vec<i128>, names: &mut Vec<usize>, cx: &mut Cx) {
    cx.states += 1;
    if depth == 0 {
        cx.traces += 1;
        return;
    }
    for (i, o) in ops.iter().enumerate() {
        if cx.failed() {
            return;
        }
        let a = *path.last().unwrap();
        let b = o.fire(a, cx, || {
            names.iter().map(|&n| ops[n].name.clone()).collect::<Vec<_>>().join(" ; ")
        });
        path.push(b);
        names.push(i);
        rec(ops, depth - 1, path, names, cx);
        path.pop();
        names.pop();
    }
}

/// The standard trace jobs of a check: closure for 16-bit types, bounded sequences for all types.
pub fn trace_jobs<F: Fx>(chk: &mut mc::Check, depth: usize, build: fn(&mut Vec<Op<F>>)) {
    let mut ops = vec![];
    build(&mut ops);
    let n = ops.len() as u64;
    let ops = std::sync::Arc::new(ops);
    if F::BITS == 16 {
        let o = ops.clone();
        chk.job(format!("closure {}", F::name()), 1, move |_, cx| closure(&o, &starts::<F>(), cx));
    }
    let starts = starts::<F>();
    chk.job(format!("sequences {}", F::name()), n * starts.len() as u64, move |i, cx| {
        sequences(&ops, starts[(i / n) as usize], (i % n) as usize, depth, cx)
    });
}
