//! C20: operations generated by the wrapper macro against the operations on the inner values.
use checks::full::rm;
use fixnum::ops::*;
use fixnum::{impl_op, ArithmeticError, FixedPoint};
use mc::lattice::{core, full, mul_partners, Set};
use mc::model::{max_of, min_of};
use mc::{Check, Cx, Mode, Out, MODES};
use std::sync::Arc;

const OUTCOMES: &[&str] = &["value", "error", "saturating", "refused dividend"];

/// The operations on inner values. The traits of the uniform interface stay out of the scope of the
/// generated implementations.
mod inner {
    use checks::{Fx, PlainInt};
    use mc::{Mode, Out};
    pub fn of<F: Fx>(x: i128) -> F { F::of(x) }
    pub fn bits<F: Fx>(x: F) -> i128 { x.bits() }
    pub fn lo<F: Fx>() -> i128 { F::lo() }
    pub fn hi<F: Fx>() -> i128 { F::hi() }
    pub fn coef<F: Fx>() -> i128 { F::coef() }
    pub fn name<F: Fx>() -> String { F::name() }
    pub fn p<F: Fx>() -> u32 { F::P }
    pub fn cadd<F: Fx>(a: F, b: F) -> Out { a.cadd(b) }
    pub fn csub<F: Fx>(a: F, b: F) -> Out { a.csub(b) }
    pub fn sadd<F: Fx>(a: F, b: F) -> i128 { a.sadd(b) }
    pub fn ssub<F: Fx>(a: F, b: F) -> i128 { a.ssub(b) }
    pub fn rmul<F: Fx>(a: F, b: F, m: Mode) -> Out { a.rmul(b, m) }
    pub fn srmul<F: Fx>(a: F, b: F, m: Mode) -> i128 { a.srmul(b, m) }
    pub fn rdiv<F: Fx>(a: F, b: F, m: Mode) -> Out { a.rdiv(b, m) }
    pub fn cmul_int<F: Fx>(a: F, k: i128) -> Out { a.cmul_int(k) }
    pub fn smul_int<F: Fx>(a: F, k: i128) -> i128 { a.smul_int(k) }
    pub fn rdiv_int<F: Fx>(a: F, k: i128, m: Mode) -> Out { a.rdiv_int(k, m) }
    pub fn int_rdiv<F: Fx>(k: i128, a: F, m: Mode) -> Out { F::int_rdiv(k, a, m) }
    pub fn i_cadd<I: PlainInt>(a: I, b: I) -> Out { PlainInt::cadd(a, b) }
    pub fn i_csub<I: PlainInt>(a: I, b: I) -> Out { PlainInt::csub(a, b) }
    pub fn i_cmul<I: PlainInt>(a: I, b: I) -> Out { PlainInt::cmul(a, b) }
    pub fn i_sadd<I: PlainInt>(a: I, b: I) -> i128 { PlainInt::sadd(a, b) }
    pub fn i_ssub<I: PlainInt>(a: I, b: I) -> i128 { PlainInt::ssub(a, b) }
    pub fn i_smul<I: PlainInt>(a: I, b: I) -> i128 { PlainInt::smul(a, b) }
    pub fn i_rdiv<I: PlainInt>(a: I, b: I, m: Mode) -> Out { PlainInt::rdiv(a, b, m) }
}

fn see(op: impl Fn() -> String, got: Out, want: Out, refusable: bool, cx: &mut Cx) {
    let refused = refusable && got == Out::Overflow;
    let class = match got {
        _ if refused => 3,
        Out::Val(_) => 0,
        _ => 1,
    };
    cx.judge(class, got == want || refused, || op(), || format!("wrapper gives {got:?}, the inner operation {want:?}"));
}
fn sat(op: impl Fn() -> String, got: i128, want: i128, cx: &mut Cx) {
    cx.judge(2, got == want, || op(), || format!("wrapper gives {got}, the inner operation {want}"));
}

fn wout<T>(r: Result<T, ArithmeticError>, f: impl Fn(T) -> i128) -> Out {
    r.map_or_else(checks::full::arith, |v| Out::Val(f(v)))
}

/// All values of a narrow integer, the boundary alphabet of a wide one.
fn int_values(bits: u32, thorough: bool) -> Vec<i128> {
    if bits == 8 {
        return (-128..128).collect();
    }
    if thorough {
        full(bits, 0)
    } else {
        core(bits, 0)
    }
}

/// One storage type and precision: wrappers over the number and over every integer that promotes.
macro_rules! suite {
    ($m:ident: $I:ident $P:ident; $($N:ident $n:ident),*) => {
        mod $m {
            use super::*;
            pub type Fp = FixedPoint<$I, fixnum::typenum::$P>;
            macro_rules! wrap { ($W:ident) => {
                #[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
                pub struct $W(pub Fp);
                impl From<Fp> for $W { fn from(x: Fp) -> $W { $W(x) } }
                impl Zero for $W { const ZERO: $W = $W(<Fp as Zero>::ZERO); }
                impl Bounded for $W {
                    const MIN: $W = $W(<Fp as Bounded>::MIN);
                    const MAX: $W = $W(<Fp as Bounded>::MAX);
                }
            } }
            wrap!(A);
            wrap!(B);
            wrap!(R);
            $(
                #[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
                pub struct $N(pub $n);
                impl Zero for $N { const ZERO: $N = $N(0); }
            )*
            // same types, different types, and a result of a third type
            impl_op!(A [cadd] A = A);
            impl_op!(A [cadd] B = R);
            impl_op!(A [csub] A = B);
            impl_op!(A [csub] B = R);
            impl_op!(A [rmul] A = R);
            impl_op!(A [rmul] B = R);
            impl_op!(A [rdiv] A = R);
            impl_op!(A [rdiv] B = A);
            $(
                impl_op!(A [cmul] $N = R);
                impl_op!($N [cmul] A = R);
                impl_op!(B [cmul] $N = B);
                impl_op!($N [cmul] B = B);
                impl_op!(A [rdiv] $N = R);
                impl_op!($N [rdiv] A = R);
                impl_op!($N [rdiv] B = B);
            )*
            ratios!($($N)*);

            pub fn pair(a: i128, b: i128, cx: &mut Cx) {
                let (x, y) = (inner::of::<Fp>(a), inner::of::<Fp>(b));
                let nm = |op: &str| format!("{} {op} {a} {b}", inner::name::<Fp>());
                cx.states += 1;
                cx.traces += 1;
                cx.at(|| nm("pair"));
                see(|| nm("A[cadd]A=A"), wout(A(x).cadd(A(y)), |r: A| inner::bits(r.0)), inner::cadd(x, y), false, cx);
                see(|| nm("A[cadd]B=R"), wout(A(x).cadd(B(y)), |r: R| inner::bits(r.0)), inner::cadd(x, y), false, cx);
                see(|| nm("A[csub]A=B"), wout(A(x).csub(A(y)), |r: B| inner::bits(r.0)), inner::csub(x, y), false, cx);
                see(|| nm("A[csub]B=R"), wout(A(x).csub(B(y)), |r: R| inner::bits(r.0)), inner::csub(x, y), false, cx);
                sat(|| nm("A[cadd]A saturating"), inner::bits(A(x).saturating_add(A(y)).0), inner::sadd(x, y), cx);
                sat(|| nm("A[cadd]B saturating"), inner::bits(A(x).saturating_add(B(y)).0), inner::sadd(x, y), cx);
                sat(|| nm("A[csub]A saturating"), inner::bits(A(x).saturating_sub(A(y)).0), inner::ssub(x, y), cx);
                sat(|| nm("A[csub]B saturating"), inner::bits(A(x).saturating_sub(B(y)).0), inner::ssub(x, y), cx);
            }
            pub fn rpair(a: i128, b: i128, cx: &mut Cx) {
                let (x, y) = (inner::of::<Fp>(a), inner::of::<Fp>(b));
                cx.states += 1;
                cx.traces += 1;
                for m in MODES {
                    let nm = |op: &str| format!("{} {op} {a} {b} {m:?}", inner::name::<Fp>());
                    cx.at(|| nm("pair"));
                    see(|| nm("A[rmul]A=R"), wout(A(x).rmul(A(y), rm(m)), |r: R| inner::bits(r.0)), inner::rmul(x, y, m), false, cx);
                    see(|| nm("A[rmul]B=R"), wout(A(x).rmul(B(y), rm(m)), |r: R| inner::bits(r.0)), inner::rmul(x, y, m), false, cx);
                    see(|| nm("A[rdiv]A=R"), wout(A(x).rdiv(A(y), rm(m)), |r: R| inner::bits(r.0)), inner::rdiv(x, y, m), false, cx);
                    see(|| nm("A[rdiv]B=A"), wout(A(x).rdiv(B(y), rm(m)), |r: A| inner::bits(r.0)), inner::rdiv(x, y, m), false, cx);
                    sat(|| nm("A[rmul]A saturating"), inner::bits(A(x).saturating_rmul(A(y), rm(m)).0), inner::srmul(x, y, m), cx);
                    sat(|| nm("A[rmul]B saturating"), inner::bits(A(x).saturating_rmul(B(y), rm(m)).0), inner::srmul(x, y, m), cx);
                }
            }
            /// A number against a plain integer of every width.
            $( pub fn $n(a: i128, k: i128, cx: &mut Cx) {
                let (x, w) = (inner::of::<Fp>(a), $N(k as $n));
                let refusable = k.checked_mul(inner::coef::<Fp>()).is_none_or(|v| v < inner::lo::<Fp>() || v > inner::hi::<Fp>());
                cx.states += 1;
                cx.traces += 1;
                let nm = |op: &str| format!("{} {op} {a} {k}{}", inner::name::<Fp>(), stringify!($n));
                cx.at(|| nm("number and integer"));
                see(|| nm("A[cmul]int=R"), wout(A(x).cmul(w), |r: R| inner::bits(r.0)), inner::cmul_int(x, k), false, cx);
                see(|| nm("int[cmul]A=R"), wout(w.cmul(A(x)), |r: R| inner::bits(r.0)), inner::cmul_int(x, k), false, cx);
                see(|| nm("B[cmul]int=B"), wout(B(x).cmul(w), |r: B| inner::bits(r.0)), inner::cmul_int(x, k), false, cx);
                see(|| nm("int[cmul]B=B"), wout(w.cmul(B(x)), |r: B| inner::bits(r.0)), inner::cmul_int(x, k), false, cx);
                sat(|| nm("A[cmul]int saturating"), inner::bits(A(x).saturating_mul(w).0), inner::smul_int(x, k), cx);
                sat(|| nm("int[cmul]A saturating"), inner::bits(w.saturating_mul(A(x)).0), inner::smul_int(x, k), cx);
                sat(|| nm("B[cmul]int saturating"), inner::bits(B(x).saturating_mul(w).0), inner::smul_int(x, k), cx);
                sat(|| nm("int[cmul]B saturating"), inner::bits(w.saturating_mul(B(x)).0), inner::smul_int(x, k), cx);
                for m in MODES {
                    let nm = |op: &str| format!("{} {op} {a} {k}{} {m:?}", inner::name::<Fp>(), stringify!($n));
                    see(|| nm("A[rdiv]int=R"), wout(A(x).rdiv(w, rm(m)), |r: R| inner::bits(r.0)), inner::rdiv_int(x, k, m), false, cx);
                    see(|| nm("int[rdiv]A=R"), wout(w.rdiv(A(x), rm(m)), |r: R| inner::bits(r.0)), inner::int_rdiv(k, x, m), refusable, cx);
                    see(|| nm("int[rdiv]B=B"), wout(w.rdiv(B(x), rm(m)), |r: B| inner::bits(r.0)), inner::int_rdiv(k, x, m), refusable, cx);
                }
            } )*
            /// A ratio of two plain integers of any two widths.
            pub fn ratio(j: i128, k: i128, cx: &mut Cx) {
                let whole = j.checked_mul(inner::coef::<Fp>()).filter(|v| *v >= inner::lo::<Fp>() && *v <= inner::hi::<Fp>());
                cx.states += 1;
                cx.traces += 1;
                for m in MODES {
                    let want = whole.map_or(Out::Overflow, |v| inner::rdiv_int(inner::of::<Fp>(v), k, m));
                    all_ratios(j, k, m, want, whole.is_none(), cx);
                }
            }
            pub fn jobs(chk: &mut Check) {
                let rows = if chk.thorough { full(<$I>::BITS, inner::p::<Fp>()) } else { core(<$I>::BITS, inner::p::<Fp>()) };
                let rows = Arc::new(rows);
                let thorough = chk.thorough;
                {
                    let rows = rows.clone();
                    chk.job(format!("pairs {}", inner::name::<Fp>()), rows.len() as u64, move |i, cx| {
                        let a = rows[i as usize];
                        for &b in rows.iter() {
                            pair(a, b, cx);
                            rpair(a, b, cx);
                        }
                        for b in mul_partners(<$I>::BITS, inner::p::<Fp>(), a) {
                            rpair(a, b, cx);
                            rpair(b, a, cx);
                        }
                        cx.sample(|| format!("{}: wrapper ops on bits {a} against {} right operands", inner::name::<Fp>(), rows.len()));
                    });
                }
                $( {
                    let ks = int_values(<$n>::BITS, thorough);
                    let rows = rows.clone();
                    chk.job(format!("{} and {}", inner::name::<Fp>(), stringify!($n)), rows.len() as u64, move |i, cx| {
                        for &k in &ks {
                            $n(rows[i as usize], k, cx);
                        }
                        // integers that put the product at the limits of the range
                        let a = rows[i as usize];
                        if a != 0 {
                            let mut s = Set::new(<$n>::BITS);
                            for lim in [inner::lo::<Fp>(), inner::hi::<Fp>()] {
                                s.around(lim.checked_div(a).unwrap_or(0), 1);
                            }
                            s.around(inner::hi::<Fp>() / inner::coef::<Fp>(), 1);
                            s.around(inner::lo::<Fp>() / inner::coef::<Fp>(), 1);
                            for k in s.vec() {
                                $n(a, k, cx);
                            }
                        }
                    });
                } )*
                let mut ks = Set::new(<$I>::BITS);
                for b in [8, 16, 32, 64, 128] {
                    if b <= <$I>::BITS {
                        ks.around(min_of(b), 1);
                        ks.around(max_of(b), 1);
                    }
                }
                for k in [0, 3, -7, 10, 100, -255, 40_000, 3_000_000_000, inner::hi::<Fp>() / inner::coef::<Fp>(), inner::lo::<Fp>() / inner::coef::<Fp>()] {
                    ks.around(k, 1);
                }
                for k in 0..<$I>::BITS - 1 {
                    if k % 5 == 0 || thorough {
                        ks.one(Some(1 << k));
                        ks.one(Some(-(1 << k) - 3));
                    }
                }
                let ks = ks.vec();
                chk.job(format!("ratios {}", inner::name::<Fp>()), ks.len() as u64, move |i, cx| {
                    for &k in &ks {
                        ratio(ks[i as usize], k, cx);
                    }
                });
            }
        }
    };
}

/// `$N [rdiv] $M = Ratio` for all pairs of integer wrappers.
macro_rules! ratios {
    ($($N:ident)*) => {
        ratios!(@rows [$($N)*] [$($N)*]);
        fn all_ratios(j: i128, k: i128, m: Mode, want: Out, refusable: bool, cx: &mut Cx) {
            ratios!(@calls [$($N)*] [$($N)*] j k m want refusable cx);
        }
    };
    (@rows [$($N:ident)*] $all:tt) => { $( ratios!(@row $N $all); )* };
    (@row $N:ident [$($M:ident)*]) => { $( impl_op!($N [rdiv] $M = R); )* };
    (@calls [$($N:ident)*] $all:tt $j:ident $k:ident $m:ident $want:ident $ref:ident $cx:ident) => {
        $( ratios!(@call $N $all $j $k $m $want $ref $cx); )*
    };
    (@call $N:ident [$($M:ident)*] $j:ident $k:ident $m:ident $want:ident $ref:ident $cx:ident) => {
        $( if let (Ok(a), Ok(b)) = ($j.try_into(), $k.try_into()) {
            let nm = || format!("{} {}[rdiv]{}=R {} {} {:?}", inner::name::<Fp>(), stringify!($N), stringify!($M), $j, $k, $m);
            $cx.at(nm);
            see(nm, wout($N(a).rdiv($M(b), rm($m)), |r: R| inner::bits(r.0)), $want, $ref, $cx);
        } )*
    };
}

suite!(s16p0: i16 U0; N8 i8, N16 i16);
suite!(s16p2: i16 U2; N8 i8, N16 i16);
suite!(s16p4: i16 U4; N8 i8, N16 i16);
suite!(s32p0: i32 U0; N8 i8, N16 i16, N32 i32);
suite!(s32p4: i32 U4; N8 i8, N16 i16, N32 i32);
suite!(s32p9: i32 U9; N8 i8, N16 i16, N32 i32);
suite!(s64p0: i64 U0; N8 i8, N16 i16, N32 i32, N64 i64);
suite!(s64p9: i64 U9; N8 i8, N16 i16, N32 i32, N64 i64);
suite!(s64p18: i64 U18; N8 i8, N16 i16, N32 i32, N64 i64);
suite!(s128p0: i128 U0; N8 i8, N16 i16, N32 i32, N64 i64, N128 i128);
suite!(s128p18: i128 U18; N8 i8, N16 i16, N32 i32, N64 i64, N128 i128);
suite!(s128p38: i128 U38; N8 i8, N16 i16, N32 i32, N64 i64, N128 i128);

/// Integer wrappers: every pair of operand widths up to the width of the result.
macro_rules! int_suite {
    ($m:ident: $I:ident; $($N:ident $n:ident),*) => {
        mod $m {
            use super::*;
            #[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
            pub struct R(pub $I);
            impl From<$I> for R { fn from(x: $I) -> R { R(x) } }
            impl Bounded for R { const MIN: R = R($I::MIN); const MAX: R = R($I::MAX); }
            $(
                #[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
                pub struct $N(pub $n);
                impl Zero for $N { const ZERO: $N = $N(0); }
            )*
            int_suite!(@rows [$($N)*] [$($N)*]);
            pub fn state(a: i128, b: i128, cx: &mut Cx) {
                type T = $I;
                let (x, y) = (a as T, b as T);
                cx.states += 1;
                cx.traces += 1;
                int_suite!(@calls [$($N)*] [$($N)*] a b x y cx);
            }
            pub fn jobs(chk: &mut Check) {
                let mut vals = Set::new(<$I>::BITS);
                for v in int_values(<$I>::BITS, chk.thorough) {
                    vals.one(Some(v));
                }
                for b in [8, 16, 32, 64, 128] {
                    if b <= <$I>::BITS {
                        for v in if b == 8 || b == 128 { core(b, 0) } else { core(b, 0).into_iter().step_by(3).collect() } {
                            vals.one(Some(v));
                        }
                        vals.around(min_of(b), 1);
                        vals.around(max_of(b), 1);
                    }
                }
                let vals = vals.vec();
                chk.job(concat!("integer wrappers, result ", stringify!($I)), vals.len() as u64, move |i, cx| {
                    let a = vals[i as usize];
                    for &b in &vals {
                        state(a, b, cx);
                    }
                    cx.sample(|| format!("integer wrappers up to {}: {a} against {} right operands", stringify!($I), vals.len()));
                });
            }
        }
    };
    (@rows [$($N:ident)*] $all:tt) => { $( int_suite!(@row $N $all); )* };
    (@row $N:ident [$($M:ident)*]) => { $(
        impl_op!($N [cadd] $M = R);
        impl_op!($N [csub] $M = R);
        impl_op!($N [cmul] $M = R);
        impl_op!($N [rdiv] $M = R);
    )* };
    (@calls [$($N:ident)*] $all:tt $a:ident $b:ident $x:ident $y:ident $cx:ident) => {
        $( int_suite!(@call $N $all $a $b $x $y $cx); )*
    };
    (@call $N:ident [$($M:ident)*] $a:ident $b:ident $x:ident $y:ident $cx:ident) => { $(
        if let (Ok(l), Ok(r)) = ($a.try_into(), $b.try_into()) {
            let (l, r) = ($N(l), $M(r));
            let nm = |op: &str| format!("{}[{op}]{}={} {} {}", stringify!($N), stringify!($M), std::any::type_name::<T>(), $a, $b);
            $cx.at(|| nm("integer wrappers"));
            see(|| nm("cadd"), wout(l.cadd(r), |v: R| v.0 as i128), inner::i_cadd($x, $y), false, $cx);
            see(|| nm("csub"), wout(l.csub(r), |v: R| v.0 as i128), inner::i_csub($x, $y), false, $cx);
            see(|| nm("cmul"), wout(l.cmul(r), |v: R| v.0 as i128), inner::i_cmul($x, $y), false, $cx);
            sat(|| nm("saturating_add"), l.saturating_add(r).0 as i128, inner::i_sadd($x, $y), $cx);
            sat(|| nm("saturating_sub"), l.saturating_sub(r).0 as i128, inner::i_ssub($x, $y), $cx);
            sat(|| nm("saturating_mul"), l.saturating_mul(r).0 as i128, inner::i_smul($x, $y), $cx);
            for m in MODES {
                see(|| nm(&format!("rdiv {m:?}")), wout(l.rdiv(r, rm(m)), |v: R| v.0 as i128), inner::i_rdiv($x, $y, m), false, $cx);
            }
        }
    )* };
}
int_suite!(i8s: i8; N8 i8);
int_suite!(i16s: i16; N8 i8, N16 i16);
int_suite!(i32s: i32; N8 i8, N16 i16, N32 i32);
int_suite!(i64s: i64; N8 i8, N16 i16, N32 i32, N64 i64);
int_suite!(i128s: i128; N8 i8, N16 i16, N32 i32, N64 i64, N128 i128);

fn main() {
    let mut c = Check::new("C20", OUTCOMES);
    c.rule(
        "programs are invocations of impl_op!: every operation x every operand kind (two number wrappers, integer wrappers \
         of every width that promotes) x result wrapper (same, other), for 12 storage/precision combinations, and \
         every triple of integer widths; states are operand pairs of the boundary alphabets; the transition runs the \
         generated implementation and the inner operation on independently widened operands and compares them, \
         value, error and saturating form.",
    );
    c.bound("12 FixedPoint instances (4 widths x 3 precisions), 5 result integers; boundary alphabets, all i8 values");
    i8s::jobs(&mut c);
    i16s::jobs(&mut c);
    i32s::jobs(&mut c);
    i64s::jobs(&mut c);
    i128s::jobs(&mut c);
    s16p0::jobs(&mut c);
    s16p2::jobs(&mut c);
    s16p4::jobs(&mut c);
    s32p0::jobs(&mut c);
    s32p4::jobs(&mut c);
    s32p9::jobs(&mut c);
    s64p0::jobs(&mut c);
    s64p9::jobs(&mut c);
    s64p18::jobs(&mut c);
    s128p0::jobs(&mut c);
    s128p18::jobs(&mut c);
    s128p38::jobs(&mut c);
    c.run()
}
