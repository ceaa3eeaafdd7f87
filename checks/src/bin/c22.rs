//! C22: purity. Every result is compared with the result of the same operation on the same
//! operands at another point of history, on another thread and under preemption.
use checks::preempt::{length, schedule, Mate};
use checks::text::Buf;
use checks::{calc, for_all_types, for_narrow_types, Fx};
use mc::{Check, Cx, Out, MODES};
use std::collections::HashMap;
use std::fmt::Write;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::{Arc, Mutex, OnceLock};

const OUTCOMES: &[&str] = &["result as before", "first evaluation", "schedule with one preemption", "operand intact"];

/// An operation on the register: a digest of everything observable, and the next register.
struct Act<F> {
    name: String,
    run: Box<dyn Fn(F) -> (u128, i128) + Send + Sync>,
}

fn digest(x: impl Hash) -> u128 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish() as u128
}
fn out(o: Out) -> u128 {
    match o {
        Out::Val(v) => (v as u128).rotate_left(3) ^ 0x5555,
        Out::Overflow => 1,
        Out::DivZero => 2,
        Out::Domain => 3,
        Out::Other => 4,
    }
}

fn arithmetic<F: Fx>(rich: bool) -> Vec<Act<F>> {
    let mut ops = vec![];
    calc::checked::<F>(&mut ops);
    calc::rmul::<F>(&mut ops);
    calc::rdiv::<F>(&mut ops);
    calc::rdiv_int::<F>(&mut ops);
    calc::int_rdiv::<F>(&mut ops);
    calc::saturating::<F>(&mut ops);
    calc::sqrt::<F>(&mut ops);
    calc::whole::<F>(&mut ops);
    calc::half::<F>(&mut ops);
    calc::steps::<F>(&mut ops);
    calc::decimal::<F>(&mut ops);
    // one of every operation, with every operand in the rich version
    let mut last = String::new();
    ops.into_iter()
        .filter(|o| {
            let head: String = o.name.chars().take_while(|c| *c != '(').collect();
            let keep = rich || head != last || o.name.contains(&F::lo().to_string());
            last = head;
            keep
        })
        .map(|o| Act {
            name: o.name,
            run: Box::new(move |a: F| {
                let r = (o.real)(a);
                (out(r), if let Out::Val(v) = r { v } else { a.bits() })
            }),
        })
        .collect()
}

fn act<F: Fx>(v: &mut Vec<Act<F>>, name: impl Into<String>, f: impl Fn(F) -> (u128, Option<i128>) + Send + Sync + 'static) {
    v.push(Act {
        name: name.into(),
        run: Box::new(move |a: F| {
            let (d, n) = f(a);
            (d, n.unwrap_or(a.bits()))
        }),
    });
}

fn val(x: Option<i128>) -> (u128, Option<i128>) {
    (digest(x), x)
}

/// Text, conversions, comparison and constants.
fn others<F: Fx>(v: &mut Vec<Act<F>>) {
    act(v, "display", |a: F| {
        let mut b = Buf::new();
        let ok = write!(b, "{a}").is_ok();
        (digest((ok, b.bytes())), None)
    });
    act(v, "debug", |a: F| {
        let mut b = Buf::new();
        let ok = write!(b, "{a:?}").is_ok();
        (digest((ok, b.bytes())), None)
    });
    for s in ["1.5", "-0.25", "7", "x", "", "1e5", "99999999999999999999999999999999999999999999", "-0.55555555555555555555555555555555555555555"] {
        act(v, format!("parse {s:?}"), move |_| val(F::parse(s)));
        act(v, format!("parse_exact {s:?}"), move |_| val(F::parse_exact(s)));
    }
    act(v, "to f64", |a: F| {
        let f: f64 = a.into();
        (digest(f.to_bits()), None)
    });
    for f in [0.1, -1.5, 1e300, f64::NAN, 5e-324] {
        act(v, format!("from f64 {f:?}"), move |_| val(F::try_from(f).ok().map(|x: F| x.bits())));
    }
    act(v, "from i64 3", |_| val(F::try_from(3i64).ok().map(|x: F| x.bits())));
    act(v, "from u128 MAX", |_| val(F::try_from(u128::MAX).ok().map(|x: F| x.bits())));
    act(v, "compare with one", |a: F| (digest((a.cmp(&F::of(F::coef())), a == F::of(F::coef()))), None));
    act(v, "hash", |a: F| (digest(a), None));
    act(v, "constants", |_| (digest(F::consts()), None));
    act(v, "default", |_| (digest(F::default().bits()), None));
}

// ---- histories ----

/// The first observed digest of (operation, register), per type, shared by all workers.
type Memo = Arc<Vec<Mutex<HashMap<(u32, i128), u128>>>>;

fn check<F: Fx>(memo: &Memo, local: &mut HashMap<(u32, i128), u128>, acts: &[Act<F>], o: usize, a: i128, share: bool, cx: &mut Cx, path: impl Fn() -> String) -> i128 {
    let op = &acts[o];
    cx.at(|| format!("{} {} then {} on bits {a}", F::name(), path(), op.name));
    let x = F::of(a);
    let (d, next) = (op.run)(x);
    cx.judge(3, x.bits() == a, || format!("{} {} on bits {a}: operand", F::name(), op.name), || format!("became {}", x.bits()));
    let key = (o as u32, a);
    let first = match local.get(&key) {
        Some(&f) => Some(f),
        None => {
            let f = if share {
                let mut m = memo[(a as usize ^ (a >> 64) as usize ^ o) % memo.len()].lock().unwrap();
                match m.entry(key) {
                    std::collections::hash_map::Entry::Occupied(e) => Some(*e.get()),
                    std::collections::hash_map::Entry::Vacant(e) => {
                        e.insert(d);
                        None
                    }
                }
            } else {
                None
            };
            local.insert(key, f.unwrap_or(d));
            f
        }
    };
    cx.judge(
        first.is_none() as usize,
        first.is_none_or(|f| f == d),
        || format!("{} {} on bits {a}", F::name(), op.name),
        || format!("result differs from an earlier evaluation of the same operation; history here: {}", path()),
    );
    next
}

fn histories<F: Fx>(chk: &mut Check, rich: bool, depth: usize) {
    let mut acts = arithmetic::<F>(rich);
    others(&mut acts);
    let acts = Arc::new(acts);
    let starts = calc::starts::<F>();
    let n = acts.len() as u64;
    let memo: Memo = Arc::new((0..64).map(|_| Mutex::new(HashMap::new())).collect());
    chk.job(format!("histories {} depth {depth}", F::name()), n * starts.len() as u64, move |i, cx| {
        let (s, o) = (starts[(i / n) as usize], (i % n) as usize);
        let mut local = HashMap::new();
        let mut path = vec![o];
        let a = check(&memo, &mut local, &acts, o, s, true, cx, || format!("from {s}"));
        rec(&memo, &mut local, &acts, depth - 1, depth, a, s, &mut path, cx);
        // the first step once more, after all of it
        check(&memo, &mut local, &acts, o, s, true, cx, || "after everything".into());
        cx.sample(|| format!("{}: all sequences of {depth} of {n} operations from {s} that start with {}", F::name(), acts[o].name));
    });
}

#[allow(clippy::too_many_arguments)]
fn rec<F: Fx>(memo: &Memo, local: &mut HashMap<(u32, i128), u128>, acts: &[Act<F>], left: usize, depth: usize, a: i128, s: i128, path: &mut Vec<usize>, cx: &mut Cx) {
    cx.states += 1;
    if left == 0 {
        cx.traces += 1;
        return;
    }
    for o in 0..acts.len() {
        let share = depth - left < 2;
        let b = check(memo, local, acts, o, a, share, cx, || format!("from {s}: {}", path.iter().map(|&i| acts[i].name.as_str()).collect::<Vec<_>>().join(" ; ")));
        if cx.failed() {
            return;
        }
        path.push(o);
        rec(memo, local, acts, left - 1, depth, b, s, path, cx);
        path.pop();
    }
}

// ---- preemption ----

type Thunk = (String, Box<dyn Fn() -> u128 + Send + Sync>);

/// Closed operations: an operation with its register.
fn thunks<F: Fx>(thorough: bool) -> Vec<Thunk> {
    let mut v: Vec<Thunk> = vec![];
    let c = F::coef();
    let xs = [c * 2 + c / 3, -(F::hi() / 7)];
    for (i, &x) in xs.iter().enumerate() {
        if i > 0 && !thorough {
            break;
        }
        let y = F::hi() / 11;
        for m in MODES {
            if !thorough && m as usize != (F::P as usize) % 3 {
                continue;
            }
            v.push((format!("rmul({x}, {y}, {m:?})"), Box::new(move || out(F::of(x).rmul(F::of(y), m)))));
            v.push((format!("rdiv({x}, {y}, {m:?})"), Box::new(move || out(F::of(x).rdiv(F::of(y), m)))));
            v.push((format!("rsqrt({x}, {m:?})"), Box::new(move || out(F::of(x).rsqrt(m)))));
            v.push((format!("half_sum({x}, {y}, {m:?})"), Box::new(move || F::of(x).half_sum(F::of(y), m) as u128)));
            v.push((format!("integral({x}, {m:?})"), Box::new(move || F::of(x).integral(m) as u128)));
        }
        v.push((format!("cadd({x}, {y})"), Box::new(move || out(F::of(x).cadd(F::of(y))))));
        v.push((format!("csub({x}, {y})"), Box::new(move || out(F::of(x).csub(F::of(y))))));
        v.push((format!("cmul({x}, 3)"), Box::new(move || out(F::of(x).cmul_int(3)))));
        v.push((format!("saturating_rmul({x}, {y})"), Box::new(move || F::of(x).srmul(F::of(y), MODES[0]) as u128)));
        v.push((format!("next_power_of_ten({x})"), Box::new(move || out(F::of(x).npt()))));
        v.push((format!("round_towards_zero_by({x}, 7)"), Box::new(move || F::of(x).rtz_by(F::of(7)) as u128)));
        v.push((
            format!("display({x})"),
            Box::new(move || {
                let mut b = Buf::new();
                let _ = write!(b, "{}", F::of(x));
                let mut r = [0u8; 16];
                for (i, c) in b.bytes().iter().enumerate() {
                    r[i % 16] ^= c.rotate_left(i as u32 / 16);
                }
                u128::from_le_bytes(r)
            }),
        ));
        v.push((
            format!("to_decimal({x})"),
            Box::new(move || {
                let (m, e) = F::of(x).to_decimal(3);
                m as u128 ^ (e as u128) << 100
            }),
        ));
        v.push((format!("from_decimal({i}, -1)"), Box::new(move || F::from_decimal(15 + i as i128, 0).map_or(7, |x| x as u128))));
        v.push((format!("to_f64({x})"), Box::new(move || { let f: f64 = F::of(x).into(); f.to_bits() as u128 })));
    }
    for s in ["-1.5", "2.0625"] {
        v.push((format!("parse({s})"), Box::new(move || F::parse(s).map_or(1, |x| x as u128))));
        v.push((format!("parse_exact({s})"), Box::new(move || F::parse_exact(s).map_or(1, |x| x as u128))));
    }
    for f in [0.1, 12.75] {
        v.push((format!("from_f64({f})"), Box::new(move || F::try_from(f).map_or(1, |x: F| x.bits() as u128))));
    }
    v
}

fn preempt<F: Fx>(chk: &mut Check) {
    let ts = Arc::new(thunks::<F>(chk.thorough));
    let limit: u64 = if chk.thorough { 1500 } else { 500 };
    let n = ts.len() as u64;
    let base: Arc<OnceLock<Vec<u128>>> = Arc::new(OnceLock::new());
    const CHUNK: u64 = 100;
    let chunks = limit / CHUNK;
    let partners = if chk.thorough { 4 } else { 2 };
    chk.job(format!("preemption {}", F::name()), n * partners * chunks, move |i, cx| {
        let (a, k, chunk) = (i / chunks / partners, i / chunks % partners, i % chunks);
        // the operation itself, and rotating partners
        let b = if k == 0 { a } else { (a * 5 + k * 7 + 3) % n };
        let (a, b) = (a as usize, b as usize);
        thread_local! {
            static MATE: Arc<Mate> = Mate::new();
        }
        let base = base.get_or_init(|| ts.iter().map(|t| t.1()).collect());
        MATE.with(|mate| {
            let len = length(mate, &*ts[a].1);
            let mut j = chunk * CHUNK;
            let end = len.min(limit).min(j + CHUNK);
            mate.awake(j < end);
            while j < end {
                // a long operation: its first and its last instructions
                let at = if len > limit && j >= limit / 2 { len - limit + j } else { j };
                // A has run before (a warm cache of any kind), then A again with B inside
                ts[a].1();
                let o = schedule(mate, &*ts[a].1, &*ts[b].1, at);
                let after = (ts[b].1(), ts[a].1());
                cx.states += 1;
                cx.traces += 1;
                cx.judge(
                    2,
                    o.a == base[a] && o.b.is_none_or(|r| r == base[b]) && after == (base[b], base[a]),
                    || format!("{} {} preempted by {}", F::name(), ts[a].0, ts[b].0),
                    || {
                        format!(
                            "preempted after {at} instructions: results {:x} {:x?} then {:x} {:x}, alone {:x} {:x}",
                            o.a, o.b, after.1, after.0, base[a], base[b]
                        )
                    },
                );
                if o.late {
                    j += 20; // a lock is held here: each further point costs a timeout
                }
                j += 1;
            }
            mate.awake(false);
            cx.sample(|| format!("{}: {} ({len} instructions) preempted by {}", F::name(), ts[a].0, ts[b].0));
        });
    });
}

fn main() {
    let mut c = Check::new("C22", OUTCOMES);
    c.rule(
        "histories: all sequences of operations (about 80 of all kinds, including failing ones, printing, parsing and \
         conversions) up to the depth from every start value; the result of every step must equal the first observed result of \
         that operation on that operand, whatever came before and on whichever of the workers' threads it ran. Schedules: one \
         operation under the processor's trap flag, suspended after every single instruction in turn for a complete \
         operation on another thread; all results, and both operations repeated afterwards, must equal those alone.",
    );
    c.bound("histories: depth 2 with every operand over all types, depth 3 over six types (thorough: depth 3 over 107 types)");
    c.bound("schedules: one preemption, at each instruction (of operations longer than 500, thorough 1500, the first and the last half as many), four types; each operation against itself and one other (thorough: three others)");
    let t = c.thorough;
    if !t {
        for_all_types!(histories(&mut c, true, 2));
        for_narrow_types!(histories(&mut c, true, 2));
    } else {
        for_all_types!(histories(&mut c, false, 3));
        for_narrow_types!(histories(&mut c, false, 3));
    }
    use fixnum::{typenum::*, FixedPoint as N};
    histories::<N<i16, U2>>(&mut c, t, 3);
    histories::<N<i32, U4>>(&mut c, false, 3);
    histories::<N<i64, U9>>(&mut c, t, 3);
    histories::<N<i64, U0>>(&mut c, false, 3);
    histories::<N<i128, U18>>(&mut c, t, 3);
    histories::<N<i128, U38>>(&mut c, false, 3);
    preempt::<N<i16, U2>>(&mut c);
    preempt::<N<i32, U4>>(&mut c);
    preempt::<N<i64, U9>>(&mut c);
    preempt::<N<i128, U18>>(&mut c);
    c.run()
}
