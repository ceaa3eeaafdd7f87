//! C23: order, equality, hash, default and constants.
use checks::{cols, for_all_types, for_i16_types, for_ints, for_narrow_types, Fx, PlainInt};
use mc::lattice::{core, full};
use mc::model::{max_of, min_of};
use mc::{Check, Cx};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

const OUTCOMES: &[&str] = &["less", "equal", "greater", "constant", "collection"];

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

#[inline(always)]
fn state<F: Fx>(a: i128, b: i128, cx: &mut Cx) {
    let (x, y) = (F::of(a), F::of(b));
    cx.states += 1;
    let want = a.cmp(&b); // both numbers have the same scale
    let class = match want {
        Ordering::Less => 0,
        Ordering::Equal => 1,
        Ordering::Greater => 2,
    };
    let got = (x.cmp(&y), x.partial_cmp(&y), x == y, x != y, x < y, x <= y, x > y, x >= y);
    let exp = (want, Some(want), a == b, a != b, a < b, a <= b, a > b, a >= b);
    cx.judge(class, got == exp, || format!("{} compare {a} {b}", F::name()), || format!("got {got:?}, model says {exp:?}"));
    let (l, h) = (a.min(b), a.max(b));
    let z = -(a / 2) + b / 3; // below, between and above
    let got = (x.max(y).bits(), x.min(y).bits(), F::of(z).clamp(F::of(l), F::of(h)).bits());
    let exp = (h, l, z.clamp(l, h));
    cx.judge(class, got == exp, || format!("{} max/min/clamp {a} {b}", F::name()), || format!("got {got:?}, model says {exp:?}"));
}

fn pairs<F: Fx>(chk: &mut Check) {
    let rows = full(F::BITS, F::P);
    let cols = cols::<F>(chk.thorough);
    chk.job(format!("pairs {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        for b in cols.iter().copied().chain([a, a.saturating_add(1).min(F::hi())]) {
            state::<F>(a, b, cx);
            state::<F>(b, a, cx);
        }
        // equal values made in different ways hash alike
        let (x, y) = (F::of(a), F::of(a));
        cx.judge(1, hash(&x) == hash(&y), || format!("{} hash {a}", F::name()), || "hash differs between equal values".into());
        cx.sample(|| format!("{}: {a} compared with {} others", F::name(), cols.len()));
    });
}

fn all16<F: Fx>(chk: &mut Check) {
    let cols: Arc<Vec<i128>> = Arc::new(if chk.thorough { (F::lo()..=F::hi()).collect() } else { core(16, F::P) });
    chk.job(format!("all16 {}", F::name()), 8192, move |i, cx| {
        for k in 0..8 {
            for &b in cols.iter() {
                state::<F>(F::lo() + (i * 8 + k) as i128, b, cx);
            }
        }
    });
}

/// Numbers reached by arithmetic and by conversions are the same keys as those made from bits.
fn collections<F: Fx>(chk: &mut Check) {
    chk.job(format!("collections {}", F::name()), 1, |_, cx| {
        let vals = full(F::BITS, F::P);
        let mut map: HashMap<F, i128> = HashMap::new();
        let mut tree: BTreeSet<F> = BTreeSet::new();
        for (n, &a) in vals.iter().enumerate() {
            map.insert(F::of(a), a);
            tree.insert(F::of(vals[(n * 7919) % vals.len()]));
            tree.insert(F::of(a));
        }
        cx.states += 2 * vals.len() as u64;
        cx.traces += 2;
        let sizes = (map.len(), tree.len());
        cx.judge(4, sizes == (vals.len(), vals.len()), || format!("{} collection sizes", F::name()), || format!("got {sizes:?}, model says {}", vals.len()));
        let order: Vec<i128> = tree.iter().map(|x| x.bits()).collect();
        cx.judge(4, order == vals, || format!("{} tree order", F::name()), || "the tree does not iterate in numeric order".into());
        let mut rev: Vec<F> = vals.iter().rev().map(|a| F::of(*a)).collect();
        rev.sort();
        let order: Vec<i128> = rev.iter().map(|x| x.bits()).collect();
        cx.judge(4, order == vals, || format!("{} sort order", F::name()), || "sorting does not give numeric order".into());
        for &a in &vals {
            let other: Option<F> = match F::of(a).cneg() {
                mc::Out::Val(n) => match F::of(n).cneg() {
                    mc::Out::Val(x) => Some(F::of(x)),
                    _ => None,
                },
                _ => Some(F::of(a)),
            };
            let Some(k) = other else { continue };
            let got = map.get(&k).copied();
            cx.judge(4, got == Some(a), || format!("{} lookup {a}", F::name()), || format!("got {got:?}"));
            let (b1, b2) = k.bits2();
            cx.judge(4, (b1, b2) == (a, a), || format!("{} bits {a}", F::name()), || format!("got {b1} and {b2}"));
        }
    });
}

fn constants<F: Fx>(chk: &mut Check) {
    chk.job(format!("constants {}", F::name()), 1, |_, cx| {
        cx.states += 1;
        cx.traces += 1;
        let got = F::consts();
        let want = [F::P as i128, 0, F::coef(), F::lo(), F::hi(), 1];
        for (k, n) in ["PRECISION", "ZERO", "ONE", "MIN", "MAX", "EPSILON"].iter().enumerate() {
            cx.judge(3, got[k] == want[k], || format!("{} {n}", F::name()), || format!("got {}, model says {}", got[k], want[k]));
        }
        let d = F::default().bits();
        cx.judge(3, d == 0, || format!("{} default", F::name()), || format!("got {d}"));
        let size = (std::mem::size_of::<F>(), std::mem::align_of::<F>());
        let want = (std::mem::size_of::<F::Int>(), std::mem::align_of::<F::Int>());
        cx.judge(3, size == want, || format!("{} layout", F::name()), || format!("got {size:?}, model says {want:?}"));
    });
}

fn ints<I: PlainInt>(chk: &mut Check) {
    chk.job(format!("int-constants {}", I::NAME), 1, |_, cx: &mut Cx| {
        cx.states += 1;
        let got = I::consts();
        let want = [0, 1, min_of(I::BITS), max_of(I::BITS)];
        cx.judge(3, got == want, || format!("{} constants", I::NAME), || format!("got {got:?}, model says {want:?}"));
    });
}

fn main() {
    let mut c = Check::new("C23", OUTCOMES);
    c.rule(
        "states are value pairs and the constants of each type; transitions are every comparison, max/min, hashing, and use as \
         keys of ordered and hashed collections, on the real crate, compared with the numeric order. 73 types of the \
         full build (34 of a build without i128 for the constants), 5 integer types.",
    );
    c.bound("i16: every left value (thorough: every pair); wider: boundary alphabets");
    for_all_types!(constants(&mut c));
    for_narrow_types!(constants(&mut c));
    for_ints!(ints(&mut c));
    for_all_types!(collections(&mut c));
    for_all_types!(pairs(&mut c));
    for_i16_types!(all16(&mut c));
    c.run()
}
