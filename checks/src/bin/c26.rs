//! C26: safe use has no undefined behaviour. Every step of every execution is checked by the
//! interpreter: bounds, alignment, initialisation, aliasing, validity of values, data races.
use checks::interp::{add, prepare, Way, HOST};
use mc::Check;

const OUTCOMES: &[&str] = &["defined, and the compiled program agrees", "not interpretable"];

fn main() {
    let mut c = Check::new("C26", OUTCOMES);
    let thorough = c.thorough;
    let tier = if thorough { "thorough" } else { "quick" };
    c.rule(
        "states are calls through the safe interface of the real crate (numbers x everything unary, printing, parsing and serialisation; pairs x \
         everything binary; texts; byte strings; floats; pairs of operations on two threads). Every machine step of each is executed by an interpreter \
         of the compiler's intermediate code that detects undefined behaviour and data races, and each result is compared with the compiled program's.",
    );
    let release = Way { target: HOST, debug: false, seed: 0 };
    let debug = Way { target: HOST, debug: true, seed: 0 };
    let jobs = prepare(tier, &[release.clone(), debug.clone()][..1 + thorough as usize]);
    c.bound(format!("{} items in {} jobs, 16 types in 2 feature sets, release profile{}", jobs.iter().map(|j| j.1).sum::<u64>(), jobs.len(), if thorough { " and debug profile" } else { "" }));
    c.assume("Trusts Miri's model of Rust (stacked borrows). Items it cannot interpret are counted as such.");
    add(&mut c, &jobs, tier, &release);
    if thorough {
        let some: Vec<_> = jobs.iter().filter(|j| !j.0.starts_with("prints")).cloned().collect();
        add(&mut c, &some, tier, &debug);
        let threads: Vec<_> = jobs.iter().filter(|j| j.0.starts_with("threads")).cloned().collect();
        for seed in 1..5 {
            add(&mut c, &threads, tier, &Way { seed, ..release.clone() });
        }
    }
    c.run()
}
