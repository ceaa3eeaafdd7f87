//! C27: results do not depend on the target. The same program is executed as compiled for
//! targets of other word size and byte order, and every result is compared with the host's.
use checks::interp::{add, prepare, Way};
use mc::Check;

const OUTCOMES: &[&str] = &["as on the host", "not interpretable"];

fn main() {
    let mut c = Check::new("C27", OUTCOMES);
    let thorough = c.thorough;
    let tier = if thorough { "thorough" } else { "brief" };
    c.rule(
        "states are calls through the interface of the real crate (as in C26), compiled for a 32-bit and for a big-endian target and executed by the \
         interpreter of the compiler's intermediate code; every result (value, error, text, bytes) is compared with the program compiled for and run on the host.",
    );
    let targets: &[&'static str] = if thorough {
        &["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "aarch64-unknown-linux-gnu"]
    } else {
        &["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"]
    };
    let ways: Vec<Way> = targets.iter().map(|t| Way { target: t, debug: false, seed: 0 }).collect();
    // the deep alphabets are the business of C26
    let jobs: Vec<_> = prepare(tier, &ways).into_iter().filter(|j| !j.0.starts_with("threads") && !j.0.starts_with("prints")).collect();
    c.bound(format!("{} items in {} jobs, 16 types in 2 feature sets; targets {}", jobs.iter().map(|j| j.1).sum::<u64>(), jobs.len(), targets.join(", ")));
    c.assume("Trusts Miri to execute code for the other targets as they would.");
    for w in &ways {
        add(&mut c, &jobs, tier, w);
    }
    c.run()
}
