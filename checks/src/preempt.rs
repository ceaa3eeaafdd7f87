//! A controlled scheduler at machine-instruction granularity, for code without synchronisation
//! points of its own: thread A executes one operation under the processor's trap flag; after
//! exactly `at` instructions it is suspended, another thread executes operation B completely, and
//! A goes on. Enumerating `at` enumerates every schedule of (A, B) with that one preemption.

use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex, Once};
use std::time::{Duration, Instant};

extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const SIGTRAP: i32 = 5;
const SA_SIGINFO: i32 = 4;
// position of the flags register in the machine context of a signal on x86-64 Linux
const EFLAGS: usize = 40 + 17 * 8;
const TF: u64 = 0x100;

struct Run {
    left: u64,
    steps: u64,
    fired: bool,
    late: bool,
    mate: *const Mate,
}
thread_local! {
    static RUN: Cell<*mut Run> = const { Cell::new(std::ptr::null_mut()) };
}

extern "C" fn on_trap(_: i32, _: usize, ctx: *mut u8) {
    let run = RUN.get();
    unsafe {
        let flags = ctx.add(EFLAGS) as *mut u64;
        if run.is_null() {
            *flags &= !TF;
            return;
        }
        let run = &mut *run;
        run.steps += 1;
        if run.left > 0 {
            run.left -= 1;
            return;
        }
        // the preemption point: let the other thread run, then continue at full speed
        run.fired = true;
        *flags &= !TF;
        run.late = !(*run.mate).run_now();
    }
}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let act = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
        assert_eq!(sigaction(SIGTRAP, &act, std::ptr::null_mut()), 0);
    });
}

type Job<'a> = &'a (dyn Fn() -> u128 + Sync);

const IDLE: u32 = 0;
const ASKED: u32 = 1;
const DONE: u32 = 2;

/// The other thread.
pub struct Mate {
    state: AtomicU32,
    job: [AtomicUsize; 2],
    result: Mutex<u128>,
    active: AtomicU32,
    thread: Mutex<Option<std::thread::Thread>>,
}

impl Mate {
    pub fn new() -> Arc<Mate> {
        install();
        let m = Arc::new(Mate {
            state: AtomicU32::new(IDLE),
            job: [AtomicUsize::new(0), AtomicUsize::new(0)],
            result: Mutex::new(0),
            active: AtomicU32::new(0),
            thread: Mutex::new(None),
        });
        let me = m.clone();
        let t = std::thread::spawn(move || loop {
            if me.active.load(Acquire) == 0 {
                std::thread::park();
                continue;
            }
            if me.state.load(Acquire) == ASKED {
                let j: Job = unsafe { std::mem::transmute([me.job[0].load(Relaxed), me.job[1].load(Relaxed)]) };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)).unwrap_or(PANICKED);
                *me.result.lock().unwrap() = r;
                me.state.store(DONE, Release);
            } else {
                std::thread::yield_now();
            }
        });
        *m.thread.lock().unwrap() = Some(t.thread().clone());
        m
    }

    /// From the trap handler. False if the other thread did not finish in time (it waits for
    /// something the suspended operation holds), in which case both go on.
    fn run_now(&self) -> bool {
        self.state.store(ASKED, Release);
        let t = Instant::now();
        let mut n = 0u32;
        while self.state.load(Acquire) != DONE {
            n += 1;
            if n % 64 == 0 {
                std::thread::yield_now();
                if t.elapsed() > Duration::from_millis(50) {
                    return false;
                }
            }
            std::hint::spin_loop();
        }
        true
    }

    /// The other thread polls while this is on.
    pub fn awake(&self, on: bool) {
        self.active.store(on as u32, Release);
        self.thread.lock().unwrap().as_ref().unwrap().unpark();
    }
}

/// The digest of an operation that panicked.
pub const PANICKED: u128 = 0xDEAD_0000_0000_0000_0000_0000_0000_DEAD;

pub struct Outcome {
    pub a: u128,
    /// None if A ended before the preemption point
    pub b: Option<u128>,
    pub steps: u64,
    pub late: bool,
}

#[inline(never)]
fn traced(a: Job) -> u128 {
    unsafe {
        asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        let r = a();
        asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
        r
    }
}

/// Runs `a`, suspended after `at` instructions for `b` on the other thread.
pub fn schedule(mate: &Mate, a: Job, b: Job, at: u64) -> Outcome {
    let raw: [usize; 2] = unsafe { std::mem::transmute(b) };
    mate.job[0].store(raw[0], Relaxed);
    mate.job[1].store(raw[1], Relaxed);
    let mut run = Run { left: at, steps: 0, fired: false, late: false, mate };
    RUN.set(&mut run);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| traced(a)));
    unsafe { asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq") };
    RUN.set(std::ptr::null_mut());
    let b = if run.fired {
        while mate.state.load(Acquire) != DONE {
            std::thread::yield_now();
        }
        mate.state.store(IDLE, Release);
        Some(*mate.result.lock().unwrap())
    } else {
        None
    };
    Outcome { a: r.unwrap_or(PANICKED), b, steps: run.steps, late: run.late }
}

/// The number of instructions of `a`.
pub fn length(mate: &Mate, a: Job) -> u64 {
    schedule(mate, a, &|| 0, u64::MAX).steps
}
