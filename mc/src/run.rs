//! The exhaustive runner: executes every item of every job, on all cores, and turns whatever goes
//! wrong in the code under test (wrong answer, panic, abort, memory fault, non-termination) into a
//! replayable violation. It never samples: a run that reports "held" has executed every item.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const OUTCOMES: usize = 24;
const MAX_FAILS: u64 = 40;

/// Per-worker context handed to every item.
pub struct Cx {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    outcomes: [u64; OUTCOMES],
    samples: Vec<String>,
    want_sample: bool,
    verbose: bool,
    last: String,
    fails: Vec<Fail>,
    nfails: u64,
}

#[derive(Clone)]
struct Fail {
    case: String,
    detail: String,
    job: usize,
    item: u64,
}

impl Cx {
    fn new() -> Cx {
        Cx {
            states: 0,
            transitions: 0,
            traces: 0,
            outcomes: [0; OUTCOMES],
            samples: vec![],
            want_sample: false,
            verbose: false,
            last: String::new(),
            fails: vec![],
            nfails: 0,
        }
    }

    /// Announces the case about to be executed; formatted only when a crash is being pinpointed.
    #[inline(always)]
    pub fn at(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.last = f();
        }
    }

    /// Counts one executed transition with the given outcome class.
    #[inline(always)]
    pub fn step(&mut self, outcome: usize) {
        self.transitions += 1;
        self.outcomes[outcome] += 1;
    }

    /// Counts one executed transition and records a failure unless `ok`.
    #[inline(always)]
    pub fn judge(&mut self, class: usize, ok: bool, case: impl FnOnce() -> String, detail: impl FnOnce() -> String) {
        self.step(class);
        if !ok {
            self.fail(case(), detail());
        }
    }

    /// A case of this run written out, for the evidence (a few per job are kept).
    #[inline(always)]
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            self.samples.push(f());
        }
    }

    #[cold]
    #[inline(never)]
    pub fn fail(&mut self, case: String, detail: String) {
        self.nfails += 1;
        if self.fails.len() < MAX_FAILS as usize {
            self.fails.push(Fail { case, detail, job: 0, item: 0 });
        }
    }

    pub fn failed(&self) -> bool {
        self.nfails > 0
    }
}

type Body = Box<dyn Fn(u64, &mut Cx) + Send + Sync>;

struct Job {
    name: String,
    items: u64,
    body: Body,
}

pub struct Check {
    prop: &'static str,
    outcome_names: &'static [&'static str],
    jobs: Vec<Job>,
    rule: String,
    bounds: Vec<String>,
    assumptions: Vec<String>,
    extra: Vec<(String, String)>,
    pub thorough: bool,
    started: Instant,
    opts: Opts,
}

#[derive(Default)]
struct Opts {
    child: bool,
    trace: Option<PathBuf>,
    only: Option<(String, u64)>,
    evidence: Option<PathBuf>,
    replay: Option<PathBuf>,
    verif: PathBuf,
    seed: u64,
    workers: usize,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

struct Slot {
    started_ms: AtomicU64, // 0 = idle
    job: AtomicUsize,
    item: AtomicU64,
}

impl Check {
    pub fn new(prop: &'static str, outcome_names: &'static [&'static str]) -> Check {
        assert!(outcome_names.len() <= OUTCOMES);
        let mut o = Opts {
            verif: PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            workers: std::thread::available_parallelism().map_or(8, |n| n.get()),
            ..Opts::default()
        };
        let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let mut args = std::env::args().skip(1);
        while let Some(a) = args.next() {
            let mut val = || args.next().unwrap_or_else(|| usage());
            match a.as_str() {
                "--tier" => tier = val(),
                "--child" => o.child = true,
                "--trace" => o.trace = Some(val().into()),
                "--only" => {
                    let v = val();
                    let (j, i) = v.rsplit_once('#').unwrap_or_else(|| usage());
                    o.only = Some((j.to_string(), i.parse().unwrap_or_else(|_| usage())));
                }
                "--evidence" => o.evidence = Some(val().into()),
                "--replay" => o.replay = Some(val().into()),
                _ => usage(),
            }
        }
        if let Some(r) = &o.replay {
            let text = std::fs::read_to_string(r).unwrap_or_else(|e| die(&format!("{}: {e}", r.display())));
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
            tier = get("tier:").unwrap_or(tier);
            let job = get("job:").unwrap_or_else(|| die("replay file has no job"));
            let item = get("item:").and_then(|s| s.parse().ok()).unwrap_or_else(|| die("replay file has no item"));
            o.only = Some((job, item));
        }
        Check {
            prop,
            outcome_names,
            jobs: vec![],
            rule: String::new(),
            bounds: vec![],
            assumptions: vec![],
            extra: vec![],
            thorough: tier == "thorough",
            started: Instant::now(),
            opts: o,
        }
    }

    pub fn rule(&mut self, s: &str) {
        self.rule = s.into();
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    /// An additional field of the coverage record; `json` must be valid JSON.
    pub fn extra(&mut self, key: &str, json: String) {
        self.extra.push((key.into(), json));
    }

    /// Adds a job. Items must be independent, deterministic and small (well below a second each).
    pub fn job(&mut self, name: impl Into<String>, items: u64, body: impl Fn(u64, &mut Cx) + Send + Sync + 'static) {
        self.jobs.push(Job { name: name.into(), items, body: Box::new(body) });
    }

    pub fn run(self) -> ! {
        if self.opts.child || self.opts.only.is_some() && self.opts.replay.is_none() {
            self.run_child()
        } else {
            self.run_parent()
        }
    }

    // ---- parent: owns the verdict even if the code under test brings its process down ----

    fn spawn(&self, extra: &[String]) -> std::process::ExitStatus {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("--child").arg("--tier").arg(self.tier()).args(extra);
        if let Some(e) = &self.opts.evidence {
            c.arg("--evidence").arg(e);
        }
        c.env("VERIF_DIR", &self.opts.verif);
        std::io::stdout().flush().unwrap();
        c.status().unwrap_or_else(|e| die(&format!("cannot start worker process: {e}")))
    }

    fn tier(&self) -> &'static str {
        if self.thorough {
            "thorough"
        } else {
            "quick"
        }
    }

    fn run_parent(self) -> ! {
        let only: Vec<String> = match &self.opts.only {
            Some((j, i)) => vec!["--only".into(), format!("{j}#{i}")],
            None => vec![],
        };
        let st = self.spawn(&only);
        if let Some(code) = st.code() {
            exit(if code == 0 || code == 1 { code } else { 2 });
        }
        let sig = st.signal().unwrap_or(0);
        if ![4, 5, 6, 7, 8, 11].contains(&sig) {
            die(&format!("worker process ended by signal {sig}"));
        }
        // The code under test aborted or faulted. Find the item.
        if let Some((j, i)) = &self.opts.only {
            self.crash_verdict(j, *i, sig);
        }
        eprintln!("{}: worker process ended by signal {sig}; looking for the case", self.prop);
        let dir = std::env::temp_dir().join(format!("mc-trace-{}-{}", self.prop, std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let _ = self.spawn(&["--trace".into(), dir.display().to_string()]);
        let mut cands: Vec<(usize, u64)> = vec![];
        for f in std::fs::read_dir(&dir).unwrap().flatten() {
            let b = std::fs::read(f.path()).unwrap_or_default();
            if b.len() == 16 {
                let j = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
                let i = u64::from_le_bytes(b[8..].try_into().unwrap());
                cands.push((j, i));
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        cands.sort();
        for (j, i) in cands {
            if j >= self.jobs.len() {
                continue;
            }
            let name = self.jobs[j].name.clone();
            let st = self.spawn(&["--only".into(), format!("{name}#{i}")]);
            if let Some(s) = st.signal() {
                if [4, 5, 6, 7, 8, 11].contains(&s) {
                    self.crash_verdict(&name, i, s);
                }
            }
        }
        die(&format!("worker process ended by signal {sig}, and no single case reproduces it"));
    }

    fn crash_verdict(&self, job: &str, item: u64, sig: i32) -> ! {
        let case = format!("{job} item {item}");
        let detail = format!("the process was ended by signal {sig} (memory fault or abort) while executing this item");
        let j = self.jobs.iter().position(|x| x.name == job).unwrap_or(0);
        let code = self.report(&[Fail { case, detail, job: j, item }], 1, &Cx::new(), false, vec![]);
        exit(code);
    }

    // ---- child: executes ----

    fn run_child(self) -> ! {
        std::panic::set_hook(Box::new(|info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        }));
        if let Some((name, item)) = self.opts.only.clone() {
            let j = self
                .jobs
                .iter()
                .position(|j| j.name == name)
                .unwrap_or_else(|| die(&format!("no job named {name:?} in this tier")));
            let me = Arc::new(self);
            let slots = Arc::new(vec![Slot { started_ms: AtomicU64::new(0), job: j.into(), item: item.into() }]);
            watchdog(me.clone(), slots.clone());
            slots[0].started_ms.store(now_ms(&me).max(1), Relaxed);
            let mut cx = Cx::new();
            cx.want_sample = true;
            me.item(j, item, &mut cx);
            slots[0].started_ms.store(0, Relaxed);
            println!("replayed {name} item {item}: {} transitions, {} violations", cx.transitions, cx.nfails);
            exit(me.report(&cx.fails, cx.nfails, &cx, true, vec![]));
        }
        let me = Arc::new(self);
        let n = me.opts.workers;
        // chunks of items, in job order
        let mut chunks: Vec<(usize, u64, u64)> = vec![];
        for (j, job) in me.jobs.iter().enumerate() {
            let size = (job.items / (4 * n as u64)).clamp(1, 4096);
            let mut i = 0;
            while i < job.items {
                let e = (i + size).min(job.items);
                chunks.push((j, i, e));
                i = e;
            }
        }
        let chunks = Arc::new(chunks);
        let next = Arc::new(AtomicUsize::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let slots: Arc<Vec<Slot>> = Arc::new(
            (0..n)
                .map(|_| Slot { started_ms: AtomicU64::new(0), job: 0.into(), item: 0.into() })
                .collect(),
        );
        watchdog(me.clone(), slots.clone());
        let job_ms: Arc<Vec<AtomicU64>> = Arc::new(me.jobs.iter().map(|_| AtomicU64::new(0)).collect());
        let results: Arc<Mutex<Vec<Cx>>> = Arc::default();
        let mut handles = vec![];
        for w in 0..n {
            let (me, chunks, next, stop, slots, results, job_ms) =
                (me.clone(), chunks.clone(), next.clone(), stop.clone(), slots.clone(), results.clone(), job_ms.clone());
            let b = std::thread::Builder::new().stack_size(16 << 20);
            handles.push(
                b.spawn(move || {
                    let trace = me.opts.trace.as_ref().map(|d| {
                        std::fs::File::create(d.join(format!("w{w}"))).unwrap_or_else(|e| die(&format!("trace file: {e}")))
                    });
                    let mut cx = Cx::new();
                    while !stop.load(Relaxed) {
                        let c = next.fetch_add(1, Relaxed);
                        let Some(&(j, a, b)) = chunks.get(c) else { break };
                        let t0 = Instant::now();
                        for i in a..b {
                            let s = &slots[w];
                            s.job.store(j, Relaxed);
                            s.item.store(i, Relaxed);
                            s.started_ms.store(now_ms(&me).max(1), Relaxed);
                            if let Some(f) = &trace {
                                let mut buf = [0u8; 16];
                                buf[..8].copy_from_slice(&(j as u64).to_le_bytes());
                                buf[8..].copy_from_slice(&i.to_le_bytes());
                                let _ = f.write_all_at(&buf, 0);
                            }
                            cx.want_sample = i == me.jobs[j].items / 2;
                            me.item(j, i, &mut cx);
                            s.started_ms.store(0, Relaxed);
                            if cx.nfails > MAX_FAILS {
                                stop.store(true, Relaxed);
                                break;
                            }
                        }
                        job_ms[j].fetch_add(t0.elapsed().as_millis() as u64, Relaxed);
                    }
                    results.lock().unwrap().push(cx);
                })
                .unwrap(),
            );
        }
        for h in handles {
            if h.join().is_err() {
                die("a worker thread of the harness panicked");
            }
        }
        let mut total = Cx::new();
        let mut fails = vec![];
        for cx in results.lock().unwrap().iter() {
            total.states += cx.states;
            total.transitions += cx.transitions;
            total.traces += cx.traces;
            total.nfails += cx.nfails;
            for k in 0..OUTCOMES {
                total.outcomes[k] += cx.outcomes[k];
            }
            total.samples.extend(cx.samples.iter().cloned());
            fails.extend(cx.fails.iter().cloned());
        }
        total.samples.sort();
        // simplest first: job order, then item order
        fails.sort_by(|a, b| (a.job, a.item).cmp(&(b.job, b.item)));
        if std::env::var_os("MC_TIMES").is_some() {
            for (j, job) in me.jobs.iter().enumerate() {
                eprintln!("{:>8} ms  {} ({} items)", job_ms[j].load(Relaxed), job.name, job.items);
            }
        }
        let done = next.load(Relaxed) >= chunks.len() && !stop.load(Relaxed);
        let times: Vec<u64> = job_ms.iter().map(|x| x.load(Relaxed)).collect();
        exit(me.report(&fails, total.nfails, &total, done, times));
    }

    /// Runs one item; a panic raised by the code under test becomes a failure of that item.
    fn item(&self, j: usize, i: u64, cx: &mut Cx) {
        let before = cx.fails.len();
        let job = &self.jobs[j];
        if catch_unwind(AssertUnwindSafe(|| (job.body)(i, cx))).is_err() {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness(&loc) {
                die(&format!("harness panic in {} item {i}: {msg} at {loc}", job.name));
            }
            // again, this time writing down each case
            let mut cx2 = Cx::new();
            cx2.verbose = true;
            let again = catch_unwind(AssertUnwindSafe(|| (job.body)(i, &mut cx2))).is_err();
            let case = if again { cx2.last } else { format!("{} item {i} (only after earlier items)", job.name) };
            cx.fail(case, format!("panicked: {msg} at {loc}"));
        }
        for f in &mut cx.fails[before..] {
            f.job = j;
            f.item = i;
        }
    }

    fn known(&self) -> Vec<String> {
        let path = self.opts.verif.join("KNOWN_FINDINGS.txt");
        let prefix = format!("known: property={} case=", self.prop);
        std::fs::read_to_string(path)
            .unwrap_or_default()
            .lines()
            .filter_map(|l| l.strip_prefix(&prefix).map(|s| s.trim().to_string()))
            .collect()
    }

    fn report(&self, fails: &[Fail], nfails: u64, total: &Cx, complete: bool, times: Vec<u64>) -> i32 {
        let known = self.known();
        for k in &known {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        let new: Vec<&Fail> = fails.iter().filter(|f| !known.contains(&f.case)).collect();
        let dir = self.opts.verif.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        for (n, f) in new.iter().take(std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5)).enumerate() {
            let path = dir.join(format!("{}-{}.txt", self.prop, n));
            let body = format!(
                "property: {}\ntier: {}\njob: {}\nitem: {}\ncase: {}\ndetail: {}\nreplay with: /verif/check.sh {} --replay {}\n",
                self.prop, self.tier(), self.jobs[f.job].name, f.item, f.case, f.detail, self.prop, path.display()
            );
            if self.opts.only.is_none() || self.opts.replay.is_none() {
                let _ = std::fs::write(&path, body);
            }
            println!("  {}: {}", f.case, f.detail);
            println!("VIOLATION property={} replay={}", self.prop, path.display());
        }
        let violations = if new.is_empty() { 0 } else { nfails.max(new.len() as u64) };
        if self.opts.only.is_none() {
            self.evidence(total, complete, violations, times);
            println!(
                "{} {}: {} jobs, {} states, {} transitions, {} traces, {} violations, {:.1} s",
                self.prop,
                self.tier(),
                self.jobs.len(),
                total.states,
                total.transitions,
                total.traces,
                violations,
                self.started.elapsed().as_secs_f64()
            );
        }
        i32::from(!new.is_empty())
    }

    fn evidence(&self, t: &Cx, complete: bool, violations: u64, times: Vec<u64>) {
        let path = self.opts.evidence.clone().unwrap_or_else(|| self.opts.verif.join(format!("evidence/{}.json", self.prop)));
        let mut groups: BTreeMap<String, (u64, u64, u64)> = BTreeMap::new();
        for (j, job) in self.jobs.iter().enumerate() {
            let g = job.name.split(' ').next().unwrap_or("").to_string();
            let e = groups.entry(g).or_default();
            e.0 += 1;
            e.1 += job.items;
            e.2 += times.get(j).copied().unwrap_or(0);
        }
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
            js(self.prop),
            js(self.tier()),
            self.opts.seed
        );
        let _ = write!(
            s,
            "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n",
            t.states, t.transitions, t.traces, complete, js(&self.rule)
        );
        let _ = write!(s, "  \"bounds\": [{}],\n", self.bounds.iter().map(|b| js(b)).collect::<Vec<_>>().join(", "));
        let oc: Vec<String> = self
            .outcome_names
            .iter()
            .enumerate()
            .map(|(i, n)| format!("{}: {}", js(n), t.outcomes[i]))
            .collect();
        let _ = write!(s, "  \"outcomes\": {{{}}},\n", oc.join(", "));
        let gs: Vec<String> = groups
            .iter()
            .map(|(n, (c, i, ms))| format!("{}: {{\"jobs\": {c}, \"items\": {i}, \"cpu_ms\": {ms}}}", js(n)))
            .collect();
        let _ = write!(s, "  \"jobs\": {{{}}},\n", gs.join(", "));
        for (k, v) in &self.extra {
            let _ = write!(s, "  {}: {},\n", js(k), v);
        }
        // spread the kept samples over the jobs
        let n = t.samples.len();
        let pick: Vec<String> = (0..n.min(16)).map(|k| js(&t.samples[k * n / n.min(16)])).collect();
        let _ = write!(s, "  \"samples\": [{}]\n }},\n", pick.join(", "));
        let _ = write!(
            s,
            " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            self.assumptions.iter().map(|b| js(b)).collect::<Vec<_>>().join(", "),
            self.started.elapsed().as_secs_f64(),
            violations
        );
        if let Some(d) = path.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&path, s).unwrap_or_else(|e| die(&format!("cannot write {}: {e}", path.display())));
    }
}

fn now_ms(c: &Check) -> u64 {
    c.started.elapsed().as_millis() as u64
}

/// Longest time one item may take. Items take milliseconds, so a hang is what this detects.
const HANG_MS: u64 = 90_000;

fn watchdog(me: Arc<Check>, slots: Arc<Vec<Slot>>) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = now_ms(&me);
        for s in slots.iter() {
            let t = s.started_ms.load(Relaxed);
            if t != 0 && now > t + HANG_MS {
                let (j, item) = (s.job.load(Relaxed), s.item.load(Relaxed));
                if s.started_ms.load(Relaxed) != t {
                    continue;
                }
                let case = format!("{} item {item}", me.jobs[j].name);
                let detail = format!("did not terminate within {} s", HANG_MS / 1000);
                let code = me.report(&[Fail { case, detail, job: j, item }], 1, &Cx::new(), false, vec![]);
                exit(code);
            }
        }
    });
}

/// Panics located in the harness itself are errors of the check, not verdicts.
fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/") || Path::new(loc).starts_with(env!("CARGO_MANIFEST_DIR"))
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn usage() -> ! {
    eprintln!("usage: [--tier quick|thorough] [--evidence FILE] [--replay FILE]");
    exit(2)
}

pub fn die(msg: &str) -> ! {
    eprintln!("error of the check: {msg}");
    exit(2)
}
