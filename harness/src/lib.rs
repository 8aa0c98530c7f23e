//! Shared machinery of the model-checking harness.
//!
//! * `explore`: stateless exhaustive search. A case is a closure that asks the `Ctx` for choices;
//!   the explorer runs it once for every possible sequence of answers (depth first, work shared
//!   between threads) - nothing is sampled.
//! * `Report`: collects what was covered, writes the evidence file, prints VIOLATION lines and
//!   replay files.
#![feature(internal_output_capture)]
pub mod conc;
pub mod gen;
pub mod oracle;
pub mod report;
pub mod sched;
pub mod td;
pub mod sut;

pub use report::*;

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

/// What a case uses to ask for choices and to account for what it did.
pub struct Ctx {
    path: Vec<u32>,
    sizes: Vec<u32>,
    pos: usize,
    /// human readable description of the current case; printed in replay files
    pub trace: Vec<String>,
    tracing: bool,
    pub stats: Stats,
    pub known: Vec<(String, String, Vec<u32>)>,
    beat: Option<(std::sync::Arc<Beat>, Instant)>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: u64,
    pub choice_points: u64,
    pub states: u64,
    pub transitions: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub outcomes: HashMap<u64, u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.executions += o.executions;
        self.choice_points += o.choice_points;
        self.states += o.states;
        self.transitions += o.transitions;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
    }
}

impl Ctx {
    fn new() -> Self {
        Ctx {
            path: Vec::new(),
            sizes: Vec::new(),
            pos: 0,
            trace: Vec::new(),
            tracing: false,
            stats: Stats::default(),
            known: Vec::new(),
            beat: None,
        }
    }

    /// choose one of `0..n`; every value is explored.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "harness error: empty choice");
        let r;
        if self.pos < self.path.len() {
            r = self.path[self.pos] as usize;
            if self.pos < self.sizes.len() {
                debug_assert_eq!(self.sizes[self.pos] as usize, n, "harness error: nondeterministic case");
            } else {
                self.sizes.push(n as u32);
            }
        } else {
            r = 0;
            self.path.push(0);
            self.sizes.push(n as u32);
            self.stats.choice_points += 1;
        }
        self.pos += 1;
        r
    }

    pub fn pick_from<T: Clone>(&mut self, items: &[T]) -> T {
        let i = self.pick(items.len());
        items[i].clone()
    }

    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }

    /// all permutations of 0..n
    pub fn permutation(&mut self, n: usize) -> Vec<u32> {
        let mut rest: Vec<u32> = (0..n as u32).collect();
        let mut res = Vec::with_capacity(n);
        while rest.len() > 1 {
            let i = self.pick(rest.len());
            res.push(rest.remove(i));
        }
        res.extend(rest);
        res
    }

    /// one more operation of the real code was compared with the oracle
    pub fn step(&mut self) {
        self.stats.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.stats.transitions += n;
    }
    /// one more distinct state (configuration of the system under test) was visited
    /// a case that takes long reports that it makes progress
    pub fn alive(&self) {
        if let Some((b, t0)) = &self.beat {
            b.started.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        }
    }
    pub fn state(&mut self) {
        self.stats.states += 1;
    }
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.stats.counters.entry(what).or_insert(0) += n;
    }
    /// remember an observable outcome (so that a run can say how many different ones it saw)
    pub fn outcome<T: Hash>(&mut self, o: &T) {
        if self.stats.outcomes.len() < 200_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            o.hash(&mut h);
            *self.stats.outcomes.entry(h.finish()).or_insert(0) += 1;
        }
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }
    pub fn is_tracing(&self) -> bool {
        self.tracing
    }
    /// report a violation that is identified by a key (compared with the known findings file)
    pub fn finding(&mut self, key: &str, what: String) {
        if !self.known.iter().any(|(k, _, _)| k == key) {
            let choices = self.path[..self.pos.min(self.path.len())].to_vec();
            self.known.push((key.to_string(), what, choices));
        }
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static QUIET: RefCell<bool> = RefCell::new(false);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        let quiet = QUIET.with(|q| *q.borrow());
        if !quiet && std::env::var("VERIF_SHOW_PANICS").is_ok() {
            eprintln!("panic: {}", msg);
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = msg);
    }));
}

/// run `f`, turning a panic into `Err`
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let hook = PANIC_MSG.with(|m| m.borrow().clone());
            let payload = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                String::new()
            };
            if hook.contains(&payload) {
                Err(format!("panic: {}", hook))
            } else {
                Err(format!("panic: {} (worker thread)", payload))
            }
        }
    }
}

struct Task {
    prefix: Vec<u32>,
    sizes: Vec<u32>,
}

struct Shared {
    queue: Mutex<(Vec<Task>, usize)>, // tasks, number of idle workers
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    violation: Mutex<Option<Violation>>,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub scenario: String,
    pub choices: Vec<u32>,
    pub message: String,
    pub trace: Vec<String>,
}

pub struct Outcome {
    pub stats: Stats,
    pub violation: Option<Violation>,
    pub exhausted: bool,
    pub known: Vec<(String, String, Vec<u32>)>,
}

/// per-worker heart beat for the watchdog
struct Beat {
    started: AtomicU64, // ms since epoch of run, 0 = idle
    choices: Mutex<Vec<u32>>,
}

pub fn threads() -> usize {
    std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8))
}

/// Explore every choice sequence of `case`.
pub fn explore<F>(scenario: &str, deadline: Option<Instant>, case: F) -> Outcome
where
    F: Fn(&mut Ctx) -> Result<(), String> + Sync,
{
    explore_with(scenario, deadline, threads(), case)
}

pub fn explore_with<F>(scenario: &str, deadline: Option<Instant>, num_threads: usize, case: F) -> Outcome
where
    F: Fn(&mut Ctx) -> Result<(), String> + Sync,
{
    let shared = Shared {
        queue: Mutex::new((vec![Task { prefix: vec![], sizes: vec![] }], 0)),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        violation: Mutex::new(None),
    };
    let exhausted = AtomicBool::new(true);
    let total: Mutex<(Stats, Vec<(String, String, Vec<u32>)>)> = Mutex::new((Stats::default(), vec![]));
    let beats: Vec<std::sync::Arc<Beat>> = (0..num_threads)
        .map(|_| {
            std::sync::Arc::new(Beat {
                started: AtomicU64::new(0),
                choices: Mutex::new(vec![]),
            })
        })
        .collect();
    let t0 = Instant::now();
    let finished = AtomicBool::new(false);
    let hang_ms = std::env::var("VERIF_HANG_S").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(60) * 1000;

    std::thread::scope(|scope| {
        let workers: Vec<_> = (0..num_threads)
            .map(|w| {
                let shared = &shared;
                let case = &case;
                let total = &total;
                let exhausted = &exhausted;
                let beat = &beats[w];
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        // the code under test prints timings; keep them in a private buffer
                        let capture = std::sync::Arc::new(Mutex::new(Vec::new()));
                        std::io::set_output_capture(Some(capture.clone()));
                        let mut ctx = Ctx::new();
                        ctx.beat = Some((beat.clone(), t0));
                        'outer: loop {
                            let task = {
                                let mut q = shared.queue.lock().unwrap();
                                loop {
                                    if shared.stop.load(Ordering::Relaxed) {
                                        break 'outer;
                                    }
                                    if let Some(t) = q.0.pop() {
                                        break t;
                                    }
                                    q.1 += 1;
                                    shared.idle.store(q.1, Ordering::Relaxed);
                                    if q.1 == num_threads {
                                        shared.stop.store(true, Ordering::Relaxed);
                                        shared.cv.notify_all();
                                        break 'outer;
                                    }
                                    q = shared.cv.wait(q).unwrap();
                                    if shared.stop.load(Ordering::Relaxed) {
                                        break 'outer;
                                    }
                                    q.1 -= 1;
                                    shared.idle.store(q.1, Ordering::Relaxed);
                                }
                            };
                            let mut base = task.prefix.len();
                            ctx.path = task.prefix;
                            ctx.sizes = task.sizes;
                            loop {
                                if shared.stop.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                if let Some(d) = deadline {
                                    if Instant::now() > d {
                                        exhausted.store(false, Ordering::Relaxed);
                                        shared.stop.store(true, Ordering::Relaxed);
                                        let _q = shared.queue.lock().unwrap();
                                        shared.cv.notify_all();
                                        break 'outer;
                                    }
                                }
                                ctx.pos = 0;
                                ctx.trace.clear();
                                if let Ok(mut c) = capture.lock() {
                                    c.clear();
                                }
                                {
                                    let mut c = beat.choices.lock().unwrap();
                                    c.clear();
                                    c.extend_from_slice(&ctx.path);
                                }
                                beat.started.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                                let r = match guarded(|| case(&mut ctx)) {
                                    Ok(r) => r,
                                    Err(p) => Err(p),
                                };
                                beat.started.store(0, Ordering::Relaxed);
                                ctx.stats.executions += 1;
                                if let Err(message) = r {
                                    let choices = ctx.path[..ctx.pos.min(ctx.path.len())].to_vec();
                                    // run once more, recording a trace
                                    let mut tctx = Ctx::new();
                                    tctx.path = choices.clone();
                                    tctx.tracing = true;
                                    let _ = guarded(|| case(&mut tctx));
                                    let mut v = shared.violation.lock().unwrap();
                                    if v.as_ref().map(|v| v.choices.len() > choices.len()).unwrap_or(true) {
                                        *v = Some(Violation {
                                            scenario: scenario.to_string(),
                                            choices,
                                            message,
                                            trace: tctx.trace,
                                        });
                                    }
                                    shared.stop.store(true, Ordering::Relaxed);
                                    let _q = shared.queue.lock().unwrap();
                                    shared.cv.notify_all();
                                    break 'outer;
                                }
                                let len = ctx.pos;
                                ctx.path.truncate(len);
                                ctx.sizes.truncate(len);
                                // sample traces: an early execution and later ones at powers of 16
                                let e = ctx.stats.executions;
                                if w == 0 && ctx.stats.samples.len() < 3 && (e == 2 || e == 500 || e == 20000) {
                                    let mut tctx = Ctx::new();
                                    tctx.path = ctx.path.clone();
                                    tctx.tracing = true;
                                    let _ = guarded(|| case(&mut tctx));
                                    let mut s = format!("{}: choices {:?}: {}", scenario, tctx.path, tctx.trace.join("; "));
                                    if s.len() > 600 {
                                        let mut cut = 600;
                                        while !s.is_char_boundary(cut) {
                                            cut -= 1;
                                        }
                                        s.truncate(cut);
                                    }
                                    ctx.stats.samples.push(s);
                                }
                                // share work
                                if shared.idle.load(Ordering::Relaxed) > 0 {
                                    if let Some(d) = (base..ctx.path.len()).find(|&d| ctx.path[d] + 1 < ctx.sizes[d]) {
                                        let mut q = shared.queue.lock().unwrap();
                                        for alt in ctx.path[d] + 1..ctx.sizes[d] {
                                            let mut prefix = ctx.path[..d].to_vec();
                                            prefix.push(alt);
                                            q.0.push(Task {
                                                prefix,
                                                sizes: ctx.sizes[..=d].to_vec(),
                                            });
                                        }
                                        base = d + 1;
                                        shared.cv.notify_all();
                                    }
                                }
                                // next sequence
                                loop {
                                    if ctx.path.len() == base {
                                        ctx.path.clear();
                                        break;
                                    }
                                    let last = ctx.path.len() - 1;
                                    if ctx.path[last] + 1 < ctx.sizes[last] {
                                        ctx.path[last] += 1;
                                        break;
                                    }
                                    ctx.path.pop();
                                    ctx.sizes.pop();
                                }
                                if ctx.path.is_empty() {
                                    break;
                                }
                            }
                        }
                        let mut t = total.lock().unwrap();
                        t.0.merge(std::mem::take(&mut ctx.stats));
                        for k in std::mem::take(&mut ctx.known) {
                            if !t.1.contains(&k) {
                                t.1.push(k);
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        // watchdog: a single case (normally micro- or milliseconds) that does not come back
        let beats = &beats;
        let finished = &finished;
        scope.spawn(move || {
            let mut n = 0u64;
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(2));
                n += 1;
                if n % 100 != 0 {
                    continue;
                }
                let now = t0.elapsed().as_millis() as u64 + 1;
                for b in beats {
                    let s = b.started.load(Ordering::Relaxed);
                    if s != 0 && now.saturating_sub(s) > hang_ms {
                        report::report_hang(scenario, b.choices.lock().unwrap().clone(), hang_ms / 1000);
                    }
                }
            }
        });
        for w in workers {
            w.join().expect("harness worker died");
        }
        finished.store(true, Ordering::Relaxed);
    });
    let (stats, mut known) = total.into_inner().unwrap();
    known.sort();
    Outcome {
        stats,
        violation: shared.violation.into_inner().unwrap(),
        exhausted: exhausted.load(Ordering::Relaxed),
        known,
    }
}

/// Re-run one choice sequence with tracing.
pub fn replay<F>(choices: &[u32], case: F) -> (Result<(), String>, Vec<String>)
where
    F: Fn(&mut Ctx) -> Result<(), String> + Sync,
{
    let mut ctx = Ctx::new();
    ctx.path = choices.to_vec();
    ctx.tracing = true;
    let r = match guarded(|| case(&mut ctx)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    let r = r.and_then(|_| match ctx.known.first() {
        Some((key, what, _)) => Err(format!("{}: {}", key, what)),
        None => Ok(()),
    });
    (r, ctx.trace)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !$c { return Err(format!($($a)+)); } };
}
