//! Framework: suites of exhaustively enumerated cases, run in parallel, each case on its own real engine.

use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const CASE_LIMIT: Duration = Duration::from_secs(45);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    /// One of two values by tier.
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

#[derive(Clone, Copy)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^ (x >> 33)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = Fnv::default();
    v.hash(&mut h);
    h.finish()
}
pub fn bits(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| x.to_bits()).collect()
}

/// What a worker has covered.
#[derive(Default)]
pub struct Rec {
    pub states: HashSet<u64, std::hash::BuildHasherDefault<Ident>>,
    pub outcomes: HashSet<u64, std::hash::BuildHasherDefault<Ident>>,
    pub steps: u64,
    pub execs: u64,
    pub schedules: u64,
    pub max_points: u64,
}
#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
impl Rec {
    /// A model state was reached and compared with the implementation.
    pub fn state<T: Hash + ?Sized>(&mut self, s: &T) {
        self.steps += 1;
        if self.states.len() < 4_000_000 {
            self.states.insert(hash(s));
        }
    }
    /// An execution of the implementation finished with this observation.
    pub fn exec<T: Hash + ?Sized>(&mut self, outcome: &T) {
        self.execs += 1;
        if self.outcomes.len() < 1_000_000 {
            self.outcomes.insert(hash(outcome));
        }
    }
    fn merge(&mut self, o: Rec) {
        self.states.extend(o.states);
        self.outcomes.extend(o.outcomes);
        self.steps += o.steps;
        self.execs += o.execs;
        self.schedules += o.schedules;
        self.max_points = self.max_points.max(o.max_points);
    }
}

pub type Check = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)+) => { if !$c { return Err(format!($($t)+)); } };
}

type RunFn = Box<dyn Fn(u64, &mut Rec) -> Option<Check> + Send + Sync>;
type DescFn = Box<dyn Fn(u64) -> String + Send + Sync>;
type SchedFn = Box<dyn Fn(u64, &[u32], &mut Rec) -> Option<SchedRun> + Send + Sync>;

pub struct SchedRun {
    pub trace: Vec<crossbeam::mc::Point>,
    pub check: Check,
    /// A failure of the explorer itself, not of the code under test.
    pub internal: bool,
}

pub enum SuiteKind {
    Cases { size: u64, run: RunFn, desc: DescFn },
    /// All schedules of every case with at most `bound` preemptions.
    Sched { size: u64, bound: u32, run: SchedFn, desc: DescFn },
}

pub struct Suite {
    pub name: String,
    pub bounds: String,
    pub kind: SuiteKind,
}

/// A suite of cases decoded from an index; the decoder gives None for an index that stands for no case.
pub fn cases<C: Debug + 'static>(
    name: &str,
    bounds: &str,
    size: u64,
    decode: impl Fn(D) -> Option<C> + Send + Sync + Clone + 'static,
    run: impl Fn(&C, &mut Rec) -> Check + Send + Sync + 'static,
) -> Suite {
    let d2 = decode.clone();
    Suite {
        name: name.into(),
        bounds: bounds.into(),
        kind: SuiteKind::Cases {
            size,
            run: Box::new(move |i, rec| decode(D(i)).map(|c| run(&c, rec))),
            desc: Box::new(move |i| format!("{:?}", d2(D(i)))),
        },
    }
}

/// Bounds of the exploration of schedules.
#[derive(Clone, Copy)]
pub struct Depth {
    pub preemptions: u32,
    /// scheduling points of one execution
    pub horizon: usize,
    /// a sleeping thread goes on only when no other can
    pub late_sleepers: bool,
}

/// Every schedule of every case.
pub fn sched<C: Debug + 'static, T: Send + 'static>(
    name: &str,
    bounds: &str,
    size: u64,
    depth: Depth,
    decode: impl Fn(D) -> Option<C> + Send + Sync + Clone + 'static,
    body: impl Fn(&C) -> T + Send + Sync + 'static,
    check: impl Fn(&C, &T, &mut Rec) -> Check + Send + Sync + 'static,
) -> Suite {
    let d2 = decode.clone();
    let sleep = if depth.late_sleepers { " (the background thread looks for work only when the others wait)" } else { "" };
    Suite {
        name: name.into(),
        bounds: format!("{bounds}; every schedule with at most {} preemptions{sleep}", depth.preemptions),
        kind: SuiteKind::Sched {
            size,
            bound: depth.preemptions,
            desc: Box::new(move |i| format!("{:?}", d2(D(i)))),
            run: Box::new(move |i, prefix, rec| {
                let c = decode(D(i))?;
                let r = crossbeam::mc::run_scheduled(prefix, 0, depth.late_sleepers, depth.horizon, || body(&c));
                rec.schedules += 1;
                rec.max_points = rec.max_points.max(r.trace.len() as u64);
                let internal = r.failure.as_ref().is_some_and(|f| f.starts_with("replay divergence"));
                let check = match (r.failure, &r.value) {
                    (Some(f), _) => Err(f),
                    (None, Some(v)) => check(&c, v, rec),
                    (None, None) => Err("the control thread produced no value".into()),
                };
                Some(SchedRun { trace: r.trace, check, internal })
            }),
        },
    }
}

/// Mixed-radix decoder of a case index.
#[derive(Clone, Copy)]
pub struct D(pub u64);
impl D {
    pub fn n(&mut self, n: usize) -> usize {
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
    pub fn of<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.n(v.len())].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.n(2) == 1
    }
    /// The k-th permutation of 0..n.
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut rest: Vec<usize> = (0..n).collect();
        (0..n).map(|i| rest.remove(self.n(n - i))).collect()
    }
    /// A word of exactly `len` letters.
    pub fn word(&mut self, letters: usize, len: usize) -> Vec<usize> {
        (0..len).map(|_| self.n(letters)).collect()
    }
    /// A word of at most `max` letters, shortest first; use with `words(letters, max)`.
    pub fn word_upto(&mut self, letters: usize, max: usize) -> Vec<usize> {
        let mut r = self.n(words(letters, max) as usize) as u64;
        let mut len = 0;
        loop {
            let c = pow(letters, len);
            if r < c {
                return D(r).word(letters, len);
            }
            r -= c;
            len += 1;
        }
    }
    /// A composition of n (ordered parts summing to n); use with 2^(n-1).
    pub fn composition(&mut self, n: usize) -> Vec<usize> {
        let m = self.n(1 << (n - 1));
        let mut parts = vec![1];
        for i in 0..n - 1 {
            if m >> i & 1 == 1 {
                parts.push(1);
            } else {
                *parts.last_mut().unwrap() += 1;
            }
        }
        parts
    }
}
pub fn pow(b: usize, e: usize) -> u64 {
    (b as u64).pow(e as u32)
}
pub fn words(letters: usize, max: usize) -> u64 {
    (0..=max).map(|l| pow(letters, l)).sum()
}
pub fn fact(n: usize) -> u64 {
    (1..=n as u64).product()
}
pub fn prod(f: &[u64]) -> u64 {
    f.iter().product()
}

/// A violation found.
pub struct Violation {
    pub suite: String,
    pub index: u64,
    pub prefix: Option<Vec<u32>>,
    pub desc: String,
    pub message: String,
}

pub struct SuiteReport {
    pub name: String,
    pub bounds: String,
    pub cases: u64,
    pub rec: Rec,
    pub samples: Vec<String>,
    pub wall: f64,
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = loc);
    }));
}

/// Shared memory telling the parent process which case each worker runs: (suite + 1, case + 1) per worker.
static SLOTS: AtomicU64 = AtomicU64::new(0);
static SUITE: AtomicU64 = AtomicU64::new(0);
pub fn set_slots(p: *mut u64) {
    SLOTS.store(p as u64, SeqCst);
}
pub fn set_suite(n: usize) {
    SUITE.store(n as u64 + 1, SeqCst);
}
fn note_case(worker: usize, case: u64) {
    let p = SLOTS.load(SeqCst) as *mut u64;
    if !p.is_null() {
        unsafe {
            p.add(worker * 2).write_volatile(SUITE.load(SeqCst));
            p.add(worker * 2 + 1).write_volatile(case);
        }
    }
}

pub fn guarded(run: &RunFn, i: u64, rec: &mut Rec) -> Option<Check> {
    match catch_unwind(AssertUnwindSafe(|| run(i, rec))) {
        Ok(r) => r,
        Err(p) => {
            let text = crossbeam::mc::payload_text(&*p);
            let loc = LAST_PANIC.with(|p| p.borrow().clone());
            // leave inline mode cleanly; what it still holds may panic again while it is dropped
            for _ in 0..3 {
                if catch_unwind(crossbeam::mc::inline_end).is_ok() {
                    break;
                }
            }
            Some(Err(format!("panic: {text} (at {loc})")))
        }
    }
}

pub struct Hang {
    pub suite: String,
    pub index: u64,
    pub desc: String,
}

/// Run every case of a suite on `workers` threads. The violation with the lowest index is returned.
pub fn run_suite(
    suite: &Suite,
    workers: usize,
    known: &(dyn Fn(&str, &str) -> bool + Sync),
    on_hang: &(dyn Fn(Hang) + Sync),
) -> (SuiteReport, Option<Violation>, u64) {
    let t0 = Instant::now();
    match &suite.kind {
        SuiteKind::Cases { size, run, desc } => {
            let next = AtomicU64::new(0);
            let limit = AtomicU64::new(u64::MAX);
            let found: Mutex<Vec<(u64, String)>> = Mutex::new(Vec::new());
            let known_hits = AtomicU64::new(0);
            let all = Mutex::new((Rec::default(), 0u64));
            let chunk = (*size / (workers as u64 * 16)).clamp(1, 256);
            // index + 1 of the running case and its start time, per worker
            let running: Vec<(AtomicU64, AtomicU64)> = (0..workers).map(|_| Default::default()).collect();
            let done = AtomicBool::new(false);
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..workers)
                    .map(|w| {
                        let (next, limit, found, all, running, known_hits) =
                            (&next, &limit, &found, &all, &running, &known_hits);
                        std::thread::Builder::new()
                            .stack_size(8 << 20)
                            .spawn_scoped(s, move || {
                                crossbeam::mc::set_tag(w + 1);
                                let mut rec = Rec::default();
                                let mut ran = 0;
                                loop {
                                    let a = next.fetch_add(chunk, SeqCst);
                                    if a >= *size || a > limit.load(SeqCst) {
                                        break;
                                    }
                                    for i in a..(a + chunk).min(*size) {
                                        if i > limit.load(SeqCst) {
                                            break;
                                        }
                                        running[w].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                                        running[w].0.store(i + 1, SeqCst);
                                        note_case(w, i + 1);
                                        let r = guarded(run, i, &mut rec);
                                        running[w].0.store(0, SeqCst);
                                        note_case(w, 0);
                                        match r {
                                            None => (),
                                            Some(Ok(())) => ran += 1,
                                            Some(Err(m)) => {
                                                ran += 1;
                                                if known(&suite.name, &desc(i)) {
                                                    known_hits.fetch_add(1, SeqCst);
                                                } else {
                                                    limit.fetch_min(i, SeqCst);
                                                    found.lock().unwrap().push((i, m));
                                                }
                                            }
                                        }
                                    }
                                }
                                let mut g = all.lock().unwrap();
                                g.0.merge(rec);
                                g.1 += ran;
                            })
                            .unwrap()
                    })
                    .collect();
                let (running, done) = (&running, &done);
                let dog = s.spawn(move || {
                    while !done.load(SeqCst) {
                        std::thread::park_timeout(Duration::from_millis(300));
                        for r in running {
                            let i = r.0.load(SeqCst);
                            let since = r.1.load(SeqCst);
                            let now = t0.elapsed().as_millis() as u64;
                            if i > 0 && now.saturating_sub(since) > CASE_LIMIT.as_millis() as u64 && r.0.load(SeqCst) == i {
                                on_hang(Hang { suite: suite.name.clone(), index: i - 1, desc: desc(i - 1) });
                            }
                        }
                    }
                });
                for h in hs {
                    h.join().unwrap();
                }
                done.store(true, SeqCst);
                dog.thread().unpark();
            });
            let mut f = found.into_inner().unwrap();
            f.sort_by_key(|x| x.0);
            let (rec, ran) = all.into_inner().unwrap();
            let mut samples = Vec::new();
            for k in [0u64, 1, 2] {
                // the first case at or after each third of the range that stands for something
                let mut i = size * (2 * k + 1) / 6;
                for _ in 0..5000 {
                    if i >= *size {
                        break;
                    }
                    let d = desc(i);
                    if d != "None" {
                        samples.push(d);
                        break;
                    }
                    i += 1;
                }
            }
            let v = f.into_iter().next().map(|(i, m)| Violation {
                suite: suite.name.clone(),
                index: i,
                prefix: None,
                desc: desc(i),
                message: m,
            });
            (
                SuiteReport {
                    name: suite.name.clone(),
                    bounds: suite.bounds.clone(),
                    cases: ran,
                    rec,
                    samples,
                    wall: t0.elapsed().as_secs_f64(),
                },
                v,
                known_hits.load(SeqCst),
            )
        }
        SuiteKind::Sched { size, bound, run, desc } => {
            let (rec, v, sample) = explore(&suite.name, desc, *size, *bound, run, workers, on_hang);
            (
                SuiteReport {
                    name: suite.name.clone(),
                    bounds: suite.bounds.clone(),
                    cases: rec.schedules,
                    rec,
                    samples: vec![sample],
                    wall: t0.elapsed().as_secs_f64(),
                },
                v,
                0,
            )
        }
    }
}

fn choices(trace: &[crossbeam::mc::Point]) -> Vec<u32> {
    trace.iter().map(|p| p.chosen as u32).collect()
}
/// Keep this thread and those it starts on one processor: they run one at a time.
fn pin(w: usize) {
    extern "C" {
        fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    }
    let n = std::thread::available_parallelism().map_or(1, |n| n.get());
    if n <= 64 {
        let mask = 1u64 << (w % n);
        unsafe { sched_setaffinity(0, 8, &mask) };
    }
}
pub fn show_trace(trace: &[crossbeam::mc::Point]) -> String {
    // runs of one thread, as thread:operations
    let mut out: Vec<String> = Vec::new();
    let mut last = usize::MAX;
    for p in trace {
        if p.thread != last {
            out.push(format!("t{}:{}", p.thread, p.op));
            last = p.thread;
        } else {
            let s = out.last_mut().unwrap();
            s.push(',');
            s.push_str(p.op);
        }
    }
    out.join(" | ")
}

/// Every schedule of one case of a suite of schedules.
pub fn explore_case(suite: &Suite, case: u64) -> Check {
    let SuiteKind::Sched { bound, run, .. } = &suite.kind else { return Ok(()) };
    let mut rec = Rec::default();
    let expanded = Mutex::new(Expanded::default());
    let mut work = vec![vec![]];
    while let Some(p) = work.pop() {
        let Some(r) = run(case, &p, &mut rec) else { continue };
        r.check?;
        work.extend(further(case, &r.trace, *bound, &expanded));
    }
    Ok(())
}

/// The nodes of the tree of schedules that have been expanded.
type Expanded = HashSet<u64, std::hash::BuildHasherDefault<Ident>>;

/// The prefixes that depart from a trace where another thread could run, leaving out those already given: where the
/// running thread is about to touch something that no other thread touches (or none changes), running another one
/// first makes no difference to running it afterwards.
fn further(case: u64, trace: &[crossbeam::mc::Point], bound: u32, expanded: &Mutex<Expanded>) -> Vec<Vec<u32>> {
    use crossbeam::mc::Touch;
    let mut touched: HashMap<usize, (usize, bool, bool)> = HashMap::new();
    for p in trace {
        let (obj, write) = match p.next {
            Touch::Read(o) => (o, false),
            Touch::Write(o) => (o, true),
            _ => continue,
        };
        let t = touched.entry(obj).or_insert((p.from, false, false));
        t.1 |= t.0 != p.from;
        t.2 |= write;
    }
    let matters = |p: &crossbeam::mc::Point| match p.next {
        Touch::Nothing => false,
        Touch::All => true,
        Touch::Read(o) | Touch::Write(o) => touched[&o].1 && touched[&o].2,
    };
    let mut out = vec![];
    let mut spent = 0;
    let mut at = hash(&case);
    for (i, p) in trace.iter().enumerate() {
        let cost = spent + p.running_enabled as u32;
        if p.enabled > 1 && cost <= bound && (!p.running_enabled || matters(p)) && expanded.lock().unwrap().insert(at) {
            for alt in (0..p.enabled).filter(|a| *a != p.chosen) {
                let mut n = choices(&trace[..i]);
                n.push(alt as u32);
                out.push(n);
            }
        }
        spent += (p.running_enabled && p.chosen != 0) as u32;
        at = hash(&(at, p.chosen));
    }
    out
}

/// Preemption-bounded depth-first exploration; prefixes are shared between workers.
fn explore(
    name: &str,
    desc: &DescFn,
    size: u64,
    bound: u32,
    run: &SchedFn,
    workers: usize,
    on_hang: &(dyn Fn(Hang) + Sync),
) -> (Rec, Option<Violation>, String) {
    let mut rec = Rec::default();
    let mut sample = String::new();
    let viol = |case: u64, r: &SchedRun, m: &str| Violation {
        suite: name.to_string(),
        index: case,
        prefix: Some(choices(&r.trace)),
        desc: format!("{}; schedule: {}", desc(case), show_trace(&r.trace)),
        message: m.to_string(),
    };
    // own every choice: the same schedule twice must give the same trace
    for case in (0..size).step_by((size as usize / 3).max(1)) {
        let Some(a) = run(case, &[], &mut rec) else { continue };
        sample = format!("{}: {}", desc(case), show_trace(&a.trace).chars().take(1500).collect::<String>());
        if let Err(m) = &a.check {
            return (rec, Some(viol(case, &a, m)), sample);
        }
        let Some(b) = run(case, &[], &mut rec) else { continue };
        if choices(&a.trace) != choices(&b.trace)
            || a.trace.iter().map(|p| (p.thread, p.op, p.enabled)).ne(b.trace.iter().map(|p| (p.thread, p.op, p.enabled)))
        {
            eprintln!("internal error: {name}: the same schedule gave two different traces");
            std::process::exit(3);
        }
    }
    struct Q {
        work: Vec<(u64, Vec<u32>)>,
        next: u64,
        busy: usize,
        found: Option<Violation>,
        internal: Option<String>,
    }
    let q = Mutex::new(Q { work: vec![], next: 0, busy: 0, found: None, internal: None });
    let cv = std::sync::Condvar::new();
    let expanded = Mutex::new(Expanded::default());
    let all = Mutex::new(rec);
    let started: Vec<(AtomicU64, Mutex<(u64, Vec<u32>)>)> = (0..workers).map(|_| Default::default()).collect();
    let done = AtomicBool::new(false);
    let t0 = Instant::now();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..workers)
            .map(|w| {
                let (q, cv, all, started, viol, expanded) = (&q, &cv, &all, &started, &viol, &expanded);
                s.spawn(move || {
                    pin(w);
                    crossbeam::mc::set_tag(w + 1);
                    let mut rec = Rec::default();
                    'outer: loop {
                        let (case, prefix) = {
                            let mut g = q.lock().unwrap();
                            loop {
                                if g.found.is_some() || g.internal.is_some() {
                                    break 'outer;
                                }
                                if let Some(p) = g.work.pop() {
                                    g.busy += 1;
                                    break p;
                                }
                                if g.next < size {
                                    g.busy += 1;
                                    g.next += 1;
                                    break (g.next - 1, vec![]);
                                }
                                if g.busy == 0 {
                                    cv.notify_all();
                                    break 'outer;
                                }
                                g = cv.wait(g).unwrap();
                            }
                        };
                        *started[w].1.lock().unwrap() = (case, prefix.clone());
                        started[w].0.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                        note_case(w, case + 1);
                        let r = run(case, &prefix, &mut rec);
                        note_case(w, 0);
                        started[w].0.store(0, SeqCst);
                        let mut g = q.lock().unwrap();
                        g.busy -= 1;
                        let Some(r) = r else {
                            cv.notify_all();
                            continue;
                        };
                        if let Err(m) = &r.check {
                            if r.internal {
                                g.internal = Some(m.clone());
                            } else if g.found.is_none() {
                                g.found = Some(viol(case, &r, m));
                            }
                        } else {
                            g.work.extend(further(case, &r.trace, bound, expanded).into_iter().map(|p| (case, p)));
                        }
                        cv.notify_all();
                    }
                    all.lock().unwrap().merge(rec);
                })
            })
            .collect();
        let (started, done) = (&started, &done);
        let dog = s.spawn(move || {
            while !done.load(SeqCst) {
                std::thread::park_timeout(Duration::from_millis(300));
                for w in started {
                    let t = w.0.load(SeqCst);
                    let now = t0.elapsed().as_millis() as u64;
                    if t > 0 && now.saturating_sub(t) > CASE_LIMIT.as_millis() as u64 && w.0.load(SeqCst) == t {
                        let g = w.1.lock().unwrap();
                        on_hang(Hang { suite: name.into(), index: g.0, desc: format!("{}; prefix {:?}", desc(g.0), g.1) });
                    }
                }
            }
        });
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, SeqCst);
        dog.thread().unpark();
    });
    let g = q.into_inner().unwrap();
    if let Some(m) = g.internal {
        eprintln!("internal error: {name}: {m}");
        std::process::exit(3);
    }
    (all.into_inner().unwrap(), g.found, sample)
}
