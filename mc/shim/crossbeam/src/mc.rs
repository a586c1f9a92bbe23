//! Runtime of the explorer: the inline (single-threaded, deterministic) mode and the scheduled mode, in which
//! real OS threads hand a baton to each other at every scheduling point under a preemption-bounded search.

use ::std::any::Any;
use ::std::cell::{Cell, RefCell};
use ::std::collections::HashMap;
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ::std::sync::{Arc, Condvar, Mutex, MutexGuard};

/// Payload of the panic raised when an operation would block forever in inline mode.
#[derive(Debug, Clone)]
pub struct WouldBlock(pub String);

/// Payload used to unwind the remaining threads of an aborted execution.
pub struct Aborted;

type Job = Box<dyn FnOnce() + Send + 'static>;

#[derive(Default)]
struct Statics(HashMap<usize, Box<dyn Any + Send + Sync>>);

/// State of inline mode, one per OS thread of the harness.
struct Inline {
    active: bool,
    seed: u32,
    statics: Statics,
    background: Vec<Job>,
    ops: u64,
    looks: u64,
}

thread_local! {
    static INLINE: RefCell<Inline> = RefCell::new(Inline { active: false, seed: 0, statics: Statics::default(), background: Vec::new(), ops: 0, looks: 0 });
    static SCHED: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
    static ROLE: Cell<Role> = const { Cell::new(Role::Control) };
}

/// Which side of the engine the current code is running for.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    Control,
    Audio,
    Background,
}

pub fn role() -> Role {
    ROLE.with(|r| r.get())
}

pub fn set_role(role: Role) -> Role {
    ROLE.with(|r| r.replace(role))
}

fn sched() -> Option<(Arc<Exec>, usize)> {
    SCHED.try_with(|s| s.borrow().clone()).ok().flatten()
}

pub fn in_inline() -> bool {
    INLINE.try_with(|i| i.try_borrow().map(|i| i.active).unwrap_or(false)).unwrap_or(false)
}

pub fn in_sched() -> bool {
    SCHED.try_with(|s| s.borrow().is_some()).unwrap_or(false)
}

/// Start an inline execution: fresh statics, chosen hash order, spawned threads are kept until
/// [run_background].
pub fn inline_begin(seed: u32) {
    INLINE.with(|i| {
        let mut i = i.borrow_mut();
        i.active = true;
        i.seed = seed;
        i.statics.0.clear();
        i.ops = 0;
        i.looks = 0;
    });
    let old: Vec<Job> = INLINE.with(|i| ::std::mem::take(&mut i.borrow_mut().background));
    drop(old);
    set_role(Role::Control);
}

/// Number of threads spawned and not yet run in the inline execution.
pub fn background_count() -> usize {
    INLINE.with(|i| i.borrow().background.len())
}

/// Run the spawned threads of an inline execution to completion, one after the other.
pub fn run_background() {
    loop {
        let job = INLINE.with(|i| {
            let mut i = i.borrow_mut();
            if i.background.is_empty() {
                None
            } else {
                Some(i.background.remove(0))
            }
        });
        let Some(job) = job else { break };
        let before = set_role(Role::Background);
        let result = catch_unwind(AssertUnwindSafe(job));
        set_role(before);
        if let Err(e) = result {
            resume_unwind(e);
        }
    }
}

pub fn inline_end() {
    let old: Vec<Job> = INLINE.with(|i| ::std::mem::take(&mut i.borrow_mut().background));
    drop(old);
    INLINE.with(|i| {
        let mut i = i.borrow_mut();
        i.active = false;
        i.statics.0.clear();
    });
}

pub(crate) fn push_background(job: Job) {
    INLINE.with(|i| i.borrow_mut().background.push(job));
}

pub(crate) fn would_block(what: &str) -> ! {
    ::std::panic::panic_any(WouldBlock(format!("{what} by the {:?} side", role())));
}

/// One of the things a loop that waits does: where it counts, an execution is allowed so many of them.
pub(crate) fn look(what: &str, limit: u64) {
    if !STRICT_LOCKS.load(::std::sync::atomic::Ordering::Relaxed) || role() == Role::Background || in_sched() {
        return;
    }
    let n = INLINE.try_with(|i| {
        i.try_borrow_mut().map_or(0, |mut i| {
            i.looks += i.active as u64;
            i.looks
        })
    });
    if n.unwrap_or(0) > limit {
        would_block(what);
    }
}

/// Whether the calling thread belongs to an execution.
pub fn active() -> bool {
    in_sched() || in_inline()
}

/// Whether waiting for a lock that the audio thread holds, or that the audio thread wants, counts as blocking.
pub static STRICT_LOCKS: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(false);

/// Who holds a lock.
#[derive(Default)]
pub(crate) struct Holder(::std::sync::atomic::AtomicU8);
impl Holder {
    pub const fn new() -> Self {
        Self(::std::sync::atomic::AtomicU8::new(0))
    }
    pub fn taken(&self) {
        self.0.store(role() as u8, ::std::sync::atomic::Ordering::SeqCst);
    }
    /// The calling thread found the lock taken.
    pub fn contended(&self, what: &'static str) {
        let audio = Role::Audio as u8;
        let involved = role() as u8 == audio || self.0.load(::std::sync::atomic::Ordering::SeqCst) == audio;
        if !in_sched() || (involved && STRICT_LOCKS.load(::std::sync::atomic::Ordering::SeqCst)) {
            would_block(what);
        }
        wait_progress(what);
    }
}

/// The hash-order seed of the running execution.
pub fn hash_seed() -> u32 {
    if let Some((e, _)) = sched() {
        return e.seed;
    }
    INLINE.try_with(|i| i.try_borrow().map(|i| if i.active { i.seed } else { 0 }).unwrap_or(0)).unwrap_or(0)
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

pub(crate) fn is_static(addr: usize) -> bool {
    unsafe { addr >= &__data_start as *const u8 as usize && addr < &_end as *const u8 as usize }
}

/// The per-execution copy of a static atomic, or None outside an execution.
pub(crate) fn static_slot<T: Send + Sync + 'static>(addr: usize, init: impl FnOnce() -> T) -> Option<*const T> {
    if !is_static(addr) {
        return None;
    }
    fn get<T: Send + Sync + 'static>(s: &mut Statics, addr: usize, init: impl FnOnce() -> T) -> *const T {
        let b = s.0.entry(addr).or_insert_with(|| Box::new(init()) as Box<dyn Any + Send + Sync>);
        b.downcast_ref::<T>().expect("static atomic changed its type") as *const T
    }
    if let Some((e, _)) = sched() {
        let mut s = e.statics.lock().unwrap();
        return Some(get(&mut s, addr, init));
    }
    INLINE
        .try_with(|i| {
            let mut i = i.try_borrow_mut().ok()?;
            if !i.active {
                return None;
            }
            Some(get(&mut i.statics, addr, init))
        })
        .ok()
        .flatten()
}

// ---------------------------------------------------------------------------------------------------------
// Scheduled mode

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum ThState {
    Runnable,
    /// Enabled again once the global progress counter is above this value.
    Waiting(u64),
    /// The same, and only when no other thread is enabled.
    Asleep(u64),
    /// Goes on when no other thread has anything left to do.
    Settling,
    Done,
}

struct Th {
    state: ThState,
    name: String,
    last_op: u64,
    /// What it is about to touch.
    next: Touch,
    turn: Arc<Condvar>,
}
impl Th {
    fn new(name: &str, last_op: u64) -> Self {
        Th { state: ThState::Runnable, name: name.to_string(), last_op, next: Touch::Nothing, turn: Arc::new(Condvar::new()) }
    }
}

/// What an operation touches.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Touch {
    Nothing,
    Read(usize),
    Write(usize),
    /// Anything.
    All,
}

/// One scheduling decision.
#[derive(Clone, Debug)]
pub struct Point {
    pub chosen: usize,
    pub enabled: usize,
    pub running_enabled: bool,
    pub thread: usize,
    pub op: &'static str,
    /// The thread that stops here, and what it will touch next.
    pub from: usize,
    pub next: Touch,
}

struct St {
    threads: Vec<Th>,
    current: usize,
    prefix: Vec<u32>,
    trace: Vec<Point>,
    progress: u64,
    aborted: bool,
    failure: Option<String>,
    horizon: usize,
    live: usize,
}

pub struct Exec {
    st: Mutex<St>,
    end: Condvar,
    statics: Mutex<Statics>,
    seed: u32,
    /// A sleeping thread goes on only when no other can.
    late_sleepers: bool,
}

/// The result of one scheduled execution.
pub struct Run<T> {
    pub trace: Vec<Point>,
    /// Deadlock, horizon or panic, if any.
    pub failure: Option<String>,
    pub value: Option<T>,
    pub progress: u64,
}

fn lock(e: &Exec) -> MutexGuard<'_, St> {
    match e.st.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

impl Exec {
    fn enabled(st: &St) -> Vec<usize> {
        let mut out = Vec::new();
        let is = |i: usize| match st.threads[i].state {
            ThState::Runnable => true,
            ThState::Waiting(seen) => st.progress > seen,
            ThState::Asleep(_) | ThState::Settling | ThState::Done => false,
        };
        if is(st.current) {
            out.push(st.current);
        }
        for i in 0..st.threads.len() {
            if i != st.current && is(i) {
                out.push(i);
            }
        }
        if out.is_empty() {
            out.extend((0..st.threads.len()).filter(|i| matches!(st.threads[*i].state, ThState::Asleep(seen) if st.progress > seen)));
            out.sort_by_key(|i| *i != st.current);
        }
        if out.is_empty() {
            out.extend((0..st.threads.len()).filter(|i| st.threads[*i].state == ThState::Settling));
        }
        out
    }

    /// Decide who runs next. Called by the thread holding the baton.
    fn pick(&self, st: &mut St, op: &'static str) {
        untagged(|| self.pick_next(st, op))
    }

    fn pick_next(&self, st: &mut St, op: &'static str) {
        let enabled = Self::enabled(st);
        if enabled.is_empty() {
            if st.threads.iter().all(|t| t.state == ThState::Done) {
                self.end.notify_all();
                return;
            }
            let who: Vec<String> = st
                .threads
                .iter()
                .filter(|t| t.state != ThState::Done)
                .map(|t| t.name.clone())
                .collect();
            st.failure.get_or_insert(format!("deadlock: no thread can run; waiting forever: {}", who.join(", ")));
            st.aborted = true;
            Self::wake_all(st);
            return;
        }
        if st.trace.len() >= st.horizon {
            st.failure.get_or_insert(format!("horizon: execution did not finish within {} scheduling points", st.horizon));
            st.aborted = true;
            Self::wake_all(st);
            return;
        }
        let running_enabled = enabled[0] == st.current;
        let n = st.trace.len();
        let choice = if enabled.len() == 1 { 0 } else { st.prefix.get(n).copied().unwrap_or(0) as usize };
        if choice >= enabled.len() {
            st.failure.get_or_insert(format!("replay divergence: choice {choice} of {} at point {n}", enabled.len()));
            st.aborted = true;
            Self::wake_all(st);
            return;
        }
        let next = enabled[choice];
        let from = st.current;
        st.trace.push(Point { chosen: choice, enabled: enabled.len(), running_enabled, thread: next, op, from, next: st.threads[from].next });
        st.threads[next].state = ThState::Runnable;
        if next != st.current {
            st.current = next;
            st.threads[next].turn.notify_one();
        }
    }

    fn wake_all(st: &St) {
        for t in &st.threads {
            t.turn.notify_one();
        }
    }

    fn wait_turn<'a>(&'a self, mut st: MutexGuard<'a, St>, me: usize) -> bool {
        let turn = Arc::clone(&st.threads[me].turn);
        while st.current != me && !st.aborted {
            st = match turn.wait(st) {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
        }
        !st.aborted
    }

    fn leave(ok: bool) {
        if !ok && !::std::thread::panicking() {
            ::std::panic::panic_any(Aborted);
        }
    }
}

/// A scheduling point: the calling thread is about to perform `op`, touching anything.
pub fn point(op: &'static str) {
    touch(op, Touch::All)
}

/// A scheduling point: the calling thread is about to perform `op`.
pub fn touch(op: &'static str, next: Touch) {
    let Some((e, me)) = sched() else { return };
    if ::std::thread::panicking() {
        return;
    }
    let mut st = lock(&e);
    if st.aborted {
        drop(st);
        return Exec::leave(false);
    }
    st.threads[me].next = next;
    e.pick(&mut st, op);
    let ok = e.wait_turn(st, me);
    Exec::leave(ok);
    let mut st = lock(&e);
    let p = st.progress;
    st.threads[me].last_op = p;
}

thread_local! {
    static OWN: Cell<bool> = const { Cell::new(false) };
}
/// Run a part of the explorer that stands for something that does not allocate one message at a time.
pub fn own<T>(f: impl FnOnce() -> T) -> T {
    let before = OWN.with(|o| o.replace(true));
    let v = f();
    OWN.with(|o| o.set(before));
    v
}
pub fn is_own() -> bool {
    OWN.try_with(|o| o.get()).unwrap_or(true)
}

/// The calling thread changed shared state.
pub fn effect() {
    let Some((e, me)) = sched() else { return };
    let mut st = lock(&e);
    st.progress += 1;
    let p = st.progress;
    st.threads[me].last_op = p;
}

/// The calling thread cannot go on until another thread has changed shared state since its last operation.
pub fn wait_progress(op: &'static str) {
    wait(op, false)
}

/// The calling thread sleeps: it looks again some time after another thread has changed shared state.
pub fn sleep(op: &'static str) {
    wait(op, true)
}

/// The calling thread leaves the others to it, those asleep too, until they have nothing left to do.
pub fn settle() {
    effect();
    wait_as("settle", |_| ThState::Settling)
}

fn wait(op: &'static str, asleep: bool) {
    let late = sched().is_some_and(|(e, _)| e.late_sleepers);
    wait_as(op, |seen| if asleep && late { ThState::Asleep(seen) } else { ThState::Waiting(seen) })
}

fn wait_as(op: &'static str, state: impl FnOnce(u64) -> ThState) {
    let Some((e, me)) = sched() else { return };
    if ::std::thread::panicking() {
        return;
    }
    let mut st = lock(&e);
    if st.aborted {
        drop(st);
        return Exec::leave(false);
    }
    let seen = st.threads[me].last_op;
    st.threads[me].next = Touch::Nothing;
    st.threads[me].state = state(seen);
    e.pick(&mut st, op);
    let ok = e.wait_turn(st, me);
    Exec::leave(ok);
    let mut st = lock(&e);
    let p = st.progress;
    st.threads[me].last_op = p;
}

fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(w) = p.downcast_ref::<WouldBlock>() {
        format!("would block: {}", w.0)
    } else {
        "panic".to_string()
    }
}

/// Text of a panic payload.
pub fn payload_text(p: &(dyn Any + Send)) -> String {
    panic_text(p)
}

fn finish(e: &Arc<Exec>, me: usize, result: Result<(), Box<dyn Any + Send>>) {
    let mut st = lock(e);
    if let Err(p) = result {
        if !p.is::<Aborted>() {
            let text = format!("panic in thread {}: {}", st.threads[me].name, panic_text(&*p));
            st.failure.get_or_insert(text);
            st.aborted = true;
        }
    }
    st.threads[me].state = ThState::Done;
    st.threads[me].next = Touch::All;
    st.progress += 1;
    st.live -= 1;
    if st.aborted {
        Exec::wake_all(&st);
    } else {
        e.pick(&mut st, "exit");
    }
    e.end.notify_all();
}

/// Handle of a thread spawned in scheduled mode.
pub struct Handle<T> {
    exec: Arc<Exec>,
    tid: usize,
    slot: Arc<Mutex<Option<T>>>,
}

impl<T> Handle<T> {
    pub fn is_finished(&self) -> bool {
        point("is_finished");
        lock(&self.exec).threads[self.tid].state == ThState::Done
    }

    /// Wait for the thread; None if it panicked or the execution was aborted.
    pub fn join(self) -> Option<T> {
        loop {
            point("join");
            if lock(&self.exec).threads[self.tid].state == ThState::Done {
                return self.slot.lock().unwrap().take();
            }
            wait_progress("join");
        }
    }
}

type Work = Box<dyn FnOnce() + Send>;
type Pool = Arc<Mutex<Vec<::std::sync::mpsc::Sender<Work>>>>;
thread_local! {
    static TAG: Cell<usize> = const { Cell::new(0) };
}
/// A number a worker hands on to the threads started in its executions.
pub fn tag() -> usize {
    TAG.try_with(|t| t.get()).unwrap_or(0)
}
pub fn set_tag(tag: usize) {
    TAG.with(|t| t.set(tag));
}
/// The tag of a thread that is not running anything under test: what it allocates is the explorer's own.
pub const NO_TAG: usize = usize::MAX;

/// Run a part of the explorer itself, whose memory is nobody's.
pub fn untagged<T>(f: impl FnOnce() -> T) -> T {
    let before = tag();
    set_tag(NO_TAG);
    let v = f();
    set_tag(before);
    v
}

thread_local! {
    /// Idle threads, shared by a worker and the threads it started.
    static POOL: RefCell<Pool> = RefCell::new(Pool::default());
    static ME: RefCell<Option<::std::sync::mpsc::Sender<Work>>> = const { RefCell::new(None) };
}

/// The calling thread will take on other work when it is done, so that which threads there are is the same each time.
fn retire() {
    set_tag(NO_TAG);
    let Some(me) = ME.with(|m| m.borrow().clone()) else { return };
    POOL.with(|p| p.borrow().lock().unwrap().push(me));
}

/// Run on an idle thread, or a new one.
fn run_on_pool(work: Work) {
    let pool = POOL.with(|p| Arc::clone(&p.borrow()));
    let idle = pool.lock().unwrap().pop();
    let idle = idle.unwrap_or_else(|| {
        let (tx, rx) = ::std::sync::mpsc::channel::<Work>();
        let (pool, me) = (Arc::clone(&pool), tx.clone());
        ::std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                set_tag(NO_TAG);
                POOL.with(|p| *p.borrow_mut() = Arc::clone(&pool));
                ME.with(|m| *m.borrow_mut() = Some(me));
                while let Ok(work) = rx.recv() {
                    work();
                    set_role(Role::Control);
                }
            })
            .expect("spawn");
        tx
    });
    let _ = idle.send(work);
}

/// Spawn a thread into the running scheduled execution.
pub fn spawn<T: Send + 'static>(name: &str, role: Role, f: impl FnOnce() -> T + Send + 'static) -> Handle<T> {
    let (e, _) = sched().expect("mc::spawn outside a scheduled execution");
    let slot = untagged(|| Arc::new(Mutex::new(None)));
    let tid = untagged(|| {
        let mut st = lock(&e);
        let p = st.progress;
        st.threads.push(Th::new(name, p));
        st.live += 1;
        st.progress += 1;
        st.threads.len() - 1
    });
    let (e2, slot2) = (Arc::clone(&e), Arc::clone(&slot));
    let tag = tag();
    untagged(|| {
        run_on_pool(Box::new(move || {
            SCHED.with(|s| *s.borrow_mut() = Some((Arc::clone(&e2), tid)));
            set_role(role);
            let go = {
                let st = lock(&e2);
                e2.wait_turn(st, tid)
            };
            set_tag(tag);
            let r = if go {
                catch_unwind(AssertUnwindSafe(|| {
                    let v = f();
                    *slot2.lock().unwrap() = Some(v);
                }))
            } else {
                // the closure is dropped here, outside the schedule
                drop(f);
                Err(Box::new(Aborted) as Box<dyn Any + Send>)
            };
            set_tag(NO_TAG);
            drop(slot2);
            SCHED.with(|s| *s.borrow_mut() = None);
            retire();
            finish(&e2, tid, r);
        }))
    });
    touch("spawn", Touch::Nothing);
    Handle { exec: e, tid, slot }
}

/// Run one execution of `body` (thread 0) following the choices in `prefix`, then choice 0 at every point.
pub fn run_scheduled<T: Send + 'static>(
    prefix: &[u32],
    seed: u32,
    late_sleepers: bool,
    horizon: usize,
    body: impl FnOnce() -> T,
) -> Run<T> {
    let e = Arc::new(Exec {
        st: Mutex::new(St {
            threads: vec![Th::new("control", 0)],
            current: 0,
            prefix: prefix.to_vec(),
            trace: Vec::with_capacity(256),
            progress: 0,
            aborted: false,
            failure: None,
            horizon,
            live: 1,
        }),
        end: Condvar::new(),
        statics: Mutex::new(Statics::default()),
        seed,
        late_sleepers,
    });
    SCHED.with(|s| *s.borrow_mut() = Some((Arc::clone(&e), 0)));
    set_role(Role::Control);
    let mut value = None;
    let r = catch_unwind(AssertUnwindSafe(|| {
        value = Some(body());
    }));
    SCHED.with(|s| *s.borrow_mut() = None);
    finish(&e, 0, r);
    let mut st = lock(&e);
    while st.live > 0 {
        st = match e.end.wait(st) {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
    }
    let used = st.prefix.len().min(st.trace.len());
    if used < st.prefix.len() && st.failure.is_none() {
        st.failure = Some("replay divergence: the execution ended before its recorded prefix".into());
    }
    Run { trace: ::std::mem::take(&mut st.trace), failure: st.failure.take(), value, progress: st.progress }
}
