//! `std::thread` with spawn, join and sleep under the explorer's control.

pub use ::std::thread::*;

use crate::mc;
use ::std::io;
use ::std::sync::{Arc, Mutex};
use ::std::time::Duration;

enum Kind<T> {
    Real(::std::thread::JoinHandle<T>),
    Sched(mc::Handle<T>),
    /// Inline mode: the result is there once the job ran.
    Inline(Arc<Mutex<Option<T>>>),
}

pub struct JoinHandle<T>(Kind<T>);

impl<T> JoinHandle<T> {
    pub fn join(self) -> ::std::thread::Result<T> {
        match self.0 {
            Kind::Real(h) => h.join(),
            Kind::Sched(h) => match h.join() {
                Some(v) => Ok(v),
                None => Err(Box::new("thread panicked")),
            },
            Kind::Inline(slot) => {
                if slot.lock().unwrap().is_none() {
                    mc::run_background();
                }
                let v = slot.lock().unwrap().take();
                v.ok_or_else(|| Box::new("thread did not finish") as Box<dyn ::std::any::Any + Send>)
            }
        }
    }

    pub fn is_finished(&self) -> bool {
        match &self.0 {
            Kind::Real(h) => h.is_finished(),
            Kind::Sched(h) => h.is_finished(),
            Kind::Inline(s) => s.lock().unwrap().is_some(),
        }
    }
}

fn start<F, T>(f: F, name: Option<String>) -> io::Result<JoinHandle<T>>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    if mc::in_sched() {
        return Ok(JoinHandle(Kind::Sched(mc::spawn(name.as_deref().unwrap_or("background"), mc::Role::Background, f))));
    }
    if mc::in_inline() {
        let slot = Arc::new(Mutex::new(None));
        let out = Arc::clone(&slot);
        mc::push_background(Box::new(move || {
            let v = f();
            *out.lock().unwrap() = Some(v);
        }));
        return Ok(JoinHandle(Kind::Inline(slot)));
    }
    let mut b = ::std::thread::Builder::new();
    if let Some(n) = name {
        b = b.name(n);
    }
    b.spawn(f).map(|h| JoinHandle(Kind::Real(h)))
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    start(f, None).expect("failed to spawn thread")
}

#[derive(Default, Debug)]
pub struct Builder {
    name: Option<String>,
}

impl Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn name(mut self, name: String) -> Self {
        self.name = Some(name);
        self
    }
    pub fn stack_size(self, _size: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        start(f, self.name)
    }
}

/// Time is abstract: a sleeping thread runs again only after another thread has changed shared state (until
/// then another look would find exactly what the last one found).
pub fn sleep(duration: Duration) {
    if mc::in_sched() {
        mc::sleep("sleep");
    } else if mc::in_inline() {
        if mc::role() == mc::Role::Background {
            mc::would_block("a background thread sleeps although the engine is gone: it never ends");
        }
        mc::look("sleep", 0);
    } else {
        ::std::thread::sleep(duration);
    }
}

pub fn yield_now() {
    if mc::in_sched() {
        mc::point("yield");
    } else {
        mc::look("a loop that yields", 1000);
        ::std::thread::yield_now();
    }
}

/// Nothing but another thread ends it.
pub fn park() {
    if mc::in_sched() {
        mc::sleep("park");
    } else if mc::in_inline() {
        mc::look("park", 0);
    } else {
        ::std::thread::park();
    }
}

pub fn park_timeout(duration: Duration) {
    if mc::active() {
        park();
    } else {
        ::std::thread::park_timeout(duration);
    }
}
