//! Multi-producer multi-consumer channels with crossbeam-channel's API.

use crate::mc;
use ::std::collections::VecDeque;
use ::std::sync::{Arc, Condvar, Mutex, MutexGuard};
use ::std::time::Duration;

pub use crossbeam_utils::sync as _sync;

macro_rules! err {
    ($name:ident, $text:expr) => {
        #[derive(PartialEq, Eq, Clone, Copy)]
        pub struct $name<T>(pub T);
        impl<T> ::std::fmt::Debug for $name<T> {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                write!(f, concat!(stringify!($name), "(..)"))
            }
        }
        impl<T> ::std::fmt::Display for $name<T> {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                write!(f, $text)
            }
        }
        impl<T: Send> ::std::error::Error for $name<T> {}
        impl<T> $name<T> {
            pub fn into_inner(self) -> T {
                self.0
            }
        }
    };
}
err!(SendError, "sending on a disconnected channel");

#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Disconnected(T),
}
impl<T> TrySendError<T> {
    pub fn into_inner(self) -> T {
        match self {
            Self::Full(t) | Self::Disconnected(t) => t,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, Self::Full(_))
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, Self::Disconnected(_))
    }
}
impl<T> ::std::fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        match self {
            Self::Full(_) => write!(f, "Full(..)"),
            Self::Disconnected(_) => write!(f, "Disconnected(..)"),
        }
    }
}
impl<T> ::std::fmt::Display for TrySendError<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl<T: Send> ::std::error::Error for TrySendError<T> {}

#[derive(PartialEq, Eq, Clone, Copy)]
pub enum SendTimeoutError<T> {
    Timeout(T),
    Disconnected(T),
}
impl<T> ::std::fmt::Debug for SendTimeoutError<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        write!(f, "SendTimeoutError(..)")
    }
}

macro_rules! plain_err {
    ($(#[$m:meta])* $name:ident { $($v:ident),* }) => {
        #[derive(PartialEq, Eq, Clone, Copy, Debug)]
        pub enum $name { $($v),* }
        impl ::std::fmt::Display for $name {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "{self:?}") }
        }
        impl ::std::error::Error for $name {}
    };
}
plain_err!(TryRecvError { Empty, Disconnected });
plain_err!(RecvTimeoutError { Timeout, Disconnected });
impl TryRecvError {
    pub fn is_empty(&self) -> bool {
        *self == Self::Empty
    }
    pub fn is_disconnected(&self) -> bool {
        *self == Self::Disconnected
    }
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
impl ::std::fmt::Display for RecvError {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        write!(f, "receiving on an empty and disconnected channel")
    }
}
impl ::std::error::Error for RecvError {}

struct Inner<T> {
    q: VecDeque<T>,
    cap: Option<usize>,
    senders: usize,
    receivers: usize,
}

struct Chan<T> {
    inner: Mutex<Inner<T>>,
    cv: Condvar,
}

impl<T> Chan<T> {
    fn lock(&self) -> MutexGuard<'_, Inner<T>> {
        match self.inner.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }

    /// Called when an operation found the channel not ready.
    fn block<'a>(&'a self, g: MutexGuard<'a, Inner<T>>, what: &'static str) {
        if mc::in_sched() {
            drop(g);
            if mc::role() != mc::Role::Background {
                // it waits until another thread acts
                mc::would_block(what);
            }
            mc::wait_progress(what);
        } else if mc::in_inline() {
            drop(g);
            mc::would_block(what);
        } else {
            let _g = match self.cv.wait(g) {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
        }
    }

    fn changed(&self) {
        mc::effect();
        self.cv.notify_all();
    }
}

pub struct Sender<T> {
    chan: Arc<Chan<T>>,
}

pub struct Receiver<T> {
    chan: Arc<Chan<T>>,
}

fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let q = match cap {
        Some(n) => VecDeque::with_capacity(n.min(64)),
        None => VecDeque::with_capacity(64),
    };
    let chan = Arc::new(Chan { inner: Mutex::new(Inner { q, cap, senders: 1, receivers: 1 }), cv: Condvar::new() });
    (Sender { chan: Arc::clone(&chan) }, Receiver { chan })
}

pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    make(None)
}

/// A capacity of 0 (a rendezvous) is modelled as 1.
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    make(Some(cap.max(1)))
}

impl<T> Sender<T> {
    pub fn send(&self, msg: T) -> Result<(), SendError<T>> {
        loop {
            mc::touch("send", mc::Touch::Write(Arc::as_ptr(&self.chan) as usize));
            let mut g = self.chan.lock();
            if g.receivers == 0 {
                return Err(SendError(msg));
            }
            if g.cap.map_or(true, |c| g.q.len() < c) {
                mc::own(|| g.q.push_back(msg));
                drop(g);
                self.chan.changed();
                return Ok(());
            }
            self.chan.block(g, "send on a full channel");
        }
    }

    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        mc::touch("try_send", mc::Touch::Write(Arc::as_ptr(&self.chan) as usize));
        let mut g = self.chan.lock();
        if g.receivers == 0 {
            return Err(TrySendError::Disconnected(msg));
        }
        if g.cap.map_or(true, |c| g.q.len() < c) {
            mc::own(|| g.q.push_back(msg));
            drop(g);
            self.chan.changed();
            return Ok(());
        }
        Err(TrySendError::Full(msg))
    }

    pub fn send_timeout(&self, msg: T, _timeout: Duration) -> Result<(), SendTimeoutError<T>> {
        match self.try_send(msg) {
            Ok(()) => Ok(()),
            Err(TrySendError::Full(m)) => Err(SendTimeoutError::Timeout(m)),
            Err(TrySendError::Disconnected(m)) => Err(SendTimeoutError::Disconnected(m)),
        }
    }

    pub fn len(&self) -> usize {
        mc::touch("len", mc::Touch::Read(Arc::as_ptr(&self.chan) as usize));
        self.chan.lock().q.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        mc::touch("is_full", mc::Touch::Read(Arc::as_ptr(&self.chan) as usize));
        let g = self.chan.lock();
        g.cap.map_or(false, |c| g.q.len() >= c)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.chan.lock().cap
    }
    pub fn same_channel(&self, other: &Sender<T>) -> bool {
        Arc::ptr_eq(&self.chan, &other.chan)
    }
}

impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        mc::touch("try_recv", mc::Touch::Write(Arc::as_ptr(&self.chan) as usize));
        let mut g = self.chan.lock();
        match g.q.pop_front() {
            Some(m) => {
                drop(g);
                self.chan.changed();
                Ok(m)
            }
            None if g.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }

    pub fn recv(&self) -> Result<T, RecvError> {
        loop {
            mc::touch("recv", mc::Touch::Write(Arc::as_ptr(&self.chan) as usize));
            let mut g = self.chan.lock();
            match g.q.pop_front() {
                Some(m) => {
                    drop(g);
                    self.chan.changed();
                    return Ok(m);
                }
                None if g.senders == 0 => return Err(RecvError),
                None => self.chan.block(g, "receive on an empty channel"),
            }
        }
    }

    /// Time is abstract: an empty channel waits for another thread's progress once, then times out.
    pub fn recv_timeout(&self, timeout: Duration) -> Result<T, RecvTimeoutError> {
        match self.try_recv() {
            Ok(m) => return Ok(m),
            Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
            Err(TryRecvError::Empty) => (),
        }
        crate::thread::sleep(timeout);
        match self.try_recv() {
            Ok(m) => Ok(m),
            Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
            Err(TryRecvError::Empty) => Err(RecvTimeoutError::Timeout),
        }
    }

    pub fn len(&self) -> usize {
        mc::touch("len", mc::Touch::Read(Arc::as_ptr(&self.chan) as usize));
        self.chan.lock().q.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        mc::touch("is_full", mc::Touch::Read(Arc::as_ptr(&self.chan) as usize));
        let g = self.chan.lock();
        g.cap.map_or(false, |c| g.q.len() >= c)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.chan.lock().cap
    }
    pub fn same_channel(&self, other: &Receiver<T>) -> bool {
        Arc::ptr_eq(&self.chan, &other.chan)
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}

pub struct Iter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for TryIter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}

impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.chan.lock().senders += 1;
        Self { chan: Arc::clone(&self.chan) }
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.chan.lock().receivers += 1;
        Self { chan: Arc::clone(&self.chan) }
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        mc::touch("drop sender", mc::Touch::Write(Arc::as_ptr(&self.chan) as usize));
        let mut g = self.chan.lock();
        g.senders -= 1;
        let last = g.senders == 0;
        drop(g);
        if last {
            self.chan.changed();
        }
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        mc::touch("drop receiver", mc::Touch::Write(Arc::as_ptr(&self.chan) as usize));
        let mut g = self.chan.lock();
        g.receivers -= 1;
        let last = g.receivers == 0;
        let rest = if last { ::std::mem::take(&mut g.q) } else { VecDeque::new() };
        drop(g);
        if last {
            self.chan.changed();
        }
        drop(rest);
    }
}
impl<T> ::std::fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        write!(f, "Sender {{ .. }}")
    }
}
impl<T> ::std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        write!(f, "Receiver {{ .. }}")
    }
}
