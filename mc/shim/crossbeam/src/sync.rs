//! `std::sync` with atomics (and mutexes) as scheduling points. Statics are per execution.

pub use ::std::sync::*;

#[cfg(not(mc_std_sync))]
pub use locks::*;

#[cfg(mc_std_sync)]
pub mod atomic {
    pub use ::std::sync::atomic::*;
}

/// Locks whose contention the explorer sees: taking one is a scheduling point before and after, and a thread that
/// finds it taken waits for another thread's progress.
#[cfg(not(mc_std_sync))]
mod locks {
    use crate::mc;
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
    use ::std::time::Duration;

    #[derive(Default)]
    pub struct Mutex<T: ?Sized> {
        holder: mc::Holder,
        real: ::std::sync::Mutex<T>,
    }

    pub struct MutexGuard<'a, T: ?Sized> {
        lock: &'a Mutex<T>,
        real: Option<::std::sync::MutexGuard<'a, T>>,
    }

    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Self { holder: mc::Holder::new(), real: ::std::sync::Mutex::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.real.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn addr(&self) -> usize {
            &self.holder as *const _ as usize
        }
        fn guard<'a>(&'a self, real: ::std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
            self.holder.taken();
            mc::effect();
            mc::touch("locked", mc::Touch::Write(self.addr()));
            MutexGuard { lock: self, real: Some(real) }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            loop {
                match self.try_lock() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(p)) => return Err(p),
                    Err(TryLockError::WouldBlock) => {
                        if !mc::active() {
                            return match self.real.lock() {
                                Ok(g) => Ok(self.guard(g)),
                                Err(p) => Err(PoisonError::new(self.guard(p.into_inner()))),
                            };
                        }
                        self.holder.contended("lock held by another thread");
                    }
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            mc::touch("lock", mc::Touch::Write(self.addr()));
            match self.real.try_lock() {
                Ok(g) => Ok(self.guard(g)),
                Err(TryLockError::Poisoned(p)) => {
                    Err(TryLockError::Poisoned(PoisonError::new(self.guard(p.into_inner()))))
                }
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.real.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.real.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.real.clear_poison()
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.real.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.real.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.real.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            if self.real.take().is_some() {
                mc::effect();
            }
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    #[derive(Default)]
    pub struct RwLock<T: ?Sized> {
        holder: mc::Holder,
        real: ::std::sync::RwLock<T>,
    }
    pub struct RwLockReadGuard<'a, T: ?Sized>(Option<::std::sync::RwLockReadGuard<'a, T>>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(Option<::std::sync::RwLockWriteGuard<'a, T>>);

    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            Self { holder: mc::Holder::new(), real: ::std::sync::RwLock::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.real.into_inner()
        }
    }
    macro_rules! side {
        ($get:ident, $try:ident, $guard:ident, $touch:ident) => {
            pub fn $get(&self) -> LockResult<$guard<'_, T>> {
                loop {
                    match self.$try() {
                        Ok(g) => return Ok(g),
                        Err(TryLockError::Poisoned(p)) => return Err(p),
                        Err(TryLockError::WouldBlock) => {
                            if !mc::active() {
                                return match self.real.$get() {
                                    Ok(g) => Ok($guard(Some(g))),
                                    Err(p) => Err(PoisonError::new($guard(Some(p.into_inner())))),
                                };
                            }
                            self.holder.contended("lock held by another thread");
                        }
                    }
                }
            }
            pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
                mc::touch("lock", mc::Touch::$touch(&self.holder as *const _ as usize));
                let g = match self.real.$try() {
                    Ok(g) => Ok($guard(Some(g))),
                    Err(TryLockError::Poisoned(p)) => {
                        Err(TryLockError::Poisoned(PoisonError::new($guard(Some(p.into_inner())))))
                    }
                    Err(TryLockError::WouldBlock) => return Err(TryLockError::WouldBlock),
                };
                self.holder.taken();
                mc::effect();
                mc::touch("locked", mc::Touch::$touch(&self.holder as *const _ as usize));
                g
            }
        };
    }
    impl<T: ?Sized> RwLock<T> {
        side!(read, try_read, RwLockReadGuard, Write);
        side!(write, try_write, RwLockWriteGuard, Write);
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.real.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.real.is_poisoned()
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.real.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.0 = None;
            mc::effect();
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            self.0 = None;
            mc::effect();
        }
    }

    /// Woken by another thread's progress, as if by a spurious wake-up.
    #[derive(Default, Debug)]
    pub struct Condvar(::std::sync::Condvar);
    pub struct WaitTimeoutResult(bool);
    impl WaitTimeoutResult {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }
    impl Condvar {
        pub const fn new() -> Self {
            Self(::std::sync::Condvar::new())
        }
        pub fn notify_one(&self) {
            mc::effect();
            self.0.notify_one()
        }
        pub fn notify_all(&self) {
            mc::effect();
            self.0.notify_all()
        }
        pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let lock = g.lock;
            if mc::active() {
                drop(g);
                if mc::in_sched() {
                    if mc::role() != mc::Role::Background {
                        mc::would_block("wait on a condition");
                    }
                    mc::wait_progress("wait");
                } else {
                    mc::would_block("wait on a condition");
                }
                return lock.lock();
            }
            match self.0.wait(g.real.take().unwrap()) {
                Ok(r) => Ok(MutexGuard { lock, real: Some(r) }),
                Err(p) => Err(PoisonError::new(MutexGuard { lock, real: Some(p.into_inner()) })),
            }
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
            &self,
            mut g: MutexGuard<'a, T>,
            mut f: F,
        ) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        pub fn wait_timeout<'a, T>(
            &self,
            g: MutexGuard<'a, T>,
            d: Duration,
        ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            let lock = g.lock;
            drop(g);
            crate::thread::sleep(d);
            match lock.lock() {
                Ok(g) => Ok((g, WaitTimeoutResult(true))),
                Err(p) => Err(PoisonError::new((p.into_inner(), WaitTimeoutResult(true)))),
            }
        }
    }
}

#[cfg(not(mc_std_sync))]
pub mod atomic {
    pub use ::std::sync::atomic::*;

    use crate::mc;

    macro_rules! atomic {
        ($name:ident, $t:ty) => {
            #[derive(Default)]
            pub struct $name(::std::sync::atomic::$name);

            impl $name {
                pub const fn new(v: $t) -> Self {
                    Self(::std::sync::atomic::$name::new(v))
                }
                #[inline]
                fn cell(&self) -> &::std::sync::atomic::$name {
                    let addr = self as *const Self as usize;
                    match mc::static_slot(addr, || ::std::sync::atomic::$name::new(self.0.load(Ordering::SeqCst))) {
                        Some(p) => unsafe { &*p },
                        None => &self.0,
                    }
                }
                pub fn load(&self, o: Ordering) -> $t {
                    mc::touch("load", mc::Touch::Read(self as *const Self as usize));
                    self.cell().load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    mc::touch("store", mc::Touch::Write(self as *const Self as usize));
                    self.cell().store(v, o);
                    mc::effect();
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    mc::touch("swap", mc::Touch::Write(self as *const Self as usize));
                    let r = self.cell().swap(v, o);
                    mc::effect();
                    r
                }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    mc::touch("compare_exchange", mc::Touch::Write(self as *const Self as usize));
                    let r = self.cell().compare_exchange(a, b, s, f);
                    if r.is_ok() {
                        mc::effect();
                    }
                    r
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    self.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self,
                    s: Ordering,
                    f: Ordering,
                    g: F,
                ) -> Result<$t, $t> {
                    mc::touch("fetch_update", mc::Touch::Write(self as *const Self as usize));
                    let r = self.cell().fetch_update(s, f, g);
                    mc::effect();
                    r
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
            impl ::std::fmt::Debug for $name {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    macro_rules! arith {
        ($name:ident, $t:ty, $($m:ident),*) => {
            impl $name {
                $(pub fn $m(&self, v: $t, o: Ordering) -> $t {
                    mc::touch(stringify!($m), mc::Touch::Write(self as *const Self as usize));
                    let r = self.cell().$m(v, o);
                    mc::effect();
                    r
                })*
            }
        };
    }
    macro_rules! int {
        ($($name:ident $t:ty),*) => { $(
            atomic!($name, $t);
            arith!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
        )* };
    }
    int!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32,
         AtomicU16 u16, AtomicI16 i16, AtomicU8 u8, AtomicI8 i8);
    atomic!(AtomicBool, bool);
    arith!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
}
