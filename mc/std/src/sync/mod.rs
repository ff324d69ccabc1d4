pub mod atomic;

pub use ::std::sync::*;

use ::std::{
    fmt,
    ops::{Deref, DerefMut},
    time::Duration,
};

fn addr<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const u8 as usize
}

fn map<A, B>(r: LockResult<A>, f: impl FnOnce(A) -> B) -> LockResult<B> {
    match r {
        Ok(a) => Ok(f(a)),
        Err(e) => Err(PoisonError::new(f(e.into_inner()))),
    }
}

/// `Ok(Some)`: taken; `Ok(None)`: busy
fn attempt<G>(r: TryLockResult<G>) -> Option<LockResult<G>> {
    match r {
        Ok(g) => Some(Ok(g)),
        Err(TryLockError::Poisoned(e)) => Some(Err(e)),
        Err(TryLockError::WouldBlock) => None,
    }
}

// ---------------------------------------------------------------- Mutex

#[derive(Default)]
pub struct Mutex<T: ?Sized> {
    // gives every mutex its own address
    id: u8,
    inner: ::std::sync::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    guard: Option<::std::sync::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { id: 0, inner: ::std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    fn guard<'a>(&'a self, g: ::std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        MutexGuard { lock: self, guard: Some(g) }
    }
    fn take(&self) -> LockResult<MutexGuard<'_, T>> {
        if !mc_sched::controlled() {
            return map(self.inner.lock(), |g| self.guard(g));
        }
        loop {
            match attempt(self.inner.try_lock()) {
                Some(r) => return map(r, |g| self.guard(g)),
                None => {
                    mc_sched::block(addr(&self.id), false);
                }
            }
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        mc_sched::point("mutex lock");
        self.take()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        mc_sched::point("mutex try_lock");
        match self.inner.try_lock() {
            Ok(g) => Ok(self.guard(g)),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(self.guard(e.into_inner())))),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.guard.as_ref().unwrap()
    }
}

impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.guard.as_mut().unwrap()
    }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if self.guard.take().is_some() {
            mc_sched::wake(addr(&self.lock.id));
            mc_sched::point("unlocked");
        }
    }
}

// ---------------------------------------------------------------- RwLock

#[derive(Default)]
pub struct RwLock<T: ?Sized> {
    id: u8,
    /// writers in line: like in the real one, no new reader overtakes them
    waiting: ::std::sync::atomic::AtomicUsize,
    inner: ::std::sync::RwLock<T>,
}

pub struct RwLockReadGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    guard: Option<::std::sync::RwLockReadGuard<'a, T>>,
}

pub struct RwLockWriteGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    guard: Option<::std::sync::RwLockWriteGuard<'a, T>>,
}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { id: 0, waiting: ::std::sync::atomic::AtomicUsize::new(0), inner: ::std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> RwLock<T> {
    fn r<'a>(&'a self, g: ::std::sync::RwLockReadGuard<'a, T>) -> RwLockReadGuard<'a, T> {
        RwLockReadGuard { lock: self, guard: Some(g) }
    }
    fn w<'a>(&'a self, g: ::std::sync::RwLockWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
        RwLockWriteGuard { lock: self, guard: Some(g) }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        mc_sched::point("read lock");
        if !mc_sched::controlled() {
            return map(self.inner.read(), |g| self.r(g));
        }
        loop {
            if self.waiting.load(::std::sync::atomic::Ordering::SeqCst) == 0 {
                if let Some(r) = attempt(self.inner.try_read()) {
                    return map(r, |g| self.r(g));
                }
            }
            mc_sched::block(addr(&self.id), false);
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        mc_sched::point("write lock");
        if !mc_sched::controlled() {
            return map(self.inner.write(), |g| self.w(g));
        }
        loop {
            match attempt(self.inner.try_write()) {
                Some(r) => return map(r, |g| self.w(g)),
                None => {
                    self.waiting.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst);
                    mc_sched::block(addr(&self.id), false);
                    self.waiting.fetch_sub(1, ::std::sync::atomic::Ordering::SeqCst);
                }
            }
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        mc_sched::point("try_read");
        match self.inner.try_read() {
            Ok(g) => Ok(self.r(g)),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(self.r(e.into_inner())))),
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        mc_sched::point("try_write");
        match self.inner.try_write() {
            Ok(g) => Ok(self.w(g)),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(self.w(e.into_inner())))),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
}

impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

macro_rules! rw_guard {
    ($g:ident) => {
        impl<T: ?Sized> Deref for $g<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.guard.as_ref().unwrap()
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $g<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
        impl<T: ?Sized> Drop for $g<'_, T> {
            fn drop(&mut self) {
                if self.guard.take().is_some() {
                    mc_sched::wake(addr(&self.lock.id));
            mc_sched::point("unlocked");
                }
            }
        }
    };
}
rw_guard!(RwLockReadGuard);
rw_guard!(RwLockWriteGuard);

impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.guard.as_mut().unwrap()
    }
}

// ---------------------------------------------------------------- Condvar

#[derive(Default)]
pub struct Condvar {
    id: u8,
    inner: ::std::sync::Condvar,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);

impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar { id: 0, inner: ::std::sync::Condvar::new() }
    }

    fn park<'a, T>(&self, mut g: MutexGuard<'a, T>, timeout: Option<Duration>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let lock = g.lock;
        if !mc_sched::controlled() {
            let inner = g.guard.take().unwrap();
            return match timeout {
                None => (map(self.inner.wait(inner), |g| lock.guard(g)), false),
                Some(d) => match self.inner.wait_timeout(inner, d) {
                    Ok((g, t)) => (Ok(lock.guard(g)), t.timed_out()),
                    Err(e) => {
                        let (g, t) = e.into_inner();
                        (Err(PoisonError::new(lock.guard(g))), t.timed_out())
                    }
                },
            };
        }
        drop(g);
        let woken = mc_sched::block(addr(&self.id), timeout.is_some());
        (lock.take(), !woken)
    }

    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        mc_sched::point("condvar wait");
        self.park(g, None).0
    }

    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }

    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        mc_sched::point("condvar wait");
        let (g, t) = self.park(g, Some(d));
        map(g, |g| (g, WaitTimeoutResult(t)))
    }

    pub fn notify_one(&self) {
        mc_sched::point("notify");
        self.inner.notify_one();
        mc_sched::wake_one(addr(&self.id));
    }

    pub fn notify_all(&self) {
        mc_sched::point("notify");
        self.inner.notify_all();
        mc_sched::wake(addr(&self.id));
    }
}

impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}
