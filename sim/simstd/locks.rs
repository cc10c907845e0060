use crate::sched::{self, ObjId, Op};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use std::time::Duration;

// ------------------------------------------------------------------ Mutex
pub struct Mutex<T: ?Sized> {
    id: ObjId,
    inner: std::sync::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    g: Option<std::sync::MutexGuard<'a, T>>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { id: ObjId::new(), inner: std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn wrap<'a>(&'a self, r: LockResult<std::sync::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
        match r {
            Ok(g) => Ok(MutexGuard { lock: self, g: Some(g) }),
            Err(e) => Err(PoisonError::new(MutexGuard { lock: self, g: Some(e.into_inner()) })),
        }
    }
    fn acquire(&self) -> LockResult<MutexGuard<'_, T>> {
        loop {
            match self.inner.try_lock() {
                Ok(g) => return self.wrap(Ok(g)),
                Err(TryLockError::Poisoned(e)) => return self.wrap(Err(e)),
                Err(TryLockError::WouldBlock) => sched::block(self.id.get()),
            }
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if !sched::in_sim() {
            return self.wrap(self.inner.lock());
        }
        sched::point(Op::Lock, self.id.get());
        self.acquire()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::point_attempt(Op::Lock, self.id.get());
        match sched::attempted(self.inner.try_lock()) {
            Ok(g) => Ok(MutexGuard { lock: self, g: Some(g) }),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { lock: self, g: Some(e.into_inner()) })))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.g = None;
        sched::wake(self.lock.id.get());
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

// ------------------------------------------------------------------ RwLock
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{RwLockReadGuard as HeldRead, RwLockWriteGuard as HeldWrite};
pub struct RwLock<T: ?Sized> {
    id: ObjId,
    /// as in std, a reader waits as long as others read and a writer waits: whoever reads twice at a time may wait forever
    readers: std::sync::atomic::AtomicUsize,
    writers_waiting: std::sync::atomic::AtomicUsize,
    inner: std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
    g: Option<std::sync::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
    g: Option<std::sync::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock {
            id: ObjId::new(),
            readers: std::sync::atomic::AtomicUsize::new(0),
            writers_waiting: std::sync::atomic::AtomicUsize::new(0),
            inner: std::sync::RwLock::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
macro_rules! rw_side {
    ($lock:ident, $try:ident, $guard:ident, $new:ident, $held:ident, $op:expr) => {
        fn $new<'a>(&'a self, g: $held<'a, T>) -> $guard<'a, T> {
            if $op == Op::Read {
                self.readers.fetch_add(1, SeqCst);
            }
            $guard { lock: self, g: Some(g) }
        }
        pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
            if !sched::in_sim() {
                return match self.inner.$lock() {
                    Ok(g) => Ok(self.$new(g)),
                    Err(e) => Err(PoisonError::new(self.$new(e.into_inner()))),
                };
            }
            sched::point($op, self.id.get());
            loop {
                if !self.must_wait($op) {
                    match self.inner.$try() {
                        Ok(g) => return Ok(self.$new(g)),
                        Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(self.$new(e.into_inner()))),
                        Err(TryLockError::WouldBlock) => {}
                    }
                }
                if $op == Op::Write {
                    self.writers_waiting.fetch_add(1, SeqCst);
                }
                sched::block(self.id.get());
                if $op == Op::Write {
                    self.writers_waiting.fetch_sub(1, SeqCst);
                }
            }
        }
        pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
            sched::point_attempt($op, self.id.get());
            if self.must_wait($op) {
                return Err(TryLockError::WouldBlock);
            }
            match sched::attempted(self.inner.$try()) {
                Ok(g) => Ok(self.$new(g)),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(self.$new(e.into_inner())))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
    };
}
impl<T: ?Sized> RwLock<T> {
    rw_side!(read, try_read, RwLockReadGuard, new_read, HeldRead, Op::Read);
    rw_side!(write, try_write, RwLockWriteGuard, new_write, HeldWrite, Op::Write);
    fn must_wait(&self, op: Op) -> bool {
        op == Op::Read && self.writers_waiting.load(SeqCst) > 0 && self.readers.load(SeqCst) > 0
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.g = None;
        self.lock.readers.fetch_sub(1, SeqCst);
        sched::wake(self.lock.id.get());
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.g = None;
        sched::wake(self.lock.id.get());
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}

// ------------------------------------------------------------------ Condvar
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
pub struct Condvar {
    id: ObjId,
    inner: std::sync::Condvar,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { id: ObjId::new(), inner: std::sync::Condvar::new() }
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.lock;
        if !sched::in_sim() {
            let inner = g.g.take().unwrap();
            std::mem::forget(g);
            return m.wrap(self.inner.wait(inner));
        }
        sched::point(Op::Wait, self.id.get());
        drop(g);
        sched::block(self.id.get());
        m.acquire()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let m = g.lock;
        if !sched::in_sim() {
            let inner = g.g.take().unwrap();
            std::mem::forget(g);
            return match self.inner.wait_timeout(inner, d) {
                Ok((g, t)) => Ok((MutexGuard { lock: m, g: Some(g) }, WaitTimeoutResult(t.timed_out()))),
                Err(e) => {
                    let (g, t) = e.into_inner();
                    Err(PoisonError::new((MutexGuard { lock: m, g: Some(g) }, WaitTimeoutResult(t.timed_out()))))
                }
            };
        }
        sched::point(Op::Wait, self.id.get());
        drop(g);
        let to = sched::block_for(self.id.get(), d.as_nanos() as u64);
        match m.acquire() {
            Ok(g) => Ok((g, WaitTimeoutResult(to))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(to)))),
        }
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut f: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let start = crate::time::Instant::now();
        loop {
            if !f(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let left = match d.checked_sub(start.elapsed()) {
                Some(l) => l,
                None => return Ok((g, WaitTimeoutResult(true))),
            };
            g = self.wait_timeout(g, left)?.0;
        }
    }
    pub fn notify_one(&self) {
        sched::point(Op::Notify, self.id.get());
        sched::wake_one(self.id.get());
        self.inner.notify_one();
    }
    pub fn notify_all(&self) {
        sched::point(Op::Notify, self.id.get());
        sched::wake(self.id.get());
        self.inner.notify_all();
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}

// ------------------------------------------------------------------ Barrier
pub struct Barrier {
    m: Mutex<(usize, usize)>,
    c: Condvar,
    n: usize,
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { m: Mutex::new((0, 0)), c: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let generation = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == generation {
                g = self.c.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.c.notify_all();
            BarrierWaitResult(true)
        }
    }
}
impl fmt::Debug for Barrier {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Barrier")
    }
}

// ------------------------------------------------------------------ one-time initialisation
// Initialisers run without preemption, so that no simulated thread ever waits in a real lock.
/// Keeps a second thread from waiting in std for an initialisation that is itself waiting for other threads: it waits in the
/// simulator instead. Nothing is logged unless that happens: an initialisation happens once per process, so no other event may
/// depend on whether it has happened already.
struct Gate {
    id: ObjId,
    busy: std::sync::atomic::AtomicBool,
}
struct Entered<'a>(&'a Gate, sched::NoPreempt);
impl Gate {
    const fn new() -> Gate {
        Gate { id: ObjId::new(), busy: std::sync::atomic::AtomicBool::new(false) }
    }
    fn enter(&self) -> Option<Entered<'_>> {
        if !sched::in_sim() {
            return None;
        }
        while self.busy.swap(true, SeqCst) {
            sched::block(self.id.get());
        }
        Some(Entered(self, sched::no_preempt()))
    }
}
impl Drop for Entered<'_> {
    fn drop(&mut self) {
        self.0.busy.store(false, std::sync::atomic::Ordering::SeqCst);
        sched::wake(self.0.id.get());
    }
}
pub use std::sync::OnceState;
pub struct Once(std::sync::Once, Gate);
impl Once {
    pub const fn new() -> Self {
        Once(std::sync::Once::new(), Gate::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        sched::point(Op::Other, 0);
        let _n = self.1.enter();
        self.0.call_once(f)
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        sched::point(Op::Other, 0);
        let _n = self.1.enter();
        self.0.call_once_force(f)
    }
    pub fn is_completed(&self) -> bool {
        self.0.is_completed()
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
pub struct OnceLock<T>(std::sync::OnceLock<T>, Gate);
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock(std::sync::OnceLock::new(), Gate::new())
    }
    pub fn get(&self) -> Option<&T> {
        self.0.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.0.get_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        sched::point(Op::Other, 0);
        let _n = self.1.enter();
        self.0.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        sched::point(Op::Other, 0);
        let _n = self.1.enter();
        self.0.get_or_init(f)
    }
    pub fn into_inner(self) -> Option<T> {
        self.0.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.0.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        OnceLock(self.0.clone(), Gate::new())
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        OnceLock(std::sync::OnceLock::from(t), Gate::new())
    }
}
pub struct LazyLock<T, F = fn() -> T>(std::sync::LazyLock<T, F>, Gate);
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock(std::sync::LazyLock::new(f), Gate::new())
    }
    pub fn force(this: &Self) -> &T {
        // which thread gets to initialise first is a scheduling decision, but initialisation happens once per
        // process, so no event may depend on whether it has happened already
        sched::point(Op::Other, 0);
        let _n = this.1.enter();
        std::sync::LazyLock::force(&this.0)
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        LazyLock(std::sync::LazyLock::default(), Gate::new())
    }
}
