use crate::sched::{self, Op};
use std::io;
use std::num::NonZero;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::time::Duration;

pub fn sleep(d: Duration) {
    if sched::in_sim() { sched::sleep(d.as_nanos() as u64) } else { std::thread::sleep(d) }
}
pub fn sleep_ms(ms: u32) {
    sleep(Duration::from_millis(ms as u64))
}
pub fn yield_now() {
    if sched::in_sim() { sched::point(Op::Yield, 0) } else { std::thread::yield_now() }
}
pub fn park() {
    if sched::in_sim() {
        // a legal spurious wake-up: `unpark` goes through std's Thread handle, which is not simulated
        sched::point(Op::Yield, 0)
    } else {
        std::thread::park()
    }
}
pub fn park_timeout(d: Duration) {
    if sched::in_sim() { sched::park(Some(d.as_nanos() as u64)) } else { std::thread::park_timeout(d) }
}
pub fn available_parallelism() -> io::Result<NonZero<usize>> {
    match sched::cpus() {
        Some(n) => Ok(NonZero::new(n.max(1)).unwrap()),
        None => std::thread::available_parallelism(),
    }
}

// ------------------------------------------------------------------ free threads
pub struct JoinHandle<T> {
    h: std::thread::JoinHandle<T>,
    tid: Option<u32>,
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        if let Some(t) = self.tid {
            sched::join_thread(t);
        }
        self.h.join()
    }
    pub fn thread(&self) -> &std::thread::Thread {
        self.h.thread()
    }
    pub fn is_finished(&self) -> bool {
        sched::point(Op::Other, 0);
        match self.tid.and_then(sched::thread_finished) {
            Some(f) => f,
            None => self.h.is_finished(),
        }
    }
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle")
    }
}
#[track_caller]
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder::default()
    }
    pub fn name(mut self, n: String) -> Builder {
        self.name = Some(n);
        self
    }
    pub fn stack_size(mut self, n: usize) -> Builder {
        self.stack = Some(n);
        self
    }
    fn real(self) -> std::thread::Builder {
        let mut b = std::thread::Builder::new();
        if let Some(n) = self.name {
            b = b.name(n);
        }
        if let Some(s) = self.stack {
            b = b.stack_size(s);
        }
        b
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        match sched::new_thread(0) {
            None => Ok(JoinHandle { h: self.real().spawn(f)?, tid: None }),
            Some(Err(e)) => Err(e),
            Some(Ok(tok)) => {
                let tid = tok.tid;
                let h = self.real().spawn(move || {
                    let _r = tok.start();
                    f()
                })?;
                Ok(JoinHandle { h, tid: Some(tid) })
            }
        }
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(
        self,
        scope: &'scope Scope<'scope, 'env>,
        f: F,
    ) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        match sched::new_thread(scope_id(scope)) {
            None => Ok(ScopedJoinHandle { h: self.real().spawn_scoped(&scope.inner, f)?, tid: None }),
            Some(Err(e)) => Err(e),
            Some(Ok(tok)) => {
                let tid = tok.tid;
                let h = self.real().spawn_scoped(&scope.inner, move || {
                    let _r = tok.start();
                    f()
                })?;
                Ok(ScopedJoinHandle { h, tid: Some(tid) })
            }
        }
    }
}

// ------------------------------------------------------------------ scoped threads
/// Same memory as `std::thread::Scope`; its identity in the simulation is kept in a thread-independent table.
#[repr(transparent)]
pub struct Scope<'scope, 'env: 'scope> {
    inner: std::thread::Scope<'scope, 'env>,
}
pub struct ScopedJoinHandle<'scope, T> {
    h: std::thread::ScopedJoinHandle<'scope, T>,
    tid: Option<u32>,
}

static SCOPES: std::sync::Mutex<Vec<(usize, u64)>> = std::sync::Mutex::new(Vec::new());
fn scope_id(s: &Scope<'_, '_>) -> u64 {
    let a = s as *const Scope<'_, '_> as usize;
    SCOPES.lock().unwrap().iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0)
}

#[track_caller]
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    std::thread::scope(|s| {
        let s: &Scope<'_, 'env> =
            unsafe { &*(s as *const std::thread::Scope<'_, 'env>).cast::<Scope<'_, 'env>>() };
        if !sched::in_sim() {
            return f(s);
        }
        let id = sched::new_scope();
        let addr = s as *const Scope<'_, 'env> as usize;
        SCOPES.lock().unwrap().push((addr, id));
        let r = catch_unwind(AssertUnwindSafe(|| f(s)));
        sched::join_scope(id);
        SCOPES.lock().unwrap().retain(|x| x.0 != addr);
        match r {
            Ok(v) => v,
            Err(p) => resume_unwind(p),
        }
    })
}
impl<'scope, 'env> Scope<'scope, 'env> {
    #[track_caller]
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Builder::new().spawn_scoped(self, f).expect("failed to spawn thread")
    }
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> std::thread::Result<T> {
        if let Some(t) = self.tid {
            sched::join_thread(t);
        }
        self.h.join()
    }
    pub fn thread(&self) -> &std::thread::Thread {
        self.h.thread()
    }
    pub fn is_finished(&self) -> bool {
        sched::point(Op::Other, 0);
        match self.tid.and_then(sched::thread_finished) {
            Some(f) => f,
            None => self.h.is_finished(),
        }
    }
}
impl<T> std::fmt::Debug for ScopedJoinHandle<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ScopedJoinHandle")
    }
}
