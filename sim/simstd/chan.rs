use crate::sched::{self, ObjId, Op};
use std::collections::VecDeque;
use std::fmt;
use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

struct St<T> {
    q: VecDeque<T>,
    senders: usize,
    rx: bool,
    cap: Option<usize>,
    /// values taken so far (a rendezvous sender waits for its value to be taken)
    taken: u64,
    sent: u64,
    waiting_rx: usize,
}
struct Chan<T> {
    id: ObjId,
    st: Mutex<St<T>>,
    cv: Condvar,
}
impl<T> Chan<T> {
    fn lock(&self) -> MutexGuard<'_, St<T>> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// wait for a change of state; the lock is not held on entry
    fn notify(&self) {
        self.cv.notify_all();
        sched::wake(self.id.get());
    }
    fn pause<'a>(&'a self, g: MutexGuard<'a, St<T>>) -> MutexGuard<'a, St<T>> {
        if sched::in_sim() {
            drop(g);
            sched::block(self.id.get());
            self.lock()
        } else {
            self.cv.wait(g).unwrap_or_else(|e| e.into_inner())
        }
    }
    fn send(&self, t: T) -> Result<(), SendError<T>> {
        sched::point_send::<T>(self.id.get());
        let mut g = self.lock();
        loop {
            if !g.rx {
                return Err(SendError(t));
            }
            match g.cap {
                None => break,
                Some(0) => {
                    if g.q.is_empty() {
                        break;
                    }
                }
                Some(c) => {
                    if g.q.len() < c {
                        break;
                    }
                }
            }
            g = self.pause(g);
        }
        g.q.push_back(t);
        g.sent += 1;
        let my = g.sent;
        let rendezvous = g.cap == Some(0);
        drop(g);
        self.notify();
        if rendezvous {
            let mut g = self.lock();
            while g.taken < my {
                if !g.rx {
                    return match g.q.pop_back() {
                        Some(t) => Err(SendError(t)),
                        None => Ok(()),
                    };
                }
                g = self.pause(g);
            }
        }
        Ok(())
    }
    fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        sched::point_attempt(Op::Send, self.id.get());
        let mut g = self.lock();
        if !g.rx {
            return Err(TrySendError::Disconnected(t));
        }
        let room = match g.cap {
            None => true,
            Some(0) => g.waiting_rx > g.q.len(),
            Some(c) => g.q.len() < c,
        };
        if !room {
            return Err(TrySendError::Full(t));
        }
        g.q.push_back(t);
        g.sent += 1;
        drop(g);
        sched::note_report::<T>();
        self.notify();
        sched::attempted(Ok(()))
    }
    fn try_recv(&self) -> Result<T, TryRecvError> {
        sched::point_attempt(Op::Recv, self.id.get());
        let mut g = self.lock();
        match g.q.pop_front() {
            Some(t) => {
                g.taken += 1;
                drop(g);
                self.notify();
                sched::attempted(Ok(t))
            }
            None if g.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    fn recv(&self) -> Result<T, RecvError> {
        sched::point(Op::Recv, self.id.get());
        let mut g = self.lock();
        loop {
            if let Some(t) = g.q.pop_front() {
                g.taken += 1;
                drop(g);
                self.notify();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvError);
            }
            g.waiting_rx += 1;
            g = self.pause(g);
            g.waiting_rx -= 1;
        }
    }
    fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        sched::point(Op::Recv, self.id.get());
        let start = crate::time::Instant::now();
        let mut g = self.lock();
        loop {
            if let Some(t) = g.q.pop_front() {
                g.taken += 1;
                drop(g);
                self.notify();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvTimeoutError::Disconnected);
            }
            let left = match d.checked_sub(start.elapsed()) {
                Some(l) if !l.is_zero() => l,
                _ => return Err(RecvTimeoutError::Timeout),
            };
            g.waiting_rx += 1;
            if sched::in_sim() {
                drop(g);
                sched::block_for(self.id.get(), left.as_nanos() as u64);
                g = self.lock();
            } else {
                g = self.cv.wait_timeout(g, left).unwrap_or_else(|e| e.into_inner()).0;
            }
            g.waiting_rx -= 1;
        }
    }
}

fn make<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan {
        id: ObjId::new(),
        st: Mutex::new(St { q: VecDeque::new(), senders: 1, rx: true, cap, taken: 0, sent: 0, waiting_rx: 0 }),
        cv: Condvar::new(),
    })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = make(None);
    (Sender(c.clone()), Receiver(c, std::marker::PhantomData))
}
pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = make(Some(bound));
    (SyncSender(c.clone()), Receiver(c, std::marker::PhantomData))
}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>, std::marker::PhantomData<std::cell::Cell<()>>);

macro_rules! sender {
    ($s:ident) => {
        impl<T> $s<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.send(t)
            }
        }
        impl<T> Clone for $s<T> {
            fn clone(&self) -> Self {
                self.0.lock().senders += 1;
                $s(self.0.clone())
            }
        }
        impl<T> Drop for $s<T> {
            fn drop(&mut self) {
                self.0.lock().senders -= 1;
                self.0.notify();
            }
        }
        impl<T> fmt::Debug for $s<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($s))
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> SyncSender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        self.0.try_send(t)
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        self.0.recv()
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        self.0.try_recv()
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        self.0.recv_timeout(d)
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let left = {
            let mut g = self.0.lock();
            g.rx = false;
            std::mem::take(&mut g.q)
        };
        drop(left);
        self.0.notify();
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver")
    }
}
pub struct Iter<'a, T: 'a>(&'a Receiver<T>);
pub struct TryIter<'a, T: 'a>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
