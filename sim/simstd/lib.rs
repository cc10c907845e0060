//! `simstd`: the standard library as seen by the crate under test.
//!
//! Everything is re-exported from the real `std`; the pieces that carry nondeterminism or block
//! (`sync`, `thread`, `time`) are replaced by versions that hand every decision to `sched`.
//! Outside a simulation (no simulation context on the current OS thread) they behave like `std`.
#![allow(clippy::all)]
#![allow(non_upper_case_globals)]

pub use std::*;

pub mod sched;
mod atomics;
mod chan;
mod locks;
mod thr;
mod clock;

pub mod sync {
    pub use crate::locks::{
        Barrier, BarrierWaitResult, Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, OnceState, RwLock, RwLockReadGuard,
        RwLockWriteGuard, WaitTimeoutResult,
    };
    pub use std::sync::*;
    pub mod atomic {
        pub use crate::atomics::{
            AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicU16, AtomicU32, AtomicU64, AtomicU8,
            AtomicUsize,
        };
        pub use std::sync::atomic::*;
    }
    pub mod mpsc {
        pub use crate::chan::{channel, sync_channel, IntoIter, Iter, Receiver, Sender, SyncSender, TryIter};
        pub use std::sync::mpsc::*;
    }
}

pub mod thread {
    pub use crate::thr::{
        available_parallelism, park, park_timeout, scope, sleep, sleep_ms, spawn, yield_now, Builder, JoinHandle, Scope,
        ScopedJoinHandle,
    };
    pub use std::thread::*;
}

pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        crate::thread::yield_now()
    }
}

pub mod time {
    pub use crate::clock::{Instant, SystemTime};
    pub use std::time::*;
}
