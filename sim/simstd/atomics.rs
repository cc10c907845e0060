use crate::sched::{self, ObjId, Op};
use std::fmt;
use std::sync::atomic as sa;
use std::sync::atomic::Ordering;

macro_rules! common {
    ($name:ident, $std:ty, $t:ty) => {
        pub struct $name {
            v: $std,
            id: ObjId,
        }
        impl $name {
            pub const fn new(v: $t) -> Self {
                Self { v: <$std>::new(v), id: ObjId::new() }
            }
            /// the underlying atomic, without a scheduling point (simulator only)
            pub fn raw(&self) -> &$std {
                &self.v
            }
            pub fn load(&self, o: Ordering) -> $t {
                sched::point(Op::Load, self.id.get());
                self.v.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                sched::point(Op::Store, self.id.get());
                self.v.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                sched::point_attempt(Op::Rmw, self.id.get());
                let r = self.v.swap(v, o);
                sched::attempted(if r != v { Ok(r) } else { Err(r) }).unwrap_or_else(|r| r)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                sched::point_attempt(Op::Rmw, self.id.get());
                sched::attempted(self.v.compare_exchange(a, b, s, f))
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                sched::point_attempt(Op::Rmw, self.id.get());
                sched::attempted(self.v.compare_exchange(a, b, s, f))
            }
            #[allow(deprecated)]
            pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                sched::point(Op::Rmw, self.id.get());
                match self.v.compare_exchange(a, b, o, Ordering::Relaxed) {
                    Ok(x) => x,
                    Err(x) => x,
                }
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
                let mut prev = self.load(l);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, s, l) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.v.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.v.into_inner()
            }
            pub fn as_ptr(&self) -> *mut $t {
                self.v.as_ptr()
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.v.fmt(f)
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::new(Default::default())
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
    };
}
macro_rules! rmw {
    ($name:ident, $t:ty, $($m:ident),*) => {
        impl $name {
            $(pub fn $m(&self, v: $t, o: Ordering) -> $t {
                sched::point_attempt(Op::Rmw, self.id.get());
                let r = self.v.$m(v, o);
                // an operation that changes nothing may be a thread that waits in a loop
                let changed = self.v.load(Ordering::Relaxed) != r;
                sched::attempted(if changed { Ok(r) } else { Err(r) }).unwrap_or_else(|r| r)
            })*
        }
    };
}
macro_rules! int {
    ($name:ident, $t:ty) => {
        common!($name, sa::$name, $t);
        rmw!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min);
    };
}
common!(AtomicBool, sa::AtomicBool, bool);
rmw!(AtomicBool, bool, fetch_and, fetch_nand, fetch_or, fetch_xor);
impl AtomicBool {
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.fetch_xor(true, o)
    }
}
int!(AtomicU8, u8);
int!(AtomicU16, u16);
int!(AtomicU32, u32);
int!(AtomicU64, u64);
int!(AtomicUsize, usize);
int!(AtomicI8, i8);
int!(AtomicI16, i16);
int!(AtomicI32, i32);
int!(AtomicI64, i64);
int!(AtomicIsize, isize);
