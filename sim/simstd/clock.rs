//! Simulated clocks: inside a simulation, time is what the scheduler says it is.
use crate::sched;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::sync::OnceLock;
use std::time::Duration;

fn base() -> std::time::Instant {
    static B: OnceLock<std::time::Instant> = OnceLock::new();
    *B.get_or_init(std::time::Instant::now)
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Instant {
        match sched::now_ns() {
            Some(n) => Instant(Duration::from_nanos(n) + Duration::from_secs(1 << 20)),
            None => Instant(base().elapsed() + Duration::from_secs(1 << 20)),
        }
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        self.0 -= d;
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

/// Wall clock: the real type, but the simulated `now` starts at a fixed date.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SystemTime(std::time::SystemTime);
impl SystemTime {
    pub const UNIX_EPOCH: std::time::SystemTime = std::time::SystemTime::UNIX_EPOCH;
    pub fn now() -> std::time::SystemTime {
        match sched::now_ns() {
            Some(n) => std::time::SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000) + Duration::from_nanos(n),
            None => std::time::SystemTime::now(),
        }
    }
}
