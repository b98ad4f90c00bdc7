//! Time goes by when a time limit ends a wait.
use crate::explore;
use std::ops::{Add, AddAssign, Sub, SubAssign};
pub use std::time::{Duration, SystemTime, SystemTimeError, UNIX_EPOCH};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(Duration);

impl Instant {
    pub fn now() -> Instant {
        Instant(explore::now())
    }
    pub fn elapsed(&self) -> Duration {
        explore::now().saturating_sub(self.0)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0.saturating_sub(d))
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        self.0 = self.0.saturating_sub(d)
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
}
