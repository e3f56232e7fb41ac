//! `std` with a clock the harness moves: `Instant::now` reads a per-thread virtual time.
pub use std::*;

pub mod clock {
    use std::{cell::Cell, time::Duration};
    thread_local! { static NOW: Cell<Duration> = const { Cell::new(Duration::from_secs(1_000_000)) }; }
    pub fn now() -> Duration {
        NOW.with(Cell::get)
    }
    pub fn set(t: Duration) {
        NOW.with(|n| n.set(t))
    }
    pub fn advance(d: Duration) {
        set(now() + d)
    }
    pub fn reset() {
        set(Duration::from_secs(1_000_000))
    }
}

pub mod time {
    pub use std::time::*;
    use std::ops::{Add, AddAssign, Sub, SubAssign};

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(Duration);
    impl Instant {
        pub fn now() -> Self {
            Self(crate::clock::now())
        }
        pub fn at(d: Duration) -> Self {
            Self(d)
        }
        pub fn since_zero(&self) -> Duration {
            self.0
        }
        pub fn duration_since(&self, earlier: Self) -> Duration {
            self.0.saturating_sub(earlier.0)
        }
        pub fn checked_duration_since(&self, earlier: Self) -> Option<Duration> {
            self.0.checked_sub(earlier.0)
        }
        pub fn saturating_duration_since(&self, earlier: Self) -> Duration {
            self.0.saturating_sub(earlier.0)
        }
        pub fn elapsed(&self) -> Duration {
            Self::now().saturating_duration_since(*self)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Self> {
            self.0.checked_add(d).map(Self)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Self> {
            self.0.checked_sub(d).map(Self)
        }
    }
    impl Add<Duration> for Instant {
        type Output = Self;
        fn add(self, d: Duration) -> Self {
            Self(self.0 + d)
        }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            self.0 += d
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Self;
        fn sub(self, d: Duration) -> Self {
            Self(self.0 - d)
        }
    }
    impl SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            self.0 -= d
        }
    }
    impl Sub for Instant {
        type Output = Duration;
        fn sub(self, o: Self) -> Duration {
            self.duration_since(o)
        }
    }
}
