pub use std::time::{Duration, SystemTimeError, TryFromFloatSecsError};
use std::fmt;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::sync::{Arc, Mutex};

type Clock = Arc<dyn Fn() -> i64 + Send + Sync>;
static CLOCK: Mutex<Option<Clock>> = Mutex::new(None);
static LAST: Mutex<i64> = Mutex::new(i64::MIN);

/// Nanoseconds since the epoch that the following readings inside controlled executions give.
pub fn set_clock(c: Option<Clock>) {
    *CLOCK.lock().unwrap() = c;
    *LAST.lock().unwrap() = i64::MIN;
}

fn reading() -> Option<i64> {
    if !mcrt::active() {
        return None;
    }
    let c = CLOCK.lock().unwrap().clone();
    c.map(|c| c())
}

pub const UNIX_EPOCH: SystemTime = SystemTime::UNIX_EPOCH;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SystemTime(std::time::SystemTime);

impl fmt::Debug for SystemTime {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime(std::time::SystemTime::UNIX_EPOCH);
    pub fn now() -> SystemTime {
        SystemTime(match reading() {
            None => std::time::SystemTime::now(),
            Some(n) if n >= 0 => std::time::SystemTime::UNIX_EPOCH + Duration::from_nanos(n as u64),
            Some(n) => std::time::SystemTime::UNIX_EPOCH - Duration::from_nanos(n.unsigned_abs()),
        })
    }
    pub fn duration_since(&self, earlier: SystemTime) -> Result<Duration, SystemTimeError> {
        self.0.duration_since(earlier.0)
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
        SystemTime::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_add(d).map(SystemTime)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_sub(d).map(SystemTime)
    }
}
impl From<SystemTime> for std::time::SystemTime {
    fn from(t: SystemTime) -> Self {
        t.0
    }
}
impl From<std::time::SystemTime> for SystemTime {
    fn from(t: std::time::SystemTime) -> Self {
        SystemTime(t)
    }
}

/// Monotonic clock, as nanoseconds from an arbitrary origin
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(i128);

impl Instant {
    pub fn now() -> Instant {
        match reading() {
            Some(n) => {
                let mut l = LAST.lock().unwrap();
                *l = (*l).max(n);
                Instant(*l as i128)
            }
            None => {
                static BASE: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
                Instant(BASE.get_or_init(std::time::Instant::now).elapsed().as_nanos() as i128)
            }
        }
    }
    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
        u64::try_from(self.0 - earlier.0).ok().map(Duration::from_nanos)
    }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.checked_duration_since(earlier).unwrap_or_default()
    }
    pub fn duration_since(&self, earlier: Instant) -> Duration {
        self.saturating_duration_since(earlier)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        Some(Instant(self.0 + d.as_nanos() as i128))
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        Some(Instant(self.0 - d.as_nanos() as i128))
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

macro_rules! ops {
    ($t:ty) => {
        impl Add<Duration> for $t {
            type Output = $t;
            fn add(self, d: Duration) -> $t {
                self.checked_add(d).expect("overflow when adding duration to instant")
            }
        }
        impl Sub<Duration> for $t {
            type Output = $t;
            fn sub(self, d: Duration) -> $t {
                self.checked_sub(d).expect("overflow when subtracting duration from instant")
            }
        }
        impl AddAssign<Duration> for $t {
            fn add_assign(&mut self, d: Duration) {
                *self = *self + d;
            }
        }
        impl SubAssign<Duration> for $t {
            fn sub_assign(&mut self, d: Duration) {
                *self = *self - d;
            }
        }
    };
}
ops!(SystemTime);
ops!(Instant);
