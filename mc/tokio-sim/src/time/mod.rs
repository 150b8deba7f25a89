
fn safe_delay(duration: Duration) -> Duration {
    // Roughly 30 years from now.
    // 1000 years overflows on macOS, 100 years overflows on FreeBSD.
    duration.min(Duration::from_secs(86400 * 365 * 30))
}

mod clock;
pub(crate) use self::clock::Clock;
cfg_test_util! {
    pub use clock::{advance, pause, resume};
}

pub mod error;

mod instant;
pub use self::instant::Instant;

mod interval;
pub use interval::{interval, interval_at, Interval, MissedTickBehavior};

mod sleep;
pub use sleep::{sleep, sleep_until, Sleep};

mod timeout;
#[doc(inline)]
pub use timeout::{timeout, timeout_at, Timeout};

// Re-export for convenience
#[doc(no_inline)]
pub use std::time::Duration;
