//! Stand-in for `channable/snowflaked-rs` (a git dependency that cannot be
//! fetched offline). Same layout as the original: 42 bits of milliseconds
//! since the epoch, 10 bits instance, 12 bits sequence number; when a
//! millisecond runs out of sequence numbers, or the clock goes backwards, the
//! generator moves on to the next logical millisecond instead of blocking.
use std::time::{Duration, SystemTime};

pub trait Snowflake {
    fn timestamp(&self) -> u64;
    fn instance(&self) -> u64;
    fn sequence(&self) -> u64;
}

impl Snowflake for u64 {
    fn timestamp(&self) -> u64 {
        self >> 22
    }
    fn instance(&self) -> u64 {
        (self >> 12) & 0x3ff
    }
    fn sequence(&self) -> u64 {
        self & 0xfff
    }
}

pub mod sync {
    use super::*;
    use std::sync::atomic::{AtomicU64, Ordering};

    /// (logical millisecond << 12) | sequence of the last id handed out.
    static LAST: AtomicU64 = AtomicU64::new(0);

    /// A new simulated process starts with a fresh generator.
    pub fn sim_reset() {
        LAST.store(0, Ordering::SeqCst);
    }

    pub struct Generator {
        instance: u64,
    }

    impl Generator {
        pub const fn new(instance: u16) -> Self {
            Self {
                instance: instance as u64,
            }
        }
        pub fn epoch(&self) -> SystemTime {
            SystemTime::UNIX_EPOCH
        }
        pub fn generate<T: From<u64>>(&self) -> T {
            let now = SystemTime::now()
                .duration_since(SystemTime::UNIX_EPOCH)
                .unwrap_or(Duration::ZERO)
                .as_millis() as u64;
            let prev = LAST
                .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |l| {
                    Some(std::cmp::max(now << 12, l + 1))
                })
                .unwrap();
            let v = std::cmp::max(now << 12, prev + 1);
            T::from(((v >> 12) << 22) | (self.instance << 12) | (v & 0xfff))
        }
    }
}
