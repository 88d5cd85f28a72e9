//! A stand-in for `std` in code under a controlled scheduler.
//!
//! Everything of `std` is re-exported; what synchronises, waits, or reads the
//! clock is replaced by a version that hands control to `sched`, so that the
//! explorer decides every interleaving. Outside an exploration the replacements
//! behave like plain (uncontended) std types.

pub use ::std::*;

pub mod sched;

pub mod time {
    pub use ::std::time::*;
    use std::ops::{Add, AddAssign, Sub, SubAssign};

    /// A point on the exploration's virtual clock (nanoseconds).
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(u64);

    fn ns(d: Duration) -> u64 {
        d.as_nanos().min(u64::MAX as u128) as u64
    }

    impl Instant {
        pub fn now() -> Instant {
            Instant(crate::sched::read_clock())
        }
        pub fn elapsed(&self) -> Duration {
            Instant::now().saturating_duration_since(*self)
        }
        pub fn duration_since(&self, e: Instant) -> Duration {
            self.saturating_duration_since(e)
        }
        pub fn saturating_duration_since(&self, e: Instant) -> Duration {
            Duration::from_nanos(self.0.saturating_sub(e.0))
        }
        pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
            self.0.checked_sub(e.0).map(Duration::from_nanos)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(ns(d)).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            self.0.checked_sub(ns(d)).map(Instant)
        }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + ns(d))
        }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            *self = *self + d
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0 - ns(d))
        }
    }
    impl SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            *self = *self - d
        }
    }
    impl Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, e: Instant) -> Duration {
            self.saturating_duration_since(e)
        }
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub use crate::sched::{spawn, yield_now, JoinHandle};
    pub fn sleep(d: std::time::Duration) {
        crate::sched::advance(d.as_nanos() as u64);
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::sched::yield_now()
    }
}

pub mod sync {
    pub use crate::sched::{Condvar, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub use ::std::sync::*;

    pub mod atomic {
        pub use crate::sched::{
            fence, AtomicBool, AtomicI32, AtomicI64, AtomicIsize, AtomicU32, AtomicU64, AtomicU8, AtomicUsize,
        };
        pub use ::std::sync::atomic::*;
    }

    pub mod mpsc {
        pub use crate::sched::chan::mpsc::*;
    }
}


pub mod process {
    pub use ::std::process::*;
    /// The thread that ends the process stops here.
    pub fn exit(code: i32) -> ! {
        ::std::panic::panic_any(format!("exit status {code}"))
    }
}

/// For output that nobody reads.
#[macro_export]
macro_rules! quiet {
    ($($x:tt)*) => {{ let _ = format_args!($($x)*); }};
}
