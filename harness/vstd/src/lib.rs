//! The standard library with its atomics, locks and threads exchanged for shuttle's, so that
//! every access of shared memory in code compiled against it is a point where the controlled
//! scheduler may switch threads.
pub use ::std as real;
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    pub use shuttle::sync::{Barrier, Condvar, Mutex, MutexGuard, Once, RwLock};
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        pub use shuttle::sync::atomic::{
            fence, AtomicBool, AtomicI32, AtomicI64, AtomicIsize, AtomicPtr, AtomicU32, AtomicU64,
            AtomicU8, AtomicUsize,
        };
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub use shuttle::thread::{current, park, sleep, spawn, yield_now, JoinHandle, Thread};
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        shuttle::thread::yield_now()
    }
}
