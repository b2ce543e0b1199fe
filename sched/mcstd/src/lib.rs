//! The standard library, with locks and atomics whose every operation is a scheduling point of
//! the explorer in `mc`.
pub use std::*;

pub mod mc;

pub mod sync {
    pub use crate::locks::{
        Condvar, Mutex, MutexGuard, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard,
    };
    pub use std::sync::*;
    pub mod atomic {
        pub use crate::atomics::{
            AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize,
        };
        pub use std::sync::atomic::*;
    }
}
pub mod thread {
    pub use crate::local::{AccessError, LocalKey};
    pub use std::thread::*;
    pub fn yield_now() {
        if !crate::mc::point(crate::mc::Op::Yield) {
            std::thread::yield_now()
        }
    }
}
pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        if !crate::mc::point(crate::mc::Op::Yield) {
            std::hint::spin_loop()
        }
    }
}
mod atomics;
mod locks;
mod local;
