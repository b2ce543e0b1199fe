//! Mutex and RwLock under the control of the explorer. Outside of an exploration they are free
//! (only one thread of control exists there), and taking a held one is reported as a deadlock.
use crate::mc;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

#[derive(Default)]
#[repr(transparent)]
pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);

pub struct MutexGuard<'a, T: ?Sized> {
    inner: Option<std::sync::MutexGuard<'a, T>>,
    id: usize,
}
impl<T> MutexGuard<'_, T> {
    /// the lock lives longer than the guard
    fn mutex(&self) -> *const Mutex<T> {
        self.id as *const Mutex<T>
    }
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(std::sync::Mutex::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn id(&self) -> usize {
        &self.0 as *const _ as *const u8 as usize
    }
    fn take(&self) -> TryLockResult<MutexGuard<'_, T>> {
        let id = self.id();
        let g = |inner| MutexGuard { inner: Some(inner), id };
        match self.0.try_lock() {
            Ok(x) => {
                mc::acquired(id, false);
                Ok(g(x))
            }
            Err(TryLockError::Poisoned(e)) => {
                mc::acquired(id, false);
                Err(TryLockError::Poisoned(PoisonError::new(g(e.into_inner()))))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        mc::point(mc::Op::Lock(self.id()));
        match self.take() {
            Ok(g) => Ok(g),
            Err(TryLockError::Poisoned(e)) => Err(e),
            Err(TryLockError::WouldBlock) => panic!("deadlock: a lock is taken which is held already"),
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        mc::point(mc::Op::Try(self.id()));
        self.take()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        mc::point(mc::Op::Try(self.id()));
        let mut d = f.debug_struct("Mutex");
        match self.take() {
            Ok(g) => d.field("data", &&*g),
            Err(TryLockError::Poisoned(e)) => d.field("data", &&**e.get_ref()),
            Err(TryLockError::WouldBlock) => d.field("data", &format_args!("<locked>")),
        };
        d.field("poisoned", &self.0.is_poisoned());
        d.finish_non_exhaustive()
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        mc::release_point(self.id);
        self.inner = None;
        mc::released(self.id, false);
    }
}

#[derive(Default)]
pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
pub struct RwLockReadGuard<'a, T: ?Sized> {
    inner: Option<std::sync::RwLockReadGuard<'a, T>>,
    id: usize,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    inner: Option<std::sync::RwLockWriteGuard<'a, T>>,
    id: usize,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(std::sync::RwLock::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    fn id(&self) -> usize {
        &self.0 as *const _ as *const u8 as usize
    }
    fn take_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        let id = self.id();
        let g = |inner| RwLockReadGuard { inner: Some(inner), id };
        match self.0.try_read() {
            Ok(x) => {
                mc::acquired(id, true);
                Ok(g(x))
            }
            Err(TryLockError::Poisoned(e)) => {
                mc::acquired(id, true);
                Err(TryLockError::Poisoned(PoisonError::new(g(e.into_inner()))))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    fn take_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        let id = self.id();
        let g = |inner| RwLockWriteGuard { inner: Some(inner), id };
        match self.0.try_write() {
            Ok(x) => {
                mc::acquired(id, false);
                Ok(g(x))
            }
            Err(TryLockError::Poisoned(e)) => {
                mc::acquired(id, false);
                Err(TryLockError::Poisoned(PoisonError::new(g(e.into_inner()))))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        mc::point(mc::Op::Read(self.id()));
        match self.take_read() {
            Ok(g) => Ok(g),
            Err(TryLockError::Poisoned(e)) => Err(e),
            Err(TryLockError::WouldBlock) => panic!("deadlock: a lock is taken which is held already"),
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        mc::point(mc::Op::Lock(self.id()));
        match self.take_write() {
            Ok(g) => Ok(g),
            Err(TryLockError::Poisoned(e)) => Err(e),
            Err(TryLockError::WouldBlock) => panic!("deadlock: a lock is taken which is held already"),
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        mc::point(mc::Op::Try(self.id()));
        self.take_read()
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        mc::point(mc::Op::Try(self.id()));
        self.take_write()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        mc::point(mc::Op::Try(self.id()));
        let mut d = f.debug_struct("RwLock");
        match self.take_read() {
            Ok(g) => d.field("data", &&*g),
            Err(TryLockError::Poisoned(e)) => d.field("data", &&**e.get_ref()),
            Err(TryLockError::WouldBlock) => d.field("data", &format_args!("<locked>")),
        };
        d.field("poisoned", &self.0.is_poisoned());
        d.finish_non_exhaustive()
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        mc::release_point(self.id);
        self.inner = None;
        mc::released(self.id, true);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        mc::release_point(self.id);
        self.inner = None;
        mc::released(self.id, false);
    }
}

/// Waiting is ended by a notification only; which of the waiting tasks a single one wakes is
/// left to the explorer.
#[derive(Default)]
pub struct Condvar {
    waiting: std::sync::atomic::AtomicUsize,
    permits: std::sync::atomic::AtomicUsize,
}
use std::sync::atomic::Ordering::SeqCst;
impl Condvar {
    pub const fn new() -> Self {
        Condvar {
            waiting: std::sync::atomic::AtomicUsize::new(0),
            permits: std::sync::atomic::AtomicUsize::new(0),
        }
    }
    pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let id = guard.id;
        let mutex = guard.mutex();
        self.waiting.fetch_add(1, SeqCst);
        drop(guard);
        if !mc::point(mc::Op::Wait(&self.permits as *const _ as usize)) {
            panic!("deadlock: waits without another task");
        }
        self.waiting.fetch_sub(1, SeqCst);
        self.permits.fetch_sub(1, SeqCst);
        let mutex = unsafe { &*mutex };
        debug_assert_eq!(mutex.id(), id);
        mutex.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    pub fn notify_one(&self) {
        mc::point(mc::Op::Atomic(&self.permits as *const _ as usize));
        if self.permits.load(SeqCst) < self.waiting.load(SeqCst) {
            self.permits.fetch_add(1, SeqCst);
        }
    }
    pub fn notify_all(&self) {
        mc::point(mc::Op::Atomic(&self.permits as *const _ as usize));
        self.permits.store(self.waiting.load(SeqCst), SeqCst);
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

pub struct OnceLock<T> {
    first: Mutex<()>,
    value: std::sync::OnceLock<T>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { first: Mutex::new(()), value: std::sync::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        mc::point(mc::Op::Atomic(self.first.id()));
        self.value.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.value.get_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        mc::point(mc::Op::Atomic(self.first.id()));
        self.value.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if let Some(t) = self.get() {
            return t;
        }
        let _g = self.first.lock().unwrap_or_else(|e| e.into_inner());
        if self.value.get().is_none() {
            let t = f();
            let _ = self.value.set(t);
        }
        self.value.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.value.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.value.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.value.fmt(f)
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        OnceLock { first: Mutex::new(()), value: self.value.clone() }
    }
}
