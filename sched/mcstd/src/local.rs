//! `thread_local!`: one value for each task.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

std::thread_local! {
    static VALUES: RefCell<HashMap<(usize, usize), Rc<dyn Any>>> = RefCell::new(HashMap::new());
}
/// every execution starts with new threads
pub(crate) fn clear() {
    let old = VALUES.with(|v| std::mem::take(&mut *v.borrow_mut()));
    drop(old);
}

pub struct LocalKey<T: 'static>(fn() -> T);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct AccessError;
impl<T: 'static> LocalKey<T> {
    pub const fn new(init: fn() -> T) -> Self {
        LocalKey(init)
    }
    fn value(&'static self) -> Rc<dyn Any> {
        let key = (self as *const Self as usize, crate::mc::me());
        if let Some(v) = VALUES.with(|v| v.borrow().get(&key).cloned()) {
            return v;
        }
        let new: Rc<dyn Any> = Rc::new((self.0)());
        VALUES.with(|v| v.borrow_mut().insert(key, new.clone()));
        new
    }
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        f(self.value().downcast_ref().unwrap())
    }
    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> Result<R, AccessError> {
        Ok(self.with(f))
    }
}
impl<T: 'static> LocalKey<Cell<T>> {
    pub fn set(&'static self, x: T) {
        self.with(|v| v.set(x))
    }
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.with(|v| v.get())
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|v| v.take())
    }
    pub fn replace(&'static self, x: T) -> T {
        self.with(|v| v.replace(x))
    }
}
impl<T: 'static> LocalKey<RefCell<T>> {
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        self.with(|v| f(&v.borrow()))
    }
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R {
        self.with(|v| f(&mut v.borrow_mut()))
    }
    pub fn set(&'static self, x: T) {
        self.with(|v| *v.borrow_mut() = x)
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|v| v.take())
    }
    pub fn replace(&'static self, x: T) -> T {
        self.with(|v| v.replace(x))
    }
}

#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $init:block $(; $($rest:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new(|| $init);
        $($crate::thread_local! { $($rest)* })?
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $init:expr $(; $($rest:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new(|| $init);
        $($crate::thread_local! { $($rest)* })?
    };
}
