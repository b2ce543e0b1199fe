//! Atomics: every access is a scheduling point (sequentially consistent).
use crate::mc::{point, Op};
pub use std::sync::atomic::Ordering;
use std::sync::atomic as a;

macro_rules! common {
    ($name:ident, $t:ty) => {
        #[derive(Debug, Default)]
        pub struct $name(a::$name);
        impl $name {
            pub const fn new(v: $t) -> Self {
                Self(a::$name::new(v))
            }
            fn at(&self) {
                point(Op::Atomic(self as *const _ as usize));
            }
            pub fn load(&self, o: Ordering) -> $t {
                self.at();
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                self.at();
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                self.at();
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.at();
                self.0.compare_exchange(c, n, s, f)
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(c, n, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                let mut p = self.load(f);
                while let Some(n) = g(p) {
                    match self.compare_exchange(p, n, s, f) {
                        Ok(x) => return Ok(x),
                        Err(x) => p = x,
                    }
                }
                Err(p)
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
    };
}
macro_rules! fetch {
    ($name:ident, $t:ty, $($f:ident),*) => {
        impl $name {
            $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                self.at();
                self.0.$f(v, o)
            })*
        }
    };
}
macro_rules! int {
    ($($name:ident $t:ty),*) => { $(
        common!($name, $t);
        fetch!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
    )* };
}
int!(AtomicUsize usize, AtomicIsize isize, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64);
common!(AtomicBool, bool);
fetch!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
