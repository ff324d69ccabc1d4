//! Atomics whose every access is a scheduling point (sequentially consistent: weaker orderings are not explored).

pub use ::std::sync::atomic::*;

use ::std::fmt;

macro_rules! atomic {
    ($name:ident, $t:ty, $($extra:tt)*) => {
        #[repr(transparent)]
        #[derive(Default)]
        pub struct $name(::std::sync::atomic::$name);

        impl $name {
            pub const fn new(v: $t) -> Self {
                Self(::std::sync::atomic::$name::new(v))
            }
            pub fn load(&self, o: Ordering) -> $t {
                mc_sched::point("atomic load");
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                mc_sched::point("atomic store");
                self.0.store(v, o);
                mc_sched::point("stored");
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                mc_sched::point("atomic swap");
                let was = self.0.swap(v, o);
                mc_sched::point("stored");
                was
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                mc_sched::point("atomic compare_exchange");
                let was = self.0.compare_exchange(a, b, s, f);
                mc_sched::point("stored");
                was
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                let mut was = self.load(f);
                while let Some(next) = g(was) {
                    match self.compare_exchange_weak(was, next, s, f) {
                        Ok(v) => return Ok(v),
                        Err(v) => was = v,
                    }
                }
                Err(was)
            }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                mc_sched::point("atomic fetch_and");
                let was = self.0.fetch_and(v, o);
                mc_sched::point("stored");
                was
            }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                mc_sched::point("atomic fetch_or");
                let was = self.0.fetch_or(v, o);
                mc_sched::point("stored");
                was
            }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                mc_sched::point("atomic fetch_xor");
                let was = self.0.fetch_xor(v, o);
                mc_sched::point("stored");
                was
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            $($extra)*
        }

        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }

        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
    };
}

macro_rules! integer {
    ($name:ident, $t:ty) => {
        atomic! { $name, $t,
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                mc_sched::point("atomic fetch_add");
                let was = self.0.fetch_add(v, o);
                mc_sched::point("stored");
                was
            }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                mc_sched::point("atomic fetch_sub");
                let was = self.0.fetch_sub(v, o);
                mc_sched::point("stored");
                was
            }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                mc_sched::point("atomic fetch_max");
                let was = self.0.fetch_max(v, o);
                mc_sched::point("stored");
                was
            }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                mc_sched::point("atomic fetch_min");
                let was = self.0.fetch_min(v, o);
                mc_sched::point("stored");
                was
            }
        }
    };
}

integer!(AtomicUsize, usize);
integer!(AtomicIsize, isize);
integer!(AtomicU64, u64);
integer!(AtomicI64, i64);
integer!(AtomicU32, u32);
integer!(AtomicI32, i32);
integer!(AtomicU16, u16);
integer!(AtomicU8, u8);
atomic!(AtomicBool, bool,);
