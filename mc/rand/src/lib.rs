//! The part of rand 0.8 that selection algorithms use, with every drawn number taken from the explorer: inside
//! [`with`], a draw from n possibilities asks the given function which of 0..n it is.

use std::cell::Cell;

type Choose<'a> = &'a mut dyn FnMut(usize) -> usize;

thread_local! {
    static CHOOSE: Cell<Option<*mut (dyn FnMut(usize) -> usize)>> = const { Cell::new(None) };
}

pub fn with<T>(choose: Choose<'_>, body: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            CHOOSE.set(None);
        }
    }
    // SAFETY: the pointer is forgotten before `choose` goes
    let erased: *mut (dyn FnMut(usize) -> usize) = unsafe { std::mem::transmute(choose as *mut (dyn FnMut(usize) -> usize + '_)) };
    CHOOSE.set(Some(erased));
    let _reset = Reset;
    body()
}

fn choose(n: usize) -> usize {
    assert!(n > 0, "a draw from an empty range");
    if n == 1 {
        return 0;
    }
    let p = CHOOSE.get().expect("a random number was drawn outside the explorer");
    // SAFETY: set by `with`, which is still running on this thread
    let i = unsafe { (*p)(n) };
    assert!(i < n);
    i
}

pub trait RngCore {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    /// only a few of all numbers: nothing that is explored draws this way
    fn next_u64(&mut self) -> u64 {
        [0, 1, u64::MAX / 2, u64::MAX][choose(4)]
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8;
        }
    }
}

pub trait SampleRange<T> {
    fn sample(self) -> T;
    fn is_empty(&self) -> bool;
}

macro_rules! ranges {
    ($($t:ty)*) => {$(
        impl SampleRange<$t> for std::ops::Range<$t> {
            fn sample(self) -> $t {
                let n = usize::try_from(self.end as i128 - self.start as i128).expect("a draw from an empty or huge range");
                (self.start as i128 + choose(n) as i128) as $t
            }
            fn is_empty(&self) -> bool {
                self.start >= self.end
            }
        }
        impl SampleRange<$t> for std::ops::RangeInclusive<$t> {
            fn sample(self) -> $t {
                let n = usize::try_from(*self.end() as i128 - *self.start() as i128 + 1).expect("a draw from an empty or huge range");
                (*self.start() as i128 + choose(n) as i128) as $t
            }
            fn is_empty(&self) -> bool {
                self.start() > self.end()
            }
        }
    )*};
}
ranges!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);

pub trait Drawn {
    fn draw() -> Self;
}
impl Drawn for bool {
    fn draw() -> bool {
        choose(2) == 1
    }
}

pub trait Rng: RngCore {
    fn gen_range<T, R: SampleRange<T>>(&mut self, range: R) -> T {
        assert!(!range.is_empty(), "cannot sample empty range");
        range.sample()
    }
    fn gen<T: Drawn>(&mut self) -> T {
        T::draw()
    }
    fn gen_bool(&mut self, p: f64) -> bool {
        match p {
            0.0 => false,
            1.0 => true,
            _ => bool::draw(),
        }
    }
    fn gen_ratio(&mut self, n: u32, d: u32) -> bool {
        self.gen_bool(f64::from(n) / f64::from(d))
    }
}
impl<R: RngCore + ?Sized> Rng for R {}

impl<R: RngCore + ?Sized> RngCore for &mut R {}

pub trait SeedableRng: Sized {
    fn seed_from_u64(seed: u64) -> Self;
    fn from_entropy() -> Self {
        Self::seed_from_u64(0)
    }
}

pub mod rngs {
    #[derive(Clone, Debug, Default)]
    pub struct ThreadRng;
    #[derive(Clone, Debug)]
    pub struct StdRng;
    #[derive(Clone, Debug)]
    pub struct SmallRng;
    impl super::RngCore for ThreadRng {}
    impl super::RngCore for StdRng {}
    impl super::RngCore for SmallRng {}
    impl super::SeedableRng for StdRng {
        fn seed_from_u64(_: u64) -> Self {
            StdRng
        }
    }
    impl super::SeedableRng for SmallRng {
        fn seed_from_u64(_: u64) -> Self {
            SmallRng
        }
    }
}

pub fn thread_rng() -> rngs::ThreadRng {
    rngs::ThreadRng
}

pub fn random<T: Drawn>() -> T {
    T::draw()
}

pub mod seq {
    use super::{choose, RngCore};

    pub trait SliceRandom {
        type Item;
        fn choose<R: RngCore + ?Sized>(&self, rng: &mut R) -> Option<&Self::Item>;
        fn choose_mut<R: RngCore + ?Sized>(&mut self, rng: &mut R) -> Option<&mut Self::Item>;
        fn shuffle<R: RngCore + ?Sized>(&mut self, rng: &mut R);
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn choose<R: RngCore + ?Sized>(&self, _: &mut R) -> Option<&T> {
            (!self.is_empty()).then(|| &self[choose(self.len())])
        }
        fn choose_mut<R: RngCore + ?Sized>(&mut self, _: &mut R) -> Option<&mut T> {
            (!self.is_empty()).then(|| {
                let i = choose(self.len());
                &mut self[i]
            })
        }
        fn shuffle<R: RngCore + ?Sized>(&mut self, _: &mut R) {
            for i in (1..self.len()).rev() {
                self.swap(i, choose(i + 1));
            }
        }
    }

    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: RngCore + ?Sized>(self, _: &mut R) -> Option<Self::Item> {
            let mut all: Vec<_> = self.collect();
            (!all.is_empty()).then(|| all.swap_remove(choose(all.len())))
        }
    }
    impl<I: Iterator> IteratorRandom for I {}
}

pub mod prelude {
    pub use super::seq::{IteratorRandom, SliceRandom};
    pub use super::{random, rngs::*, thread_rng, Rng, RngCore, SeedableRng};
}
