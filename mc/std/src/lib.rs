//! The standard library with its locks and atomics under the control of mc-sched.  A crate whose manifest
//! declares `std = { package = "mc-std", .. }` sees this crate as `std`, its sources unchanged.

pub use ::std::*;

pub mod sync;
pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        mc_sched::point("yield");
        if !mc_sched::controlled() {
            ::std::thread::yield_now()
        }
    }
    pub fn sleep(d: ::std::time::Duration) {
        mc_sched::point("sleep");
        if !mc_sched::controlled() {
            ::std::thread::sleep(d)
        }
    }
}
pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        mc_sched::point("spin");
    }
}
