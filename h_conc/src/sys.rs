//! The system calls of the code under test are scheduling points too (the windows around them are where a lock that
//! is released too early shows), and the places where a crash or a failure can be put.

use libc::{c_int, c_void, off_t, size_t};
use mc_sched::point;
use std::cell::Cell;

type Hook = *mut (dyn FnMut(&'static str) -> bool);

thread_local! {
    static HOOK: Cell<Option<Hook>> = const { Cell::new(None) };
}

/// runs `body` with `hook` called at every system call and key-index operation; `true` makes it fail
pub fn with_hook<T>(hook: &mut dyn FnMut(&'static str) -> bool, body: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            HOOK.with(|h| h.set(None));
        }
    }
    let _reset = Reset;
    let p: *mut (dyn FnMut(&'static str) -> bool + '_) = hook;
    // cleared before `hook` goes out of scope
    let p: Hook = unsafe { std::mem::transmute(p) };
    HOOK.with(|h| h.set(Some(p)));
    mc_sled::mc::with_faults(&mut |what| ask(what), body)
}

fn ask(what: &'static str) -> bool {
    let Ok(Some(h)) = HOOK.try_with(|h| h.get()) else { return false };
    // nothing the hook does comes back here
    HOOK.with(|c| c.set(None));
    let fails = unsafe { (*h)(what) };
    HOOK.with(|c| c.set(Some(h)));
    fails
}

fn fails(what: &'static str) -> bool {
    point(what);
    let f = ask(what);
    if f {
        unsafe { *libc::__errno_location() = libc::EIO };
    }
    f
}

#[no_mangle]
pub extern "C-unwind" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    if fails("ftruncate") {
        return -1;
    }
    unsafe { libc::syscall(libc::SYS_ftruncate, fd, len) as c_int }
}

#[no_mangle]
pub extern "C-unwind" fn mmap64(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, off: off_t) -> *mut c_void {
    if fd >= 0 && fails("mmap") {
        return libc::MAP_FAILED;
    }
    let r = unsafe { libc::syscall(libc::SYS_mmap, a, l, p, f, fd, off) } as isize;
    if r == -1 {
        return libc::MAP_FAILED;
    }
    r as *mut c_void
}

#[no_mangle]
pub extern "C-unwind" fn msync(addr: *mut c_void, len: size_t, flags: c_int) -> c_int {
    if fails("msync") {
        return -1;
    }
    unsafe { libc::syscall(libc::SYS_msync, addr, len, flags) as c_int }
}
