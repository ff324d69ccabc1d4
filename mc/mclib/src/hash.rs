//! Deterministic hash orders: everything that std's hash maps order by chance is a function of a seed.

use std::{
    any::Any,
    cell::Cell,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
};

thread_local! {
    static SEED: Cell<Option<u64>> = const { Cell::new(None) };
}

/// Takes the place of the C library's function, which std seeds its hashers from.
///
/// # Safety
/// As the C library's.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    match SEED.try_with(|s| s.get()).ok().flatten() {
        None => libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t,
        Some(mut x) => {
            for i in 0..len {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                *(buf as *mut u8).add(i) = (x >> 56) as u8;
            }
            len as libc::ssize_t
        }
    }
}

/// Runs `body` on a thread of its own, whose hash maps are ordered as `seed` has it.
pub fn with_hash_seed<T: Send>(seed: u64, body: impl FnOnce() -> T + Send) -> T {
    let keep: unsafe extern "C" fn(*mut libc::c_void, libc::size_t, libc::c_uint) -> libc::ssize_t = getrandom;
    std::hint::black_box(keep);
    let r: Result<T, (Box<dyn Any + Send>, Option<String>)> = std::thread::scope(|s| {
        s.spawn(move || {
            SEED.with(|s| s.set(Some(seed)));
            catch_unwind(AssertUnwindSafe(body)).map_err(|p| (p, crate::take_panic()))
        })
        .join()
        .unwrap_or_else(|p| Err((p, None)))
    });
    match r {
        Ok(t) => t,
        Err((p, m)) => {
            crate::engine::set_panic(m);
            resume_unwind(p)
        }
    }
}
