//! The operating system as the code under test sees it.  The calls that change, map or persist files are
//! intercepted in this binary (they are ordinary libc symbols); on a thread with an active recorder they are
//! logged together with the stores made through the mappings since the previous call, and may be told to fail.

use libc::{c_int, c_void, off_t, size_t};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    fs,
    os::unix::fs::MetadataExt,
    path::{Path, PathBuf},
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    /// bytes stored through a mapping (or written) since the previous event; `bytes` runs from the first to the
    /// last byte that changed
    Store { file: String, at: usize, old: Vec<u8>, bytes: Vec<u8> },
    Length { file: String, len: usize },
    Create { file: String },
    /// everything stored so far in the range is on the device, and so is the length of the file
    Sync { file: String, from: usize, to: usize },
    /// operation `op` started / returned
    Begin { op: usize },
    End { op: usize, acked: bool },
}

pub type Image = BTreeMap<String, Vec<u8>>;

struct Map {
    addr: usize,
    len: usize,
    file: String,
    off: usize,
}

pub struct Recorder {
    dir: PathBuf,
    image: Image,
    maps: Vec<Map>,
    pub log: Vec<Event>,
}

pub fn image(dir: &Path) -> Image {
    let mut m = Image::new();
    if let Ok(d) = fs::read_dir(dir) {
        for e in d.flatten() {
            if let Ok(bytes) = fs::read(e.path()) {
                m.insert(e.file_name().to_string_lossy().into_owned(), bytes);
            }
        }
    }
    m
}

pub fn lay_out(dir: &Path, image: &Image) {
    fs::create_dir_all(dir).expect("scratch directory");
    for (name, bytes) in image {
        fs::write(dir.join(name), bytes).expect("scratch file");
    }
}

impl Recorder {
    /// logs the stores made since the last event
    fn catch_up(&mut self) {
        let now = image(&self.dir);
        for (name, bytes) in &now {
            let before = match self.image.get(name) {
                Some(b) => b,
                None => {
                    self.log.push(Event::Create { file: name.clone() });
                    self.image.insert(name.clone(), vec![]);
                    &self.image[name]
                }
            };
            if bytes.len() != before.len() {
                // a length change that no intercepted call made
                self.log.push(Event::Length { file: name.clone(), len: bytes.len() });
            }
            let old = |i: usize| before.get(i).copied().unwrap_or(0);
            let common = bytes.len().min(before.len());
            if bytes[..common] == before[..common] && bytes[common..].iter().all(|b| *b == 0) {
                continue;
            }
            let first = (0..bytes.len()).find(|i| bytes[*i] != old(*i));
            if let Some(first) = first {
                let last = (0..bytes.len()).rev().find(|i| bytes[*i] != old(*i)).unwrap();
                self.log.push(Event::Store {
                    file: name.clone(),
                    at: first,
                    old: (first..=last).map(old).collect(),
                    bytes: bytes[first..=last].to_vec(),
                });
            }
        }
        self.image = now;
    }

    fn set_len(&mut self, file: &str, len: usize) {
        self.log.push(Event::Length { file: file.into(), len });
        self.image.insert(file.into(), fs::read(self.dir.join(file)).unwrap_or_default());
    }

    fn of_fd(&self, fd: c_int) -> Option<String> {
        let mut st: libc::stat = unsafe { std::mem::zeroed() };
        if unsafe { libc::fstat(fd, &mut st) } != 0 {
            return None;
        }
        for e in fs::read_dir(&self.dir).ok()?.flatten() {
            let m = e.metadata().ok()?;
            if m.ino() == st.st_ino && m.dev() == st.st_dev {
                return Some(e.file_name().to_string_lossy().into_owned());
            }
        }
        None
    }
}

thread_local! {
    static REC: RefCell<Option<Recorder>> = const { RefCell::new(None) };
    static FAULT: Cell<Option<*mut (dyn FnMut(&'static str) -> Option<c_int>)>> = const { Cell::new(None) };
}

/// starts recording the files of `dir` on this thread
pub fn start(dir: &Path) {
    let r = Recorder { dir: dir.into(), image: image(dir), maps: vec![], log: vec![] };
    REC.with(|c| *c.borrow_mut() = Some(r));
}

/// the events so far
pub fn stop() -> Vec<Event> {
    REC.with(|c| {
        let mut r = c.borrow_mut().take().expect("recording");
        r.catch_up();
        r.log
    })
}

pub fn abandon() {
    let _ = REC.try_with(|c| c.borrow_mut().take());
}

pub fn mark(e: Event) {
    REC.with(|c| {
        if let Some(r) = c.borrow_mut().as_mut() {
            r.catch_up();
            r.log.push(e);
        }
    })
}

/// runs `body` with `fault` deciding, at each intercepted call, whether it fails and with which errno
pub fn with_faults<T>(fault: &mut dyn FnMut(&'static str) -> Option<c_int>, body: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            FAULT.with(|f| f.set(None));
        }
    }
    let _reset = Reset;
    let p: *mut (dyn FnMut(&'static str) -> Option<c_int> + '_) = fault;
    // the pointer is cleared before `fault` goes out of scope
    let p: *mut (dyn FnMut(&'static str) -> Option<c_int> + 'static) = unsafe { std::mem::transmute(p) };
    FAULT.with(|f| f.set(Some(p)));
    body()
}

fn fault(call: &'static str) -> bool {
    let Ok(Some(p)) = FAULT.try_with(|f| f.get()) else { return false };
    // no call made while the decision is taken may come back here
    FAULT.with(|f| f.set(None));
    let answer = unsafe { (*p)(call) };
    FAULT.with(|f| f.set(Some(p)));
    match answer {
        None => false,
        Some(e) => {
            unsafe { *libc::__errno_location() = e };
            true
        }
    }
}

fn recording() -> bool {
    REC.try_with(|c| c.try_borrow().is_ok_and(|r| r.is_some())).unwrap_or(false)
}

fn rec<T: Default>(f: impl FnOnce(&mut Recorder) -> T) -> T {
    REC.try_with(|c| match c.try_borrow_mut() {
        Ok(mut r) => r.as_mut().map(f).unwrap_or_default(),
        Err(_) => T::default(),
    })
    .unwrap_or_default()
}

fn truncate(fd: c_int, len: off_t) -> c_int {
    if recording() {
        rec(|r| r.catch_up());
    }
    if fault("ftruncate") {
        return -1;
    }
    let res = unsafe { libc::syscall(libc::SYS_ftruncate, fd, len) as c_int };
    if res == 0 && recording() {
        rec(|r| {
            if let Some(f) = r.of_fd(fd) {
                r.set_len(&f, len as usize);
            }
        });
    }
    res
}

fn map(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off_t) -> *mut c_void {
    if (fd >= 0 || recording()) && fault(if fd >= 0 { "mmap" } else { "mmap (anonymous)" }) {
        return libc::MAP_FAILED;
    }
    let res = unsafe { libc::syscall(libc::SYS_mmap, addr, len, prot, flags, fd, off) } as isize;
    if res == -1 {
        return libc::MAP_FAILED;
    }
    if fd >= 0 && recording() {
        rec(|r| {
            r.catch_up();
            if let Some(file) = r.of_fd(fd) {
                r.maps.push(Map { addr: res as usize, len, file, off: off as usize });
            }
        });
    }
    res as *mut c_void
}

fn sync_fd(fd: c_int, call: &'static str, nr: libc::c_long) -> c_int {
    if recording() {
        rec(|r| r.catch_up());
    }
    if fault(call) {
        return -1;
    }
    let res = unsafe { libc::syscall(nr, fd) as c_int };
    if res == 0 && recording() {
        rec(|r| {
            if let Some(file) = r.of_fd(fd) {
                r.log.push(Event::Sync { file, from: 0, to: usize::MAX });
            }
        });
    }
    res
}

#[no_mangle]
pub extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    truncate(fd, len)
}

#[no_mangle]
pub extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    truncate(fd, len)
}

#[no_mangle]
pub extern "C" fn mmap(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, off: off_t) -> *mut c_void {
    map(a, l, p, f, fd, off)
}

#[no_mangle]
pub extern "C" fn mmap64(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, off: off_t) -> *mut c_void {
    map(a, l, p, f, fd, off)
}

#[no_mangle]
pub extern "C" fn munmap(addr: *mut c_void, len: size_t) -> c_int {
    if recording() {
        rec(|r| {
            r.catch_up();
            r.maps.retain(|m| m.addr != addr as usize);
        });
    }
    unsafe { libc::syscall(libc::SYS_munmap, addr, len) as c_int }
}

#[no_mangle]
pub extern "C" fn mprotect(addr: *mut c_void, len: size_t, prot: c_int) -> c_int {
    if recording() && fault("mprotect") {
        return -1;
    }
    unsafe { libc::syscall(libc::SYS_mprotect, addr, len, prot) as c_int }
}

#[no_mangle]
pub extern "C" fn msync(addr: *mut c_void, len: size_t, flags: c_int) -> c_int {
    if recording() {
        rec(|r| r.catch_up());
    }
    if fault("msync") {
        return -1;
    }
    let res = unsafe { libc::syscall(libc::SYS_msync, addr, len, flags) as c_int };
    if res == 0 && flags & libc::MS_SYNC != 0 && recording() {
        rec(|r| {
            let a = addr as usize;
            if let Some(m) = r.maps.iter().find(|m| m.addr <= a && a < m.addr + m.len.max(1)) {
                let from = m.off + (a - m.addr);
                let e = Event::Sync { file: m.file.clone(), from, to: from + len };
                r.log.push(e);
            }
        });
    }
    res
}

#[no_mangle]
pub extern "C" fn fsync(fd: c_int) -> c_int {
    sync_fd(fd, "fsync", libc::SYS_fsync)
}

#[no_mangle]
pub extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_fd(fd, "fdatasync", libc::SYS_fdatasync)
}
