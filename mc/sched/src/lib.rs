//! Runs a few real threads one at a time, under the control of the explorer.
//!
//! At every scheduling point ([`point`], placed before each operation on a lock, atomic, system call or index
//! access) the running thread asks the explorer whether another enabled thread goes first; that is a preemption and
//! costs one deviation.  When the running thread blocks or ends, the next one is a free choice.  No enabled thread
//! while some are blocked is a deadlock; too many points is a livelock.  Threads the scheduler did not start pass
//! through every point.

use mclib::Ctx;
use std::{
    any::Any,
    cell::{Cell, RefCell},
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    sync::{
        mpsc::{channel, Sender},
        atomic::{AtomicUsize, Ordering},
        Arc, Condvar, Mutex, MutexGuard,
    },
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Enabled,
    Blocked(usize),
    /// waiting, but may go on by itself (a wait with a timeout)
    Waiting(usize),
    Done,
}

struct State {
    status: Vec<Status>,
    current: usize,
    ctx: *mut Ctx<'static>,
    points: usize,
    clock: u64,
    aborted: Option<Abort>,
    panic: Option<Box<dyn Any + Send>>,
    message: Option<String>,
    schedule: Vec<(usize, &'static str)>,
}

// the explorer's context is used by one thread at a time: the current one
unsafe impl Send for State {}

#[derive(Clone, Debug, PartialEq)]
pub enum Abort {
    Deadlock(String),
    Livelock,
    Panic,
}

struct Unwind;

struct Sched {
    state: Mutex<State>,
    wake: Vec<Condvar>,
    over: Condvar,
}

const MAX_POINTS: usize = 20_000;

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

fn me() -> Option<(Arc<Sched>, usize)> {
    ME.try_with(|m| m.try_borrow().ok().and_then(|m| m.clone())).ok().flatten()
}

impl Sched {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn abort(&self, st: &mut State, a: Abort) {
        if st.aborted.is_none() {
            st.aborted = Some(a);
        }
        for c in &self.wake {
            c.notify_all();
        }
    }

    /// hands over to `next` and waits to be current again
    fn switch(&self, mut st: MutexGuard<'_, State>, me: usize, next: usize) {
        st.current = next;
        self.wake[next].notify_all();
        while st.current != me && st.aborted.is_none() {
            st = self.wake[me].wait(st).unwrap_or_else(|e| e.into_inner());
        }
        if st.aborted.is_some() {
            drop(st);
            resume_unwind(Box::new(Unwind));
        }
    }

    /// picks the thread that runs when the current one cannot
    fn next(&self, st: &mut State) -> Option<usize> {
        let enabled: Vec<usize> = (0..st.status.len()).filter(|i| st.status[*i] == Status::Enabled).collect();
        let pool = if enabled.is_empty() {
            (0..st.status.len()).filter(|i| matches!(st.status[*i], Status::Waiting(_))).collect()
        } else {
            enabled
        };
        if pool.is_empty() {
            return None;
        }
        let k = unsafe { (*st.ctx).choose(pool.len()) };
        st.status[pool[k]] = Status::Enabled;
        Some(pool[k])
    }
}

/// A scheduling point before the operation `what`.
pub fn point(what: &'static str) {
    let Some((s, me)) = me() else { return };
    if std::thread::panicking() {
        return;
    }
    let mut st = s.lock();
    if st.aborted.is_some() {
        drop(st);
        resume_unwind(Box::new(Unwind));
    }
    st.points += 1;
    if st.points > MAX_POINTS {
        s.abort(&mut st, Abort::Livelock);
        drop(st);
        resume_unwind(Box::new(Unwind));
    }
    unsafe { (*st.ctx).step() };
    let mut pool = vec![me];
    pool.extend((0..st.status.len()).filter(|i| *i != me && st.status[*i] == Status::Enabled));
    let k = if pool.len() > 1 { unsafe { (*st.ctx).dev(pool.len()) } } else { 0 };
    if unsafe { (*st.ctx).verbose() } {
        st.schedule.push((me, what));
    }
    if pool[k] != me {
        s.switch(st, me, pool[k]);
    }
}

/// Whether the calling thread is under control.
pub fn controlled() -> bool {
    me().is_some()
}

/// Blocks the calling thread until `wake(on)`.  With `timeout`, it may also go on when nothing else can run.
/// Returns whether it was woken.
pub fn block(on: usize, timeout: bool) -> bool {
    let Some((s, me)) = me() else {
        std::thread::yield_now();
        return true;
    };
    let mut st = s.lock();
    if st.aborted.is_some() {
        drop(st);
        if std::thread::panicking() {
            return true;
        }
        resume_unwind(Box::new(Unwind));
    }
    st.status[me] = if timeout { Status::Waiting(on) } else { Status::Blocked(on) };
    match s.next(&mut st) {
        None => {
            let who: Vec<String> = st
                .status
                .iter()
                .enumerate()
                .filter(|(_, x)| **x != Status::Done)
                .map(|(i, _)| format!("thread {i}"))
                .collect();
            s.abort(&mut st, Abort::Deadlock(format!("{} wait for each other", who.join(", "))));
            drop(st);
            resume_unwind(Box::new(Unwind));
        }
        Some(n) if n == me => false,
        Some(n) => {
            s.switch(st, me, n);
            true
        }
    }
}

/// Lets the threads blocked on `on` run again.
pub fn wake(on: usize) {
    let Some((s, _)) = me() else { return };
    let mut st = s.lock();
    for x in st.status.iter_mut() {
        if *x == Status::Blocked(on) || *x == Status::Waiting(on) {
            *x = Status::Enabled;
        }
    }
}

/// Lets one thread blocked on `on` run again (the explorer picks it).
pub fn wake_one(on: usize) {
    let Some((s, _)) = me() else { return };
    let mut st = s.lock();
    let pool: Vec<usize> = (0..st.status.len())
        .filter(|i| st.status[*i] == Status::Blocked(on) || st.status[*i] == Status::Waiting(on))
        .collect();
    if !pool.is_empty() {
        let k = unsafe { (*st.ctx).choose(pool.len()) };
        st.status[pool[k]] = Status::Enabled;
    }
}

/// A logical clock that orders the calls and returns of the controlled threads.
pub fn now() -> u64 {
    let Some((s, _)) = me() else { return 0 };
    let mut st = s.lock();
    st.clock += 1;
    st.clock
}

pub struct Outcome<T> {
    pub results: Vec<Option<T>>,
    pub abort: Option<Abort>,
    /// what the thread that panicked said
    pub message: Option<String>,
    pub schedule: Vec<(usize, &'static str)>,
}

type Body<T> = Box<dyn FnOnce() -> T + Send>;

/// Keeps this thread and those it starts on one core: only one of them runs at a time, and handing over within a
/// core is much cheaper than waking another.
fn settle() {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    thread_local! {
        static DONE: Cell<bool> = const { Cell::new(false) };
    }
    if DONE.with(|d| d.replace(true)) {
        return;
    }
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cores: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
        if cores.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cores[NEXT.fetch_add(1, Ordering::Relaxed) % cores.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

type Job = Box<dyn FnOnce() + Send>;

/// Runs `job` on the `i`-th of the threads kept for the calling thread.
fn hire(i: usize, job: impl FnOnce() + Send + 'static) {
    thread_local! {
        static POOL: RefCell<Vec<Sender<Job>>> = const { RefCell::new(vec![]) };
    }
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() <= i {
            let (send, receive) = channel::<Job>();
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || receive.iter().for_each(|job| job()))
                .expect("a thread");
            p.push(send);
        }
        p[i].send(Box::new(job)).expect("the thread is alive");
    })
}

/// The `i`-th thread, from its first turn to handing over for good.
fn live<T>(s: &Arc<Sched>, i: usize, body: Body<T>) -> Option<T> {
    ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut st = s.lock();
        while st.current != i && st.aborted.is_none() {
            st = s.wake[i].wait(st).unwrap_or_else(|e| e.into_inner());
        }
        if st.aborted.is_some() {
            drop(st);
            resume_unwind(Box::new(Unwind));
        }
        drop(st);
        body()
    }));
    let mut out = None;
    let mut st = s.lock();
    match r {
        Ok(r) => out = Some(r),
        Err(p) if p.is::<Unwind>() => {}
        Err(p) => {
            if st.panic.is_none() {
                st.panic = Some(p);
                st.message = mclib::take_panic();
            }
            s.abort(&mut st, Abort::Panic);
        }
    }
    st.status[i] = Status::Done;
    if st.aborted.is_none() {
        // the choice may find that a replayed prefix does not fit
        let next = catch_unwind(AssertUnwindSafe(|| s.next(&mut st)));
        match next {
            Err(p) => {
                st.panic = Some(p);
                s.abort(&mut st, Abort::Panic);
            }
            Ok(Some(n)) => {
                st.current = n;
                s.wake[n].notify_all();
            }
            Ok(None) if st.status.iter().any(|x| *x != Status::Done) => {
                let who: Vec<String> = (0..st.status.len())
                    .filter(|i| st.status[*i] != Status::Done)
                    .map(|i| format!("thread {i}"))
                    .collect();
                s.abort(&mut st, Abort::Deadlock(format!("{} can never go on", who.join(", "))));
            }
            Ok(None) => {}
        }
    }
    drop(st);
    ME.with(|m| *m.borrow_mut() = None);
    out
}

/// Runs `bodies` to completion under one schedule.
pub fn run<T: Send + 'static>(ctx: &mut Ctx, bodies: Vec<Body<T>>) -> Outcome<T> {
    settle();
    let n = bodies.len();
    let first = ctx.choose(n);
    let s = Arc::new(Sched {
        state: Mutex::new(State {
            status: vec![Status::Enabled; n],
            current: first,
            ctx: ctx as *mut Ctx<'_> as *mut Ctx<'static>,
            points: 0,
            clock: 0,
            aborted: None,
            panic: None,
            message: None,
            schedule: vec![],
        }),
        wake: (0..n).map(|_| Condvar::new()).collect(),
        over: Condvar::new(),
    });
    let results: Arc<Mutex<(Vec<Option<T>>, usize)>> = Arc::new(Mutex::new(((0..n).map(|_| None).collect(), 0)));
    for (i, body) in bodies.into_iter().enumerate() {
        let (s, results) = (s.clone(), results.clone());
        hire(i, move || {
            let out = live(&s, i, body);
            let mut r = results.lock().unwrap_or_else(|e| e.into_inner());
            r.0[i] = out;
            r.1 += 1;
            drop(r);
            s.over.notify_all();
        });
    }
    let mut r = results.lock().unwrap_or_else(|e| e.into_inner());
    while r.1 < n {
        r = s.over.wait(r).unwrap_or_else(|e| e.into_inner());
    }
    let results = std::mem::take(&mut r.0);
    let mut st = s.lock();
    if let Some(p) = st.panic.take() {
        if p.is::<mclib::Divergence>() {
            resume_unwind(p);
        }
    }
    Outcome {
        results,
        abort: st.aborted.clone(),
        message: st.message.take(),
        schedule: std::mem::take(&mut st.schedule),
    }
}
