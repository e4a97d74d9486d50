#![feature(arbitrary_self_types)]
//! A controlled scheduler for stateless model checking of native code: the program's threads are
//! coroutines on one OS thread, every operation on shared memory is a scheduling point, and the
//! explorer enumerates all the schedules within a preemption bound.
pub mod alloc;
mod coro;
pub mod host;
pub mod sync;

use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum State {
    Ready,
    /// Waits for the lock at this address
    Blocked(usize),
    Done,
}

struct Rt {
    active: bool,
    cur: usize,
    states: Vec<State>,
    sps: Vec<usize>,
    main_sp: usize,
    // the choices of this execution: (taken, arity)
    path: Vec<(u8, u8)>,
    pos: usize,
    preemptions: usize,
    bound: usize,
    steps: u64,
    /// A thread that is not to be preempted for now (blocking still lets others run)
    quiet: usize,
    quiet_steps: u64,
    failure: Option<String>,
    log: Option<Vec<String>>,
}

static mut RT: Option<Rt> = None;
static mut EPOCH: u64 = 1;

pub const STEP_LIMIT: u64 = 20_000;
pub const MAX_THREADS: usize = 4;

#[allow(static_mut_refs)]
fn rt() -> &'static mut Rt {
    unsafe {
        RT.get_or_insert_with(|| Rt {
            active: false,
            cur: usize::MAX,
            states: Vec::new(),
            sps: Vec::new(),
            main_sp: 0,
            path: Vec::new(),
            pos: 0,
            preemptions: 0,
            bound: 0,
            steps: 0,
            quiet: usize::MAX,
            quiet_steps: 0,
            failure: None,
            log: None,
        })
    }
}

pub(crate) fn epoch() -> u64 {
    unsafe { EPOCH }
}

/// The running thread, or `usize::MAX` outside the explored phase.
pub fn current() -> usize {
    rt().cur
}

pub fn logging() -> bool {
    rt().log.is_some()
}

pub fn log(f: impl FnOnce() -> String) {
    let r = rt();
    if r.log.is_some() {
        let t = alloc::untracked(|| {
            let who = if r.cur == usize::MAX { "main".to_string() } else { format!("t{}", r.cur) };
            format!("{who}: {}", f())
        });
        alloc::untracked(|| rt().log.as_mut().unwrap().push(t));
    }
}

/// Records a failure; the first one counts.
pub fn fail(what: impl FnOnce() -> String) {
    let r = rt();
    if r.failure.is_none() {
        r.failure = Some(alloc::untracked(what));
    }
}

pub fn failed() -> bool {
    rt().failure.is_some()
}

/// A data choice among `n` alternatives.
pub fn choose(n: usize) -> usize {
    let r = rt();
    if n <= 1 {
        return 0;
    }
    if r.pos == r.path.len() {
        alloc::untracked(|| r.path.push((0, n as u8)));
    } else if r.path[r.pos].1 == 0 {
        // replay of a bare list of choices
        r.path[r.pos].1 = n as u8;
    } else if r.path[r.pos].1 != n as u8 {
        panic!("the execution is not deterministic: {} alternatives instead of {}", n, r.path[r.pos].1);
    }
    let c = r.path[r.pos].0 as usize;
    r.pos += 1;
    c
}

fn switch_to(next: usize) {
    let r = rt();
    let cur = r.cur;
    if next == cur {
        return;
    }
    r.cur = next;
    alloc::set_tracking(true);
    unsafe { coro::switch(&mut r.sps[cur] as *mut usize, r.sps[next]) }
}

/// Gives up on this execution: back to the explorer for good (the coroutines are abandoned, their
/// memory is taken back by the allocator).
fn abandon() -> ! {
    let r = rt();
    let mut dummy = 0usize;
    r.cur = usize::MAX;
    r.active = false;
    unsafe { coro::switch(&mut dummy, r.main_sp) };
    unreachable!()
}

/// Ends this execution after a failure from which there is no going on.
pub(crate) fn give_up() -> ! {
    if rt().active && rt().cur != usize::MAX {
        abandon();
    }
    panic!("given up");
}

/// Runs `f` without offering the scheduling points inside it (only at its start).
pub fn quietly(f: impl FnOnce()) {
    point("a burst");
    let old = std::mem::replace(&mut rt().quiet, rt().cur);
    f();
    rt().quiet = old;
}

/// A scheduling point: any other thread that can run may go first, within the preemption bound.
#[inline]
pub fn point(what: &'static str) {
    let r = rt();
    if !r.active || r.cur == usize::MAX || std::thread::panicking() {
        return;
    }
    point_slow(what)
}

fn point_slow(what: &'static str) {
    let r = rt();
    if r.failure.is_some() {
        abandon();
    }
    if r.quiet == r.cur {
        r.quiet_steps += 1;
        if r.quiet_steps > 100 * STEP_LIMIT {
            fail(|| "no end: a thread keeps itself busy".to_string());
            abandon();
        }
        return;
    }
    r.steps += 1;
    if r.steps > STEP_LIMIT {
        fail(|| format!("no end after {STEP_LIMIT} steps: the threads keep each other busy"));
        abandon();
    }
    if r.preemptions < r.bound {
        let mut options = [0usize; MAX_THREADS];
        options[0] = r.cur;
        let mut n = 1;
        for (i, s) in r.states.iter().enumerate() {
            if i != r.cur && *s == State::Ready {
                options[n] = i;
                n += 1;
            }
        }
        let next = options[choose(n)];
        if next != r.cur {
            r.preemptions += 1;
            log(|| format!("-- preempted before {what}"));
            switch_to(next);
            if rt().failure.is_some() {
                abandon();
            }
        }
    }
    log(|| what.to_string());
}

fn next_ready() {
    let r = rt();
    let mut options = [0usize; MAX_THREADS];
    let mut n = 0;
    for (i, s) in r.states.iter().enumerate() {
        if *s == State::Ready {
            options[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        if r.states.iter().all(|s| *s == State::Done) {
            abandon();
        }
        fail(|| format!("deadlock: {}", describe()));
        abandon();
    }
    let next = options[choose(n)];
    switch_to(next);
}

fn describe() -> String {
    let r = rt();
    r.states.iter().enumerate().map(|(i, s)| format!("thread {i} {}", match s { State::Ready => "ready", State::Blocked(_) => "waits for a lock", State::Done => "has ended" })).collect::<Vec<_>>().join(", ")
}

/// Waits until `unblock(addr)`.
pub(crate) fn block(addr: usize) {
    let r = rt();
    if !r.active || r.cur == usize::MAX {
        fail(|| "deadlock: the only running thread waits for a lock that is held".to_string());
        // nobody can release it
        panic!("deadlock");
    }
    if std::thread::panicking() {
        fail(|| "a lock is waited for while unwinding".to_string());
        abandon();
    }
    r.states[r.cur] = State::Blocked(addr);
    log(|| "-- waits for a lock".to_string());
    next_ready();
    if rt().failure.is_some() {
        abandon();
    }
}

pub(crate) fn unblock(addr: usize) {
    for s in rt().states.iter_mut() {
        if *s == State::Blocked(addr) {
            *s = State::Ready;
        }
    }
}

/// Runs the threads to their end, under the schedule being explored.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce()>>) {
    let n = bodies.len();
    assert!(n <= MAX_THREADS);
    {
        let r = rt();
        r.states = vec![State::Ready; n];
        r.sps = bodies.into_iter().enumerate().map(|(i, b)| coro::prepare(i, b)).collect();
        r.active = true;
    }
    let r = rt();
    // the first thread to run is a choice of its own
    let first = choose(n);
    r.cur = first;
    alloc::set_tracking(true);
    unsafe { coro::switch(&mut r.main_sp as *mut usize, r.sps[first]) };
    alloc::set_tracking(false);
    let r = rt();
    r.active = false;
    r.cur = usize::MAX;
}

pub(crate) fn thread_main(f: Box<dyn FnOnce()>) -> ! {
    if catch_unwind(AssertUnwindSafe(f)).is_err() {
        fail(|| format!("panic: {}", last_panic()));
        abandon();
    }
    let r = rt();
    r.states[r.cur] = State::Done;
    if r.failure.is_some() {
        abandon();
    }
    next_ready();
    unreachable!()
}

static mut LAST_PANIC: String = String::new();

#[allow(static_mut_refs)]
pub fn last_panic() -> String {
    unsafe { LAST_PANIC.clone() }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let text = alloc::untracked(|| {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let at = i.location().map(|l| format!(" ({}:{})", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
            m + &at
        });
        unsafe { LAST_PANIC = text };
    }));
}

pub struct Outcome {
    pub failure: Option<String>,
    pub path: Vec<(u8, u8)>,
    pub steps: u64,
    pub log: Vec<String>,
}

/// One execution along `path` (first alternatives beyond its end).
pub fn execute(path: Vec<(u8, u8)>, bound: usize, tracing: bool, body: &mut dyn FnMut()) -> Outcome {
    unsafe { EPOCH += 1 };
    let r = rt();
    r.active = false;
    r.cur = usize::MAX;
    r.path = path;
    r.pos = 0;
    r.preemptions = 0;
    r.bound = bound;
    r.steps = 0;
    r.quiet = usize::MAX;
    r.quiet_steps = 0;
    r.failure = None;
    r.log = if tracing { Some(Vec::new()) } else { None };
    host::reset();
    alloc::begin();
    let res = catch_unwind(AssertUnwindSafe(|| body()));
    if res.is_err() {
        fail(|| format!("panic: {}", last_panic()));
    }
    host::reset();
    if let Some(what) = alloc::end() {
        fail(|| what);
    }
    let r = rt();
    r.path.truncate(r.pos.max(0));
    Outcome { failure: r.failure.take(), path: std::mem::take(&mut r.path), steps: r.steps, log: r.log.take().unwrap_or_default() }
}

/// The next path in depth-first order below a prefix of `fixed` choices.
pub fn next_path(path: &mut Vec<(u8, u8)>, fixed: usize) -> bool {
    while path.len() > fixed {
        let (c, n) = *path.last().unwrap();
        if c + 1 < n {
            path.last_mut().unwrap().0 = c + 1;
            return true;
        }
        path.pop();
    }
    false
}
