//! Scenarios: a few threads, each a short sequence of timer operations, written
//! `MODE/HOST/PROGRAM/PROGRAM..`, one program per thread. A program is `PRE;OPS`: PRE runs before
//! the explored phase. MODE: `warm` (the timer has been used before) or `cold`. HOST: `own` (each
//! thread's timeouts run on that thread) or `main` (all run on thread 0).
//!
//! nD mD: a sleep of D ms in slot a / b.  pq: poll it.  rD sD: reset it to D ms from now.
//! kN lN: reset it N times at once, at last to 4 ms from now, without interruption.
//! de: drop it.  x: read its elapsed flag.  t: one turn of this thread's event loop.  aD: D ms pass.
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;
use vsched::{alloc, fail, host};
use wasmtimer::std::Instant;
use wasmtimer::tokio::{sleep_until, Sleep};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    New(usize, u64),
    Poll(usize),
    Reset(usize, u64),
    Burst(usize, u64),
    Drop(usize),
    Elapsed(usize),
    Turn,
    Pass(u64),
}

#[derive(Clone, Debug)]
pub struct Scenario {
    warm: bool,
    routed: bool,
    #[cfg_attr(not(feature = "testutil"), allow(dead_code))]
    paused: bool,
    pre: Vec<Vec<Op>>,
    prog: Vec<Vec<Op>>,
}

fn ops(s: &str) -> Vec<Op> {
    let mut v = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        i += 1;
        let mut d = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            d = d * 10 + (b[i] - b'0') as u64;
            i += 1;
        }
        v.push(match c {
            b'n' => Op::New(0, d),
            b'm' => Op::New(1, d),
            b'p' => Op::Poll(0),
            b'q' => Op::Poll(1),
            b'r' => Op::Reset(0, d),
            b's' => Op::Reset(1, d),
            b'k' => Op::Burst(0, d),
            b'l' => Op::Burst(1, d),
            b'd' => Op::Drop(0),
            b'e' => Op::Drop(1),
            b'x' => Op::Elapsed(0),
            b't' => Op::Turn,
            b'a' => Op::Pass(d),
            _ => panic!("bad operation in {s}"),
        });
    }
    v
}

pub fn parse(name: &str) -> Scenario {
    let f: Vec<&str> = name.split('/').collect();
    let mut pre = Vec::new();
    let mut prog = Vec::new();
    for t in &f[2..] {
        let (a, b) = t.split_once(';').unwrap_or(("", t));
        pre.push(ops(a));
        prog.push(ops(b));
    }
    Scenario { warm: f[0] != "cold", paused: f[0] == "paused", routed: f[1] == "main", pre, prog }
}

// ---------------------------------------------------------------- wakers

#[derive(Default)]
struct W {
    woken: u32,
    clones: i32,
}
static mut WAKERS: Vec<Box<W>> = Vec::new();
#[allow(static_mut_refs)]
fn wakers() -> &'static mut Vec<Box<W>> {
    unsafe { &mut WAKERS }
}
unsafe fn w_clone(p: *const ()) -> RawWaker {
    (*(p as *mut W)).clones += 1;
    RawWaker::new(p, &VT)
}
unsafe fn w_wake(p: *const ()) {
    (*(p as *mut W)).woken += 1;
    (*(p as *mut W)).clones -= 1;
    vsched::log(|| "   a task is woken".to_string());
}
unsafe fn w_wake_ref(p: *const ()) {
    (*(p as *mut W)).woken += 1;
    vsched::log(|| "   a task is woken".to_string());
}
unsafe fn w_drop(p: *const ()) {
    (*(p as *mut W)).clones -= 1;
}
static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_ref, w_drop);

fn new_waker() -> (usize, Waker) {
    alloc::untracked(|| {
        wakers().push(Box::new(W { woken: 0, clones: 1 }));
        let p = &mut **wakers().last_mut().unwrap() as *mut W;
        (wakers().len() - 1, unsafe { Waker::from_raw(RawWaker::new(p as *const (), &VT)) })
    })
}

// ---------------------------------------------------------------- the sleeps

struct Slot {
    sleep: Option<Sleep>,
    deadline: u64,
    /// The waker of the last poll, when that was pending
    waits: Option<usize>,
    done: bool,
    polls: u32,
}

struct World {
    base: Option<Instant>,
    base_us: u64,
    slots: Vec<[Option<Slot>; 2]>,
    dropped: Vec<(usize, u64)>,
}

static mut WORLD: Option<World> = None;
#[allow(static_mut_refs)]
fn world() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}

/// The crate's instant at the start of the execution. It is read when first needed: the threads
/// may race for it.
fn base() -> Instant {
    if let Some(b) = world().base {
        return b;
    }
    loop {
        let before = host::host().now;
        let i = Instant::now();
        if host::host().now == before {
            let b = i - Duration::from_micros(before - world().base_us);
            world().base = Some(b);
            return b;
        }
    }
}

/// Time by the crate's clock.
fn now() -> u64 {
    if cfg!(feature = "testutil") {
        let b = base();
        world().base_us + (Instant::now() - b).as_micros() as u64
    } else {
        host::host().now
    }
}

fn at(us: u64) -> Instant {
    base() + Duration::from_micros(us - world().base_us)
}

fn poll(t: usize, k: usize) {
    let Some(s) = &mut world().slots[t][k] else { return };
    let (id, w) = new_waker();
    vsched::log(|| format!("poll {}", ["a", "b"][k]));
    let r = Pin::new(s.sleep.as_mut().unwrap()).poll(&mut Context::from_waker(&w));
    s.polls += 1;
    let now = now();
    match r {
        Poll::Ready(()) => {
            vsched::log(|| format!("   ready at {now}, due at {}", s.deadline));
            s.waits = None;
            s.done = true;
            if now < s.deadline {
                fail(|| format!("a sleep is ready at {} us, before its deadline at {} us", now, s.deadline));
            }
        }
        Poll::Pending => {
            vsched::log(|| "   pending".to_string());
            if s.done {
                fail(|| "a sleep that was ready is pending again without a reset".to_string());
            }
            s.waits = Some(id);
        }
    }
    drop(w);
}

fn step(t: usize, op: Op) {
    match op {
        Op::New(k, d) => {
            let deadline = now() + d * 1000;
            let due = at(deadline);
            vsched::log(|| format!("new sleep {} due at {deadline}", ["a", "b"][k]));
            let s = sleep_until(due);
            if s.deadline() != due {
                fail(|| "a new sleep reports another deadline than the one given".to_string());
            }
            let old = world().slots[t][k].replace(Slot { sleep: Some(s), deadline, waits: None, done: false, polls: 0 });
            assert!(old.is_none());
        }
        Op::Poll(k) => poll(t, k),
        Op::Reset(k, d) => {
            let deadline = now() + d * 1000;
            let due = at(deadline);
            let Some(s) = &mut world().slots[t][k] else { return };
            s.deadline = deadline;
            // a task that waits goes on waiting: its waker is for the new deadline now
            s.done = false;
            vsched::log(|| format!("reset {} to {deadline}", ["a", "b"][k]));
            Pin::new(s.sleep.as_mut().unwrap()).reset(due);
            if s.sleep.as_ref().unwrap().deadline() != due {
                fail(|| "a sleep reports another deadline than the one it was reset to".to_string());
            }
        }
        Op::Burst(k, n) => vsched::quietly(|| {
            for i in (0..n).rev() {
                step(t, Op::Reset(k, 4 + i % 3));
            }
        }),
        Op::Drop(k) => {
            vsched::log(|| format!("drop {}", ["a", "b"][k]));
            if let Some(mut s) = world().slots[t][k].take() {
                if let Some(w) = s.waits {
                    alloc::untracked(|| world().dropped.push((w, s.deadline)));
                }
                drop(s.sleep.take());
            }
        }
        Op::Elapsed(k) => {
            let Some(s) = &mut world().slots[t][k] else { return };
            let e = s.sleep.as_ref().unwrap().is_elapsed();
            let now = now();
            vsched::log(|| format!("elapsed: {e}"));
            if e && now < s.deadline {
                fail(|| format!("a sleep is reported elapsed at {} us, before its deadline at {} us", now, s.deadline));
            }
        }
        Op::Turn => {
            host::turn(t);
        }
        Op::Pass(d) => pass(d * 1000, true),
    }
}

#[allow(unused_variables)]
fn pass(us: u64, concurrent: bool) {
    #[cfg(feature = "testutil")]
    if PAUSED.with(|p| p.get()) {
        vsched::log(|| format!("advance by {us}"));
        let f = wasmtimer::tokio::advance(Duration::from_micros(us));
        let mut f = std::pin::pin!(f);
        let (_, w) = new_waker();
        if f.as_mut().poll(&mut Context::from_waker(&w)).is_pending() {
            fail(|| "advance is pending".to_string());
        }
        return;
    }
    host::advance(us);
}

#[cfg(feature = "testutil")]
std::thread_local! { static PAUSED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

/// Live blocks that the crate keeps for the life of the process (measured on a trivial run).
pub static mut KEPT: usize = usize::MAX;

/// How late, in microseconds, a sleep may complete on the punctual host of the epilogue.
const LATE: u64 = 5_000;

pub fn run(s: &Scenario) -> u64 {
    let n = s.prog.len();
    host::host().routed = s.routed;
    wakers().clear();
    let base_us = host::host().now;
    unsafe { WORLD = Some(World { base: None, base_us, slots: (0..n).map(|_| [None, None]).collect(), dropped: Vec::new() }) };
    if s.warm {
        alloc::tracked(base);
    }
    #[cfg(feature = "testutil")]
    PAUSED.with(|p| p.set(s.paused));
    #[cfg(feature = "testutil")]
    if s.paused {
        alloc::tracked(wasmtimer::tokio::pause);
    }
    if s.warm {
        alloc::tracked(|| drop(sleep_until(at(base_us + 1000))));
    }
    for (t, ops) in s.pre.iter().enumerate() {
        host::host().actor = t;
        for op in ops {
            alloc::tracked(|| step(t, *op));
        }
    }
    if s.warm {
        turn_all(n);
    }

    let bodies = s.prog.iter().enumerate().map(|(t, ops)| {
        let ops = ops.clone();
        Box::new(move || {
            for op in ops.iter() {
                step(t, *op);
            }
            // the harness's own block
            alloc::untracked(|| drop(ops));
        }) as Box<dyn FnOnce()>
    });
    vsched::run_threads(bodies.collect());
    if vsched::failed() {
        return 0;
    }
    vsched::log(|| "-- the threads have ended; from here on the host is punctual".to_string());
    epilogue(n);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for w in wakers().iter() {
        w.woken.hash(&mut h);
    }
    for s in world().slots.iter().flatten().flatten() {
        (s.done, s.polls, s.deadline).hash(&mut h);
    }
    host::host().set.hash(&mut h);
    let sig = h.finish();
    if vsched::failed() {
        return sig;
    }

    // everything goes; nothing may stay behind
    for s in world().slots.iter_mut().flatten() {
        alloc::tracked(|| drop(s.take()));
    }
    turn_all(n);
    let held = wakers().iter().filter(|w| w.clones != 0).count();
    if held > 0 {
        fail(|| format!("{held} wakers are kept after all the sleeps have been dropped and the event loops have turned"));
    }
    alloc::tracked(host::destroy);
    let live = alloc::live();
    unsafe {
        if KEPT == usize::MAX {
            KEPT = live;
        }
        // a thread that loses the race for the first use leaves its timer behind, once and for all
        let allowed = if s.warm { KEPT } else { KEPT * n };
        if live > allowed {
            fail(|| format!("{} blocks of memory are kept after everything has ended, {} more than by a single use", live, live - KEPT));
        }
    }
    sig
}

fn turn_all(n: usize) {
    for _ in 0..2 {
        for t in 0..n {
            host::host().actor = t;
            host::turn(t);
        }
    }
}

fn epilogue(n: usize) {
    let start = now();
    // a task that has not polled since its last reset does it now
    for t in 0..n {
        for k in 0..2 {
            host::host().actor = t;
            if matches!(&world().slots[t][k], Some(s) if s.waits.is_none() && !s.done) {
                alloc::tracked(|| poll(t, k));
            }
        }
    }
    let dropped: Vec<(usize, u32, u64)> = world().dropped.iter().map(|d| (d.0, wakers()[d.0].woken, d.1)).collect();
    let end = world().slots.iter().flatten().flatten().map(|s| s.deadline).max().unwrap_or(start).max(start) + LATE + 1000;
    let mut idle = 0;
    loop {
        let due = host::next_due();
        if due.is_some_and(|d| d <= host::host().now) && idle < 50 {
            idle += 1;
            for t in 0..n {
                host::host().actor = t;
                host::turn(t);
            }
        } else if now() >= end {
            break;
        } else {
            idle = 0;
            alloc::tracked(|| pass(1000, false));
        }
        let now = now();
        for t in 0..n {
            for k in 0..2 {
                let Some(s) = &world().slots[t][k] else { continue };
                if s.done {
                    continue;
                }
                if s.sleep.as_ref().unwrap().is_elapsed() && now < s.deadline {
                    fail(|| format!("a sleep is reported elapsed at {} us, before its deadline at {} us", now, s.deadline));
                }
                if s.waits.is_some_and(|w| wakers()[w].woken > 0) {
                    host::host().actor = t;
                    alloc::tracked(|| poll(t, k));
                }
                let s = world().slots[t][k].as_ref().unwrap();
                if !s.done && now > s.deadline.max(start) + LATE {
                    fail(|| format!("a sleep is asleep past its last deadline: due at {} us, and its task has not been woken by {} us", s.deadline, now));
                }
            }
        }
        if vsched::failed() {
            return;
        }
    }
    for (w, before, deadline) in dropped {
        if wakers()[w].woken > before && deadline > start {
            fail(|| "a sleep that was dropped wakes its task for a later deadline".to_string());
        }
    }
}

// ---------------------------------------------------------------- the scenarios

/// All the sequences of up to `len` operations a thread can make on slot a (which it has iff `has`).
fn programs(len: usize, has: bool, alphabet: &[&str], min: usize) -> Vec<String> {
    let mut out = Vec::new();
    fn go(out: &mut Vec<String>, cur: String, n: usize, len: usize, min: usize, has: bool, alphabet: &[&str]) {
        if n >= min {
            out.push(cur.clone());
        }
        if n == len {
            return;
        }
        for a in alphabet {
            let last = cur.chars().last();
            let c = a.chars().next().unwrap();
            let has2 = match c {
                'n' if has => continue,
                'n' => true,
                'p' | 'r' | 'k' | 'd' | 'x' if !has => continue,
                'p' if last == Some('p') => continue,
                'd' => false,
                _ => has,
            };
            go(out, format!("{cur}{a}"), n + 1, len, min, has2, alphabet);
        }
    }
    go(&mut out, String::new(), 0, len, min, has, alphabet);
    out
}

pub fn list(tier: &str) -> Vec<(String, usize)> {
    let deep = tier == "thorough";
    let mut v = Vec::new();
    let user = ["n2", "n5", "p", "r1", "r4", "d"];
    let b = if deep { 4 } else { 3 };
    if cfg!(feature = "testutil") {
        // racing for the first use of the clock and of the timer
        for p in ["n2p", "n0p", "n2pd", "n2"] {
            for q in ["n2p", "n0p", "n5pr1p", "a1n2pt"] {
                v.push((format!("cold/own/{p}/{q}"), b));
                v.push((format!("cold/main/{p}/{q}"), b));
            }
        }
        v.push(("cold/own/n2p/n2p/n2p".to_string(), b - 1));
        // the clock is paused: one thread advances it
        for host in ["own", "main"] {
            for d in ["a3", "a1a3", "ta3", "a3t"] {
                for p in programs(if deep { 3 } else { 2 }, true, &["n2", "p", "r1", "r4", "d", "t"], 1) {
                    v.push((format!("paused/{host}/{d}/n2p;{p}"), b - 1));
                }
                for p in programs(if deep { 3 } else { 2 }, false, &["n2", "p", "r4", "d", "t"], 1) {
                    v.push((format!("paused/{host}/{d}/;{p}"), b - 1));
                }
            }
        }
        return v;
    }
    // racing for the first use of the timer
    for p in ["n2p", "n0p", "n2pd", "n5pr1p", "n2pt", "tn2p"] {
        for q in ["n2p", "n0p", "n2pd", "n5pr1p", "n2pt", "a1tn1p"] {
            v.push((format!("cold/own/{p}/{q}"), b));
            v.push((format!("cold/main/{p}/{q}"), b));
        }
    }
    v.push(("cold/own/n2p/n2p/n2p".to_string(), b - 1));
    // one thread runs the driver, while another uses sleeps
    for host in ["main", "own"] {
        for d in ["t", "a3t", "ta3t", "a1ta3t", "tt"] {
            for p in programs(if deep { 4 } else { 3 }, true, &user, 1) {
                v.push((format!("warm/{host}/{d}/n2p;{p}"), b));
            }
            for p in programs(if deep { 3 } else { 2 }, true, &["n2", "p", "r1", "r4", "d", "x", "a1"], 1) {
                v.push((format!("warm/{host}/{d}/n2pa2;{p}"), b));
            }
            for p in programs(if deep { 4 } else { 3 }, false, &user, 1) {
                v.push((format!("warm/{host}/{d}/;{p}"), b));
            }
        }
    }
    // so many resets that a count of them comes round
    for host in ["main", "own"] {
        for d in ["t", "a3t", "ta3t"] {
            for j in 1..=if deep { 10 } else { 8 } {
                for p in ["", "p", "x", "r1"] {
                    v.push((format!("warm/{host}/{d}/n2p;k{}{p}", 1 << j), if deep { 3 } else { 2 }));
                }
            }
        }
    }
    // both threads use sleeps and run their own event loops
    let both = ["n2", "p", "r1", "r4", "d", "t", "a3"];
    let a = programs(if deep { 3 } else { 2 }, true, &both, 2);
    let c = programs(2, true, &["p", "r1", "r4", "d", "t"], 2);
    for (i, p) in a.iter().enumerate() {
        for (j, q) in c.iter().enumerate() {
            // the order of the two threads matters little
            if !deep && (i + j) % 2 == 1 {
                continue;
            }
            v.push((format!("warm/own/n2p;{p}/n3p;{q}"), if deep { 3 } else { 2 }));
        }
    }
    // two users besides the driver
    for d in ["t", "a3t", "ta3t"] {
        for p in ["r4p", "r1", "d", "n1p", "dn4p"] {
            for q in ["r4p", "r1", "d", "r4r1p"] {
                let (pre, p) = if p.starts_with('n') { ("", p) } else { ("n2p", p) };
                v.push((format!("warm/main/{d}/{pre};{p}/n2p;{q}"), b - 1));
            }
        }
    }
    v
}
