//! What completed and dropped timers retain (C06).
use crate::env::{self, choose, Hasher};
use crate::world::*;
use crate::{alloc, ensure, log, waker, Suite, BOTH};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use wasmtimer::std::Instant;
use wasmtimer::tokio::{interval, sleep, timeout, Interval, Sleep};
use wasmtimer::tokio_util::DelayQueue;

pub struct Manual(pub std::rc::Rc<std::cell::Cell<bool>>);
impl Future for Manual {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u32> {
        if self.0.get() {
            Poll::Ready(7)
        } else {
            Poll::Pending
        }
    }
}

enum T {
    S(Pin<Box<Sleep>>),
    O(Pin<Box<wasmtimer::tokio::Timeout<Manual>>>, std::rc::Rc<std::cell::Cell<bool>>),
    I(Box<Interval>),
    Q(Box<DelayQueue<u64>>),
}

fn cx<R>(w: usize, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    let wk = waker::get(w);
    let r = f(&mut Context::from_waker(&wk));
    drop(wk);
    r
}

const KINDS: usize = 5;
/// Creates and uses one timer of the kind; `w`: the waker it is given.
fn make(kind: usize, w: usize) -> T {
    match kind {
        0 => {
            let mut s = Box::pin(sleep(us_dur(3_000)));
            let _ = poll(s.as_mut(), w);
            T::S(s)
        }
        1 => {
            let mut s = Box::pin(sleep(us_dur(3_600_000_000)));
            let _ = poll(s.as_mut(), w);
            T::S(s)
        }
        2 => {
            let f = std::rc::Rc::new(std::cell::Cell::new(false));
            let mut t = Box::pin(timeout(us_dur(4_000), Manual(f.clone())));
            let _ = poll(t.as_mut(), w);
            T::O(t, f)
        }
        3 => {
            let mut i = Box::new(interval(us_dur(2_000)));
            cx(w, |c| {
                let _ = i.poll_tick(c);
            });
            T::I(i)
        }
        _ => {
            let mut q = Box::new(DelayQueue::new());
            let k = q.insert(1, us_dur(3_000_000));
            q.insert(2, us_dur(4_000));
            cx(w, |c| {
                let _ = q.poll_expired(c);
            });
            q.reset(&k, us_dur(90_000));
            T::Q(q)
        }
    }
}
/// Something done to it in the middle of its life.
fn touch(t: &mut T, w: usize, how: usize) {
    match (t, how) {
        (_, 0) => {}
        (T::S(s), 1) => {
            let at = Instant::now() + us_dur(5_000_000);
            s.as_mut().reset(at);
            let _ = poll(s.as_mut(), w);
        }
        (T::S(s), _) => {
            let _ = poll(s.as_mut(), w);
        }
        (T::O(t, f), k) => {
            f.set(k == 1);
            if !f.get() {
                let _ = poll(t.as_mut(), w);
            }
        }
        (T::I(i), 1) => i.reset(),
        (T::I(i), _) => cx(w, |c| {
            let _ = i.poll_tick(c);
        }),
        (T::Q(q), 1) => {
            q.clear();
            cx(w, |c| {
                let _ = q.poll_expired(c);
            })
        }
        (T::Q(q), _) => cx(w, |c| {
            let _ = q.poll_expired(c);
        }),
    }
}

/// One cycle, the same in every round: two timers of two kinds, overlapping in one of
/// several ways. After it, no waker may be alive; after many, no memory may be gained.
fn cycles() {
    let n = env::bound();
    let h = env::pick(&[NODE, BROWSER]);
    let a = choose(KINDS);
    let b = choose(KINDS + 1);
    let how = choose(3);
    let mid = env::pick(&[0i64, 1_200, 6_000, 40_000]);
    let order = choose(2);
    let tail = env::pick(&[0i64, 300_000]);
    Base::new(&h);
    let mut mem: Vec<(usize, usize)> = Vec::with_capacity(n);
    let mut peak = 0;
    for r in 0..n {
        env::step();
        let mut x = make(a, 0);
        let mut y = if b < KINDS { Some(make(b, 1)) } else { None };
        env::run_until(env::now() + mid);
        touch(&mut x, 2, how);
        if let Some(y) = &mut y {
            touch(y, 3, how);
        }
        env::run_until(env::now() + mid / 2);
        if order == 0 {
            drop(x);
            env::run_until(env::now() + 600);
            drop(y);
        } else {
            drop(y);
            drop(x);
        }
        // the event loop turns
        env::run_until(env::now() + 10_000 + tail);
        for w in 0..4 {
            ensure!(waker::live(w) == 0, "{} clones of waker {} alive after everything was dropped (round {})", waker::live(w), w, r);
        }
        mem.push((alloc::live_bytes(), alloc::live_blocks()));
        peak = peak.max(env::pending());
    }
    // the first half may grow tables; the second may not
    let (h1, h2) = mem[n / 4..].split_at((n - n / 4) / 2);
    let (m1, m2) = (h1.iter().max().unwrap(), h2.iter().max().unwrap());
    log!("live bytes and blocks at most {:?}, then {:?}", m1, m2);
    ensure!(m2.0 <= m1.0, "memory grows with repeated cycles: {} then {} bytes after {} rounds", m1.0, m2.0, n);
    ensure!(m2.1 <= m1.1, "allocations grow with repeated cycles: {} then {} blocks after {} rounds", m1.1, m2.1, n);
    ensure!(peak <= 20, "{peak} host timers outstanding in repeated cycles of two timers");
    let mut hs = Hasher::new(9);
    hs.add(m2.0 as u64).add(m2.1 as u64).add(peak as u64);
    hs.outcome();
    hs.add(a as u64).add(b as u64).add(how as u64).add(mid as u64);
    hs.state();
}

/// All histories on two sleeps: a completed sleep holds no waker; after the drops and a
/// turn of the loop no clone is alive and the memory is what it was.
fn history() {
    let depth = env::bound();
    let h = env::pick(&[NODE, IDEAL]);
    Base::new(&h);
    warm(true);
    let before = (alloc::live_bytes(), alloc::live_blocks());
    let mut hist: Vec<u8> = Vec::with_capacity(16);
    let mut slots: [Option<Pin<Box<Sleep>>>; 2] = [None, None];
    let mut polled = [false; 2];
    for _ in 0..depth {
        let mut ops: Vec<(u8, usize)> = vec![(5, 0), (6, 0)];
        for i in 0..2 {
            if slots[i].is_some() {
                ops.extend([(2, i), (3, i), (4, i)]);
            } else if i == 0 || slots[0].is_some() {
                ops.extend([(0, i), (1, i)]);
            }
        }
        env::step();
        let (k, i) = ops[choose(ops.len())];
        drop(ops);
        log!("{} {}", ["create 2 ms", "create 1 h", "poll", "reset", "drop", "turn", "lag"][k as usize], i);
        hist.push(k);
        match k {
            0 | 1 => {
                slots[i] = Some(Box::pin(sleep(us_dur(if k == 0 { 2_000 } else { 3_600_000_000 }))));
                polled[i] = false;
            }
            2 => {
                let _ = poll(slots[i].as_mut().unwrap().as_mut(), i);
                polled[i] = true;
            }
            3 => slots[i].as_mut().unwrap().as_mut().reset(Instant::now() + us_dur(4_000)),
            4 => slots[i] = None,
            5 => {
                if let Some(d) = env::next_due() {
                    env::pass((d - env::now()).min(10_000));
                    env::fire();
                }
            }
            _ => env::pass(2_500),
        }
        let mut hs = Hasher::new(10);
        for i in 0..2 {
            if let Some(s) = &slots[i] {
                if s.is_elapsed() {
                    ensure!(waker::live(i) == 0, "sleep {i} has completed and still holds its waker");
                }
                hs.add(s.is_elapsed() as u64 + 1).add(waker::live(i) as u64).add((s.deadline() - Instant::now()).as_micros() as u64);
            } else {
                hs.add(0).add(waker::live(i) as u64);
            }
        }
        hs.add(env::pending() as u64).state();
    }
    slots = [None, None];
    let _ = &slots;
    drop(hist);
    env::run_until(env::now() + 15_000);
    for w in 0..2 {
        ensure!(waker::live(w) == 0, "{} clones of waker {} alive after the sleeps were dropped and the loop turned", waker::live(w), w);
    }
    let after = (alloc::live_bytes(), alloc::live_blocks());
    // only what one outstanding host callback and the timer tables may take
    ensure!(after.0 <= before.0 + 600 && after.1 <= before.1 + 10, "{:?} (bytes, blocks) before, {:?} after everything was dropped", before, after);
    let mut hs = Hasher::new(11);
    hs.add(after.0 as u64).add(after.1 as u64);
    hs.outcome();
}

pub const SUITES: &[Suite] = &[
    Suite {
        prop: "C06", name: "cycles",
        what: "repeated create/use/drop cycles of every pair of sleep, far sleep, timeout, interval and delay queue, 3 uses, 4 timings, 2 drop orders: no waker alive, no memory gained",
        unit: "rounds", variants: BOTH, min: 48, quick: 48, deep: 160, run: cycles,
    },
    Suite {
        prop: "C06", name: "history2",
        what: "all histories on 2 sleeps: a completed sleep holds no waker, dropped ones leave nothing behind",
        unit: "operations", variants: BOTH, min: 1, quick: 6, deep: 8, run: history,
    },
];
