//! Crowds: many timers at once, in every combination of size, pattern of deadlines,
//! spacing, pace of creation, change and host behaviour (C01..C06, C08, C09, C11..C14, C16).
use crate::env::{self, choose, pick, Hasher};
use crate::queue::{self, Q};
use crate::sleeps::{Oracle, World};
use crate::world::*;
use crate::{alloc, ensure, log, waker, Suite, BOTH, PROD};
use std::pin::Pin;
use std::task::{Context, Poll};
use wasmtimer::std::Instant;
use wasmtimer::tokio::{interval, sleep, timeout, Sleep};

pub const SIZES: [usize; 10] = [3, 9, 17, 33, 65, 129, 257, 513, 1_025, 2_049];
/// The number of timers: every size class up to the bound.
pub fn size() -> usize {
    SIZES[choose(env::bound().min(SIZES.len()))]
}
pub const PATTERNS: usize = 7;
/// The rank of the i-th deadline of n.
pub fn rank(p: usize, i: usize, n: usize) -> usize {
    match p {
        0 => 0,
        1 => i,
        2 => n - 1 - i,
        3 => (i * 7_919) % n,
        4 => (i & 1) * n / 2,
        5 => i / 8,
        _ => (i * i + 3 * i) % 11,
    }
}

fn sleeps() {
    let n = size();
    let p = choose(PATTERNS);
    let gap = pick(&[37i64, 1_000, 90_000, 11_000_000]);
    let h = if n > 100 { NODE } else { pick(&[NODE, IDEAL]) };
    let mut w = World::new(h, Oracle { early: true, late: true, reset: true, waker: true }, n);
    w.coarse = true;
    warm(true);
    let t0 = env::now();
    let first = 60_000 + gap;
    let last = t0 + first + gap * n as i64;
    let at = |r: usize| t0 + first + gap * r as i64;
    // created in one turn, one per turn, eleven per turn
    let per = pick(&[usize::MAX, 1, 11]);
    for i in 0..n {
        w.create(i, (at(rank(p, i, n)) - env::now()).max(0), i & 1 == 1);
        w.poll(i, 0);
        if i % per == per - 1 {
            env::run_until(env::now() + 3);
            env::run_due_with(1, &mut || {});
        }
    }
    env::step();
    // the change comes before the driver ran, after, or in the middle
    match choose(3) {
        0 => {}
        1 => env::run_until(env::now() + 4_000),
        _ => env::run_until(at(n / 2) + gap / 2),
    }
    w.observe();
    let what = choose(7);
    for i in 0..n {
        if w.slots[i].as_ref().unwrap().done {
            continue;
        }
        let dl = w.slots[i].as_ref().unwrap().dl;
        let to = match what {
            1 if i % 3 == 1 => None,
            2 if i + 1 != n => None,
            3 if i % 3 == 1 => Some((dl - env::now()) / 2),
            4 if i % 3 != 1 => Some(last - env::now() + (i as i64 % 5) * gap),
            5 => Some(40_000),
            6 if i % 2 == 0 => None,
            6 => Some((dl - env::now()) / 3 + 500),
            _ => continue,
        };
        match to {
            None => w.drop(i),
            Some(d) => {
                w.reset(i, d.max(0));
                w.poll(i, 1);
            }
        }
    }
    env::step();
    let from = env::now();
    let mut group: Vec<(i64, usize)> = w
        .slots
        .iter()
        .flatten()
        .filter(|s| s.polled.is_some() && !s.done && s.dl > from)
        .map(|s| (s.dl, s.polled.unwrap().0))
        .collect();
    if choose(2) == 1 {
        env::pass(2 * (last - t0) + 100_000);
        log!("host was suspended until {}", env::now());
    }
    w.settle();
    group.sort();
    let (mut dl, mut before, mut max) = (0, 0, 0);
    for (d, wk) in group {
        if d != dl {
            dl = d;
            before = max;
        }
        let o = waker::order(wk);
        ensure!(o > before, "a sleep with deadline {d} was woken before one with an earlier deadline");
        max = max.max(o);
    }
}

// ---------------------------------------------------------------- C06
/// Many sleeps used and dropped: nothing stays.
fn leftovers() {
    let n = size();
    let p = choose(PATTERNS);
    let gap = pick(&[0i64, 900, 40_000_000]);
    Base::new(&NODE);
    warm(true);
    let per = pick(&[usize::MAX, 1, 11]);
    let fate = choose(4);
    let mut level = (0usize, 0usize);
    for round in 0..3 {
        let mut v: Vec<Option<Pin<Box<Sleep>>>> = Vec::new();
        for i in 0..n {
            let mut s = Box::pin(sleep(us_dur(5_000 + gap * rank(p, i, n) as i64)));
            let _ = poll(s.as_mut(), i);
            v.push(Some(s));
            if i % per == per - 1 {
                env::run_until(env::now() + 3);
                env::run_due_with(1, &mut || {});
            }
        }
        env::step();
        match fate {
            0 => {}
            1 => env::run_until(env::now() + 10_000),
            2 => {
                // every third goes early, the rest is rescheduled
                for (i, s) in v.iter_mut().enumerate() {
                    if i % 3 == 0 {
                        *s = None;
                    } else {
                        let s = s.as_mut().unwrap().as_mut();
                        s.reset(Instant::now() + us_dur(2_000 * (i as i64 % 4)));
                    }
                }
                env::run_until(env::now() + 4_500);
            }
            _ => env::run_until(env::now() + 20_000 + gap * n as i64),
        }
        for (i, s) in v.iter().enumerate() {
            if let Some(s) = s {
                if s.is_elapsed() {
                    ensure!(waker::live(i) == 0, "a completed sleep holds its waker ({i} of {n})");
                }
            }
        }
        // backwards or forwards
        if p & 1 == 0 {
            v.clear();
        } else {
            while v.pop().is_some() {}
        }
        drop(v);
        env::run_until(env::now() + 15_000);
        for i in 0..n {
            ensure!(waker::live(i) == 0, "{} clones of waker {i} of {n} alive after all sleeps were dropped", waker::live(i));
        }
        let now = (alloc::live_bytes(), alloc::live_blocks());
        log!("round {}: {:?} bytes and blocks", round, now);
        if round == 2 {
            ensure!(now.0 <= level.0 && now.1 <= level.1, "memory grows with repeated cycles of {n} sleeps: {level:?}, then {now:?} (bytes, blocks)");
        }
        level = (level.0.max(now.0), level.1.max(now.1));
    }
    let mut h = Hasher::new(101);
    h.add(level.0 as u64).add(level.1 as u64).add(n as u64).add(env::n_fired() as u64).state();
    h.outcome();
}

// ---------------------------------------------------------------- queues
fn queue_crowd(o: queue::Oracle, gaps: &[i64]) {
    let n = size();
    let p = choose(PATTERNS);
    let gap = pick(gaps);
    let mut w = Q::new(NODE, o, if n > 100 { None } else { pick(&[None, Some(n / 2)]) });
    let waiting = choose(3); // no task waits, one waits before, in the middle of the insertions
    let first = pick(&[0i64, 63_400]);
    for i in 0..n {
        if (waiting == 1 && i == 1) || (waiting == 2 && i == n / 2) {
            w.poll(0);
        }
        let d = first + gap * rank(p, i, n) as i64;
        w.insert(if w.fits(d) { d } else { w.horizon() * 1_000 - 1_000 * (i as i64) }, i & 1 == 1);
    }
    w.observe();
    env::step();
    match choose(3) {
        0 => {}
        1 => env::run_until(env::now() + 1_300),
        // consumed to the middle
        _ => w.consume_until(env::now() + first + gap * (n as i64 / 2)),
    }
    let what = choose(8);
    let mut i = 0;
    let mut k = 0;
    while i < w.items.len() {
        k += 1;
        let (gone, to) = match what {
            1 if k % 3 == 1 => (true, None),
            2 if i + 1 < w.items.len() => (true, None),
            3 if k % 3 == 1 => (false, Some(((w.items[i].dl - env::now()) / 2).max(0))),
            4 if k % 3 != 1 => (false, Some(first + gap * ((n + k) as i64))),
            5 => (false, Some(3_000)),
            6 if k % 2 == 0 => (true, None),
            6 => (false, Some((w.items[i].dl - env::now()) / 3)),
            _ => (false, None),
        };
        if gone {
            w.remove(i, k & 1 == 0);
            continue;
        }
        if let Some(d) = to {
            if w.fits(d) {
                w.reset(i, d);
            }
        }
        i += 1;
    }
    env::step();
    w.observe();
    if what == 7 && o.keys {
        w.q.compact();
        w.q.shrink_to_fit();
    } else if what == 7 {
        w.clear();
        w.insert(7_000, false);
    } else if o.keys && what % 2 == 1 {
        w.q.compact();
    }
    w.observe();
    if choose(2) == 1 {
        env::pass(gap * (n as i64) / 2 + 5_000);
    }
    w.drain();
    // and again, in the storage left behind
    for i in 0..n.min(40) {
        let d = 2_000 + gap.min(1_000_000) * rank(p, i, n) as i64;
        if w.fits(d) {
            w.insert(d, i & 1 == 0);
        }
    }
    w.observe();
    w.drain();
    w.finish();
}

// ---------------------------------------------------------------- C08, C09
enum M {
    Sleep(Pin<Box<Sleep>>),
    Never(Pin<Box<wasmtimer::tokio::Timeout<std::future::Pending<u8>>>>),
    Inner(Pin<Box<wasmtimer::tokio::Timeout<Sleep>>>),
    Ticks(Box<wasmtimer::tokio::Interval>, i64, u32),
}
/// Timers of all kinds, each in its own task that polls only when woken.
fn mixed() {
    let n = size();
    let p = choose(PATTERNS);
    let gap = pick(&[300i64, 7_000, 2_000_000]);
    let h = if n > 100 { NODE } else { pick(&[NODE, IDEAL]) };
    let base = Base::new(&h);
    warm(true);
    // the timer, its next deadline, the count at its latest pending poll, when it was last set
    let mut v: Vec<Option<(M, i64, u32, i64)>> = Vec::new();
    let t0 = env::now();
    let at = |r: usize| t0 + 10_000 + gap * r as i64;
    for i in 0..n {
        let dl = at(rank(p, i, n));
        let d = dl - env::now();
        let m = match i % 4 {
            0 => M::Never(Box::pin(timeout(us_dur(d), std::future::pending()))),
            1 => M::Ticks(Box::new(interval(us_dur(d))), env::now(), 0),
            2 => M::Inner(Box::pin(timeout(us_dur(d + 9_000), sleep(us_dur(d))))),
            _ => M::Sleep(Box::pin(sleep(us_dur(d)))),
        };
        v.push(Some((m, dl, u32::MAX, env::now())));
        if i % 5 == 4 {
            env::run_due_with(1, &mut || {});
        }
    }
    let pause = choose(2) == 1;
    let late = late(&h) + 40 * h.cb_cost;
    let mut since = env::now();
    let mut done = 0;
    let mut fired = 0u64;
    let end = at(n) + 40_000_000;
    loop {
        // every task that was woken polls
        for i in 0..n {
            let Some((m, dl, count, set)) = &mut v[i] else { continue };
            if *count != u32::MAX && waker::woken(i) == *count {
                let limit = (*dl).max(since).max(*set) + late;
                ensure!(env::now() <= limit, "timer {i} of {n} (kind {}), due at {dl}, has not woken its task by {}", i % 4, env::now());
                continue;
            }
            env::step();
            loop {
                let c = waker::woken(i);
                let wk = waker::get(i);
                let mut cx = Context::from_waker(&wk);
                let now = env::now();
                let over = match m {
                    M::Sleep(s) => s.as_mut().as_mut().poll_(&mut cx).is_ready(),
                    M::Never(t) => match t.as_mut().poll_(&mut cx) {
                        Poll::Ready(Ok(_)) => crate::fail!("a timeout over a future that never completes gave a value"),
                        r => r.is_ready(),
                    },
                    M::Inner(t) => match t.as_mut().poll_(&mut cx) {
                        // a host that was away may find both due: the value counts
                        Poll::Ready(Err(_)) => crate::fail!("timeout {i} elapsed at {now} although its sleep was due at {dl}"),
                        r => r.is_ready(),
                    },
                    M::Ticks(iv, start, k) => match iv.poll_tick(&mut cx) {
                        Poll::Ready(t) => {
                            // (ticks more than 5 ms late follow the policy, which bursts)
                            let due = if *k == 0 { *start } else { *dl };
                            ensure!((base.us(t) - due).abs() <= 2 * EARLY, "interval {i}: tick {k} reports {}, was due {due}", base.us(t));
                            ensure!(now + EARLY >= due, "interval {i}: tick {k} delivered at {now}, due {due}");
                            let per = iv.period().as_micros() as i64;
                            *k += 1;
                            *dl = due + per;
                            *set = now;
                            drop(wk);
                            if *k == 4 {
                                v[i] = None;
                                done += 1;
                                break;
                            }
                            continue;
                        }
                        Poll::Pending => false,
                    },
                };
                drop(wk);
                if over {
                    ensure!(now + EARLY >= *dl, "timer {i} (kind {}) completed at {now}, before {dl}", i % 4);
                    fired = fired.wrapping_mul(31).wrapping_add(i as u64);
                    v[i] = None;
                    done += 1;
                } else {
                    ensure!(now < (*dl).max(since).max(*set) + late, "timer {i} (kind {}) pending at {now}, was due {dl}", i % 4);
                    *count = c;
                }
                break;
            }
        }
        if done == n {
            break;
        }
        ensure!(env::now() < end + 4 * (at(n) - t0), "{} of {n} timers never completed", n - done);
        if pause && since == t0 {
            // the host is away for a while, once
            env::pass(gap * (n as i64) / 2);
            since = env::now();
        }
        match env::next_due() {
            Some(d) => {
                env::pass(d - env::now());
                env::fire();
            }
            None => crate::fail!("no host timer is outstanding with {} of {n} timers open", n - done),
        }
    }
    let mut hs = Hasher::new(103);
    hs.add(fired).add(n as u64).add(env::n_fired() as u64).state();
    hs.outcome();
}
trait Poll_: std::future::Future {
    fn poll_(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.poll(cx)
    }
}
impl<T: std::future::Future + ?Sized> Poll_ for T {}

const QG: &[i64] = &[400, 1_000, 65_000, 4_100_000];
pub const SUITES: &[Suite] = &[
    Suite {
        prop: "C04", name: "crowd",
        what: "crowds of 3 to 2049 sleeps: 7 patterns of deadlines, 4 spacings, 3 paces of creation, 7 changes (drops, resets) at 3 moments, punctual or suspended host; all complete at their own deadlines, in order",
        unit: "size classes", variants: BOTH, min: 8, quick: 8, deep: 10, run: sleeps,
    },
    Suite {
        prop: "C06", name: "crowd",
        what: "crowds of 3 to 2049 sleeps used and dropped, three times over: 7 patterns, 3 spacings, 3 paces, 4 fates; no waker alive, no memory gained",
        unit: "size classes", variants: BOTH, min: 9, quick: 9, deep: 10, run: leftovers,
    },
    Suite {
        prop: "C08", name: "crowd",
        what: "crowds of timeouts (over a future that never completes and over sleeps), sleeps and intervals, each in an event-driven task",
        unit: "size classes", variants: PROD, min: 9, quick: 9, deep: 10, run: mixed,
    },
    Suite {
        prop: "C11", name: "crowd",
        what: "queues of 3 to 1025 items: 7 patterns of deadlines, 4 spacings, 3 moments of waiting, 8 changes at 3 moments, punctual or lagging host; then refilled",
        unit: "size classes", variants: PROD, min: 8, quick: 8, deep: 10,
        run: || queue_crowd(queue::Oracle { content: true, ..Default::default() }, QG),
    },
    Suite {
        prop: "C12", name: "crowd",
        what: "queues of 3 to 1025 items: 7 patterns of deadlines, 4 spacings, 3 moments of waiting, 8 changes at 3 moments; the waiting task is woken for each",
        unit: "size classes", variants: PROD, min: 8, quick: 8, deep: 10,
        run: || queue_crowd(queue::Oracle { wake: true, ..Default::default() }, QG),
    },
    Suite {
        prop: "C13", name: "crowd",
        what: "queues of 3 to 1025 items with compaction and shrinking after removals: 7 patterns, 8 changes at 3 moments; keys and counts stay exact",
        unit: "size classes", variants: PROD, min: 8, quick: 8, deep: 10,
        run: || queue_crowd(queue::Oracle { keys: true, ..Default::default() }, &[1_000, 65_000]),
    },
    Suite {
        prop: "C14", name: "crowd",
        what: "queues of 3 to 1025 items spaced from 1 ms to 12 days: 7 patterns, 8 changes at 3 moments; each expires in its millisecond",
        unit: "size classes", variants: PROD, min: 6, quick: 6, deep: 8,
        run: || queue_crowd(queue::Oracle { exact: true, wake: true, content: true, ..Default::default() }, &[1_000, 63_000, 262_145_000, 1_073_741_823_000]),
    },
];
