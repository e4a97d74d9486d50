//! Magnitudes and counts: values of every order of magnitude, and very many
//! repetitions of one operation (C03, C08, C09, C12, C21).
use crate::env::{self, choose, pick, Hasher};
use crate::queue;
use crate::sleeps;
use crate::world::*;
use crate::{ensure, log, waker, Suite, BOTH, PROD};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use wasmtimer::std::Instant;
use wasmtimer::tokio::{interval, interval_at, sleep, sleep_until, timeout, timeout_at, Interval, Sleep};

const MS: i64 = 1_000;
const SEC: i64 = 1_000_000;
const HOUR: i64 = 3_600 * SEC;
const DAY: i64 = 24 * HOUR;

/// Host time goes on, punctually, until the waker was invoked more than `c` times or `limit`.
fn until_woken(w: usize, c: u32, limit: i64) -> bool {
    loop {
        if waker::woken(w) > c {
            return true;
        }
        if env::now() >= limit {
            return false;
        }
        match env::next_due() {
            Some(d) if d <= limit => {
                env::pass(d - env::now());
                env::fire();
            }
            _ => env::pass(limit - env::now()),
        }
    }
}

// ---------------------------------------------------------------- C03: very many resets
fn resets() {
    let b = env::bound();
    let counts: Vec<usize> = {
        let mut v = vec![1usize, 2, 3, 7, 31, 32, 33];
        for k in [64usize, 128, 256, 512, 1024, 4096] {
            v.extend([k - 1, k, k + 1]);
        }
        if b > 1 {
            v.extend([65_535, 65_536, 65_537]);
        }
        v
    };
    let h = pick(&[NODE, IDEAL]);
    let o = sleeps::Oracle { early: true, late: true, reset: true, waker: true };
    let mut w = sleeps::World::new(h, o, 3);
    w.coarse = true;
    warm(true);
    let n = pick(&counts);
    env::step();
    let first = pick(&[3 * MS, 60 * MS]);
    w.create(0, first, false);
    w.poll(0, 0);
    if choose(2) == 1 {
        w.create(1, 20 * MS, true);
        w.poll(1, 0);
    }
    // before the resets: nothing, a turn, the first deadline passes with or without turns
    match choose(4) {
        0 => {}
        1 => env::run_until(env::now() + 1_500),
        2 => env::pass(first + 1_000),
        _ => env::run_until(env::now() + first + 10 * MS),
    }
    w.observe();
    // all the same, or near and far in turn, or ever later; the last one is given
    let (how, last) = (choose(3), pick(&[0, 2_500, 40 * MS]));
    // one turn before the last `tail` resets
    let tail = pick(&[0usize, 1, 2]);
    for k in 0..n {
        if tail > 0 && k + tail == n {
            env::run_due_with(4, &mut || {});
            if let Some(d) = env::next_due() {
                env::pass((d - env::now()).min(1_200));
                env::run_due_with(1, &mut || {});
            }
        }
        let d = if k + 1 == n {
            last
        } else {
            match how {
                0 => 30 * MS,
                1 if k & 1 == 0 => 1 * MS,
                1 => 50 * MS,
                _ => 5 * MS + 10 * k as i64,
            }
        };
        w.reset(0, d);
        if choose_poll(k, n) {
            w.poll(0, 1);
        }
    }
    env::step();
    w.observe();
    w.poll(0, 1);
    w.settle();
}
/// The last reset but one is followed by a poll.
fn choose_poll(k: usize, n: usize) -> bool {
    n > 1 && k + 2 == n
}

// ---------------------------------------------------------------- C03: resets inside a waker
/// What the waker of sleep 0 does, once: (world, target, times, pattern, last deadline, poll).
static mut INSIDE: Option<(*mut sleeps::World, usize, usize, usize, i64, bool)> = None;
fn inside_hook(wk: usize) {
    // SAFETY: single threaded; the driver, called from env::fire, holds no reference into the world
    unsafe {
        let Some((w, i, n, how, last, polled)) = *(&raw const INSIDE) else { return };
        let w = &mut *w;
        if w.slots[0].as_ref().map(|s| s.wk != wk).unwrap_or(true) {
            return;
        }
        INSIDE = None;
        env::step();
        log!("inside the waker: {n} times");
        for k in 0..n {
            let d = if k + 1 == n {
                last
            } else {
                match how {
                    0 => last,
                    1 => [MS, 30 * MS][k & 1],
                    2 => 60 * MS - 10 * (k as i64 % 4_096),
                    _ => 0,
                }
            };
            if how == 3 && k + 1 < n {
                // other sleeps come and go instead
                drop(Box::pin(sleep(us_dur(5 * MS * (k as i64 & 1)))));
            } else {
                w.reset(i, d);
            }
        }
        if polled {
            w.poll(i, 1);
        }
    }
}
fn inside() {
    let mut counts: Vec<usize> = (1..=9).collect();
    for k in 4..=env::bound() {
        counts.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let h = pick(&[NODE, IDEAL]);
    let o = sleeps::Oracle { early: true, late: true, reset: true, waker: true };
    let mut w = sleeps::World::new(h, o, 3);
    w.coarse = true;
    warm(choose(2) == 1);
    w.create(0, 3 * MS, false);
    w.poll(0, 0);
    w.create(1, pick(&[2_900, 3_000, 3_300, 5 * MS, 40 * MS]), true);
    if choose(2) == 1 {
        w.poll(1, 0);
    }
    let (i, n, how) = (choose(2), pick(&counts), choose(4));
    let last = pick(&[-MS, 0, 4 * MS, 50 * MS]);
    let polled = choose(2) == 1;
    unsafe { INSIDE = Some((&mut w, i, n, how, last, polled)) };
    waker::set_hook(Some(inside_hook));
    // both are overdue when the host comes back
    if choose(2) == 1 {
        env::pass(6 * MS);
    }
    env::run_until(env::now() + 3_500);
    w.observe();
    env::run_until(env::now() + 5 * MS);
    waker::set_hook(None);
    w.observe();
    w.settle();
}

// ---------------------------------------------------------------- C08: the grid
#[derive(Default)]
struct Cell {
    ready: bool,
    finished: bool,
    polls: u32,
    waker: Option<Waker>,
}
struct Told(Rc<RefCell<Cell>>);
impl Future for Told {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        let mut s = self.0.borrow_mut();
        ensure!(!s.finished, "the wrapped future was polled again after it completed");
        s.polls += 1;
        if s.ready {
            s.finished = true;
            return Poll::Ready(77);
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
fn tell(c: &Rc<RefCell<Cell>>) {
    let w = {
        let mut s = c.borrow_mut();
        s.ready = true;
        s.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}
const SPAN: [i64; 14] = [
    0, 1, 999, 1_500, 63_000, 4_999_500, 5_000_500, 61 * SEC, HOUR, DAY, 2_147_483_647 * MS, 2_147_483_648 * MS, 4_294_967_296 * MS, 400 * DAY,
];
/// Deadlines of every magnitude; the wrapped future completes before, at or after the
/// deadline or never; up to `bound` further polls with other wakers at chosen moments.
fn timeout_grid() {
    let b = env::bound();
    let h = pick(&[NODE, IDEAL, BROWSER]);
    let base = Base::new(&h);
    warm(choose(2) == 1);
    let cell = Rc::new(RefCell::new(Cell::default()));
    let d = pick(&SPAN);
    let by_instant = choose(2) == 1;
    let inst = Instant::now() + us_dur(d);
    env::step();
    let (mut t, dl) = if by_instant {
        (Box::pin(timeout_at(inst, Told(cell.clone()))), base.us(inst))
    } else {
        let dl = env::now() + d;
        (Box::pin(timeout(us_dur(d), Told(cell.clone()))), dl)
    };
    ensure!(!cell.borrow().finished && cell.borrow().polls == 0, "creating a timeout polled the wrapped future");
    let from = env::now();
    // when the wrapped future completes, relative to the deadline
    let done_at = match choose(7) {
        0 => i64::MAX,
        1 => from,
        2 => from + d / 2,
        3 => dl - 30 * MS,
        4 => dl - 1,
        5 => dl + 1,
        _ => dl + 15 * MS,
    };
    if done_at < from {
        return;
    }
    // the first poll comes at once, or late
    let slack = EARLY + 40 * h.read_cost;
    let late = late(&h) + 60 * h.cb_cost;
    let mut w = 0usize;
    let mut poll_it = |w: usize| -> Option<bool> {
        let (was, n) = (cell.borrow().ready, cell.borrow().polls);
        let r = poll(t.as_mut(), w);
        ensure!(cell.borrow().polls == n + 1, "one poll of the timeout polled the wrapped future {} times", cell.borrow().polls - n);
        log!("poll at {} ({} us after the deadline): {}", env::now(), env::now() - dl, match r { Poll::Pending => "pending", Poll::Ready(Ok(_)) => "value", _ => "elapsed" });
        match r {
            Poll::Ready(Ok(v)) => {
                ensure!(was && v == 77, "a value that the wrapped future did not give");
                Some(true)
            }
            Poll::Ready(Err(e)) => {
                ensure!(!was, "elapsed although the wrapped future was ready (deadline {dl}, now {})", env::now());
                ensure!(env::now() + slack >= dl, "elapsed at {}, before the deadline {dl}", env::now());
                ensure!(!format!("{e}{e:?}").is_empty(), "the error has no text");
                Some(false)
            }
            Poll::Pending => {
                ensure!(!was, "pending although the wrapped future was ready");
                None
            }
        }
    };
    // punctual host time to `to`, telling the wrapped future on the way
    let go = |to: i64, w: usize, c: u32| -> bool {
        if done_at <= to && !cell.borrow().ready {
            if until_woken(w, c, done_at) {
                return true;
            }
            log!("the wrapped future becomes ready at {}", env::now());
            tell(&cell);
        }
        until_woken(w, c, to)
    };
    if done_at <= from {
        tell(&cell);
    }
    let mut c = waker::woken(w);
    let mut result = poll_it(w);
    // further polls, each with a waker of its own, a part of the way along; or a suspension
    for _ in 0..b {
        if result.is_some() {
            break;
        }
        env::step();
        let left = dl - env::now();
        match choose(6) {
            0 => break,
            1 => {}
            2 => {
                go(env::now() + left / 3, w, c);
            }
            3 if left > 3 * MS => {
                go(dl - 2 * MS, w, c);
            }
            4 if left > 6 * SEC => {
                go(env::now() + 5_500 * MS, w, c);
            }
            5 => {
                // the host is suspended until after the deadline
                env::pass(left.max(0) + 2 * MS);
                if done_at <= env::now() && !cell.borrow().ready {
                    tell(&cell);
                }
            }
            _ => return,
        }
        w += 1;
        c = waker::woken(w);
        result = poll_it(w);
    }
    let since = env::now();
    let mut guard = 0;
    while result.is_none() {
        let limit = dl.max(since) + late;
        let woken = go(limit, w, c);
        ensure!(woken, "timeout with deadline {dl} (wrapped future {}): the pending task was not woken by {}", if cell.borrow().ready { "ready" } else { "pending" }, env::now());
        guard += 1;
        ensure!(guard < 50, "the task of a timeout is woken over and over");
        w += 1;
        c = waker::woken(w);
        result = poll_it(w);
    }
    // on a punctual host the nearer of the two comes first
    if since < dl.min(done_at) && done_at != i64::MAX {
        if done_at <= dl - late {
            ensure!(result == Some(true), "elapsed, though the wrapped future was ready {} us before the deadline", dl - done_at);
        }
        if done_at > dl + late {
            ensure!(result == Some(false), "a value, though the wrapped future was ready only {} us after the deadline", done_at - dl);
        }
    }
    let polls = cell.borrow().polls;
    drop(t);
    let mut hs = Hasher::new(120);
    hs.add(d as u64).add(result.unwrap() as u64).add((env::now() - dl) as u64).add(polls as u64).add((done_at - dl) as u64);
    hs.state();
    hs.outcome();
}

// ---------------------------------------------------------------- C09: the scales
const PERIODS: [i64; 11] =
    [6 * MS, 63 * MS, 100_001, SEC, 4_999_999, 5_000_001, 61 * SEC, HOUR, DAY, 25 * DAY, 60 * DAY];
/// Ticks of every magnitude of period, taken by an event-driven task on a punctual host;
/// resets at chosen points of the period, and other timers beside.
fn interval_scales() {
    let n = env::bound();
    // exact instants need a clock that stands still within one call
    let h = pick(&[NODE, IDEAL, Host { read_cost: 0, ..BROWSER }]);
    let base = Base::new(&h);
    warm(choose(2) == 1);
    let p = pick(&PERIODS);
    let start = pick(&[-1i64, 0, 2_500, 5_100_000, HOUR, 26 * DAY]);
    env::step();
    let mut due;
    let mut iv: Interval = if start < 0 {
        due = base.us(Instant::now());
        interval(us_dur(p))
    } else {
        let at = Instant::now() + us_dur(start);
        due = base.us(at);
        interval_at(at, us_dur(p))
    };
    let mut beside: Option<Pin<Box<Sleep>>> = match choose(3) {
        0 => None,
        1 => Some(Box::pin(sleep(us_dur(p / 2)))),
        _ => Some(Box::pin(sleep(us_dur(100 * DAY)))),
    };
    if let Some(s) = beside.as_mut() {
        let _ = poll(s.as_mut(), 90);
    }
    let late = late(&h) + 60 * h.cb_cost;
    let mut w = 0;
    let mut since = env::now();
    for k in 0..2 * n + 1 {
        let mut polls = 0;
        loop {
            env::step();
            w = (w + 1) % 60;
            let c = waker::woken(w);
            let wk = waker::get(w);
            // the future of one tick, or the poll function
            let r = if k & 1 == 1 { std::pin::pin!(iv.tick()).poll(&mut Context::from_waker(&wk)) } else { iv.poll_tick(&mut Context::from_waker(&wk)) };
            drop(wk);
            match r {
                Poll::Ready(t) => {
                    ensure!(env::now() + EARLY >= due, "tick delivered at {}, due {due}", env::now());
                    ensure!((base.us(t) - due).abs() <= EARLY, "interval of {p} us: tick reports {}, was due {due}", base.us(t));
                    log!("tick {} at {}", base.us(t), env::now());
                    due += p;
                    break;
                }
                Poll::Pending => {
                    polls += 1;
                    ensure!(polls < 20, "woken over and over without a tick");
                    let limit = due.max(since) + late;
                    ensure!(until_woken(w, c, limit), "interval of {p} us: tick due {due} not delivered by {}: task not woken", env::now());
                }
            }
        }
        since = env::now();
        if k < n {
            // between two ticks: nothing, a reset after a part of the period, or a poll in between
            match choose(5) {
                0 => {}
                k @ 1..=3 => {
                    let part = [0, p / 3, p - 1_500][k - 1];
                    env::run_until(env::now() + part.max(0));
                    let spent = env::now();
                    // the reset is only exact while no tick has been missed
                    if spent >= due {
                        return;
                    }
                    iv.reset();
                    due = base.us(Instant::now()) + p;
                    since = env::now();
                    log!("reset at {}: due {due}", env::now());
                }
                _ => {
                    let wk = waker::get(70);
                    let r = iv.poll_tick(&mut Context::from_waker(&wk));
                    ensure!(r.is_pending() || env::now() + EARLY >= due, "tick delivered before it was due");
                    if r.is_ready() {
                        due += p;
                    }
                }
            }
        }
        let mut hs = Hasher::new(121);
        hs.add(p as u64).add((env::now() - due) as u64).add(env::pending() as u64).state();
    }
    ensure!(iv.period() == us_dur(p), "the period changed");
    let mut hs = Hasher::new(122);
    hs.add(p as u64).add((env::now() - due) as u64).outcome();
}

// ---------------------------------------------------------------- C12: the scales
const DELAYS: [i64; 14] = [
    0, 400, 2_500, 62_700, 64_200, 4_095_000, 4_097_000, 5_100_000, HOUR, DAY, 24 * DAY, 25 * DAY, 50 * DAY, 700 * DAY,
];
/// Two items of any magnitude, the task waiting from the start or the middle, then
/// `bound` changes (to any magnitude); the task is woken for each item.
fn queue_scales(o: queue::Oracle) {
    let n = env::bound();
    let h = pick(&[NODE, Host { start: 86_400_000_777, min_delay: 0, cb_cost: 50, read_cost: 0, res: 0 }]);
    let mut w = queue::Q::new(h, o, None);
    let wait = choose(3);
    if wait == 0 {
        // a first item, so that the task has something to wait for
        w.insert(30 * DAY, false);
        w.poll(0);
    }
    env::step();
    w.insert(pick(&DELAYS), false);
    if wait == 1 {
        w.poll(0);
    }
    if wait < 2 {
        match choose(3) {
            0 => {}
            1 => w.consume_until(env::now() + 5_200_000),
            _ => w.consume_until(env::now() + 2 * DAY),
        }
    }
    for k in 0..n {
        if w.items.is_empty() {
            break;
        }
        if w.pending.is_none() || w.items.iter().any(|i| i.dl <= env::now()) {
            w.poll(1);
            if w.items.is_empty() {
                break;
            }
        }
        env::step();
        let m = DELAYS.len();
        let i = w.items.len() - 1;
        match choose(2 * m + 2) {
            x if x < m => {
                w.insert(DELAYS[x], k & 1 == 0);
            }
            x if x < 2 * m => w.reset(i, DELAYS[x - m]),
            x if x == 2 * m => w.remove(0, true),
            _ => w.remove(i, false),
        }
        if n > 1 && k == 0 && choose(2) == 1 {
            w.consume_until(env::now() + 70 * MS);
        }
        w.observe();
    }
    w.drain();
    w.finish();
}

// ---------------------------------------------------------------- C21: and back again
/// Timers with very long durations, moved about between very long and short deadlines.
fn back() {
    let n = env::bound();
    let h = pick(&[NODE, IDEAL, BROWSER]);
    let o = sleeps::Oracle { early: true, late: true, reset: true, waker: true };
    let mut w = sleeps::World::new(h, o, 2);
    w.coarse = true;
    warm(choose(2) == 1);
    let long = |k: usize| -> i64 {
        [25 * DAY, 2_147_483_647 * MS, 2_147_483_648 * MS + 1, 4_294_967_296 * MS, 300_000 * DAY, 100_000_000 * DAY][k]
    };
    env::step();
    w.create(0, long(choose(6)), choose(2) == 1);
    w.poll(0, 0);
    if choose(2) == 1 {
        w.create(1, 3 * MS, false);
        w.poll(1, 0);
    }
    for _ in 0..n {
        match choose(3) {
            0 => {}
            1 => env::run_until(env::now() + 7 * MS),
            _ => env::run_until(env::now() + 3 * HOUR),
        }
        env::step();
        match choose(9) {
            k @ 0..=5 => w.reset(0, long(k)),
            6 => w.reset(0, 2_500),
            7 => w.reset(0, 0),
            _ => w.reset(0, -5 * MS),
        }
        w.poll(0, 1);
        w.observe();
    }
    env::run_until(env::now() + 30 * MS);
    w.observe();
    let s = w.slots[0].as_ref().unwrap();
    if s.dl > env::now() {
        ensure!(!s.done, "a very long sleep completed");
        w.reset(0, 4 * MS);
        w.poll(0, 0);
    }
    w.settle();
}
/// Very long timeouts around futures that do complete, very long intervals that are
/// restarted, and values from the largest downwards.
fn around() {
    let n = env::bound() as u32;
    let h = pick(&[NODE, BROWSER]);
    let _ = Base::new(&h);
    warm(choose(2) == 1);
    let d = match choose(3) {
        0 => std::time::Duration::MAX / (1u32 << choose((n * 4) as usize)),
        1 => std::time::Duration::MAX - std::time::Duration::from_nanos(choose(3) as u64),
        _ => std::time::Duration::from_secs(u64::MAX >> choose(30)),
    };
    env::step();
    match choose(3) {
        0 => {
            let mut t = Box::pin(timeout(d, sleep(us_dur(2_500))));
            let t0 = env::now();
            ensure!(poll(t.as_mut(), 0).is_pending(), "completed at once");
            ensure!(until_woken(0, 0, t0 + 2_500 + late(&h) + 60 * h.cb_cost), "the wrapped sleep did not wake the task of a timeout of {d:?}");
            ensure!(matches!(poll(t.as_mut(), 1), Poll::Ready(Ok(()))), "a timeout of {d:?} did not give the value");
        }
        1 => {
            let mut a = Box::pin(sleep(d));
            let mut b = Box::pin(sleep(d));
            ensure!(poll(a.as_mut(), 0).is_pending() && poll(b.as_mut(), 1).is_pending(), "completed at once");
            drop(a);
            env::run_until(env::now() + HOUR);
            ensure!(waker::woken(1) == 0 && !b.is_elapsed(), "a sleep of {d:?} completed after an hour");
            let now = Instant::now();
            ensure!(b.deadline() > now + us_dur(10_000 * DAY), "a sleep of {d:?} has a near deadline");
            b.as_mut().reset(now + us_dur(3 * MS));
            let t0 = env::now();
            ensure!(poll(b.as_mut(), 2).is_pending(), "completed at once after a reset");
            ensure!(until_woken(2, 0, t0 + 3 * MS + late(&h) + 60 * h.cb_cost) && b.is_elapsed(), "a sleep of {d:?} reset to 3 ms did not complete");
        }
        _ => {
            let mut i = interval_at(Instant::now() + us_dur(2 * MS), d);
            let mut beside = Box::pin(sleep_until(Instant::now() + us_dur(9 * MS)));
            let _ = poll(beside.as_mut(), 5);
            let wk = waker::get(0);
            let mut cx = Context::from_waker(&wk);
            ensure!(i.poll_tick(&mut cx).is_pending(), "the first tick came early");
            ensure!(until_woken(0, 0, env::now() + 2 * MS + late(&h) + 60 * h.cb_cost), "the first tick of an interval of {d:?} did not wake its task");
            ensure!(i.poll_tick(&mut cx).is_ready(), "the first tick of an interval of {d:?} is missing");
            let c = waker::woken(0);
            ensure!(i.poll_tick(&mut cx).is_pending(), "the second tick of an interval of {d:?} came at once");
            if choose(2) == 1 {
                i.reset();
                ensure!(i.poll_tick(&mut cx).is_pending(), "the tick after a reset of an interval of {d:?} came at once");
            }
            env::run_until(env::now() + HOUR);
            ensure!(waker::woken(0) == c, "the task of an interval of {d:?} was woken");
            ensure!(i.poll_tick(&mut cx).is_pending(), "the second tick of an interval of {d:?} came within an hour");
            ensure!(waker::woken(5) > 0 && beside.is_elapsed(), "an ordinary sleep beside an interval of {d:?} did not complete");
            drop(wk);
        }
    }
    ensure!(env::n_fired() < 1_000, "{} host callbacks in an hour", env::n_fired());
    let mut hs = Hasher::new(125);
    hs.add(d.as_secs()).add(d.subsec_nanos() as u64).add(env::n_fired() as u64);
    hs.state();
    hs.outcome();
}

pub const SUITES: &[Suite] = &[
    Suite {
        prop: "C03", name: "resets",
        what: "one sleep reset from 1 to 65537 times (around powers of two), 3 patterns of deadlines, 4 moments, turns before the last resets, another sleep beside",
        unit: "detail", variants: PROD, min: 2, quick: 2, deep: 2, run: resets,
    },
    Suite {
        prop: "C03", name: "inside",
        what: "inside the waker of a due sleep, it or another (due in the same turn or not) is reset 1 to 2^n+1 times, 4 patterns, 4 last deadlines",
        unit: "log2 resets", variants: BOTH, min: 6, quick: 11, deep: 16, run: inside,
    },
    Suite {
        prop: "C08", name: "grid",
        what: "timeouts of 14 magnitudes (0 to 400 days), the wrapped future ready at 7 moments around the deadline, n further polls with new wakers at 5 moments, 3 hosts",
        unit: "further polls", variants: BOTH, min: 1, quick: 3, deep: 5, run: timeout_grid,
    },
    Suite {
        prop: "C09", name: "scales",
        what: "intervals of 11 periods (6 ms to 60 days) and 6 starts, event-driven; n gaps with resets or spurious polls, other timers beside, 3 hosts",
        unit: "gaps", variants: BOTH, min: 1, quick: 3, deep: 4, run: interval_scales,
    },
    Suite {
        prop: "C12", name: "scales",
        what: "items of 14 magnitudes (0 to 700 days), 3 ways of waiting, pauses, then n insertions, resets (to any magnitude) and removals; the waiting task is woken for each item",
        unit: "changes", variants: BOTH, min: 1, quick: 2, deep: 3,
        run: || queue_scales(queue::Oracle { content: true, wake: true, keys: true, exact: false }),
    },
    Suite {
        prop: "C14", name: "scales",
        what: "items of 14 magnitudes (0 to 700 days), 3 ways of waiting, pauses, then n insertions, resets (to any magnitude) and removals; each item expires in its millisecond",
        unit: "changes", variants: PROD, min: 1, quick: 2, deep: 3,
        run: || queue_scales(queue::Oracle { exact: true, ..Default::default() }),
    },
    Suite {
        prop: "C21", name: "back",
        what: "sleeps moved n times between 6 very long deadlines and short ones, with hours in between, and at last completed",
        unit: "moves", variants: BOTH, min: 1, quick: 2, deep: 3, run: back,
    },
    Suite {
        prop: "C21", name: "around",
        what: "the largest duration, its halves down to 2^-n and its neighbours, in timeouts, sleeps and intervals that are used on",
        unit: "x 4 halvings", variants: BOTH, min: 7, quick: 7, deep: 7, run: around,
    },
];
