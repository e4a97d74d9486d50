//! One operation repeated very often, for every operation of every timer: what holds
//! after one holds after hundreds or thousands (C02, C05, C06, C08..C13, C16).
use crate::cycles::Manual;
use crate::env::{self, choose, pick, Hasher};
use crate::queue::{Oracle, Q};
use crate::world::*;
use crate::{alloc, ensure, log, waker, Suite, BOTH, PROD};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use wasmtimer::std::Instant;
use wasmtimer::tokio::{interval_at, sleep, sleep_until, timeout, Interval, MissedTickBehavior, Sleep};

/// Counts around the powers of two, up to 2^(bound).
pub fn count() -> usize {
    let mut v = vec![3usize, 10, 20, 100];
    for k in 4..=env::bound() {
        v.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    if env::bound() >= 10 {
        v.push(1_000);
    }
    v.sort();
    v.dedup();
    pick(&v)
}
fn until_woken(w: usize, c: u32, limit: i64) -> bool {
    loop {
        if waker::woken(w) > c {
            return true;
        }
        if env::now() >= limit {
            return false;
        }
        match env::next_due() {
            Some(d) if d <= limit => {
                env::pass(d - env::now());
                env::fire();
            }
            _ => env::pass(limit - env::now()),
        }
    }
}
fn turn(kind: usize) {
    match kind {
        0 => {}
        1 => {
            env::run_due_with(2, &mut || {});
        }
        _ => env::run_until(env::now() + 1_100),
    }
}

// ---------------------------------------------------------------- C02, C05: sleeps
fn sleeps() {
    let h = pick(&[NODE, IDEAL]);
    Base::new(&h);
    warm(choose(2) == 1);
    let n = count();
    let late = late(&h) + 60 * h.cb_cost;
    let what = choose(7);
    let pace = choose(3);
    let far = 10_000_000 + 2_000 * n as i64;
    let mut s = Box::pin(sleep(us_dur(far)));
    let mut dl = env::now() + far;
    let mut last = (0usize, waker::woken(0));
    ensure!(poll(s.as_mut(), 0).is_pending(), "completed at once");
    let other = |k: usize, d: i64| -> Pin<Box<Sleep>> { if k & 1 == 0 { Box::pin(sleep(us_dur(d))) } else { Box::pin(sleep_until(Instant::now() + us_dur(d))) } };
    let mut keep = Vec::new();
    env::step();
    for k in 0..n {
        match what {
            // polled by the same task, by two in turn, by ever new ones
            0..=2 => {
                let w = [0, k & 1, k % 4_000][what];
                last = (w, waker::woken(w));
                ensure!(poll(s.as_mut(), w).is_pending(), "sleep with deadline {dl} polls ready at {}", env::now());
            }
            // other sleeps, never polled or polled, that are dropped at once
            3 => drop(other(k, 2_000 + k as i64)),
            4 => {
                let mut o = other(k, 5_000);
                let _ = poll(o.as_mut(), 4_100);
            }
            // that complete
            5 => {
                let mut o = other(k, (k % 3) as i64 * 400);
                let _ = poll(o.as_mut(), 4_100);
                env::run_until(env::now() + 900);
                keep.push(o);
                if keep.len() > 5 {
                    keep.clear();
                }
            }
            // the sleep itself replaced
            _ => {
                s = other(k, far);
                dl = env::now() + far;
                last = (k & 1, waker::woken(k & 1));
                ensure!(poll(s.as_mut(), k & 1).is_pending(), "completed at once");
            }
        }
        turn(pace);
        ensure!(!s.is_elapsed(), "sleep with deadline {dl} complete at {}", env::now());
        ensure!(waker::woken(last.0) == last.1, "the task of a sleep with deadline {dl} was woken at {}", env::now());
    }
    env::step();
    // a short sleep is on time, and so is the first one
    if choose(2) == 1 {
        let t = env::now();
        let mut q = Box::pin(sleep(us_dur(2_500)));
        ensure!(poll(q.as_mut(), 4_101).is_pending(), "completed at once");
        ensure!(until_woken(4_101, 0, t + 2_500 + late), "after {n} operations (kind {what}): a sleep of 2.5 ms is not woken by {} us", env::now() - t);
        ensure!(env::now() + EARLY >= t + 2_500, "woken early");
        ensure!(poll(q.as_mut(), 4_102).is_ready(), "woken, but still pending at {}", env::now());
    }
    ensure!(until_woken(last.0, last.1, dl + late), "after {n} operations (kind {what}): waker {} of the latest poll was not woken by {}, deadline {dl}", last.0, env::now());
    ensure!(env::now() + EARLY >= dl, "woken at {}, before its deadline {dl}", env::now());
    ensure!(poll(s.as_mut(), 4_103).is_ready(), "woken, but still pending at {}", env::now());
    drop(s);
    env::run_until(env::now() + 20_000);
    for w in 0..waker::N {
        ensure!(waker::live(w) == 0, "waker {w} is still alive after {n} operations (kind {what})");
    }
    let mut hs = Hasher::new(130);
    hs.add(n as u64).add(what as u64).add(pace as u64).add(env::n_fired() as u64);
    hs.state();
    hs.outcome();
}

// ---------------------------------------------------------------- C06
/// One kind of timer used and dropped very often: memory in the second half of the
/// rounds stays at what the first half needed.
fn leftovers() {
    Base::new(&NODE);
    warm(true);
    let n = count();
    let kind = choose(9);
    let pace = choose(3);
    let mut at = [0usize; 2];
    for half in 0..2 {
        for k in 0..n {
            env::step();
            let wk = waker::get(k % 64);
            let mut cx = Context::from_waker(&wk);
            match kind {
                0 => drop(sleep(us_dur(3_600_000_000))),
                1 => {
                    let mut s = Box::pin(sleep(us_dur(3_000)));
                    let _ = s.as_mut().poll(&mut cx);
                }
                2 => {
                    let mut s = Box::pin(sleep(us_dur(500)));
                    let _ = s.as_mut().poll(&mut cx);
                    env::run_until(env::now() + 3_000);
                    ensure!(s.is_elapsed(), "a sleep of half a millisecond did not complete in three");
                }
                3 => {
                    let mut s = Box::pin(sleep(us_dur(9_000)));
                    let _ = s.as_mut().poll(&mut cx);
                    s.as_mut().reset(Instant::now() + us_dur(86_400_000_000));
                    let _ = s.as_mut().poll(&mut cx);
                }
                4 => {
                    let mut t = Box::pin(timeout(us_dur(4_000), std::future::pending::<()>()));
                    let _ = t.as_mut().poll(&mut cx);
                }
                5 => {
                    let mut t = Box::pin(timeout(us_dur(700), std::future::pending::<()>()));
                    let _ = t.as_mut().poll(&mut cx);
                    env::run_until(env::now() + 3_000);
                    ensure!(t.as_mut().poll(&mut cx).is_ready(), "a timeout of 0.7 ms did not elapse in three");
                }
                6 => {
                    let mut i = interval_at(Instant::now() + us_dur(300), us_dur(2_000));
                    let _ = i.poll_tick(&mut cx);
                    env::run_until(env::now() + 2_500);
                    ensure!(i.poll_tick(&mut cx).is_ready(), "a tick did not come");
                    let _ = i.poll_tick(&mut cx);
                }
                7 => {
                    let mut q = wasmtimer::tokio_util::DelayQueue::new();
                    q.insert(k, us_dur(60_000_000));
                    let key = q.insert(k, us_dur(5_000));
                    let _ = q.poll_expired(&mut cx);
                    q.remove(&key);
                }
                _ => {
                    let mut q = wasmtimer::tokio_util::DelayQueue::new();
                    q.insert(k, us_dur(400));
                    let _ = q.poll_expired(&mut cx);
                    env::run_until(env::now() + 4_000);
                    ensure!(q.poll_expired(&mut cx).is_ready(), "an item of 0.4 ms did not expire in four");
                }
            }
            drop(wk);
            turn(pace);
        }
        // long enough for whatever was scheduled to be over
        env::run_until(env::now() + 12_000_000);
        at[half] = alloc::live_bytes();
        for w in 0..64 {
            ensure!(waker::live(w) == 0, "a clone of waker {w} is alive after {} uses of a timer of kind {kind}", n * (half + 1));
        }
    }
    ensure!(at[1] <= at[0], "memory grew from {} to {} bytes over {n} uses of a timer of kind {kind}", at[0], at[1]);
    let mut hs = Hasher::new(131);
    hs.add(n as u64).add(kind as u64).add(at[1] as u64);
    hs.state();
    hs.outcome();
}

// ---------------------------------------------------------------- C08
fn timeouts() {
    let h = pick(&[NODE, IDEAL]);
    Base::new(&h);
    warm(choose(2) == 1);
    let n = count();
    let late = late(&h) + 60 * h.cb_cost;
    let pace = choose(3);
    let d = 5_000_000 + 2_000 * n as i64;
    let flag = std::rc::Rc::new(std::cell::Cell::new(false));
    let dl = env::now() + d;
    let mut t = Box::pin(timeout(us_dur(d), Manual(flag.clone())));
    let wakers = pick(&[1usize, 2, 4_000]);
    let mut last = (0, 0);
    env::step();
    for k in 0..n {
        last = (k % wakers, waker::woken(k % wakers));
        ensure!(poll(t.as_mut(), last.0).is_pending(), "poll {k} of a timeout is ready");
        turn(pace);
    }
    env::step();
    match choose(4) {
        0 => {
            flag.set(true);
            ensure!(matches!(poll(t.as_mut(), 4_100), Poll::Ready(Ok(7))), "after {n} polls: no value, though the wrapped future is ready");
        }
        1 => {
            env::pass(dl - env::now() + 3_000);
            flag.set(true);
            ensure!(matches!(poll(t.as_mut(), 4_100), Poll::Ready(Ok(7))), "after {n} polls and past the deadline: no value, though the wrapped future is ready");
        }
        2 => {
            env::run_until(dl + late);
            flag.set(true);
            ensure!(matches!(poll(t.as_mut(), 4_100), Poll::Ready(Ok(7))), "after {n} polls and woken for the deadline: no value, though the wrapped future is ready");
        }
        _ => {
            ensure!(until_woken(last.0, last.1, dl + late), "after {n} polls: the task of a timeout due {dl} was not woken by {}", env::now());
            ensure!(env::now() + EARLY >= dl, "woken early");
            ensure!(matches!(poll(t.as_mut(), 4_100), Poll::Ready(Err(_))), "after {n} polls: a timeout due {dl} has not elapsed at {}", env::now());
        }
    }
    let mut hs = Hasher::new(132);
    hs.add(n as u64).add(pace as u64).add(wakers as u64).add(env::n_fired() as u64);
    hs.state();
    hs.outcome();
}

// ---------------------------------------------------------------- C09, C10
fn intervals() {
    let h = pick(&[NODE, Host { start: 999, min_delay: 0, cb_cost: 50, read_cost: 0, res: 0 }]);
    let base = Base::new(&h);
    warm(true);
    let n = count();
    let late = late(&h) + 60 * h.cb_cost;
    let p = pick(&[20_000i64, 4_000_000]);
    let at = Instant::now() + us_dur(7_000);
    let mut due = base.us(at);
    let mut iv: Interval = interval_at(at, us_dur(p));
    let what = choose(5);
    env::step();
    let tick = |iv: &mut Interval, w: usize| -> Poll<Instant> {
        let wk = waker::get(w);
        let r = iv.poll_tick(&mut Context::from_waker(&wk));
        drop(wk);
        r
    };
    let mut last = (0, 0);
    for k in 0..n {
        match what {
            // pending polls by one task, by ever new ones
            0 | 1 => {
                last = ([0, k % 4_000][what], 0);
                last.1 = waker::woken(last.0);
                if env::now() < due {
                    ensure!(tick(&mut iv, last.0).is_pending(), "tick delivered at {}, due {due}", env::now());
                }
            }
            // resets
            2 => {
                iv.reset();
                due = base.us(Instant::now()) + p;
                if k & 7 == 3 {
                    env::run_until(env::now() + 1_000);
                }
            }
            // ticks of futures that are dropped
            3 => {
                let wk = waker::get(k % 3);
                let mut f = Box::pin(iv.tick());
                ensure!(f.as_mut().poll(&mut Context::from_waker(&wk)).is_pending(), "tick delivered at {}, due {due}", env::now());
                drop(f);
                drop(wk);
            }
            // ticks
            _ => {
                let w = k % 5;
                let mut tries = 0;
                loop {
                    let c = waker::woken(w);
                    match tick(&mut iv, w) {
                        Poll::Ready(t) => {
                            ensure!((base.us(t) - due).abs() <= EARLY, "tick {k} reports {}, was due {due}", base.us(t));
                            break;
                        }
                        _ => ensure!(until_woken(w, c, due + late), "tick {k} due {due} not delivered by {}: task not woken", env::now()),
                    }
                    tries += 1;
                    ensure!(tries < 12, "woken over and over without a tick");
                }
                ensure!(env::now() + EARLY >= due, "tick {k} delivered at {}, due {due}", env::now());
                due += p;
            }
        }
    }
    let _ = last;
    // the next three are on time
    for k in 0..3 {
        let mut tries = 0;
        loop {
            let w = 4_100 + (tries & 1);
            let c = waker::woken(w);
            match tick(&mut iv, w) {
                Poll::Ready(t) => {
                    ensure!((base.us(t) - due).abs() <= EARLY, "after {n} operations (kind {what}): tick {k} reports {}, was due {due}", base.us(t));
                    break;
                }
                _ => ensure!(until_woken(w, c, due + late), "after {n} operations (kind {what}): tick {k} due {due} not delivered by {}: task not woken", env::now()),
            }
            tries += 1;
            ensure!(tries < 12, "woken over and over without a tick");
        }
        ensure!(env::now() + EARLY >= due, "after {n} operations (kind {what}): tick {k} delivered at {}, due {due}", env::now());
        due += p;
    }
    let mut hs = Hasher::new(133);
    hs.add(n as u64).add(what as u64).add(p as u64).add(env::n_fired() as u64);
    hs.state();
    hs.outcome();
}
/// Very many missed ticks: every one as the policy says, to the nanosecond.
fn missed() {
    let h = Host { start: 5_000_000, min_delay: 0, cb_cost: 20, read_cost: 0, res: 0 };
    let base = Base::new(&h);
    warm(true);
    let n = count();
    let p = pick(&[1_500u64, 3_000_001, 16_666_667, 1_000_000_001]);
    let per = Duration::from_nanos(p);
    let pu = (p / 1_000) as i64;
    let policies = [MissedTickBehavior::Burst, MissedTickBehavior::Delay, MissedTickBehavior::Skip];
    let beh = choose(4);
    let lates: &[i64] = pick(&[&[5_001i64][..], &[6_000, 5_000][..], &[41_000, 0, 5_001][..], &[1, 2, 3, 4][..], &[100_000_000][..]]);
    let mut due = Instant::now() + Duration::from_nanos(2_600_400);
    let mut iv = interval_at(due, per);
    for k in 0..n {
        // the last case changes the policy at every tick
        let b = if beh < 3 { beh } else { k % 3 };
        iv.set_missed_tick_behavior(policies[b]);
        let x = lates[k % lates.len()];
        let x = if lates.len() == 4 { pu * x + 5_001 } else { x };
        env::step();
        let t = (base.us + ((due - base.i).as_nanos() as i64 + 999) / 1_000 + x).max(env::now() + 1);
        if t - env::now() > 100_000 {
            env::pass(t - env::now() - 30_000);
        }
        env::run_until(t);
        let wk = waker::get(0);
        let mut cx = Context::from_waker(&wk);
        let mut r = iv.poll_tick(&mut cx);
        let mut tries = 0;
        while r.is_pending() {
            ensure!(tries < 12, "tick {k}, due {}, is still pending at {}", base.us(due), env::now());
            tries += 1;
            env::run_until(env::now() + 1_000);
            r = iv.poll_tick(&mut cx);
        }
        drop(wk);
        let now = Instant::now();
        let Poll::Ready(at) = r else { return };
        ensure!(now >= due, "tick {k} delivered {:?} before it was due", due - now);
        ensure!(at == due, "tick {k} reports {at:?}, it was due {due:?}");
        due = if now > due + Duration::from_millis(5) {
            match b {
                0 => due + per,
                1 => now + per,
                _ => due + Duration::from_nanos((((now - due).as_nanos() / p as u128 + 1) * p as u128) as u64),
            }
        } else {
            due + per
        };
    }
    let mut hs = Hasher::new(134);
    hs.add(n as u64).add(p).add((due - base.i).as_nanos() as u64).add(beh as u64);
    hs.state();
    hs.outcome();
}

// ---------------------------------------------------------------- C11, C12, C13
fn queues(o: Oracle) {
    let h = pick(&[NODE, Host { start: 86_400_000_777, min_delay: 0, cb_cost: 50, read_cost: 0, res: 0 }]);
    let mut w = Q::new(h, o, None);
    let n = count();
    let what = choose(11);
    let pace = choose(3);
    let held = choose(3);
    // items held throughout
    let far = 60_000_000 + 20_000 * n as i64;
    for k in 0..held {
        w.insert(far + 70_000 * k as i64, k & 1 == 1);
    }
    if choose(2) == 1 {
        w.poll(0);
    }
    env::step();
    for k in 0..n {
        match what {
            0 | 1 => {
                w.poll(if what == 0 { 0 } else { k % 15 });
            }
            2 | 3 => {
                let i = w.insert(if what == 2 { 3_000_000 } else { 30_000_000 + far }, k & 1 == 0);
                w.remove(i, k & 2 == 0);
            }
            4 | 5 => {
                if w.items.is_empty() {
                    w.insert(far, false);
                }
                let i = w.items.len() - 1;
                w.reset(i, if what == 4 { far } else { 9_000_000 + 7_001 * (k % 13) as i64 });
            }
            6 | 7 => {
                // expires, is taken
                w.insert(if what == 6 { 1_300 } else { 0 }, k & 1 == 0);
                let t = env::now() + 14_000;
                let want = w.items.len() - 1;
                while w.items.len() > want {
                    ensure!(env::now() < t, "item inserted {} us ago has not been yielded (round {k})", env::now() + 14_000 - t);
                    if !w.poll(k % 15) {
                        env::run_until(env::now() + 1_000);
                    }
                }
            }
            8 => {
                w.insert(far, false);
                if k % 3 == 2 {
                    w.clear();
                }
            }
            9 => {
                let i = w.insert(far, false);
                w.insert(far, true);
                w.remove(i, false);
                w.q.compact();
                let i = w.items.len() - 1;
                w.remove(i, true);
            }
            _ => {
                w.q.reserve(1 + k % 5);
                if k % 2 == 1 {
                    w.q.shrink_to_fit();
                }
            }
        }
        turn(if what == 6 || what == 7 { 0 } else { pace });
        if k % 16 == 0 {
            w.observe();
        }
    }
    env::step();
    // and now an ordinary life
    if choose(2) == 1 {
        if w.pending.is_none() {
            w.poll(0);
        }
        w.insert(2_600, false);
        w.insert(500, true);
    }
    w.observe();
    w.drain();
    w.finish();
}

pub const SUITES: &[Suite] = &[
    Suite {
        prop: "C05", name: "repeat",
        what: "one of 7 operations (polls with one, two or ever new wakers, other sleeps dropped, polled, completed, replaced) repeated 3 to 2^n+1 times, 3 paces; then the right task is woken, on time",
        unit: "log2 repetitions", variants: BOTH, min: 12, quick: 12, deep: 14, run: sleeps,
    },
    Suite {
        prop: "C06", name: "repeat",
        what: "9 kinds of use of one timer repeated up to 2 x 2^n+1 times, 3 paces: no waker alive, no memory gained",
        unit: "log2 repetitions", variants: BOTH, min: 12, quick: 12, deep: 14, run: leftovers,
    },
    Suite {
        prop: "C08", name: "repeat",
        what: "a timeout polled up to 2^n+1 times, by one, two or ever new tasks, 3 paces; then ready or elapsed in 4 ways",
        unit: "log2 repetitions", variants: BOTH, min: 12, quick: 12, deep: 14, run: timeouts,
    },
    Suite {
        prop: "C09", name: "repeat",
        what: "one of 5 operations of an interval (polls, resets, abandoned ticks, ticks) repeated up to 2^n+1 times; then 3 ticks on time",
        unit: "log2 repetitions", variants: BOTH, min: 12, quick: 12, deep: 14, run: intervals,
    },
    Suite {
        prop: "C10", name: "repeat",
        what: "up to 2^n+1 missed ticks, 4 periods, 3 policies or all in turn, 5 patterns of lateness; instants exact to the nanosecond",
        unit: "log2 repetitions", variants: BOTH, min: 12, quick: 12, deep: 14, run: missed,
    },
    Suite {
        prop: "C11", name: "repeat",
        what: "one of 11 operations of a delay queue repeated up to 2^n+1 times, 3 paces, 0..2 items held throughout; then an ordinary life",
        unit: "log2 repetitions", variants: PROD, min: 11, quick: 11, deep: 11,
        run: || queues(Oracle { content: true, ..Default::default() }),
    },
    Suite {
        prop: "C12", name: "repeat",
        what: "one of 11 operations of a delay queue repeated up to 2^n+1 times, 3 paces, 0..2 items held throughout; then the waiting task is woken for each",
        unit: "log2 repetitions", variants: BOTH, min: 10, quick: 11, deep: 11,
        run: || queues(Oracle { wake: true, ..Default::default() }),
    },
    Suite {
        prop: "C13", name: "repeat",
        what: "one of 11 operations of a delay queue repeated up to 2^n+1 times, 3 paces, 0..2 items held throughout; keys and counts stay exact",
        unit: "log2 repetitions", variants: PROD, min: 11, quick: 11, deep: 11,
        run: || queues(Oracle { keys: true, ..Default::default() }),
    },
];
