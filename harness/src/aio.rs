//! Timeouts (C08), intervals (C09, C10), extreme durations (C21).
use crate::env::{self, choose, pick, Hasher};
use crate::world::*;
use crate::{ensure, fail, log, waker, Suite, BOTH};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use wasmtimer::std::Instant;
use wasmtimer::tokio::{interval, interval_at, sleep, sleep_until, timeout, timeout_at, Interval, MissedTickBehavior, Sleep};

// ---------------------------------------------------------------- C08
#[derive(Default)]
struct Script {
    polls: u32,
    ready: bool,
    ready_at_poll: Option<u32>,
    finished: bool,
    dropped: bool,
    waker: Option<Waker>,
}
/// The wrapped future, under the explorer's control.
struct Inner(Rc<RefCell<Script>>);
impl Future for Inner {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        let mut s = self.0.borrow_mut();
        ensure!(!s.finished, "the wrapped future was polled again after it completed");
        s.polls += 1;
        if s.ready_at_poll == Some(s.polls) {
            s.ready = true;
        }
        if s.ready {
            s.finished = true;
            s.waker = None;
            Poll::Ready(4242)
        } else {
            s.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
impl Drop for Inner {
    fn drop(&mut self) {
        self.0.borrow_mut().dropped = true;
    }
}

/// All histories of polls, host turns, lag and completion of the wrapped future around
/// one timeout; then an event-driven task on a punctual host.
fn timeout_history() {
    let depth = env::bound();
    let (h, depth) = match choose(if depth > 1 { 3 } else { 1 }) {
        0 => (NODE, depth),
        1 => (IDEAL, depth - 1),
        _ => (BROWSER, depth - 1),
    };
    let base = Base::new(&h);
    warm(choose(2) == 1);
    let script = Rc::new(RefCell::new(Script::default()));
    // a wrapped future that becomes ready by itself at its k-th poll, or only when told
    script.borrow_mut().ready_at_poll = match choose(4) {
        0 => None,
        k => Some(k as u32),
    };
    let d = pick(&[0i64, 2_400, 9_000, -3_000]);
    let inst = if d >= 0 { Instant::now() + us_dur(d) } else { crate::world::ago(-d) };
    let mut dl = base.us(inst);
    let mut t = Box::pin(if d >= 0 && choose(2) == 0 {
        dl = env::now() + d;
        timeout(us_dur(d), Inner(script.clone()))
    } else {
        timeout_at(inst, Inner(script.clone()))
    });
    let slack = EARLY + 40 * h.read_cost;
    let mut wk = 0usize; // the waker of the latest poll
    let mut count = 0u32;
    let mut pending = false;
    let mut result = None;
    log!("timeout with deadline {} at {}", dl, env::now());
    let mut poll_it = |w: usize, pending: &mut bool, wk: &mut usize, count: &mut u32| -> Option<bool> {
        let (polls, was_ready) = {
            let s = script.borrow();
            (s.polls, s.ready || s.ready_at_poll == Some(s.polls + 1))
        };
        let n = waker::woken(w);
        let r = poll(t.as_mut(), w);
        let s = script.borrow();
        ensure!(s.polls == polls + 1, "one poll of the timeout polled the wrapped future {} times", s.polls - polls);
        log!("poll at {}: {}", env::now(), match &r { Poll::Pending => "pending", Poll::Ready(Ok(_)) => "value", _ => "elapsed" });
        match r {
            Poll::Ready(Ok(v)) => {
                ensure!(was_ready, "a value before the wrapped future was ready");
                ensure!(v == 4242, "the timeout returned {v} instead of the wrapped future's value");
                Some(true)
            }
            Poll::Ready(Err(_)) => {
                ensure!(!was_ready, "elapsed although the wrapped future was ready (deadline {dl}, now {})", env::now());
                ensure!(env::now() + slack >= dl, "elapsed at {}, before the deadline {dl}", env::now());
                Some(false)
            }
            Poll::Pending => {
                ensure!(!was_ready, "pending although the wrapped future was ready");
                *pending = true;
                *wk = w;
                *count = n;
                None
            }
        }
    };
    let mut told = false;
    for _ in 0..depth {
        let mut ops = vec![0u8, 1, 5];
        if env::pending() > 0 {
            ops.push(2);
        }
        ops.push(3);
        if !told && !script.borrow().ready {
            ops.push(4);
        }
        env::step();
        match ops[choose(ops.len())] {
            k @ (0 | 1) => {
                result = poll_it(k as usize, &mut pending, &mut wk, &mut count);
                if result.is_some() {
                    break;
                }
            }
            2 => {
                let due = env::next_due().unwrap();
                env::pass((due - env::now()).min(20_000));
                env::fire();
            }
            3 => env::pass(2_900),
            4 => {
                told = true;
                let w = {
                    let mut s = script.borrow_mut();
                    s.ready = true;
                    s.waker.take()
                };
                log!("the wrapped future becomes ready at {}", env::now());
                if let Some(w) = w {
                    w.wake();
                }
            }
            _ => {
                // every due timer runs
                env::run_due_with(4, &mut || {});
            }
        }
        let s = script.borrow();
        let mut hs = Hasher::new(20);
        hs.add((dl - env::now()) as u64).add(s.polls as u64).add(s.ready as u64).add(s.ready_at_poll.unwrap_or(0) as u64).add(pending as u64 + 2 * wk as u64);
        hs.add(env::pending() as u64).add(env::next_due().map(|d| d - env::now()).unwrap_or(-1) as u64);
        hs.state();
    }
    // an event-driven task: polled once, then only when woken, on a punctual host
    let from = env::now();
    if result.is_none() {
        if !pending {
            result = poll_it(0, &mut pending, &mut wk, &mut count);
        }
        let late = late(&h) + 60 * h.cb_cost;
        let limit = dl.max(from) + late;
        let mut guard = 0;
        while result.is_none() {
            let woken = waker::woken(wk) > count;
            if woken {
                result = poll_it(wk, &mut pending, &mut wk, &mut count);
                guard += 1;
                ensure!(guard < 50, "the task of a timeout is woken over and over");
                continue;
            }
            ensure!(!(told && script.borrow().waker.is_none()), "the wrapped future is ready, and the task was not woken");
            if env::now() >= limit {
                fail!("timeout with deadline {dl}: the pending task was not woken by {}", env::now());
            }
            match env::next_due() {
                Some(d) if d <= limit => {
                    env::pass(d - env::now());
                    env::fire();
                }
                _ => env::pass(limit - env::now()),
            }
        }
    }
    ensure!(!script.borrow().dropped, "the wrapped future was dropped before the timeout");
    drop(t);
    ensure!(script.borrow().dropped, "the wrapped future was not dropped with the timeout");
    let mut hs = Hasher::new(21);
    hs.add(result.unwrap() as u64).add((env::now() - dl) as u64).add(script.borrow().polls as u64);
    hs.outcome();
}

/// All histories of one timeout that is also looked into and, at the end, taken apart: the
/// wrapped future is reached in place, comes back as it is, and the deadline dies with the
/// timeout.
fn timeout_apart() {
    let depth = env::bound();
    let h = pick(&[NODE, BROWSER]);
    let base = Base::new(&h);
    warm(choose(2) == 1);
    let script = Rc::new(RefCell::new(Script::default()));
    let d = pick(&[0i64, 2_400, 9_000, 40 * 86_400_000_000]);
    let inst = Instant::now() + us_dur(d);
    let dl = base.us(inst);
    let mut t = if choose(2) == 0 { timeout(us_dur(d), Inner(script.clone())) } else { timeout_at(inst, Inner(script.clone())) };
    let mut polls = 0u32;
    let mut done = false;
    let mut last = None;
    let slack = EARLY + 40 * h.read_cost;
    log!("timeout with deadline {} at {}", dl, env::now());
    for _ in 0..depth {
        env::step();
        match choose(5) {
            w @ (0 | 1) if !done => {
                let ready = script.borrow().ready;
                // (it is not moved before it is taken apart)
                let r = poll(unsafe { Pin::new_unchecked(&mut t) }, w);
                polls += 1;
                last = Some(w);
                match r {
                    Poll::Pending => ensure!(!ready, "pending although the wrapped future was ready"),
                    Poll::Ready(Ok(v)) => {
                        ensure!(ready && v == 4242, "the value {v} from a wrapped future that was {}ready", if ready { "" } else { "not " });
                        done = true;
                    }
                    Poll::Ready(Err(e)) => {
                        ensure!(!ready, "elapsed although the wrapped future was ready");
                        ensure!(env::now() + slack >= dl, "elapsed at {}, before the deadline {dl}", env::now());
                        let e = std::io::Error::from(e);
                        ensure!(e.kind() == std::io::ErrorKind::TimedOut, "an elapsed timeout as an I/O error is {:?}", e.kind());
                        done = true;
                    }
                }
            }
            0..=2 => {
                ensure!(Rc::ptr_eq(&t.get_ref().0, &script), "get_ref reaches another future");
                ensure!(Rc::ptr_eq(&t.get_mut().0, &script), "get_mut reaches another future");
                t.get_mut().0.borrow_mut().ready = true;
            }
            3 => env::pass(2_900),
            _ => {
                env::run_due_with(4, &mut || {});
            }
        }
        ensure!(script.borrow().polls == polls, "the wrapped future was polled {} times in {polls} polls", script.borrow().polls);
        ensure!(!script.borrow().dropped, "the wrapped future was dropped before the timeout");
    }
    let mut inner = t.into_inner();
    ensure!(Rc::ptr_eq(&inner.0, &script), "into_inner returned another future");
    ensure!(!script.borrow().dropped && script.borrow().polls == polls, "into_inner dropped or polled the wrapped future");
    env::step();
    env::run_until(env::now() + 5_000);
    // nothing is due any more
    let n = waker::woken(0) + waker::woken(1);
    env::run_until(env::now() + 20_000);
    ensure!(waker::woken(0) + waker::woken(1) == n, "woken for the deadline of a timeout that was taken apart (last polled with {last:?})");
    if !script.borrow().finished {
        script.borrow_mut().ready = true;
        ensure!(matches!(poll(Pin::new(&mut inner), 0), Poll::Ready(4242)), "the future taken out of a timeout does not complete");
    }
    drop(inner);
    ensure!(script.borrow().dropped, "the wrapped future was kept");
    script.borrow_mut().waker = None;
    for w in 0..2 {
        ensure!(waker::live(w) == 0, "waker {w} is still held after the timeout was taken apart");
    }
    let mut hs = Hasher::new(23);
    hs.add((env::now() - dl) as u64).add(polls as u64).add(done as u64).add(last.map_or(9, |w| w as u64));
    hs.state();
    hs.outcome();
}

/// The wrapped future is itself a sleep: whichever deadline comes first wins.
fn timeout_sleep() {
    let h = pick(&[NODE, IDEAL, BROWSER]);
    let _base = Base::new(&h);
    warm(choose(2) == 1);
    let _ = env::bound();
    const D: [i64; 10] = [0, 300, 1_000, 2_400, 2_500, 9_000, 9_900, 30_000, 5_000_000, 40 * 86_400_000_000];
    let a = pick(&D);
    let b = pick(&D);
    let late_host = pick(&[0i64, 4_000, 12_000]);
    let t0 = env::now();
    let mut t = Box::pin(timeout(us_dur(a), sleep(us_dur(b))));
    let mut w = 0;
    env::step();
    let mut r = poll(t.as_mut(), w);
    env::pass(late_host);
    let late = late(&h) + 100 * h.cb_cost + late_host;
    let first = a.min(b);
    if first <= 5_000_000 {
        while r.is_pending() {
            let n = waker::woken(w);
            let limit = t0 + first + late;
            while waker::woken(w) == n {
                ensure!(env::now() < limit, "timeout({a}) of sleep({b}): not woken by {}", env::now());
                match env::next_due() {
                    Some(d) if d <= limit => {
                        env::pass(d - env::now());
                        env::fire();
                    }
                    _ => env::pass(limit - env::now()),
                }
            }
            env::step();
            w += 1;
            r = poll(t.as_mut(), w);
            ensure!(w < 20, "woken over and over");
        }
        let now = env::now();
        match r {
            Poll::Ready(Ok(())) => {
                ensure!(now + EARLY + 40 * h.read_cost >= t0 + b, "value at {now}, before the wrapped sleep's deadline");
                ensure!(b <= a || late_host > 0 || b - a <= 1_000 + h.min_delay + 20 * h.cb_cost, "sleep({b}) beat timeout({a}) on a punctual host");
            }
            Poll::Ready(Err(_)) => {
                ensure!(now + EARLY + 40 * h.read_cost >= t0 + a, "elapsed at {now}, before the deadline");
                ensure!(a <= b + 20 * h.read_cost, "timeout({a}) elapsed before sleep({b})");
            }
            _ => {}
        }
    } else {
        ensure!(r.is_pending(), "completed at once");
        env::run_until(t0 + 3_600_000_000);
        ensure!(waker::woken(0) == 0, "woken after an hour for deadlines in forty days");
        r = poll(t.as_mut(), 1);
        ensure!(r.is_pending(), "completed after an hour for deadlines in forty days");
    }
    let mut hs = Hasher::new(22);
    hs.add(a as u64).add(b as u64).add(matches!(r, Poll::Ready(Ok(()))) as u64).add((env::now() - t0) as u64);
    hs.state();
    hs.outcome();
}

// ---------------------------------------------------------------- C09, C10
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Exact,
    Missed,
}
const BEHAVIORS: [MissedTickBehavior; 3] = [MissedTickBehavior::Burst, MissedTickBehavior::Delay, MissedTickBehavior::Skip];

struct Iv {
    iv: Interval,
    base: Base,
    h: Host,
    p: i64,
    due: i64,
    beh: usize,
    pending: Option<(usize, u32)>,
    since: i64,
    ticks: u32,
}
impl Iv {
    fn poll(&mut self, w: usize) -> bool {
        let n = waker::woken(w);
        let wk = waker::get(w);
        let mut cx = Context::from_waker(&wk);
        // tick() is the same thing, and may be dropped and called again
        let r = if w & 1 == 1 { std::pin::pin!(self.iv.tick()).poll(&mut cx) } else { self.iv.poll_tick(&mut cx) };
        drop(wk);
        let now = env::now();
        match r {
            Poll::Pending => {
                log!("poll_tick at {}: pending, due {}", now, self.due);
                self.pending = Some((w, n));
                false
            }
            Poll::Ready(t) => {
                let t = self.base.us(t);
                log!("poll_tick at {}: tick {}", now, t);
                ensure!(now + EARLY >= self.due, "tick delivered at {now}, due {}", self.due);
                ensure!((t - self.due).abs() <= EARLY, "tick reports {t}, was due {}", self.due);
                self.ticks += 1;
                let old = self.due;
                self.pending = None;
                self.since = now;
                // the model of the next deadline; wasmtimer's clock reads whole microseconds
                self.due = if now > old + 5_000 {
                    match self.beh {
                        0 => old + self.p,
                        1 => now + self.p,
                        _ => old + ((now - old) / self.p + 1) * self.p,
                    }
                } else {
                    old + self.p
                };
                true
            }
        }
    }
    fn hash(&self, tag: u64) -> Hasher {
        let now = env::now();
        let mut h = Hasher::new(tag);
        h.add((self.due - now) as u64).add(self.beh as u64).add(self.pending.map(|p| p.0 + 1).unwrap_or(0) as u64).add(self.p as u64);
        h.add(env::pending() as u64).add(env::next_due().map(|d| d - now).unwrap_or(-1) as u64);
        h
    }
    /// An event-driven consumer on a punctual host: the next `n` ticks.
    fn consume(&mut self, n: usize, w0: usize) {
        let late = late(&self.h);
        for k in 0..n {
            if self.pending.is_none() && self.poll(w0 + k) {
                continue;
            }
            let mut spurious = 0;
            loop {
                let limit = self.due.max(self.since) + late;
                let (w, c) = self.pending.unwrap();
                if waker::woken(w) > c {
                    env::step();
                    if self.poll(w) {
                        break;
                    }
                    spurious += 1;
                    ensure!(spurious < 20, "woken over and over without a tick");
                    continue;
                }
                ensure!(env::now() < limit, "tick due {} not delivered by {}: task not woken", self.due, env::now());
                match env::next_due() {
                    Some(d) if d <= limit => {
                        env::pass(d - env::now());
                        env::fire();
                    }
                    _ => env::pass(limit - env::now()),
                }
            }
        }
    }
}

fn intervals(mode: Mode) {
    // exact deadlines need a clock that stands still within one call; the second host
    // and the cold start get one operation less
    let full = env::bound();
    let (h, warmed, depth) = match choose(if full > 1 { 3 } else { 1 }) {
        0 => (NODE, true, full),
        1 => (Host { start: 86_400_000_250, min_delay: 0, cb_cost: 50, read_cost: 0, res: 0 }, true, full - 1),
        _ => (NODE, false, full - 1),
    };
    let base = Base::new(&h);
    warm(warmed);
    let p = match mode {
        Mode::Exact => pick(&[2_000i64, 7_300, 1_000_000]),
        Mode::Missed => pick(&[3_000i64, 10_000, 7_300]),
    };
    let start = choose(4);
    let (iv, due) = match start {
        0 => (interval(us_dur(p)), base.us(Instant::now())),
        1 => (interval_at(Instant::now() + us_dur(2_600), us_dur(p)), base.us(Instant::now()) + 2_600),
        2 => (interval_at(Instant::now() + us_dur(21_500), us_dur(p)), base.us(Instant::now()) + 21_500),
        _ => {
            let ago = if mode == Mode::Missed { 47_000 } else { 1_000 };
            let at = crate::world::ago(ago);
            (interval_at(at, us_dur(p)), base.us(at))
        }
    };
    ensure!(iv.period() == us_dur(p), "period() differs from the period given");
    ensure!(iv.missed_tick_behavior() == MissedTickBehavior::Burst, "the default policy is not Burst");
    let mut v = Iv { iv, base, h, p, due, beh: 0, pending: None, since: env::now(), ticks: 0 };
    if mode == Mode::Missed {
        v.beh = choose(3);
        v.iv.set_missed_tick_behavior(BEHAVIORS[v.beh]);
    }
    for _ in 0..depth {
        // 0 poll, 1 next host timer, 2.. lags, 10 reset, 20+ policy
        let mut ops: Vec<u32> = vec![0];
        if env::pending() > 0 {
            ops.push(1);
        }
        match mode {
            Mode::Exact => ops.extend([2, 3, 10]),
            Mode::Missed => ops.extend([4, 5, 6, 7, 10]),
        }
        if mode == Mode::Missed {
            for b in 0..3 {
                if b != v.beh {
                    ops.push(20 + b as u32);
                }
            }
        }
        env::step();
        match ops[choose(ops.len())] {
            0 => {
                v.poll(0);
            }
            1 => {
                let d = env::next_due().unwrap();
                env::pass((d - env::now()).min(1_000_000));
                env::fire();
            }
            k @ 2..=7 => {
                env::pass([0, 0, 1_900, 4_900, 5_000, 5_001, 12_345, 33_000][k as usize]);
            }
            10 => {
                v.iv.reset();
                v.due = base.us(Instant::now()) + p;
                v.pending = None;
                v.since = env::now();
                log!("reset at {}: due {}", env::now(), v.due);
            }
            b => {
                v.beh = b as usize - 20;
                v.iv.set_missed_tick_behavior(BEHAVIORS[v.beh]);
                ensure!(v.iv.missed_tick_behavior() == BEHAVIORS[v.beh], "the policy set is not the policy reported");
                log!("policy {}", v.beh);
            }
        }
        ensure!(v.iv.period() == us_dur(p), "the period changed");
        v.hash(30).state();
    }
    v.since = env::now();
    v.consume(4, 1);
    if mode == Mode::Missed {
        // one more suspension, and on
        env::pass(41_000);
        v.since = env::now();
        v.consume(3, 10);
    }
    v.hash(31).outcome();
}

/// Periods down to a nanosecond and up to a month; every tick is observed a chosen
/// time after it was due, and the instants are compared to the nanosecond.
fn grid(policies: usize) {
    let depth = env::bound();
    let h = Host { start: 5_000_000, min_delay: 0, cb_cost: 20, read_cost: 0, res: 0 };
    let base = Base::new(&h);
    warm(true);
    const NS: [u64; 12] = [
        1, 999, 1_500, 2_000_500, 3_000_001, 6_999_999, 7_333_333, 16_666_667, 1_000_000_000, 1_000_000_001, 3_600_000_000_000, 2_592_000_000_000_777,
    ];
    let p = pick(&NS);
    let per = Duration::from_nanos(p);
    let off = pick(&[0u64, 1, 2_600_400]);
    let start = Instant::now() + Duration::from_nanos(off);
    let mut iv = interval_at(start, per);
    let mut beh = choose(policies);
    iv.set_missed_tick_behavior(BEHAVIORS[beh]);
    let mut due = start;
    let mut missed = false;
    let ceil_us = |t: Instant| -> i64 { base.us + (((t - base.i).as_nanos() + 999) / 1_000) as i64 };
    // how long after the due time the tick is observed: around the tolerance, and
    // around multiples of the period
    let pu = (p / 1_000) as i64;
    let mut lates = vec![1_000i64, 4_999, 5_000, 5_001, 6_000, 41_000];
    for k in [1, 2, 7] {
        for e in [-1, 0, 1] {
            let x = pu.saturating_mul(k) + e;
            if x > 5_001 && k * pu < 40 * 86_400_000_000 && !lates.contains(&x) {
                lates.push(x);
            }
        }
    }
    for k in 0..depth {
        let x = pick(&lates);
        if policies > 1 && k > 0 && choose(2) == 1 {
            beh = (beh + 1) % policies;
            iv.set_missed_tick_behavior(BEHAVIORS[beh]);
        }
        env::step();
        let t = (ceil_us(due) + x).max(env::now() + 1);
        // the tick is due during the punctual part only if it is near
        if t - env::now() > 100_000 {
            env::pass(t - env::now() - 30_000);
        }
        env::run_until(t);
        let wk = waker::get(0);
        let mut cx = Context::from_waker(&wk);
        let mut r = iv.poll_tick(&mut cx);
        let mut tries = 0;
        while r.is_pending() {
            ensure!(tries < 12, "a tick due {} is still pending at {}", base.us(due), env::now());
            tries += 1;
            env::run_until(env::now() + 1_000);
            r = iv.poll_tick(&mut cx);
        }
        let now = Instant::now();
        let Poll::Ready(at) = r else { return };
        log!("late {} us, policy {}: tick {:?}, was due {:?}, observed {:?}", x, beh, at, due, now);
        ensure!(now >= due, "tick delivered {:?} before it was due", due - now);
        ensure!(at == due, "the tick reports {at:?}, it was due {due:?}{}", if missed { "" } else { ", the one before was punctual" });
        missed = now > due + Duration::from_millis(5);
        due = if missed {
            match beh {
                0 => due + per,
                1 => now + per,
                _ => due + Duration::from_nanos((((now - due).as_nanos() / p as u128 + 1) * p as u128) as u64),
            }
        } else {
            due + per
        };
        let mut hs = Hasher::new(36);
        hs.add(p).add((now - base.i).as_nanos() as u64).add((due - base.i).as_nanos() as u64).add(beh as u64).state();
        drop(wk);
    }
    ensure!(iv.period() == per, "the period changed");
    let mut hs = Hasher::new(37);
    hs.add(p).add((due - base.i).as_nanos() as u64).add(beh as u64).outcome();
}

/// Long regular runs: the n-th tick is due n periods after the start, without drift.
fn drift() {
    let n = env::bound();
    let h = pick(&[NODE, Host { start: 999, min_delay: 0, cb_cost: 50, read_cost: 0, res: 0 }, BROWSER]);
    let p = pick(&[1_000i64, 1_001, 6_999, 16_667, 333_333, 60_000_000]);
    let base = Base::new(&h);
    let start = Instant::now() + us_dur(3_210);
    let s0 = base.us(start);
    let mut iv = interval_at(start, us_dur(p));
    if p <= h.min_delay * 2 {
        return; // the host cannot keep up: ticks are missed
    }
    let late = late(&h) + 20 * h.cb_cost;
    for k in 0..n {
        let mut spurious = 0;
        loop {
            let wk = waker::get(0);
            let c = waker::woken(0);
            let r = iv.poll_tick(&mut Context::from_waker(&wk));
            drop(wk);
            env::step();
            let due = s0 + k as i64 * p;
            match r {
                Poll::Ready(t) => {
                    ensure!((base.us(t) - due).abs() <= EARLY, "tick {k} reports {}, was due {due}", base.us(t));
                    ensure!(env::now() + EARLY >= due, "tick {k} delivered at {}, due {due}", env::now());
                    break;
                }
                Poll::Pending => {
                    spurious += 1;
                    ensure!(spurious < 20, "woken over and over without a tick");
                    while waker::woken(0) == c {
                        ensure!(env::now() < due + late, "tick {k} due {due} not delivered by {}", env::now());
                        match env::next_due() {
                            Some(d) if d <= due + late => {
                                env::pass(d - env::now());
                                env::fire();
                            }
                            _ => env::pass(due + late - env::now()),
                        }
                    }
                }
            }
        }
        let mut hs = Hasher::new(33);
        hs.add(p as u64).add((env::now() - s0 - k as i64 * p) as u64).state();
    }
    let mut hs = Hasher::new(34);
    hs.add(p as u64).add((env::now() - s0) as u64).outcome();
}

// ---------------------------------------------------------------- C21
fn long(i: usize) -> Duration {
    const MS: u64 = 1_000_000;
    match i {
        0 => Duration::MAX,
        1 => Duration::from_secs(u64::MAX),
        2 => Duration::from_secs(u64::MAX / 2),
        3 => Duration::from_nanos(u64::MAX),
        4 => Duration::from_micros(u64::MAX),
        5 => Duration::from_millis(u64::MAX),
        6 => Duration::from_secs(86_400 * 365 * 1000),
        7 => Duration::from_millis(i32::MAX as u64),
        8 => Duration::from_millis(i32::MAX as u64 + 1),
        9 => Duration::from_millis(u32::MAX as u64),
        10 => Duration::from_millis(u32::MAX as u64 + 1),
        11 => Duration::from_millis(i64::MAX as u64),
        12 => Duration::from_nanos(i32::MAX as u64 * MS - 1),
        13 => Duration::from_secs(i64::MAX as u64),
        14 => Duration::from_millis((1 << 53) + 1),
        _ => Duration::from_secs(86_400 * 25),
    }
}
const LONGS: usize = 16;

enum Any {
    Sleep(Pin<Box<Sleep>>),
    Timeout(Pin<Box<wasmtimer::tokio::Timeout<std::future::Pending<()>>>>),
    Interval(Box<Interval>),
}
impl Any {
    fn poll(&mut self, w: usize) -> bool {
        let wk = waker::get(w);
        let mut cx = Context::from_waker(&wk);
        match self {
            Any::Sleep(s) => s.as_mut().poll(&mut cx).is_ready(),
            Any::Timeout(t) => t.as_mut().poll(&mut cx).is_ready(),
            Any::Interval(i) => i.poll_tick(&mut cx).is_ready(),
        }
    }
}

/// Very long timers of every kind, next to ordinary ones.
fn extremes() {
    let n = env::bound();
    let h = pick(&[NODE, BROWSER]);
    let _ = Base::new(&h);
    warm(choose(2) == 1);
    struct Long {
        a: Any,
        k: usize,
        due: i64,
        woken: u32,
    }
    let mut v: Vec<Long> = Vec::new();
    for k in 0..n {
        let d = long(choose(LONGS));
        let kind = choose(6);
        env::step();
        log!("kind {} for {:?}", kind, d);
        let now = Instant::now();
        let at = now.checked_add(d);
        let mut a = match (kind, at) {
            (0, _) => Any::Sleep(Box::pin(sleep(d))),
            (1, _) => Any::Timeout(Box::pin(timeout(d, std::future::pending()))),
            (2, _) => {
                let mut i = Box::new(interval(d));
                // the first tick is due at once; the next is a very long way off
                env::run_until(env::now() + 20_000);
                let wk = waker::get(50);
                let r = i.poll_tick(&mut Context::from_waker(&wk));
                ensure!(r.is_ready(), "the first tick of a very long interval is not due at once");
                if choose(2) == 1 {
                    i.reset();
                }
                Any::Interval(i)
            }
            (3, Some(at)) => Any::Sleep(Box::pin(sleep_until(at))),
            (4, Some(at)) => Any::Interval(Box::new(interval_at(at, pick(&[d, us_dur(2_000)])))),
            (5, Some(at)) => {
                let mut s = Box::pin(sleep(us_dur(2_000)));
                if choose(2) == 1 {
                    env::run_until(env::now() + 9_000);
                    ensure!(s.is_elapsed(), "an ordinary sleep did not complete next to very long ones");
                }
                s.as_mut().reset(at);
                Any::Sleep(s)
            }
            _ => return,
        };
        ensure!(!a.poll(k), "a timer of {d:?} completed at once");
        // an upper limit of when it is due (a few callbacks may have run since `now`)
        let due = env::now().saturating_add(i64::try_from(d.as_micros()).unwrap_or(i64::MAX / 2).min(i64::MAX / 2));
        v.push(Long { a, k, due, woken: waker::woken(k) });
        // an ordinary sleep beside it
        let t = env::now();
        let mut s = Box::pin(sleep(us_dur(5_000)));
        let _ = poll(s.as_mut(), 60 + k);
        env::run_until(t + 4_000);
        ensure!(!s.is_elapsed(), "an ordinary sleep completed early next to very long ones");
        env::run_until(t + 5_000 + late(&h) + 100 * h.cb_cost);
        ensure!(waker::woken(60 + k) > 0 && s.is_elapsed(), "an ordinary sleep was not woken on time next to very long ones");
    }
    const DAY: i64 = 86_400_000_000;
    let mut idle = 0i64;
    // hours, then (not for every crowd) decades; those of weeks and months do complete
    let spans = [1_000_000i64, 3_600_000_000, 30 * 3_600_000_000, 23 * DAY, 40 * DAY, 700 * DAY, 7_000 * DAY, 2_900 * DAY];
    for &t in &spans[..if n < 3 { 8 } else { 5 }] {
        if v.is_empty() {
            break; // the driver looks every 5 s for what there is to do
        }
        if t == 23 * DAY {
            ensure!(env::n_fired() < 400 + 60 * n, "{} host callbacks in 31 idle hours", env::n_fired());
        }
        idle += t;
        let end = env::now() + t;
        while env::now() < end && !v.is_empty() {
        let next = v.iter().map(|a| a.due + 40_000).min().unwrap();
        env::run_until(end.min(next));
        v.retain_mut(|a| {
            let (k, due) = (a.k, a.due);
            if env::now() + EARLY < due {
                ensure!(waker::woken(k) == a.woken, "the task of a very long timer was woken after {} us", t);
                ensure!(!a.a.poll(k), "a very long timer completed after {} us", t);
                a.woken = waker::woken(k);
                true
            } else {
                ensure!(waker::woken(k) > a.woken, "a long timer, due at {due}, did not wake its task by {}", env::now());
                ensure!(a.a.poll(k), "a long timer, due at {due}, polls pending at {}", env::now());
                false
            }
        });
        }
    }
    ensure!(env::n_fired() < 1_400 + 60 * n, "{} host callbacks in {} idle hours", env::n_fired(), idle / 3_600_000_000);
    let mut hs = Hasher::new(40);
    hs.add(env::n_fired() as u64).add(env::pending() as u64).outcome();
    hs.add(v.len() as u64).state();
    // they can all be dropped again
    v.clear();
    env::run_until(env::now() + 30_000);
}
/// Zero durations and deadlines in the past complete at the next opportunity.
fn zeros() {
    let h = pick(&[NODE, IDEAL, BROWSER]);
    let _ = Base::new(&h);
    let warmed = choose(2) == 1;
    warm(warmed);
    let kind = choose(8);
    let others = choose(env::bound() + 1);
    let ago = pick(&[0i64, 1, 999, 1_000, 30_000, 1_200_000]);
    let ago = ago.min(env::now() - 100);
    let _keep: Vec<Pin<Box<Sleep>>> = (0..others).map(|i| Box::pin(sleep(us_dur(1_000_000 * (i as i64 + 1))))).collect();
    if choose(2) == 1 {
        env::run_until(env::now() + 7_000);
    }
    let past = Instant::now() - us_dur(ago.min(env::now()));
    let t = env::now();
    env::step();
    let mut a = match kind {
        0 => Any::Sleep(Box::pin(sleep(Duration::ZERO))),
        1 => Any::Sleep(Box::pin(sleep_until(past))),
        2 => Any::Timeout(Box::pin(timeout(Duration::ZERO, std::future::pending()))),
        3 => Any::Timeout(Box::pin(timeout_at(past, std::future::pending()))),
        4 => Any::Interval(Box::new(interval_at(past, us_dur(1_000_000)))),
        _ => {
            let mut iv = interval_at(past, Duration::ZERO);
            iv.set_missed_tick_behavior(BEHAVIORS[kind - 5]);
            Any::Interval(Box::new(iv))
        }
    };
    // an interval without a period is due again and again
    for k in 0..if kind > 4 { 4 } else { 1 } {
        if k > 0 {
            env::pass(pick(&[0i64, 20_000]));
        }
        let t = if k > 0 { env::now() } else { t };
        let n = waker::woken(0);
        if !a.poll(0) {
            env::run_until(t + late(&h) + 60 * h.cb_cost);
            ensure!(waker::woken(0) > n, "a due timer did not wake its task at the next opportunity");
            ensure!(a.poll(0), "a due timer polls pending");
        }
    }
    let mut hs = Hasher::new(41);
    hs.add(kind as u64).add(others as u64).add(ago as u64).add((env::now() - t) as u64);
    hs.state();
    hs.outcome();
}

pub const SUITES: &[Suite] = &[
    Suite {
        prop: "C08", name: "history",
        what: "all histories of polls (2 wakers), host turns, lag and completions of the wrapped future around one timeout, 4 deadlines, 4 scripts, 3 hosts; then an event-driven task",
        unit: "operations", variants: BOTH, min: 1, quick: 6, deep: 8, run: timeout_history,
    },
    Suite {
        prop: "C08", name: "sleep",
        what: "timeouts of sleeps: 10 x 10 durations, 3 hosts, 3 latenesses: whichever comes first",
        unit: "(one level)", variants: BOTH, min: 1, quick: 1, deep: 1, run: timeout_sleep,
    },
    Suite {
        prop: "C08", name: "apart",
        what: "all histories of polls (2 wakers), accesses to the wrapped future, host turns and lag around one timeout that is then taken apart, 4 deadlines, 2 hosts: the wrapped future comes back untouched, and nothing is woken or held for the timeout",
        unit: "operations", variants: BOTH, min: 1, quick: 5, deep: 8, run: timeout_apart,
    },
    Suite {
        prop: "C09", name: "schedule",
        what: "all histories of polls, host turns, small lags and resets of an interval, 3 periods, 4 starts, 2 hosts; then 4 ticks of an event-driven consumer",
        unit: "operations", variants: BOTH, min: 1, quick: 6, deep: 8, run: || intervals(Mode::Exact),
    },
    Suite {
        prop: "C09", name: "drift",
        what: "long runs of consecutive ticks, 6 periods, 3 hosts: tick k is due k periods after the start",
        unit: "ticks", variants: BOTH, min: 2000, quick: 2000, deep: 4000, run: drift,
    },
    Suite {
        prop: "C10", name: "missed",
        what: "all histories of polls, host turns, lags on and beyond the tolerance, resets and policy changes, 3 policies, 3 periods, 4 starts; next tick as the policy says",
        unit: "operations", variants: BOTH, min: 1, quick: 5, deep: 6, run: || intervals(Mode::Missed),
    },
    Suite {
        prop: "C10", name: "grid",
        what: "12 periods from a nanosecond to a month, 3 starts, 3 policies changed at any tick, every tick observed at one of up to 15 latenesses around the tolerance and multiples of the period; instants exact to the nanosecond",
        unit: "ticks", variants: BOTH, min: 1, quick: 3, deep: 4, run: || grid(3),
    },
    Suite {
        prop: "C21", name: "extremes",
        what: "n timers of 6 kinds and 16 very long durations beside ordinary sleeps, then 31 hours and, for fewer than 3, 29 years",
        unit: "very long timers", variants: BOTH, min: 1, quick: 2, deep: 3, run: extremes,
    },
    Suite {
        prop: "C21", name: "zeros",
        what: "zero durations, zero periods under each policy, and past deadlines, 8 kinds, 6 ages, with 0..n others outstanding",
        unit: "other sleeps", variants: BOTH, min: 3, quick: 3, deep: 8, run: zeros,
    },
];
