//! The mock clock of the test utilities (C15), timers driven by it (C16), and
//! re-entrancy while it is paused (C05).
use crate::env::{self, choose, pick, Hasher};
use crate::world::*;
use crate::{ensure, fail, log, waker, Suite, TEST};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::time::Duration;
use wasmtimer::std::{Instant, SystemTime};
use wasmtimer::tokio as tu;
use wasmtimer::tokio::{interval_at, sleep, sleep_until, timeout, timeout_at, Interval, MissedTickBehavior, Sleep, Timeout};
use wasmtimer::tokio_util::delay_queue::{DelayQueue, Key};

fn advance(d: Duration) {
    let mut f = Box::pin(tu::advance(d));
    ensure!(poll(f.as_mut(), 127).is_ready(), "advance did not complete at once");
}
fn ns(d: Duration) -> u128 {
    d.as_nanos()
}

// ---------------------------------------------------------------- C15
/// All histories of the mock clock against a model in nanoseconds. The host's clock is
/// kept at multiples of 1/8 ms, which it represents exactly.
fn clock_history() {
    let depth = env::bound();
    env::host(pick(&[1_234_500i64, 0, 86_400_000_125]), 1_000, 0, 0);
    // timers outstanding, or none, or not even the runtime
    let keep = match choose(3) {
        0 => Vec::new(),
        1 => {
            warm(true);
            Vec::new()
        }
        _ => vec![Box::pin(sleep(us_dur(2_000))), Box::pin(sleep(us_dur(60_000_000)))],
    };
    let t0 = Instant::now();
    // the model: the clock since t0, and the host time it runs from
    let mut base = 0u128;
    let mut host = Some(env::now());
    let mut last = t0;
    let read = |base: u128, host: Option<i64>| base + host.map(|h| (env::now() - h) as u128 * 1_000).unwrap_or(0);
    for _ in 0..depth {
        env::step();
        // 0 pause, 1 resume, 2.. advances, 10.. host time, 20 event-loop turn, 21 a dropped advance
        // a refused operation ends the execution; long histories do without
        let mut ops: Vec<u32> = vec![10, 11, 12, 21];
        let refused = depth <= 4;
        if refused || host.is_some() {
            ops.push(0);
        }
        if refused || host.is_none() {
            ops.extend([1, 2, 3, 4, 5, 6]);
        }
        if env::pending() > 0 {
            ops.push(20);
        }
        let op = ops[choose(ops.len())];
        let mut h = Hasher::new(80);
        h.add(op as u64).add(host.is_some() as u64).add(base as u64).add((base >> 64) as u64).state();
        match op {
            0 => {
                log!("pause at host {}", env::now());
                if host.is_none() {
                    env::must_panic();
                    tu::pause();
                    env::no_panic(format_args!("pausing a paused clock was not refused"));
                }
                base = read(base, host);
                host = None;
                tu::pause();
            }
            1 => {
                log!("resume at host {}", env::now());
                if host.is_some() {
                    env::must_panic();
                    tu::resume();
                    env::no_panic(format_args!("resuming a running clock was not refused"));
                }
                host = Some(env::now());
                tu::resume();
            }
            k @ 2..=6 => {
                let d = [Duration::ZERO, Duration::from_nanos(1), Duration::from_micros(1_500), Duration::new(86_400 * 400, 999_999_999), Duration::from_millis(i32::MAX as u64 + 1)][k as usize - 2];
                log!("advance by {:?} at host {}", d, env::now());
                if host.is_some() {
                    env::must_panic();
                    advance(d);
                    env::no_panic(format_args!("advancing a running clock was not refused"));
                }
                base += ns(d);
                advance(d);
            }
            k @ 10..=12 => {
                let us = [125, 1_000, 7_777_777_750][k as usize - 10];
                env::pass(us);
                log!("host time passes: {} us", us);
            }
            20 => {
                // to a multiple of 1/8 ms at or after the timer's due time
                let d = env::next_due().unwrap().max(env::now());
                env::pass((d + 124) / 125 * 125 - env::now());
                env::fire();
                log!("event loop turns at host {}", env::now());
            }
            _ => {
                // an advance that is never polled advances nothing
                drop(tu::advance(Duration::from_secs(5)));
            }
        }
        let want = read(base, host);
        let a = Instant::now();
        let b = Instant::now();
        ensure!(a >= last, "the clock went backwards");
        ensure!(a == b, "the clock moves while the host's stands still");
        ensure!(ns(a - t0) == want, "the clock reads {} ns after the start instead of {want} ({})", ns(a - t0), if host.is_some() { "running" } else { "paused" });
        ensure!(ns(t0.elapsed()) == want, "elapsed() is {} ns instead of {want}", ns(t0.elapsed()));
        last = a;
        // the calendar clock is the host's throughout
        let st = SystemTime::now();
        env::date(1_700_000_000_000.0 + env::now() as f64);
        ensure!(SystemTime::now().duration_since(st).is_ok(), "the calendar clock went backwards");
    }
    drop(keep);
    let mut h = Hasher::new(81);
    let w = read(base, host);
    h.add(host.is_some() as u64).add(w as u64).add((w >> 64) as u64).outcome();
}

// ---------------------------------------------------------------- C16: sleeps
struct MS {
    s: Pin<Box<Sleep>>,
    /// deadline on the mock clock, us
    dl: i64,
    pending: Option<(usize, u32)>,
}
struct Mock {
    base: Base,
    slots: Vec<Option<MS>>,
    paused: bool,
}
impl Mock {
    fn now(&self) -> i64 {
        self.base.us(Instant::now())
    }
    fn check(&self, what: &str) {
        let now = self.now();
        for (i, m) in self.slots.iter().enumerate() {
            if let Some(m) = m {
                let e = m.s.is_elapsed();
                ensure!(!e || now >= m.dl, "{what}: sleep {i} complete at {now}, before its deadline {}", m.dl);
                if let Some((w, n)) = m.pending {
                    if waker::woken(w) > n {
                        ensure!(now >= m.dl, "{what}: sleep {i} woke its task at {now}, before its deadline {}", m.dl);
                    }
                }
            }
        }
    }
    fn check_due(&self, what: &str) {
        self.check(what);
        let now = self.now();
        for (i, m) in self.slots.iter().enumerate() {
            if let Some(m) = m {
                if now >= m.dl {
                    ensure!(m.s.is_elapsed(), "{what}: sleep {i} is not complete at {now}, its deadline was {}", m.dl);
                    if let Some((w, n)) = m.pending {
                        ensure!(waker::woken(w) > n, "{what}: sleep {i} did not wake its task at {now}, its deadline was {}", m.dl);
                    }
                }
            }
        }
    }
    fn poll(&mut self, i: usize, k: usize) {
        let now = self.now();
        let m = self.slots[i].as_mut().unwrap();
        let w = 2 * i + k;
        let n = waker::woken(w);
        match poll(m.s.as_mut(), w) {
            Poll::Ready(()) => {
                ensure!(now >= m.dl, "sleep {i} polls ready at {now}, before its deadline {}", m.dl);
                m.pending = None;
            }
            Poll::Pending => m.pending = Some((w, n)),
        }
    }
    fn hash(&self, tag: u64) -> Hasher {
        let mut h = Hasher::new(tag);
        let now = self.now();
        h.add(self.paused as u64).add(env::pending() as u64);
        h.add(env::next_due().map(|d| d - env::now()).unwrap_or(-1) as u64);
        for m in &self.slots {
            match m {
                None => h.add(1),
                Some(m) => h.add((m.dl - now) as u64).add(m.s.is_elapsed() as u64).add(m.pending.is_some() as u64),
            };
        }
        h
    }
    /// One callback of the host, at its due time or now.
    fn turn(&mut self) {
        env::pass(env::next_due().unwrap() - env::now());
        env::fire();
    }
    /// Runs everything the host owes now, without letting the clock run on much.
    fn turns(&mut self) {
        env::run_until(env::now() + 2_000);
    }
}
fn sleeps() {
    let full = env::bound();
    let (h, depth) = match choose(if full > 1 { 2 } else { 1 }) {
        0 => (Host { start: 1_234_500, ..NODE }, full),
        _ => (Host { start: 2_125, min_delay: 0, cb_cost: 125, read_cost: 0, res: 0 }, full - 1),
    };
    let base = Base::new(&h);
    let mut m = Mock { base, slots: vec![None, None], paused: false };
    warm(choose(2) == 1);
    // before the pause
    match choose(4) {
        0 => {}
        k => {
            let d = [2_000, 5_000, 3_600_000_000][k - 1];
            m.slots[0] = Some(MS { s: Box::pin(sleep(us_dur(d))), dl: m.now() + d, pending: None });
            if choose(2) == 1 {
                m.poll(0, 0);
            }
            match choose(3) {
                0 => {}
                1 => m.turns(),
                _ => env::pass(3_000), // due already, unserved
            }
        }
    }
    tu::pause();
    m.paused = true;
    m.check("after pausing");
    let mut wks = 0;
    for _ in 0..depth {
        env::step();
        let mut ops: Vec<(u8, usize, i64)> = Vec::new();
        if m.paused {
            for d in [0i64, 1_000, 2_000, 7_000, 3_600_000_000] {
                ops.push((0, 0, d));
            }
        }
        let mut free = true;
        for i in 0..2 {
            match &m.slots[i] {
                None => {
                    if free {
                        ops.extend([(1, i, 0), (1, i, 2_000), (1, i, 5_000)]);
                    }
                    free = false;
                }
                Some(_) => ops.extend([(2, i, 2_000), (2, i, -900), (2, i, 9_000), (3, i, 0), (4, i, 0)]),
            }
        }
        if env::pending() > 0 {
            ops.push((5, 0, 0));
        }
        ops.push((6, 0, 50_000));
        ops.push((7, 0, 0));
        let (k, i, d) = ops[choose(ops.len())];
        log!("{} {} {} us at host {} mock {}", ["advance", "create", "reset", "drop", "poll", "turn", "host lag", "pause/resume"][k as usize], i, d, env::now(), m.now());
        match k {
            0 => {
                let before = m.now();
                advance(us_dur(d));
                ensure!((m.now() - before - d).abs() <= 1, "advance by {d} us moved the clock from {before} to {}", m.now());
                m.check_due("after an advance");
            }
            1 => {
                let s = if d == 5_000 { sleep_until(Instant::now() + us_dur(d)) } else { sleep(us_dur(d)) };
                m.slots[i] = Some(MS { s: Box::pin(s), dl: m.now() + d, pending: None });
            }
            2 => {
                let at = if d < 0 { Instant::now() - us_dur(-d) } else { Instant::now() + us_dur(d) };
                let dl = m.now() + d;
                let s = m.slots[i].as_mut().unwrap();
                s.s.as_mut().reset(at);
                s.dl = dl;
                s.pending = None;
            }
            3 => {
                m.slots[i] = None;
            }
            4 => {
                wks += 1;
                m.poll(i, wks % 2)
            }
            5 => {
                m.turn();
                if m.paused {
                    m.check_due("after the event loop turned");
                }
            }
            6 => env::pass(d),
            _ => {
                if m.paused {
                    tu::resume();
                    m.paused = false;
                } else {
                    tu::pause();
                    m.paused = true;
                }
            }
        }
        m.check("after an operation");
        m.hash(82).state();
    }
    // the end: every deadline is met, by advances or by the host's clock
    let max = m.slots.iter().flatten().map(|s| s.dl).max().unwrap_or(0);
    for i in 0..2 {
        if m.slots[i].is_some() {
            m.poll(i, 0);
        }
    }
    if m.paused && choose(2) == 0 {
        m.turns();
        let mut dls: Vec<i64> = m.slots.iter().flatten().map(|s| s.dl).collect();
        dls.sort();
        for dl in dls {
            let left = dl - m.now();
            if left > 1 {
                advance(us_dur(left - 1));
                m.check_due("one microsecond before a deadline");
                advance(us_dur(1));
            } else {
                advance(Duration::ZERO);
            }
            m.check_due("at a deadline");
        }
    } else {
        if m.paused {
            tu::resume();
            m.paused = false;
            let before = m.now();
            ensure!(before == m.now(), "the clock moves while the host's stands still");
        }
        let from = m.now();
        // on schedule: each is woken within a few ms of its deadline
        let host0 = env::now();
        for i in 0..2 {
            if let Some(s) = &m.slots[i] {
                let t = host0 + (s.dl - from).max(0);
                if t > env::now() {
                    let quiet = t - 2;
                    if quiet > env::now() {
                        env::run_until(quiet);
                        m.check("after resuming");
                    }
                }
                env::run_until(t.max(env::now()) + late(&h));
                let s = m.slots[i].as_ref().unwrap();
                ensure!(s.s.is_elapsed(), "after resuming: sleep {i} with deadline {} is not complete at {}", s.dl, m.now());
                if let Some((w, n)) = s.pending {
                    ensure!(waker::woken(w) > n, "after resuming: sleep {i} with deadline {} did not wake its task by {}", s.dl, m.now());
                }
            }
        }
    }
    let mut h = m.hash(83);
    h.add(max as u64).add(env::n_fired() as u64).outcome();
}

// ---------------------------------------------------------------- C16: crowds
/// Many sleeps on the paused clock; advances of several sizes and manners.
fn crowd() {
    use crate::crowd::{rank, size, PATTERNS};
    let n = size();
    let p = choose(PATTERNS);
    let gap = pick(&[1i64, 700, 90_000, 86_400_000_000]);
    let h = Host { start: 1_234_500, ..NODE };
    let base = Base::new(&h);
    let mut m = Mock { base, slots: Vec::new(), paused: false };
    warm(choose(2) == 1);
    // created while the clock ran, half before and half after the pause, or all after
    let split = pick(&[n, n / 2, 0]);
    let first = 5_000;
    let t0 = m.now();
    for i in 0..n {
        if i == split {
            m.turns();
            tu::pause();
            m.paused = true;
        }
        let d = t0 + first + gap * rank(p, i, n) as i64 - m.now();
        let d = d.max(0);
        m.slots.push(Some(MS { s: Box::pin(if i & 1 == 0 { sleep(us_dur(d)) } else { sleep_until(Instant::now() + us_dur(d)) }), dl: m.now() + d, pending: None }));
        m.poll(i, 0);
    }
    if !m.paused {
        m.turns();
        tu::pause();
    }
    m.paused = true;
    m.check("after pausing");
    env::step();
    let what = choose(5);
    for i in 0..n {
        match what {
            1 if i % 3 == 1 => m.slots[i] = None,
            2 if i % 3 == 1 => {
                let dl = m.now() + 3_000 + gap * (i as i64 % 7);
                let s = m.slots[i].as_mut().unwrap();
                s.s.as_mut().reset(base.at(dl));
                s.dl = base.us(s.s.deadline());
                s.pending = None;
                m.poll(i, 1);
            }
            3 if i + 1 != n => m.slots[i] = None,
            4 => {
                let dl = t0 + first + gap * n as i64;
                let s = m.slots[i].as_mut().unwrap();
                s.s.as_mut().reset(base.at(dl));
                s.dl = base.us(s.s.deadline());
                s.pending = None;
                m.poll(i, 1);
            }
            _ => {}
        }
    }
    m.check("after the changes");
    env::step();
    let mut dls: Vec<i64> = m.slots.iter().flatten().map(|s| s.dl).collect();
    dls.sort();
    let to = |t: i64, m: &Mock| {
        let left = t - m.now();
        if left > 0 {
            advance(us_dur(left));
        }
    };
    let how = choose(6);
    match how {
        // all at once
        0 => to(*dls.last().unwrap(), &m),
        1 => to(*dls.last().unwrap() + 60 * 86_400_000_000, &m),
        // in halves
        2 => {
            to(dls[dls.len() / 2] - 1, &m);
            m.check_due("just before the middle deadline");
            to(dls[dls.len() / 2], &m);
            m.check_due("at the middle deadline");
        }
        // deadline by deadline
        3 => {
            for (k, d) in dls.iter().enumerate() {
                if k % (1 + n / 40) == 0 {
                    to(*d - 1, &m);
                    m.check_due("just before a deadline");
                    to(*d, &m);
                    m.check_due("at a deadline");
                }
            }
        }
        // the event loop turns in between, which moves nothing
        4 => {
            env::run_until(env::now() + 30_000);
            m.check_due("after event-loop turns on a paused clock");
            to(dls[dls.len() / 3], &m);
            m.check_due("at a deadline");
            env::run_until(env::now() + 30_000);
            m.check_due("after event-loop turns on a paused clock");
        }
        // resumed in the middle
        _ => {
            to(dls[dls.len() / 3], &m);
            m.check_due("at a deadline");
            tu::resume();
            m.paused = false;
            let last = *dls.last().unwrap();
            let left = (last - m.now()).max(0).min(8_000_000_000);
            let end = env::now() + left;
            let mid = m.now() + left / 2;
            env::run_until(env::now() + left / 2);
            m.check("after resuming");
            for (i, s) in m.slots.iter().enumerate() {
                if let Some(s) = s {
                    ensure!(s.s.is_elapsed() || s.dl + late(&h) > mid, "resumed: sleep {i} with deadline {} is not complete at {}", s.dl, m.now());
                }
            }
            env::run_until(end.max(env::now()) + late(&h));
            if m.now() < last {
                tu::pause();
                m.turns();
                m.paused = true;
            }
        }
    }
    if m.paused {
        to(*dls.last().unwrap(), &m);
    }
    m.check_due("at the last deadline");
    let mut hs = m.hash(91);
    hs.add(n as u64).add(how as u64).add(what as u64).state();
    hs.outcome();
}

// ---------------------------------------------------------------- C15: cycles and amounts
/// Very many rounds of running, pausing, advancing and resuming, and advances of every
/// order of magnitude: nothing is lost or gained over time.
fn clock_cycles() {
    let n = env::bound() * 100;
    env::host(pick(&[1_234_500i64, 0, 86_400_000_125]), 1_000, 0, 0);
    warm(choose(2) == 1);
    let keep: Vec<Pin<Box<Sleep>>> = (0..choose(2)).map(|_| Box::pin(sleep(Duration::from_secs(30)))).collect();
    let run = pick(&[0i64, 125, 16_625, 7_777_777_750]);
    let freeze = pick(&[0i64, 1_000, 3_600_000_125]);
    let step = pick(&[Duration::ZERO, Duration::from_nanos(1), Duration::from_nanos(999_999_937), Duration::new(86_400 * 31, 1)]);
    let (parts, every) = (pick(&[0usize, 1, 3]), pick(&[1usize, 7]));
    let t0 = Instant::now();
    let mut want = 0u128;
    for k in 0..n {
        env::step();
        env::pass(run);
        want += run as u128 * 1_000;
        if k % every == 0 {
            tu::pause();
            ensure!(ns(t0.elapsed()) == want, "round {k}: paused, the clock reads {} ns instead of {want}", ns(t0.elapsed()));
            env::pass(freeze);
            for _ in 0..parts {
                advance(step);
                want += ns(step);
            }
            ensure!(ns(t0.elapsed()) == want, "round {k}: advanced, the clock reads {} ns instead of {want}", ns(t0.elapsed()));
            env::run_due_with(3, &mut || {});
            ensure!(ns(t0.elapsed()) == want, "round {k}: the clock moved while paused: {} ns instead of {want}", ns(t0.elapsed()));
            tu::resume();
        } else {
            env::run_due_with(3, &mut || {});
        }
        ensure!(ns(t0.elapsed()) == want, "round {k}: the clock reads {} ns instead of {want}", ns(t0.elapsed()));
        let mut h = Hasher::new(94);
        h.add(want as u64).add((want >> 64) as u64).add(env::pending() as u64).state();
    }
    drop(keep);
    let mut h = Hasher::new(95);
    h.add(want as u64).add((want >> 64) as u64).outcome();
}
fn clock_amounts() {
    let n = env::bound();
    env::host(pick(&[1_234_500i64, 0]), 1_000, 0, 0);
    warm(choose(2) == 1);
    const A: [Duration; 18] = [
        Duration::ZERO,
        Duration::from_nanos(1),
        Duration::from_nanos(999),
        Duration::from_nanos(1_000),
        Duration::from_nanos(999_999),
        Duration::from_nanos(1_000_001),
        Duration::from_nanos(999_999_999),
        Duration::from_secs(1),
        Duration::new(59, 999_999_999),
        Duration::from_secs(3_600),
        Duration::from_millis(i32::MAX as u64),
        Duration::from_millis(u32::MAX as u64),
        Duration::from_millis(u32::MAX as u64 + 1),
        Duration::from_micros(1 << 53),
        Duration::from_nanos((1 << 53) + 1),
        Duration::from_nanos(u64::MAX),
        Duration::from_millis(1 << 53),
        Duration::new(u64::MAX / 64, 999_999_999),
    ];
    let t0 = Instant::now();
    let mut want = 0u128;
    let mut paused = false;
    for k in 0..n {
        env::step();
        if k > 0 && paused && choose(2) == 1 {
            tu::resume();
            paused = false;
            env::pass(1_000);
            want += 1_000_000;
        }
        if !paused {
            tu::pause();
            paused = true;
        }
        let d = A[choose(A.len())];
        advance(d);
        want += ns(d);
        env::pass(250);
        ensure!(ns(t0.elapsed()) == want, "advanced by {d:?}: the clock reads {} ns instead of {want}", ns(t0.elapsed()));
        ensure!(ns(Instant::now() - t0) == want, "advanced by {d:?}: the clock reads {} ns instead of {want}", ns(Instant::now() - t0));
    }
    tu::resume();
    ensure!(ns(t0.elapsed()) == want, "resumed: the clock reads {} ns instead of {want}", ns(t0.elapsed()));
    env::pass(500);
    want += 500_000;
    ensure!(ns(t0.elapsed()) == want, "running: the clock reads {} ns instead of {want}", ns(t0.elapsed()));
    let mut h = Hasher::new(96);
    h.add(want as u64).add((want >> 64) as u64);
    h.state();
    h.outcome();
}

// ---------------------------------------------------------------- C16: the scales
/// One timer of any kind.
enum Any {
    Sleep(Pin<Box<Sleep>>),
    Timeout(Pin<Box<Timeout<std::future::Pending<()>>>>),
    Interval(Box<Interval>),
    Queue(Box<DelayQueue<u32>>),
}
impl Any {
    fn poll(&mut self, w: usize) -> bool {
        let wk = waker::get(w);
        let mut cx = Context::from_waker(&wk);
        match self {
            Any::Sleep(s) => s.as_mut().poll(&mut cx).is_ready(),
            Any::Timeout(t) => t.as_mut().poll(&mut cx).is_ready(),
            Any::Interval(i) => i.poll_tick(&mut cx).is_ready(),
            Any::Queue(q) => q.poll_expired(&mut cx).is_ready(),
        }
    }
}
const NS: [u128; 13] = [
    1,
    999,
    1_000_001,
    63_000_000,
    64_000_001,
    4_999_999_999,
    5_000_000_001,
    3_600_000_000_000,
    2_073_600_000_000_000,
    2_147_483_648_000_000,
    4_294_967_296_000_001,
    5_184_000_000_000_000,
    34_560_000_000_000_000,
];
fn dns(n: u128) -> Duration {
    Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32)
}
/// Timers of every kind and magnitude, reached by advances of several manners; exact to
/// the nanosecond (delay queues: to the millisecond).
fn scales() {
    let b = env::bound();
    let h = Host { start: 1_234_500, ..NODE };
    let _base = Base::new(&h);
    warm(choose(2) == 1);
    let t0 = Instant::now();
    let now = || ns(Instant::now() - t0);
    let before = choose(2) == 1;
    if !before {
        tu::pause();
    }
    let kind = choose(6);
    let d = NS[choose(NS.len())];
    env::step();
    let born = now();
    let mut due = born + d;
    let at = Instant::now() + dns(d);
    let mut x = match kind {
        0 => Any::Sleep(Box::pin(sleep(dns(d)))),
        1 => Any::Sleep(Box::pin(sleep_until(at))),
        2 => Any::Timeout(Box::pin(timeout(dns(d), std::future::pending()))),
        3 => Any::Timeout(Box::pin(timeout_at(at, std::future::pending()))),
        4 => Any::Interval(Box::new(interval_at(at, dns(d)))),
        _ => {
            let mut q = Box::new(DelayQueue::new());
            q.insert(1, dns(d));
            due = now() + (d + 999_999) / 1_000_000 * 1_000_000;
            Any::Queue(q)
        }
    };
    let mut w = 0;
    let mut n = waker::woken(0);
    ensure!(!x.poll(0), "ready at once");
    // another timer beside
    let beside = match choose(4) {
        0 => None,
        k => Some((Box::pin(sleep(dns([0, d / 2, d * 2, 7_000_000][k]))), now() + [0, d / 2, d * 2, 7_000_000][k])),
    };
    if before {
        // the driver takes the timers up, then the clock is paused
        env::run_until(env::now() + 1_000);
        if now() >= due {
            return;
        }
        tu::pause();
    }
    // advances, one after another, to these moments
    let mut rounds = 0;
    loop {
        let left = due - now();
        let mut to: Vec<u128> = match choose(if rounds > 0 { 3 } else { 6 }) {
            0 => vec![left],
            1 if left > 1 => vec![left - 1, 1],
            2 => vec![left * 3 + 10_000_000_000],
            3 if left > 2 => vec![left / 2, left - left / 2 - 1, 1],
            4 => (0..40).map(|_| left / 40).collect(),
            5 if left > 20_000_000 => vec![left - 15_000_000, 14_999_999, 1],
            _ => return,
        };
        to.push(0);
        let mut over = false;
        for a in to {
            env::step();
            let gone = now();
            if let (Some(l), true) = (due.checked_sub(gone), a == 0) {
                // the rest
                advance(dns(l));
            } else {
                advance(dns(a));
            }
            log!("advanced to {} ns, due {due}", now());
            if let Some((s, bd)) = &beside {
                ensure!(s.is_elapsed() == (now() >= *bd), "advanced to {} ns: the timer beside, due {bd}, is {}complete", now(), if s.is_elapsed() { "" } else { "not " });
            }
            let woken = waker::woken(w) > n;
            if now() >= due {
                ensure!(woken, "advanced to {} ns: the task of the timer due {due} was not woken", now());
                over = true;
            } else if kind != 5 {
                ensure!(!woken, "advanced to {} ns: the task of the timer due {due} was woken", now());
            }
            if woken {
                w = (w + 1) % 100;
                n = waker::woken(w);
                let r = x.poll(w);
                ensure!(r == (now() >= due), "advanced to {} ns: the timer due {due} is {}ready", now(), if r { "" } else { "not " });
            }
            if over {
                break;
            }
        }
        rounds += 1;
        let mut hs = Hasher::new(97);
        hs.add(kind as u64).add(d as u64).add((now() - due) as u64).add(rounds as u64).state();
        if rounds > b {
            break;
        }
        // and again
        env::step();
        match &mut x {
            Any::Sleep(s) => {
                let d = NS[choose(NS.len())];
                due = now() + d;
                s.as_mut().reset(Instant::now() + dns(d));
            }
            Any::Interval(i) => {
                due += d;
                if now() >= due || choose(2) == 1 {
                    i.reset();
                    due = now() + d;
                }
            }
            Any::Queue(q) => {
                let d = NS[choose(NS.len())];
                // the supported horizon counts from the last item that expired
                if now() + d - due > ((1 << 36) - 65) * 1_000_000 {
                    return;
                }
                due = now() + d;
                q.insert(1, dns(d));
                // rounded up to a whole millisecond since the queue's creation
                due = born + (due - born + 999_999) / 1_000_000 * 1_000_000;
            }
            _ => break,
        }
        w = (w + 1) % 100;
        n = waker::woken(w);
        ensure!(!x.poll(w), "ready at once");
    }
    // after resuming, what is left goes on by the host's clock
    if beside.is_some() && choose(2) == 1 {
        tu::resume();
        let (s, bd) = beside.as_ref().unwrap();
        if now() < *bd && *bd - now() < 100 * 86_400_000_000_000 {
            let left = ((*bd - now()) / 1_000) as i64;
            env::run_until(env::now() + left);
            ensure!(!s.is_elapsed() || now() >= *bd, "after resuming: complete at {}, before its deadline {bd}", now());
            env::run_until(env::now() + late(&h));
            ensure!(s.is_elapsed(), "after resuming: not complete at {}, due {bd}", now());
        }
    }
    let mut hs = Hasher::new(98);
    hs.add(kind as u64).add(d as u64).add(now() as u64).outcome();
}

/// One operation repeated very often while the clock is paused (or around pauses); then
/// a sleep, an interval and a queue item still complete at exactly their deadlines.
fn repeat() {
    let h = Host { start: 1_234_500, ..NODE };
    let _base = Base::new(&h);
    warm(choose(2) == 1);
    let n = crate::repeat::count();
    let t0 = Instant::now();
    let now = || ns(Instant::now() - t0);
    let what = choose(8);
    let turn = choose(2) == 1;
    tu::pause();
    let d = 7_200_000_000_000u128;
    let mut s = Box::pin(sleep(dns(d)));
    let mut i = Box::new(interval_at(Instant::now() + dns(d), dns(1_500_001)));
    let mut q = Box::new(DelayQueue::new());
    q.insert(1u32, dns(d));
    let due = now() + d;
    let mut x = [0usize; 3];
    let mut c = [0u32; 3];
    let mut all = |x: [usize; 3]| -> [bool; 3] {
        let r0 = poll(s.as_mut(), x[0]).is_ready();
        let wk = waker::get(x[1]);
        let r1 = i.poll_tick(&mut Context::from_waker(&wk)).is_ready();
        drop(wk);
        let wk = waker::get(x[2]);
        let r2 = q.poll_expired(&mut Context::from_waker(&wk)).is_ready();
        drop(wk);
        [r0, r1, r2]
    };
    for k in 0..3 {
        x[k] = k;
        c[k] = waker::woken(k);
    }
    ensure!(all(x) == [false; 3], "ready at once");
    env::step();
    let mut other: Option<Pin<Box<Sleep>>> = None;
    for k in 0..n {
        match what {
            0 => advance(Duration::ZERO),
            1 => advance(Duration::from_nanos(1)),
            2 => advance(Duration::from_micros(1_500)),
            3 => {
                tu::resume();
                tu::pause();
            }
            4 => {
                let mut o = Box::pin(sleep(dns(1_000_000)));
                let _ = poll(o.as_mut(), 3_000);
            }
            5 => {
                // completes by an advance
                let mut o = Box::pin(sleep(dns(2_000)));
                let w = 3_000 + k % 1_000;
                let n = waker::woken(w);
                ensure!(poll(o.as_mut(), w).is_pending(), "ready at once");
                advance(dns(1_999));
                ensure!(!o.is_elapsed() && waker::woken(w) == n, "round {k}: complete a nanosecond before its deadline");
                advance(dns(1));
                ensure!(o.is_elapsed() && waker::woken(w) > n, "round {k}: not complete by an advance to its deadline");
            }
            6 => {
                let o = other.get_or_insert_with(|| Box::pin(sleep(dns(1_000_000))));
                o.as_mut().reset(Instant::now() + dns(1_000_000 + k as u128));
                let _ = poll(o.as_mut(), 3_000);
            }
            _ => {
                for j in 0..3 {
                    x[j] = 10 + 3 * (k % 900) + j;
                    c[j] = waker::woken(x[j]);
                }
                ensure!(all(x) == [false; 3], "round {k}: ready at {} ns, due {due}", now());
            }
        }
        if turn && k % 8 == 7 {
            env::run_due_with(1, &mut || {});
        }
    }
    env::step();
    for k in 0..3 {
        ensure!(waker::woken(x[k]) == c[k], "after {n} operations (kind {what}): timer {k} woke its task at {} ns, due {due}", now());
    }
    advance(dns(due - now() - 1));
    for k in 0..2 {
        ensure!(waker::woken(x[k]) == c[k], "after {n} operations (kind {what}): timer {k} woke its task a nanosecond before its deadline");
    }
    // far items of a queue are approached in steps
    let mut r = [false; 3];
    if waker::woken(x[2]) > c[2] {
        r = all(x);
        ensure!(r == [false; 3], "after {n} operations (kind {what}): ready a nanosecond before the deadline: {r:?}");
        for k in 0..3 {
            c[k] = waker::woken(x[k]);
        }
    }
    let _ = r;
    advance(dns(1));
    for k in 0..3 {
        ensure!(waker::woken(x[k]) > c[k], "after {n} operations (kind {what}): timer {k} did not wake its task by an advance to its deadline");
    }
    let r = all(x);
    ensure!(r == [true; 3], "after {n} operations (kind {what}): not all complete at the deadline: {r:?}");
    let mut hs = Hasher::new(99);
    hs.add(n as u64).add(what as u64).add(now() as u64).add(env::n_fired() as u64);
    hs.state();
    hs.outcome();
}

// ---------------------------------------------------------------- C16: the rest
/// Where a history of advances begins: a paused clock, with the runtime cold or warm.
fn paused() -> Base {
    let h = Host { start: 1_234_500, ..NODE };
    let base = Base::new(&h);
    match choose(3) {
        0 => tu::pause(),
        1 => {
            warm(true);
            tu::pause();
        }
        _ => {
            // paused before the first use, with a host turn after
            tu::pause();
            let s = sleep(us_dur(1_000));
            env::run_until(env::now() + 10_000);
            ensure!(!s.is_elapsed(), "a sleep completed although the clock is paused");
            advance(us_dur(1_000));
            ensure!(s.is_elapsed(), "a sleep did not complete by an advance to its deadline");
        }
    }
    base
}
fn intervals() {
    let depth = env::bound();
    let base = paused();
    let now = || base.us(Instant::now());
    let p = pick(&[4_000i64, 10_000]);
    let s0 = pick(&[0i64, 2_600, -23_000]);
    let start = if s0 < 0 { Instant::now() - us_dur(-s0) } else { Instant::now() + us_dur(s0) };
    let mut due = now() + s0;
    let beh = choose(3);
    let mut iv: Interval = interval_at(start, us_dur(p));
    iv.set_missed_tick_behavior([MissedTickBehavior::Burst, MissedTickBehavior::Delay, MissedTickBehavior::Skip][beh]);
    let mut pending: Option<(usize, u32)> = None;
    let mut polls = 0;
    let mut hs = Hasher::new(84);
    for _ in 0..depth {
        env::step();
        match choose(8) {
            0 => {
                polls += 1;
                let w = polls % 2;
                let n = waker::woken(w);
                let wk = waker::get(w);
                let r = iv.poll_tick(&mut Context::from_waker(&wk));
                drop(wk);
                let t = now();
                log!("poll at {}: {}, due {}", t, r.is_ready(), due);
                match r {
                    Poll::Ready(at) => {
                        ensure!(t + 1 >= due, "tick delivered at {t}, due {due}");
                        ensure!((base.us(at) - due).abs() <= 1, "tick reports {}, was due {due}", base.us(at));
                        pending = None;
                        due = if t > due + 5_000 {
                            match beh {
                                0 => due + p,
                                1 => t + p,
                                _ => due + ((t - due) / p + 1) * p,
                            }
                        } else {
                            due + p
                        };
                        hs.add((t - base.us) as u64);
                    }
                    Poll::Pending => {
                        ensure!(t < due, "no tick at {t}, due {due}");
                        pending = Some((w, n));
                    }
                }
            }
            k @ 1..=6 => {
                let d = [p, p / 2, 1, p + 5_000, p + 5_001, 3 * p + 6_300][k - 1];
                let c = pending;
                advance(us_dur(d));
                log!("advance by {} to {}", d, now());
                if let Some((w, n)) = c {
                    let woken = waker::woken(w) > n;
                    ensure!(woken == (now() >= due), "advanced to {}: tick due {due}, task {}woken", now(), if woken { "" } else { "not " });
                }
            }
            _ => {
                iv.reset();
                due = now() + p;
                pending = None;
                log!("reset: due {}", due);
            }
        }
        let mut h = Hasher::new(85);
        h.add((due - now()) as u64).add(beh as u64).add(pending.is_some() as u64).state();
    }
    hs.outcome();
}
struct When(Rc<Cell<bool>>);
impl Future for When {
    type Output = u8;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u8> {
        if self.0.get() {
            Poll::Ready(7)
        } else {
            Poll::Pending
        }
    }
}
fn timeouts() {
    let depth = env::bound();
    let base = paused();
    let now = || base.us(Instant::now());
    let flag = Rc::new(Cell::new(false));
    let d = pick(&[0i64, 1, 4_000, 2_500_000_000_000]);
    let mut dl = now() + d;
    let kind = choose(3);
    let mut t: Pin<Box<Timeout<When>>> = Box::pin(match kind {
        0 => timeout(us_dur(d), When(flag.clone())),
        1 => timeout_at(Instant::now() + us_dur(d), When(flag.clone())),
        _ => {
            dl = now() - 3_000;
            timeout_at(Instant::now() - us_dur(3_000), When(flag.clone()))
        }
    });
    // a timeout over a sleep: the nested timer moves with the same clock
    let mut nested = Box::pin(timeout(us_dur(d.min(1_000_000) + 2_000), sleep(us_dur(d.min(1_000_000) + 1_000))));
    let ndl = now() + d.min(1_000_000) + 1_000;
    let mut ndone = false;
    let mut pending: Option<(usize, u32)> = None;
    let mut hs = Hasher::new(86);
    for _ in 0..depth {
        env::step();
        match choose(7) {
            0 | 1 if pending.is_some() && now() < dl && !flag.get() => {}
            k @ 0..=1 => {
                let n = waker::woken(k);
                let r = poll(t.as_mut(), k);
                log!("poll at {}: {:?}", now(), r.is_ready());
                match r {
                    Poll::Ready(Ok(v)) => {
                        ensure!(flag.get() && v == 7, "a value before the future was ready");
                        hs.add(1);
                        break;
                    }
                    Poll::Ready(Err(_)) => {
                        ensure!(!flag.get(), "elapsed although the future was ready");
                        ensure!(now() + 1 >= dl, "elapsed at {}, before the deadline {dl}", now());
                        hs.add(2);
                        break;
                    }
                    Poll::Pending => {
                        ensure!(!flag.get() && now() < dl, "pending at {}, deadline {dl}, future ready: {}", now(), flag.get());
                        pending = Some((k, n));
                    }
                }
            }
            2 => flag.set(true),
            k => {
                let a = [1_000i64, 3_999, 4_000, 2_500_000_000_000][k - 3];
                advance(us_dur(a));
                if let Some((w, n)) = pending {
                    let woken = waker::woken(w) > n;
                    ensure!(woken == (now() >= dl), "advanced to {}: deadline {dl}, task {}woken", now(), if woken { "" } else { "not " });
                }
                if !ndone {
                    let r = poll(nested.as_mut(), 9);
                    ensure!(r.is_ready() == (now() >= ndl), "a timeout over a sleep is {} at {}, the sleep's deadline is {ndl}", if r.is_ready() { "ready" } else { "pending" }, now());
                    if let Poll::Ready(x) = r {
                        ensure!(x.is_ok(), "the sleep had completed, but the timeout elapsed");
                        ndone = true;
                    }
                }
            }
        }
        let mut h = Hasher::new(87);
        h.add((dl - now()) as u64).add(pending.is_some() as u64).add(flag.get() as u64).add(kind as u64).state();
    }
    hs.add((now() - dl) as u64).outcome();
}
struct QI {
    id: u32,
    key: Key,
    /// ms after the queue's start
    when: i64,
}
fn queues() {
    let depth = env::bound();
    let base = paused();
    let now = || base.us(Instant::now());
    if choose(2) == 1 {
        advance(us_dur(700));
    }
    let mut q: Box<DelayQueue<u32>> = Box::new(DelayQueue::new());
    let start = now();
    let ceil = |t: i64| ((t - start).max(0) + 999) / 1000;
    let mut items: Vec<QI> = Vec::new();
    let mut next = 0;
    let mut polls = 0;
    let mut pending: Option<(usize, u32)> = None;
    let mut hs = Hasher::new(88);
    for _ in 0..depth {
        env::step();
        let mut ops: Vec<(u8, usize, i64)> = vec![(0, 0, 0)];
        if items.len() < 3 {
            ops.extend([(1, 0, 0), (1, 0, 2_600), (1, 0, 64_000)]);
        }
        for i in 0..items.len() {
            ops.extend([(2, i, 1_000), (2, i, 70_500), (3, i, 0)]);
        }
        ops.extend([(4, 0, 1_000), (4, 0, 999), (4, 0, 3_600), (4, 0, 80_000)]);
        let (k, i, d) = ops[choose(ops.len())];
        log!("{} {} {} us at {} (ms {})", ["poll", "insert", "reset", "remove", "advance"][k as usize], i, d, now(), (now() - start) / 1000);
        // a deadline already reached is normalized to some moment since
        match k {
            0 => {
                polls += 1;
                let w = polls % 2;
                let n = waker::woken(w);
                let wk = waker::get(w);
                let r = q.poll_expired(&mut Context::from_waker(&wk));
                drop(wk);
                let earliest = items.iter().map(|i| i.when).min();
                match r {
                    Poll::Pending => {
                        ensure!(earliest.is_some(), "poll of an empty queue is pending");
                        ensure!(now() < start + earliest.unwrap() * 1000, "pending at {}, an item was due {} ms after {start}", now(), earliest.unwrap());
                        pending = Some((w, n));
                    }
                    Poll::Ready(None) => {
                        ensure!(items.is_empty(), "end of stream with {} items", items.len());
                        pending = None;
                    }
                    Poll::Ready(Some(e)) => {
                        let at = items.iter().position(|x| x.id == *e.get_ref());
                        let at = match at {
                            Some(a) => a,
                            None => fail!("item {} yielded, but not in the queue", e.get_ref()),
                        };
                        let it = items.remove(at);
                        ensure!(e.key() == it.key, "item {} yielded with another key", it.id);
                        ensure!(now() + 1 >= start + it.when * 1000, "item {} yielded at {}, due {} ms after {start}", it.id, now(), it.when);
                        ensure!(it.when == earliest.unwrap(), "item {} yielded before an earlier one", it.id);
                        ensure!((base.us(e.deadline()) - start - it.when * 1000).abs() <= 1, "item {} reports deadline {}", it.id, base.us(e.deadline()));
                        pending = None;
                        hs.add(it.id as u64).add((now() - start) as u64);
                    }
                }
            }
            1 => {
                let key = q.insert(next, us_dur(d));
                items.push(QI { id: next, key, when: ceil(now() + d) });
                next += 1;
            }
            2 => {
                q.reset(&items[i].key, us_dur(d));
                items[i].when = ceil(now() + d);
            }
            3 => {
                let it = items.remove(i);
                let e = q.remove(&it.key);
                ensure!(*e.get_ref() == it.id, "removing item {} gave {}", it.id, e.get_ref());
            }
            _ => {
                advance(us_dur(d));
                if let (Some((w, n)), Some(e)) = (pending, items.iter().map(|i| i.when).min()) {
                    if now() >= start + e * 1000 {
                        ensure!(waker::woken(w) > n, "advanced to {}: an item was due {e} ms after {start}, the task was not woken", now());
                    }
                }
            }
        }
        ensure!(q.len() == items.len(), "len() is {} with {} items", q.len(), items.len());
        let mut h = Hasher::new(89);
        h.add(pending.is_some() as u64).add(((now() - start) % 64_000) as u64);
        for i in &items {
            h.add((start + i.when * 1000 - now()) as u64);
        }
        h.state();
    }
    // all the rest, millisecond by millisecond of their deadlines; resumed, the host does it
    if choose(2) == 0 {
        while let Some(e) = items.iter().map(|i| i.when).min() {
            let left = start + e * 1000 - now();
            if left > 0 {
                advance(us_dur(left));
            }
            let wk = waker::get(9);
            match q.poll_expired(&mut Context::from_waker(&wk)) {
                Poll::Ready(Some(x)) => {
                    let at = items.iter().position(|y| y.id == *x.get_ref());
                    ensure!(at.map(|a| items[a].when == e).unwrap_or(false), "item {} yielded out of order", x.get_ref());
                    items.remove(at.unwrap());
                }
                _ => fail!("no item at {}, one was due {e} ms after {start}", now()),
            }
        }
    } else if !items.is_empty() {
        tu::resume();
        let wk = waker::get(9);
        while let Some(e) = items.iter().map(|i| i.when).min() {
            let n = waker::woken(9);
            match q.poll_expired(&mut Context::from_waker(&wk)) {
                Poll::Ready(Some(x)) => {
                    ensure!(now() + 1 >= start + e * 1000, "an item yielded at {}, due {e} ms after {start}", now());
                    items.retain(|y| y.id != *x.get_ref());
                }
                Poll::Ready(None) => fail!("end of stream with {} items", items.len()),
                Poll::Pending => {
                    let limit = (start + e * 1000 - now()).max(0) + env::now() + 10_000;
                    while waker::woken(9) == n {
                        ensure!(env::now() < limit, "resumed: an item due {e} ms after {start} was not delivered by {}", now());
                        match env::next_due() {
                            Some(d) if d <= limit => {
                                env::pass(d - env::now());
                                env::fire();
                            }
                            _ => env::pass(limit - env::now()),
                        }
                    }
                }
            }
        }
        drop(wk);
    }
    hs.outcome();
}

// ---------------------------------------------------------------- C05
static mut SLEEPS: Vec<(Pin<Box<Sleep>>, i64)> = Vec::new();
static mut LEFT: usize = 0;
static mut BASE: Option<Base> = None;
#[allow(static_mut_refs)]
fn hook(w: usize) {
    unsafe {
        if w >= 8 {
            return;
        }
        while LEFT > 0 {
            LEFT -= 1;
            let now = BASE.unwrap().us(Instant::now());
            let n = SLEEPS.len();
            env::step();
            let k = choose(5 + 3 * (n > 0) as usize);
            log!("    inside waker {}: op {} at {}", w, k, now);
            match k {
                0 => return,
                1 => SLEEPS.push((Box::pin(sleep(Duration::ZERO)), now)),
                2 => SLEEPS.push((Box::pin(sleep(us_dur(3_000))), now + 3_000)),
                3 => drop(sleep(us_dur(1_000))),
                4 => drop(Box::pin(timeout(us_dur(1_000), sleep(us_dur(2_000))))),
                5 => {
                    let at = Instant::now() + us_dur(2_000);
                    let s = &mut SLEEPS[n - 1];
                    s.0.as_mut().reset(at);
                    s.1 = now + 2_000;
                }
                6 => {
                    let _ = poll(SLEEPS[n - 1].0.as_mut(), 20);
                }
                _ => {
                    drop(SLEEPS.swap_remove(0));
                }
            }
        }
    }
}
/// Timer operations inside wakers while the clock is paused and advanced.
#[allow(static_mut_refs)]
fn reentrant() {
    let n = env::bound();
    let h = Host { start: 1_234_500, ..NODE };
    let base = Base::new(&h);
    warm(choose(2) == 1);
    if choose(2) == 1 {
        // created while the clock ran
        unsafe { SLEEPS.push((Box::pin(sleep(us_dur(2_000))), env::now() + 2_000)) };
        env::run_until(env::now() + 1_000);
    }
    tu::pause();
    let now = base.us(Instant::now());
    unsafe {
        SLEEPS.push((Box::pin(sleep(us_dur(4_000))), now + 4_000));
        SLEEPS.push((Box::pin(sleep(us_dur(4_200))), now + 4_200));
        for (i, s) in SLEEPS.iter_mut().enumerate() {
            let _ = poll(s.0.as_mut(), i);
        }
        LEFT = n;
        BASE = Some(base);
    }
    waker::set_hook(Some(hook));
    advance(us_dur(pick(&[4_000i64, 10_000])));
    let check = |what: &str, all: bool| unsafe {
        let now = base.us(Instant::now());
        for s in SLEEPS.iter() {
            ensure!(!s.0.is_elapsed() || now >= s.1, "{what}: a sleep is complete at {now}, before its deadline {}", s.1);
            ensure!(!all || now < s.1 || s.0.is_elapsed(), "{what}: a sleep with deadline {} is not complete at {now}", s.1);
        }
    };
    check("after an advance", false);
    // the event loop turns; inside these turns there may be more of it
    env::run_until(env::now() + 20_000);
    advance(us_dur(500));
    env::run_until(env::now() + 20_000);
    check("after the event loop turned", true);
    waker::set_hook(None);
    advance(us_dur(2_000));
    check("after another advance", true);
    if choose(2) == 1 {
        tu::resume();
        env::run_until(env::now() + 30_000);
    } else {
        advance(us_dur(30_000));
    }
    check("in the end", true);
    unsafe {
        let mut h = Hasher::new(90);
        h.add(SLEEPS.len() as u64).add(env::n_fired() as u64).add(LEFT as u64).state();
        h.outcome();
        SLEEPS.clear();
    }
}

pub const SUITES: &[Suite] = &[
    Suite {
        prop: "C15", name: "history",
        what: "all histories of pause, resume, advances, host time and event-loop turns, 3 host starts, with and without timers; every reading against a model in ns; misuse is refused",
        unit: "operations", variants: TEST, min: 1, quick: 6, deep: 7, run: clock_history,
    },
    Suite {
        prop: "C15", name: "cycles",
        what: "100 n rounds of running, pausing, advancing, host time and resuming, for all combinations of 4 x 3 x 4 amounts, with and without timers",
        unit: "x 100 rounds", variants: TEST, min: 3, quick: 3, deep: 30, run: clock_cycles,
    },
    Suite {
        prop: "C15", name: "amounts",
        what: "all sequences of n advances by 18 amounts from a nanosecond to 9 thousand million years, resumed and paused between or not",
        unit: "advances", variants: TEST, min: 1, quick: 4, deep: 5, run: clock_amounts,
    },
    Suite {
        prop: "C16", name: "scales",
        what: "sleeps, timeouts, intervals and queue items of 13 magnitudes (1 ns to 400 days), reached by 6 manners of advancing, n times, beside another; exact to the ns",
        unit: "further rounds", variants: TEST, min: 0, quick: 2, deep: 3, run: scales,
    },
    Suite {
        prop: "C16", name: "repeat",
        what: "one of 8 operations (advances, pauses, other sleeps, resets, polls) repeated up to 2^n+1 times while paused; then a sleep, an interval and a queue item complete at exactly their deadline",
        unit: "log2 repetitions", variants: TEST, min: 12, quick: 12, deep: 14, run: repeat,
    },
    Suite {
        prop: "C16", name: "sleeps",
        what: "all histories of advances, sleeps created, reset, dropped, polled, host turns and lag, pauses and resumes, 2 sleeps, one perhaps older than the pause; then to the end by advances or resumed",
        unit: "operations", variants: TEST, min: 1, quick: 4, deep: 5, run: sleeps,
    },
    Suite {
        prop: "C16", name: "crowd",
        what: "crowds of 3 to 2049 sleeps created before, around or after the pause: 7 patterns of deadlines, 4 spacings, 5 changes, 6 manners of advancing and resuming",
        unit: "size classes", variants: TEST, min: 7, quick: 7, deep: 10, run: crowd,
    },
    Suite {
        prop: "C16", name: "intervals",
        what: "all histories of polls, advances around the period and the tolerance, and resets, 3 policies, 2 periods, 3 starts",
        unit: "operations", variants: TEST, min: 1, quick: 5, deep: 6, run: intervals,
    },
    Suite {
        prop: "C16", name: "timeouts",
        what: "all histories of polls, advances and completions around a timeout and a nested one, 4 durations",
        unit: "operations", variants: TEST, min: 1, quick: 6, deep: 7, run: timeouts,
    },
    Suite {
        prop: "C16", name: "queues",
        what: "all histories of polls, inserts, resets, removals and advances on a queue of up to 3 items; then to the end by advances or resumed",
        unit: "operations", variants: TEST, min: 1, quick: 5, deep: 6, run: queues,
    },
    Suite {
        prop: "C05", name: "reentrant paused",
        what: "timer operations performed inside wakers that an advance of the paused clock runs, all combinations",
        unit: "re-entrant operations", variants: TEST, min: 1, quick: 4, deep: 6, run: reentrant,
    },
];
