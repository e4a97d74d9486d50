//! Sleeps, timeouts, intervals and delay queues side by side, with re-entrant user code
//! in every wake and in every drop of a task's last waker (which may own the task).
use crate::env::{self, choose, pick, Hasher};
use crate::waker;
use crate::world::*;
use crate::{ensure, log, Suite, BOTH};
use std::future::{Future, Pending};
use std::pin::Pin;
use std::task::{Context, Poll};
use wasmtimer::std::Instant;
use wasmtimer::tokio::{interval_at, sleep, timeout, Interval, Sleep, Timeout};
use wasmtimer::tokio_util::{delay_queue::Key, DelayQueue};

enum K {
    S(Pin<Box<Sleep>>),
    T(Pin<Box<Timeout<Pending<()>>>>),
    I(Box<Interval>),
    Q(Box<DelayQueue<u32>>),
}
struct Obj {
    k: K,
    /// host time of the (next) deadline
    dl: i64,
    /// the latest poll was pending: its waker and how often that had been woken
    pend: Option<(usize, u32)>,
    done: bool,
    items: Vec<(Key, u32, i64)>,
    at: Option<Instant>,
    wk: usize,
    resets: u32,
}
const NAME: [&str; 4] = ["sleep", "timeout", "interval", "queue"];
const PERIOD: i64 = 3_000;
const N: usize = 3;
struct Mix {
    h: Host,
    base: Base,
    o: [Option<Obj>; N],
    busy: [bool; N],
    wakers: usize,
    next: u32,
    silent: Vec<(usize, u32, usize)>,
    left: usize,
    inside: bool,
}
static mut MIX: *mut Mix = std::ptr::null_mut();
/// The code under test calls back into the model, so no reference outlives a call.
fn mix() -> &'static mut Mix {
    unsafe { &mut *MIX }
}
fn kind(i: usize) -> usize {
    match mix().o[i].as_ref().unwrap().k {
        K::S(_) => 0,
        K::T(_) => 1,
        K::I(_) => 2,
        K::Q(_) => 3,
    }
}
fn name(i: usize) -> &'static str {
    NAME[kind(i)]
}
#[derive(Clone, Copy, Debug)]
enum A {
    Nothing,
    Create(usize, usize, i64),
    Poll(usize),
    Drop(usize),
    Reset(usize, i64),
    Insert(usize, i64),
    Remove(usize),
    Change(usize, i64),
    Clear(usize),
    Turn,
    Lag,
}
fn actions(v: &mut Vec<A>, few: bool) {
    let m = mix();
    let mut free = true;
    for i in 0..N {
        if m.busy[i] {
            continue;
        }
        if m.o[i].is_none() {
            if free {
                for k in 0..4 {
                    v.push(A::Create(i, k, 5_000));
                }
                if !few {
                    v.push(A::Create(i, 0, 0));
                }
            }
            free = false;
            continue;
        }
        v.push(A::Poll(i));
        v.push(A::Drop(i));
        match kind(i) {
            0 => {
                v.push(A::Reset(i, 6_000));
                if !few {
                    v.push(A::Reset(i, 0));
                }
            }
            2 => v.push(A::Reset(i, PERIOD)),
            3 => {
                v.push(A::Insert(i, 1_000));
                if !m.o[i].as_ref().unwrap().items.is_empty() {
                    v.push(A::Remove(i));
                    v.push(A::Change(i, 2_500));
                    if !few {
                        v.push(A::Clear(i));
                    }
                }
            }
            _ => {}
        }
    }
}
/// The object's own start and the deadlines of its items, on the host's clock.
fn earliest(o: &Obj) -> i64 {
    o.items.iter().map(|x| x.2).min().unwrap_or(0)
}
fn create(i: usize, k: usize, d: i64) {
    let m = mix();
    let wk = m.wakers;
    m.wakers += 2;
    m.busy[i] = true;
    let now = Instant::now();
    let mut dl = m.base.us(now) + d;
    let mut items = Vec::new();
    let mut at = None;
    let k = match k {
        0 => {
            let s = sleep(us_dur(d));
            dl = m.base.us(s.deadline());
            K::S(Box::pin(s))
        }
        1 => K::T(Box::pin(timeout(us_dur(d), std::future::pending()))),
        2 => {
            at = Some(now + us_dur(d));
            K::I(Box::new(interval_at(now + us_dur(d), us_dur(PERIOD))))
        }
        _ => {
            let mut q = Box::new(DelayQueue::new());
            for (j, d) in [d, d + 4_600].into_iter().enumerate() {
                let x = m.next;
                m.next += 1;
                let at = Instant::now() + us_dur(d);
                let key = if j == 0 { q.insert_at(x, at) } else { q.insert(x, us_dur(d)) };
                items.push((key, x, m.base.us(at)));
            }
            dl = items[0].2;
            K::Q(q)
        }
    };
    let m = mix();
    m.o[i] = Some(Obj { k, dl, pend: None, done: false, items, at, wk, resets: 0 });
    m.busy[i] = false;
    poll(i, 0);
}
fn poll(i: usize, w: usize) {
    let m = mix();
    m.busy[i] = true;
    let o = m.o[i].as_mut().unwrap();
    let wk = o.wk + w;
    let before = waker::woken(wk);
    let was_done = o.done;
    let handle = waker::get(wk);
    let mut cx = Context::from_waker(&handle);
    let name = name(i);
    // 0: pending, 1: ready, 2: end of stream; and what came out
    let (r, inst, item) = match &mut o.k {
        K::S(s) => (s.as_mut().poll(&mut cx).is_ready() as u8, None, None),
        K::T(t) => match t.as_mut().poll(&mut cx) {
            Poll::Pending => (0, None, None),
            Poll::Ready(r) => {
                ensure!(r.is_err(), "timeout {i} yields a value its future never gave");
                (1, None, None)
            }
        },
        K::I(v) => match v.poll_tick(&mut cx) {
            Poll::Pending => (0, None, None),
            Poll::Ready(t) => (1, Some(t), None),
        },
        K::Q(q) => match q.poll_expired(&mut cx) {
            Poll::Pending => (0, None, None),
            Poll::Ready(None) => (2, None, None),
            Poll::Ready(Some(e)) => (1, None, Some((e.key(), *e.get_ref()))),
        },
    };
    log!("poll {} {} with waker {}: {} at {}", name, i, wk, ["pending", "ready", "end"][r as usize], env::now());
    let m = mix();
    let o = m.o[i].as_mut().unwrap();
    o.pend = (r == 0).then_some((wk, before));
    match r {
        0 => {
            ensure!(!was_done || kind(i) > 1, "{name} {i} was complete and polls pending without a reset");
            ensure!(kind(i) != 3 || !o.items.is_empty(), "queue {i} is empty and polls pending, not end of stream");
        }
        1 => match kind(i) {
            0 | 1 => {
                ensure!(env::clock() + EARLY >= o.dl, "{name} {i} polled ready at {}, before its deadline {}{}", env::now(), o.dl, if o.resets > 0 { " (reset)" } else { "" });
                o.done = true;
            }
            2 => {
                ensure!(env::clock() + EARLY >= o.dl, "interval {i} ticked at {}, before it was due at {}", env::now(), o.dl);
                if let Some(at) = o.at {
                    ensure!(inst.unwrap() == at, "interval {i} reports a tick at {}, due at {}", m.base.us(inst.unwrap()), o.dl);
                }
                // the default policy bursts
                o.at = Some(inst.unwrap() + us_dur(PERIOD));
                o.dl = m.base.us(o.at.unwrap());
            }
            _ => {
                let (key, x) = item.unwrap();
                let p = o.items.iter().position(|t| t.1 == x);
                ensure!(p.is_some(), "queue {i} yields item {x}, which is not present");
                let t = o.items.remove(p.unwrap());
                ensure!(t.0 == key, "queue {i} yields item {x} with another key");
                ensure!(env::clock() + EARLY >= t.2, "queue {i} yields item {x} at {}, before its deadline {}", env::now(), t.2);
                o.dl = earliest(o);
            }
        },
        _ => ensure!(o.items.is_empty(), "queue {i} reports the end of the stream with {} items present", o.items.len()),
    }
    // the caller's waker goes while the object is still in use
    drop(handle);
    mix().busy[i] = false;
}
fn remove(i: usize) {
    let m = mix();
    let o = m.o[i].take().unwrap();
    log!("drop {} at {}", i, env::now());
    if o.dl > env::now() || o.items.is_empty() && matches!(o.k, K::Q(_)) {
        for w in [o.wk, o.wk + 1] {
            m.silent.push((w, waker::woken(w), i));
        }
    }
    drop(o);
}
fn act(a: A) {
    log!("  {:?} at {}", a, env::now());
    let m = mix();
    match a {
        A::Nothing => {}
        A::Create(i, k, d) => create(i, k, d),
        A::Poll(i) => poll(i, (m.next & 1) as usize),
        A::Drop(i) => remove(i),
        A::Turn => {
            if env::next_due().is_some() {
                env::pass(env::next_due().unwrap() - env::now());
                env::fire();
            }
        }
        A::Lag => env::pass(7_000),
        A::Reset(i, d) => {
            m.busy[i] = true;
            let o = m.o[i].as_mut().unwrap();
            let at = Instant::now() + us_dur(d);
            // a task that is still waiting goes on waiting
            o.pend = o.pend.filter(|&(w, n)| waker::woken(w) == n);
            o.done = false;
            o.resets += 1;
            o.dl = m.base.us(at);
            match &mut o.k {
                K::S(s) => s.as_mut().reset(at),
                K::I(v) => {
                    o.at = None;
                    v.reset();
                }
                _ => {}
            }
            mix().busy[i] = false;
        }
        _ => {
            let i = match a {
                A::Insert(i, _) | A::Remove(i) | A::Change(i, _) | A::Clear(i) => i,
                _ => unreachable!(),
            };
            m.busy[i] = true;
            let o = m.o[i].as_mut().unwrap();
            let K::Q(q) = &mut o.k else { unreachable!() };
            match a {
                A::Insert(_, d) => {
                    let x = m.next;
                    m.next += 1;
                    let at = Instant::now() + us_dur(d);
                    let key = q.insert_at(x, at);
                    o.items.push((key, x, m.base.us(at)));
                }
                A::Remove(_) => {
                    let (key, x, _) = o.items.remove(0);
                    let e = q.remove(&key);
                    ensure!(*e.get_ref() == x, "queue {i} gave item {} for the key of {x}", e.get_ref());
                }
                A::Change(_, d) => {
                    let at = Instant::now() + us_dur(d);
                    let dl = m.base.us(at);
                    o.items[0].2 = dl;
                    let key = o.items[0].0;
                    q.reset_at(&key, at);
                }
                _ => {
                    o.items.clear();
                    q.clear();
                }
            }
            let o = mix().o[i].as_mut().unwrap();
            o.dl = if o.items.is_empty() { env::now() } else { earliest(o) };
            mix().busy[i] = false;
        }
    }
}
fn hook(_w: usize) {
    if unsafe { MIX.is_null() } || mix().inside || mix().left == 0 {
        return;
    }
    let m = mix();
    m.inside = true;
    m.left -= 1;
    let mut v = vec![A::Nothing];
    actions(&mut v, true);
    env::step();
    act(v[choose(v.len())]);
    mix().inside = false;
}
/// Event-driven tasks on a punctual host: everything still there completes.
fn settle() {
    let t0 = env::now();
    let h = mix().h;
    for i in 0..N {
        if mix().o[i].is_some() {
            let o = mix().o[i].as_ref().unwrap();
            if o.pend.is_none() && !o.done {
                poll(i, 1);
            }
        }
    }
    let mut ticks = [0u32; N];
    let end = t0 + 60_000 + 20 * h.res;
    loop {
        let mut again = true;
        while again {
            again = false;
            for i in 0..N {
                let Some(o) = mix().o[i].as_ref() else { continue };
                let Some((wk, n)) = o.pend else { continue };
                if waker::woken(wk) > n {
                    poll(i, 0);
                    // the task goes on to its next event
                    let o = mix().o[i].as_ref().unwrap();
                    if o.pend.is_none() {
                        let more = match kind(i) {
                            2 => {
                                ticks[i] += 1;
                                ticks[i] < 3
                            }
                            3 => !o.items.is_empty(),
                            _ => false,
                        };
                        if more {
                            poll(i, 0);
                            again = true;
                        } else {
                            mix().o[i].as_mut().unwrap().done = true;
                        }
                    }
                } else {
                    let lim = o.dl.max(t0) + late(&h) + 12 * h.cb_cost + if kind(i) == 3 { 1_000 } else { 0 };
                    ensure!(env::now() <= lim, "{} {i} was not woken by {}, its deadline was {}", name(i), env::now(), o.dl);
                }
            }
        }
        let waiting = (0..N).any(|i| mix().o[i].as_ref().is_some_and(|o| o.pend.is_some()));
        if !waiting {
            break;
        }
        ensure!(env::now() < end, "tasks are still waiting at {}", env::now());
        match env::next_due() {
            Some(d) if d <= end => {
                env::pass(d - env::now());
                env::fire();
            }
            _ => env::pass(end - env::now() + 1),
        }
    }
    for (w, n, i) in &mix().silent {
        ensure!(waker::woken(*w) == *n, "waker {w} was woken by object {i}, which had been dropped before its deadline");
    }
}
fn setup(hosts: &[Host], warm_too: bool) {
    let h = pick(hosts);
    let base = Base::new(&h);
    let m = Box::new(Mix {
        h,
        base,
        o: [None, None, None],
        busy: [false; N],
        wakers: 0,
        next: 0,
        silent: Vec::new(),
        left: 0,
        inside: false,
    });
    unsafe { MIX = Box::into_raw(m) };
    if warm_too {
        warm(choose(2) == 1);
    }
    let k0 = choose(4);
    create(0, k0, 4_000);
    let k1 = choose(4);
    let d = pick(&[4_000i64, 5_200]);
    create(1, k1, d);
}
fn finish(tag: u64) {
    settle();
    let mut hs = Hasher::new(tag);
    for i in 0..N {
        match &mix().o[i] {
            None => hs.add(1),
            Some(o) => hs.add(kind(i) as u64 + 2).add((o.dl - mix().base.us) as u64).add(o.items.len() as u64),
        };
    }
    hs.add((env::now() - mix().base.us) as u64);
    hs.state();
    hs.outcome();
    for i in 0..N {
        if mix().o[i].is_some() {
            remove(i);
        }
    }
}
fn reentrant() {
    let depth = env::bound();
    setup(&[NODE, IDEAL], true);
    mix().left = depth;
    waker::set_hook(Some(hook));
    waker::set_drop_hook(Some(hook));
    if choose(2) == 1 {
        env::pass(12_000);
    }
    env::run_until(env::now() + 40_000);
    waker::set_hook(None);
    waker::set_drop_hook(None);
    finish(91);
}
fn history(hosts: &[Host]) {
    let depth = env::bound();
    setup(hosts, true);
    for _ in 0..depth {
        env::step();
        let mut v = vec![A::Turn, A::Lag];
        actions(&mut v, false);
        act(v[choose(v.len())]);
    }
    finish(92);
}
pub const SUITES: &[Suite] = &[
    Suite {
        prop: "C05", name: "entwined",
        what: "timer operations on sleeps, timeouts, intervals and queues inside every wake and inside the drop of a last waker",
        unit: "re-entrant operations", variants: BOTH, min: 1, quick: 3, deep: 4,
        run: reentrant,
    },
    Suite {
        prop: "C04", name: "mixture",
        what: "all histories of a sleep, timeout, interval or queue beside others of any kind: none disturbs another",
        unit: "operations", variants: BOTH, min: 1, quick: 3, deep: 4,
        run: || history(&[NODE, IDEAL]),
    },
    Suite {
        prop: "C04", name: "blurred",
        what: "the histories of mixture on hosts with a clock of 1 ms, 16.7 ms or 100 ms resolution",
        unit: "operations", variants: BOTH, min: 1, quick: 2, deep: 3,
        run: || history(&[Host { res: 1_000, ..NODE }, Host { res: 100_000, ..IDEAL }, Host { res: 16_667, read_cost: 0, ..BROWSER }]),
    },
];

// ---------------------------------------------------------------- C07: the other kinds
/// Queues, intervals and timeouts in use on a punctual host, over milliseconds to hours:
/// host callbacks stay proportional to operations and deliveries, plus the idle rate.
fn thrift() {
    const MIN: i64 = 60_000_000;
    const HOUR: i64 = 60 * MIN;
    const DAY: i64 = 24 * HOUR;
    let n = env::bound();
    // (an ideal host would wait for the last fraction of a millisecond in immediate timeouts)
    let h = pick(&[NODE, BROWSER]);
    let _ = Base::new(&h);
    warm(choose(2) == 1);
    let f0 = env::n_fired();
    let t0 = env::now();
    let span = pick(&[MIN, 2 * HOUR]);
    let mut ops = 1usize;
    let mut events = 0usize;
    let k = choose(3);
    let wk = 5;
    let handle = waker::get(wk);
    let mut cx = Context::from_waker(&handle);
    // a sleep of another task, far away
    let mut far = Box::pin(sleep(us_dur(40 * DAY)));
    let _ = far.as_mut().poll(&mut cx);
    let ds = [0i64, 1_500, 64_000, 4_095_000, 4_096_700, 20 * MIN, 30 * HOUR, 24 * DAY + 20 * HOUR, 40 * DAY, 700 * DAY];
    match k {
        0 => {
            let mut q = DelayQueue::new();
            let mut keys = Vec::new();
            for i in 0..n {
                let d = pick(&ds);
                keys.push(q.insert(i, us_dur(d)));
                ops += 1;
            }
            match choose(4) {
                0 => {}
                1 => {
                    q.remove(&keys[0]);
                    ops += 1;
                }
                2 => {
                    q.reset(&keys[n - 1], us_dur(pick(&ds)));
                    ops += 1;
                }
                _ => {
                    env::pass(3_000_000);
                    q.reset(&keys[0], us_dur(70_000));
                    ops += 1;
                }
            }
            env::step();
            let mut due = true;
            // event-driven: polled when woken
            while env::now() < t0 + span {
                if due {
                    let n = waker::woken(wk);
                    while let Poll::Ready(Some(_)) = q.poll_expired(&mut cx) {
                        events += 1;
                    }
                    due = waker::woken(wk) > n;
                }
                let n = waker::woken(wk);
                match env::next_due() {
                    Some(d) if d <= t0 + span => {
                        env::pass(d - env::now());
                        env::fire();
                    }
                    _ => env::pass(t0 + span - env::now()),
                }
                due |= waker::woken(wk) > n;
            }
            events += 6 * n; // from level to level of the wheel
        }
        1 => {
            let p = pick(&[500i64, 3_000, 900_000, 4_999_000, 11 * MIN, 25 * DAY, 3000 * DAY]);
            let span = span.min(p * 500);
            let mut v = interval_at(Instant::now() + us_dur(pick(&[0i64, 2_000, 26 * DAY])), us_dur(p));
            let lag = choose(2) == 1;
            env::step();
            while env::now() < t0 + span {
                if v.poll_tick(&mut cx).is_ready() {
                    events += 1;
                    continue;
                }
                let n = waker::woken(wk);
                while env::now() < t0 + span && waker::woken(wk) == n {
                    match env::next_due() {
                        Some(d) if d <= t0 + span => {
                            env::pass(d - env::now());
                            env::fire();
                        }
                        _ => env::pass(t0 + span - env::now()),
                    }
                }
                if lag && events == 2 {
                    env::pass(7_000);
                }
            }
        }
        _ => {
            for _ in 0..n {
                let mut t = Box::pin(timeout(us_dur(pick(&ds)), std::future::pending::<()>()));
                env::step();
                let keep = choose(2) == 1;
                let end = if keep { env::now() + span } else { env::now() + 1_200 };
                ops += 1;
                loop {
                    if t.as_mut().poll(&mut cx).is_ready() {
                        events += 1;
                        break;
                    }
                    let n = waker::woken(wk);
                    while env::now() < end && waker::woken(wk) == n {
                        match env::next_due() {
                            Some(d) if d <= end => {
                                env::pass(d - env::now());
                                env::fire();
                            }
                            _ => env::pass(end - env::now()),
                        }
                    }
                    if env::now() >= end {
                        break;
                    }
                }
            }
        }
    }
    let fired = env::n_fired() - f0;
    let idle = ((env::now() - t0) / 5_000_000) as usize;
    ensure!(fired <= 6 * (ops + events) + 3 * idle + 6, "{fired} host callbacks for {ops} operations and {events} deliveries of a {} in {} ms", NAME[3 - k], (env::now() - t0) / 1_000);
    ensure!(env::max_pending() <= 6 * ops + 16, "{} host timers outstanding after {ops} operations on a {}", env::max_pending(), NAME[3 - k]);
    let mut hs = Hasher::new(93);
    hs.add(fired as u64).add(k as u64).add(env::max_pending() as u64);
    hs.state();
    hs.outcome();
}
pub const SUITES2: &[Suite] = &[Suite {
    prop: "C07", name: "thrift",
    what: "queues, intervals and timeouts of all magnitudes in use: callbacks and outstanding host timeouts stay few",
    unit: "items or timeouts", variants: BOTH, min: 1, quick: 2, deep: 3,
    run: thrift,
}];
