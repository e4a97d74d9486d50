//! Histories of sleeps (C01..C05).
use crate::env::{self, choose, Hasher};
use crate::waker;
use crate::world::*;
use crate::{ensure, log, Suite, BOTH, PROD};
use std::pin::Pin;
use std::task::Poll;
use wasmtimer::std::Instant;
use wasmtimer::tokio::{sleep, sleep_until, Sleep};

/// Which property's oracle is on.
#[derive(Clone, Copy, Default)]
pub struct Oracle {
    pub early: bool,
    pub late: bool,
    /// early and late, for sleeps that were reset
    pub reset: bool,
    pub waker: bool,
}

struct Rs(u32);
impl std::fmt::Display for Rs {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0 > 0 { write!(f, " (reset {} times)", self.0) } else { Ok(()) }
    }
}
fn rs(n: u32) -> Rs {
    Rs(n)
}

pub struct Slot {
    pub s: Pin<Box<Sleep>>,
    pub at: Instant,
    pub dl: i64,
    pub born: i64,
    /// waker of the latest pending poll since creation or reset, and its count then
    pub polled: Option<(usize, u32)>,
    /// that poll was before the latest reset (its waker stays the one to be woken)
    pub carried: bool,
    pub done: bool,
    pub resets: u32,
    pub wk: usize,
}

pub struct World {
    pub o: Oracle,
    pub h: Host,
    pub base: Base,
    pub slots: Vec<Option<Slot>>,
    next_wk: usize,
    /// record abstract states only at operations, not at every callback of the settling phase
    pub coarse: bool,
    /// wakers of dropped sleeps that must stay silent: (waker, count)
    pub silent: Vec<(usize, u32)>,
}

impl World {
    pub fn new(h: Host, o: Oracle, n: usize) -> World {
        let base = Base::new(&h);
        World { o, h, base, slots: (0..n).map(|_| None).collect(), next_wk: 0, coarse: false, silent: Vec::new() }
    }
    /// Two wakers (2k, 2k+1) reserved for a new sleep.
    fn wakers(&mut self) -> usize {
        let w = self.next_wk;
        self.next_wk += 2;
        w
    }
    pub fn create(&mut self, i: usize, d: i64, by_instant: bool) {
        let wk = self.wakers();
        let s = if by_instant { Box::pin(sleep_until(Instant::now() + us_dur(d))) } else { Box::pin(sleep(us_dur(d))) };
        let at = s.deadline();
        let dl = self.base.us(at);
        log!("create {} for {} us: deadline {} (now {})", i, d, dl, env::now());
        // the deadline is the clock at the call plus the duration
        ensure!(
            (dl - (env::clock() + d)).abs() <= EARLY + 4 * self.h.read_cost,
            "sleep({d} us) created at {} reports deadline {dl}", env::now()
        );
        self.slots[i] = Some(Slot { s, at, dl, born: env::now(), polled: None, carried: false, done: false, resets: 0, wk });
    }
    /// A deadline before now.
    pub fn create_past(&mut self, i: usize, ago: i64) {
        let wk = self.wakers();
        let at = crate::world::ago(ago);
        let s = Box::pin(sleep_until(at));
        let dl = self.base.us(at);
        log!("create {} with deadline {} (now {})", i, dl, env::now());
        self.slots[i] = Some(Slot { s, at, dl, born: env::now(), polled: None, carried: false, done: false, resets: 0, wk });
    }
    pub fn poll(&mut self, i: usize, w: usize) -> bool {
        let o = self.o;
        let s = self.slots[i].as_mut().unwrap();
        let wk = s.wk + w;
        let before = waker::woken(wk);
        let r = poll(s.s.as_mut(), wk).is_ready();
        log!("poll {} with waker {}: {}", i, wk, if r { "ready" } else { "pending" });
        if r {
            if o.early || (o.reset && s.resets > 0) {
                ensure!(env::clock() + EARLY >= s.dl, "sleep {i}{} polled ready at {}, before its deadline {}", rs(s.resets), env::now(), s.dl);
            }
            s.done = true;
            s.polled = None;
        } else {
            if o.reset || o.early {
                ensure!(!s.done, "sleep {i}{} was complete and polls pending without a reset", rs(s.resets));
            }
            s.polled = Some((wk, before));
            s.carried = false;
        }
        r
    }
    pub fn reset(&mut self, i: usize, d: i64) {
        let at = if d >= 0 { Instant::now() + us_dur(d) } else { crate::world::ago(-d) };
        let dl = self.base.us(at);
        let s = self.slots[i].as_mut().unwrap();
        s.s.as_mut().reset(at);
        log!("reset {} to deadline {} (now {})", i, dl, env::now());
        s.at = at;
        s.dl = dl;
        s.done = false;
        // a task that is still waiting goes on waiting
        s.polled = s.polled.filter(|&(w, n)| waker::woken(w) == n);
        s.carried = s.polled.is_some();
        s.resets += 1;
        s.born = env::now();
    }
    pub fn drop(&mut self, i: usize) {
        let s = self.slots[i].take().unwrap();
        log!("drop {}", i);
        if s.dl > env::now() {
            for w in [s.wk, s.wk + 1] {
                self.silent.push((w, waker::woken(w)));
            }
        }
    }
    /// After every step: the observable state of every sleep agrees with its deadline.
    pub fn observe(&mut self) {
        let now = env::clock();
        let o = self.o;
        for (i, s) in self.slots.iter_mut().enumerate() {
            if let Some(s) = s {
                let e = s.s.is_elapsed();
                if o.early || (o.reset && s.resets > 0) {
                    ensure!(!e || now + EARLY >= s.dl, "sleep {i}{} is elapsed at {now}, before its deadline {}", rs(s.resets), s.dl);
                    ensure!(e || !s.done, "sleep {i}{} polled ready, then reports not elapsed", rs(s.resets));
                }
                if o.reset || o.early {
                    ensure!(s.s.deadline() == s.at, "sleep {i}{} reports another deadline than the one it was given", rs(s.resets));
                }
                if e {
                    s.done = true;
                }
            }
        }
        if o.waker {
            for &(w, n) in &self.silent {
                ensure!(waker::woken(w) == n, "waker {w} of a dropped sleep was woken");
            }
        }
        if !self.coarse {
            self.hash().state();
        }
    }
    pub fn hash(&self) -> Hasher {
        let now = env::now();
        let mut h = Hasher::new(1);
        for s in self.slots.iter() {
            match s {
                None => {
                    h.add(1);
                }
                Some(s) => {
                    h.add((s.dl - now) as u64).add(s.done as u64).add(s.polled.map(|(w, _)| w - s.wk + 1).unwrap_or(0) as u64);
                }
            }
        }
        h.add(env::pending() as u64).add(env::next_due().map(|d| (d - now) as u64).unwrap_or(u64::MAX));
        h
    }
    fn due(&self, from: i64, late: i64) -> Option<(usize, i64)> {
        self.slots
            .iter()
            .enumerate()
            .filter_map(|(i, s)| s.as_ref().map(|s| (i, s)))
            .filter(|(_, s)| s.polled.is_some() || !s.done)
            .map(|(i, s)| (i, s.dl.max(from).max(s.born) + late))
            .min_by_key(|x| x.1)
    }
    /// A punctual host from now on; every sleep must complete soon after its deadline.
    pub fn settle(&mut self) {
        let from = env::now();
        let late = late(&self.h) + env::pending() as i64 * self.h.cb_cost;
        let o = self.o;
        log!("settle from {}", from);
        self.hash().state();
        while let Some((i, t)) = self.due(from, late) {
            let me: *mut World = self;
            // SAFETY: single threaded; `observe` only reads the slots
            env::run_until_with(t, &mut || unsafe { (*me).observe() });
            self.observe();
            let s = self.slots[i].as_mut().unwrap();
            let strict = o.late || (o.reset && s.resets > 0);
            if let Some((w, n)) = s.polled {
                if strict || o.waker {
                    ensure!(waker::woken(w) > n, "sleep {i}{}, deadline {}, polled with waker {w}: not woken by {}", rs(s.resets), s.dl, env::now());
                }
            }
            let (dl, n) = (s.dl, s.resets);
            let r = self.poll(i, 0);
            if strict {
                ensure!(r, "sleep {i}{}, deadline {dl}: still pending at {}", rs(n), env::now());
            }
            let s = self.slots[i].as_mut().unwrap();
            s.done = true;
            s.polled = None;
        }
        let mut h = Hasher::new(2);
        for s in self.slots.iter().flatten() {
            h.add((s.dl - from) as u64).add(s.done as u64);
        }
        h.add(env::n_fired() as u64).add(from as u64);
        h.outcome();
    }
}

const D: [i64; 3] = [0, 2_400, 7_000];

#[derive(Clone, Copy)]
enum Op {
    Create(usize, i64),
    Past(usize),
    Poll(usize, usize),
    Reset(usize, i64),
    Drop(usize),
    Turn,
    Early,
    Lag,
}

/// The core suite: every history of operations on `n` sleeps interleaved with host
/// behaviour, up to the bound; then a punctual host.
fn history(o: Oracle, n: usize, polls: usize, past: bool) {
    history_on(&[NODE, IDEAL, BROWSER], o, n, polls, past)
}
fn history_on(hosts: &[Host], o: Oracle, n: usize, polls: usize, past: bool) {
    let depth = env::bound();
    // the ideal profile gets the full depth, the others one step less
    let (h, depth) = match choose(if depth > 1 { hosts.len() } else { 1 }) {
        0 => (hosts[0], depth),
        i => (hosts[i], depth - 1),
    };
    let mut w = World::new(h, o, n);
    warm(choose(2) == 1);
    for _ in 0..depth {
        let mut ops: Vec<Op> = Vec::new();
        let mut free = true;
        for i in 0..n {
            match &w.slots[i] {
                None => {
                    // empty slots are interchangeable
                    if free {
                        for d in D {
                            ops.push(Op::Create(i, d));
                        }
                        if past {
                            ops.push(Op::Past(i));
                        }
                        free = false;
                    }
                }
                Some(s) => {
                    for k in 0..polls {
                        // a second pending poll with the same waker changes nothing
                        if s.carried || !matches!(s.polled, Some((p, _)) if p == s.wk + k) || s.dl <= env::now() {
                            ops.push(Op::Poll(i, k));
                        }
                    }
                    ops.push(Op::Reset(i, 3_300));
                    ops.push(Op::Reset(i, if past { -1_000 } else { 0 }));
                    ops.push(Op::Drop(i));
                }
            }
        }
        if env::pending() > 0 {
            ops.push(Op::Turn);
            // hosts with coarsened clocks run timers a little early
            if o.early && env::next_due().unwrap() > env::now() {
                ops.push(Op::Early);
            }
        }
        ops.push(Op::Lag);
        env::step();
        match ops[choose(ops.len())] {
            Op::Create(i, d) => w.create(i, d, i & 1 == 1),
            Op::Past(i) => w.create_past(i, 1_000),
            Op::Poll(i, k) => {
                w.poll(i, k);
            }
            Op::Reset(i, d) => w.reset(i, d),
            Op::Drop(i) => w.drop(i),
            Op::Turn => {
                let d = env::next_due().unwrap();
                env::pass((d - env::now()).min(20_000));
                log!("host runs a timer at {}", env::now());
                env::fire();
            }
            Op::Early => {
                let d = env::next_due().unwrap();
                env::pass(((d - env::now()) - 900).clamp(0, 20_000));
                log!("host runs a timer early at {}", env::now());
                env::fire();
            }
            Op::Lag => {
                env::pass(3_100);
                log!("host is busy until {}", env::now());
            }
        }
        w.observe();
    }
    w.settle();
}

/// Hosts that blur their clocks against timing attacks: by 1 ms, 100 ms, a frame, 0.1 ms.
const BLURRED: [Host; 4] = [Host { res: 1_000, ..NODE }, Host { res: 100_000, ..IDEAL }, Host { res: 16_667, ..BROWSER }, Host { res: 100, ..NODE }];

pub const SUITES: &[Suite] = &[
    Suite {
        prop: "C01", name: "blurred",
        what: "the histories of history2 on hosts with a clock of 0.1, 1, 16.7 or 100 ms resolution: never complete before the clock shows the deadline, woken soon after it",
        unit: "operations", variants: BOTH, min: 1, quick: 5, deep: 6,
        run: || history_on(&BLURRED, Oracle { early: true, late: true, waker: true, reset: true }, 2, 1, true),
    },
    Suite {
        prop: "C01", name: "history2",
        what: "all histories of create/poll/reset/drop on 2 sleeps, host turns on time and 0.9 ms early, host lag; then a punctual host; never complete early",
        unit: "operations", variants: BOTH, min: 1, quick: 6, deep: 7,
        run: || history(Oracle { early: true, ..Default::default() }, 2, 1, true),
    },
    Suite {
        prop: "C02", name: "history2",
        what: "all histories of create/poll/reset/drop on 2 sleeps, host turns and lag; then a punctual host: woken and ready in time",
        unit: "operations", variants: BOTH, min: 1, quick: 6, deep: 7,
        run: || history(Oracle { late: true, ..Default::default() }, 2, 1, true),
    },
    Suite {
        prop: "C03", name: "history2",
        what: "all histories with resets of 2 sleeps: only the latest deadline counts",
        unit: "operations", variants: PROD, min: 1, quick: 6, deep: 7,
        run: || history(Oracle { reset: true, ..Default::default() }, 2, 1, false),
    },
];

// ---------------------------------------------------------------- backlog (C02)
/// k earlier timers of one kind, created at some spacing, kept or dropped; then a
/// short sleep must still be woken on time.
fn backlog() {
    let k = choose(env::bound() + 1);
    let h = env::pick(&[NODE, IDEAL, BROWSER]);
    let kind = env::pick(&[3_600_000_000i64, 20_000, 400_000, 6_000_000]);
    let fate = choose(3); // kept, dropped at once, dropped at the end
    let gap = env::pick(&[0i64, 1, 10_000, 130_000]); // 0: same turn; 1: a turn each
    let d = env::pick(&[300i64, 5_000, 50_000, 6_000_000]);
    let quiet = choose(2) == 1; // an idle phase before the short sleep
    let mut w = World::new(h, Oracle { late: true, ..Default::default() }, 1);
    warm(choose(2) == 1);
    let mut olds = Vec::new();
    for i in 0..k {
        let mut s = Box::pin(sleep(us_dur(kind)));
        let _ = poll(s.as_mut(), 120);
        env::step();
        if fate != 1 {
            olds.push(s);
        }
        if gap == 1 {
            env::run_until(env::now() + 5);
            env::run_due_with(1, &mut || {});
        } else if gap > 0 {
            env::run_until(env::now() + gap + i as i64);
        }
    }
    if quiet {
        env::run_until(env::now() + 2_000_000);
    }
    if fate == 2 {
        olds.clear();
    }
    w.create(0, d, false);
    w.poll(0, 0);
    w.settle();
    // and once more, from a running state
    w.reset(0, d);
    w.poll(0, 0);
    w.settle();
}

// ---------------------------------------------------------------- many (C04)
#[derive(Clone, Copy, PartialEq)]
enum After {
    None,
    Drop(usize),
    Drop2(usize, usize),
    Reset(usize, i64),
    Add(i64),
}
/// N sleeps, every creation order, batched or one per turn, then one more change at
/// some point: each completes at its own deadline, in deadline order.
fn many(ties: bool) {
    let n = env::bound();
    let h = env::pick(&[NODE, IDEAL]);
    let batched = choose(2) == 0;
    let mut w = World::new(h, Oracle { early: true, late: true, reset: true, waker: true }, n + 1);
    w.coarse = true;
    warm(true);
    let step = 20_000i64;
    let t0 = env::now();
    // creation order: a permutation (or with ties every assignment of 3 deadlines)
    let mut left: Vec<usize> = (0..n).collect();
    for i in 0..n {
        let r = if ties { choose(3) * 2 } else { left.remove(choose(left.len())) };
        let dl = t0 + step * (r as i64 + 5);
        w.create(i, dl - env::now(), i & 1 == 1);
        w.poll(i, 0);
        env::step();
        if !batched {
            env::run_until(env::now() + 5);
            env::run_due_with(1, &mut || {});
        }
    }
    // the host may deliver the change before the driver ran, after, or when m have fired
    let moment = choose(4);
    match moment {
        0 => {}
        1 => env::run_until(t0 + step * 2),
        2 => env::run_until(t0 + step * 5 + step / 2),
        _ => env::run_until(t0 + step * 6 + step / 2),
    }
    w.observe();
    let mut ops = vec![After::None, After::Add(t0 + step * 6 + step / 4)];
    for i in 0..n {
        if !w.slots[i].as_ref().unwrap().done {
            ops.push(After::Drop(i));
            for r in 0..n {
                ops.push(After::Reset(i, t0 + step * (r as i64 + 5) + step / 4));
            }
            if n <= 6 {
                for j in 0..i {
                    if !w.slots[j].as_ref().unwrap().done {
                        ops.push(After::Drop2(j, i));
                    }
                }
            }
        }
    }
    env::step();
    match ops[choose(ops.len())] {
        After::None => {}
        After::Drop(i) => w.drop(i),
        After::Drop2(j, i) => {
            w.drop(j);
            w.drop(i);
        }
        After::Reset(i, t) => {
            let d = t - env::now();
            w.reset(i, d);
            w.poll(i, 0);
        }
        After::Add(t) => {
            let d = t - env::now();
            w.create(n, d.max(0), false);
            w.poll(n, 0);
        }
    }
    // what is outstanding from here on
    let from = env::now();
    let group: Vec<(usize, i64, usize)> = w
        .slots
        .iter()
        .enumerate()
        .filter_map(|(i, s)| s.as_ref().map(|s| (i, s)))
        .filter(|(_, s)| s.polled.is_some() && !s.done && s.dl > from)
        .map(|(i, s)| (i, s.dl, s.polled.unwrap().0))
        .collect();
    // a punctual host, or one that sleeps through all deadlines and fires once
    if choose(2) == 1 {
        env::pass(step * (n as i64 + 8));
        log!("host was suspended until {}", env::now());
    }
    w.settle();
    for a in &group {
        for b in &group {
            if a.1 < b.1 {
                ensure!(
                    waker::order(a.2) < waker::order(b.2),
                    "sleep {} (deadline {}) was woken after sleep {} (deadline {})", a.0, a.1, b.0, b.1
                );
            }
        }
    }
}

// ---------------------------------------------------------------- scales
const SCALE: [i64; 13] =
    [0, 400, 3_000, 90_000, 1_200_000, 4_900_000, 6_000_000, 61_000_000, HOUR, 3 * DAY, 24 * DAY, 26 * DAY, 60 * DAY];
/// Deadlines of every order of magnitude next to one another: one sleep, a pause, a
/// second one, a pause, then `bound` changes (reset to any magnitude, drop, third sleep).
fn scales(o: Oracle) {
    let n = env::bound();
    let h = env::pick(&[NODE, IDEAL, BROWSER]);
    let mut w = World::new(h, o, 3);
    w.coarse = true;
    warm(choose(2) == 1);
    let gap = |k: usize| match k {
        0 => {}
        1 => env::run_until(env::now() + 7_000),
        _ => {
            // long enough to be past the driver's idle poll
            env::run_until(env::now() + 5_200_000)
        }
    };
    env::step();
    let d = env::pick(&SCALE);
    w.create(0, d, false);
    w.poll(0, 0);
    gap(choose(3));
    w.observe();
    env::step();
    let d = env::pick(&SCALE);
    w.create(1, d, true);
    w.poll(1, 0);
    gap(choose(2));
    w.observe();
    for _ in 0..n {
        let mut ops: Vec<(u8, usize, i64)> = vec![(0, 0, 0)];
        for i in 0..3 {
            if w.slots[i].is_some() {
                ops.push((1, i, 0));
            }
            if i < 2 || n > 1 {
                for d in SCALE {
                    if w.slots[i].is_some() {
                        ops.push((2, i, d));
                    } else if i == 2 {
                        ops.push((3, i, d));
                    }
                }
            }
        }
        env::step();
        match ops[choose(ops.len())] {
            (0, ..) => {}
            (1, i, _) => w.drop(i),
            (2, i, d) => {
                w.reset(i, d);
                w.poll(i, 1);
            }
            (_, i, d) => {
                w.create(i, d, false);
                w.poll(i, 0);
            }
        }
        if n > 1 {
            gap(choose(2));
        }
        w.observe();
    }
    w.settle();
}

// ---------------------------------------------------------------- heaps (C04)
/// Every reachable arrangement of n deadlines in a binary heap (created in heap order,
/// one per turn), then every change of one of them.
fn heaps() {
    let n = env::bound();
    let mut w = World::new(IDEAL, Oracle { early: true, late: true, reset: true, waker: true }, n + 1);
    w.coarse = true;
    warm(true);
    let step = 200_000i64;
    let t0 = env::now() + 400_000;
    // rank of the k-th: any assignment in which every parent is before its children.
    // Ranks are placed in increasing order: each next rank goes to an open position.
    let mut rank = vec![usize::MAX; n];
    let mut open = vec![0usize];
    for r in 0..n {
        let p = open.remove(choose(open.len()));
        rank[p] = r;
        for c in [2 * p + 1, 2 * p + 2] {
            if c < n {
                open.push(c);
            }
        }
    }
    for i in 0..n {
        let d = t0 + step * rank[i] as i64 - env::now();
        w.create(i, d, i & 1 == 1);
        w.poll(i, 0);
        env::step();
        env::run_until(env::now() + 5);
        env::run_due_with(1, &mut || {});
    }
    w.observe();
    // change: nothing, drop one, move one before any rank, add one before any rank
    let k = choose(1 + n + n * (n + 1) + n + 1);
    env::step();
    let before = |r: usize| t0 + step * r as i64 - step / 2;
    if k == 0 {
    } else if k <= n {
        w.drop(k - 1);
    } else if k <= n + n * (n + 1) {
        let (i, r) = ((k - n - 1) / (n + 1), (k - n - 1) % (n + 1));
        let d = before(r) - env::now();
        w.reset(i, d);
        w.poll(i, 0);
    } else {
        let d = before(k - n - n * (n + 1) - 1) - env::now();
        w.create(n, d, false);
        w.poll(n, 0);
    }
    w.settle();
}

// ---------------------------------------------------------------- wakers (C05)
static mut HOOKED: *mut World = std::ptr::null_mut();
static mut HOOK_LEFT: usize = 0;
static mut HOOK_IN: bool = false;

fn hook(wk: usize) {
    // SAFETY: single threaded; the world outlives the hook and the caller (the
    // driver, called from env::fire or from an operation) holds no reference into it
    unsafe {
        if HOOKED.is_null() || HOOK_IN || HOOK_LEFT == 0 {
            return;
        }
        HOOK_IN = true;
        HOOK_LEFT -= 1;
        let w = &mut *HOOKED;
        let me = w.slots.iter().position(|s| s.as_ref().map(|s| s.wk == wk || s.wk + 1 == wk).unwrap_or(false));
        act(w, me);
        HOOK_IN = false;
    }
}
/// One re-entrant action, chosen by the explorer.
fn act(w: &mut World, me: Option<usize>) {
    #[derive(Clone, Copy)]
    enum A {
        Nothing,
        Create(usize, i64),
        Poll(usize),
        Reset(usize, i64),
        Drop(usize),
    }
    let mut ops = vec![A::Nothing];
    for i in 0..w.slots.len() {
        match &w.slots[i] {
            None => {
                ops.push(A::Create(i, 0));
                ops.push(A::Create(i, 5_000));
            }
            Some(_) => {
                ops.push(A::Poll(i));
                ops.push(A::Reset(i, 0));
                ops.push(A::Reset(i, 6_000));
                ops.push(A::Drop(i));
            }
        }
    }
    env::step();
    let _ = me;
    match ops[choose(ops.len())] {
        A::Nothing => {}
        A::Create(i, d) => {
            w.create(i, d, false);
            w.poll(i, 0);
        }
        A::Poll(i) => {
            w.poll(i, 1);
        }
        A::Reset(i, d) => {
            w.reset(i, d);
            w.poll(i, 1);
        }
        A::Drop(i) => w.drop(i),
    }
}
/// Deadlines d1 <= d2 around each other; in every wake the explorer picks a timer
/// operation and performs it inside the waker.
fn reentrant() {
    let depth = env::bound();
    let h = env::pick(&[NODE, IDEAL]);
    let mut w = World::new(h, Oracle { early: true, late: true, reset: true, waker: true }, 3);
    warm(choose(2) == 1);
    w.create(0, 4_000, false);
    w.poll(0, 0);
    let d = env::pick(&[4_000, 4_200, 9_000]);
    w.create(1, d, false);
    w.poll(1, 0);
    unsafe {
        HOOKED = &mut w;
        HOOK_LEFT = depth;
        HOOK_IN = false;
    }
    waker::set_hook(Some(hook));
    if choose(2) == 1 {
        env::pass(12_000); // both are overdue when the host comes back
    }
    // run long enough for every chain of hooks
    env::run_until(env::now() + 40_000);
    waker::set_hook(None);
    unsafe { HOOKED = std::ptr::null_mut() };
    w.observe();
    w.settle();
}

// ---------------------------------------------------------------- economy (C07)
const HOUR: i64 = 3_600_000_000;
const DAY: i64 = 24 * HOUR;
/// Any history, then a long idle time: how many callbacks did the host have to run?
fn economy() {
    let depth = env::bound();
    let h = env::pick(&[NODE, BROWSER]);
    let base = Base::new(&h);
    warm(choose(2) == 1);
    let f0 = env::n_fired();
    let mut ops = 1usize;
    let mut events = 0usize;
    let mut slots: Vec<Option<(Pin<Box<Sleep>>, i64)>> = vec![None, None];
    for _ in 0..depth {
        let mut alts: Vec<(u8, usize, i64)> = vec![(4, 0, 0), (5, 0, 0)];
        let mut free = true;
        for i in 0..2 {
            if slots[i].is_none() {
                if free {
                    for d in [0, 2_000, 7_000_000, HOUR, 40 * DAY, 200 * DAY] {
                        alts.push((0, i, d));
                    }
                }
                free = false;
            } else {
                for d in [3_000, 50 * DAY] {
                    alts.push((1, i, d));
                }
                alts.push((2, i, 0));
                alts.push((3, i, 0));
            }
        }
        env::step();
        let (k, i, d) = alts[choose(alts.len())];
        log!("op {} on {} with {} us at {}", ["create", "reset", "poll", "drop", "turn", "lag 3 s"][k as usize], i, d, env::now());
        match k {
            0 => slots[i] = Some((Box::pin(sleep(us_dur(d))), env::now() + d)),
            1 => {
                let at = Instant::now() + us_dur(d);
                let s = slots[i].as_mut().unwrap();
                s.0.as_mut().reset(at);
                s.1 = env::now() + d;
            }
            2 => {
                let _ = poll(slots[i].as_mut().unwrap().0.as_mut(), i);
            }
            3 => slots[i] = None,
            4 => {
                env::run_until(env::now() + 1_500);
            }
            _ => env::pass(3_000_000),
        }
        if k < 4 {
            ops += 1;
        }
        if k < 2 && d < HOUR {
            events += 1;
        }
    }
    // the deadlines within the idle time are events too
    let t0 = env::now();
    env::run_until(t0 + 60_000_000);
    let fired = env::n_fired() - f0;
    let budget = 6 * (ops + events) + 3 * 14 + 6;
    log!("{} callbacks, {} operations, 60 s idle: budget {}", fired, ops, budget);
    ensure!(fired <= budget, "{fired} host callbacks for {ops} timer operations and 60 s of idling");
    ensure!(env::pending() <= ops + 2, "{} host timers outstanding after {ops} timer operations", env::pending());
    // on to the far deadlines: still cheap, and on time
    let f1 = env::n_fired();
    let far = slots.iter().flatten().map(|s| s.1).filter(|d| *d > env::now()).max();
    if let Some(far) = far {
        // (the idle poll every five seconds would make a simulated day long)
        env::run_until(far.min(t0 + 2 * HOUR));
        let fired = env::n_fired() - f1;
        ensure!(fired <= 3 * 1440 + 6 * ops, "{fired} host callbacks in two idle hours");
    }
    let mut hs = Hasher::new(7);
    hs.add(fired as u64).add(env::pending() as u64).add(env::max_pending() as u64);
    hs.outcome();
    hs.state();
    let _ = base;
}
/// A long stream of operations: the driver's outstanding host timers stay few.
fn stream() {
    let h = env::pick(&[NODE, BROWSER]);
    let kind = choose(5);
    let gap = env::pick(&[0i64, 2_000, 900_000]);
    let n = env::bound() * 50;
    let _ = Base::new(&h);
    let keep = Box::pin(sleep(us_dur(HOUR)));
    let mut s = Box::pin(sleep(us_dur(HOUR)));
    let f0 = env::n_fired();
    let t0 = env::now();
    for i in 0..n {
        env::step();
        match kind {
            0 => s.as_mut().reset(Instant::now() + us_dur(HOUR)),
            1 => s = Box::pin(sleep(us_dur(HOUR))),
            2 => s = Box::pin(sleep(us_dur(1_000 + (i as i64 % 7) * 3_000))),
            3 => s.as_mut().reset(Instant::now() + us_dur(30 * DAY)),
            _ => s.as_mut().reset(Instant::now() + us_dur(if i % 2 == 0 { HOUR } else { 3_000 })),
        }
        let _ = poll(s.as_mut(), 1);
        if gap > 0 {
            env::run_until(env::now() + gap);
        }
        ensure!(env::pending() <= 24, "{} host timers outstanding after {} operations on two sleeps", env::pending(), i + 1);
    }
    let idle = ((env::now() - t0) / 5_000_000) as usize;
    let fired = env::n_fired() - f0;
    ensure!(fired <= 6 * (n + 1) + 25 * (idle + 1), "{fired} host callbacks for {n} operations");
    drop(keep);
    let mut hs = Hasher::new(8);
    hs.add(fired as u64).add(kind as u64).add(gap as u64);
    hs.outcome();
    hs.state();
}

pub const SUITES2: &[Suite] = &[
    Suite {
        prop: "C02", name: "backlog",
        what: "0..k earlier timers of 4 kinds, 3 fates, 4 spacings, with or without an idle phase, on 3 hosts; then a short sleep is woken on time, twice",
        unit: "earlier timers", variants: BOTH, min: 45, quick: 45, deep: 120, run: backlog,
    },
    Suite {
        prop: "C04", name: "orders",
        what: "every creation order of n sleeps, batched or one per turn, then one drop/two drops/reset/insertion at 4 moments, punctual or suspended host",
        unit: "sleeps", variants: PROD, min: 2, quick: 6, deep: 7, run: || many(false),
    },
    Suite {
        prop: "C04", name: "ties",
        what: "every assignment of 3 deadlines to n sleeps, batched or one per turn, then one change at 4 moments",
        unit: "sleeps", variants: PROD, min: 2, quick: 5, deep: 7, run: || many(true),
    },
    Suite {
        prop: "C04", name: "heaps",
        what: "every arrangement of n deadlines in a binary heap, then every removal, every move of one to any rank and every insertion; all complete at their own deadlines",
        unit: "sleeps", variants: PROD, min: 2, quick: 10, deep: 12, run: heaps,
    },
    Suite {
        prop: "C02", name: "scales",
        what: "two or three sleeps of 13 orders of magnitude (0 to 60 days) with pauses, then resets to any magnitude, drops, creations; 3 hosts; each is woken on time and never early",
        unit: "changes", variants: BOTH, min: 1, quick: 1, deep: 2,
        run: || scales(Oracle { early: true, late: true, reset: true, waker: true }),
    },
    Suite {
        prop: "C05", name: "wakers",
        what: "all histories on 2 sleeps polled with 2 wakers each; the latest waker is woken, dropped sleeps wake nobody",
        unit: "operations", variants: BOTH, min: 1, quick: 6, deep: 7,
        run: || history(Oracle { waker: true, ..Default::default() }, 2, 2, false),
    },
    Suite {
        prop: "C05", name: "reentrant",
        what: "timer operations performed inside wakers, all combinations, 3 sleeps",
        unit: "re-entrant operations", variants: BOTH, min: 1, quick: 4, deep: 5, run: reentrant,
    },
    Suite {
        prop: "C07", name: "economy",
        what: "all histories on 2 sleeps with deadlines up to 200 days, then a minute and up to two hours idle; callbacks and outstanding host timers stay within budget",
        unit: "operations", variants: BOTH, min: 1, quick: 4, deep: 5, run: economy,
    },
    Suite {
        prop: "C07", name: "stream",
        what: "long streams of resets and replacements, 5 kinds, 3 paces, 2 hosts: outstanding host timers stay few",
        unit: "x 50 operations", variants: BOTH, min: 4, quick: 4, deep: 20, run: stream,
    },
];
