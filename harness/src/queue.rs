//! Delay queues against a reference model (C11..C14).
use crate::env::{self, choose, pick, Hasher};
use crate::world::*;
use crate::{ensure, log, waker, Suite, BOTH, PROD};
use std::pin::Pin;
use std::task::{Context, Poll};
use wasmtimer::std::Instant;
use wasmtimer::tokio_util::delay_queue::{DelayQueue, Expired, Key};

#[derive(Clone, Copy, Default)]
pub struct Oracle {
    pub content: bool, // C11
    pub wake: bool,    // C12
    pub keys: bool,    // C13
    pub exact: bool,   // C14
}

const IDS: usize = 9_000;
static mut DROPS: [u8; IDS] = [0; IDS];
/// The payload: counts its drops.
#[derive(Debug)]
pub struct P(pub u32);
impl Drop for P {
    fn drop(&mut self) {
        unsafe { DROPS[self.0 as usize] += 1 }
    }
}
fn drops(id: u32) -> u8 {
    unsafe { DROPS[id as usize] }
}

pub struct Item {
    pub id: u32,
    pub key: Key,
    /// the deadline given, host time
    pub dl: i64,
    /// the reported deadline, whole milliseconds since the queue's start, lies in here
    lo: i64,
    hi: i64,
}

pub struct Q {
    pub q: Box<DelayQueue<P>>,
    pub o: Oracle,
    pub h: Host,
    pub base: Base,
    start: i64,
    pub items: Vec<Item>,
    pub stale: Vec<Key>,
    next_id: u32,
    pub pending: Option<(usize, u32)>,
    /// the last moment something changed that the consumer may have to react to
    since: i64,
    next_wk: usize,
    polls: usize,
    early: i64,
    /// the latest deadline among the items that left by expiring, in ms since the start
    processed: i64,
}

fn ceil_ms(us: i64) -> i64 {
    (us.max(0) + 999) / 1000
}

impl Q {
    pub fn new(h: Host, o: Oracle, cap: Option<usize>) -> Q {
        let base = Base::new(&h);
        warm(true);
        Q::create(h, o, cap, base)
    }
    pub fn create(h: Host, o: Oracle, cap: Option<usize>, base: Base) -> Q {
        let q = Box::new(match cap {
            None => DelayQueue::new(),
            Some(c) => DelayQueue::with_capacity(c),
        });
        if let Some(c) = cap {
            ensure!(q.capacity() >= c, "with_capacity({c}) gives capacity {}", q.capacity());
        }
        let start = base.us(Instant::now());
        Q { q, o, h, base, start, items: Vec::new(), stale: Vec::new(), next_id: 0, pending: None, since: env::now(), next_wk: 0, polls: 0, early: EARLY, processed: 0 }
    }
    fn range(&self, dl: i64) -> (i64, i64) {
        let lo = ceil_ms(dl - self.start);
        let now = ceil_ms(env::now() - self.start);
        // a deadline in the past may be reported as any moment since
        (lo, if dl <= env::now() { lo.max(now) } else { lo })
    }
    /// Inserts with a delay, or (negative) a deadline in the past.
    pub fn insert(&mut self, d: i64, by_instant: bool) -> usize {
        let id = self.next_id;
        self.next_id += 1;
        let dl = env::now() + d;
        let (lo, hi) = self.range(dl);
        let now = Instant::now();
        let key = if d < 0 {
            self.q.insert_at(P(id), now - us_dur(-d))
        } else if by_instant {
            self.q.insert_at(P(id), now + us_dur(d))
        } else {
            self.q.insert(P(id), us_dur(d))
        };
        log!("insert item {} for {} us: {:?} (now {}, ms {})", id, d, key, env::now(), (env::now() - self.start) / 1000);
        if self.o.keys {
            ensure!(!self.items.iter().any(|i| i.key == key), "{key:?} given out twice");
        }
        self.stale.retain(|k| *k != key);
        self.items.push(Item { id, key, dl, lo, hi });
        self.since = env::now();
        self.items.len() - 1
    }
    /// Whether a delay is within the supported horizon, which is counted from the
    /// last expiry the queue has processed (whose time is kept to 64 ms).
    pub fn fits(&self, d: i64) -> bool {
        ceil_ms(env::now() + d - self.start) - self.processed <= 64i64.pow(6) - 65
    }
    /// The largest delay, in ms, that fits.
    pub fn horizon(&self) -> i64 {
        64i64.pow(6) - 65 + self.processed - ceil_ms(env::now() - self.start)
    }
    fn gone(&mut self, i: usize) -> Item {
        let it = self.items.remove(i);
        if self.stale.len() < 3 {
            self.stale.push(it.key);
        }
        self.since = env::now();
        it
    }
    fn check_expired(&self, it: &Item, e: &Expired<P>, how: &str) {
        if self.o.content || self.o.keys {
            ensure!(e.get_ref().0 == it.id, "{how} {:?} gave item {} instead of {}", it.key, e.get_ref().0, it.id);
            ensure!(e.key() == it.key, "{how} item {} reports {:?} instead of {:?}", it.id, e.key(), it.key);
        }
        if self.o.content || self.o.exact {
            let us = self.base.us(e.deadline()) - self.start;
            let ms = (us + 1) / 1000;
            ensure!((us - ms * 1000).abs() <= EARLY, "reported deadline {us} us after the start is not a whole millisecond");
            ensure!(ms >= it.lo && ms <= it.hi, "{how} item {} reports a deadline of {ms} ms after the start, was given {}..{}", it.id, it.lo, it.hi);
        }
    }
    pub fn remove(&mut self, i: usize, try_: bool) {
        let k = self.items[i].key;
        log!("remove item {} ({:?})", self.items[i].id, k);
        let e = if try_ {
            match self.q.try_remove(&k) {
                Some(e) => e,
                None => {
                    ensure!(!self.o.keys && !self.o.content, "try_remove of a live key gave nothing");
                    return;
                }
            }
        } else {
            self.q.remove(&k)
        };
        self.check_expired(&self.items[i], &e, "removing");
        self.gone(i);
        let mut e = e;
        e.get_mut().0 += 0;
        drop(e.into_inner());
    }
    pub fn reset(&mut self, i: usize, d: i64) {
        let now = Instant::now();
        let dl = env::now() + d;
        log!("reset item {} to {} us (now {}, ms {})", self.items[i].id, d, env::now(), (env::now() - self.start) / 1000);
        let k = self.items[i].key;
        if d < 0 {
            self.q.reset_at(&k, now - us_dur(-d));
        } else if i & 1 == 0 {
            self.q.reset(&k, us_dur(d));
        } else {
            self.q.reset_at(&k, now + us_dur(d));
        }
        let (lo, hi) = self.range(dl);
        let it = &mut self.items[i];
        it.dl = dl;
        it.lo = lo;
        it.hi = hi;
        self.since = env::now();
    }
    pub fn clear(&mut self) {
        log!("clear");
        self.q.clear();
        self.since = env::now();
        self.stale.clear();
        for it in self.items.drain(..) {
            if self.o.content {
                ensure!(drops(it.id) == 1, "item {} was not dropped by clear", it.id);
            }
            if self.stale.len() < 3 {
                self.stale.push(it.key);
            }
        }
    }
    /// One poll. Returns true if it gave an item.
    pub fn poll(&mut self, w: usize) -> bool {
        let n = waker::woken(w);
        let wk = waker::get(w);
        let mut cx = Context::from_waker(&wk);
        self.polls += 1;
        // the Stream interface and the inherent method are the same thing
        let r = if self.polls % 2 == 0 {
            futures::Stream::poll_next(Pin::new(&mut *self.q), &mut cx)
        } else {
            self.q.poll_expired(&mut cx)
        };
        drop(wk);
        let now = env::now();
        match r {
            Poll::Pending => {
                log!("poll at {} (ms {}): pending", now, (now - self.start) / 1000);
                if self.o.wake {
                    ensure!(!self.items.is_empty(), "poll of an empty queue is pending");
                }
                self.pending = Some((w, n));
                false
            }
            Poll::Ready(None) => {
                log!("poll at {}: end", now);
                self.pending = None;
                if self.o.content || self.o.wake || self.o.keys {
                    ensure!(self.items.is_empty(), "end of stream with {} items present", self.items.len());
                }
                false
            }
            Poll::Ready(Some(e)) => {
                let id = e.get_ref().0;
                log!("poll at {} (ms {}): item {}", now, (now - self.start) / 1000, id);
                self.pending = None;
                let i = match self.items.iter().position(|i| i.id == id) {
                    Some(i) => i,
                    None => crate::fail!("item {id} was yielded, but is not in the queue"),
                };
                let it = &self.items[i];
                self.check_expired(it, &e, "yielding");
                if self.o.content || self.o.exact {
                    ensure!(now + self.early >= it.dl, "item {id} yielded at {now}, before its deadline {} (ms {}..{} after start)", it.dl, it.lo, it.hi);
                    for other in &self.items {
                        ensure!(other.hi >= it.lo, "item {id} (deadline {} ms) yielded before item {} ({} ms)", it.lo, other.id, other.hi);
                    }
                }
                self.processed = self.processed.max(self.items[i].lo);
                self.gone(i);
                drop(e);
                if self.o.content {
                    ensure!(drops(id) == 1, "item {id} dropped {} times after it was yielded and dropped", drops(id));
                }
                true
            }
        }
    }
    pub fn observe(&mut self) {
        if self.o.keys {
            ensure!(self.q.len() == self.items.len(), "len() is {} with {} items present", self.q.len(), self.items.len());
            ensure!(self.q.is_empty() == self.items.is_empty(), "is_empty() is {} with {} items present", self.q.is_empty(), self.items.len());
            ensure!(self.q.capacity() >= self.items.len(), "capacity() is {} with {} items present", self.q.capacity(), self.items.len());
        }
        if self.o.content {
            for it in &self.items {
                ensure!(drops(it.id) == 0, "item {} was dropped while in the queue", it.id);
            }
        }
        self.hash(50).state();
    }
    pub fn hash(&self, tag: u64) -> Hasher {
        let now = env::now();
        let mut h = Hasher::new(tag);
        for it in &self.items {
            h.add((it.dl - now) as u64).add(it.lo as u64);
        }
        h.add(self.pending.is_some() as u64).add(((now - self.start) % 64_000) as u64);
        h.add(self.q.capacity() as u64);
        h.add(env::pending() as u64).add(env::next_due().map(|d| d - now).unwrap_or(-1) as u64);
        h
    }
    /// An event-driven consumer on a punctual host, until the queue is empty.
    pub fn drain(&mut self) {
        self.since = self.since.max(env::now());
        log!("drain from {}", env::now());
        let late = late(&self.h) + 40 * self.h.cb_cost;
        // a consumer that waits on a queue which has become empty must see the end
        if let (true, true, Some((w, c))) = (self.o.wake, self.items.is_empty(), self.pending) {
            env::run_until(self.since + late);
            ensure!(waker::woken(w) > c, "the consumer pending on waker {w} was not woken when the queue became empty");
        }
        self.next_wk = 20;
        let mut spurious = 0;
        loop {
            if self.items.is_empty() {
                // the end is reported, at once
                self.next_wk += 1;
                let w = self.next_wk;
                self.poll(w);
                if self.o.wake || self.o.content {
                    ensure!(self.pending.is_none(), "poll of an empty queue is pending");
                }
                break;
            }
            if self.pending.is_none() {
                self.next_wk = (self.next_wk + 1) % 40 + 20;
                let w = self.next_wk;
                env::step();
                if self.poll(w) {
                    spurious = 0;
                }
                continue;
            }
            let (w, c) = self.pending.unwrap();
            let limit = self.items.iter().map(|i| i.dl).min().unwrap().max(self.since) + late;
            if waker::woken(w) > c {
                env::step();
                if self.poll(w) {
                    spurious = 0;
                } else {
                    // far deadlines are approached in steps
                    spurious += 1;
                    ensure!(spurious < 40, "the consumer is woken over and over without an item");
                }
                continue;
            }
            if env::now() >= limit {
                if self.o.wake || self.o.exact {
                    crate::fail!("the consumer pending on waker {w} was not woken by {} for the earliest deadline {}", env::now(), limit - late);
                }
                // another property's business; this one goes on by polling
                if !self.poll(w) {
                    env::run_until(env::now() + 1_000_000);
                    spurious += 1;
                    if spurious > 60 {
                        break;
                    }
                }
                continue;
            }
            match env::next_due() {
                Some(d) if d <= limit => {
                    env::pass(d - env::now());
                    env::fire();
                }
                _ => env::pass(limit - env::now()),
            }
        }
        self.observe();
        let mut h = Hasher::new(51);
        h.add((env::now() - self.since) as u64).add(self.polls as u64).add(env::n_fired() as u64).add(self.next_id as u64);
        h.outcome();
    }
    /// An event-driven consumer up to time `t`, or until the queue is empty.
    pub fn consume_until(&mut self, t: i64) {
        self.next_wk = 60;
        while !self.items.is_empty() {
            let woken = self.pending.map(|(w, n)| waker::woken(w) > n).unwrap_or(true);
            if woken {
                self.next_wk = (self.next_wk + 1) % 20 + 60;
                let w = self.next_wk;
                self.poll(w);
                continue;
            }
            match env::next_due() {
                Some(d) if d <= t => {
                    env::pass(d - env::now());
                    env::fire();
                }
                _ => {
                    env::pass(t - env::now());
                    break;
                }
            }
        }
    }
    /// Drops the queue: what was still in it is dropped, once.
    pub fn finish(self) {
        let o = self.o;
        let n = self.next_id;
        drop(self.q);
        if o.content {
            for id in 0..n {
                ensure!(drops(id) == 1, "item {id} was dropped {} times in all", drops(id));
            }
        }
    }
}

#[derive(Clone, Copy)]
enum Op {
    Insert(i64),
    Remove(usize, bool),
    Reset(usize, i64),
    Clear,
    Poll(usize),
    Turn,
    Lag(i64),
    Compact,
    Shrink,
    Reserve,
    TryStale(usize),
    Drop,
}

/// All histories of one queue with up to `max` items; then an event-driven consumer.
fn history(o: Oracle, max: usize, keys: bool) {
    let full = env::bound();
    let (h, depth) = match choose(if full > 1 { 2 } else { 1 }) {
        0 => (NODE, full),
        _ => (Host { start: 86_400_000_777, min_delay: 0, cb_cost: 50, read_cost: 0, res: 0 }, full - 1),
    };
    let mut w = Q::new(h, o, if keys { pick(&[None, Some(2)]) } else { None });
    for _ in 0..depth {
        let mut ops: Vec<Op> = Vec::new();
        if w.items.len() < max {
            if keys {
                ops.extend([Op::Insert(2_000), Op::Insert(90_000)]);
            } else {
                ops.extend([Op::Insert(0), Op::Insert(2_600), Op::Insert(70_000), Op::Insert(-2_000)]);
            }
        }
        for i in 0..w.items.len() {
            ops.push(Op::Remove(i, keys && i & 1 == 1));
            if keys {
                ops.push(Op::Reset(i, 5_000));
            } else {
                ops.extend([Op::Reset(i, 1_300), Op::Reset(i, 80_000), Op::Reset(i, -900)]);
            }
        }
        if w.pending.is_none() || w.items.iter().any(|i| i.dl <= env::now()) {
            ops.push(Op::Poll(0));
        }
        if o.wake && w.pending.is_some() {
            // a second task takes over the polling
            ops.push(Op::Poll(1));
        }
        if env::pending() > 0 {
            ops.push(Op::Turn);
        }
        ops.push(Op::Lag(3_100));
        if !keys {
            ops.push(Op::Lag(66_000));
        }
        if keys {
            ops.extend([Op::Compact, Op::Shrink, Op::Reserve]);
            for k in 0..w.stale.len() {
                ops.push(Op::TryStale(k));
            }
        }
        if !w.items.is_empty() {
            ops.push(Op::Clear);
            if o.content && !o.wake {
                ops.push(Op::Drop);
            }
        }
        env::step();
        match ops[choose(ops.len())] {
            Op::Insert(d) => {
                let b = w.items.len() & 1 == 1;
                w.insert(d, b);
            }
            Op::Remove(i, t) => w.remove(i, t),
            Op::Reset(i, d) => w.reset(i, d),
            Op::Clear => w.clear(),
            Op::Poll(k) => {
                w.poll(k);
            }
            Op::Turn => {
                let d = env::next_due().unwrap();
                env::pass((d - env::now()).min(100_000));
                env::fire();
            }
            Op::Lag(d) => env::pass(d),
            Op::Compact => {
                log!("compact");
                w.q.compact()
            }
            Op::Shrink => {
                log!("shrink");
                w.q.shrink_to_fit()
            }
            Op::Reserve => {
                log!("reserve");
                w.q.reserve(3);
                ensure!(w.q.capacity() >= w.items.len() + 3, "capacity {} after reserve(3) with {} items", w.q.capacity(), w.items.len());
            }
            Op::TryStale(k) => {
                let k = w.stale[k];
                log!("try_remove of stale {:?}", k);
                let r = w.q.try_remove(&k);
                ensure!(r.is_none(), "try_remove of absent {k:?} gave item {}", r.unwrap().get_ref().0);
            }
            Op::Drop => {
                w.finish();
                return;
            }
        }
        w.observe();
    }
    w.drain();
    w.finish();
}

/// All histories with deadlines in the past, starting from queues in particular states:
/// slots and backlogs that are partly drained, items that were overdue when inserted.
fn overdue(o: Oracle) {
    let depth = env::bound();
    let mut w = Q::new(NODE, o, None);
    let start = choose(8);
    let yielded = |w: &mut Q, n: usize| {
        for _ in 0..n {
            env::step();
            w.poll(0);
        }
    };
    // the next item, as soon as it is there, and without a poll before
    let fetch = |w: &mut Q| {
        let (n, t) = (w.items.len(), w.items.iter().map(|i| i.dl).min().unwrap_or(0));
        env::run_until(t);
        while w.items.len() == n && env::now() < t + 20_000 {
            env::run_until(env::now() + 300);
            w.poll(0);
        }
    };
    match start {
        0 => {}
        // two items of one millisecond, one of them yielded
        1 => {
            w.insert(2_600, false);
            w.insert(2_600, true);
            fetch(&mut w);
        }
        // one item, yielded, and no poll since
        2 => {
            w.insert(3_600, false);
            fetch(&mut w);
        }
        // a late host, and a task that has fetched one of its items
        3 => {
            w.insert(1_600, false);
            w.insert(3_600, false);
            w.insert(70_000, false);
            yielded(&mut w, 1);
            env::pass(9_000);
            env::run_due_with(4, &mut || {});
            yielded(&mut w, 1);
        }
        // overdue when inserted
        4 => {
            w.insert(-3_000, false);
            w.insert(-3_000, true);
            w.insert(4_000, true);
        }
        // used for 200 ms, waiting for an item on a higher level
        5 => {
            w.insert(130_000, false);
            w.insert(400_000, false);
            yielded(&mut w, 1);
            env::run_until(env::now() + 200_000);
            yielded(&mut w, 2);
        }
        // waiting for an item ahead, the timer still set for one that was overdue
        6 => {
            w.insert(-3_000, false);
            w.remove(0, false);
            w.insert(2_600, true);
            yielded(&mut w, 1);
        }
        // emptied, its end seen
        _ => {
            w.insert(70_000, false);
            env::run_until(env::now() + 72_000);
            yielded(&mut w, 2);
        }
    }
    w.observe();
    for _ in 0..depth {
        let mut ops: Vec<Op> = Vec::new();
        if w.items.len() < 4 {
            ops.extend([Op::Insert(-20_000), Op::Insert(-900), Op::Insert(1_300), Op::Insert(66_000)]);
        }
        for i in 0..w.items.len().min(3) {
            ops.push(Op::Remove(i, i & 1 == 1));
            ops.extend([Op::Reset(i, -20_000), Op::Reset(i, -1_900), Op::Reset(i, 2_300), Op::Reset(i, 66_000)]);
        }
        ops.extend([Op::Poll(0), Op::Lag(2_300)]);
        if !w.items.is_empty() {
            ops.push(Op::Clear);
        }
        env::step();
        match ops[choose(ops.len())] {
            Op::Insert(d) => {
                let b = w.items.len() & 1 == 1;
                w.insert(d, b);
            }
            Op::Remove(i, t) => w.remove(i, t),
            Op::Reset(i, d) => w.reset(i, d),
            Op::Clear => w.clear(),
            Op::Poll(k) => {
                w.poll(k);
            }
            Op::Lag(d) => {
                env::pass(d);
                env::run_due_with(4, &mut || {});
            }
            _ => unreachable!(),
        }
        w.observe();
    }
    w.drain();
    w.finish();
}

/// All histories that end with removing or resetting an item that is no longer there:
/// this is refused.
fn absent() {
    let depth = env::bound();
    let mut w = Q::new(NODE, Oracle { keys: true, content: true, ..Default::default() }, None);
    for _ in 0..depth {
        // refused now?
        if !w.stale.is_empty() && choose(2) == 1 {
            break;
        }
        let mut ops: Vec<Op> = Vec::new();
        if w.items.len() < 3 {
            ops.extend([Op::Insert(2_600), Op::Insert(70_000), Op::Insert(-900)]);
        }
        for i in 0..w.items.len() {
            ops.push(Op::Remove(i, i & 1 == 1));
            ops.push(Op::Reset(i, 5_300));
        }
        if w.pending.is_none() || w.items.iter().any(|i| i.dl <= env::now()) {
            ops.push(Op::Poll(0));
        }
        ops.extend([Op::Lag(4_100), Op::Compact]);
        if !w.items.is_empty() {
            ops.push(Op::Clear);
        }
        env::step();
        match ops[choose(ops.len())] {
            Op::Insert(d) => {
                let b = w.items.len() & 1 == 1;
                w.insert(d, b);
            }
            Op::Remove(i, t) => w.remove(i, t),
            Op::Reset(i, d) => w.reset(i, d),
            Op::Clear => w.clear(),
            Op::Poll(k) => {
                w.poll(k);
            }
            Op::Lag(d) => {
                env::pass(d);
                env::run_due_with(4, &mut || {});
            }
            Op::Compact => {
                log!("compact");
                w.q.compact()
            }
            _ => unreachable!(),
        }
        w.observe();
    }
    if w.stale.is_empty() {
        w.drain();
        return;
    }
    let k = w.stale[choose(w.stale.len())];
    let op = choose(3);
    log!("{} {k:?}, which is absent", if op == 0 { "remove" } else { "reset" });
    env::must_panic();
    match op {
        0 => drop(w.q.remove(&k)),
        1 => w.q.reset(&k, us_dur(1_700)),
        _ => {
            let at = Instant::now() - us_dur(500);
            w.q.reset_at(&k, at)
        }
    }
    env::no_panic(format_args!("removing or resetting an absent {k:?} was not refused"))
}

/// Long sequences of key operations on many items with compactions at chosen points.
fn churn() {
    let n = env::bound();
    let mut w = Q::new(NODE, Oracle { keys: true, content: true, ..Default::default() }, None);
    let stride = pick(&[1usize, 2, 3, 5]);
    let compact = choose(4); // never, after the inserts, between removals, before reinserts
    let more = [0, 7, 900, 5_000][compact]; // reserved with the first items in
    let shrink = choose(2) == 1;
    let rounds = 3;
    for r in 0..rounds {
        for k in 0..n {
            env::step();
            w.insert(1_000 * (1 + ((k * 7 + r) % 11) as i64) + 20_000, k & 1 == 0);
        }
        if compact == 1 {
            w.q.compact();
        }
        w.observe();
        if r == 0 && more > 0 {
            log!("reserve {more}");
            w.q.reserve(more);
            ensure!(w.q.capacity() >= w.items.len() + more, "capacity {} after reserve({more}) with {} items", w.q.capacity(), w.items.len());
        }
        let first = choose(n.min(4));
        let mut i = first;
        let mut removed = 0;
        while i < w.items.len() && removed < n {
            env::step();
            w.remove(i, removed & 1 == 1);
            removed += 1;
            if compact == 2 && removed == 2 {
                w.q.compact();
            }
            i += stride - 1;
            w.observe();
        }
        if compact == 3 {
            w.q.compact();
        }
        if shrink {
            w.q.shrink_to_fit();
        }
        for i in 0..w.items.len() {
            if i % 3 == 0 {
                env::step();
                w.reset(i, 30_000 + 500 * i as i64);
            }
        }
        w.observe();
        if choose(2) == 1 {
            env::run_until(env::now() + 26_000);
            let mut tries = 0;
            while tries < 4 * n && !w.items.is_empty() {
                env::step();
                w.poll(0);
                env::run_until(env::now() + 200);
                tries += 1;
            }
            w.observe();
        }
    }
    w.drain();
    w.finish();
}

/// Which of n items go.
fn goes(pattern: usize, i: usize, n: usize) -> bool {
    match pattern {
        0 => i % 2 == 1,
        1 => i % 2 == 0,
        2 => i < n / 2,
        3 => i + 1 < n,
        4 => i >= n / 2,
        _ => i >= n / 2 && i < n / 2 + n / 4,
    }
}
/// Keys by the hundred: n insertions, removals, compaction, insertions again, twice over.
fn turnover() {
    let top = env::bound();
    let mut sizes = vec![1usize, 2, 3, 5, 6];
    for k in 2..=top {
        sizes.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let mut w = Q::new(NODE, Oracle { keys: true, content: true, ..Default::default() }, None);
    // at three steps of twice the size, only a few of the histories
    sizes.extend([1 << (top + 1), (1 << (top + 2)) + 3, 1 << (top + 3)]);
    let n = pick(&sizes);
    let large = n > (1 << top) + 1;
    let mut add = n;
    for _ in 0..2 {
        for k in 0..add {
            env::step();
            w.insert(20_000 + 1_000 * ((k * 7) % 61) as i64, k & 1 == 0);
        }
        w.observe();
        let p = if large { pick(&[0, 5]) } else { choose(6) };
        let live = w.items.len();
        for i in (0..live).rev() {
            if goes(p, i, live) {
                env::step();
                w.remove(i, i % 3 == 0);
            }
        }
        match if large { 1 } else { choose(3) } {
            0 => {}
            1 => w.q.compact(),
            _ => {
                w.q.compact();
                w.q.shrink_to_fit();
            }
        }
        w.observe();
        add = if large { n / 2 } else { pick(&[n / 2, n, 2 * n]) };
    }
    for k in 0..add.min(n) {
        env::step();
        w.insert(30_000 + 1_000 * (k % 13) as i64, k & 1 == 0);
    }
    w.observe();
    // every key still designates its own item
    for i in 0..w.items.len() {
        let it = &w.items[i];
        if i % 3 == 0 {
            w.reset(i, 40_000 + (i % 5) as i64 * 1_000);
        } else if i % 3 == 1 && it.dl % 2 == 0 {
            w.reset(i, 25_000);
        }
    }
    for i in (0..w.items.len()).rev() {
        if i % 4 == 1 {
            w.remove(i, i % 8 == 1);
        }
    }
    w.observe();
    w.drain();
    w.finish();
}

/// n items with every assignment of 4 deadlines; the consumer sleeps until woken.
fn consumer() {
    let n = env::bound();
    let h = pick(&[NODE, LONG]);
    let h = Host { read_cost: 0, ..h };
    let mut w = Q::new(h, Oracle { content: true, wake: true, keys: true, ..Default::default() }, None);
    let polled_at = choose(n + 1);
    let turn = choose(2) == 1;
    for k in 0..n {
        if k == polled_at {
            w.poll(0);
        }
        env::step();
        let d = pick(&[0i64, 1_900, 5_000, 64_500, 70_100]);
        w.insert(d, k & 1 == 1);
        if turn {
            env::run_until(env::now() + 1_200);
        }
    }
    let k = choose(3 * w.items.len() + 1);
    if k > 0 {
        let (i, what) = ((k - 1) / 3, (k - 1) % 3);
        match what {
            0 => w.remove(i, false),
            1 => w.reset(i, 400),
            _ => w.reset(i, 69_000),
        }
    }
    if choose(2) == 1 {
        env::pass(pick(&[3_000i64, 80_000]));
    }
    w.observe();
    w.drain();
    w.finish();
}

// ---------------------------------------------------------------- C14
/// Delays and ages around the wheel's level boundaries.
fn points(full: bool) -> Vec<i64> {
    let mut v: Vec<i64> = vec![0, 1, 2, 33];
    for k in 1..6u32 {
        let b = 64i64.pow(k);
        v.extend([b - 1, b, b + 1]);
        if full {
            v.extend([2 * b - 1, 2 * b, 63 * b, 63 * b + 1, b + b / 64, 33 * b + 7]);
        }
    }
    v.extend([64i64.pow(6) - 1]);
    if full {
        v.extend([64i64.pow(6) - 2, 40 * 64i64.pow(5) + 12345]);
    }
    v.retain(|x| *x < 64i64.pow(6));
    v
}
/// Brings the queue to an age by consuming items, as a queue in use does.
fn age(w: &mut Q, ms: i64) {
    let mut left = ms;
    while left > 0 {
        let step = left.min(w.horizon());
        w.insert(step * 1000, false);
        w.drain();
        left = ms - (env::now() - w.start) / 1000;
    }
}
fn ages() -> Vec<i64> {
    let m = 64i64.pow(6);
    vec![0, 1, 63, 64, 100, 4_095, 4_096, 262_143, 262_150, 16_777_215, 16_777_216, 1_073_741_823, 1_073_741_830, 4_294_967_290, 33_000_000_000, m - 70, m - 1, m + 3, 2 * m - 2, 2 * m + 4_000]
}
fn pick_fit(w: &Q, v: &[i64]) -> i64 {
    let d = pick(v) * 1000;
    if w.fits(d) {
        d
    } else {
        w.horizon() * 1000
    }
}
fn wheel() {
    let b = env::bound();
    let h = Host { start: 5_000_250, min_delay: 1_000, cb_cost: 0, read_cost: 0, res: 0 };
    let mut w = Q::new(h, Oracle { content: true, wake: true, keys: true, exact: true }, None);
    let ages = ages();
    let a = ages[choose(if b > 2 { ages.len() } else { ages.len() })];
    if a > 0 {
        age(&mut w, a);
    }
    let pts = points(b > 1);
    // a phase within the millisecond
    env::pass(if b == 2 { pick(&[0i64, 650]) } else { pick(&[0i64, 300, 999]) });
    let d1 = pick_fit(&w, &pts);
    env::step();
    w.insert(d1, false);
    if b > 1 && choose(2) == 1 {
        w.poll(0);
    }
    match choose(if b > 1 { 5 } else { 3 }) {
        0 => {}
        1 => {
            // a second item
            let d2 = pick_fit(&w, &pts);
            env::step();
            w.insert(d2, true);
        }
        2 => {
            env::step();
            if !w.items.is_empty() {
                let d2 = pick_fit(&w, &pts);
                w.reset(0, d2);
            }
        }
        3 => {
            // later, near and before the deadline, move or remove it
            let t = pick(&[d1 / 2, d1 - 64_000, d1 - 1_500, d1 - d1 / 64]);
            if t > 0 {
                w.consume_until(env::now() + t);
            }
            env::step();
            if !w.items.is_empty() {
                let d2 = pick_fit(&w, &points(false));
                w.reset(0, d2);
            }
        }
        _ => {
            let d2 = pick_fit(&w, &points(false));
            w.insert(d2, true);
            let t = pick(&[d1 / 2, d1 - 64_000, d1 - 1_500]);
            if t > 0 {
                w.consume_until(env::now() + t);
            }
            env::step();
            if !w.items.is_empty() {
                w.remove(0, true);
            }
        }
    }
    w.observe();
    w.drain();
    w.finish();
}
/// The same after decades of use: one or two items and a change, at very great ages.
fn ancient() {
    let n = env::bound();
    let h = Host { start: 5_000_250, min_delay: 1_000, cb_cost: 0, read_cost: 0, res: 0 };
    let mut w = Q::new(h, Oracle { content: true, wake: true, keys: true, exact: true }, None);
    let y = 1i64 << pick(&[38, 39, 40, 41]);
    age(&mut w, y + pick(&[-66i64, -1, 0, 5, 4_099]));
    for k in 0..n {
        let pts = points(false);
        let d = pick_fit(&w, &pts);
        env::pass(pick(&[0, 650]));
        if k > 0 && !w.items.is_empty() && choose(2) == 1 {
            w.reset(0, d);
        } else {
            w.insert(d, k & 1 == 1);
        }
        w.poll(k);
    }
    w.observe();
    w.drain();
    w.finish();
}
/// Every delay in a range, at every age in a range: the first levels exhaustively.
fn dense() {
    let n = 64 * env::bound() as i64 + 6;
    let h = Host { start: 5_000_000, min_delay: 1_000, cb_cost: 0, read_cost: 0, res: 0 };
    let mut w = Q::new(h, Oracle { content: true, wake: true, exact: true, ..Default::default() }, None);
    let a = choose(n as usize) as i64;
    if a > 0 {
        age(&mut w, a);
    }
    let d = choose(2 * n as usize) as i64;
    env::step();
    w.insert(d * 1000, false);
    let m = choose(3);
    if m == 1 {
        w.insert((2 * n - d) * 1000, false);
    } else if m == 2 {
        w.insert(64_000, false);
        w.poll(0);
        w.reset(0, (d / 2) * 1000 + 400);
    }
    w.drain();
    w.finish();
}

pub const SUITES: &[Suite] = &[
    Suite {
        prop: "C11", name: "history",
        what: "all histories of insert/remove/reset/clear/poll/drop on a queue of up to 3 items, host turns and lag, 2 hosts; then an event-driven consumer",
        unit: "operations", variants: BOTH, min: 1, quick: 5, deep: 6,
        run: || history(Oracle { content: true, ..Default::default() }, 3, false),
    },
    Suite {
        prop: "C11", name: "overdue",
        what: "all histories of insert/remove/reset with deadlines up to 20 ms in the past and 2 or 66 ms ahead, clear, poll and host turns, from 8 states of a queue: slots and backlogs partly drained, items overdue when inserted, higher levels in use",
        unit: "operations", variants: BOTH, min: 1, quick: 4, deep: 5,
        run: || overdue(Oracle { content: true, ..Default::default() }),
    },
    Suite {
        prop: "C11", name: "consumer",
        what: "n items with every assignment of 5 deadlines, one removal or reset, polled before or after, punctual or lagging host",
        unit: "items", variants: PROD, min: 1, quick: 4, deep: 6, run: consumer,
    },
    Suite {
        prop: "C12", name: "history",
        what: "all histories of insert/remove/reset/clear/poll with 2 tasks on a queue of up to 3 items; then the pending task is woken for the earliest item",
        unit: "operations", variants: BOTH, min: 1, quick: 6, deep: 7,
        run: || history(Oracle { wake: true, ..Default::default() }, 3, false),
    },
    Suite {
        prop: "C12", name: "overdue",
        what: "all histories of insert/remove/reset with deadlines up to 20 ms in the past and 2 or 66 ms ahead, clear, poll and host turns, from 8 states of a queue: slots and backlogs partly drained, items overdue when inserted, higher levels in use",
        unit: "operations", variants: BOTH, min: 1, quick: 4, deep: 5,
        run: || overdue(Oracle { wake: true, ..Default::default() }),
    },
    Suite {
        prop: "C12", name: "consumer",
        what: "n items with every assignment of 5 deadlines, one removal or reset, polled before or after, punctual or lagging host",
        unit: "items", variants: PROD, min: 1, quick: 4, deep: 6, run: consumer,
    },
    Suite {
        prop: "C13", name: "history",
        what: "all histories with compaction, shrinking, reservation, absent keys, on a queue of up to 4 items",
        unit: "operations", variants: BOTH, min: 1, quick: 6, deep: 7,
        run: || history(Oracle { keys: true, ..Default::default() }, 4, true),
    },
    Suite {
        prop: "C13", name: "overdue",
        what: "all histories of insert/remove/reset with deadlines up to 20 ms in the past and 2 or 66 ms ahead, clear, poll and host turns, from 8 states of a queue: slots and backlogs partly drained, items overdue when inserted, higher levels in use",
        unit: "operations", variants: BOTH, min: 1, quick: 4, deep: 5,
        run: || overdue(Oracle { keys: true, ..Default::default() }),
    },
    Suite {
        prop: "C13", name: "turnover",
        what: "n insertions (n around powers of two up to 2^bound, in a few histories up to 2^(bound+3)), 6 patterns of removals, compaction and shrinking or not, n/2 to 2n more insertions, all that twice: every key designates its own item to the end",
        unit: "log2 of items", variants: BOTH, min: 2, quick: 7, deep: 9, run: turnover,
    },
    Suite {
        prop: "C13", name: "churn",
        what: "three rounds of n insertions, strided removals, compaction at 4 points, shrinking, resets and draining",
        unit: "items per round", variants: BOTH, min: 1, quick: 24, deep: 60, run: churn,
    },
    Suite {
        prop: "C13", name: "absent",
        what: "all histories of a queue of up to 3 items that end with removing or resetting an absent key, which is refused",
        unit: "operations", variants: BOTH, min: 1, quick: 5, deep: 6, run: absent,
    },
    Suite {
        prop: "C14", name: "wheel",
        what: "delays around every level boundary of the wheel at 20 queue ages up to four years, with a second item, resets and removals at several moments",
        unit: "detail", variants: BOTH, min: 1, quick: 2, deep: 3, run: wheel,
    },
    Suite {
        prop: "C14", name: "ancient",
        what: "queues that have been in use for 8 to 70 years: n items or resets with delays around every level boundary",
        unit: "changes", variants: PROD, min: 1, quick: 2, deep: 2, run: ancient,
    },
    Suite {
        prop: "C14", name: "dense",
        what: "every delay below 2n ms at every queue age below n ms, with a second item or a reset",
        unit: "x 64 ms", variants: BOTH, min: 1, quick: 3, deep: 8, run: dense,
    },
];
