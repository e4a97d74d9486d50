//! The host: a virtual clock and one queue of timeouts per thread.
use crate::{alloc, point};

struct Callback {
    due: u64,
    seq: u64,
    f: Box<dyn FnOnce()>,
}

pub struct Host {
    /// Microseconds
    pub now: u64,
    seq: u64,
    queues: [Vec<Callback>; crate::MAX_THREADS],
    /// All timeouts run on thread 0
    pub routed: bool,
    /// Whose timeouts are set outside the explored phase
    pub actor: usize,
    pub set: u64,
    pub ran: u64,
}

static mut HOST: Host = Host { now: 0, seq: 0, queues: [const { Vec::new() }; crate::MAX_THREADS], routed: false, actor: 0, set: 0, ran: 0 };

#[allow(static_mut_refs)]
pub fn host() -> &'static mut Host {
    unsafe { &mut HOST }
}

pub(crate) fn reset() {
    let h = host();
    for q in h.queues.iter_mut() {
        for c in q.drain(..) {
            // abandoned: the allocator takes the memory back
            std::mem::forget(c.f);
        }
    }
    h.now = 1_000_000;
    h.seq = 0;
    h.actor = 0;
    h.set = 0;
    h.ran = 0;
}

/// Destroys the host, and with it the callbacks it still holds.
pub fn destroy() {
    for q in 0..crate::MAX_THREADS {
        loop {
            let c = alloc::untracked(|| host().queues[q].pop());
            match c {
                Some(c) => drop(c.f),
                None => break,
            }
        }
    }
}

pub fn now_ms() -> f64 {
    point("performance.now");
    host().now as f64 / 1000.0
}

pub fn set_timeout(f: Box<dyn FnOnce()>, ms: i32) {
    point("setTimeout");
    let h = host();
    let t = if h.routed {
        0
    } else if crate::current() == usize::MAX {
        h.actor
    } else {
        crate::current()
    };
    h.seq += 1;
    h.set += 1;
    let c = Callback { due: h.now + ms.max(0) as u64 * 1000, seq: h.seq, f };
    crate::log(|| format!("   timeout of {ms} ms for thread {t}"));
    alloc::untracked(|| h.queues[t].push(c));
}

pub fn advance(us: u64) {
    point("time passes");
    host().now += us;
    crate::log(|| format!("   time is {} us", host().now));
}

/// One turn of the event loop of a thread: the timeouts that are due by now.
pub fn turn(thread: usize) -> usize {
    point("turn");
    let mut n = 0;
    let last = host().seq;
    loop {
        let h = host();
        let q = &mut h.queues[thread];
        let mut best: Option<usize> = None;
        for (i, c) in q.iter().enumerate() {
            if c.due <= h.now && c.seq <= last && best.map_or(true, |b| (c.due, c.seq) < (q[b].due, q[b].seq)) {
                best = Some(i);
            }
        }
        let Some(b) = best else { return n };
        let c = q.swap_remove(b);
        n += 1;
        h.ran += 1;
        crate::log(|| "   timeout runs".to_string());
        alloc::tracked(c.f);
    }
}

pub fn next_due() -> Option<u64> {
    host().queues.iter().flatten().map(|c| c.due).min()
}

pub fn pending() -> usize {
    host().queues.iter().map(|q| q.len()).sum()
}
