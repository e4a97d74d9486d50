//! Helpers shared by the suites: environment profiles, the clock relation, polling.
use crate::env;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use wasmtimer::std::Instant;

/// A host profile: the clock's phase, what setTimeout(0) costs, what code costs.
#[derive(Clone, Copy)]
pub struct Host {
    pub start: i64,
    pub min_delay: i64,
    pub cb_cost: i64,
    pub read_cost: i64,
    /// the clock's resolution, when it is coarser than a microsecond
    pub res: i64,
}
/// node-like: timers take at least 1 ms
pub const NODE: Host = Host { start: 1_234_567, min_delay: 1_000, cb_cost: 0, read_cost: 0, res: 0 };
/// an ideal host whose setTimeout(0) is immediate, with a callback cost; its clock is about to pass 2^32 ms
pub const IDEAL: Host = Host { start: 4_294_967_293_400, min_delay: 0, cb_cost: 50, read_cost: 0, res: 0 };
/// ideal, a day after the start
pub const LONG: Host = Host { start: 86_400_000_400, ..IDEAL };
/// a browser whose page has just been loaded: nested timers take at least 4 ms, and time passes between clock reads
pub const BROWSER: Host = Host { start: 300, min_delay: 4_000, cb_cost: 300, read_cost: 7, res: 0 };

/// How late a punctual host may be in waking a task, by the statement's "a few
/// milliseconds": two setTimeout round trips and rounding.
pub fn late(h: &Host) -> i64 {
    4_000 + 2 * h.min_delay + 40 * h.read_cost + 2 * h.res
}
/// The clock truncates to microseconds (and through a double).
pub const EARLY: i64 = 2;

/// Relates wasmtimer's clock to the host's (both run at the same rate).
#[derive(Clone, Copy)]
pub struct Base {
    pub i: Instant,
    pub us: i64,
}
impl Base {
    pub fn new(h: &Host) -> Base {
        env::host(h.start, h.min_delay, h.cb_cost, h.read_cost);
        env::resolution(h.res);
        let i = Instant::now();
        Base { i, us: env::clock() }
    }
    /// Host time at which wasmtimer's clock reads `t`.
    pub fn us(&self, t: Instant) -> i64 {
        if t >= self.i {
            self.us + (t - self.i).as_micros() as i64
        } else {
            self.us - (self.i - t).as_micros() as i64
        }
    }
    pub fn at(&self, us: i64) -> Instant {
        if us >= self.us {
            self.i + us_dur(us - self.us)
        } else {
            self.i - us_dur(self.us - us)
        }
    }
}
/// The instant `us` before now, or the clock's origin if that is later.
pub fn ago(us: i64) -> Instant {
    let now = Instant::now();
    let mut d = us.min(env::now());
    loop {
        match now.checked_sub(us_dur(d)) {
            Some(i) => return i,
            None => d -= 1,
        }
    }
}
pub fn us_dur(us: i64) -> std::time::Duration {
    std::time::Duration::from_micros(us as u64)
}
pub fn ms_dur(ms: u64) -> std::time::Duration {
    std::time::Duration::from_millis(ms)
}

pub fn poll<F: Future + ?Sized>(f: Pin<&mut F>, w: usize) -> Poll<F::Output> {
    let wk = crate::waker::get(w);
    let mut cx = Context::from_waker(&wk);
    f.poll(&mut cx)
}

/// Starts the runtime and lets it become idle, so that the histories that follow
/// meet a driver that is already running; `false` leaves the very first use to them.
pub fn warm(yes: bool) {
    if yes {
        let s = Box::pin(wasmtimer::tokio::sleep(us_dur(1_500)));
        env::run_until(env::now() + 20_000 + 2 * env::res());
        crate::ensure!(s.is_elapsed(), "the first sleep of the program did not complete");
        drop(s);
        env::run_until(env::now() + 20_000 + 2 * env::res());
    }
}
