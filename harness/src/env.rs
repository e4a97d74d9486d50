//! The explorer's interface: nondeterministic choice, the virtual host, verdicts.
use std::fmt::Write;

mod raw {
    #[link(wasm_import_module = "verif_env")]
    extern "C" {
        pub fn choose(n: u32) -> u32;
        pub fn state(h: f64);
        pub fn outcome(h: f64);
        pub fn step();
        pub fn bound() -> u32;
        pub fn tracing() -> u32;
        pub fn log(p: *const u8, n: usize);
        pub fn fail(p: *const u8, n: usize) -> !;
        pub fn engine_error(p: *const u8, n: usize) -> !;
        pub fn panicked(p: *const u8, n: usize);
        pub fn host_now() -> f64;
        pub fn host_pass(us: f64);
        pub fn host_fire();
        pub fn host_pending() -> u32;
        pub fn host_next_due() -> f64;
        pub fn host_cfg(start_us: f64, min_delay_us: f64, cb_cost_us: f64, read_cost_us: f64);
        pub fn host_res(us: f64);
        pub fn host_date(ms: f64);
        pub fn host_stat(i: u32) -> f64;
        pub fn host_perf(ms: f64);
        pub fn expect_panic(on: u32);
    }
}

/// One of `n` alternatives; the explorer enumerates them all.
pub fn choose(n: usize) -> usize {
    if n == 0 {
        engine_error("choose(0)");
    }
    if n == 1 {
        return 0;
    }
    unsafe { raw::choose(n as u32) as usize }
}
pub fn pick<T: Copy>(v: &[T]) -> T {
    v[choose(v.len())]
}
/// The exploration bound of this run (its meaning is the suite's: usually depth).
pub fn bound() -> usize {
    unsafe { raw::bound() as usize }
}
/// Counts one transition of the system.
pub fn step() {
    unsafe { raw::step() }
}
pub fn tracing() -> bool {
    unsafe { raw::tracing() != 0 }
}

// Messages are formatted into a static buffer: tracing must not disturb the heap.
static mut BUF: [u8; 4096] = [0; 4096];
struct W(usize);
impl Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        unsafe {
            for b in s.bytes() {
                if self.0 < 4096 {
                    BUF[self.0] = b;
                    self.0 += 1;
                }
            }
        }
        Ok(())
    }
}
fn fmt(a: std::fmt::Arguments<'_>) -> (*const u8, usize) {
    let mut w = W(0);
    let _ = w.write_fmt(a);
    ((&raw const BUF) as *const u8, w.0)
}
pub fn log(a: std::fmt::Arguments<'_>) {
    if tracing() {
        let (p, n) = fmt(a);
        unsafe { raw::log(p, n) }
    }
}
pub fn fail(a: std::fmt::Arguments<'_>) -> ! {
    let (p, n) = fmt(a);
    unsafe { raw::fail(p, n) }
}
pub fn engine_error(s: &str) -> ! {
    unsafe { raw::engine_error(s.as_ptr(), s.len()) }
}
pub fn panicked(a: std::fmt::Arguments<'_>) {
    let (p, n) = fmt(a);
    unsafe { raw::panicked(p, n) }
}

#[macro_export]
macro_rules! log { ($($t:tt)*) => { $crate::env::log(format_args!($($t)*)) } }
#[macro_export]
macro_rules! fail { ($($t:tt)*) => { $crate::env::fail(format_args!($($t)*)) } }
/// The property's oracle: a violation unless the condition holds.
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { $crate::env::fail(format_args!($($t)*)) } } }

// ---- hashing of abstract states and outcomes (53 bits) ----
#[derive(Clone, Copy)]
pub struct Hasher(u64);
impl Hasher {
    pub fn new(tag: u64) -> Hasher {
        Hasher(0x9E37_79B9_7F4A_7C15u64.wrapping_mul(tag.wrapping_add(1)))
    }
    pub fn add(&mut self, v: u64) -> &mut Self {
        let mut z = self.0 ^ v.wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_add(self.0 << 6).wrapping_add(self.0 >> 2);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        self.0 = z ^ (z >> 31);
        self
    }
    fn f(self) -> f64 {
        (self.0 >> 11) as f64
    }
    /// Records an abstract state of model + environment.
    pub fn state(self) {
        unsafe { raw::state(self.f()) }
    }
    /// Records the observable result of a whole execution.
    pub fn outcome(self) {
        unsafe { raw::outcome(self.f()) }
    }
}

// ---- the virtual host ----
pub fn now() -> i64 {
    unsafe { raw::host_now() as i64 }
}
pub fn pass(us: i64) {
    if us > 0 {
        unsafe { raw::host_pass(us as f64) }
    }
}
pub fn pending() -> usize {
    unsafe { raw::host_pending() as usize }
}
pub fn next_due() -> Option<i64> {
    let d = unsafe { raw::host_next_due() };
    (d >= 0.0).then_some(d as i64)
}
/// Runs the first pending host timer now.
pub fn fire() {
    unsafe { raw::host_fire() }
}
/// Sets the host's start time and cost model (before the code under test first runs).
pub fn host(start_us: i64, min_delay_us: i64, cb_cost_us: i64, read_cost_us: i64) {
    unsafe { raw::host_cfg(start_us as f64, min_delay_us as f64, cb_cost_us as f64, read_cost_us as f64) }
}
static mut RES: i64 = 0;
/// The resolution of the host's clock (0: that of a double).
pub fn resolution(us: i64) {
    unsafe {
        RES = us;
        raw::host_res(us as f64)
    }
}
pub fn res() -> i64 {
    unsafe { RES }
}
/// What the host's clock shows, in whole microseconds.
pub fn clock() -> i64 {
    let r = unsafe { RES };
    let n = now();
    if r > 0 { n - n % r } else { n }
}
pub fn date(ms: f64) {
    unsafe { raw::host_date(ms) }
}
/// What performance.now() returns from now on (a virtual clock with fractions of
/// microseconds); negative: the virtual host's time again.
pub fn perf(ms: f64) {
    unsafe { raw::host_perf(ms) }
}
/// From here to `no_panic` the code must panic, which ends the execution.
pub fn must_panic() {
    unsafe { raw::expect_panic(1) }
}
pub fn no_panic(a: std::fmt::Arguments<'_>) -> ! {
    unsafe { raw::expect_panic(0) }
    fail(a)
}
pub fn n_timeouts() -> usize {
    unsafe { raw::host_stat(0) as usize }
}
pub fn n_fired() -> usize {
    unsafe { raw::host_stat(1) as usize }
}
pub fn max_pending() -> usize {
    unsafe { raw::host_stat(2) as usize }
}

/// A punctual event loop up to host time `t`: every timer runs when it is due.
pub fn run_until(t: i64) {
    run_until_with(t, &mut || {});
}
/// As `run_until`, calling `after` after every callback (the microtask checkpoint).
pub fn run_until_with(t: i64, after: &mut dyn FnMut()) {
    loop {
        match next_due() {
            Some(d) if d <= t && now() <= t => {
                if d > now() {
                    pass(d - now());
                }
                fire();
                after();
            }
            _ => break,
        }
    }
    if now() < t {
        pass(t - now());
    }
}
/// Runs the timers that are due right now, at most `max`; returns how many ran.
pub fn run_due_with(max: usize, after: &mut dyn FnMut()) -> usize {
    let mut n = 0;
    while n < max {
        match next_due() {
            Some(d) if d <= now() => {
                fire();
                after();
                n += 1;
            }
            _ => break,
        }
    }
    n
}
