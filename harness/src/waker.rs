//! Counting wakers: how often each was woken, and how many clones are alive.
use std::task::{RawWaker, RawWakerVTable, Waker};

pub const N: usize = 4_200;
static mut WOKEN: [u32; N] = [0; N];
static mut LIVE: [i32; N] = [0; N];
#[allow(clippy::type_complexity)]
static mut SEQ: u32 = 0;
static mut AT: [i64; N] = [0; N];
static mut ORD: [u32; N] = [0; N];
static mut HOOK: Option<fn(usize)> = None;
static mut DROP_HOOK: Option<fn(usize)> = None;

const VT: RawWakerVTable = RawWakerVTable::new(clone, wake, wake_by_ref, drop_w);

unsafe fn clone(p: *const ()) -> RawWaker {
    LIVE[p as usize] += 1;
    RawWaker::new(p, &VT)
}
unsafe fn note(p: *const ()) {
    WOKEN[p as usize] += 1;
    SEQ += 1;
    ORD[p as usize] = SEQ;
    AT[p as usize] = crate::env::now();
    crate::log!("    waker {} woken at {}", p as usize, crate::env::now());
    if let Some(h) = HOOK {
        h(p as usize)
    }
}
unsafe fn wake(p: *const ()) {
    if LIVE[p as usize] <= 0 {
        crate::fail!("waker {} used after its last clone was dropped", p as usize);
    }
    note(p);
    drop_w(p);
}
unsafe fn wake_by_ref(p: *const ()) {
    if LIVE[p as usize] <= 0 {
        crate::fail!("waker {} used after its last clone was dropped", p as usize);
    }
    note(p)
}
unsafe fn drop_w(p: *const ()) {
    LIVE[p as usize] -= 1;
    if LIVE[p as usize] < 0 {
        crate::fail!("waker {} dropped more often than it was cloned", p as usize);
    }
    if LIVE[p as usize] == 0 {
        if let Some(h) = DROP_HOOK {
            h(p as usize)
        }
    }
}

/// The waker with index `i` (one live clone: the caller's).
pub fn get(i: usize) -> Waker {
    unsafe {
        LIVE[i] += 1;
        Waker::from_raw(RawWaker::new(i as *const (), &VT))
    }
}
pub fn woken(i: usize) -> u32 {
    unsafe { WOKEN[i] }
}
/// Host time and global order of the latest wake.
pub fn woken_at(i: usize) -> i64 {
    unsafe { AT[i] }
}
pub fn order(i: usize) -> u32 {
    unsafe { ORD[i] }
}
/// Clones alive anywhere.
pub fn live(i: usize) -> i32 {
    unsafe { LIVE[i] }
}
/// Runs `h(waker)` synchronously inside every wake.
pub fn set_hook(h: Option<fn(usize)>) {
    unsafe { HOOK = h }
}
/// Runs `h(waker)` when the last clone of a waker is dropped.
pub fn set_drop_hook(h: Option<fn(usize)>) {
    unsafe { DROP_HOOK = h }
}
