//! A deterministic allocator for the wasm instance: power-of-two size classes
//! over a private arena. Freed blocks are poisoned, so that a use after free
//! reads garbage, and live bytes/blocks are counted, so that leaks are visible.
use std::alloc::{GlobalAlloc, Layout};

pub struct Arena;

const CLASSES: usize = 28;
static mut FREE: [usize; CLASSES] = [0; CLASSES];
static mut BUMP: usize = 0;
static mut LIMIT: usize = 0;
static mut LIVE_BYTES: usize = 0;
static mut LIVE_BLOCKS: usize = 0;

extern "C" {
    static __heap_base: u8;
    static __global_base: u8;
}

fn class(l: &Layout) -> usize {
    let n = l.size().max(l.align()).max(16).next_power_of_two();
    n.trailing_zeros() as usize
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = class(&l);
        if c >= CLASSES {
            return core::ptr::null_mut();
        }
        LIVE_BYTES += l.size();
        LIVE_BLOCKS += 1;
        if FREE[c] != 0 {
            let p = FREE[c];
            FREE[c] = *(p as *const usize);
            return p as *mut u8;
        }
        if BUMP == 0 {
            BUMP = (&raw const __heap_base as usize + 65535) & !65535;
            LIMIT = core::arch::wasm32::memory_size(0) * 65536;
            if BUMP > LIMIT {
                BUMP = LIMIT;
            }
        }
        let n = 1usize << c;
        let start = (BUMP + n - 1) & !(n - 1);
        let end = start + n;
        if end > LIMIT {
            let pages = ((end - LIMIT) / 65536 + 1).max(32);
            if core::arch::wasm32::memory_grow(0, pages) == usize::MAX {
                return core::ptr::null_mut();
            }
            LIMIT += pages * 65536;
        }
        BUMP = end;
        start as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = class(&l);
        LIVE_BYTES -= l.size();
        LIVE_BLOCKS -= 1;
        core::ptr::write_bytes(p, 0xDD, l.size().min(256));
        *(p as *mut usize) = FREE[c];
        FREE[c] = p as usize;
    }
}

pub fn live_bytes() -> usize {
    unsafe { LIVE_BYTES }
}
pub fn live_blocks() -> usize {
    unsafe { LIVE_BLOCKS }
}
pub fn arena_end() -> usize {
    unsafe { BUMP }
}
pub fn data_base() -> usize {
    (&raw const __global_base) as usize
}
