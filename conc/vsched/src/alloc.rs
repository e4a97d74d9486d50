//! The global allocator: while the code under test runs, freed blocks are poisoned and kept until
//! the end of the execution, so that uses after free, double frees and leaks are seen.
use std::alloc::{GlobalAlloc, Layout, System};

const LIVE: u64 = 0x4c49_5645_b10c_b10c;
const FREED: u64 = 0xdead_f4ee_dead_f4ee;
const PLAIN: u64 = 0x504c_4149_4eb1_0c00;
pub const POISON: u8 = 0xdd;
const HEAD: usize = 64;

#[repr(C)]
struct Head {
    state: u64,
    size: usize,
    align: usize,
    prev: *mut Head,
    next: *mut Head,
    qnext: *mut Head,
    seq: usize,
}

pub struct Alloc;

static mut TRACK: bool = false;
static mut FIRST: *mut Head = std::ptr::null_mut();
static mut QUARANTINE: *mut Head = std::ptr::null_mut();
static mut LIVE_COUNT: usize = 0;
static mut SEQ: usize = 0;
static mut BAD: Option<&'static str> = None;

pub fn set_tracking(on: bool) {
    unsafe { TRACK = on }
}

/// Runs `f` (the harness's own code) with ordinary allocation.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let t = TRACK;
        TRACK = false;
        let r = f();
        TRACK = t;
        r
    }
}

/// Runs `f` with tracked allocation: code under test.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let t = TRACK;
        TRACK = true;
        let r = f();
        TRACK = t;
        r
    }
}

/// Blocks of the code under test that are live.
pub fn live() -> usize {
    unsafe { LIVE_COUNT }
}

fn real(l: Layout) -> (Layout, usize) {
    let a = l.align().max(16);
    let off = HEAD.max(a);
    (Layout::from_size_align(l.size() + off, a).unwrap(), off)
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (rl, off) = real(l);
        let p = System.alloc(rl);
        if p.is_null() {
            return p;
        }
        let h = p.add(off - HEAD) as *mut Head;
        (*h).size = l.size();
        (*h).align = l.align();
        if TRACK {
            (*h).state = LIVE;
            (*h).prev = std::ptr::null_mut();
            (*h).next = FIRST;
            SEQ += 1;
            (*h).seq = SEQ;
            if !FIRST.is_null() {
                (*FIRST).prev = h;
            }
            FIRST = h;
            LIVE_COUNT += 1;
        } else {
            (*h).state = PLAIN;
        }
        p.add(off)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (rl, off) = real(l);
        let h = p.sub(HEAD) as *mut Head;
        match (*h).state {
            PLAIN => System.dealloc(p.sub(off), rl),
            LIVE => {
                if (*h).size != l.size() || (*h).align != l.align() {
                    BAD = Some("a block is freed with another layout than its own");
                }
                if (*h).prev.is_null() {
                    FIRST = (*h).next;
                } else {
                    (*(*h).prev).next = (*h).next;
                }
                if !(*h).next.is_null() {
                    (*(*h).next).prev = (*h).prev;
                }
                LIVE_COUNT -= 1;
                (*h).state = FREED;
                std::ptr::write_bytes(p, POISON, l.size());
                (*h).qnext = QUARANTINE;
                QUARANTINE = h;
            }
            FREED => BAD = Some("memory is freed twice"),
            _ => BAD = Some("something that is no block is freed"),
        }
    }
}

pub(crate) fn begin() {
    unsafe {
        BAD = None;
        SEQ = 0;
        TRACK = false;
    }
}

/// True when `p` lies in a freed block of this execution.
pub fn in_freed(p: usize) -> bool {
    unsafe {
        let mut q = QUARANTINE;
        while !q.is_null() {
            let start = q as usize + HEAD;
            if p >= start && p < start + (*q).size {
                return true;
            }
            q = (*q).qnext;
        }
        false
    }
}

/// Ends an execution: takes back all its blocks, and reports what went wrong with memory.
pub(crate) fn end() -> Option<String> {
    unsafe {
        TRACK = false;
        let mut bad = BAD;
        while !QUARANTINE.is_null() {
            let h = QUARANTINE;
            QUARANTINE = (*h).qnext;
            let p = (h as *mut u8).add(HEAD);
            for k in 0..(*h).size {
                if *p.add(k) != POISON {
                    bad = bad.or(Some("freed memory was written to"));
                }
            }
            let (rl, off) = real(Layout::from_size_align((*h).size, (*h).align).unwrap());
            (*h).state = 0;
            System.dealloc(p.sub(off), rl);
        }
        // what is still live is what the code keeps for the life of the process
        while !FIRST.is_null() {
            let h = FIRST;
            FIRST = (*h).next;
            let p = (h as *mut u8).add(HEAD);
            let (rl, off) = real(Layout::from_size_align((*h).size, (*h).align).unwrap());
            (*h).state = 0;
            System.dealloc(p.sub(off), rl);
        }
        LIVE_COUNT = 0;
        bad.map(|s| s.to_string())
    }
}

pub fn corrupted() -> Option<&'static str> {
    unsafe { BAD }
}
