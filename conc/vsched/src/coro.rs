//! User-level coroutines (x86-64 System V).
use std::arch::naked_asm;

const STACK: usize = 256 * 1024;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

static mut STACKS: [usize; crate::MAX_THREADS] = [0; crate::MAX_THREADS];
static mut BODIES: [Option<Box<dyn FnOnce()>>; crate::MAX_THREADS] = [None, None, None, None];

#[unsafe(naked)]
pub(crate) unsafe extern "C" fn switch(save: *mut usize, load: usize) {
    naked_asm!(
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp",
        "mov rsp, rsi",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
        "ret",
    )
}

#[unsafe(naked)]
unsafe extern "C" fn trampoline() {
    naked_asm!("mov rdi, rbx", "call {}", "ud2", sym enter)
}

#[allow(static_mut_refs)]
unsafe extern "C" fn enter(i: usize) -> ! {
    let body = BODIES[i].take().unwrap();
    crate::thread_main(body)
}

#[allow(static_mut_refs)]
pub(crate) fn prepare(i: usize, body: Box<dyn FnOnce()>) -> usize {
    unsafe {
        if STACKS[i] == 0 {
            // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
            let p = mmap(std::ptr::null_mut(), STACK + 4096, 3, 0x4022, -1, 0);
            assert!(p as isize != -1);
            STACKS[i] = p as usize + 4096;
        }
        BODIES[i] = Some(body);
        let top = (STACKS[i] + STACK) & !15;
        let sp = (top - 16 - 7 * 8) as *mut usize;
        for k in 0..4 {
            sp.add(k).write(0);
        }
        sp.add(4).write(i); // rbx
        sp.add(5).write(0); // rbp
        sp.add(6).write(trampoline as *const () as usize);
        sp as usize
    }
}
