//! Stackful coroutines (x86_64 SysV). Every simulated thread or async task is one; the scheduler
//! runs on the host stack. Switches happen only when the engine says so.

use std::panic::{catch_unwind, AssertUnwindSafe};

core::arch::global_asm!(
    ".text",
    ".global qcsim_switch",
    ".p2align 4",
    "qcsim_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);

extern "C" {
    fn qcsim_switch(save: *mut usize, to: usize);
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

const STACK: usize = 256 * 1024;
const GUARD: usize = 4096;

struct Stack {
    base: *mut u8,
}

impl Stack {
    fn new() -> Self {
        unsafe {
            // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
            let base = mmap(std::ptr::null_mut(), STACK + GUARD, 3, 0x2 | 0x20 | 0x4000, -1, 0);
            assert!(base as isize != -1, "mmap of a coroutine stack failed");
            assert_eq!(mprotect(base, GUARD, 0), 0);
            Stack { base }
        }
    }

    fn top(&self) -> usize {
        (self.base as usize + GUARD + STACK) & !15
    }
}

pub struct Coro {
    stack: Option<Stack>,
    rsp: usize,
    host_rsp: usize,
    body: Option<Box<dyn FnOnce()>>,
    pub finished: bool,
}

struct Pool(Vec<Stack>);

static mut POOL: Pool = Pool(Vec::new());
static mut STARTING: *mut Coro = std::ptr::null_mut();

#[allow(static_mut_refs)]
fn pool() -> &'static mut Pool {
    // Safety: the process runs the simulation on one OS thread
    unsafe { &mut POOL }
}

extern "C" fn entry() -> ! {
    unsafe {
        let me = STARTING;
        let body = (*me).body.take().unwrap();
        if catch_unwind(AssertUnwindSafe(body)).is_err() {
            // bodies catch everything themselves
            std::process::abort();
        }
        (*me).finished = true;
        qcsim_switch(&mut (*me).rsp, (*me).host_rsp);
        std::process::abort();
    }
}

impl Coro {
    pub fn new(body: Box<dyn FnOnce()>) -> Box<Coro> {
        let stack = pool().0.pop().unwrap_or_else(Stack::new);
        let top = stack.top();
        unsafe {
            let p = top as *mut usize;
            *p.sub(1) = 0;
            *p.sub(2) = entry as *const () as usize;
            for i in 3..=8 {
                *p.sub(i) = 0;
            }
        }
        Box::new(Coro {
            stack: Some(stack),
            rsp: top - 64,
            host_rsp: 0,
            body: Some(body),
            finished: false,
        })
    }

    /// Runs the coroutine until it calls [`Coro::suspend`] or ends. Host side only.
    pub fn resume(&mut self) {
        unsafe {
            STARTING = self;
            qcsim_switch(&mut self.host_rsp, self.rsp);
        }
    }

    /// Back to the host. Coroutine side only.
    pub fn suspend(&mut self) {
        unsafe { qcsim_switch(&mut self.rsp, self.host_rsp) }
    }

    /// Gives the stack back if the body ran to its end, leaks it otherwise.
    pub fn retire(mut self: Box<Self>) {
        if self.finished {
            pool().0.push(self.stack.take().unwrap());
        } else {
            std::mem::forget(self);
        }
    }
}
