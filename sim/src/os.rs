//! The few system calls the worker processes need.

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

const SIGVTALRM: i32 = 26;

/// Zeroed memory shared with forked children, or backed by a file.
pub fn shared(len: usize, file: Option<&std::fs::File>) -> *mut u8 {
    use std::os::fd::AsRawFd;
    // PROT_READ|PROT_WRITE; MAP_SHARED (|MAP_ANONYMOUS)
    let (flags, fd) = match file {
        Some(f) => (1, f.as_raw_fd()),
        None => (1 | 0x20, -1),
    };
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, flags, fd, 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}

/// No core files, and memory that's never given back ends in a failed allocation.
pub fn limits() {
    unsafe {
        // RLIMIT_CORE, RLIMIT_AS
        setrlimit(4, &[0, 0]);
        setrlimit(9, &[6 << 30, 6 << 30]);
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Died {
    Exit(i32),
    Signal(i32),
}

/// Runs `f` in a child process that gets `secs` of CPU time.
pub fn in_child(secs: i64, f: impl FnOnce() -> i32) -> Died {
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            limits();
            // ITIMER_VIRTUAL; the default action of SIGVTALRM ends the process
            signal(SIGVTALRM, 0);
            setitimer(1, &[0, 0, secs, 0], std::ptr::null_mut());
            let code = f();
            _exit(code);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        if st & 0x7f == 0 {
            Died::Exit((st >> 8) & 0xff)
        } else {
            Died::Signal(st & 0x7f)
        }
    }
}

pub const HUNG: Died = Died::Signal(SIGVTALRM);

static mut BEAT: *const u64 = std::ptr::null();
static mut LAST: u64 = u64::MAX;
static mut SAME: u32 = 0;
pub const HUNG_EXIT: i32 = 97;

extern "C" fn on_tick(_: i32) {
    unsafe {
        let v = std::ptr::read_volatile(BEAT);
        if v == LAST {
            SAME += 1;
            if SAME >= 15 {
                _exit(HUNG_EXIT);
            }
        } else {
            LAST = v;
            SAME = 0;
        }
    }
}

/// Ends this process when the counter stands still for 15 s of CPU time.
pub fn watchdog(beat: *const u64) {
    unsafe {
        BEAT = beat;
        signal(SIGVTALRM, on_tick as extern "C" fn(i32) as usize);
        setitimer(1, &[1, 0, 1, 0], std::ptr::null_mut());
    }
}
