// Stand-in for the futex based parker, which Miri refuses (it passes a reference where the
// system call wants a `*mut u32`): a flag under the standard library's mutex and condition variable.
use std::sync::{Arc, Condvar, Mutex};
use std::thread;
use std::time::Instant;

pub struct ThreadParker(Arc<(Mutex<bool>, Condvar)>);

impl super::ThreadParkerT for ThreadParker {
    type UnparkHandle = UnparkHandle;

    const IS_CHEAP_TO_CONSTRUCT: bool = true;

    fn new() -> ThreadParker {
        ThreadParker(Arc::new((Mutex::new(false), Condvar::new())))
    }

    unsafe fn prepare_park(&self) {
        *self.0 .0.lock().unwrap() = true;
    }

    unsafe fn timed_out(&self) -> bool {
        *self.0 .0.lock().unwrap()
    }

    unsafe fn park(&self) {
        let mut parked = self.0 .0.lock().unwrap();
        while *parked {
            parked = self.0 .1.wait(parked).unwrap();
        }
    }

    unsafe fn park_until(&self, timeout: Instant) -> bool {
        let mut parked = self.0 .0.lock().unwrap();
        while *parked {
            let now = Instant::now();
            if timeout <= now {
                return false;
            }
            parked = self.0 .1.wait_timeout(parked, timeout - now).unwrap().0;
        }
        true
    }

    unsafe fn unpark_lock(&self) -> UnparkHandle {
        *self.0 .0.lock().unwrap() = false;
        UnparkHandle(self.0.clone())
    }
}

pub struct UnparkHandle(Arc<(Mutex<bool>, Condvar)>);

impl super::UnparkHandleT for UnparkHandle {
    unsafe fn unpark(self) {
        self.0 .1.notify_one();
    }
}

#[inline]
pub fn thread_yield() {
    thread::yield_now();
}
