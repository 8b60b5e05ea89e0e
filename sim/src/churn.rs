//! Endless churn: plain keys and values, thousands of operations, and the allocator's word for how
//! much memory the cache holds.

use crate::engine::{engine, Fault, Mode};
use crate::exec::*;
use crate::scen::*;
use crate::types::*;
use quick_cache::sync::GuardResult;
use quick_cache::{sync, unsync, Weighter};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

/// Tells what the cache allocated from what the simulator did: each allocation is preceded by a
/// word that says whose it is.
pub struct Counting;
/// Whether allocations are the cache's at the moment. The engine turns it off for itself.
static mut MINE: bool = false;
static mut LIVE: i64 = 0;
static mut BLOCKS: i64 = 0;

pub fn set_mine(on: bool) -> bool {
    // Safety: only ever set by the one OS thread simulations run on, and false elsewhere
    unsafe { std::mem::replace(&mut *std::ptr::addr_of_mut!(MINE), on) }
}

const HEAD: usize = 16;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > HEAD {
            return System.alloc(l);
        }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + HEAD, HEAD));
        if p.is_null() {
            return p;
        }
        *(p as *mut u64) = MINE as u64;
        if MINE {
            LIVE += l.size() as i64;
            BLOCKS += 1;
        }
        p.add(HEAD)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > HEAD {
            return System.dealloc(p, l);
        }
        let p = p.sub(HEAD);
        if *(p as *mut u64) != 0 {
            LIVE -= l.size() as i64;
            BLOCKS -= 1;
        }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + HEAD, HEAD))
    }
}

fn live() -> (i64, i64) {
    unsafe { (LIVE, BLOCKS) }
}

/// Everything weighs the same.
#[derive(Clone)]
struct Each(u64);

impl Weighter<u64, u64> for Each {
    fn weight(&self, _: &u64, _: &u64) -> u64 {
        self.0
    }
}

type S = sync::Cache<u64, u64, Each, H>;
type U = unsync::Cache<u64, u64, Each, H>;

/// The key of the `n`th operation: fresh, or out of `span` keys.
fn key(o: &Op, task: usize, n: u64) -> u64 {
    if o.k == 0 {
        ((task as u64 + 1) << 40) | n
    } else {
        (n.wrapping_mul(7)) % o.k as u64
    }
}

fn injected<T>(r: std::thread::Result<T>) {
    if let Err(p) = r {
        if !p.is::<Injected>() {
            resume_unwind(p);
        }
    }
}

fn sync_op(c: &S, o: &Op, task: usize, n: u64) {
    let k = key(o, task, n);
    match o.code {
        Code::Get => drop(c.get(&k)),
        Code::Insert => c.insert(k, n),
        Code::Replace => drop(c.replace(k, n, n % 2 == 0)),
        Code::Remove => drop(c.remove(&k)),
        Code::Retain => c.retain(|k, _| k % 3 != 0),
        Code::Clear => c.clear(),
        Code::Reserve => c.reserve(8),
        Code::Gvog => match c.get_value_or_guard(&k, (n % 4 != 0).then_some(std::time::Duration::from_micros(20))) {
            GuardResult::Guard(g) => match {
                // others get to wait
                (0..o.c * 4).for_each(|_| engine().preempt());
                o.b
            } {
                FIN_INSERT | FIN_INSERT_LC => drop(g.insert(n)),
                FIN_PANIC => {
                    engine().count(Fault::GuardPanic);
                    injected(catch_unwind(AssertUnwindSafe(move || {
                        let _g = g;
                        resume_unwind(Box::new(Injected))
                    })))
                }
                _ => {
                    engine().count(Fault::GuardDropped);
                    if n % 2 == 0 {
                        // invalidated, then abandoned
                        c.remove(&k);
                    }
                    drop(g)
                }
            },
            GuardResult::Timeout => engine().count(Fault::WaitTimeout),
            GuardResult::Value(_) => (),
        },
        Code::Goi => injected(catch_unwind(AssertUnwindSafe(|| {
            c.get_or_insert_with(&k, || match o.b {
                FIN_INSERT | FIN_INSERT_LC => Ok(n),
                FIN_PANIC => {
                    engine().count(Fault::LoaderPanic);
                    resume_unwind(Box::new(Injected))
                }
                _ => {
                    engine().count(Fault::LoaderError);
                    Err(())
                }
            })
        }))),
        Code::GoiAsync => {
            let mut polls = 0;
            let mut fut = Box::pin(c.get_or_insert_async(&k, std::future::poll_fn(|_| {
                polls += 1;
                match o.b {
                    FIN_INSERT | FIN_INSERT_LC if polls > 1 => Poll::Ready(Ok(n)),
                    FIN_PANIC => {
                        engine().count(Fault::LoaderPanic);
                        resume_unwind(Box::new(Injected))
                    }
                    FIN_DROP if polls > 1 => {
                        engine().count(Fault::LoaderError);
                        Poll::Ready(Err(()))
                    }
                    _ => Poll::Pending,
                }
            })));
            injected(catch_unwind(AssertUnwindSafe(|| {
                for _ in 0..o.c {
                    if fut.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_ready() {
                        return;
                    }
                    engine().preempt();
                }
                engine().count(Fault::Cancel);
            })));
            drop(fut);
        }
        _ => (),
    }
}

fn unsync_op(c: &mut U, o: &Op, n: u64) {
    let k = key(o, 0, n);
    match o.code {
        Code::Get => drop(c.get(&k)),
        Code::Insert => c.insert(k, n),
        Code::Replace => drop(c.replace(k, n, n % 2 == 0)),
        Code::Remove => drop(c.remove(&k)),
        Code::Retain => c.retain(|k, _| k % 3 != 0),
        Code::Clear => c.clear(),
        Code::Reserve => c.reserve(8),
        Code::Gvog => match c.get_ref_or_guard(&k) {
            Ok(_) => (),
            Err(g) => match o.b {
                FIN_INSERT | FIN_INSERT_LC => g.insert(n),
                _ => {
                    engine().count(Fault::GuardDropped);
                    drop(g)
                }
            },
        },
        Code::Goi | Code::GoiAsync => injected(catch_unwind(AssertUnwindSafe(|| {
            let with = || match o.b {
                FIN_INSERT | FIN_INSERT_LC => Ok(n),
                FIN_PANIC => {
                    engine().count(Fault::LoaderPanic);
                    resume_unwind(Box::new(Injected))
                }
                _ => {
                    engine().count(Fault::LoaderError);
                    Err(())
                }
            };
            if o.code == Code::Goi {
                drop(c.get_or_insert_with(&k, with));
            } else {
                drop(c.get_mut_or_insert_with(&k, with));
            }
        }))),
        _ => (),
    }
}

enum Any {
    S(Rc<S>),
    U(Rc<RefCell<U>>),
}

pub fn run_churn(s: &Scenario, mode: &Mode) -> RunOut {
    start_run(s, mode);
    let cfg = &s.cfg;
    set_mine(false);
    let base = live();
    let weight = cfg.p1.max(1) as u64;
    set_mine(true);
    let cache = if cfg.variant == 0 {
        Any::S(Rc::new(S::with_options(options(cfg), Each(weight), H, Default::default())))
    } else {
        Any::U(Rc::new(RefCell::new(U::with_options(options(cfg), Each(weight), H, Default::default()))))
    };
    set_mine(false);
    let mut counter = 0u64;
    for (pi, phase) in s.phases.iter().enumerate() {
        hist().phase = pi;
        // operations take turns so that a phase is a mix
        for (t, ops) in phase.iter().enumerate() {
            let ops = ops.clone();
            counter += 10_000_000;
            let start = counter;
            let rounds = ops.iter().map(|o| o.a).max().unwrap_or(0);
            match &cache {
                Any::S(c) => {
                    let c = c.clone();
                    engine().spawn(guarded(move || {
                        let mut n = start;
                        set_mine(true);
                        for r in 0..rounds {
                            for o in ops.iter().filter(|o| r < o.a) {
                                n += 1;
                                sync_op(&c, o, t, n);
                            }
                        }
                        set_mine(false);
                    }));
                }
                Any::U(c) => {
                    let c = c.clone();
                    engine().spawn(guarded(move || {
                        let mut n = start;
                        set_mine(true);
                        for r in 0..rounds {
                            for o in ops.iter().filter(|o| r < o.a) {
                                n += 1;
                                unsync_op(&mut c.borrow_mut(), o, n);
                            }
                        }
                        set_mine(false);
                    }));
                    // one at a time
                    if !run_tasks() {
                        std::mem::forget(cache);
                        return end_run();
                    }
                }
            }
        }
        if !run_tasks() {
            std::mem::forget(cache);
            return end_run();
        }
        let (len, cap, shards) = match &cache {
            Any::S(c) => (c.len(), c.capacity(), c.num_shards()),
            Any::U(c) => (c.borrow().len(), c.borrow().capacity(), 1),
        };
        let held = live().0 - base.0;
        let ghosts = cfg.est_items * cfg.ghost_pm / 1000;
        let entries = (cap / weight) as i64 + ghosts + phase.len() as i64;
        let bound = 4096 + shards as i64 * 2048 + 224 * entries;
        if held > bound {
            let done: i64 = s.phases[..=pi].iter().flatten().flatten().map(|o| o.a).sum();
            fail(
                "memory-grows",
                format!("the cache holds {held} bytes for {len} items (capacity {cap}, {ghosts} ghosts) after {done} operations, the bound is {bound}"),
            );
            break;
        }
    }
    drop(cache);
    let left = (live().0 - base.0, live().1 - base.1);
    if world().violation.is_none() && left != (0, 0) {
        fail(
            "memory-leaked",
            format!("{} bytes in {} blocks allocated by the cache were never freed, and it's gone", left.0, left.1),
        );
    }
    end_run()
}
