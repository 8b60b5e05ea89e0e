//! The simulator: one OS thread, one coroutine per simulated thread or async task, simulated time,
//! and one recorded decision stream that fixes everything.
//!
//! Every decision (who runs next, whether a fault fires) goes through [`Engine::choose`]. Live, the
//! decision comes from the run's PRNG and the run's scheduling strategy; on replay it comes from
//! the recorded trace. Decision 0 is always the benign default: keep running the current task, no
//! fault. A trace that ran out answers 0, which is what minimisation relies on.

use crate::coro::Coro;
use crate::rng::Rng;
use quick_cache::sim::{Point, Runtime};
use std::cell::UnsafeCell;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Fault {
    Preemption,
    SpuriousUnpark,
    ClockLeap,
    Stall,
    SpuriousPoll,
    WakerChange,
    Cancel,
    CancelNotified,
    CancelUnpolled,
    CancelLoader,
    LoaderError,
    LoaderPanic,
    GuardDropped,
    GuardPanic,
    PredicatePanic,
    PinToggle,
    WeightZeroed,
    WeightHalved,
    BorrowPanic,
    WaitTimeout,
    Reentry,
    HashCollision,
    WritersFirst,
    WeakCasFailure,
    Halt,
    ClonePanic,
}

pub const FAULTS: [&str; 26] = [
    "preemption",
    "spurious_unpark",
    "clock_leap",
    "stall",
    "spurious_poll",
    "waker_change",
    "cancel_waiting",
    "cancel_notified_not_polled",
    "cancel_before_first_poll",
    "cancel_during_load",
    "loader_error",
    "loader_panic",
    "guard_abandoned",
    "guard_dropped_by_panic",
    "predicate_panic",
    "pin_toggled",
    "weight_zeroed_before_evict",
    "weight_halved_before_evict",
    "panic_during_borrow",
    "wait_timed_out",
    "reentrant_call",
    "hash_collisions_run",
    "writers_first_run",
    "weak_cas_failure",
    "stopped_until_others_are_done",
    "clone_panic",
];

/// More scheduling points than a single poll has any use for.
const MAX_POLL: u64 = 20_000;

/// Threads from here on belong to the executor.
const POOL: u64 = 1 << 32;

pub const F_SPURIOUS_UNPARK: u32 = 1 << Fault::SpuriousUnpark as u32;
pub const F_CLOCK_LEAP: u32 = 1 << Fault::ClockLeap as u32;
pub const F_STALL: u32 = 1 << Fault::Stall as u32;
pub const F_SPURIOUS_POLL: u32 = 1 << Fault::SpuriousPoll as u32;
pub const F_WAKER_CHANGE: u32 = 1 << Fault::WakerChange as u32;
pub const F_CANCEL: u32 = 1 << Fault::Cancel as u32;
pub const F_WEAK_CAS: u32 = 1 << Fault::WeakCasFailure as u32;
pub const F_CLONE_PANIC: u32 = 1 << Fault::ClonePanic as u32;
pub const F_WRITERS_FIRST: u32 = 1 << Fault::WritersFirst as u32;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum St {
    Runnable,
    /// Blocked on a lock or condition.
    Waiting(usize),
    Parked,
    Finished,
}

/// What the clock shows when a run begins.
pub const START_NS: u64 = 1_000_000_000;

pub struct Task {
    coro: Option<Box<Coro>>,
    pub st: St,
    /// The thread it runs on.
    tid: u64,
    deadline: Option<u64>,
    stalled_until: u64,
    /// Stopped until everybody else is done or stuck.
    halted: bool,
    /// Scheduling points passed.
    points: u64,
    /// Being polled, and since which of its points.
    polling: Option<u64>,
    blocked_since: u64,
    /// Time spent parked or in timed waits, up to the deadline asked for.
    pub parked_ns: u64,
    /// History position when it last parked.
    pub parked_seq: u64,
    prio: u64,
}

#[derive(Clone, Debug)]
pub enum Mode {
    Live { seed: u64 },
    Replay { trace: Vec<u32> },
}

#[derive(Clone, Debug)]
pub struct Params {
    pub mode: Mode,
    pub faults: u32,
    pub tick_ns: u64,
    /// Steps with free scheduling and faults; afterwards scheduling is fair and faults stop.
    pub free_steps: u64,
    /// Steps everything must finish within once faults stopped.
    pub fair_steps: u64,
}

/// Tasks and their operations.
#[derive(Clone, Debug)]
pub struct Held {
    pub by: (usize, usize),
    pub left: Vec<(usize, usize)>,
    /// History position.
    pub seq: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    Deadlock,
    Livelock,
    /// A check failed while running.
    Aborted,
}

enum Strategy {
    /// Switch with this probability (per mille), to anyone.
    Random(u32),
    /// Highest priority runs, priorities change at these steps.
    Pct(Vec<u64>),
}

struct Inner {
    tasks: Vec<Task>,
    current: Option<usize>,
    next: Option<usize>,
    now: u64,
    steps: u64,
    p: Params,
    rng: Rng,
    strategy: Strategy,
    fault_pm: u32,
    low_prio: u64,
    trace: Vec<u32>,
    abort: bool,
    livelock: bool,
    rr: usize,
    hash: u64,
    fired: [u64; FAULTS.len()],
    switches: u64,
    waker_keys: u64,
    /// Threads with an unpark token.
    tokens: Vec<u64>,
    /// Halt this task at that point.
    halt: Option<(usize, u64)>,
    /// Who was halted, and who couldn't finish meanwhile, with the operations they were at.
    held: Option<Held>,
}

/// Where the decisions of the current run are copied to, for when the process doesn't survive it:
/// their number, then each.
pub static mut MIRROR: *mut u32 = std::ptr::null_mut();
pub const MIRROR_LEN: usize = 1 << 18;

pub struct Engine(UnsafeCell<Inner>);
// Safety: only ever used by one OS thread, see main.rs
unsafe impl Sync for Engine {}

static mut ENGINE: Option<&'static Engine> = None;

pub fn engine() -> &'static Engine {
    unsafe {
        if let Some(e) = ENGINE {
            return e;
        }
        let e: &'static Engine = Box::leak(Box::new(Engine(UnsafeCell::new(Inner {
            tasks: Vec::new(),
            current: None,
            next: None,
            now: START_NS,
            steps: 0,
            p: Params {
                mode: Mode::Live { seed: 0 },
                faults: 0,
                tick_ns: 1000,
                free_steps: 0,
                fair_steps: 0,
            },
            rng: Rng::new(0),
            strategy: Strategy::Random(500),
            fault_pm: 0,
            low_prio: 0,
            trace: Vec::new(),
            abort: false,
            livelock: false,
            rr: 0,
            hash: 0,
            fired: [0; FAULTS.len()],
            switches: 0,
            waker_keys: 0,
            tokens: Vec::new(),
            halt: None,
            held: None,
        }))));
        ENGINE = Some(e);
        quick_cache::sim::install(Some(e));
        e
    }
}

impl Inner {
    fn choose(&mut self, n: usize, gen: impl FnOnce(&mut Inner) -> usize) -> usize {
        debug_assert!(n > 1);
        let pos = self.trace.len();
        let v = match &self.p.mode {
            Mode::Live { .. } => gen(self),
            Mode::Replay { trace } => trace.get(pos).map_or(0, |v| (*v as usize).min(n - 1)),
        };
        let mine = crate::churn::set_mine(false);
        self.trace.push(v as u32);
        crate::churn::set_mine(mine);
        // Safety: set up by the process around this run, or null
        unsafe {
            if !MIRROR.is_null() && pos < MIRROR_LEN - 1 {
                *MIRROR.add(pos + 1) = v as u32;
                *MIRROR = pos as u32 + 1;
            }
        }
        self.hash = (self.hash ^ (v as u64 + 1)).wrapping_mul(0x100000001b3);
        v
    }

    fn faults_on(&self, kind: u32) -> bool {
        self.p.faults & kind != 0 && self.steps < self.p.free_steps
    }

    fn fair(&self) -> bool {
        self.steps >= self.p.free_steps
    }

    fn timers(&mut self) {
        let now = self.now;
        for t in &mut self.tasks {
            if let Some(d) = t.deadline {
                if d <= now && matches!(t.st, St::Waiting(_) | St::Parked) {
                    wake(t, now);
                }
            }
        }
    }

    fn is_ready(&self, i: usize) -> bool {
        self.tasks[i].st == St::Runnable && self.tasks[i].stalled_until <= self.now && !self.tasks[i].halted
    }

    /// Who runs next, None if nobody can ever run.
    fn pick(&mut self) -> Option<usize> {
        loop {
            self.timers();
            let mut ready = [0usize; 64];
            let mut n = 0;
            let cur = self.current.filter(|&c| self.is_ready(c));
            if let Some(c) = cur {
                ready[0] = c;
                n = 1;
            }
            for i in 0..self.tasks.len() {
                if Some(i) != cur && self.is_ready(i) {
                    ready[n] = i;
                    n += 1;
                }
            }
            if n == 0 {
                // idle: jump to whatever happens next
                let mut next = u64::MAX;
                for t in &self.tasks {
                    match t.st {
                        St::Runnable if t.halted => (),
                        St::Runnable => next = next.min(t.stalled_until),
                        St::Waiting(_) | St::Parked => {
                            next = next.min(t.deadline.unwrap_or(u64::MAX))
                        }
                        St::Finished => (),
                    }
                }
                if next == u64::MAX {
                    if self.release() {
                        continue;
                    }
                    return None;
                }
                debug_assert!(next > self.now);
                self.now = next;
                continue;
            }
            if n == 1 {
                return Some(ready[0]);
            }
            let ready = &ready[..n];
            if self.fair() {
                return Some(self.round_robin(ready));
            }
            let has_cur = cur.is_some();
            let i = self.choose(n, |s| s.strategy_pick(ready, has_cur));
            return Some(ready[i]);
        }
    }

    /// Nobody else can do anything anymore: whoever is halted continues.
    fn release(&mut self) -> bool {
        let Some(h) = self.tasks.iter().position(|t| t.halted) else {
            return false;
        };
        self.tasks[h].halted = false;
        let at = |i: usize| (i, crate::types::world().cur_op.get(i).copied().unwrap_or(crate::types::NO_OP));
        let left = (0..self.tasks.len()).filter(|i| *i != h && self.tasks[*i].st != St::Finished).map(at).collect();
        self.held = Some(Held {
            by: at(h),
            left,
            seq: crate::types::world().seq,
        });
        true
    }

    /// Once faults stopped: nothing to decide anymore.
    fn round_robin(&mut self, ready: &[usize]) -> usize {
        let n = self.tasks.len();
        self.rr = (self.rr + 1) % n;
        let next = ready
            .iter()
            .copied()
            .min_by_key(|&i| (i + n - self.rr) % n)
            .unwrap();
        self.rr = next;
        self.hash = (self.hash ^ (next as u64 + 77)).wrapping_mul(0x100000001b3);
        next
    }

    fn strategy_pick(&mut self, ready: &[usize], has_cur: bool) -> usize {
        match &self.strategy {
            Strategy::Random(pm) => {
                let pm = *pm;
                if has_cur && !self.rng.pm(pm) {
                    0
                } else {
                    self.rng.below(ready.len())
                }
            }
            Strategy::Pct(changes) => {
                if has_cur && changes.contains(&self.steps) {
                    self.low_prio -= 1;
                    self.tasks[ready[0]].prio = self.low_prio;
                }
                (0..ready.len())
                    .max_by_key(|&i| self.tasks[ready[i]].prio)
                    .unwrap()
            }
        }
    }

    /// Whether this task may be woken for no reason: parked threads, idle async tasks.
    fn wakeable(&self, t: &Task) -> bool {
        match t.st {
            St::Parked => self.faults_on(F_SPURIOUS_UNPARK),
            St::Waiting(key) => key & 1 == 1 && self.faults_on(F_SPURIOUS_POLL | F_CANCEL),
            _ => false,
        }
    }

    fn step_faults(&mut self) {
        if self.fair() || self.fault_pm == 0 {
            return;
        }
        let pm = self.fault_pm;
        if self.faults_on(F_CLOCK_LEAP) {
            let c = self.choose(4, |s| {
                if s.rng.pm(pm) {
                    1 + s.rng.below(3)
                } else {
                    0
                }
            });
            if c > 0 {
                self.fired[Fault::ClockLeap as usize] += 1;
                self.now += [0, 50, 3_000, 200_000][c] * self.p.tick_ns;
            }
        }
        if self.faults_on(F_STALL) {
            let c = self.choose(3, |s| if s.rng.pm(pm) { 1 + s.rng.below(2) } else { 0 });
            if c > 0 {
                let cur = self.current.unwrap();
                self.fired[Fault::Stall as usize] += 1;
                self.tasks[cur].stalled_until =
                    self.now + [0, 20, 400][c] * self.p.tick_ns;
            }
        }
        if self.tasks.iter().any(|t| self.wakeable(t)) {
            let n = self.tasks.len();
            let c = self.choose(n + 1, |s| {
                if s.rng.pm(pm) {
                    1 + s.rng.below(n)
                } else {
                    0
                }
            });
            if c > 0 && self.wakeable(&self.tasks[c - 1]) {
                if self.tasks[c - 1].st == St::Parked {
                    self.fired[Fault::SpuriousUnpark as usize] += 1;
                }
                let now = self.now;
                wake(&mut self.tasks[c - 1], now);
            }
        }
    }
}

fn wake(t: &mut Task, now: u64) {
    let until = now.min(t.deadline.unwrap_or(u64::MAX));
    if t.st == St::Parked || t.deadline.is_some() {
        t.parked_ns += until.saturating_sub(t.blocked_since);
    }
    t.deadline = None;
    t.st = St::Runnable;
}

impl Engine {
    #[allow(clippy::mut_from_ref)]
    fn s(&self) -> &mut Inner {
        // Safety: one OS thread; never held across a switch
        unsafe { &mut *self.0.get() }
    }

    pub fn reset(&self, p: Params) {
        let s = self.s();
        assert!(s.current.is_none());
        for t in s.tasks.drain(..) {
            if let Some(c) = t.coro {
                c.retire();
            }
        }
        s.next = None;
        s.now = START_NS;
        s.steps = 0;
        s.trace.clear();
        unsafe {
            if !MIRROR.is_null() {
                *MIRROR = 0;
            }
        }
        s.abort = false;
        s.livelock = false;
        s.rr = 0;
        s.hash = 0xcbf29ce484222325;
        s.fired = [0; FAULTS.len()];
        s.switches = 0;
        s.waker_keys = 0;
        s.tokens.clear();
        s.halt = None;
        s.held = None;
        s.low_prio = 1 << 32;
        if let Mode::Live { seed } = p.mode {
            s.rng = Rng::new(seed);
            let span = [30u64, 100, 300, 1000][s.rng.below(4)];
            s.strategy = match s.rng.below(8) {
                0 => Strategy::Random(1000),
                1 => Strategy::Random(500),
                2 => Strategy::Random(200),
                3 => Strategy::Random(50),
                d => Strategy::Pct((0..d - 3).map(|_| 1 + s.rng.below(span as usize) as u64).collect()),
            };
            s.fault_pm = [5, 20, 60][s.rng.below(3)];
        } else {
            s.fault_pm = 1;
        }
        s.p = p;
    }

    pub fn spawn(&self, body: Box<dyn FnOnce()>) -> usize {
        let s = self.s();
        let prio = match s.p.mode {
            Mode::Live { .. } => (1 << 33) + (s.rng.next() >> 32),
            _ => 0,
        };
        let tid = s.tasks.len() as u64;
        s.tasks.push(Task {
            coro: Some(Coro::new(body)),
            st: St::Runnable,
            tid,
            deadline: None,
            stalled_until: 0,
            halted: false,
            points: 0,
            polling: None,
            blocked_since: 0,
            parked_ns: 0,
            parked_seq: 0,
            prio,
        });
        s.tasks.len() - 1
    }

    /// Runs until every task ended, nobody can run, a budget is exhausted or a check failed.
    pub fn run(&self) -> End {
        loop {
            let s = self.s();
            if s.abort {
                return End::Aborted;
            }
            if s.livelock {
                return End::Livelock;
            }
            let next = match s.next.take() {
                Some(n) => n,
                None => {
                    if s.tasks.iter().all(|t| t.st == St::Finished) {
                        return End::Done;
                    }
                    match s.pick() {
                        Some(n) => n,
                        None => return End::Deadlock,
                    }
                }
            };
            s.current = Some(next);
            let coro: *mut Coro = &mut **s.tasks[next].coro.as_mut().unwrap();
            // Safety: the box stays put while the coroutine runs
            unsafe { (*coro).resume() };
            let s = self.s();
            s.current = None;
            if unsafe { (*coro).finished } {
                s.tasks[next].st = St::Finished;
                s.tasks[next].coro.take().unwrap().retire();
            }
        }
    }

    fn switch_out(&self) {
        let s = self.s();
        let cur = s.current.unwrap();
        let coro: *mut Coro = &mut **s.tasks[cur].coro.as_mut().unwrap();
        let mine = crate::churn::set_mine(false);
        unsafe { (*coro).suspend() };
        crate::churn::set_mine(mine);
    }

    /// Ends the run: the calling task never continues.
    pub fn abort(&self) -> ! {
        self.s().abort = true;
        if self.s().current.is_none() {
            panic!("abort outside of a task");
        }
        self.switch_out();
        unreachable!()
    }

    fn step(&self) {
        let s = self.s();
        s.steps += 1;
        s.now += s.p.tick_ns;
        if s.steps > s.p.free_steps + s.p.fair_steps {
            s.livelock = true;
            self.switch_out();
            unreachable!()
        }
    }

    /// A scheduling point.
    pub fn preempt(&self) {
        let s = self.s();
        let Some(cur) = s.current else { return };
        self.step();
        s.step_faults();
        s.tasks[cur].points += 1;
        if s.halt == Some((cur, s.tasks[cur].points)) {
            self.halt();
            return;
        }
        let points = s.tasks[cur].points;
        if s.tasks[cur].polling.is_some_and(|from| points > from + MAX_POLL) {
            crate::types::fail("blocked-in-poll", format!("task {cur} polls and doesn't return"));
        }
        let next = s.pick().unwrap();
        if next != cur {
            s.switches += 1;
            s.fired[Fault::Preemption as usize] += 1;
            s.next = Some(next);
            self.switch_out();
        }
    }

    /// Stops the calling task until everybody else is done or stuck.
    pub fn halt(&self) {
        let s = self.s();
        let Some(cur) = s.current else { return };
        if s.held.is_some() || s.tasks.iter().any(|t| t.halted) {
            return;
        }
        s.fired[Fault::Halt as usize] += 1;
        s.tasks[cur].halted = true;
        self.switch_out();
    }

    /// Halts the task at one of its points.
    pub fn halt_at(&self, task: usize, point: u64) {
        self.s().halt = Some((task, point));
    }

    /// Who couldn't finish while somebody was halted.
    pub fn held(&self) -> Option<Held> {
        self.s().held.clone()
    }

    /// Whether the calling task is inside of a future's poll. Returns what it was.
    pub fn set_polling(&self, on: bool) -> bool {
        let s = self.s();
        let Some(cur) = s.current else { return false };
        let t = &mut s.tasks[cur];
        let was = t.polling.is_some();
        t.polling = on.then_some(t.points);
        was
    }

    fn block(&self, st: St, timeout: Option<u64>) {
        self.step();
        let s = self.s();
        let cur = s.current.expect("blocking outside of a task");
        let now = s.now;
        let t = &mut s.tasks[cur];
        t.deadline = timeout.map(|d| now.saturating_add(d).min(u64::MAX - 1));
        t.blocked_since = now;
        if st == St::Parked {
            t.parked_seq = crate::types::world().seq;
        }
        t.st = st;
        if t.deadline == Some(now) {
            // a zero timeout, still a scheduling point
            wake(t, now);
        }
        // the host loop picks
        self.switch_out();
    }

    pub fn wait_on(&self, key: usize) {
        self.block(St::Waiting(key), None);
    }

    /// A fresh key for [`Engine::wait_on`], never equal to an address.
    pub fn new_key(&self) -> usize {
        let s = self.s();
        s.waker_keys += 2;
        (s.waker_keys + 1) as usize
    }

    pub fn notify_key(&self, key: usize) {
        let s = self.s();
        let now = s.now;
        for t in &mut s.tasks {
            if t.st == St::Waiting(key) {
                wake(t, now);
            }
        }
    }

    /// Moves the calling task to an executor thread nobody else is on. Returns where it was.
    pub fn enter_pool(&self) -> u64 {
        let s = self.s();
        let cur = s.current.expect("not in a task");
        let was = s.tasks[cur].tid;
        if was < POOL {
            let free: Vec<u64> = (POOL..)
                .filter(|t| s.tasks.iter().all(|x| x.tid != *t))
                .take(2)
                .collect();
            let c = s.choose(2, |s| s.rng.pm(250) as usize);
            s.tasks[cur].tid = free[c];
        }
        was
    }

    pub fn leave_pool(&self, was: u64) {
        let s = self.s();
        let cur = s.current.expect("not in a task");
        s.tasks[cur].tid = was;
    }

    /// Blocks the calling task for that long.
    pub fn sleep(&self, ns: u64) {
        let key = self.new_key();
        let end = self.now_ns() + ns;
        while self.now_ns() < end {
            let left = end - self.now_ns();
            self.block(St::Waiting(key), Some(left));
        }
    }

    /// Whether a fault that's enabled by `mask` fires, with probability `pm`/1000.
    pub fn fault(&self, mask: u32, kind: Fault, pm: u32) -> bool {
        let s = self.s();
        if !s.faults_on(mask) {
            return false;
        }
        let v = s.choose(2, |s| s.rng.pm(pm) as usize) == 1;
        if v {
            s.fired[kind as usize] += 1;
        }
        v
    }

    pub fn count(&self, kind: Fault) {
        self.s().fired[kind as usize] += 1;
    }

    pub fn in_task(&self) -> bool {
        self.s().current.is_some()
    }

    pub fn task(&self) -> usize {
        self.s().current.expect("not in a task")
    }

    pub fn task_state(&self, i: usize) -> St {
        self.s().tasks[i].st.clone()
    }

    pub fn num_tasks(&self) -> usize {
        self.s().tasks.len()
    }

    pub fn parked_ns(&self, i: usize) -> u64 {
        self.s().tasks[i].parked_ns
    }

    pub fn parked_seq(&self, i: usize) -> u64 {
        self.s().tasks[i].parked_seq
    }

    pub fn now_ns(&self) -> u64 {
        self.s().now
    }

    pub fn steps(&self) -> u64 {
        self.s().steps
    }

    pub fn switches(&self) -> u64 {
        self.s().switches
    }

    pub fn fired(&self) -> [u64; FAULTS.len()] {
        self.s().fired
    }

    pub fn hash(&self) -> u64 {
        self.s().hash
    }

    /// Adds something observable to the run's fingerprint.
    pub fn note(&self, x: u64) {
        let s = self.s();
        s.hash = (s.hash ^ x.wrapping_add(0x9E37)).wrapping_mul(0x100000001b3);
    }

    pub fn take_trace(&self) -> Vec<u32> {
        std::mem::take(&mut self.s().trace)
    }
}

/// None: so far off that it never comes.
fn ns(d: Duration) -> Option<u64> {
    u64::try_from(d.as_nanos()).ok().filter(|d| *d < u64::MAX / 4)
}

impl Runtime for Engine {
    fn point(&self, _what: Point) {
        self.preempt();
    }

    fn wait(&self, key: usize, timeout: Option<Duration>) {
        self.block(St::Waiting(key), timeout.and_then(ns));
    }

    fn notify(&self, key: usize) {
        self.notify_key(key);
    }

    fn park(&self, timeout: Option<Duration>) {
        self.preempt();
        let s = self.s();
        let cur = s.current.expect("parking outside of a task");
        if s.tasks[cur].polling.is_some() {
            crate::types::fail("blocked-in-poll", format!("task {cur} parks the thread that polls it"));
        }
        let tid = s.tasks[cur].tid;
        if !s.tokens.contains(&tid) {
            self.block(St::Parked, timeout.and_then(ns));
        }
        self.s().tokens.retain(|t| *t != tid);
    }

    fn unpark(&self, tid: u64) {
        self.preempt();
        let s = self.s();
        let now = s.now;
        if !s.tokens.contains(&tid) {
            let mine = crate::churn::set_mine(false);
            s.tokens.push(tid);
            crate::churn::set_mine(mine);
        }
        for t in &mut s.tasks {
            if t.tid == tid && t.st == St::Parked {
                wake(t, now);
            }
        }
    }

    fn current(&self) -> u64 {
        let s = self.s();
        s.current.map_or(u64::MAX, |c| s.tasks[c].tid)
    }

    fn now(&self) -> Duration {
        // whatever happens between two readings of the clock
        self.preempt();
        Duration::from_nanos(self.s().now)
    }

    fn writers_first(&self) -> bool {
        self.s().p.faults & F_WRITERS_FIRST != 0
    }

    fn spurious_failure(&self) -> bool {
        self.fault(F_WEAK_CAS, Fault::WeakCasFailure, 100)
    }
}
