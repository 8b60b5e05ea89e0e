//! Runs scenarios against the real shared cache and records the history.

use crate::engine::F_CLONE_PANIC;
use crate::engine::{engine, End, Fault, Mode, Params, St, F_CANCEL, F_SPURIOUS_POLL, F_WAKER_CHANGE};
use crate::scen::*;
use crate::types::*;
use quick_cache::sync::{Cache, DefaultLifecycle, GuardResult, PlaceholderGuard};
use quick_cache::{Lifecycle, OptionsBuilder};
use std::cell::Cell;
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Res {
    /// Didn't return.
    Open,
    Unit,
    Val(u32),
    Miss,
    Bool(bool),
    Num(u64),
    Ok,
    /// Handed the value back.
    Err(u32),
    Guard,
    Timeout,
    LoaderErr,
    Panicked,
    Cancelled,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Finish {
    None,
    /// Value stored through the guard; whether that's known to have succeeded.
    Inserted(u32, Option<bool>),
    Dropped,
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub code: Code,
    pub task: usize,
    pub phase: usize,
    pub key: u32,
    /// Value this operation stores.
    pub vid: u32,
    pub w: u32,
    pub a: i64,
    pub b: i64,
    pub c: i64,
    pub inv: u64,
    /// 0 while running
    pub ret: u64,
    pub t_inv: u64,
    pub t_ret: u64,
    pub parked_ns: u64,
    pub res: Res,
    /// When the right to load was granted (0: never).
    pub grant: u64,
    /// When the load ended: start and end of the insert or drop.
    pub end_inv: u64,
    pub end_ret: u64,
    pub finish: Finish,
    /// For GInsert: the operation that was granted the load.
    pub holder: usize,
    pub parent: usize,
    pub probe: bool,
    /// When the async wait last returned Pending.
    pub pending_seq: u64,
    pub loader_runs: u32,
}

/// A caller seen waiting for a load at the moment that load's value was delivered.
#[derive(Clone, Copy, Debug)]
pub struct Waited {
    pub holder: usize,
    pub waiter: usize,
    /// When the waiter had certainly joined.
    pub joined: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub phase: usize,
    /// History position where it starts: nothing else is in flight from there on.
    pub seq: u64,
    pub end_seq: u64,
    pub len: u64,
    pub weight: u64,
    pub capacity: u64,
    pub is_empty: bool,
    /// (key, value id, weight) found by looking
    pub found: Vec<(u32, u32, u32)>,
    pub contains: Vec<u32>,
    pub live_keys: i64,
    pub live_vals: i64,
    pub stats: Option<(u64, u64)>,
    pub iter: Option<Vec<(u32, u32)>>,
}

#[derive(Default)]
pub struct Hist {
    pub ops: Vec<OpRec>,
    pub evs: Vec<Ev>,
    pub waited: Vec<Waited>,
    pub snaps: Vec<Snap>,
    /// hits() and misses() as read meanwhile: (call, hits, misses)
    pub reads: Vec<(usize, u64, u64)>,
    /// Times a demand with premises was actually made.
    pub judged: u64,
    pub phase: usize,
    pub probing: bool,
    pub shard_cap: u64,
    pub num_shards: usize,
    pub vid_weight: Vec<u32>,
    pub vid_key: Vec<u32>,
    pub vid_pinned: Vec<bool>,
}

static mut HIST: Option<Hist> = None;

#[allow(static_mut_refs)]
pub fn hist() -> &'static mut Hist {
    // Safety: one OS thread, never held across a scheduling point
    unsafe { HIST.get_or_insert_with(Hist::default) }
}

pub fn begin(o: &Op, parent: usize) -> usize {
    let e = engine();
    let w = world();
    let h = hist();
    let task = e.task();
    let idx = h.ops.len();
    if w.cur_op.len() <= task {
        w.cur_op.resize(task + 1, NO_OP);
    }
    w.cur_op[task] = idx;
    h.ops.push(OpRec {
        code: o.code,
        task,
        phase: h.phase,
        key: o.k,
        vid: 0,
        w: o.w,
        a: o.a,
        b: o.b,
        c: o.c,
        inv: w.next_seq(),
        ret: 0,
        t_inv: e.now_ns(),
        t_ret: 0,
        parked_ns: e.parked_ns(task),
        res: Res::Open,
        grant: 0,
        end_inv: 0,
        end_ret: 0,
        finish: Finish::None,
        holder: NO_OP,
        parent,
        probe: h.probing,
        pending_seq: 0,
        loader_runs: 0,
    });
    e.note(0x1000 + o.code as u64 + ((o.k as u64) << 8));
    idx
}

pub fn finish(idx: usize, res: Res) {
    let e = engine();
    let seq = world().next_seq();
    let r = &mut hist().ops[idx];
    r.ret = seq;
    r.t_ret = e.now_ns();
    r.parked_ns = e.parked_ns(r.task) - r.parked_ns;
    r.res = res;
    let parent = r.parent;
    e.note(
        0x2000
            + match res {
                Res::Val(v) => 0x10000 + v as u64,
                Res::Err(v) => 0x20000 + v as u64,
                Res::Num(v) => 0x30000 + v,
                Res::Bool(b) => 0x40000 + b as u64,
                Res::Miss => 1,
                Res::Guard => 2,
                Res::Timeout => 3,
                Res::Panicked => 4,
                Res::Cancelled => 5,
                Res::LoaderErr => 6,
                Res::Ok => 7,
                Res::Unit => 8,
                Res::Open => 9,
            },
    );
    let w = world();
    let task = e.task();
    w.cur_op[task] = parent;
}

fn rec(idx: usize) -> &'static mut OpRec {
    &mut hist().ops[idx]
}

pub fn check_val(k: u32, v: &V) -> Res {
    if v.key != k {
        fail(
            "wrong-key",
            format!("lookup of key {k} returned value {} of key {}", v.vid, v.key),
        );
    }
    Res::Val(v.vid)
}

pub type C<L> = Cache<K, V, We, H, L>;

pub trait Life: Lifecycle<K, V> + Clone + 'static {
    fn make() -> Self;
}
impl Life for Lc {
    fn make() -> Self {
        Lc
    }
}
impl Life for DefaultLifecycle<K, V> {
    fn make() -> Self {
        Default::default()
    }
}

pub fn options(cfg: &Cfg) -> quick_cache::Options {
    OptionsBuilder::new()
        .estimated_items_capacity(cfg.est_items as usize)
        .weight_capacity((cfg.cap as u64) << cfg.wshift)
        .shards(cfg.shards as usize)
        .hot_allocation(cfg.hot_pm as f64 / 1000.0)
        .ghost_allocation(cfg.ghost_pm as f64 / 1000.0)
        .build()
        .unwrap()
}

/// Whether the short constructor comes to the same thing: its defaults, one shard.
pub fn short(cfg: &Cfg, unsync: bool) -> bool {
    cfg.hot_pm == 970 && cfg.ghost_pm == 500 && (unsync || (cfg.shards == 1 && cfg.est_items <= 32)) && (cfg.keys + cfg.cap) % 2 == 0
}

pub fn value(idx: usize, o: &Op) -> V {
    let v = V::new(o.k, o.w, o.pin);
    rec(idx).vid = v.vid;
    v
}

/// Whether `retain` with this predicate keeps the item.
pub fn keeps(kind: i64, arg: i64, key: u32, vid: u32, w: u32) -> bool {
    match kind {
        0 => key % 2 == 0,
        1 => key as i64 != arg,
        2 => false,
        3 => true,
        4 => vid % 2 == 0,
        _ => (w as i64) < arg,
    }
}

/// The predicate of a `retain`, it panics at the `o.b`th call (if not 0).
pub fn predicate(o: &Op) -> impl Fn(&K, &V) -> bool + '_ {
    let calls = Cell::new(0i64);
    move |k: &K, v: &V| {
        user_point(UP_PRED);
        calls.set(calls.get() + 1);
        if k.id() != v.key {
            fail("wrong-key", format!("retain saw value {} of key {} under key {}", v.vid, v.key, k.id()));
        }
        let keep = keeps(o.a, o.c, k.id(), v.vid, v.w);
        let panicked = calls.get() == o.b;
        world().ev(
            0,
            LcEv::Pred {
                key: k.id(),
                vid: v.vid,
                keep,
                panicked,
            },
        );
        if panicked {
            engine().count(Fault::PredicatePanic);
            resume_unwind(Box::new(Injected));
        }
        keep
    }
}

/// Callers waiting for the load `holder` holds, right before its value is delivered.
fn note_waiters(holder: usize) {
    let e = engine();
    let h = hist();
    let key = h.ops[holder].key;
    for t in 0..e.num_tasks() {
        let op = world().cur_op.get(t).copied().unwrap_or(NO_OP);
        if op == NO_OP || t == e.task() {
            continue;
        }
        let r = &h.ops[op];
        if r.key != key || r.ret != 0 || r.grant != 0 {
            continue;
        }
        let joined = match r.code {
            Code::Gvog | Code::Goi if e.task_state(t) == St::Parked => e.parked_seq(t),
            Code::GvogAsync | Code::GoiAsync if r.pending_seq != 0 => r.pending_seq,
            _ => continue,
        };
        h.waited.push(Waited {
            holder,
            waiter: op,
            joined,
        });
    }
}

struct Slot {
    woken: AtomicBool,
    key: usize,
}

impl Wake for Slot {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        user_point(UP_WAKE);
        self.woken.store(true, Ordering::Relaxed);
        engine().notify_key(self.key);
    }
}

fn new_slot() -> Arc<Slot> {
    Arc::new(Slot {
        woken: AtomicBool::new(false),
        key: engine().new_key(),
    })
}

/// On an executor thread, if there are any.
struct Pooled(Option<u64>);

impl Pooled {
    fn enter() -> Pooled {
        Pooled((world().cfg.pool != 0).then(|| engine().enter_pool()))
    }
}

impl Drop for Pooled {
    fn drop(&mut self) {
        if let Some(was) = self.0 {
            engine().leave_pool(was);
        }
    }
}

/// Whether the task is inside of the library's poll: it must not block the executor's thread then.
pub struct Polling(bool);

impl Polling {
    pub fn set(on: bool) -> Polling {
        Polling(engine().set_polling(on))
    }
}

impl Drop for Polling {
    fn drop(&mut self) {
        engine().set_polling(self.0);
    }
}

/// A hostile executor for one future: cancels it, polls it for no reason, moves it to another
/// waker. None if it was cancelled.
fn drive<F: Future>(idx: usize, fut: F) -> Option<F::Output> {
    let e = engine();
    let mut fut = Box::pin(fut);
    let cancel = |fut: Pin<Box<F>>| {
        let _thread = Pooled::enter();
        let r = rec(idx);
        r.pending_seq = 0;
        if r.grant != 0 && r.end_inv == 0 {
            r.end_inv = world().next_seq();
            r.finish = Finish::Dropped;
            drop(fut);
            rec(idx).end_ret = world().next_seq();
        } else {
            drop(fut);
        }
        None
    };
    if e.fault(F_CANCEL, Fault::CancelUnpolled, 20) {
        return cancel(fut);
    }
    let mut slot = new_slot();
    loop {
        if e.fault(F_WAKER_CHANGE, Fault::WakerChange, 300) {
            slot = new_slot();
        }
        slot.woken.store(false, Ordering::Relaxed);
        let waker: Waker = slot.clone().into();
        // keep pending_seq: a caller that's polled again is still waiting
        let thread = Pooled::enter();
        let polling = Polling::set(true);
        let polled = fut.as_mut().poll(&mut Context::from_waker(&waker));
        drop(polling);
        drop(thread);
        match polled {
            Poll::Ready(v) => {
                rec(idx).pending_seq = 0;
                return Some(v);
            }
            Poll::Pending => (),
        }
        let r = rec(idx);
        let loading = r.grant != 0;
        if loading {
            r.pending_seq = 0;
        } else if r.pending_seq == 0 {
            r.pending_seq = world().next_seq();
        }
        loop {
            if slot.woken.load(Ordering::Relaxed) {
                let kind = if loading { Fault::CancelLoader } else { Fault::CancelNotified };
                if e.fault(F_CANCEL, kind, 150) {
                    return cancel(fut);
                }
                break;
            }
            let kind = if loading { Fault::CancelLoader } else { Fault::Cancel };
            if e.fault(F_CANCEL, kind, 100) {
                return cancel(fut);
            }
            if e.fault(F_SPURIOUS_POLL, Fault::SpuriousPoll, 200) {
                break;
            }
            e.wait_on(slot.key);
        }
        e.preempt();
    }
}

/// An async loader: does its sub-operations, stays pending a few times, then ends as told.
struct Loader<'a, L: Life> {
    cache: &'a C<L>,
    o: &'a Op,
    idx: usize,
    pend: i64,
}

impl<L: Life> Future for Loader<'_, L> {
    type Output = Result<V, ()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let _user = Polling::set(false);
        if rec(self.idx).grant == 0 {
            load_started(self.idx);
            run_ops(self.cache, &self.o.sub, self.idx);
        }
        if self.pend > 0 {
            self.pend -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(load_ends(self.idx, self.o))
    }
}

fn load_started(idx: usize) {
    let seq = world().next_seq();
    let r = rec(idx);
    r.grant = seq;
    r.loader_runs += 1;
    world().cur_op[engine().task()] = idx;
    engine().note(0x3000);
}

/// Value, error or panic of a loader closure or future.
fn load_ends(idx: usize, o: &Op) -> Result<V, ()> {
    engine().preempt();
    match o.b {
        FIN_DROP => {
            engine().count(Fault::LoaderError);
            let seq = world().next_seq();
            let r = rec(idx);
            r.end_inv = seq;
            r.finish = Finish::Dropped;
            Err(())
        }
        FIN_PANIC => {
            engine().count(Fault::LoaderPanic);
            let seq = world().next_seq();
            let r = rec(idx);
            r.end_inv = seq;
            r.finish = Finish::Dropped;
            resume_unwind(Box::new(Injected))
        }
        _ => {
            let v = value(idx, o);
            note_waiters(idx);
            let seq = world().next_seq();
            let r = rec(idx);
            r.end_inv = seq;
            r.finish = Finish::Inserted(v.vid, None);
            Ok(v)
        }
    }
}

fn use_guard<L: Life>(
    cache: &C<L>,
    idx: usize,
    o: &Op,
    g: PlaceholderGuard<'_, K, V, We, H, L>,
) {
    run_ops(cache, &o.sub, idx);
    engine().preempt();
    match o.b {
        FIN_INSERT | FIN_INSERT_LC => {
            let i = begin(
                &Op {
                    code: Code::GInsert,
                    sub: Vec::new(),
                    ..o.clone()
                },
                rec(idx).parent,
            );
            let v = value(i, o);
            let vid = v.vid;
            rec(i).holder = idx;
            note_waiters(idx);
            let seq = world().next_seq();
            let r = rec(idx);
            r.end_inv = seq;
            r.finish = Finish::Inserted(vid, None);
            let res = if o.b == FIN_INSERT {
                g.insert(v)
            } else {
                g.insert_with_lifecycle(v).map(drop)
            };
            let ok = res.is_ok();
            finish(
                i,
                match &res {
                    Ok(()) => Res::Ok,
                    Err(v) => Res::Err(v.vid),
                },
            );
            drop(res);
            let seq = rec(i).ret;
            let r = rec(idx);
            r.end_ret = seq;
            r.finish = Finish::Inserted(vid, Some(ok));
        }
        fin => {
            let seq = world().next_seq();
            let r = rec(idx);
            r.end_inv = seq;
            r.finish = Finish::Dropped;
            if fin == FIN_PANIC {
                engine().count(Fault::GuardPanic);
                let r = catch_unwind(AssertUnwindSafe(move || {
                    let _g = g;
                    resume_unwind(Box::new(Injected));
                }));
                forward(r.map(|()| ()));
            } else {
                engine().count(Fault::GuardDropped);
                drop(g);
            }
            let seq = world().next_seq();
            rec(idx).end_ret = seq;
        }
    }
    world().cur_op[engine().task()] = rec(idx).parent;
}

/// Swallows injected panics, forwards the rest.
fn forward<T>(r: Result<T, Box<dyn std::any::Any + Send>>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(p) if p.is::<Injected>() => None,
        Err(p) => resume_unwind(p),
    }
}

pub fn run_ops<L: Life>(cache: &C<L>, ops: &[Op], parent: usize) {
    for o in ops {
        run_op(cache, o, parent);
    }
}

/// Whether copying a value or key fails this time.
pub fn clone_panics() {
    let e = engine();
    if world().cfg.faults as u32 & F_CLONE_PANIC == 0 || !e.in_task() || std::thread::panicking() {
        return;
    }
    let op = world().cur_op.get(e.task()).copied().unwrap_or(NO_OP);
    if op != NO_OP && !rec(op).probe && e.fault(F_CLONE_PANIC, Fault::ClonePanic, 60) {
        resume_unwind(Box::new(Injected));
    }
}

/// An operation; copying a value may fail somewhere in it.
pub fn run_op<L: Life>(cache: &C<L>, o: &Op, parent: usize) {
    if world().cfg.faults as u32 & F_CLONE_PANIC == 0 {
        return do_op(cache, o, parent);
    }
    let task = engine().task();
    let first = hist().ops.len();
    let r = catch_unwind(AssertUnwindSafe(|| do_op(cache, o, parent)));
    if forward(r).is_some() {
        return;
    }
    // sub-operations and other tasks' have been taken care of
    let mine: Vec<usize> = (first..hist().ops.len()).filter(|&i| rec(i).task == task && (rec(i).ret == 0 || rec(i).grant != 0 && rec(i).end_ret == 0)).collect();
    for i in mine {
        if rec(i).ret == 0 {
            finish(i, Res::Panicked);
        }
        if rec(i).grant != 0 && rec(i).end_ret == 0 {
            not_delivered(i);
        }
    }
    world().cur_op[task] = parent;
}

/// The load ended without a value.
fn not_delivered(idx: usize) {
    let seq = world().next_seq();
    let r = rec(idx);
    if r.end_inv == 0 {
        r.end_inv = seq;
    }
    r.end_ret = seq;
    r.finish = Finish::Dropped;
    hist().waited.retain(|w| w.holder != idx);
}

fn do_op<L: Life>(cache: &C<L>, o: &Op, parent: usize) {
    let k = o.k;
    match o.code {
        Code::Sleep => {
            engine().sleep(o.a as u64);
            return;
        }
        Code::Yield => {
            for _ in 0..o.a.max(1) {
                engine().preempt();
            }
            return;
        }
        Code::Halt => {
            engine().halt();
            return;
        }
        Code::PinKey => {
            engine().preempt();
            let p = o.a != 0;
            if world().pin_key[k as usize] != p {
                engine().count(Fault::PinToggle);
                world().pin_key[k as usize] = p;
            }
            return;
        }
        _ => (),
    }
    engine().preempt();
    let idx = begin(o, parent);
    match o.code {
        Code::Get | Code::Peek => {
            let r = if o.code == Code::Get {
                cache.get(&KQ(k))
            } else {
                cache.peek(&KQ(k))
            };
            finish(idx, r.as_ref().map_or(Res::Miss, |v| check_val(k, v)));
        }
        Code::Contains => {
            let r = cache.contains_key(&KQ(k));
            finish(idx, Res::Bool(r));
        }
        Code::Insert => {
            let v = value(idx, o);
            cache.insert(K::new(k), v);
            finish(idx, Res::Ok);
        }
        Code::InsertLc => {
            let v = value(idx, o);
            let lcs = cache.insert_with_lifecycle(K::new(k), v);
            finish(idx, Res::Ok);
            drop(lcs);
        }
        Code::Replace => {
            let v = value(idx, o);
            let r = cache.replace(K::new(k), v, o.a != 0);
            finish(
                idx,
                match &r {
                    Ok(()) => Res::Ok,
                    Err((k2, v)) => {
                        if k2.id() != k {
                            fail("wrong-key", format!("replace of {k} handed back key {}", k2.id()));
                        }
                        Res::Err(v.vid)
                    }
                },
            );
        }
        Code::ReplaceLc => {
            let v = value(idx, o);
            let r = cache.replace_with_lifecycle(K::new(k), v, o.a != 0);
            finish(
                idx,
                match &r {
                    Ok(_) => Res::Ok,
                    Err((_, v)) => Res::Err(v.vid),
                },
            );
        }
        Code::Remove => {
            let r = cache.remove(&KQ(k));
            finish(
                idx,
                match &r {
                    None => Res::Miss,
                    Some((k2, v)) => {
                        if k2.id() != k {
                            fail("wrong-key", format!("remove of {k} returned key {}", k2.id()));
                        }
                        check_val(k, v)
                    }
                },
            );
        }
        Code::Retain => {
            let r = catch_unwind(AssertUnwindSafe(|| cache.retain(predicate(o))));
            let res = if r.is_ok() { Res::Unit } else { Res::Panicked };
            forward(r);
            finish(idx, res);
        }
        Code::Clear => {
            cache.clear();
            finish(idx, Res::Unit);
        }
        Code::Len => {
            let n = cache.len() as u64;
            finish(idx, Res::Num(n));
        }
        Code::Weight => {
            let n = unscale(cache.weight());
            finish(idx, Res::Num(n));
        }
        Code::IsEmpty => {
            let b = cache.is_empty();
            finish(idx, Res::Bool(b));
        }
        Code::Capacity => {
            let n = unscale(cache.capacity());
            finish(idx, Res::Num(n));
        }
        Code::Hits => {
            if let Some((hits, misses)) = stats(cache) {
                hist().reads.push((idx, hits, misses));
            }
            finish(idx, Res::Unit);
        }
        Code::Reserve => {
            cache.reserve(o.a as usize);
            finish(idx, Res::Unit);
        }
        Code::Gvog => {
            let timeout = match o.a {
                FOREVER => Some(Duration::MAX),
                a if a >= 0 => Some(Duration::from_nanos(a as u64)),
                _ => None,
            };
            match cache.get_value_or_guard(&KQ(k), timeout) {
                GuardResult::Value(v) => {
                    finish(idx, check_val(k, &v));
                }
                GuardResult::Timeout => {
                    engine().count(Fault::WaitTimeout);
                    finish(idx, Res::Timeout);
                }
                GuardResult::Guard(g) => {
                    load_started(idx);
                    finish(idx, Res::Guard);
                    use_guard(cache, idx, o, g);
                }
            }
        }
        Code::Goi => {
            let r = catch_unwind(AssertUnwindSafe(|| {
                cache.get_or_insert_with(&KQ(k), || {
                    load_started(idx);
                    run_ops(cache, &o.sub, idx);
                    load_ends(idx, o)
                })
            }));
            goi_result(idx, k, forward(r));
        }
        Code::GvogAsync => match drive(idx, cache.get_value_or_guard_async(&KQ(k))) {
            None => finish(idx, Res::Cancelled),
            Some(Ok(v)) => finish(idx, check_val(k, &v)),
            Some(Err(g)) => {
                load_started(idx);
                finish(idx, Res::Guard);
                use_guard(cache, idx, o, g);
            }
        },
        Code::GoiAsync => {
            let r = catch_unwind(AssertUnwindSafe(|| {
                drive(
                    idx,
                    cache.get_or_insert_async(
                        &KQ(k),
                        Loader {
                            cache,
                            o,
                            idx,
                            pend: o.c,
                        },
                    ),
                )
            }));
            match forward(r) {
                Some(None) => finish(idx, Res::Cancelled),
                Some(Some(r)) => goi_result(idx, k, Some(r)),
                None => goi_result(idx, k, None),
            }
        }
        other => panic!("{other:?} isn't an operation of the shared cache"),
    }
}

fn goi_result(idx: usize, k: u32, r: Option<Result<V, ()>>) {
    let res = match &r {
        None => Res::Panicked,
        Some(Err(())) => Res::LoaderErr,
        Some(Ok(v)) => check_val(k, v),
    };
    finish(idx, res);
    let panicked = res == Res::Panicked;
    let r = rec(idx);
    r.pending_seq = 0;
    if r.grant != 0 {
        r.end_ret = r.ret;
        if panicked && matches!(r.finish, Finish::Inserted(..)) {
            not_delivered(idx);
        }
    }
}

/// The last panic's message and place, set by the hook.
pub static mut LAST_PANIC: String = String::new();

#[allow(static_mut_refs)]
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        unsafe { LAST_PANIC = format!("{msg} at {at}") };
    }));
}

/// A task body: anything that panics and wasn't injected is a violation.
pub fn guarded(f: impl FnOnce() + 'static) -> Box<dyn FnOnce()> {
    Box::new(move || {
        if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
            if p.is::<Injected>() {
                fail("harness", "injected panic escaped".into());
            }
            #[allow(static_mut_refs)]
            let msg = unsafe { LAST_PANIC.clone() };
            fail("panic", format!("the library panicked: {msg}"));
        }
    })
}

pub struct RunOut {
    pub violation: Option<(String, String)>,
    pub trace: Vec<u32>,
    pub steps: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub switches: u64,
    pub fired: [u64; crate::engine::FAULTS.len()],
    /// Ended by a violation of another property.
    pub irrelevant: bool,
}

pub fn start_run(s: &Scenario, mode: &Mode) {
    world().reset(&s.cfg);
    *hist() = Hist::default();
    engine().reset(Params {
        mode: mode.clone(),
        faults: s.cfg.faults as u32,
        tick_ns: s.cfg.tick_ns as u64,
        free_steps: s.cfg.free_steps as u64,
        fair_steps: s.cfg.fair_steps as u64,
    });
    if matches!(s.cfg.hash, 1..=3 | 5) {
        engine().count(Fault::HashCollision);
    }
    if s.cfg.faults as u32 & crate::engine::F_WRITERS_FIRST != 0 {
        engine().count(Fault::WritersFirst);
    }
}

/// What everybody was doing when the run got stuck.
fn stuck() -> String {
    let e = engine();
    let mut s = String::new();
    for t in 0..e.num_tasks() {
        let st = e.task_state(t);
        if st == St::Finished {
            continue;
        }
        let op = world().cur_op.get(t).copied().unwrap_or(NO_OP);
        let what = hist()
            .ops
            .get(op)
            .map_or("nothing".to_string(), |r| {
                format!("{} key {}{}", r.code.name(), r.key, if r.grant != 0 { " (loading)" } else { "" })
            });
        s.push_str(&format!(" task {t}: {what}, {};", match st {
            St::Waiting(k) if k & 1 == 1 => "waiting to be woken",
            St::Waiting(_) => "blocked on a lock",
            St::Parked => "parked",
            _ => "running",
        }));
    }
    s
}

/// Runs the spawned tasks; false if the run is over because of a violation.
pub fn run_tasks() -> bool {
    match engine().run() {
        End::Done => true,
        End::Aborted => false,
        End::Deadlock => {
            let m = format!("nobody can make progress:{}", stuck());
            world().violation.get_or_insert(("deadlock".into(), m));
            false
        }
        End::Livelock => {
            let m = format!("still running {} fair steps after faults stopped:{}", world().cfg.fair_steps, stuck());
            world().violation.get_or_insert(("livelock".into(), m));
            false
        }
    }
}

pub fn end_run() -> RunOut {
    let e = engine();
    let w = world();
    let h = hist();
    h.evs = std::mem::take(&mut w.evs);
    h.vid_weight = w.vid_weight.clone();
    h.vid_key = w.vid_key.clone();
    h.vid_pinned = w.vid_pinned.clone();
    RunOut {
        violation: w.violation.take(),
        steps: e.steps(),
        sim_ns: e.now_ns() - crate::engine::START_NS,
        hash: e.hash(),
        switches: e.switches(),
        fired: e.fired(),
        trace: e.take_trace(),
        irrelevant: false,
    }
}

pub fn probe_ops(cfg: &Cfg) -> Vec<Op> {
    let mut ops = Vec::new();
    for k in 0..cfg.keys as u32 {
        ops.push(Op::new(Code::Contains, k));
        ops.push(Op::new(Code::Peek, k));
    }
    ops.push(Op::new(Code::Len, 0));
    ops.push(Op::new(Code::Weight, 0));
    ops.push(Op::new(Code::IsEmpty, 0));
    ops.push(Op::new(Code::Capacity, 0));
    ops
}

/// Reads the quiescent cache back from the probe's records.
pub fn snap_from(first: usize, seq: u64, live: (i64, i64)) -> Snap {
    let h = hist();
    let mut s = Snap {
        phase: h.phase,
        seq,
        live_keys: live.0,
        live_vals: live.1,
        ..Snap::default()
    };
    for r in &h.ops[first..] {
        match (r.code, r.res) {
            (Code::Contains, Res::Bool(true)) => s.contains.push(r.key),
            (Code::Peek, Res::Val(v)) => {
                s.found.push((r.key, v, world().vid_weight[v as usize]))
            }
            (Code::Len, Res::Num(n)) => s.len = n,
            (Code::Weight, Res::Num(n)) => s.weight = n,
            (Code::IsEmpty, Res::Bool(b)) => s.is_empty = b,
            (Code::Capacity, Res::Num(n)) => s.capacity = n,
            _ => (),
        }
    }
    s.end_seq = world().seq;
    s
}

#[cfg(feature = "stats")]
fn stats<L: Life>(c: &C<L>) -> Option<(u64, u64)> {
    Some((c.hits(), c.misses()))
}
#[cfg(not(feature = "stats"))]
fn stats<L: Life>(_c: &C<L>) -> Option<(u64, u64)> {
    None
}

/// Runs one scenario to its end. The history stays in `hist()`.
pub fn run_sync<L: Life>(s: &Scenario, mode: &Mode) -> RunOut {
    start_run(s, mode);
    let cache: Rc<C<L>> = Rc::new(if short(&s.cfg, false) {
        Cache::with(s.cfg.est_items as usize, (s.cfg.cap as u64) << s.cfg.wshift, We, H, L::make())
    } else {
        Cache::with_options(options(&s.cfg), We, H, L::make())
    });
    hist().num_shards = cache.num_shards();
    // its share of what was asked for, whatever the cache says
    hist().shard_cap = (s.cfg.cap as u64).div_ceil(cache.num_shards() as u64);
    if s.cfg.reenter != 0 {
        let weak = Rc::downgrade(&cache);
        let keys = s.cfg.keys as u32;
        world().reenter = Some(Rc::new(move |kind| {
            let Some(c) = weak.upgrade() else { return };
            // other keys than the scenario's own: the last quarter is kept for this
            let k = keys - 1 - (engine().task() as u32 % 2);
            c.insert(K::new(k), V::new(k, 1, false));
            let _ = c.get(&KQ(k));
            if kind == 2 {
                let _ = c.get_or_insert_with::<_, ()>(&KQ(k), || Ok(V::new(k, 1, false)));
            }
            c.remove(&KQ(k));
            let _ = (c.len(), c.weight());
        }));
    }
    for (pi, phase) in s.phases.iter().enumerate() {
        hist().phase = pi;
        hist().probing = false;
        if s.cfg.driver == 5 && pi + 1 == s.phases.len() && s.cfg.p1 > 0 {
            engine().halt_at(engine().num_tasks(), s.cfg.p1 as u64);
        }
        for ops in phase {
            let (c, ops) = (cache.clone(), ops.clone());
            engine().spawn(guarded(move || run_ops(&*c, &ops, NO_OP)));
        }
        if !run_tasks() {
            std::mem::forget(cache);
            return end_run();
        }
        probe(&cache, &s.cfg, pi + 1 == s.phases.len());
        if world().violation.is_some() {
            std::mem::forget(cache);
            return end_run();
        }
    }
    world().reenter = None;
    match Rc::try_unwrap(cache) {
        Ok(c) => drop(c),
        Err(c) => {
            std::mem::forget(c);
            fail("harness", "the cache is still referenced".into());
        }
    }
    let w = world();
    if w.violation.is_none() && (w.live_keys != 0 || w.live_vals != 0) {
        fail(
            "leak-after-drop",
            format!(
                "{} keys and {} values still alive after the cache was dropped",
                w.live_keys, w.live_vals
            ),
        );
    }
    end_run()
}

fn probe<L: Life>(cache: &Rc<C<L>>, cfg: &Cfg, last: bool) {
    let live = (world().live_keys, world().live_vals);
    let st = stats(cache);
    let first = hist().ops.len();
    let seq = world().next_seq();
    hist().probing = true;
    let (c, ops) = (cache.clone(), probe_ops(cfg));
    engine().spawn(guarded(move || run_ops(&*c, &ops, NO_OP)));
    if !run_tasks() {
        return;
    }
    let mut snap = snap_from(first, seq, live);
    snap.stats = st;
    hist().snaps.push(snap);
    if last {
        // every key can still be loaded
        let (c, n) = (cache.clone(), cfg.keys as u32);
        engine().spawn(guarded(move || {
            for k in 0..n {
                let mut o = Op::new(Code::Gvog, k);
                // weightless, so that one key's load doesn't evict another
                o.w = 0;
                o.b = if k % 2 == 0 { FIN_INSERT } else { FIN_DROP };
                run_op(&*c, &o, NO_OP);
            }
        }));
        run_tasks();
    }
}
