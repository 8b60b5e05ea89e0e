//! One seeded execution of the library under Miri.
//!
//! Miri is the simulator: it interprets the real library, its locks and the standard library in one
//! process, and one `-Zmiri-seed` decides every preemption, every stale value a relaxed load may
//! still see, every spurious failure of a weak exchange, every address, and the virtual clock.
//! Its random numbers also choose the workload here (first argument `auto`), unless the workload's
//! own seed is given. Further arguments `t:i` keep only those operations of the workload.
//! Nothing is asserted: undefined behaviour, found by Miri, is what counts.

use std::cell::Cell;
use std::future::Future;
use std::hash::{BuildHasher, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::pin;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use quick_cache::sync::GuardResult;
use quick_cache::{Lifecycle, OptionsBuilder, Weighter};

#[derive(Clone)]
struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }

    fn below(&mut self, n: u32) -> u32 {
        ((self.next() >> 32) * n as u64 >> 32) as u32
    }

    fn chance(&mut self, percent: u32) -> bool {
        self.below(100) < percent
    }
}

thread_local! {
    /// How many calls of user code until one panics; 0 for never.
    static FUEL: Cell<u32> = const { Cell::new(0) };
}
/// Faults injected: panics of user code, failed loads, cancelled futures, time-outs, guards given up.
static FAULTS: [AtomicU32; 5] = [const { AtomicU32::new(0) }; 5];

fn fault(kind: usize) {
    FAULTS[kind].fetch_add(1, Ordering::Relaxed);
}

/// User code: called by the library at any point, may panic.
fn user() {
    let left = FUEL.get();
    if left != 0 && !std::thread::panicking() {
        FUEL.set(left - 1);
        if left == 1 {
            fault(0);
            panic!("injected");
        }
    }
}

struct K(Box<u32>);

impl Clone for K {
    fn clone(&self) -> Self {
        user();
        K(self.0.clone())
    }
}

impl PartialEq for K {
    fn eq(&self, other: &Self) -> bool {
        user();
        self.0 == other.0
    }
}

impl Eq for K {}

impl Hash for K {
    fn hash<H: Hasher>(&self, state: &mut H) {
        user();
        state.write_u32(*self.0);
    }
}

struct V(Box<(u32, u64)>);

impl V {
    fn new(key: u32, weight: u64) -> Self {
        V(Box::new((key, weight)))
    }
}

impl Clone for V {
    fn clone(&self) -> Self {
        user();
        V(self.0.clone())
    }
}

#[derive(Clone)]
struct Hb(u32);

struct Hs(u32, u64);

impl BuildHasher for Hb {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs(self.0, 0)
    }
}

impl Hasher for Hs {
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u32(*b as u32);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.1 = (self.1 ^ x as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
    fn finish(&self) -> u64 {
        match self.0 {
            0 => 0,
            1 => self.1 >> 63,
            _ => self.1 ^ self.1 >> 29,
        }
    }
}

#[derive(Clone)]
struct W;

impl Weighter<K, V> for W {
    fn weight(&self, key: &K, val: &V) -> u64 {
        user();
        let _ = *key.0;
        val.0 .1
    }
}

#[derive(Clone)]
struct L {
    pins: Arc<AtomicU32>,
    trim: u32,
}

impl Lifecycle<K, V> for L {
    type RequestState = Vec<(K, V)>;

    fn is_pinned(&self, key: &K, val: &V) -> bool {
        user();
        let _ = val.0 .1;
        self.pins.load(Ordering::Relaxed) >> *key.0 & 1 != 0
    }
    fn begin_request(&self) -> Self::RequestState {
        user();
        Vec::new()
    }
    fn before_evict(&self, _: &mut Self::RequestState, _: &K, val: &mut V) {
        user();
        match self.trim {
            1 => val.0 .1 = 0,
            2 => *val = V::new(val.0 .0, val.0 .1 / 2),
            _ => (),
        }
    }
    fn on_evict(&self, state: &mut Self::RequestState, key: K, val: V) {
        user();
        state.push((key, val));
    }
    fn end_request(&self, state: Self::RequestState) {
        user();
        drop(state);
    }
}

#[derive(Clone, Copy, Debug)]
struct Op {
    code: u32,
    key: u32,
    weight: u32,
    how: u32,
    fuel: u32,
}

struct Program {
    unsync: bool,
    keys: u32,
    hash: u32,
    trim: u32,
    pins: u32,
    shards: usize,
    items: usize,
    capacity: u64,
    hot: f64,
    ghost: f64,
    ops: Vec<Vec<Op>>,
}

fn program(seed: u64) -> Program {
    let mut r = Rng(seed);
    let unsync = r.chance(30);
    // one thread alone goes deeper
    let threads = if unsync || r.chance(15) { 1 } else { 2 + r.below(3) };
    let per = if threads == 1 { 40 } else { 4 + r.below(17) };
    let most = if threads == 1 || r.chance(30) { 12 } else { 4 };
    let keys = 1 + r.below(most);
    let faults = cfg!(feature = "parking_lot") && r.chance(40);
    let bulk = r.below(3);
    let mut p = Program {
        unsync,
        keys,
        hash: r.below(4),
        trim: if r.chance(50) { 0 } else { 1 + r.below(2) },
        pins: if r.chance(60) { 0 } else { r.next() as u32 },
        shards: if r.chance(70) { 1 } else { 4 },
        items: if r.chance(80) { 2 + r.below(8) as usize } else { 128 },
        capacity: r.below(14) as u64,
        hot: [0.0, 0.5, 0.8, 0.97, 1.0][r.below(5) as usize],
        ghost: [0.0, 0.5, 1.0][r.below(3) as usize],
        ops: Vec::new(),
    };
    for _ in 0..threads {
        let ops = (0..per)
            .map(|_| Op {
                // bulk operations seldom
                code: if bulk != 0 && r.chance(85) { r.below(11) } else { r.below(18) },
                key: r.below(keys),
                weight: if r.chance(20) { 0 } else { r.below(5) },
                how: r.next() as u32,
                fuel: if faults && r.chance(15) { 1 + r.below(20) } else { 0 },
            })
            .collect();
        p.ops.push(ops);
    }
    p
}

struct Unpark(std::thread::Thread, AtomicU64);

impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.1.fetch_add(1, Ordering::Release);
        self.0.unpark();
    }
}

/// Runs a future, cancelled when it's been polled `polls` times (0 for never).
fn run<T>(future: impl Future<Output = T>, polls: u32, fresh_wakers: bool) -> Option<T> {
    let mut future = pin!(future);
    let mut polled = 0;
    let mut unpark = Arc::new(Unpark(std::thread::current(), AtomicU64::new(0)));
    loop {
        if polled > 0 && fresh_wakers {
            unpark = Arc::new(Unpark(std::thread::current(), AtomicU64::new(0)));
        }
        let waker = Waker::from(unpark.clone());
        let seen = unpark.1.load(Ordering::Acquire);
        if let Poll::Ready(t) = future.as_mut().poll(&mut Context::from_waker(&waker)) {
            return Some(t);
        }
        polled += 1;
        if polled == polls {
            fault(2);
            return None;
        }
        if fresh_wakers && polled < 3 {
            std::thread::yield_now();
            continue;
        }
        while unpark.1.load(Ordering::Acquire) == seen {
            std::thread::park();
        }
    }
}

type Sync = quick_cache::sync::Cache<K, V, W, Hb, L>;
type Unsync = quick_cache::unsync::Cache<K, V, W, Hb, L>;

const SYNC: [&str; 18] = [
    "get", "get", "peek", "insert", "get_or_insert_with", "get_or_insert_with", "get_value_or_guard",
    "get_value_or_guard_async", "get_or_insert_async", "remove", "replace", "retain", "clear", "len",
    "weight", "reserve", "contains_key", "pin+insert+replace",
];
const UNSYNC: [&str; 18] = [
    "get", "peek", "get_mut", "peek_mut", "insert", "get_or_insert_with", "get_mut_or_insert_with",
    "get_ref_or_guard", "get_mut_or_guard", "remove", "replace", "retain", "clear", "iter", "drain",
    "reserve", "clone", "pin+insert+replace",
];

fn look(v: &V) -> u64 {
    // reads all of it
    v.0 .0 as u64 + v.0 .1
}

fn sync_op(c: &Sync, pins: &AtomicU32, op: Op, keys: u32) -> u64 {
    let k = || K(Box::new(op.key));
    let v = || V::new(op.key, op.weight as u64);
    let flag = |bit: u32| op.how >> bit & 1 != 0;
    let load = || {
        if flag(0) && flag(1) {
            fault(1);
            return Err(());
        }
        if flag(2) && flag(3) && flag(4) {
            fault(0);
            panic!("loader");
        }
        if flag(5) {
            std::thread::yield_now();
        }
        user();
        Ok(v())
    };
    let finish = |g: quick_cache::sync::PlaceholderGuard<'_, K, V, W, Hb, L>| {
        if flag(6) {
            // meanwhile
            let mut r = Rng(op.how as u64);
            for i in 0..1 + r.below(12) {
                let other = r.below(keys);
                let key = K(Box::new(other));
                match r.below(8) {
                    0 | 1 if i < 2 => drop(c.remove(&k())),
                    1..=4 => c.insert(key, V::new(other, r.below(5) as u64)),
                    5 => drop(c.get(&key)),
                    6 if r.chance(30) => c.clear(),
                    _ => drop(c.get_value_or_guard(&key, Some(Duration::from_nanos(200)))),
                }
            }
        }
        if matches!(op.how >> 10 & 7, 0 | 2) {
            fault(4);
        }
        match op.how >> 10 & 7 {
            0 => drop(g),
            1 => drop(std::thread::scope(|s| s.spawn(|| drop(g.insert(v()))).join())),
            2 => drop(std::thread::scope(|s| s.spawn(|| drop(g)).join())),
            3 => drop(g.insert_with_lifecycle(v())),
            _ => drop(g.insert(v())),
        }
        7
    };
    match op.code {
        0 | 1 => c.get(&k()).map_or(0, |v| look(&v)),
        2 => c.peek(&k()).map_or(0, |v| look(&v)),
        3 => {
            c.insert(k(), v());
            1
        }
        4 | 5 => c.get_or_insert_with(&k(), load).map_or(0, |v| look(&v)),
        6 => match c.get_value_or_guard(&k(), flag(7).then(|| Duration::from_nanos(op.how as u64 >> 16))) {
            GuardResult::Value(v) => look(&v),
            GuardResult::Guard(g) => finish(g),
            GuardResult::Timeout => {
                fault(3);
                3
            }
        },
        7 => match run(c.get_value_or_guard_async(&k()), op.how >> 13 & 3, flag(7)) {
            Some(Ok(v)) => look(&v),
            Some(Err(g)) => finish(g),
            None => 5,
        },
        8 => {
            let loader = async {
                if flag(14) {
                    // one turn later
                    let mut first = true;
                    std::future::poll_fn(|cx| {
                        if std::mem::take(&mut first) {
                            cx.waker().wake_by_ref();
                            Poll::Pending
                        } else {
                            Poll::Ready(())
                        }
                    })
                    .await;
                }
                load()
            };
            match run(c.get_or_insert_async(&k(), loader), op.how >> 15 & 3, flag(7)) {
                Some(Ok(v)) => look(&v),
                Some(Err(())) => 4,
                None => 5,
            }
        }
        9 => c.remove(&k()).map_or(0, |(k, v)| *k.0 as u64 + look(&v)),
        10 => c.replace(k(), v(), flag(0)).map_or_else(|(k, v)| *k.0 as u64 + look(&v), |()| 1),
        11 => {
            c.retain(|k, v| {
                user();
                (*k.0 ^ v.0 .1 as u32 ^ op.how) & 1 == 0
            });
            1
        }
        12 => {
            c.clear();
            1
        }
        13 => c.len() as u64 + c.is_empty() as u64,
        14 => c.weight() + c.capacity(),
        15 => {
            c.reserve(op.how as usize & 31);
            c.hits() + c.misses()
        }
        16 => c.contains_key(&k()) as u64,
        _ => {
            pins.fetch_xor(1 << op.key, Ordering::Relaxed);
            drop(c.insert_with_lifecycle(k(), v()));
            c.replace_with_lifecycle(k(), v(), flag(0)).map_or_else(|(k, v)| *k.0 as u64 + look(&v), |l| l.len() as u64)
        }
    }
}

fn unsync_op(c: &mut Unsync, pins: &AtomicU32, op: Op) -> u64 {
    let k = || K(Box::new(op.key));
    let v = || V::new(op.key, op.weight as u64);
    let flag = |bit: u32| op.how >> bit & 1 != 0;
    let load = || {
        if flag(0) && flag(1) {
            fault(1);
            return Err(());
        }
        if flag(2) && flag(3) {
            fault(0);
            panic!("loader");
        }
        user();
        Ok(v())
    };
    let change = |mut m: quick_cache::unsync::RefMut<'_, K, V, W, Hb, L>| {
        if flag(4) {
            m.0 .1 = op.weight as u64;
        }
        if flag(5) {
            user();
            *m = V::new(op.key, op.how as u64 & 3);
        }
        look(&m)
    };
    match op.code {
        0 => c.get(&k()).map_or(0, look),
        1 => c.peek(&k()).map_or(0, look),
        2 => c.get_mut(&k()).map_or(0, change),
        3 => c.peek_mut(&k()).map_or(0, change),
        4 => {
            c.insert(k(), v());
            1
        }
        5 => c.get_or_insert_with(&k(), load).map_or(0, |v| v.map_or(1, look)),
        6 => c.get_mut_or_insert_with(&k(), load).map_or(0, |m| m.map_or(1, change)),
        7 => match c.get_ref_or_guard(&k()) {
            Ok(v) => look(v),
            Err(g) => {
                match op.how >> 8 & 3 {
                    0 => drop(g),
                    1 => drop(g.insert_with_lifecycle(v())),
                    2 => std::mem::forget(g),
                    _ => g.insert(v()),
                }
                2
            }
        },
        8 => match c.get_mut_or_guard(&k()) {
            Ok(m) => m.map_or(1, change),
            Err(g) => {
                match op.how >> 8 & 1 {
                    0 => drop(g),
                    _ => g.insert(v()),
                }
                2
            }
        },
        9 => c.remove(&k()).map_or(0, |(k, v)| *k.0 as u64 + look(&v)),
        10 => c.replace(k(), v(), flag(0)).map_or_else(|(k, v)| *k.0 as u64 + look(&v), |()| 1),
        11 => {
            c.retain(|k, v| {
                user();
                (*k.0 ^ v.0 .1 as u32 ^ op.how) & 1 == 0
            });
            1
        }
        12 => {
            c.clear();
            1
        }
        13 => c.iter().map(|(k, v)| *k.0 as u64 + look(v)).sum::<u64>() + c.len() as u64 + c.weight(),
        14 => {
            let mut d = c.drain();
            let mut s = 0;
            for _ in 0..op.how & 3 {
                s += d.next().map_or(0, |(k, v)| *k.0 as u64 + look(&v));
            }
            if flag(9) && flag(10) {
                std::mem::forget(d);
            }
            s
        }
        15 => {
            c.reserve(op.how as usize & 31);
            c.contains_key(&k()) as u64
        }
        16 => {
            let copy = c.clone();
            drop(if flag(0) { copy } else { std::mem::replace(c, copy) });
            1
        }
        _ => {
            pins.fetch_xor(1 << op.key, Ordering::Relaxed);
            drop(c.insert_with_lifecycle(k(), v()));
            c.replace_with_lifecycle(k(), v(), flag(0)).map_or_else(|(k, v)| *k.0 as u64 + look(&v), |l| l.len() as u64)
        }
    }
}

fn main() {
    let drawn = std::collections::hash_map::RandomState::new().hash_one(1);
    let mut args = std::env::args().skip(1);
    let seed = args.next().and_then(|a| a.parse().ok()).unwrap_or(drawn);
    println!("WORKLOAD {seed}");
    let keep: Vec<String> = args.collect();
    let mut p = program(seed);
    for (t, ops) in p.ops.iter_mut().enumerate() {
        let mut i = 0;
        ops.retain(|_| {
            i += 1;
            keep.is_empty() || keep.contains(&format!("{t}:{}", i - 1))
        });
    }
    if std::env::var_os("QC_LIST").is_some() {
        println!(
            "LIST unsync={} keys={} hash={} trim={} pins={:x} shards={} items={} capacity={} hot={} ghost={}",
            p.unsync, p.keys, p.hash, p.trim, p.pins, p.shards, p.items, p.capacity, p.hot, p.ghost
        );
        for (t, ops) in p.ops.iter().enumerate() {
            for (i, op) in ops.iter().enumerate() {
                let names = if p.unsync { UNSYNC } else { SYNC };
                println!("LIST {t}:{i} {} {op:?}", names[op.code as usize]);
            }
        }
        return;
    }
    std::panic::set_hook(Box::new(|info| {
        // of the standard library, about misuse
        match info.payload_as_str() {
            Some(text) if text.starts_with("unsafe precondition") => eprintln!("PRECONDITION {text}"),
            _ => (),
        }
    }));
    let pins = Arc::new(AtomicU32::new(p.pins));
    let life = L { pins: pins.clone(), trim: p.trim };
    let options = OptionsBuilder::new()
        .shards(p.shards)
        .estimated_items_capacity(p.items)
        .weight_capacity(p.capacity)
        .hot_allocation(p.hot)
        .ghost_allocation(p.ghost)
        .build()
        .unwrap();
    let one = |op: Op, f: &mut dyn FnMut(Op) -> u64| {
        FUEL.set(op.fuel);
        let r = catch_unwind(AssertUnwindSafe(|| f(op))).unwrap_or(99);
        FUEL.set(0);
        r
    };
    let mut all = 0u64;
    let mut add = |x: u64| all = (all ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(17);
    if p.unsync {
        let mut c = Unsync::with_options(options, W, Hb(p.hash), life);
        for op in &p.ops[0] {
            add(one(*op, &mut |op| unsync_op(&mut c, &pins, op)));
        }
    } else {
        let c = Sync::with_options(options, W, Hb(p.hash), life);
        let results = std::thread::scope(|s| {
            let hs: Vec<_> = p
                .ops
                .iter()
                .map(|ops| s.spawn(|| ops.iter().map(|op| one(*op, &mut |op| sync_op(&c, &pins, op, p.keys))).collect::<Vec<_>>()))
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        });
        results.concat().into_iter().for_each(&mut add);
        add(c.len() as u64);
    }
    let ops: usize = p.ops.iter().map(|o| o.len()).sum();
    println!(
        "RUN {seed} {} {ops} {all:016x} {}",
        if p.unsync { 0 } else { p.ops.len() },
        FAULTS.iter().map(|f| f.load(Ordering::Relaxed).to_string()).collect::<Vec<_>>().join(" ")
    );
}
