//! The simulated users' keys, values, weighter, hasher and lifecycle. All of them are tracked and
//! all of them are (optionally) scheduling points, so other tasks run while the library is inside
//! user code.

use crate::engine::{engine, Fault};
use quick_cache::{Lifecycle, Weighter};
use std::borrow::Borrow;
use std::hash::{BuildHasher, Hash, Hasher};

pub const UP_HASH: i64 = 1;
pub const UP_EQ: i64 = 2;
pub const UP_CLONE: i64 = 4;
pub const UP_WEIGHT: i64 = 8;
pub const UP_PIN: i64 = 16;
pub const UP_EVICT: i64 = 32;
pub const UP_REQ: i64 = 64;
pub const UP_WAKE: i64 = 128;
pub const UP_DROP: i64 = 256;
pub const UP_PRED: i64 = 512;
pub const UP_ALL: i64 = 1023;

/// Panic payload of injected panics.
pub struct Injected;

macro_rules! cfg {
    ($($name: ident = $def: expr,)*) => {
        /// One run's configuration, everything is a plain number so replay files stay trivial.
        #[derive(Clone, Debug, PartialEq)]
        pub struct Cfg { $(pub $name: i64,)* }
        impl Default for Cfg {
            fn default() -> Self { Cfg { $($name: $def,)* } }
        }
        impl Cfg {
            pub fn pairs(&self) -> Vec<(&'static str, i64)> {
                vec![$((stringify!($name), self.$name),)*]
            }
            pub fn set(&mut self, name: &str, v: i64) -> bool {
                match name {
                    $(stringify!($name) => { self.$name = v; true })*
                    _ => false,
                }
            }
        }
    };
}

cfg! {
    // which driver runs this: 0 shared cache, 1 single-threaded cache, others see drivers
    driver = 0,
    // variant within a driver
    variant = 0,
    keys = 2,
    shards = 1,
    est_items = 64,
    cap = 10_000,
    hot_pm = 970,
    ghost_pm = 500,
    // 0 mixed, 1 all equal, 2 two hashes, 3 equal except shard bits, 4 identity
    hash = 0,
    // user code that's a scheduling point
    up = 0,
    // engine faults, see engine::F_*
    faults = 0,
    tick_ns = 1000,
    free_steps = 3000,
    fair_steps = 60_000,
    // 1: everything ever stored fits
    ample = 1,
    // before_evict zeroes weights of values whose id is a multiple of this (0: never)
    zero_every = 0,
    // 1: it halves them instead
    halve = 0,
    // weights and the capacity are this many bits larger than the scenario says
    wshift = 0,
    // 1: async calls are polled by whichever executor thread is free
    pool = 0,
    // how many of the evicted values on_evict keeps in the request state
    default_lc = 0,
    // values call back into the cache when dropped, end_request does too
    reenter = 0,
    p1 = 0,
    p2 = 0,
    p3 = 0,
    p4 = 0,
    // 1: C19 on the single-threaded cache
    single = 0,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LcEv {
    Begin,
    End,
    ReqDropped,
    Before { key: u32, vid: u32, w: u32, changed: bool },
    Evict { key: u32, vid: u32, w: u32 },
    Pin { key: u32, vid: u32, ans: bool },
    Pred { key: u32, vid: u32, keep: bool, panicked: bool },
}

#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub seq: u64,
    pub task: usize,
    /// Operation the task was executing, index into the history.
    pub op: usize,
    /// Request, 0 if not tied to one.
    pub req: u32,
    pub ev: LcEv,
}

pub const NO_OP: usize = usize::MAX;

#[derive(Default)]
pub struct World {
    pub cfg: Cfg,
    pub seq: u64,
    pub evs: Vec<Ev>,
    key_alive: Vec<bool>,
    pub live_keys: i64,
    /// Live key instances by key.
    pub live_by_key: Vec<i64>,
    val_alive: Vec<bool>,
    pub live_vals: i64,
    /// Live value instances by value id.
    pub live_by_vid: Vec<i64>,
    /// Weight of the stored instance, by value id.
    pub vid_weight: Vec<u32>,
    pub vid_key: Vec<u32>,
    pub vid_pinned: Vec<bool>,
    pub pin_key: Vec<bool>,
    pub requests: u32,
    /// Current operation of each task.
    pub cur_op: Vec<usize>,
    pub violation: Option<(String, String)>,
    /// Tasks currently inside a re-entrant call.
    pub in_reentry: u64,
    pub reenter: Option<std::rc::Rc<dyn Fn(u8)>>,
}

static mut WORLD: Option<World> = None;

#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    // Safety: one OS thread, references are never held across a scheduling point
    unsafe { WORLD.get_or_insert_with(World::default) }
}

impl World {
    pub fn reset(&mut self, cfg: &Cfg) {
        *self = World {
            cfg: cfg.clone(),
            ..World::default()
        };
        self.evs.reserve(64);
        let n = cfg.keys as usize + 1;
        self.live_by_key = vec![0; n];
        self.pin_key = vec![false; n];
        // value id 0 is never used
        self.vid_weight.push(0);
        self.vid_key.push(u32::MAX);
        self.vid_pinned.push(false);
        self.live_by_vid.push(0);
    }

    pub fn next_seq(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }

    pub fn ev(&mut self, req: u32, ev: LcEv) {
        let e = engine();
        let seq = self.next_seq();
        let task = if e.in_task() { e.task() } else { usize::MAX };
        let op = self.cur_op.get(task).copied().unwrap_or(NO_OP);
        e.note(match ev {
            LcEv::Begin => 1,
            LcEv::End => 2,
            LcEv::ReqDropped => 3,
            LcEv::Before { vid, .. } => 4 + ((vid as u64) << 8),
            LcEv::Evict { vid, .. } => 5 + ((vid as u64) << 8),
            LcEv::Pin { vid, ans, .. } => 6 + ans as u64 + ((vid as u64) << 8),
            LcEv::Pred { vid, keep, .. } => 8 + keep as u64 + ((vid as u64) << 8),
        });
        self.evs.push(Ev {
            seq,
            task,
            op,
            req,
            ev,
        });
    }
}

/// Reports a violation found while running; ends the run.
pub fn fail(class: &str, msg: String) {
    let w = world();
    if w.violation.is_none() {
        w.violation = Some((class.to_string(), msg));
    }
    if engine().in_task() {
        engine().abort();
    }
}

fn up(bit: i64) {
    if world().cfg.up & bit != 0 {
        engine().preempt();
    }
}

pub fn user_point(bit: i64) {
    up(bit);
}

/// The borrowed form of a key, what lookups use.
#[derive(Debug)]
pub struct KQ(pub u32);

impl PartialEq for KQ {
    fn eq(&self, o: &KQ) -> bool {
        up(UP_EQ);
        self.0 == o.0
    }
}
impl Eq for KQ {}

impl Hash for KQ {
    fn hash<S: Hasher>(&self, s: &mut S) {
        s.write_u32(self.0)
    }
}

/// A tracked key.
#[derive(Debug)]
pub struct K {
    q: KQ,
    uid: u32,
}

impl K {
    pub fn new(id: u32) -> K {
        let w = world();
        let uid = w.key_alive.len() as u32;
        w.key_alive.push(true);
        w.live_keys += 1;
        w.live_by_key[id as usize] += 1;
        K { q: KQ(id), uid }
    }
    pub fn id(&self) -> u32 {
        self.q.0
    }
}

impl Clone for K {
    fn clone(&self) -> K {
        K::new(self.q.0)
    }
}

impl Drop for K {
    fn drop(&mut self) {
        let w = world();
        if !w.key_alive[self.uid as usize] {
            fail("double-drop", format!("key {} dropped twice", self.q.0));
            return;
        }
        w.key_alive[self.uid as usize] = false;
        w.live_keys -= 1;
        w.live_by_key[self.q.0 as usize] -= 1;
    }
}

impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.q == o.q
    }
}
impl Eq for K {}
impl Hash for K {
    fn hash<S: Hasher>(&self, s: &mut S) {
        self.q.hash(s)
    }
}
impl Borrow<KQ> for K {
    fn borrow(&self) -> &KQ {
        &self.q
    }
}
impl ToOwned for KQ {
    type Owned = K;
    fn to_owned(&self) -> K {
        crate::exec::clone_panics();
        K::new(self.0)
    }
}

/// A tracked value. `vid` identifies the write that made it; clones share it.
#[derive(Debug)]
pub struct V {
    pub vid: u32,
    pub key: u32,
    pub w: u32,
    pub pinned: bool,
    pub stored: bool,
    uid: u32,
}

fn new_val_uid(vid: u32) -> u32 {
    let w = world();
    let uid = w.val_alive.len() as u32;
    w.val_alive.push(true);
    w.live_vals += 1;
    w.live_by_vid[vid as usize] += 1;
    uid
}

impl V {
    pub fn new(key: u32, weight: u32, pinned: bool) -> V {
        let w = world();
        let vid = w.vid_weight.len() as u32;
        w.vid_weight.push(weight);
        w.vid_key.push(key);
        w.vid_pinned.push(pinned);
        w.live_by_vid.push(0);
        let uid = new_val_uid(vid);
        V {
            vid,
            key,
            w: weight,
            pinned,
            stored: true,
            uid,
        }
    }

    /// Changes the weight in place (mutable borrows of the single-threaded cache).
    pub fn set_weight(&mut self, weight: u32) {
        self.w = weight;
        world().vid_weight[self.vid as usize] = weight;
    }
}

impl Clone for V {
    fn clone(&self) -> V {
        up(UP_CLONE);
        crate::exec::clone_panics();
        let uid = new_val_uid(self.vid);
        V {
            vid: self.vid,
            key: self.key,
            w: self.w,
            pinned: self.pinned,
            stored: false,
            uid,
        }
    }
}

impl Drop for V {
    fn drop(&mut self) {
        let w = world();
        if self.uid as usize >= w.val_alive.len() || !w.val_alive[self.uid as usize] {
            fail("double-drop", format!("value {} dropped twice", self.vid));
            return;
        }
        w.val_alive[self.uid as usize] = false;
        w.live_vals -= 1;
        w.live_by_vid[self.vid as usize] -= 1;
        if self.stored {
            reenter(1);
        }
        up(UP_DROP);
    }
}

/// User code calling back into the cache; what it calls is the driver's business.
pub fn reenter(kind: u8) {
    let w = world();
    if w.cfg.reenter & kind as i64 == 0 || !engine().in_task() {
        return;
    }
    let bit = 1u64 << engine().task();
    if w.in_reentry & bit != 0 {
        return;
    }
    if let Some(f) = w.reenter.clone() {
        engine().count(Fault::Reentry);
        w.in_reentry |= bit;
        let user = crate::exec::Polling::set(false);
        f(kind);
        drop(user);
        world().in_reentry &= !bit;
    }
}

#[derive(Clone, Debug)]
pub struct We;

impl Weighter<K, V> for We {
    fn weight(&self, _k: &K, v: &V) -> u64 {
        up(UP_WEIGHT);
        (v.w as u64) << world().cfg.wshift
    }
}

/// A weight or capacity of the library's in the scenario's terms.
pub fn unscale(x: u64) -> u64 {
    let s = world().cfg.wshift;
    if x & ((1 << s) - 1) != 0 {
        fail("weight", format!("{x} isn't a sum of weights, all of which are multiples of 2^{s}"));
    }
    x >> s
}

#[derive(Clone, Debug)]
pub struct H;

pub struct Hs(u64);

impl BuildHasher for H {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        up(UP_HASH);
        Hs(0)
    }
}

pub fn hash_of(mode: i64, id: u64) -> u64 {
    let mixed = {
        let mut s = id ^ 0xabcdef;
        crate::rng::splitmix(&mut s)
    };
    match mode {
        1 => 0x1234_5678_9abc_def0,
        2 => {
            let mut s = id & 1;
            crate::rng::splitmix(&mut s)
        }
        3 => 0x1200_0000_0000_0055 | ((id & 0xff) << 32),
        4 => id,
        // few distinct tags, so that probing sees false matches
        5 => (mixed & 0x0000_ffff_0000_0003) | (3 << 57),
        _ => mixed,
    }
}

impl Hasher for Hs {
    fn finish(&self) -> u64 {
        hash_of(world().cfg.hash, self.0)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 << 8) | *b as u64;
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.0 = x as u64;
    }
}

/// Records everything the library tells a lifecycle.
#[derive(Clone, Debug)]
pub struct Lc;

#[derive(Debug)]
pub struct Req {
    pub id: u32,
    pub task: usize,
    pub evicted: Vec<(u32, u32)>,
    /// Kept until the request ends when re-entrancy is tested.
    pub held: Vec<(K, V)>,
    pub ended: bool,
}

impl Drop for Req {
    fn drop(&mut self) {
        if !self.ended {
            world().ev(self.id, LcEv::ReqDropped);
        }
    }
}

impl Lifecycle<K, V> for Lc {
    type RequestState = Req;

    fn is_pinned(&self, k: &K, v: &V) -> bool {
        up(UP_PIN);
        let w = world();
        let ans = v.pinned || w.pin_key[k.id() as usize];
        w.ev(
            0,
            LcEv::Pin {
                key: k.id(),
                vid: v.vid,
                ans,
            },
        );
        ans
    }

    fn begin_request(&self) -> Req {
        up(UP_REQ);
        let w = world();
        w.requests += 1;
        let id = w.requests;
        w.ev(id, LcEv::Begin);
        let e = engine();
        Req {
            id,
            task: if e.in_task() { e.task() } else { usize::MAX },
            evicted: Vec::new(),
            held: Vec::new(),
            ended: false,
        }
    }

    fn before_evict(&self, req: &mut Req, k: &K, v: &mut V) {
        up(UP_EVICT);
        let w = world();
        let every = w.cfg.zero_every as u32;
        let changed = every != 0 && v.vid % every == 0 && v.w != 0;
        if changed {
            let halve = w.cfg.halve != 0;
            v.set_weight(if halve { v.w.div_ceil(2) } else { 0 });
            engine().count(if halve { Fault::WeightHalved } else { Fault::WeightZeroed });
        }
        w.ev(
            req.id,
            LcEv::Before {
                key: k.id(),
                vid: v.vid,
                w: v.w,
                changed,
            },
        );
    }

    fn on_evict(&self, req: &mut Req, k: K, v: V) {
        up(UP_EVICT);
        world().ev(
            req.id,
            LcEv::Evict {
                key: k.id(),
                vid: v.vid,
                w: v.w,
            },
        );
        if k.id() != v.key {
            fail(
                "wrong-key",
                format!("value {} of key {} evicted with key {}", v.vid, v.key, k.id()),
            );
        }
        req.evicted.push((k.id(), v.vid));
        if world().cfg.reenter != 0 {
            req.held.push((k, v));
        }
    }

    fn end_request(&self, mut req: Req) {
        up(UP_REQ);
        world().ev(req.id, LcEv::End);
        req.ended = true;
        reenter(2);
    }
}
