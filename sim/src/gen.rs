//! Workloads: swarm-style random scenarios, one family per property.

use crate::engine::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::types::*;

/// Relative frequencies of operations.
#[derive(Clone, Default)]
pub struct Mix(Vec<(Code, u32)>);

impl Mix {
    pub fn of(xs: &[(Code, u32)]) -> Mix {
        Mix(xs.to_vec())
    }

    /// Drops some of the entries so runs differ in what they're made of.
    fn swarm(&self, rng: &mut Rng) -> Mix {
        let kept: Vec<_> = self.0.iter().copied().filter(|_| !rng.pm(250)).collect();
        if kept.len() < 2 {
            self.clone()
        } else {
            Mix(kept)
        }
    }

    fn pick(&self, rng: &mut Rng) -> Code {
        let total: u32 = self.0.iter().map(|x| x.1).sum();
        let mut n = rng.below(total as usize) as u32;
        for (c, w) in &self.0 {
            if n < *w {
                return *c;
            }
            n -= w;
        }
        unreachable!()
    }
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub cfg: Cfg,
    pub mix: Mix,
    /// Mix of what's done while a load is in flight.
    pub sub: Mix,
    /// Weights values may have.
    pub weights: Vec<u32>,
    /// Overrides `weights` by key.
    pub key_max: Vec<u32>,
    pub pin_pm: u32,
    /// Probability that a load fails.
    pub fail_pm: u32,
    pub panics: bool,
    pub timeouts: bool,
    pub retain_panics: bool,
    pub max_sub: usize,
}

const T: [i64; 6] = [0, 3_000, 20_000, 100_000, 1_000_000, 30_000_000];

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, cfg: Cfg, mix: &Mix) -> Self {
        let mix = mix.swarm(rng);
        Gen {
            rng,
            cfg,
            mix,
            sub: Mix::of(&[
                (Code::Yield, 3),
                (Code::Sleep, 2),
                (Code::Get, 1),
            ]),
            weights: vec![1],
            key_max: Vec::new(),
            pin_pm: 0,
            fail_pm: 400,
            panics: true,
            timeouts: true,
            retain_panics: false,
            max_sub: 2,
        }
    }

    pub fn op(&mut self, depth: usize, min_key: u32) -> Op {
        let mix = if depth == 0 { self.mix.clone() } else { self.sub.clone() };
        let code = mix.pick(self.rng);
        self.op_of(code, depth, min_key)
    }

    pub fn op_of(&mut self, code: Code, depth: usize, min_key: u32) -> Op {
        let keys = self.cfg.keys as u32;
        let mut o = Op::new(code, self.rng.below(keys as usize) as u32);
        let loads = matches!(
            code,
            Code::Gvog | Code::Goi | Code::GvogAsync | Code::GoiAsync
        );
        if loads && depth > 0 {
            // loads nest only towards greater keys: users who nest them both ways deadlock
            if min_key + 1 >= keys {
                o.code = Code::Yield;
                o.a = 2;
                return o;
            }
            o.k = min_key + 1 + self.rng.below((keys - min_key - 1) as usize) as u32;
        }
        o.w = self.rng.pick(&self.weights);
        if let Some(max) = self.key_max.get(o.k as usize) {
            let max = *max;
            o.w = if self.rng.coin() { max } else { self.rng.range(0, max as u64) as u32 };
        }
        o.pin = self.pin_pm > 0 && self.rng.pm(self.pin_pm);
        match code {
            Code::Replace | Code::ReplaceLc => o.a = self.rng.coin() as i64,
            Code::Retain => {
                o.a = self.rng.pick(&[0, 0, 1, 1, 2, 3, 4, 5]);
                o.c = if o.a == 1 { self.rng.below(keys as usize) as i64 } else { 2 };
                if self.retain_panics && self.rng.pm(250) {
                    o.b = self.rng.range(1, 3) as i64;
                }
            }
            Code::Reserve => o.a = self.rng.pick(&[0, 1, 50, 200]),
            Code::Sleep => o.a = self.rng.pick(&[2_000, 15_000, 60_000, 300_000, 2_500_000]),
            Code::Yield => o.a = self.rng.range(1, 6) as i64,
            Code::PinKey => o.a = self.rng.coin() as i64,
            _ if loads => {
                if code == Code::Gvog {
                    o.a = if self.timeouts && self.rng.coin() { self.rng.pick(&T) } else { -1 };
                    if o.a > 0 && self.rng.pm(300) {
                        o.a += self.rng.below(1_000) as i64;
                    }
                    if self.timeouts && self.rng.pm(25) {
                        o.a = FOREVER;
                    }
                }
                o.b = if self.rng.pm(self.fail_pm) {
                    if self.panics && self.rng.pm(350) {
                        FIN_PANIC
                    } else {
                        FIN_DROP
                    }
                } else if self.rng.pm(300) && matches!(code, Code::Gvog | Code::GvogAsync) {
                    FIN_INSERT_LC
                } else {
                    FIN_INSERT
                };
                o.c = self.rng.pick(&[0, 0, 1, 2, 4]);
                if depth < 2 {
                    for _ in 0..self.rng.below(self.max_sub + 1) {
                        let s = self.op(depth + 1, o.k);
                        o.sub.push(s);
                    }
                }
            }
            _ => (),
        }
        o
    }

    pub fn ops(&mut self, lo: u64, hi: u64) -> Vec<Op> {
        let n = self.rng.range(lo, hi);
        (0..n).map(|_| self.op(0, 0)).collect()
    }

    pub fn phase(&mut self, tasks: (u64, u64), ops: (u64, u64)) -> Vec<Vec<Op>> {
        let n = self.rng.range(tasks.0, tasks.1);
        (0..n).map(|_| self.ops(ops.0, ops.1)).collect()
    }
}

pub const FAULTS_SYNC: u32 = F_SPURIOUS_UNPARK | F_CLOCK_LEAP | F_STALL | F_WRITERS_FIRST;
pub const FAULTS_ALL: u32 =
    FAULTS_SYNC | F_SPURIOUS_POLL | F_WAKER_CHANGE | F_CANCEL | F_WEAK_CAS;

/// Configuration every family starts from.
pub fn base(rng: &mut Rng, faults: u32) -> Cfg {
    let mut c = Cfg {
        keys: rng.range(1, 4) as i64,
        ..Cfg::default()
    };
    if rng.pm(250) {
        c.shards = rng.pick(&[2, 2, 2, 4, 4, 4, 8, 16]);
        c.est_items = 32 * c.shards;
    } else {
        // few ghosts, so that they come and go
        c.est_items = rng.pick(&[64, 64, 0, 1, 2, 4, 8]);
    }
    c.hash = rng.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 5]);
    c.up = match rng.below(10) {
        0..=3 => 0,
        4..=5 => UP_ALL,
        _ => (rng.next() & rng.next()) as i64 & UP_ALL,
    };
    // each kind is on in half of the runs, a quarter of the runs is free of faults
    c.faults = if rng.pm(250) {
        (faults & F_WRITERS_FIRST & rng.next() as u32) as i64
    } else {
        (faults & rng.next() as u32) as i64
    };
    c.ghost_pm = rng.pick(&[500, 500, 0, 100, 1000]);
    if rng.pm(120) {
        c.wshift = rng.pick(&[31, 32, 33, 45]);
    }
    c.pool = rng.pm(400) as i64;
    c
}

/// Small enough that evictions and refusals happen all the time.
pub fn tight(rng: &mut Rng, c: &mut Cfg) -> Vec<u32> {
    c.ample = 0;
    c.hot_pm = rng.pick(&[970, 970, 900, 500, 250, 1000]);
    if rng.pm(10) {
        c.hot_pm = 0;
    }
    let per = if rng.pm(40) { rng.below(2) as i64 } else { rng.range(2, 7) as i64 };
    c.cap = per * c.shards;
    if per > 0 && c.wshift == 0 && rng.pm(300) {
        // rounded up per shard
        c.cap -= rng.below(c.shards as usize) as i64;
    }
    let per = per as u32;
    match rng.below(3) {
        0 => vec![1],
        1 => vec![1, 1, 2, 3],
        _ => vec![0, 1, 1, 2, per / 2, per, per + 1],
    }
}

/// Values whose `clone` panics now and then.
fn copies_fail(rng: &mut Rng, c: &mut Cfg) {
    if rng.pm(120) {
        c.faults |= F_CLONE_PANIC as i64;
    }
}

/// before_evict takes weight off some items.
fn shrinking(rng: &mut Rng, c: &mut Cfg, pm: u32) {
    if rng.pm(pm) {
        c.zero_every = rng.range(1, 5) as i64;
        c.halve = rng.pm(300) as i64;
    }
}

/// Now and then far more keys and room, so that tables and slabs grow with everything in them.
fn large(rng: &mut Rng, c: &mut Cfg) -> bool {
    if !rng.pm(12) {
        return false;
    }
    c.ample = 0;
    c.keys = rng.range(30, 120) as i64;
    c.cap = rng.range(8, 90) as i64 * c.shards;
    c.est_items = rng.pick(&[4, 32, 128]) * c.shards;
    c.free_steps = 20_000;
    true
}

/// Now and then someone stores many other keys meanwhile: the table is rebuilt, slots are reused.
fn crowd(g: &mut Gen, s: &mut Scenario) {
    if !g.rng.pm(15) {
        return;
    }
    let from = g.cfg.keys as u32;
    let n = g.rng.pick(&[8, 20, 60]);
    g.cfg.keys += n as i64;
    let mut ops = Vec::new();
    for k in from..from + n {
        let code = g.rng.pick(&[Code::Insert, Code::Insert, Code::Insert, Code::InsertLc, Code::Goi]);
        ops.push(Op {
            w: 1,
            ..Op::new(code, k)
        });
        if g.rng.pm(200) {
            ops.push(Op::new(Code::Remove, from + g.rng.below(n as usize) as u32));
        }
    }
    s.phases.last_mut().unwrap().push(ops);
}

fn mixed_all() -> Mix {
    Mix::of(&[
        (Code::Get, 6),
        (Code::Peek, 3),
        (Code::Contains, 2),
        (Code::Insert, 6),
        (Code::InsertLc, 2),
        (Code::Replace, 3),
        (Code::ReplaceLc, 1),
        (Code::Remove, 4),
        (Code::Retain, 2),
        (Code::Clear, 1),
        (Code::Gvog, 3),
        (Code::Goi, 3),
        (Code::GvogAsync, 2),
        (Code::GoiAsync, 3),
        (Code::Reserve, 1),
    ])
}

fn sub_all() -> Mix {
    Mix::of(&[
        (Code::Yield, 4),
        (Code::Sleep, 2),
        (Code::Get, 2),
        (Code::Insert, 2),
        (Code::Remove, 2),
        (Code::Clear, 1),
        (Code::Retain, 1),
        (Code::Gvog, 1),
        (Code::GoiAsync, 1),
    ])
}

fn sub_quiet() -> Mix {
    Mix::of(&[
        (Code::Yield, 4),
        (Code::Sleep, 3),
        (Code::Get, 1),
        (Code::Gvog, 1),
        (Code::Goi, 1),
    ])
}

fn loads() -> Mix {
    Mix::of(&[
        (Code::Gvog, 5),
        (Code::Goi, 4),
        (Code::GvogAsync, 4),
        (Code::GoiAsync, 5),
    ])
}

fn with(m: &Mix, more: &[(Code, u32)]) -> Mix {
    let mut m = m.clone();
    m.0.extend_from_slice(more);
    m
}

/// Histories for the single-threaded cache.
fn unsync(prop: &str, rng: &mut Rng) -> Scenario {
    let mut s = Scenario::default();
    let mut cfg = base(rng, 0);
    cfg.driver = 1;
    cfg.shards = 1;
    cfg.up = 0;
    cfg.keys = rng.range(2, 8) as i64;
    let weights = if rng.pm(800) { tight(rng, &mut cfg) } else { vec![0, 1, 2] };
    let large = large(rng, &mut cfg);
    shrinking(rng, &mut cfg, 250);
    if prop == "C11" && rng.pm(250) {
        s.phases.push(vec![plain(rng, &mut cfg)]);
        s.cfg = cfg;
        return s;
    }
    let pins = prop == "C09" || (prop != "C07" && rng.pm(200));
    let dynamic = pins && rng.coin();
    let grow = prop != "C11" || rng.coin();
    let mut xs = vec![
        (Code::Get, 5),
        (Code::Peek, 1),
        (Code::Contains, 1),
        (Code::Insert, 8),
        (Code::InsertLc, 2),
        (Code::Replace, 3),
        (Code::ReplaceLc, 1),
        (Code::Remove, 3),
        (Code::Retain, 1),
        (Code::Reserve, 1),
    ];
    if prop != "C14" {
        xs.extend([(Code::Goi, 3), (Code::GoiMut, 3), (Code::GuardRef, 3), (Code::GuardMut, 3)]);
    }
    xs.extend([(Code::GetMut, 3), (Code::PeekMut, 2)]);
    if rng.pm(400) {
        xs.extend([(Code::Clear, 1), (Code::Drain, 1), (Code::CloneCache, 1), (Code::Iter, 1)]);
    }
    if dynamic {
        xs.push((Code::PinKey, 3));
    }
    let mut g = Gen::new(rng, cfg, &Mix::of(&xs));
    g.weights = weights;
    g.fail_pm = g.rng.pick(&[100, 300, 600]);
    g.pin_pm = if pins { g.rng.pick(&[200, 500]) } else { 0 };
    g.retain_panics = prop != "C08" && prop != "C11";
    let n = g.rng.range(1, 3);
    for _ in 0..n {
        let n = if large { g.rng.range(80, 300) } else { g.rng.pick(&[3, 8, 20, 40]) };
        let mut ops: Vec<Op> = (0..n).map(|_| g.op(0, 0)).collect();
        for o in &mut ops {
            o.sub.clear();
            match o.code {
                Code::GetMut | Code::PeekMut | Code::GoiMut | Code::GuardMut => {
                    o.a = if grow && g.rng.pm(600) { g.rng.pick(&g.weights) as i64 } else { -1 };
                    o.c = g.rng.pm(60) as i64;
                }
                Code::Drain => o.a = g.rng.pick(&[0, 1, 2, 100]),
                Code::CloneCache => o.a = g.rng.coin() as i64,
                _ => (),
            }
            if matches!(o.code, Code::GoiMut | Code::GuardRef | Code::GuardMut) {
                o.b = if g.rng.pm(g.fail_pm) {
                    if g.rng.pm(350) { FIN_PANIC } else { FIN_DROP }
                } else if g.rng.pm(300) && o.code != Code::GoiMut {
                    FIN_INSERT_LC
                } else {
                    FIN_INSERT
                };
            }
        }
        s.phases.push(vec![ops]);
    }
    s.cfg = g.cfg;
    s
}

/// Inserts of fresh keys, all of one weight, and lookups of recent ones: a full cache stays full.
fn plain(rng: &mut Rng, cfg: &mut Cfg) -> Vec<Op> {
    cfg.ample = 0;
    cfg.zero_every = 0;
    if cfg.shards == 1 {
        cfg.hash = 0;
    }
    let per = rng.range(2, 9) as i64;
    let w = rng.pick(&[1, 1, 2, 3]);
    cfg.cap = (per * w as i64 + rng.below(w as usize) as i64) * cfg.shards;
    cfg.hot_pm = rng.pick(&[970, 900, 750, 500, 300, 1000]);
    cfg.ghost_pm = rng.pick(&[0, 500, 1000]);
    let mut ops = Vec::new();
    let mut next = 0;
    let n = rng.pick(&[10, 20, 40]);
    let gets = rng.pick(&[200, 500, 700]);
    for _ in 0..n {
        let recent = |rng: &mut Rng| (next as i64 - 1 - rng.below(per as usize) as i64).max(0) as u32;
        let mut o = if next > 0 && rng.pm(gets) {
            Op::new(Code::Get, recent(rng))
        } else if next > 0 && rng.pm(100) {
            Op::new(rng.pick(&[Code::Remove, Code::Peek, Code::Replace]), recent(rng))
        } else {
            next += 1;
            Op::new(rng.pick(&[Code::Insert, Code::Insert, Code::InsertLc]), next - 1)
        };
        o.w = w;
        if o.code == Code::Replace {
            o.a = rng.coin() as i64;
        }
        ops.push(o);
    }
    cfg.keys = next as i64;
    ops
}

/// `long`: enough to tell growth from what's legitimate. Otherwise a few rounds: any block still
/// there when the cache is gone will do.
fn churn(rng: &mut Rng, long: bool) -> Scenario {
    let mut s = Scenario::default();
    let mut cfg = Cfg {
        driver: 2,
        keys: 1,
        variant: rng.coin() as i64,
        ..Cfg::default()
    };
    cfg.est_items = rng.pick(&[1, 8, 32, 64]);
    cfg.cap = if long { rng.pick(&[1, 16, 50, 300, 1000]) } else { rng.pick(&[1, 4, 16]) };
    cfg.p1 = rng.pick(&[1, 1, 50]);
    cfg.cap *= cfg.p1;
    cfg.shards = rng.pick(&[1, 1, 2]);
    if long && rng.pm(250) {
        cfg.shards = rng.pick(&[4, 8]);
        cfg.est_items = rng.pick(&[32, 48, 64]) * cfg.shards;
    }
    cfg.hot_pm = rng.pick(&[970, 500, 900]);
    cfg.ghost_pm = rng.pick(&[500, 0, 1000]);
    cfg.hash = rng.pick(&[0, 0, 0, 5]);
    cfg.free_steps = 2_000_000;
    cfg.fair_steps = 20_000_000;
    cfg.faults = (FAULTS_SYNC & rng.next() as u32) as i64;
    let mix = Mix::of(&[
        (Code::Insert, 3),
        (Code::Get, 1),
        (Code::Remove, 2),
        (Code::Replace, 1),
        (Code::Gvog, 4),
        (Code::Goi, 3),
        (Code::GoiAsync, 3),
        (Code::Retain, 1),
        (Code::Clear, 1),
        (Code::Reserve, 1),
    ]);
    let tasks = match cfg.variant {
        0 if long => rng.range(1, 2),
        0 => rng.range(2, 4),
        _ => 1,
    };
    for _ in 0..rng.range(1, 3) {
        let mut phase = Vec::new();
        for _ in 0..tasks {
            let mut ops = Vec::new();
            for _ in 0..rng.range(1, 3) {
                let mut o = Op::new(mix.pick(rng), if long { rng.pick(&[0, 0, 5, 60]) } else { rng.pick(&[0, 1, 1, 5]) });
                o.a = if long { rng.pick(&[3000, 6000]) } else { rng.range(2, 20) as i64 };
                o.b = rng.pick(&[FIN_INSERT, FIN_DROP, FIN_DROP, FIN_PANIC]);
                o.c = rng.pick(&[0, 1, 2, 9]);
                ops.push(o);
            }
            phase.push(ops);
        }
        s.phases.push(phase);
    }
    s.cfg = cfg;
    s
}

fn diff(rng: &mut Rng) -> Scenario {
    let mut s = Scenario::default();
    let mut cfg = base(rng, F_STALL | F_WRITERS_FIRST);
    cfg.driver = 3;
    if cfg.shards > 4 || rng.coin() {
        cfg.shards = 1;
    }
    cfg.est_items = if cfg.shards > 1 { 32 * cfg.shards } else { rng.pick(&[4, 8, 64]) };
    // 0: observers, 1: soft replaces too
    cfg.variant = rng.coin() as i64;
    // 1: single-threaded cache
    cfg.p1 = rng.pm(400) as i64;
    if cfg.p1 == 1 {
        cfg.up = 0;
    }
    cfg.keys = rng.range(4, 12) as i64;
    cfg.ample = 0;
    cfg.hot_pm = rng.pick(&[970, 900, 750, 500]);
    let per = rng.range(4, 9) as i64;
    cfg.cap = per * cfg.shards;
    cfg.tick_ns = 100;
    let hot = (per as f64 * (cfg.hot_pm as f64 / 1000.0)) as u32;
    // the weight is the key's, so that any replace keeps it
    let by_key: Vec<u32> = (0..cfg.keys).map(|_| rng.pick(&[1, 1, 1, 2, 3, 0]).min(hot)).collect();
    let base_mix = if cfg.p1 == 1 {
        Mix::of(&[(Code::Insert, 10), (Code::Get, 6), (Code::Remove, 1), (Code::Goi, 2), (Code::GuardRef, 2), (Code::GetMut, 1), (Code::Replace, 1), (Code::Retain, 1)])
    } else {
        Mix::of(&[(Code::Insert, 10), (Code::Get, 6), (Code::Remove, 1), (Code::Goi, 2), (Code::Gvog, 2), (Code::GoiAsync, 1), (Code::Replace, 1), (Code::Retain, 1)])
    };
    let mut watch = vec![
        (Code::Peek, 6),
        (Code::Contains, 4),
        (Code::Len, 1),
        (Code::Weight, 1),
        (Code::IsEmpty, 1),
        (Code::Capacity, 1),
        (Code::Reserve, 1),
    ];
    if cfg.p1 == 1 {
        watch.extend([(Code::PeekMut, 4), (Code::Iter, 1)]);
    }
    let soft = cfg.variant == 1;
    if soft {
        watch.push((Code::Replace, 12));
    }
    let keys = cfg.keys;
    let p1 = cfg.p1;
    let mut g = Gen::new(rng, cfg, &base_mix);
    g.mix = base_mix;
    g.fail_pm = 150;
    g.timeouts = false;
    g.max_sub = 0;
    let n = g.rng.pick(&[6, 12, 24]);
    let mut ops: Vec<Op> = (0..n).map(|_| g.op(0, 0)).collect();
    // a value of another weight each time, unless others replace them without knowing it
    let any = (p1 == 1 || !soft) && g.rng.coin();
    for o in &mut ops {
        o.w = if any { g.rng.pick(&[1, 1, 2, 3, 0, 0]).min(hot) } else { by_key[o.k as usize] };
        if o.code == Code::Retain {
            o.a = g.rng.pick(&[0, 1, 3]);
            o.c = 1;
        }
        if o.code == Code::GetMut {
            o.a = -1;
        }
        o.sub.clear();
    }
    g.mix = Mix::of(&watch);
    let extra = |g: &mut Gen| {
        let mut o = g.op(0, 0);
        o.w = by_key[o.k as usize];
        o.c = crate::diff::EXTRA;
        match o.code {
            Code::Replace if soft && g.rng.pm(850) => o.a = 1,
            // of a key that was never there
            Code::Replace => o.k = keys as u32 + g.rng.below(2) as u32,
            Code::PeekMut => o.a = -1,
            _ => (),
        }
        o
    };
    let mut phase = Vec::new();
    if p1 == 1 {
        let mut merged = Vec::new();
        for o in ops {
            for _ in 0..g.rng.below(4) {
                merged.push(extra(&mut g));
            }
            merged.push(o);
        }
        phase.push(merged);
    } else {
        let len = ops.len();
        phase.push(ops);
        for _ in 0..g.rng.range(1, 3) {
            phase.push((0..g.rng.range(2, 2 * len as u64)).map(|_| extra(&mut g)).collect());
        }
    }
    s.phases.push(phase);
    g.cfg.keys += 2;
    s.cfg = g.cfg;
    s
}

fn scan(rng: &mut Rng) -> Scenario {
    let mut s = Scenario::default();
    let mut cfg = base(rng, F_STALL | F_WRITERS_FIRST);
    cfg.driver = 4;
    cfg.shards = 1;
    cfg.hash = 0;
    cfg.ample = 0;
    cfg.tick_ns = 100;
    cfg.variant = rng.below(4) as i64;
    cfg.cap = rng.range(3, 14) as i64;
    let cap = cfg.cap;
    let target = |pm: i64| (cap as f64 * (pm as f64 / 1000.0)) as i64;
    cfg.hot_pm = rng.pick(&[970, 900, 750, 500, 300]);
    if target(cfg.hot_pm) < 1 || (cfg.variant == 2 && cap - target(cfg.hot_pm) < 2) {
        cfg.hot_pm = 500;
        cfg.cap = cfg.cap.max(4);
    }
    let cap = cfg.cap;
    let target = (cap as f64 * (cfg.hot_pm as f64 / 1000.0)) as i64;
    cfg.est_items = rng.pick(&[1, 2, 4, 4, 16, 16, 64]);
    cfg.ghost_pm = if cfg.variant == 2 { rng.pick(&[1000, 1000, 500]) } else { rng.pick(&[500, 0, 1000]) };
    let n = match cfg.variant {
        0 => rng.range(1, target as u64) as i64,
        _ => target,
    };
    cfg.p1 = n;
    cfg.p2 = n;
    let mut prep: Vec<Op> = (0..n).map(|k| Op::new(Code::Insert, k as u32)).collect();
    // by a lookup, or a lookup-or-load that finds it
    let odd = rng.pm(400);
    let fetch = |rng: &mut Rng, k: i64| {
        let code = if odd { rng.pick(&[Code::Get, Code::Goi, Code::Gvog, Code::GoiAsync, Code::GvogAsync]) } else { Code::Get };
        Op { a: if code == Code::Get { 0 } else { -1 }, ..Op::new(code, k as u32) }
    };
    // new values for fetched items
    let overwrite = |rng: &mut Rng, prep: &mut Vec<Op>, from: i64, to: i64| {
        for _ in 0..rng.pick(&[0, 0, 1, 2]) {
            let code = rng.pick(&[Code::Insert, Code::InsertLc, Code::Replace, Code::ReplaceLc]);
            prep.push(Op { a: rng.coin() as i64, ..Op::new(code, rng.range(from as u64, to as u64 - 1) as u32) });
        }
    };
    match cfg.variant {
        0 => {
            for k in 0..n {
                for _ in 0..rng.pick(&[1, 1, 2, 3]) {
                    prep.push(fetch(rng, k));
                }
            }
            overwrite(rng, &mut prep, 0, n);
            cfg.p3 = n;
        }
        1 => {
            // some hot items are fetched, at least as many as there's room on probation aren't
            let room = (cap - target).min(n);
            let m = rng.range(1, room.max(1) as u64) as i64;
            cfg.p2 = n + m;
            cfg.p3 = cfg.p2;
            let fetched = rng.range(0, (n - m).max(0) as u64) as i64;
            let off = rng.below(n as usize) as i64;
            for i in 0..fetched {
                let k = ((off + i) % n) as u32;
                for _ in 0..rng.range(1, 3) {
                    prep.push(Op::new(Code::Get, k));
                }
            }
            for k in n..n + m {
                prep.push(Op::new(Code::Insert, k as u32));
            }
            for k in n..n + m {
                prep.push(fetch(rng, k));
            }
            overwrite(rng, &mut prep, n, n + m);
        }
        3 => {
            let m = rng.range(0, (cap - target) as u64 + 2) as i64;
            cfg.p2 = n + m;
            cfg.p3 = cfg.p2 + rng.range(1, 2.min(n) as u64) as i64;
            for k in n..cfg.p2 {
                prep.push(Op::new(Code::Insert, k as u32));
            }
        }
        _ => {
            cfg.p3 = n + 1;
            prep.push(Op::new(Code::Insert, n as u32));
        }
    }
    s.phases.push(vec![prep]);
    let mut next = cfg.p3 as u32;
    let load = cfg.variant == 0 && rng.coin();
    let phase = |rng: &mut Rng, next: &mut u32, len: u64, readers: bool| {
        let mut p = Vec::new();
        for _ in 0..rng.range(1, 3) {
            let mut ops = Vec::new();
            for _ in 0..len {
                let code = if load {
                    rng.pick(&[Code::Insert, Code::InsertLc, Code::Gvog, Code::Goi, Code::GoiAsync, Code::GvogAsync])
                } else {
                    rng.pick(&[Code::Insert, Code::Insert, Code::InsertLc])
                };
                let mut o = Op::new(code, *next);
                *next += 1;
                if code == Code::Gvog {
                    o.a = -1;
                }
                ops.push(o);
            }
            p.push(ops);
        }
        if readers {
            p.push((0..rng.range(1, 10)).map(|_| Op::new(rng.pick(&[Code::Get, Code::Peek, Code::Contains]), rng.below(n as usize) as u32)).collect());
        }
        p
    };
    let len = rng.pick(&[3, 8, 15]);
    let readers = cfg.variant == 0 && rng.coin();
    if cfg.variant == 2 {
        // just long enough to get it evicted, then back, then the scan
        let (room, ghosts) = ((cap - target) as u64, (cfg.est_items * cfg.ghost_pm / 1000) as u64);
        if rng.coin() {
            let p = phase(rng, &mut next, room, false);
            s.phases.push(p);
        } else {
            // as long as it's remembered, or nearly
            let n = room + rng.below(ghosts as usize + 1) as u64;
            let mut p = vec![Vec::new(); rng.range(1, 2) as usize];
            for i in 0..n as usize {
                let t = i % p.len();
                p[t].push(Op::new(Code::Insert, next));
                next += 1;
            }
            s.phases.push(p);
        }
        let mut back = Op::new(rng.pick(&[Code::Insert, Code::Insert, Code::Goi, Code::Gvog, Code::GoiAsync]), cfg.p2 as u32);
        if back.code == Code::Gvog {
            back.a = -1;
        }
        s.phases.push(vec![vec![back]]);
    }
    if cfg.variant == 3 {
        let mut p = Vec::new();
        for k in cfg.p2..cfg.p3 {
            for _ in 0..rng.range(2, 3) {
                let mut o = Op::new(rng.pick(&[Code::Goi, Code::Gvog, Code::GoiAsync, Code::GvogAsync]), k as u32);
                o.a = -1;
                o.b = rng.pick(&[FIN_INSERT, FIN_INSERT, FIN_INSERT, FIN_INSERT_LC, FIN_DROP]);
                if o.b == FIN_INSERT_LC && !matches!(o.code, Code::Gvog | Code::GvogAsync) {
                    o.b = FIN_INSERT;
                }
                for _ in 0..rng.range(1, 6) {
                    o.sub.push(Op::new(Code::Yield, 0));
                }
                p.push(vec![o]);
            }
        }
        if rng.pm(300) {
            p.append(&mut phase(rng, &mut next, 3, false));
        }
        s.phases.push(p);
    }
    let p = phase(rng, &mut next, len, readers);
    s.phases.push(p);
    cfg.keys = next as i64;
    if rng.pm(400) {
        // the cache has a past, of which nothing is left
        let n = rng.range(3, 10) as u32;
        cfg.keys = n as i64;
        let mut mix = mixed_all();
        mix.0.push((Code::Insert, 10));
        let mut g = Gen::new(rng, cfg.clone(), &mix);
        g.max_sub = 1;
        let mut past = g.phase((1, 3), (5, 30));
        past.iter_mut().flatten().for_each(|o| shift(o, next));
        cfg.keys = (next + n) as i64;
        let mut all = vec![past];
        all.push(vec![if rng.coin() {
            vec![Op { a: 2, ..Op::new(Code::Retain, next) }]
        } else {
            (0..n).map(|k| Op::new(Code::Remove, next + k)).collect()
        }]);
        cfg.p4 = all.len() as i64;
        all.append(&mut s.phases);
        s.phases = all;
    }
    if cfg.variant != 3 && rng.pm(250) {
        cfg.single = 1;
        cfg.up = 0;
        for o in s.phases.iter_mut().flatten().flatten() {
            o.sub.clear();
            o.code = match o.code {
                Code::Gvog => Code::GuardRef,
                Code::GvogAsync => Code::GuardMut,
                Code::GoiAsync => Code::GoiMut,
                Code::Get if rng.pm(300) => Code::GetMut,
                c => c,
            };
            if o.code == Code::Get && rng.pm(2) {
                o.c = rng.pick(&[65_535, 65_534, 255, 1_000]);
                cfg.fair_steps = 20_000_000;
            }
            if matches!(o.code, Code::GuardMut | Code::GoiMut | Code::GetMut) {
                o.a = -1;
                o.c = 0;
            }
        }
    }
    s.cfg = cfg;
    s
}

/// Somebody stops in the middle of a call and never continues until all others are done.
fn halt(rng: &mut Rng) -> Scenario {
    let mut s = Scenario::default();
    let mut cfg = base(rng, F_WRITERS_FIRST | F_SPURIOUS_UNPARK | F_SPURIOUS_POLL | F_WAKER_CHANGE | F_WEAK_CAS);
    cfg.driver = 5;
    cfg.variant = if rng.pm(20) { 3 } else { rng.below(3) as i64 };
    cfg.default_lc = rng.pm(200) as i64;
    cfg.p1 = rng.range(1, if cfg.up == 0 { 12 } else { 30 }) as i64;
    let fill = |rng: &mut Rng, n: u32, pm: u32| -> Vec<Op> {
        let mut ops: Vec<Op> = (0..n).filter(|_| rng.pm(pm)).map(|k| Op::new(Code::Insert, k)).collect();
        if rng.coin() {
            let more: Vec<Op> = ops.iter().filter(|_| rng.coin()).map(|o| Op::new(Code::Get, o.k)).collect();
            ops.extend(more);
        }
        ops
    };
    match cfg.variant {
        0 => {
            let n = rng.range(1, 4) as u32;
            // one more that isn't there
            cfg.keys = n as i64 + 1;
            s.phases.push(vec![fill(rng, n, 1000)]);
            let mix = Mix::of(&[
                (Code::Get, 6),
                (Code::Peek, 4),
                (Code::Contains, 3),
                (Code::Len, 1),
                (Code::Weight, 1),
                (Code::IsEmpty, 1),
                (Code::Capacity, 1),
                (Code::Gvog, 2),
                (Code::Goi, 2),
                (Code::GvogAsync, 2),
                (Code::GoiAsync, 2),
            ]);
            let mut g = Gen::new(rng, cfg, &mix);
            g.max_sub = 0;
            let mut p = g.phase((2, 5), (1, 4));
            for o in p.iter_mut().flatten() {
                if !matches!(o.code, Code::Get | Code::Peek | Code::Contains) {
                    o.k %= n;
                }
            }
            s.phases.push(p);
            s.cfg = g.cfg;
        }
        1 => {
            cfg.shards = 16;
            cfg.est_items = 32 * 16;
            cfg.hash = 0;
            let n = 40;
            cfg.keys = n + 1;
            if rng.pm(400) {
                cfg.cap = rng.range(1, 3) as i64 * 16;
                cfg.ample = 0;
            }
            let pm = rng.pick(&[0, 300, 600, 1000]);
            s.phases.push(vec![fill(rng, n as u32 + 1, pm)]);
            let whole = with(&mixed_all(), &[(Code::Len, 2), (Code::Weight, 2), (Code::IsEmpty, 1), (Code::Clear, 1), (Code::Retain, 1), (Code::Reserve, 1)]);
            let keyed = Mix::of(&[
                (Code::Get, 4),
                (Code::Peek, 2),
                (Code::Contains, 2),
                (Code::Insert, 5),
                (Code::InsertLc, 1),
                (Code::Replace, 2),
                (Code::Remove, 3),
                (Code::Gvog, 2),
                (Code::Goi, 2),
                (Code::GvogAsync, 2),
                (Code::GoiAsync, 2),
            ]);
            let mut g = Gen::new(rng, cfg, &whole);
            g.max_sub = 0;
            let mine = g.rng.below(n as usize + 1) as u32;
            let first = g.ops(1, 2);
            let mut p = vec![first];
            g.mix = keyed;
            for k in (0..n as u32 + 1).filter(|k| *k != mine) {
                let mut ops = g.ops(1, 2);
                ops.iter_mut().for_each(|o| o.k = k);
                p.push(ops);
            }
            p[0].iter_mut().for_each(|o| {
                o.k = mine;
                if o.code == Code::Retain {
                    o.b = 0;
                }
            });
            s.phases.push(p);
            s.cfg = g.cfg;
        }
        // a place in each shard, ten times as many keys
        3 => {
            cfg.shards = rng.pick(&[4, 8, 16, 16, 32, 64]);
            if rng.pm(20) {
                cfg.shards = 256;
            }
            cfg.est_items = 32 * cfg.shards;
            cfg.hash = 0;
            cfg.cap = cfg.shards;
            cfg.wshift = 0;
            cfg.hot_pm = 1000;
            cfg.ample = 0;
            cfg.p1 = 0;
            cfg.fair_steps = 20_000_000;
            cfg.keys = rng.range(10, 14) as i64 * cfg.shards;
            let tasks = rng.range(1, 5) as usize;
            let mut p = vec![Vec::new(); tasks];
            let code = rng.pick(&[Code::Insert, Code::Insert, Code::Goi, Code::Gvog]);
            for k in 0..cfg.keys as u32 {
                let t = rng.below(tasks);
                p[t].push(Op::new(code, k));
            }
            s.phases.push(p);
            s.cfg = cfg;
        }
        _ => {
            cfg.keys = rng.range(1, 4) as i64;
            cfg.p1 = 0;
            let weights = if rng.pm(250) { tight(rng, &mut cfg) } else { vec![1] };
            let n = cfg.keys as u32;
            s.phases.push(vec![fill(rng, n, 500)]);
            let mix = with(&mixed_all(), &[(Code::Len, 1), (Code::Weight, 1), (Code::IsEmpty, 1), (Code::Remove, 3)]);
            let mut g = Gen::new(rng, cfg, &mix);
            g.weights = weights;
            g.max_sub = 0;
            let mut p = g.phase((1, 4), (1, 4));
            let code = g.rng.pick(&[Code::Gvog, Code::Goi, Code::GvogAsync, Code::GoiAsync]);
            let mut o = g.op_of(code, 0, 0);
            o.sub = vec![Op::new(Code::Halt, 0)];
            p.insert(0, vec![Op::new(Code::Remove, o.k), o]);
            s.phases.push(p);
            s.cfg = g.cfg;
        }
    }
    s
}

fn shift(o: &mut Op, by: u32) {
    o.k += by;
    if o.code == Code::Retain && o.a == 1 {
        o.c += by as i64;
    }
    o.sub.iter_mut().for_each(|o| shift(o, by));
}

/// Far more callers than usual waiting for one load.
fn throng(rng: &mut Rng) -> Scenario {
    let mut s = Scenario::default();
    let mut cfg = base(rng, FAULTS_ALL);
    cfg.keys = 1;
    let mix = with(&loads(), &[(Code::Get, 1)]);
    let mut g = Gen::new(rng, cfg, &mix);
    g.sub = sub_quiet();
    g.max_sub = 1;
    g.fail_pm = g.rng.pick(&[0, 300, 900]);
    let mut p = g.phase((10, 40), (1, 1));
    for o in p.iter_mut().flatten().filter(|o| o.code != Code::Get) {
        o.sub.insert(0, Op { a: 2_500_000, ..Op::new(Code::Sleep, 0) });
    }
    s.phases.push(p);
    s.cfg = g.cfg;
    s
}

/// Sleeps and time-outs of minutes to months.
fn scale(o: &mut Op, by: i64) {
    let timed = matches!(o.code, Code::Sleep) || (o.code == Code::Gvog && o.a > 0 && o.a != FOREVER);
    if timed {
        o.a = o.a.saturating_mul(by);
    }
    o.sub.iter_mut().for_each(|o| scale(o, by));
}

pub fn generate(prop: &str, rng: &mut Rng) -> Scenario {
    let mut s = shaped(prop, rng);
    // what the calls may honestly take, all keys colliding, and looking at every key after each phase
    fn calls(ops: &[Op]) -> i64 {
        ops.iter().map(|o| 1 + calls(&o.sub)).sum()
    }
    let keys = s.cfg.keys;
    let all = s.phases.iter().flatten().map(|t| calls(t)).sum::<i64>() + (s.phases.len() as i64 + 1) * 4 * keys;
    s.cfg.fair_steps = s.cfg.fair_steps.max(2 * all * (50 + 8 * keys));
    s
}

fn shaped(prop: &str, rng: &mut Rng) -> Scenario {
    if matches!(prop, "C02" | "C03" | "C04" | "C05" | "C06") && rng.pm(3) {
        return throng(rng);
    }
    let mut s = scenario(prop, rng);
    if matches!(prop, "C02" | "C03" | "C04" | "C05" | "C06") && s.cfg.driver == 0 && rng.pm(60) {
        let by = rng.pick(&[1_000, 1_000_000, 1_000_000_000, 20_000_000_000]);
        s.phases.iter_mut().flatten().flatten().for_each(|o| scale(o, by));
    }
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C08" | "C13" | "C16" | "C17") && s.cfg.driver == 0 && s.cfg.ample == 0 && rng.pm(80) {
        haunt(rng, &mut s);
    }
    s
}

/// The keys were evicted earlier on and are remembered, some of them in any case.
fn haunt(rng: &mut Rng, s: &mut Scenario) {
    let n = s.cfg.keys as u32;
    let more = rng.pick(&[2, 4, 8]);
    s.cfg.keys += more as i64;
    let code = rng.pick(&[Code::Insert, Code::Insert, Code::Goi]);
    let mut ops: Vec<Op> = (n..n + more).map(|k| Op { w: 1, ..Op::new(code, k) }).collect();
    let at = rng.below(ops.len());
    for k in (0..n).rev() {
        ops.insert(at, Op { w: 1, ..Op::new(code, k) });
    }
    s.phases.insert(0, vec![ops]);
}

fn scenario(prop: &str, rng: &mut Rng) -> Scenario {
    let single = match prop {
        "C07" | "C10" | "C11" | "C12" => 350,
        "C08" | "C09" => 250,
        "C14" => 200,
        "C16" => 100,
        _ => 0,
    };
    if prop == "C18" || rng.pm(single) {
        return unsync(prop, rng);
    }
    if prop == "C12" {
        if rng.pm(4) {
            return churn(rng, true);
        }
        if rng.pm(150) {
            return churn(rng, false);
        }
    }
    if prop == "C15" {
        return diff(rng);
    }
    if prop == "C19" {
        return scan(rng);
    }
    if prop == "C23" {
        return halt(rng);
    }
    let mut s = Scenario::default();
    match prop {
        "C01" => {
            let mut cfg = base(rng, FAULTS_ALL);
            let t = rng.pm(400);
            let weights = if t { tight(rng, &mut cfg) } else { vec![1, 2, 3] };
            let mut g = Gen::new(rng, cfg, &mixed_all());
            g.weights = weights;
            g.sub = sub_all();
            g.retain_panics = true;
            g.fail_pm = 250;
            if g.rng.pm(300) {
                // long histories of simple operations
                g.mix = Mix::of(&[
                    (Code::Get, 4),
                    (Code::Peek, 1),
                    (Code::Insert, 3),
                    (Code::Replace, 2),
                    (Code::Remove, 2),
                    (Code::Gvog, 1),
                ]);
                let p = g.phase((2, 3), (4, 8));
                s.phases.push(p);
            } else {
                let n = g.rng.range(1, 2);
                for _ in 0..n {
                    let p = g.phase((2, 4), (1, 4));
                    s.phases.push(p);
                }
            }
            crowd(&mut g, &mut s);
            s.cfg = g.cfg;
        }
        "C02" | "C03" | "C04" => {
            let mut cfg = base(rng, FAULTS_ALL);
            cfg.keys = rng.pick(&[1, 1, 1, 2, 3]);
            copies_fail(rng, &mut cfg);
            let invalidate = rng.pm(if prop == "C04" { 250 } else { 400 });
            let t = rng.pm(250);
            let weights = if t { tight(rng, &mut cfg) } else { vec![1] };
            let mix = if invalidate {
                with(&loads(), &[(Code::Insert, 2), (Code::Remove, 3), (Code::Replace, 1), (Code::Clear, 1), (Code::Retain, 1), (Code::Get, 1)])
            } else {
                with(&loads(), &[(Code::Get, 1)])
            };
            let mut g = Gen::new(rng, cfg, &mix);
            g.weights = weights;
            g.sub = if invalidate { sub_all() } else { sub_quiet() };
            g.fail_pm = g.rng.pick(&[200, 500, 800]);
            let many = g.rng.pm(300);
            let p = if many && g.rng.pm(100) {
                g.phase((7, 14), (1, 1))
            } else if many {
                g.phase((4, 6), (1, 2))
            } else {
                g.phase((2, 4), (1, 3))
            };
            s.phases.push(p);
            s.cfg = g.cfg;
        }
        "C05" => {
            let mut cfg = base(rng, FAULTS_ALL);
            cfg.keys = rng.pick(&[1, 1, 2]);
            let mix = Mix::of(&[
                (Code::Gvog, 8),
                (Code::Goi, 2),
                (Code::GvogAsync, 1),
                (Code::GoiAsync, 2),
                (Code::Remove, 1),
                (Code::Insert, 1),
            ]);
            let mix = if rng.pm(250) { with(&mix, &[(Code::Clear, 1), (Code::Retain, 1), (Code::Replace, 1), (Code::Get, 1)]) } else { mix };
            let mut g = Gen::new(rng, cfg, &mix);
            g.sub = Mix::of(&[(Code::Sleep, 5), (Code::Yield, 3), (Code::Remove, 1), (Code::Gvog, 1)]);
            g.fail_pm = 500;
            let p = g.phase((2, 5), (1, 3));
            s.phases.push(p);
            s.cfg = g.cfg;
            s.cfg.tick_ns = rng.pick(&[10, 1000, 1000, 7000]);
        }
        "C06" => {
            let mut cfg = base(rng, FAULTS_ALL);
            cfg.keys = rng.pick(&[1, 1, 2]);
            // cancellation and hostile polling are the point
            let on = (F_CANCEL | F_SPURIOUS_POLL | F_WAKER_CHANGE) & (rng.next() | rng.next()) as u32;
            cfg.faults |= on as i64;
            copies_fail(rng, &mut cfg);
            let mix = Mix::of(&[
                (Code::GvogAsync, 6),
                (Code::GoiAsync, 6),
                (Code::Gvog, 2),
                (Code::Goi, 1),
                (Code::Remove, 1),
            ]);
            let more = rng.pm(250);
            let mix = if more { with(&mix, &[(Code::Insert, 1), (Code::Clear, 1), (Code::Retain, 1), (Code::Replace, 1), (Code::Get, 1)]) } else { mix };
            let weights = if more && rng.coin() { tight(rng, &mut cfg) } else { vec![1] };
            let mut g = Gen::new(rng, cfg, &mix);
            g.weights = weights;
            g.sub = sub_quiet();
            g.fail_pm = g.rng.pick(&[200, 500, 800]);
            let p = g.phase((2, 5), (1, 3));
            s.phases.push(p);
            s.cfg = g.cfg;
        }
        "C07" => {
            let mut cfg = base(rng, FAULTS_SYNC);
            cfg.keys = rng.range(3, 9) as i64;
            let weights = tight(rng, &mut cfg);
            let pins = rng.pm(300);
            if pins {
                cfg.shards = 1;
                cfg.cap = rng.range(2, 7) as i64;
            }
            shrinking(rng, &mut cfg, 300);
            let large = large(rng, &mut cfg);
            let mix = Mix::of(&[
                (Code::Insert, 8),
                (Code::Replace, 4),
                (Code::Gvog, 3),
                (Code::Goi, 3),
                (Code::GoiAsync, 2),
                (Code::Get, 4),
                (Code::Remove, 2),
                (Code::Retain, 1),
                (Code::Weight, 6),
            ]);
            let mix = if rng.pm(250) { with(&mix, &[(Code::Clear, 1), (Code::InsertLc, 2), (Code::ReplaceLc, 1), (Code::GvogAsync, 2), (Code::Reserve, 1)]) } else { mix };
            let mut g = Gen::new(rng, cfg, &mix);
            g.weights = weights;
            g.fail_pm = 150;
            g.pin_pm = if pins { 300 } else { 0 };
            let n = g.rng.range(1, 3);
            for _ in 0..n {
                let p = if large { g.phase((1, 2), (60, 150)) } else { g.phase((1, 3), (3, 8)) };
                s.phases.push(p);
            }
            s.cfg = g.cfg;
        }
        "C08" | "C10" | "C12" => {
            let mut cfg = base(rng, FAULTS_ALL);
            cfg.keys = rng.range(1, 7) as i64;
            let weights = if rng.pm(750) { tight(rng, &mut cfg) } else { vec![0, 1, 2] };
            shrinking(rng, &mut cfg, 250);
            if prop == "C12" {
                copies_fail(rng, &mut cfg);
            }
            let large = large(rng, &mut cfg);
            let dynamic = rng.pm(150);
            let mut mix = mixed_all();
            if dynamic {
                mix = with(&mix, &[(Code::PinKey, 6)]);
                cfg.up |= UP_PIN;
            }
            let sizes = [(Code::Len, 2), (Code::Weight, 2), (Code::IsEmpty, 2)];
            if prop == "C10" {
                mix = with(&mix, &sizes);
            }
            let mut g = Gen::new(rng, cfg, &mix);
            g.weights = weights;
            g.sub = if prop == "C10" { with(&sub_all(), &sizes) } else { sub_all() };
            g.retain_panics = prop != "C08";
            g.fail_pm = g.rng.pick(&[100, 400]);
            g.pin_pm = g.rng.pick(&[0, 0, 0, 200]);
            let n = g.rng.range(1, 3);
            for _ in 0..n {
                let p = if large { g.phase((1, 2), (60, 150)) } else { g.phase((1, 4), (1, 5)) };
                s.phases.push(p);
            }
            s.cfg = g.cfg;
        }
        "C09" => {
            let mut cfg = base(rng, FAULTS_SYNC);
            cfg.keys = rng.range(3, 8) as i64;
            cfg.shards = 1;
            let mut weights = tight(rng, &mut cfg);
            if rng.coin() {
                weights.push(0);
            }
            shrinking(rng, &mut cfg, 400);
            let dynamic = rng.pm(500);
            if dynamic {
                cfg.up |= UP_PIN;
            }
            let mut mix = Mix::of(&[
                (Code::Insert, 8),
                (Code::Replace, 3),
                (Code::Gvog, 2),
                (Code::Goi, 2),
                (Code::Get, 4),
                (Code::Remove, 1),
            ]);
            if rng.pm(300) {
                mix = with(&mix, &[(Code::InsertLc, 1), (Code::ReplaceLc, 1), (Code::GvogAsync, 1), (Code::GoiAsync, 2), (Code::Retain, 1), (Code::Clear, 1)]);
            }
            if dynamic {
                mix = with(&mix, &[(Code::PinKey, 5)]);
            }
            let mut g = Gen::new(rng, cfg, &mix);
            g.weights = weights;
            g.fail_pm = 100;
            g.pin_pm = g.rng.pick(&[0, 200, 500, 800]);
            let n = g.rng.range(1, 2);
            for _ in 0..n {
                let mut p = g.phase((1, 3), (3, 10));
                if dynamic {
                    let n = g.rng.range(3, 12);
                    p.push((0..n).map(|_| g.op_of(Code::PinKey, 0, 0)).collect());
                }
                s.phases.push(p);
            }
            s.cfg = g.cfg;
        }
        "C11" => {
            let mut cfg = base(rng, FAULTS_ALL);
            cfg.shards = 1;
            let mut asked = 0;
            if rng.pm(150) {
                // everything in one of several shards
                cfg.shards = rng.pick(&[2, 4]);
                cfg.est_items = 32 * cfg.shards;
                cfg.hash = 1;
                if rng.pm(400) {
                    // fewer of them, as they'd be too small
                    cfg.est_items = rng.range(1, 32 * cfg.shards as u64 - 1) as i64;
                    while cfg.shards > 1 && (cfg.est_items + cfg.shards - 1) / cfg.shards < 32 {
                        cfg.shards /= 2;
                    }
                    asked = rng.pick(&[2, 4, 16]) * cfg.shards;
                }
            }
            cfg.variant = rng.below(2) as i64;
            if cfg.variant == 0 {
                // every key at its heaviest fits exactly
                cfg.keys = rng.range(2, 6) as i64;
                let max: Vec<u32> = (0..cfg.keys).map(|_| rng.range(0, 4) as u32).collect();
                let total: u32 = max.iter().sum::<u32>().max(1);
                cfg.cap = total as i64 * cfg.shards;
                if cfg.wshift == 0 {
                    cfg.cap -= rng.below(cfg.shards as usize) as i64;
                }
                cfg.hot_pm = rng.pick(&[1000, 970, 900, 750, 500]);
                let hot = (total as f64 * (cfg.hot_pm as f64 / 1000.0)) as u32;
                let max: Vec<u32> = max.iter().map(|m| (*m).min(hot)).collect();
                let mut g = Gen::new(rng, cfg, &mixed_all());
                g.key_max = max;
                g.sub = sub_all();
                g.fail_pm = 300;
                let n = g.rng.range(1, 3);
                for _ in 0..n {
                    let p = g.phase((1, 4), (1, 5));
                    s.phases.push(p);
                }
                s.cfg = g.cfg;
            } else if rng.pm(300) {
                let ops = plain(rng, &mut cfg);
                let keys: Vec<u32> = ops.iter().map(|o| o.k).collect();
                let mut p = vec![ops];
                for _ in 0..rng.below(3) {
                    p.push((0..rng.range(2, 10)).map(|_| Op::new(rng.pick(&[Code::Get, Code::Get, Code::Peek, Code::Len]), rng.pick(&keys))).collect());
                }
                s.phases.push(p);
                s.cfg = cfg;
            } else {
                cfg.keys = rng.range(2, 8) as i64;
                let weights = tight(rng, &mut cfg);
                shrinking(rng, &mut cfg, 250);
                let large = large(rng, &mut cfg);
                if large {
                    asked = 0;
                }
                let mix = Mix::of(&[
                    (Code::Insert, 8),
                    (Code::InsertLc, 2),
                    (Code::Replace, 4),
                    (Code::ReplaceLc, 1),
                    (Code::Get, 3),
                    (Code::Remove, 3),
                    (Code::Retain, 1),
                    (Code::Clear, 1),
                    (Code::Gvog, 3),
                    (Code::Goi, 3),
                    (Code::GoiAsync, 2),
                ]);
                let readers = Mix::of(&[
                    (Code::Get, 6),
                    (Code::Peek, 3),
                    (Code::Contains, 2),
                    (Code::Len, 1),
                    (Code::Weight, 1),
                    (Code::IsEmpty, 1),
                ]);
                let n = rng.range(1, 2);
                for _ in 0..n {
                    let mut g = Gen::new(rng, cfg.clone(), &mix);
                    g.weights = weights.clone();
                    g.fail_pm = 250;
                    g.sub = Mix::of(&[(Code::Yield, 2), (Code::Get, 1)]);
                    let mut p = vec![if large { g.ops(80, 200) } else { g.ops(4, 20) }];
                    let n = g.rng.range(0, 2);
                    g.mix = readers.clone();
                    for _ in 0..n {
                        p.push(g.ops(2, 10));
                    }
                    s.phases.push(p);
                }
                s.cfg = cfg;
            }
            s.cfg.shards = s.cfg.shards.max(asked);
        }
        "C13" => {
            let mut cfg = base(rng, FAULTS_ALL);
            cfg.keys = rng.range(3, 6) as i64;
            cfg.variant = rng.below(3) as i64;
            // the last two keys belong to the code that calls back
            let users = cfg.keys - 2;
            match cfg.variant {
                0 => {
                    // loaders that use the cache
                    let mut g = Gen::new(rng, cfg.clone(), &loads());
                    g.sub = Mix::of(&[
                        (Code::Get, 2),
                        (Code::Peek, 1),
                        (Code::Insert, 3),
                        (Code::Remove, 2),
                        (Code::Len, 1),
                        (Code::Weight, 1),
                        (Code::Retain, 1),
                        (Code::Clear, 1),
                        (Code::Reserve, 1),
                        (Code::Gvog, 3),
                        (Code::Goi, 3),
                        (Code::GoiAsync, 3),
                    ]);
                    g.max_sub = 3;
                    g.fail_pm = 300;
                    let p = g.phase((1, 4), (1, 3));
                    s.phases.push(p);
                    s.cfg = g.cfg;
                }
                v => {
                    // end_request (with the displaced values) or plain drops of displaced values
                    cfg.default_lc = (v == 2) as i64;
                    cfg.reenter = if v == 2 { 1 } else { 3 };
                    if rng.coin() {
                        // no ghosts: they'd let one insert evict two values, and the default
                        // lifecycle only carries one out of the lock
                        cfg.ghost_pm = 0;
                        cfg.ample = 0;
                        cfg.cap = rng.range(2, 4) as i64;
                        cfg.shards = 1;
                    }
                    let mix = Mix::of(&[
                        (Code::Insert, 6),
                        (Code::Remove, 3),
                        (Code::Get, 2),
                    ]);
                    let mut gcfg = cfg.clone();
                    gcfg.keys = users;
                    let mut g = Gen::new(rng, gcfg, &mix);
                    if cfg.ample == 1 {
                        g.mix = with(&g.mix, &[(Code::Gvog, 2), (Code::Goi, 2), (Code::GoiAsync, 2), (Code::Replace, 2)]);
                        g.fail_pm = 300;
                    }
                    let p = g.phase((1, 3), (2, 6));
                    s.phases.push(p);
                    s.cfg = cfg;
                }
            }
        }
        "C14" => {
            let mut cfg = base(rng, FAULTS_SYNC);
            cfg.keys = rng.range(1, 5) as i64;
            let weights = if rng.coin() { tight(rng, &mut cfg) } else { vec![1, 2] };
            let mix = Mix::of(&[
                (Code::Get, 12),
                (Code::Peek, 2),
                (Code::Contains, 2),
                (Code::Insert, 4),
                (Code::InsertLc, 1),
                (Code::Replace, 2),
                (Code::ReplaceLc, 1),
                (Code::Remove, 2),
                (Code::Retain, 1),
                (Code::Clear, 1),
                (Code::Len, 1),
                (Code::Reserve, 1),
            ]);
            let mut g = Gen::new(rng, cfg, &mix);
            g.weights = weights;
            let n = g.rng.range(1, 2);
            for _ in 0..n {
                let mut p = g.phase((2, 4), (2, 8));
                if g.rng.pm(400) {
                    // read meanwhile
                    let t = g.rng.below(p.len());
                    let at = g.rng.below(p[t].len() + 1);
                    p[t].insert(at, Op::new(Code::Hits, 0));
                }
                s.phases.push(p);
            }
            if g.rng.pm(300) {
                // while a load is in flight
                let mut p = g.phase((1, 3), (2, 6));
                let code = g.rng.pick(&[Code::Gvog, Code::Goi, Code::GvogAsync, Code::GoiAsync]);
                let mut o = Op::new(code, g.rng.below(g.cfg.keys as usize) as u32);
                if code == Code::Gvog {
                    o.a = -1;
                }
                o.sub = vec![Op::new(Code::Hits, 0)];
                for _ in 0..g.rng.range(1, 4) {
                    let mut x = g.op_of(Code::Get, 1, 0);
                    if g.rng.coin() {
                        x.k = o.k;
                    }
                    if g.rng.pm(250) {
                        x = Op { a: 15_000, ..Op::new(Code::Sleep, 0) };
                    }
                    o.sub.push(x);
                }
                o.sub.push(Op::new(Code::Hits, 0));
                p.insert(0, vec![Op::new(Code::Remove, o.k), o]);
                s.phases.push(p);
            }
            s.cfg = g.cfg;
        }
        "C16" => {
            let mut cfg = base(rng, FAULTS_ALL);
            cfg.keys = rng.range(1, 5) as i64;
            let weights = if rng.pm(250) {
                cfg.keys = rng.range(3, 8) as i64;
                tight(rng, &mut cfg)
            } else {
                vec![0, 1, 2, 3]
            };
            let mix = Mix::of(&[
                (Code::Reserve, 1),
                (Code::Retain, 5),
                (Code::Clear, 2),
                (Code::Insert, 6),
                (Code::Replace, 2),
                (Code::Remove, 1),
                (Code::Get, 3),
                (Code::Gvog, 3),
                (Code::Goi, 2),
                (Code::GoiAsync, 2),
            ]);
            let mut g = Gen::new(rng, cfg, &mix);
            g.weights = weights;
            g.sub = Mix::of(&[(Code::Yield, 3), (Code::Reserve, 1), (Code::Retain, 3), (Code::Clear, 1), (Code::Sleep, 1), (Code::Insert, 1)]);
            g.retain_panics = true;
            g.fail_pm = 250;
            // something to retain
            let fill: Vec<Op> = (0..g.cfg.keys as u32)
                .filter(|_| g.rng.pm(700))
                .map(|k| Op {
                    w: k % 4,
                    ..Op::new(Code::Insert, k)
                })
                .collect();
            if !fill.is_empty() {
                s.phases.push(vec![fill]);
            }
            let p = g.phase((2, 4), (1, 4));
            s.phases.push(p);
            crowd(&mut g, &mut s);
            s.cfg = g.cfg;
        }
        "C17" => {
            let mut cfg = base(rng, FAULTS_ALL);
            cfg.keys = rng.pick(&[1, 1, 2, 2, 4]);
            let weights = if rng.pm(400) { tight(rng, &mut cfg) } else { vec![1] };
            let mix = Mix::of(&[
                (Code::Reserve, 1),
                (Code::Gvog, 6),
                (Code::Goi, 3),
                (Code::GvogAsync, 4),
                (Code::GoiAsync, 3),
                (Code::Insert, 4),
                (Code::Remove, 4),
                (Code::Clear, 2),
                (Code::Retain, 1),
                (Code::Replace, 1),
                (Code::Get, 2),
            ]);
            let mut g = Gen::new(rng, cfg, &mix);
            g.weights = weights;
            g.sub = Mix::of(&[(Code::Yield, 3), (Code::Sleep, 1), (Code::Reserve, 1), (Code::Insert, 3), (Code::Remove, 3), (Code::Clear, 1), (Code::Get, 1), (Code::Retain, 1), (Code::Replace, 1)]);
            g.fail_pm = 300;
            let p = g.phase((1, 4), (1, 3));
            s.phases.push(p);
            crowd(&mut g, &mut s);
            s.cfg = g.cfg;
        }
        _ => panic!("no generator for {prop}"),
    }
    s
}
