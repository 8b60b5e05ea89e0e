//! Runs scenarios against the real single-threaded cache, step by step next to an ordinary map.
//! There is one task; what the simulator decides is the history and where user code fails.

use crate::engine::{engine, Fault, Mode};
use crate::exec::*;
use crate::oracle::{stores, MapModel, Verdict};
use crate::scen::*;
use crate::types::*;
use quick_cache::unsync::Cache;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

type C = Cache<K, V, We, H, Lc>;

struct St {
    cache: C,
    m: MapModel,
    strict: bool,
}

fn rec(i: usize) -> &'static mut OpRec {
    &mut hist().ops[i]
}

fn loader(idx: usize, o: &Op) -> Result<V, ()> {
    let seq = world().next_seq();
    let r = rec(idx);
    r.grant = seq;
    r.end_inv = seq;
    r.loader_runs += 1;
    match o.b {
        FIN_DROP => {
            engine().count(Fault::LoaderError);
            rec(idx).finish = Finish::Dropped;
            Err(())
        }
        FIN_PANIC => {
            engine().count(Fault::LoaderPanic);
            rec(idx).finish = Finish::Dropped;
            resume_unwind(Box::new(Injected))
        }
        _ => {
            let v = value(idx, o);
            rec(idx).finish = Finish::Inserted(v.vid, None);
            Ok(v)
        }
    }
}

fn forward<T>(r: Result<T, Box<dyn std::any::Any + Send>>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(p) if p.is::<Injected>() => None,
        Err(p) => resume_unwind(p),
    }
}

/// Uses a mutable reference as the operation says, possibly panicking before it's given up.
macro_rules! borrow {
    ($v: expr, $o: expr) => {{
        let (mut v, o) = ($v, $o);
        forward(catch_unwind(AssertUnwindSafe(move || {
            if o.a >= 0 {
                v.set_weight(o.a as u32);
            }
            if o.c == 1 {
                engine().count(Fault::BorrowPanic);
                resume_unwind(Box::new(Injected));
            }
            drop(v);
        })));
    }};
}

/// Ends a guard as the operation says.
macro_rules! use_guard {
    ($idx: expr, $o: expr, $g: expr) => {{
        let (idx, o, g) = ($idx, $o, $g);
        let seq = world().next_seq();
        let r = rec(idx);
        r.grant = seq;
        r.end_inv = seq;
        finish(idx, Res::Guard);
        match o.b {
            FIN_INSERT | FIN_INSERT_LC => {
                let i = begin(&Op { code: Code::GInsert, sub: Vec::new(), ..o.clone() }, NO_OP);
                rec(i).holder = idx;
                let v = value(i, o);
                rec(idx).finish = Finish::Inserted(v.vid, Some(true));
                if o.b == FIN_INSERT {
                    g.insert(v);
                    finish(i, Res::Ok);
                } else {
                    let lcs = g.insert_with_lifecycle(v);
                    finish(i, Res::Ok);
                    drop(lcs);
                }
                let seq = rec(i).ret;
                rec(idx).end_ret = seq;
                i
            }
            fin => {
                rec(idx).finish = Finish::Dropped;
                if fin == FIN_PANIC {
                    engine().count(Fault::GuardPanic);
                    let r = catch_unwind(AssertUnwindSafe(move || {
                        let _g = g;
                        resume_unwind(Box::new(Injected));
                    }));
                    forward(r.map(|()| ()));
                } else {
                    engine().count(Fault::GuardDropped);
                    drop(g);
                }
                let seq = world().next_seq();
                rec(idx).end_ret = seq;
                idx
            }
        }
    }};
}

fn bad(msg: String) -> Verdict {
    Err(("not-the-map".into(), msg))
}

/// One operation on the cache and on the map.
fn step(s: &mut St, o: &Op) -> Verdict {
    let k = o.k;
    let cur = s.m.items.get(&k).map(|x| x.0);
    // a soft replace that's only to be noticed by its value
    let mut same: Op;
    let o = if o.code == Code::Replace && o.c == crate::diff::EXTRA {
        same = o.clone();
        same.w = s.m.items.get(&k).map_or(0, |x| x.1 as u32);
        &same
    } else {
        o
    };
    let first_ev = world().evs.len();
    let before = (s.cache.len(), unscale(s.cache.weight()), world().live_keys, world().live_vals);
    match o.code {
        Code::Yield | Code::Sleep => return Ok(()),
        Code::PinKey => {
            let p = o.a != 0;
            if world().pin_key[k as usize] != p {
                engine().count(Fault::PinToggle);
                world().pin_key[k as usize] = p;
            }
            return Ok(());
        }
        _ => (),
    }
    let idx = begin(o, NO_OP);
    // the operation that stored, if another record than idx
    let mut store_idx = idx;
    let want = cur.map_or(Res::Miss, Res::Val);
    let expect = |what: &str, got: Res, want: Res| -> Verdict {
        if got != want {
            return bad(format!("{what}({k}) gave {got:?}, the map says {want:?}"));
        }
        Ok(())
    };
    match o.code {
        Code::Get => {
            // fetched over and over
            for _ in 0..o.c {
                let _ = s.cache.get(&KQ(k));
            }
            let r = s.cache.get(&KQ(k)).map_or(Res::Miss, |v| check_val(k, v));
            finish(idx, r);
            expect("get", r, want)?;
        }
        Code::Peek => {
            let r = s.cache.peek(&KQ(k)).map_or(Res::Miss, |v| check_val(k, v));
            finish(idx, r);
            expect("peek", r, want)?;
        }
        Code::Contains => {
            let r = s.cache.contains_key(&KQ(k));
            finish(idx, Res::Bool(r));
            expect("contains_key", Res::Bool(r), Res::Bool(cur.is_some()))?;
        }
        Code::GetMut | Code::PeekMut => {
            let r = if o.code == Code::GetMut { s.cache.get_mut(&KQ(k)) } else { s.cache.peek_mut(&KQ(k)) };
            let res = match r {
                None => Res::Miss,
                Some(v) => {
                    let res = check_val(k, &v);
                    borrow!(v, o);
                    if o.a >= 0 {
                        if let Some(x) = s.m.items.get_mut(&k) {
                            x.1 = o.a as u64;
                        }
                    }
                    res
                }
            };
            finish(idx, res);
            expect(o.code.name(), res, want)?;
        }
        Code::Insert => {
            let v = value(idx, o);
            s.cache.insert(K::new(k), v);
            finish(idx, Res::Ok);
        }
        Code::InsertLc => {
            let v = value(idx, o);
            let lcs = s.cache.insert_with_lifecycle(K::new(k), v);
            finish(idx, Res::Ok);
            drop(lcs);
        }
        Code::Replace | Code::ReplaceLc => {
            let v = value(idx, o);
            let r = if o.code == Code::Replace {
                s.cache.replace(K::new(k), v, o.a != 0)
            } else {
                s.cache.replace_with_lifecycle(K::new(k), v, o.a != 0).map(drop)
            };
            let res = match &r {
                Ok(()) => Res::Ok,
                Err((k2, v)) => {
                    if k2.id() != k {
                        fail("wrong-key", format!("replace of {k} handed back key {}", k2.id()));
                    }
                    Res::Err(v.vid)
                }
            };
            finish(idx, res);
            if res == Res::Ok && cur.is_none() {
                return bad(format!("replace of absent key {k} succeeded"));
            }
            if res != Res::Ok && cur.is_some() && o.w as u64 <= s.m.hot {
                return bad(format!("replace of present key {k} failed"));
            }
        }
        Code::Remove => {
            let r = s.cache.remove(&KQ(k));
            let res = r.as_ref().map_or(Res::Miss, |(k2, v)| {
                if k2.id() != k {
                    fail("wrong-key", format!("remove of {k} returned key {}", k2.id()));
                }
                check_val(k, v)
            });
            finish(idx, res);
            expect("remove", res, want)?;
            s.m.items.remove(&k);
        }
        Code::Retain => {
            let r = catch_unwind(AssertUnwindSafe(|| s.cache.retain(predicate(o))));
            let res = if r.is_ok() { Res::Unit } else { Res::Panicked };
            forward(r);
            finish(idx, res);
            let evs: Vec<LcEv> = world().evs[first_ev..].iter().map(|e| e.ev).collect();
            let mut seen = Vec::new();
            for e in evs {
                if let LcEv::Pred { key, vid, keep, panicked } = e {
                    if s.m.items.get(&key).map(|x| x.0) != Some(vid) {
                        return bad(format!("retain saw value {vid} of key {key}, which isn't there"));
                    }
                    seen.push(key);
                    if !keep && !panicked {
                        if res == Res::Panicked {
                            // may have gone or not
                            let there = s.cache.iter().any(|(k, v)| k.id() == key && v.vid == vid);
                            if !there {
                                s.m.items.remove(&key);
                            }
                        } else {
                            s.m.items.remove(&key);
                        }
                    }
                }
            }
            if res == Res::Unit {
                let n = seen.len();
                seen.sort_unstable();
                seen.dedup();
                if seen.len() != n || s.m.items.keys().any(|k| !seen.contains(k)) {
                    return bad(format!("retain didn't visit every item once: {seen:?}"));
                }
            }
        }
        Code::Clear => {
            s.cache.clear();
            finish(idx, Res::Unit);
            s.m.items.clear();
        }
        Code::Drain => {
            let mut got = Vec::new();
            {
                let mut d = s.cache.drain();
                for _ in 0..o.a {
                    match d.next() {
                        Some((k, v)) => {
                            if k.id() != v.key {
                                fail("wrong-key", format!("drain gave value {} of key {} with key {}", v.vid, v.key, k.id()));
                            }
                            got.push((k.id(), v.vid));
                        }
                        None => break,
                    }
                }
            }
            finish(idx, Res::Unit);
            let all = (o.a as usize) > s.m.items.len();
            let n = got.len();
            got.sort_unstable();
            got.dedup();
            if got.len() != n || got.iter().any(|(k, v)| s.m.items.get(k).map(|x| x.0) != Some(*v)) || (all && n != s.m.items.len()) {
                return bad(format!("drain yielded {got:?}"));
            }
            s.m.items.clear();
        }
        Code::Iter => {
            finish(idx, Res::Unit);
        }
        Code::CloneCache => {
            let mut c = s.cache.clone();
            if o.a == 0 {
                std::mem::swap(&mut c, &mut s.cache);
            }
            let other: Vec<(u32, u32)> = sorted(c.iter().map(|(k, v)| (k.id(), v.vid)).collect());
            let (l, w) = (c.len(), unscale(c.weight()));
            drop(c);
            finish(idx, Res::Unit);
            let mine: Vec<(u32, u32)> = s.m.items.iter().map(|(k, x)| (*k, x.0)).collect();
            if other != mine || l != mine.len() || w != s.m.weight() {
                return bad(format!("the clone holds {other:?} len {l} weight {w}, the map {mine:?} weight {}", s.m.weight()));
            }
        }
        Code::Len | Code::Weight | Code::IsEmpty | Code::Capacity => {
            let r = match o.code {
                Code::Len => Res::Num(s.cache.len() as u64),
                Code::Weight => Res::Num(unscale(s.cache.weight())),
                Code::IsEmpty => Res::Bool(s.cache.is_empty()),
                _ => Res::Num(unscale(s.cache.capacity())),
            };
            finish(idx, r);
        }
        Code::Reserve => {
            s.cache.reserve(o.a as usize);
            finish(idx, Res::Unit);
        }
        Code::Goi | Code::GoiMut => {
            let mut after = None;
            let r = catch_unwind(AssertUnwindSafe(|| {
                if o.code == Code::Goi {
                    s.cache.get_or_insert_with(&KQ(k), || loader(idx, o)).map(|v| v.map(|v| check_val(k, v)))
                } else {
                    s.cache.get_mut_or_insert_with(&KQ(k), || loader(idx, o)).map(|v| {
                        v.map(|v| {
                            let r = check_val(k, &v);
                            borrow!(v, o);
                            if o.a >= 0 {
                                after = Some(o.a as u64);
                            }
                            r
                        })
                    })
                }
            }));
            let res = match forward(r) {
                None => Res::Panicked,
                Some(Err(())) => Res::LoaderErr,
                Some(Ok(None)) => Res::Miss,
                Some(Ok(Some(r))) => r,
            };
            let seq = world().next_seq();
            rec(idx).end_ret = seq;
            finish(idx, res);
            let ran = rec(idx).loader_runs;
            if ran != cur.is_none() as u32 {
                return bad(format!("the loader of key {k} ran {ran} times, the map has {cur:?}"));
            }
            if let Some(cur) = cur {
                expect("get_or_insert", res, Res::Val(cur))?;
            } else if !matches!(o.b, FIN_DROP | FIN_PANIC) {
                let evs: Vec<Ev> = world().evs[first_ev..].to_vec();
                let r = rec(idx).clone();
                s.m.store(&r, true, o.w as u64, &evs)?;
                let now = s.m.items.get(&k).map(|x| x.0);
                expect("get_or_insert", res, now.map_or(Res::Miss, Res::Val))?;
            }
            if let (Some(w), Some(x)) = (after, s.m.items.get_mut(&k)) {
                x.1 = w;
            }
        }
        Code::GuardRef => match s.cache.get_ref_or_guard(&KQ(k)) {
            Ok(v) => {
                let r = check_val(k, v);
                finish(idx, r);
                expect("get_ref_or_guard", r, want)?;
            }
            Err(g) => {
                if cur.is_some() {
                    finish(idx, Res::Guard);
                    return bad(format!("a guard for key {k} which is there"));
                }
                store_idx = use_guard!(idx, o, g);
            }
        },
        Code::GuardMut => match s.cache.get_mut_or_guard(&KQ(k)) {
            Ok(v) => {
                let r = v.map_or(Res::Miss, |v| {
                    let r = check_val(k, &v);
                    borrow!(v, o);
                    if o.a >= 0 {
                        if let Some(x) = s.m.items.get_mut(&k) {
                            x.1 = o.a as u64;
                        }
                    }
                    r
                });
                finish(idx, r);
                expect("get_mut_or_guard", r, want)?;
            }
            Err(g) => {
                if cur.is_some() {
                    finish(idx, Res::Guard);
                    return bad(format!("a guard for key {k} which is there"));
                }
                store_idx = use_guard!(idx, o, g);
            }
        },
        other => panic!("{other:?} isn't an operation of the single-threaded cache"),
    }
    let r = rec(store_idx).clone();
    if matches!(r.code, Code::Insert | Code::InsertLc | Code::Replace | Code::ReplaceLc | Code::GInsert) {
        let evs: Vec<Ev> = world().evs[first_ev..].to_vec();
        s.m.store(&r, r.res == Res::Ok, o.w as u64, &evs)?;
    } else if !stores(&r) && world().evs[first_ev..].iter().any(|e| matches!(e.ev, LcEv::Evict { .. } | LcEv::Before { .. })) {
        return bad(format!("{} of key {k} evicted something", o.code.name()));
    }
    let r = rec(idx);
    if r.grant != 0 && r.finish == Finish::Dropped {
        // a failed load changes nothing
        let now = (s.cache.len(), unscale(s.cache.weight()), world().live_keys, world().live_vals);
        if now != before {
            return Err((
                "failed-load-trace".into(),
                format!("a failed load of key {k} changed (len, weight, keys alive, values alive) from {before:?} to {now:?}"),
            ));
        }
    }
    if stores(rec(store_idx)) && !world().pin_key.iter().any(|p| *p) && !s.m.items.values().any(|x| world().vid_pinned[x.0 as usize]) {
        let vid = rec(store_idx).vid;
        let grown = matches!(o.code, Code::GoiMut | Code::GuardMut) && o.a >= 0;
        let kept = s.m.items.get(&k).is_some_and(|x| x.0 == vid && x.1 > 0);
        if kept && !grown && unscale(s.cache.weight()) > unscale(s.cache.capacity()) {
            return Err((
                "over-capacity".into(),
                format!("weight {} over capacity {} after {} stored key {k}", unscale(s.cache.weight()), unscale(s.cache.capacity()), o.code.name()),
            ));
        }
    }
    if s.strict || o.code == Code::Iter {
        look(s)?;
    }
    Ok(())
}

fn sorted(mut v: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
    v.sort_unstable();
    v
}

/// The whole cache against the whole map.
fn look(s: &St) -> Verdict {
    let it: Vec<(u32, u32)> = sorted(s.cache.iter().map(|(k, v)| {
        if k.id() != v.key {
            fail("wrong-key", format!("iteration gave value {} of key {} with key {}", v.vid, v.key, k.id()));
        }
        (k.id(), v.vid)
    }).collect());
    let mine: Vec<(u32, u32)> = s.m.items.iter().map(|(k, x)| (*k, x.0)).collect();
    if it != mine {
        return bad(format!("iterating yields {it:?}, the map has {mine:?}"));
    }
    if s.cache.len() != mine.len() || s.cache.is_empty() != mine.is_empty() || unscale(s.cache.weight()) != s.m.weight() {
        return bad(format!("len {} weight {}, the map has {} and {}", s.cache.len(), unscale(s.cache.weight()), mine.len(), s.m.weight()));
    }
    let w = world();
    if w.live_keys != mine.len() as i64 || w.live_vals != mine.len() as i64 {
        return Err((
            "leftover".into(),
            format!("{} items but {} keys and {} values are alive", mine.len(), w.live_keys, w.live_vals),
        ));
    }
    Ok(())
}

#[cfg(feature = "stats")]
fn stats(c: &C) -> Option<(u64, u64)> {
    Some((c.hits(), c.misses()))
}
#[cfg(not(feature = "stats"))]
fn stats(_c: &C) -> Option<(u64, u64)> {
    None
}

fn snapshot(s: &St, cfg: &Cfg) -> Snap {
    let live = (world().live_keys, world().live_vals);
    let st = stats(&s.cache);
    let seq = world().next_seq();
    let mut snap = Snap {
        phase: hist().phase,
        seq,
        len: s.cache.len() as u64,
        weight: unscale(s.cache.weight()),
        capacity: unscale(s.cache.capacity()),
        is_empty: s.cache.is_empty(),
        live_keys: live.0,
        live_vals: live.1,
        stats: st,
        ..Snap::default()
    };
    for k in 0..cfg.keys as u32 {
        if s.cache.contains_key(&KQ(k)) {
            snap.contains.push(k);
        }
        if let Some(v) = s.cache.peek(&KQ(k)) {
            snap.found.push((k, v.vid, v.w));
        }
    }
    snap.iter = Some(s.cache.iter().map(|(k, v)| (k.id(), v.vid)).collect());
    snap.end_seq = world().next_seq();
    snap
}

/// `judge`: whether evictions are checked against the pressure (C11), the map and leftovers after
/// every step (C18).
pub fn run_unsync(s: &Scenario, mode: &Mode, judge: bool, strict: bool) -> RunOut {
    start_run(s, mode);
    let cfg = s.cfg.clone();
    let mut m = MapModel::new(cfg.cap as u64, cfg.hot_pm);
    m.judge = judge;
    m.plain = !s.has_pins() && cfg.hash == 0;
    let cache = if short(&cfg, true) {
        Cache::with(cfg.est_items as usize, (cfg.cap as u64) << cfg.wshift, We, H, Lc)
    } else {
        Cache::with_options(options(&cfg), We, H, Lc)
    };
    hist().shard_cap = s.cfg.cap as u64;
    hist().num_shards = 1;
    let st = Rc::new(RefCell::new(St { cache, m, strict }));
    for (pi, phase) in s.phases.iter().enumerate() {
        hist().phase = pi;
        let ops: Vec<Op> = phase.iter().flatten().cloned().collect();
        let (st2, cfg) = (st.clone(), cfg.clone());
        engine().spawn(guarded(move || {
            let mut s = st2.borrow_mut();
            for o in &ops {
                // numbering of tasks is what begin() needs, nothing else runs
                if let Err((c, m)) = step(&mut s, o) {
                    fail(&c, m);
                }
            }
            let snap = snapshot(&s, &cfg);
            let v = s.m.compare(&snap);
            hist().snaps.push(snap);
            if let Err((c, m)) = v {
                fail(&c, m);
            }
        }));
        if !run_tasks() {
            std::mem::forget(st);
            return end_run();
        }
    }
    drop(Rc::try_unwrap(st).ok().expect("one owner").into_inner());
    let w = world();
    if w.violation.is_none() && (w.live_keys != 0 || w.live_vals != 0) {
        fail(
            "leak-after-drop",
            format!("{} keys and {} values still alive after the cache was dropped", w.live_keys, w.live_vals),
        );
    }
    end_run()
}
