//! What the properties demand of a recorded history. Everything here looks only at calls, results,
//! callbacks and counts a user could observe.

use crate::exec::{Finish, Hist, OpRec, Res, Snap};
use crate::scen::*;
use crate::types::*;
use std::collections::{BTreeMap as HashMap, BTreeSet as HashSet};

pub type Verdict = Result<(), (String, String)>;

pub fn bad(class: &str, msg: String) -> Verdict {
    Err((class.to_string(), msg))
}

fn show(r: &OpRec) -> String {
    format!(
        "{}(key {}) by task {} [{}..{}] -> {:?}",
        r.code.name(),
        r.key,
        r.task,
        r.inv,
        r.ret,
        r.res
    )
}

/// Someone who had the right to load a key.
#[derive(Clone, Debug)]
pub struct Holding {
    pub op: usize,
    pub key: u32,
    pub task: usize,
    /// Earliest the load in flight may have been started, through hand-overs.
    pub t0: u64,
    pub inv: u64,
    pub grant: u64,
    pub end_inv: u64,
    pub end_ret: u64,
    pub finish: Finish,
}

pub fn holdings(h: &Hist) -> Vec<Holding> {
    struct Node {
        key: u32,
        inv: u64,
        upto: u64,
        end: Option<(u64, u64)>,
        t0: u64,
        op: usize,
    }
    let mut nodes = Vec::new();
    for (i, r) in h.ops.iter().enumerate() {
        if r.grant != 0 {
            nodes.push(Node {
                key: r.key,
                inv: r.inv,
                upto: r.grant,
                // an inserted load isn't handed over
                end: (r.finish == Finish::Dropped).then_some((r.end_inv, r.end_ret)),
                t0: r.inv,
                op: i,
            });
        } else if r.res == Res::Cancelled {
            nodes.push(Node {
                key: r.key,
                inv: r.inv,
                upto: r.ret,
                end: Some((r.inv, r.ret)),
                t0: r.inv,
                op: i,
            });
        }
    }
    loop {
        let mut changed = false;
        for i in 0..nodes.len() {
            for j in 0..nodes.len() {
                if i == j || nodes[i].key != nodes[j].key {
                    continue;
                }
                if let Some((ei, er)) = nodes[j].end {
                    let er = if er == 0 { u64::MAX } else { er };
                    if ei < nodes[i].upto && nodes[i].inv < er && nodes[j].t0 < nodes[i].t0 {
                        nodes[i].t0 = nodes[j].t0;
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    nodes
        .iter()
        .filter(|n| h.ops[n.op].grant != 0)
        .map(|n| {
            let r = &h.ops[n.op];
            Holding {
                op: n.op,
                key: n.key,
                task: r.task,
                t0: n.t0,
                inv: r.inv,
                grant: r.grant,
                end_inv: if r.end_inv == 0 { u64::MAX } else { r.end_inv },
                end_ret: if r.end_ret == 0 { u64::MAX } else { r.end_ret },
                finish: r.finish,
            }
        })
        .collect()
}

/// Operations that detach an in-flight load of the key: insert, remove, clear.
pub fn invalidations(h: &Hist, key: u32) -> Vec<(u64, u64, usize)> {
    h.ops
        .iter()
        .enumerate()
        .filter(|(_, r)| match r.code {
            Code::Insert | Code::InsertLc | Code::Remove => r.key == key,
            Code::Clear => true,
            _ => false,
        })
        .map(|(i, r)| (r.inv, if r.ret == 0 { u64::MAX } else { r.ret }, i))
        .collect()
}

fn overlaps(inv: &[(u64, u64, usize)], from: u64, to: u64) -> bool {
    inv.iter().any(|(i, r, _)| *i <= to && *r >= from)
}

fn within(inv: &[(u64, u64, usize)], from: u64, to: u64) -> Option<usize> {
    inv.iter()
        .find(|(i, r, _)| *i > from && *r < to)
        .map(|x| x.2)
}

/// C02: holdings of a key don't overlap, unless an invalidation separated them.
pub fn exclusive(h: &Hist) -> Verdict {
    let hs = holdings(h);
    for a in &hs {
        for b in &hs {
            if a.key != b.key || a.op == b.op || a.grant >= b.grant || a.end_inv <= b.grant {
                continue;
            }
            let inv = invalidations(h, a.key);
            if !overlaps(&inv, a.t0.min(b.t0), b.grant) {
                return bad(
                    "two-loaders",
                    format!(
                        "two callers hold the load of key {} at once: {} granted at {} until {}, {} granted at {}",
                        a.key,
                        show(&h.ops[a.op]),
                        a.grant,
                        a.end_inv,
                        show(&h.ops[b.op]),
                        b.grant
                    ),
                );
            }
        }
    }
    Ok(())
}

/// C17: invalidated loads aren't stored, others are.
pub fn invalidation(h: &Hist) -> Verdict {
    let hs = holdings(h);
    for r in &h.ops {
        if r.code != Code::GInsert {
            continue;
        }
        let Some(g) = hs.iter().find(|g| g.op == r.holder) else {
            continue;
        };
        let inv = invalidations(h, r.key);
        match r.res {
            Res::Err(v) => {
                if v != r.vid {
                    return bad("wrong-value-back", format!("{} handed back value {v}", show(r)));
                }
                if !overlaps(&inv, g.t0, r.ret) {
                    return bad(
                        "refused-load",
                        format!("{} failed, the key wasn't invalidated since the load began at {}", show(r), g.t0),
                    );
                }
            }
            Res::Ok => {
                if let Some(i) = within(&inv, g.grant, r.inv) {
                    return bad(
                        "stale-load",
                        format!(
                            "{} succeeded although {} happened while the load (granted at {}) was in flight",
                            show(r),
                            show(&h.ops[i]),
                            g.grant
                        ),
                    );
                }
            }
            _ => (),
        }
    }
    Ok(())
}

/// C04: waiters get the value they waited for; a key that's never invalidated is loaded once.
pub fn delivered(h: &Hist, ample: bool) -> Verdict {
    let hs = holdings(h);
    for w in &h.waited {
        let Some(g) = hs.iter().find(|g| g.op == w.holder) else {
            continue;
        };
        let Finish::Inserted(vid, _) = g.finish else {
            continue;
        };
        let inv = invalidations(h, g.key);
        let r = &h.ops[w.waiter];
        // it may be waiting for another load of that key, or already have that one's value
        let other = hs.iter().any(|o| {
            o.key == g.key
                && o.op != g.op
                && matches!(o.finish, Finish::Inserted(..))
                && o.end_ret > r.inv
                && o.end_inv < g.end_inv
        });
        if other || overlaps(&inv, g.t0.min(r.inv), g.end_inv) {
            continue;
        }
        match r.res {
            Res::Val(v) if v == vid && r.grant == 0 => (),
            Res::Cancelled => (),
            // its copy failed
            Res::Panicked if r.grant == 0 => (),
            Res::Timeout if r.a >= 0 => (),
            _ => {
                return bad(
                    "not-delivered",
                    format!(
                        "{} was waiting (since {}) when {} delivered value {vid}, yet got something else",
                        show(r),
                        w.joined,
                        show(&h.ops[g.op])
                    ),
                )
            }
        }
    }
    for r in &h.ops {
        if matches!(r.code, Code::Goi | Code::GoiAsync) {
            if r.loader_runs > 1 {
                return bad("loader-reran", format!("{} ran its loader {} times", show(r), r.loader_runs));
            }
            if let (Res::Val(v), Finish::Inserted(own, _)) = (r.res, r.finish) {
                if v != own {
                    return bad("not-own-value", format!("{} loaded value {own} and returned {v}", show(r)));
                }
            }
            if r.res == Res::LoaderErr && r.finish != Finish::Dropped {
                return bad("foreign-error", format!("{} reports an error its loader didn't return", show(r)));
            }
        }
    }
    if !ample {
        return Ok(());
    }
    let keys: HashSet<u32> = hs.iter().map(|g| g.key).collect();
    for k in keys {
        if h.ops.iter().any(|r| match r.code {
            Code::Insert | Code::InsertLc | Code::Remove | Code::Replace | Code::ReplaceLc => r.key == k,
            Code::Clear | Code::Retain => true,
            _ => false,
        }) {
            continue;
        }
        let loaded: Vec<u32> = hs
            .iter()
            .filter(|g| g.key == k)
            .filter_map(|g| match g.finish {
                Finish::Inserted(v, _) => Some(v),
                _ => None,
            })
            .collect();
        if loaded.len() > 1 {
            return bad("loaded-twice", format!("key {k} was loaded {} times: values {loaded:?}", loaded.len()));
        }
        for r in &h.ops {
            if r.key != k {
                continue;
            }
            match r.res {
                Res::Val(v) if !loaded.contains(&v) => {
                    return bad("foreign-value", format!("{}: only {loaded:?} were loaded", show(r)))
                }
                _ => (),
            }
        }
    }
    Ok(())
}

/// C05: see the property.
pub fn timed(h: &Hist) -> Verdict {
    for r in &h.ops {
        if !matches!(r.code, Code::Gvog | Code::Goi) {
            continue;
        }
        if r.code == Code::Gvog && r.a >= 0 {
            let timeout = r.a as u64;
            if r.res == Res::Timeout {
                if r.t_ret - r.t_inv < timeout {
                    return bad("early-timeout", format!("{} gave up after {} of {timeout} ns", show(r), r.t_ret - r.t_inv));
                }
                let busy = h.ops.iter().any(|o| {
                    o.key == r.key
                        && o.task != r.task
                        && (o.grant != 0 || o.res == Res::Cancelled)
                        && o.inv < r.ret
                        && (if o.grant != 0 { if o.end_ret == 0 { u64::MAX } else { o.end_ret } } else { o.ret }) > r.inv
                });
                if !busy {
                    return bad("idle-timeout", format!("{} timed out although nobody was loading the key", show(r)));
                }
            }
            let slept = r.parked_ns;
            if slept > timeout {
                return bad("late-return", format!("{} slept for {slept} ns with a timeout of {timeout} ns", show(r)));
            }
        } else if r.res == Res::Timeout {
            return bad("untimed-timeout", format!("{} has no timeout", show(r)));
        }
    }
    Ok(())
}

/// Every key can be loaded or read at the end, without waiting.
pub fn usable(h: &Hist) -> Verdict {
    for r in &h.ops {
        if r.probe && r.code == Code::Gvog && r.res == Res::Timeout {
            return bad("key-blocked", format!("key {} is still being loaded by nobody", r.key));
        }
        if r.probe && r.code == Code::GInsert && r.res != Res::Ok {
            return bad("key-blocked", format!("{} failed in a quiet cache", show(r)));
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Lin {
    Read(u32),
    Absent,
    Present,
    Write(u32),
    Replace(u32),
    Remove(u32),
    Store(u32),
    MaybeStore(u32),
    /// retain saw this value and dropped it
    Retained(u32),
    /// the predicate panicked, it may have gone or not
    MaybeRetained(u32),
    Gone,
}

#[derive(Clone, Debug)]
struct LinOp {
    inv: u64,
    ret: u64,
    what: Lin,
    op: usize,
}

/// C01: the operations on each key have one order that explains all results. With `strict`,
/// nothing ever disappears by itself.
pub fn linearizable(h: &Hist, strict: bool) -> Verdict {
    let hs = holdings(h);
    let keys: HashSet<u32> = h.ops.iter().map(|r| r.key).collect();
    let mut keys: Vec<u32> = keys.into_iter().collect();
    keys.sort_unstable();
    for k in keys {
        let ops = lin_ops(h, &hs, k);
        if ops.len() > 64 {
            continue;
        }
        if !explain(&ops, strict) {
            let mut msg = format!("no order of the operations on key {k} explains their results:");
            for o in &ops {
                msg.push_str(&format!(" [{}..{}] {:?} by {};", o.inv, o.ret, o.what, show(&h.ops[o.op])));
            }
            return bad("not-linearizable", msg);
        }
    }
    Ok(())
}

fn lin_ops(h: &Hist, hs: &[Holding], k: u32) -> Vec<LinOp> {
    let mut out = Vec::new();
    let inv = invalidations(h, k);
    for (i, r) in h.ops.iter().enumerate() {
        let all = matches!(r.code, Code::Retain | Code::Clear);
        if !all && r.key != k {
            continue;
        }
        let mut push = |inv: u64, ret: u64, what: Lin| {
            out.push(LinOp {
                inv,
                ret,
                what,
                op: i,
            })
        };
        match (r.code, r.res) {
            (Code::Get | Code::Peek, Res::Val(v)) => push(r.inv, r.ret, Lin::Read(v)),
            (Code::Get | Code::Peek, Res::Miss) => push(r.inv, r.ret, Lin::Absent),
            (Code::Contains, Res::Bool(b)) => {
                push(r.inv, r.ret, if b { Lin::Present } else { Lin::Absent })
            }
            (Code::Insert | Code::InsertLc, _) => push(r.inv, r.ret, Lin::Write(r.vid)),
            (Code::Replace | Code::ReplaceLc, Res::Ok) => push(r.inv, r.ret, Lin::Replace(r.vid)),
            (Code::Replace | Code::ReplaceLc, Res::Err(_)) => push(r.inv, r.ret, Lin::Absent),
            (Code::Remove, Res::Val(v)) => push(r.inv, r.ret, Lin::Remove(v)),
            (Code::Remove, Res::Miss) => push(r.inv, r.ret, Lin::Absent),
            (Code::Clear, _) => push(r.inv, r.ret, Lin::Gone),
            (Code::Retain, res) => {
                let seen = h.evs.iter().find_map(|e| match e.ev {
                    LcEv::Pred { key, vid, keep, panicked } if e.op == i && key == k => {
                        Some((vid, keep, panicked))
                    }
                    _ => None,
                });
                match seen {
                    Some((v, true, _)) | Some((v, _, true)) => push(r.inv, r.ret, Lin::Read(v)),
                    Some((v, false, _)) if res == Res::Panicked => {
                        push(r.inv, r.ret, Lin::MaybeRetained(v))
                    }
                    Some((v, false, _)) => push(r.inv, r.ret, Lin::Retained(v)),
                    None if res == Res::Panicked => (),
                    None => push(r.inv, r.ret, Lin::Absent),
                }
            }
            (Code::GInsert, Res::Ok) => push(r.inv, r.ret, Lin::Store(r.vid)),
            (Code::Gvog | Code::Goi | Code::GvogAsync | Code::GoiAsync, res) => {
                if r.grant != 0 {
                    push(r.inv, r.grant, Lin::Absent);
                    if let (Code::Goi | Code::GoiAsync, Finish::Inserted(v, _)) = (r.code, r.finish) {
                        let g = hs.iter().find(|g| g.op == i).unwrap();
                        if within(&inv, g.grant, g.end_inv).is_some() {
                            // must not be stored
                        } else if overlaps(&inv, g.t0, g.end_ret) {
                            push(g.end_inv, g.end_ret, Lin::MaybeStore(v));
                        } else {
                            push(g.end_inv, g.end_ret, Lin::Store(v));
                        }
                    }
                } else if let Res::Val(v) = res {
                    let direct = hs.iter().any(|g| {
                        matches!(g.finish, Finish::Inserted(x, _) if x == v)
                            && r.inv < g.end_ret
                            && g.end_inv < r.ret
                    });
                    if !direct {
                        push(r.inv, r.ret, Lin::Read(v));
                    }
                } else if res == Res::Timeout {
                    push(r.inv, r.ret, Lin::Absent);
                }
            }
            _ => (),
        }
    }
    out
}

fn explain(ops: &[LinOp], strict: bool) -> bool {
    fn go(
        ops: &[LinOp],
        done: u64,
        st: u32,
        strict: bool,
        seen: &mut HashSet<(u64, u32)>,
    ) -> bool {
        if done.count_ones() as usize == ops.len() {
            return true;
        }
        if !seen.insert((done, st)) {
            return false;
        }
        let mut min_ret = u64::MAX;
        for (i, o) in ops.iter().enumerate() {
            if done & (1 << i) == 0 {
                min_ret = min_ret.min(o.ret);
            }
        }
        for (i, o) in ops.iter().enumerate() {
            if done & (1 << i) != 0 || o.inv > min_ret {
                continue;
            }
            let d = done | (1 << i);
            let absent = st == 0 || !strict;
            let nexts: [Option<u32>; 2] = match o.what {
                Lin::Read(v) => [(st == v).then_some(st), None],
                Lin::Present => [(st != 0).then_some(st), None],
                Lin::Absent => [absent.then_some(0), None],
                Lin::Write(v) => [Some(v), None],
                Lin::Replace(v) => [(st != 0).then_some(v), None],
                Lin::Remove(v) | Lin::Retained(v) => [(st == v).then_some(0), None],
                Lin::MaybeRetained(v) => [(st == v).then_some(0), (st == v).then_some(v)],
                Lin::Store(v) => [absent.then_some(v), None],
                Lin::MaybeStore(v) => [Some(st), absent.then_some(v)],
                Lin::Gone => [Some(0), None],
            };
            for n in nexts.into_iter().flatten() {
                if go(ops, d, n, strict, seen) {
                    return true;
                }
            }
        }
        false
    }
    if ops.len() >= 64 {
        return true;
    }
    go(ops, 0, 0, strict, &mut HashSet::new())
}

/// C07 without pins: no look ever shows more than the capacity.
pub fn bounded(h: &Hist, hash: i64, pins: bool) -> Verdict {
    let total = h.shard_cap * h.num_shards as u64;
    // all keys share a shard if they share a hash
    let one = h.num_shards == 1 || hash == 1;
    let cap = if one { h.shard_cap } else { total };
    if !pins {
        for r in &h.ops {
            if let (Code::Weight, Res::Num(n)) = (r.code, r.res) {
                if n > cap {
                    return bad("over-capacity", format!("{}: the capacity is {cap}", show(r)));
                }
            }
        }
    }
    for s in &h.snaps {
        if s.weight > cap && one {
            let free: Vec<_> = s
                .found
                .iter()
                .filter(|(_, v, w)| !h.vid_pinned[*v as usize] && *w > 0)
                .collect();
            if free.len() > 1 {
                return bad(
                    "over-capacity",
                    format!("weight {} over capacity {cap} with evictable items left: {free:?}", s.weight),
                );
            }
        }
        if s.capacity != total {
            return bad("capacity", format!("capacity() is {} instead of {total}", s.capacity));
        }
    }
    Ok(())
}

/// C10.
pub fn sizes(h: &Hist) -> Verdict {
    for s in &h.snaps {
        let n = s.found.len() as u64;
        if s.len != n || s.contains.len() as u64 != n || s.is_empty != (n == 0) {
            return bad(
                "len",
                format!(
                    "len() {} is_empty() {} but {} keys are found ({} by contains_key): {:?}",
                    s.len,
                    s.is_empty,
                    n,
                    s.contains.len(),
                    s.found
                ),
            );
        }
        let w: u64 = s.found.iter().map(|f| f.2 as u64).sum();
        if s.weight != w {
            return bad("weight", format!("weight() {} but the items weigh {w}: {:?}", s.weight, s.found));
        }
        if let Some(it) = &s.iter {
            let mut a: Vec<(u32, u32)> = it.clone();
            let mut b: Vec<(u32, u32)> = s.found.iter().map(|f| (f.0, f.1)).collect();
            a.sort_unstable();
            b.sort_unstable();
            if a != b {
                return bad("iter", format!("iterating yields {a:?}, lookups find {b:?}"));
            }
        }
    }
    Ok(())
}

/// C10, while others are at it: size queries count what's there, a load in flight isn't. Only for
/// caches with room, where nothing goes by itself.
pub fn sizes_meanwhile(h: &Hist) -> Verdict {
    let end = |x: u64| if x == 0 { u64::MAX } else { x };
    struct Store {
        key: u32,
        from: u64,
        to: u64,
        w: u64,
        sure: bool,
    }
    let mut stored: Vec<Store> = Vec::new();
    // key (None: all), from, to, whether it certainly removes
    let mut removed: Vec<(Option<u32>, u64, u64, bool)> = Vec::new();
    for r in &h.ops {
        let (from, to, sure) = match (r.code, r.res) {
            (Code::Insert | Code::InsertLc, _) => (r.inv, end(r.ret), true),
            (Code::Replace | Code::ReplaceLc | Code::GInsert, Res::Ok) => (r.inv, end(r.ret), true),
            (Code::Replace | Code::ReplaceLc | Code::GInsert, Res::Err(_)) => continue,
            (Code::Replace | Code::ReplaceLc | Code::GInsert, _) => (r.inv, end(r.ret), false),
            (Code::Goi | Code::GoiAsync, _) if matches!(r.finish, Finish::Inserted(..)) => (r.end_inv, end(r.end_ret), false),
            (Code::Remove, _) => {
                removed.push((Some(r.key), r.inv, end(r.ret), true));
                continue;
            }
            (Code::Clear, _) => {
                removed.push((None, r.inv, end(r.ret), true));
                continue;
            }
            (Code::Retain, _) => {
                removed.push((None, r.inv, end(r.ret), false));
                continue;
            }
            _ => continue,
        };
        stored.push(Store {
            key: r.key,
            from,
            to,
            w: r.w as u64,
            sure,
        });
    }
    let keys: HashSet<u32> = stored.iter().map(|s| s.key).collect();
    for r in &h.ops {
        if r.probe || r.ret == 0 || !matches!(r.code, Code::Len | Code::Weight | Code::IsEmpty) {
            continue;
        }
        let (mut n_min, mut n_max, mut w_min, mut w_max) = (0u64, 0u64, 0u64, 0u64);
        for &k in &keys {
            let of_key = |x: &&(Option<u32>, u64, u64, bool)| x.0.is_none_or(|x| x == k);
            // what may be under the key at some moment of the call
            let possible: Vec<u64> = stored
                .iter()
                .filter(|s| s.key == k && s.from < r.ret)
                .filter(|s| {
                    let gone = removed.iter().filter(of_key).any(|x| x.3 && x.1 > s.to && x.2 < r.inv);
                    let over = stored.iter().any(|x| x.key == k && x.sure && x.from > s.to && x.to < r.inv);
                    !gone && !over
                })
                .map(|s| s.w)
                .collect();
            let Some(max) = possible.iter().max() else { continue };
            n_max += 1;
            w_max += max;
            // there all the time
            let sure = stored
                .iter()
                .filter(|s| s.key == k && s.sure && s.to < r.inv)
                .any(|s| !removed.iter().filter(of_key).any(|x| x.1 < r.ret && x.2 > s.from));
            if sure {
                n_min += 1;
                w_min += possible.iter().min().unwrap();
            }
        }
        let ok = match (r.code, r.res) {
            (Code::Len, Res::Num(n)) => (n_min..=n_max).contains(&n),
            (Code::Weight, Res::Num(n)) => (w_min..=w_max).contains(&n),
            (Code::IsEmpty, Res::Bool(b)) => if b { n_min == 0 } else { n_max > 0 },
            _ => true,
        };
        if !ok {
            return bad(
                "size-meanwhile",
                format!("{}, but {n_min} to {n_max} items weighing {w_min} to {w_max} were there", show(r)),
            );
        }
    }
    Ok(())
}

/// C12: a quiet cache holds the keys and values of its items and nothing else.
pub fn no_leftovers(h: &Hist) -> Verdict {
    for s in &h.snaps {
        if s.live_keys != s.len as i64 || s.live_vals != s.len as i64 {
            return bad(
                "leftover",
                format!(
                    "{} items but {} keys and {} values are alive in a quiet cache",
                    s.len, s.live_keys, s.live_vals
                ),
            );
        }
    }
    Ok(())
}

pub fn stores(r: &OpRec) -> bool {
    match r.code {
        Code::Insert | Code::InsertLc | Code::Replace | Code::ReplaceLc | Code::GInsert => true,
        Code::Goi | Code::GoiAsync | Code::GoiMut => matches!(r.finish, Finish::Inserted(..)),
        Code::GuardRef | Code::GuardMut => false,
        _ => false,
    }
}

/// The old value of a key going because the same operation stores a new one.
pub fn displacement(r: &OpRec, key: u32, vid: u32) -> bool {
    stores(r) && r.key == key && r.vid != vid
}

/// C08.
pub fn evictions(h: &Hist) -> Verdict {
    let Some(last) = h.snaps.last() else {
        return Ok(());
    };
    let hs = holdings(h);
    let mut begun: HashMap<usize, Vec<u32>> = HashMap::new();
    let mut req_op: HashMap<u32, usize> = HashMap::new();
    let mut ended: HashMap<u32, u64> = HashMap::new();
    let mut evicted: HashMap<u32, u32> = HashMap::new();
    for e in &h.evs {
        match e.ev {
            LcEv::Begin => {
                begun.entry(e.op).or_default().push(e.req);
                req_op.insert(e.req, e.op);
            }
            LcEv::End => {
                if ended.insert(e.req, e.seq).is_some() {
                    return bad("ended-twice", format!("request {} ended twice", e.req));
                }
                if req_op.get(&e.req) != Some(&e.op) {
                    return bad("foreign-end", format!("request {} ended in another call", e.req));
                }
            }
            LcEv::Evict { key, vid, .. } => {
                if req_op.get(&e.req) != Some(&e.op) {
                    return bad("foreign-request", format!("value {vid} reported to request {} of another call", e.req));
                }
                if ended.contains_key(&e.req) {
                    return bad("evict-after-end", format!("value {vid} reported after its request {} ended", e.req));
                }
                let n = evicted.entry(vid).or_default();
                *n += 1;
                if *n > 1 {
                    return bad("reported-twice", format!("value {vid} of key {key} reported as evicted twice"));
                }
                if h.vid_key[vid as usize] != key {
                    return bad("wrong-key", format!("value {vid} reported with key {key}"));
                }
            }
            LcEv::Before { vid, .. } => {
                if req_op.get(&e.req) != Some(&e.op) || ended.contains_key(&e.req) {
                    return bad("foreign-request", format!("before_evict of value {vid} with request {} of another call", e.req));
                }
            }
            _ => (),
        }
    }
    for (i, r) in h.ops.iter().enumerate() {
        let n = begun.get(&i).map_or(0, Vec::len);
        if !stores(r) {
            if n != 0 {
                return bad("stray-request", format!("{} began {n} requests", show(r)));
            }
            continue;
        }
        if n != 1 {
            return bad("requests", format!("{} began {n} requests", show(r)));
        }
        let req = begun[&i][0];
        let end = ended.contains_key(&req);
        let plain = match r.code {
            Code::Insert => Some(true),
            Code::Replace => Some(r.res == Res::Ok),
            Code::GInsert => Some(r.res == Res::Ok && r.b == FIN_INSERT),
            Code::InsertLc | Code::ReplaceLc => Some(false),
            // the result is hidden
            _ => {
                let g = hs.iter().find(|g| g.op == i).unwrap();
                (!overlaps(&invalidations(h, r.key), g.t0, g.end_ret)).then_some(true)
            }
        };
        if plain.is_some_and(|p| p != end) {
            return bad("request-end", format!("{}: end_request called: {end}", show(r)));
        }
    }
    // where every stored value went, up to the last quiet look
    for (i, r) in h.ops.iter().enumerate() {
        if !stores(r) || r.vid == 0 || r.inv > last.seq {
            continue;
        }
        let v = r.vid;
        let reports = h
            .evs
            .iter()
            .filter(|e| e.seq < last.end_seq && matches!(e.ev, LcEv::Evict { vid, .. } if vid == v))
            .count();
        let back = matches!(r.res, Res::Err(_));
        let removed = h
            .ops
            .iter()
            .any(|o| o.code == Code::Remove && o.res == Res::Val(v));
        let resident = last.found.iter().any(|f| f.1 == v);
        let dropped = h.ops.iter().any(|o| matches!(o.code, Code::Clear | Code::Drain) && o.ret > r.inv)
            || h.evs.iter().any(|e| matches!(e.ev, LcEv::Pred { vid, keep: false, .. } if vid == v));
        let hidden = matches!(r.code, Code::Goi | Code::GoiAsync) && {
            let g = hs.iter().find(|g| g.op == i).unwrap();
            overlaps(&invalidations(h, r.key), g.t0, g.end_ret)
        };
        let left = [back, removed, resident].iter().filter(|x| **x).count();
        if left > 1 {
            return bad("duplicated", format!("value {v} of {}: handed back {back}, removed {removed}, resident {resident}", show(r)));
        }
        if left == 1 && reports != 0 {
            return bad(
                "reported-but-there",
                format!("value {v} of {} reported as evicted, yet handed back {back}, removed {removed}, resident {resident}", show(r)),
            );
        }
        if left == 0 && reports == 0 && !dropped && !hidden {
            return bad("vanished", format!("value {v} of {} is gone and was never reported", show(r)));
        }
    }
    Ok(())
}

/// C09: pinned and weightless items aren't evicted or refused.
pub fn pinned_stay(h: &Hist) -> Verdict {
    // last answer to is_pinned per (op, value)
    let mut asked: HashMap<(usize, u32), bool> = HashMap::new();
    let mut zeroed: HashSet<u32> = HashSet::new();
    for e in &h.evs {
        match e.ev {
            LcEv::Pin { vid, ans, .. } => {
                asked.insert((e.op, vid), ans);
            }
            LcEv::Before { vid, w: 0, changed: true, .. } => {
                zeroed.insert(vid);
            }
            LcEv::Evict { key, vid, w } => {
                let Some(r) = h.ops.get(e.op) else { continue };
                if displacement(r, key, vid) {
                    continue;
                }
                if w == 0 {
                    return bad(
                        "weightless-evicted",
                        format!("value {vid} of key {key} has no weight{} and was evicted by {}", if zeroed.contains(&vid) { " (zeroed before)" } else { "" }, show(r)),
                    );
                }
                match asked.get(&(e.op, vid)) {
                    Some(false) => (),
                    Some(true) => {
                        return bad("pinned-evicted", format!("value {vid} of key {key} said it's pinned and was evicted by {}", show(r)))
                    }
                    None => {
                        if h.vid_pinned[vid as usize] {
                            return bad("pinned-evicted", format!("pinned value {vid} of key {key} was evicted by {}", show(r)));
                        }
                    }
                }
            }
            _ => (),
        }
    }
    Ok(())
}

/// C11: without pressure nobody is evicted or refused; `strict` histories have none at all.
pub fn no_evictions(h: &Hist) -> Verdict {
    for e in &h.evs {
        if let LcEv::Evict { key, vid, .. } = e.ev {
            let Some(r) = h.ops.get(e.op) else { continue };
            if !displacement(r, key, vid) {
                return bad(
                    "needless-eviction",
                    format!("value {vid} of key {key} was evicted by {} although everything fits", show(r)),
                );
            }
        }
    }
    Ok(())
}

/// An ordinary map that follows one writer's operations, losing exactly what's reported evicted,
/// and judging every eviction (C11, C18, C10). Only for histories with one mutating task at a time.
pub struct MapModel {
    pub items: std::collections::BTreeMap<u32, (u32, u64)>,
    pub cap: u64,
    pub hot: u64,
    /// Growing through a mutable reference may leave the cache above its capacity.
    pub judge: bool,
    /// So far everything was inserted, nothing loaded, all with the same weight, and no key came
    /// back after its eviction: a full cache stays full.
    pub plain: bool,
    gone: HashSet<u32>,
    unit: u64,
}

impl MapModel {
    pub fn new(cap: u64, hot_pm: i64) -> Self {
        MapModel {
            items: Default::default(),
            cap,
            hot: (cap as f64 * (hot_pm as f64 / 1000.0)) as u64,
            judge: true,
            plain: true,
            gone: HashSet::new(),
            unit: 0,
        }
    }

    pub fn weight(&self) -> u64 {
        self.items.values().map(|x| x.1).sum()
    }

    /// An operation that stores (or tries to). `events` are its lifecycle events in order.
    pub fn store(&mut self, r: &OpRec, stored: bool, w: u64, events: &[Ev]) -> Verdict {
        let before = self.weight();
        let old = self.items.get(&r.key).map_or(0, |x| x.1);
        let pressure = before - old + w > self.cap;
        let mut w = w;
        // the callback may have changed the incoming weight first
        for e in events {
            match e.ev {
                LcEv::Before { vid, w: now, .. } if vid == r.vid => w = now as u64,
                _ => (),
            }
            if matches!(e.ev, LcEv::Evict { .. }) {
                break;
            }
        }
        if stored {
            self.items.insert(r.key, (r.vid, w));
            if self.unit == 0 {
                self.unit = w;
            }
        }
        if self.items.values().any(|x| x.1 != self.unit)
            || (stored && (!matches!(r.code, Code::Insert | Code::InsertLc | Code::Replace | Code::ReplaceLc) || self.gone.contains(&r.key)))
        {
            self.plain = false;
        }
        // what was resident or coming in when an eviction was decided upon, before its callback
        let mut decided = (0, 0);
        for e in events {
            match e.ev {
                LcEv::Before { key, vid, w, .. } => {
                    decided = (vid, self.weight());
                    if let Some(x) = self.items.get_mut(&key) {
                        if x.0 == vid {
                            self.plain &= x.1 == w as u64;
                            x.1 = w as u64;
                        }
                    }
                }
                LcEv::Evict { key, vid, .. } => {
                    if vid == r.vid {
                        if self.judge && !pressure && w <= self.hot {
                            return bad("needless-refusal", format!("{} was refused: it weighs {w}, {before} (old {old}) of {} were used, hot share {}", show(r), self.cap, self.hot));
                        }
                        if self.items.get(&key).is_some_and(|x| x.0 == vid) {
                            self.items.remove(&key);
                        }
                        continue;
                    }
                    let displaced = key == r.key;
                    if displaced {
                        // reported when overwritten, or when an overweight value takes its place
                        if self.items.get(&key).is_some_and(|x| x.0 == vid) {
                            self.items.remove(&key);
                        }
                        continue;
                    }
                    let total = if decided.0 == vid { decided.1 } else { self.weight() };
                    self.gone.insert(key);
                    match self.items.get(&key) {
                        Some(x) if x.0 == vid => {
                            self.items.remove(&key);
                        }
                        _ => return bad("ghost-eviction", format!("{} evicted value {vid} of key {key}, which isn't there", show(r))),
                    }
                    if self.judge && !pressure {
                        return bad(
                            "needless-eviction",
                            format!("{} (weight {w}) evicted value {vid} of key {key}: {before} (old {old}) of {} were used", show(r), self.cap),
                        );
                    }
                    let bound = if self.plain { self.cap } else { self.hot };
                    if self.judge && total <= bound {
                        return bad(
                            "excess-eviction",
                            format!("{} (weight {w}) went on to evict value {vid} of key {key} when {total} of {} (hot share {}) were left", show(r), self.cap, self.hot),
                        );
                    }
                }
                _ => (),
            }
        }
        Ok(())
    }

    pub fn compare(&self, s: &Snap) -> Verdict {
        let mut a: Vec<(u32, u32)> = self.items.iter().map(|(k, x)| (*k, x.0)).collect();
        let mut b: Vec<(u32, u32)> = s.found.iter().map(|f| (f.0, f.1)).collect();
        a.sort_unstable();
        b.sort_unstable();
        if a != b {
            return bad("not-the-map", format!("the cache holds {b:?}, the map (key, value) {a:?}"));
        }
        if s.weight != self.weight() || s.len != self.items.len() as u64 {
            return bad("not-the-map", format!("len {} weight {}, the map has {} and {}", s.len, s.weight, self.items.len(), self.weight()));
        }
        Ok(())
    }
}

/// C11 (and exactness of everything else) for shared caches with a single writing task per phase.
pub fn single_writer(h: &Hist, cfg: &Cfg, pins: bool) -> Verdict {
    let mut m = MapModel::new(h.shard_cap, cfg.hot_pm);
    // ghosts are recognised by their hash alone
    m.plain = !pins && cfg.hash == 0;
    let mut order: Vec<usize> = (0..h.ops.len()).collect();
    // a writer's operations never overlap; order them by their effect
    order.sort_by_key(|&i| h.ops[i].ret);
    let mut by_op: HashMap<usize, Vec<Ev>> = HashMap::new();
    for e in &h.evs {
        if e.op != NO_OP {
            by_op.entry(e.op).or_default().push(*e);
        }
    }
    let mut snaps = h.snaps.iter();
    let mut snap = snaps.next();
    for i in order {
        let r = &h.ops[i];
        while let Some(s) = snap {
            if r.inv > s.seq {
                m.compare(s)?;
                snap = snaps.next();
            } else {
                break;
            }
        }
        if r.probe && !stores(r) {
            continue;
        }
        let none = Vec::new();
        let evs = by_op.get(&i).unwrap_or(&none);
        let cur = m.items.get(&r.key).map(|x| x.0);
        match (r.code, r.res) {
            (Code::Insert | Code::InsertLc, _) => m.store(r, true, r.w as u64, evs)?,
            (Code::Replace | Code::ReplaceLc, res) => {
                let ok = res == Res::Ok;
                if ok && cur.is_none() {
                    return bad("not-the-map", format!("{} of an absent key succeeded", show(r)));
                }
                if !ok && cur.is_some() && (r.w as u64) <= m.hot {
                    return bad("not-the-map", format!("{} of a present key failed", show(r)));
                }
                m.store(r, ok, r.w as u64, evs)?;
            }
            (Code::GInsert, res) => m.store(r, res == Res::Ok, r.w as u64, evs)?,
            (Code::Goi | Code::GoiAsync, _) if stores(r) => m.store(r, true, r.w as u64, evs)?,
            (Code::Remove, res) => {
                let want = cur.map_or(Res::Miss, Res::Val);
                if res != want {
                    return bad("not-the-map", format!("{}: the map says {want:?}", show(r)));
                }
                m.items.remove(&r.key);
            }
            (Code::Clear, _) => m.items.clear(),
            (Code::Retain, _) => {
                for e in evs {
                    if let LcEv::Pred { key, vid, keep, panicked } = e.ev {
                        match m.items.get(&key) {
                            Some(x) if x.0 == vid => (),
                            _ => return bad("not-the-map", format!("retain saw value {vid} of key {key}, which isn't there")),
                        }
                        if !keep && !panicked && r.res != Res::Panicked {
                            m.items.remove(&key);
                        }
                    }
                }
            }
            _ => {
                if evs.iter().any(|e| matches!(e.ev, LcEv::Evict { .. })) {
                    return bad("needless-eviction", format!("{} evicted something", show(r)));
                }
            }
        }
    }
    if let Some(s) = snap {
        m.compare(s)?;
    }
    Ok(())
}

/// C14: one hit or miss per fetch, nothing else counts.
pub fn counted(h: &Hist) -> Verdict {
    let load = |r: &OpRec| matches!(r.code, Code::Gvog | Code::Goi | Code::GvogAsync | Code::GoiAsync);
    // (inv, ret, hit)
    let fetches: Vec<(u64, u64, Option<bool>)> = h
        .ops
        .iter()
        .filter(|r| matches!(r.code, Code::Get | Code::GetMut))
        .map(|r| {
            let hit = match r.res {
                Res::Val(_) => Some(true),
                Res::Miss => Some(false),
                _ => None,
            };
            (r.inv, if r.ret == 0 { u64::MAX } else { r.ret }, hit)
        })
        .collect();
    let first_load = h.ops.iter().filter(|r| load(r)).map(|r| r.inv).min().unwrap_or(u64::MAX);
    for s in &h.snaps {
        let Some((hits, misses)) = s.stats else { continue };
        if first_load < s.seq {
            // what a load counts isn't promised
            continue;
        }
        let of = |b| fetches.iter().filter(|f| f.1 < s.seq && f.2 == Some(b)).count() as u64;
        let (a, b) = (of(true), of(false));
        if (hits, misses) != (a, b) {
            return bad("counters", format!("hits() {hits} misses() {misses}, but {a} fetches returned a value and {b} didn't"));
        }
    }
    // meanwhile: since the beginning, or between two reads made while the only load was under way
    for (i, &(r2, hits2, misses2)) in h.reads.iter().enumerate() {
        let b = &h.ops[r2];
        let mut from = Vec::new();
        if first_load > b.ret {
            from.push((0, 0, 0, 0));
        }
        for &(r1, hits1, misses1) in &h.reads[..i] {
            let a = &h.ops[r1];
            let quiet = |r: &OpRec| !load(r) || r.inv > b.ret || (r.ret != 0 && r.ret < a.inv) || (r.grant != 0 && r.grant < a.inv && (r.end_inv == 0 || r.end_inv > b.ret));
            if a.ret < b.inv && h.ops.iter().all(quiet) {
                from.push((a.inv, a.ret, hits1, misses1));
            }
        }
        for (inv, ret, hits1, misses1) in from {
            crate::exec::hist().judged += 1;
            for (name, which, n1, n2) in [("hits()", true, hits1, hits2), ("misses()", false, misses1, misses2)] {
                let at_least = fetches.iter().filter(|f| f.0 > ret && f.1 < b.inv && f.2 == Some(which)).count() as u64;
                let at_most = fetches.iter().filter(|f| f.1 > inv && f.0 < b.ret && f.2 != Some(!which)).count() as u64;
                if n2 < n1 + at_least || n2 > n1 + at_most {
                    return bad(
                        "counters",
                        format!("{name} went from {n1} to {n2} between {ret} and {}, while {at_least} to {at_most} fetches of that kind were made", b.inv),
                    );
                }
            }
        }
    }
    Ok(())
}
