//! Scan resistance: what a stream of fresh, never fetched keys may and may not evict.

use crate::engine::Mode;
use crate::exec::*;
use crate::oracle::{displacement, stores, Verdict};
use crate::scen::*;
use crate::types::*;

/// The first `p4` phases are an arbitrary past that leaves the cache empty, the next one prepares,
/// the rest scans. Keys below `p1` are the working set; keys in `p1..p2` are on
/// probation; keys in `p2..p3` come back after having been evicted.
pub fn run_scan(s: &Scenario, mode: &Mode) -> RunOut {
    let mut out = if s.cfg.single == 1 {
        crate::unsync::run_unsync(s, mode, false, false)
    } else {
        run_sync::<Lc>(s, mode)
    };
    if out.violation.is_none() {
        if let Err(v) = verdict(s) {
            out.violation = Some(v);
        }
    }
    out
}

/// A lookup-or-load that found the value.
fn hit(r: &OpRec) -> bool {
    let load = matches!(r.code, Code::Goi | Code::Gvog | Code::GoiAsync | Code::GvogAsync | Code::GoiMut | Code::GuardRef | Code::GuardMut);
    load && !stores(r) && r.grant == 0 && matches!(r.res, Res::Val(_)) && !(matches!(r.code, Code::GoiMut | Code::GuardMut) && r.a >= 0)
}

fn verdict(s: &Scenario) -> Verdict {
    let h = hist();
    let c = &s.cfg;
    let (p1, p2, p3) = (c.p1 as u32, c.p2 as u32, c.p3 as u32);
    let cap = h.shard_cap;
    let target = (cap as f64 * (c.hot_pm as f64 / 1000.0)) as u64;
    if h.num_shards != 1 || target < 1 || target >= cap {
        return Ok(());
    }
    // the premises, from the history itself: a shrunk scenario may not have them
    let mut inserted: Vec<u32> = vec![0; c.keys as usize];
    let mut fetched: Vec<u32> = vec![0; c.keys as usize];
    let mut insert_only = true;
    let prep = c.p4 as usize;
    let mut began = 0;
    if prep > 0 {
        let Some(snap) = h.snaps.get(prep - 1) else {
            return Ok(());
        };
        if !snap.found.is_empty() || snap.len != 0 || snap.weight != 0 {
            return Ok(());
        }
        began = snap.end_seq;
    }
    let ops: Vec<&OpRec> = h.ops.iter().filter(|r| !r.probe && r.phase >= prep).collect();
    // keys of the past don't come back
    if h.ops.iter().any(|o| !o.probe && o.phase < prep && ops.iter().any(|r| r.key == o.key)) {
        return Ok(());
    }
    let mut loaded_back = false;
    for r in ops.iter() {
        let storing = match r.code {
            Code::Insert | Code::InsertLc => true,
            Code::Replace | Code::ReplaceLc if r.res == Res::Ok => true,
            _ if r.key < p2 && hit(r) => {
                fetched[r.key as usize] += 1;
                false
            }
            // came too late, waited or failed
            Code::Goi | Code::GoiAsync | Code::GoiMut if c.variant == 3 && !stores(r) => false,
            Code::GInsert | Code::Goi | Code::GoiAsync | Code::GoiMut => {
                if (p2..p3).contains(&r.key) && r.phase != prep {
                    loaded_back = true;
                } else {
                    insert_only = false;
                }
                true
            }
            Code::Gvog | Code::GvogAsync | Code::GuardRef | Code::GuardMut => false,
            Code::Get | Code::GetMut => {
                if r.code == Code::GetMut && r.a >= 0 {
                    return Ok(());
                }
                if matches!(r.res, Res::Val(_)) {
                    if r.key >= p2 {
                        return Ok(());
                    }
                    fetched[r.key as usize] += 1;
                }
                false
            }
            Code::Peek | Code::Contains | Code::Len | Code::Weight => false,
            _ => return Ok(()),
        };
        if storing {
            if r.w != 1 {
                return Ok(());
            }
            if r.key < p2 && inserted[r.key as usize] > 0 {
                // overwritten, which must not cost it anything
                fetched[r.key as usize] += 1;
                continue;
            }
            if matches!(r.code, Code::Replace | Code::ReplaceLc) {
                return Ok(());
            }
            if r.key < p2 && (r.phase != prep || r.code != Code::Insert) {
                return Ok(());
            }
            inserted[r.key as usize] += 1;
            // only keys of p2..p3 come twice
            let max = if (p2..p3).contains(&r.key) && c.variant == 2 { 2 } else { 1 };
            if inserted[r.key as usize] > max {
                return Ok(());
            }
        }
    }
    let evicted = |from: u64, key: u32| {
        h.evs.iter().find_map(|e| match e.ev {
            LcEv::Evict { key: k, vid, .. } if k == key && e.seq > from && !h.ops.get(e.op).is_some_and(|r| displacement(r, k, vid)) => Some((e.seq, vid)),
            _ => None,
        })
    };
    let working: Vec<u32> = (0..p1).filter(|k| inserted[*k as usize] == 1).collect();
    let Some(ready) = h.snaps.get(prep).map(|s| s.seq) else {
        return Ok(());
    };
    let fail = |class: &str, k: u32, e: (u64, u32)| -> Verdict {
        Err((class.into(), format!("key {k} (value {}) was evicted at {} by a scan of fresh keys; capacity {cap}, hot share {target}", e.1, e.0)))
    };
    match c.variant {
        // a fetched working set within the hot share
        0 => {
            if working.len() as u64 > target || p2 != p1 || p3 != p1 || working.iter().any(|k| fetched[*k as usize] == 0) {
                return Ok(());
            }
            // fetched during preparation
            for k in &working {
                if !ops.iter().any(|r| r.phase == prep && r.key == *k && (hit(r) || matches!(r.code, Code::Get | Code::GetMut) && matches!(r.res, Res::Val(_)))) {
                    return Ok(());
                }
            }
            for k in working {
                hist().judged += 1;
                if let Some(e) = evicted(began, k) {
                    return fail("hot-set-flushed", k, e);
                }
            }
        }
        // fetched while on probation, with as many hot items nobody ever fetched
        1 => {
            let cold = ops.iter().filter(|r| r.code == Code::Insert && (p1..p2).contains(&r.key)).count();
            if !insert_only || working.len() as u64 != target || p3 != p2 || cold as u64 > cap - target {
                return Ok(());
            }
            // the working set went in first
            let last = ops.iter().filter(|r| r.code == Code::Insert && r.key < p1).map(|r| r.ret).max().unwrap_or(0);
            if ops.iter().any(|r| r.code == Code::Insert && r.key >= p1 && r.inv < last) {
                return Ok(());
            }
            let unfetched = working.iter().filter(|k| fetched[**k as usize] == 0).count();
            // every promotion costs one hot item: no more promotions than items nobody fetched
            if cold > unfetched {
                return Ok(());
            }
            for k in p1..p2 {
                let early = ops.iter().any(|r| r.phase == prep && r.key == k && (hit(r) || matches!(r.code, Code::Get | Code::GetMut) && matches!(r.res, Res::Val(_))));
                if inserted[k as usize] == 1 && early {
                    hist().judged += 1;
                    if let Some(e) = evicted(began, k) {
                        return fail("probation-lost", k, e);
                    }
                }
            }
        }
        // loaded while somebody else waited for it, which is as good as a fetch
        3 => {
            let loaded = (p2..p3).filter(|k| inserted[*k as usize] == 1).count();
            if !insert_only || working.len() as u64 != target || working.iter().any(|k| fetched[*k as usize] != 0) || loaded > working.len() {
                return Ok(());
            }
            let last = ops.iter().filter(|r| r.code == Code::Insert && r.key < p1).map(|r| r.ret).max().unwrap_or(0);
            if ops.iter().any(|r| r.key >= p1 && r.inv < last) {
                return Ok(());
            }
            if (p1..p2).any(|k| fetched[k as usize] != 0) {
                return Ok(());
            }
            for k in p2..p3 {
                let awaited = h.waited.iter().any(|w| {
                    let (g, r) = (&h.ops[w.holder], &h.ops[w.waiter]);
                    matches!(g.finish, Finish::Inserted(v, _) if g.key == k && r.res == Res::Val(v) && r.grant == 0)
                });
                if inserted[k as usize] == 1 && awaited {
                    hist().judged += 1;
                    if let Some(e) = evicted(began, k) {
                        return fail("awaited-lost", k, e);
                    }
                }
            }
        }
        // evicted, remembered and stored again
        _ => {
            if !insert_only || working.len() as u64 != target || cap - target < 2 || p2 != p1 || p3 != p2 + 1 {
                return Ok(());
            }
            let ghosts = c.est_items * c.ghost_pm / 1000;
            let again: Vec<&OpRec> = ops
                .iter()
                .copied()
                .filter(|r| r.key == p2 && matches!(r.code, Code::Insert | Code::Gvog | Code::Goi | Code::GvogAsync | Code::GoiAsync | Code::GoiMut | Code::GuardRef | Code::GuardMut))
                .collect();
            if again.len() != 2 || again[0].code != Code::Insert || inserted[p2 as usize] != 2 {
                return Ok(());
            }
            let Some(gone) = evicted(ready, p2).or(evicted(began, p2)) else {
                return Ok(());
            };
            let back = again[1];
            if gone.0 > back.inv {
                return Ok(());
            }
            // a load that failed or was cancelled stored nothing
            if loaded_back && !matches!(back.finish, Finish::Inserted(..)) {
                return Ok(());
            }
            // remembered: fewer evictions since, before it's stored again, than the ghost allotment
            let since = h
                .evs
                .iter()
                .filter(|e| matches!(e.ev, LcEv::Evict { .. }) && e.seq > gone.0 && e.seq < back.ret)
                .filter(|e| e.task != back.task || e.seq < back.inv)
                .count();
            if since as i64 >= ghosts {
                return Ok(());
            }
            hist().judged += 1;
            if let Some(e) = evicted(back.inv, p2) {
                return fail("comeback-lost", p2, e);
            }
        }
    }
    Ok(())
}
