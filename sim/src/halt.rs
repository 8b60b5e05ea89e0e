//! A caller that's stopped for good, at any point of any call: whom it may hold up and whom not.

use crate::engine::{engine, Mode};
use crate::exec::*;
use crate::oracle::Verdict;
use crate::scen::*;
use crate::types::*;

/// In the last phase the first task is stopped at its `p1`th scheduling point, or by a
/// [`Code::Halt`], until nobody else can do anything anymore.
pub fn run_halt(s: &Scenario, mode: &Mode) -> RunOut {
    let mut out = if s.cfg.default_lc == 1 {
        run_sync::<quick_cache::sync::DefaultLifecycle<K, V>>(s, mode)
    } else {
        run_sync::<Lc>(s, mode)
    };
    if out.violation.is_none() {
        if let Err(v) = verdict(s) {
            out.violation = Some(v);
        }
    }
    out
}

fn is_load(c: Code) -> bool {
    matches!(c, Code::Gvog | Code::Goi | Code::GvogAsync | Code::GoiAsync)
}

fn verdict(s: &Scenario) -> Verdict {
    let h = hist();
    if s.cfg.variant == 3 {
        return spread(s);
    }
    let Some(held) = engine().held() else {
        return Ok(());
    };
    let last = s.phases.len() - 1;
    let mine: Vec<&OpRec> = h.ops.iter().filter(|r| !r.probe && r.phase == last).collect();
    let Some(by) = h.ops.get(held.by.1) else {
        return Ok(());
    };
    let name = |op: usize| h.ops.get(op).map_or("a call".into(), |r| format!("{} of key {}", r.code.name(), r.key));
    let fail = |who: &[(usize, usize)], why: &str| -> Verdict {
        Err((
            "held-up".into(),
            format!(
                "task {} is stopped in {}{why}; {} can't finish: {}",
                held.by.0,
                name(held.by.1),
                who.len(),
                who.iter().take(4).map(|w| format!("task {} in {}", w.0, name(w.1))).collect::<Vec<_>>().join(", ")
            ),
        ))
    };
    match s.cfg.variant {
        // nothing but lookups
        0 => {
            let only = mine.iter().all(|r| match r.code {
                Code::Get | Code::Peek | Code::Contains | Code::Len | Code::Weight | Code::IsEmpty | Code::Capacity => true,
                c if is_load(c) => r.grant == 0 && matches!(r.res, Res::Val(_)),
                _ => false,
            });
            if !only {
                return Ok(());
            }
            hist().judged += 1;
            if !held.left.is_empty() {
                return fail(&held.left, ", as is everybody else a lookup");
            }
        }
        // one task per key
        1 => {
            let others = s.phases[last].len() - 1;
            if h.num_shards < 8 || others < 24 || s.cfg.hash != 0 {
                return Ok(());
            }
            let mut keys: Vec<u32> = Vec::new();
            for t in &s.phases[last][1..] {
                let Some(first) = t.first() else { continue };
                let single = |o: &Op| {
                    o.k == first.k
                        && o.sub.is_empty()
                        && !matches!(o.code, Code::Retain | Code::Clear | Code::Len | Code::Weight | Code::IsEmpty | Code::Reserve)
                };
                if keys.contains(&first.k) || !t.iter().all(single) {
                    return Ok(());
                }
                keys.push(first.k);
            }
            if s.phases[last][0].iter().any(|o| keys.contains(&o.k)) {
                return Ok(());
            }
            hist().judged += 1;
            // three times a shard's share of the keys
            if held.left.len() > 4 + 3 * others / h.num_shards {
                return fail(&held.left, &format!(", on one of {} shards; {others} use other keys", h.num_shards));
            }
        }
        // a load in flight
        _ => {
            if !is_load(by.code) || by.grant == 0 || by.grant > held.seq || s.phases[last].iter().flatten().any(|o| o.sub.iter().any(|o| is_load(o.code))) {
                return Ok(());
            }
            // its waiters have to wait
            let left: Vec<(usize, usize)> = held
                .left
                .iter()
                .copied()
                .filter(|(_, op)| !h.ops.get(*op).is_some_and(|r| is_load(r.code) && r.key == by.key && (r.grant == 0 || r.grant > held.seq)))
                .collect();
            hist().judged += 1;
            if !left.is_empty() {
                return fail(&left, ", loading");
            }
        }
    }
    Ok(())
}

/// Every shard has room for one and was offered ten or more.
fn spread(s: &Scenario) -> Verdict {
    let h = hist();
    let mut keys: Vec<u32> = s.phases.iter().flatten().flatten().map(|o| o.k).collect();
    keys.sort();
    keys.dedup();
    let Some(snap) = h.snaps.last() else { return Ok(()) };
    if s.cfg.hash != 0 || h.num_shards < 4 || h.shard_cap != 1 || s.cfg.hot_pm != 1000 || keys.len() < 10 * h.num_shards || h.ops.iter().any(|r| !r.probe && !matches!(r.code, Code::Insert | Code::Goi | Code::Gvog)) {
        return Ok(());
    }
    hist().judged += 1;
    if snap.len * 4 <= 3 * h.num_shards as u64 {
        return Err((
            "not-spread".into(),
            format!("{} keys were stored in {} shards with room for one each; only {} are there, so few shards are in use", keys.len(), h.num_shards, snap.len),
        ));
    }
    Ok(())
}
