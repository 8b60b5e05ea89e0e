//! Which driver runs a scenario and which demands a property makes of it.

use crate::engine::{Fault, Mode};
use crate::exec::{hist, run_sync, Finish, Res, RunOut};
use crate::oracle::*;
use crate::scen::*;
use crate::types::*;
use quick_cache::sync::DefaultLifecycle;

pub const PROPS: [&str; 20] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
    "C15", "C16", "C17", "C18", "C19", "C23",
];

/// Violations of other properties that a run happens to meet don't count for this one. A call that
/// panics, never returns or corrupts memory counts everywhere.
fn relevant(prop: &str, class: &str) -> bool {
    match class {
        "panic" | "deadlock" | "livelock" | "double-drop" | "wrong-key" | "leak-after-drop" | "harness" | "crash" | "hang" => true,
        "not-the-map" => matches!(prop, "C10" | "C18" | "C11" | "C16" | "C09"),
        "leftover" | "failed-load-trace" => matches!(prop, "C12" | "C18"),
        "over-capacity" => matches!(prop, "C07" | "C18"),
        "weight" => matches!(prop, "C07" | "C09" | "C10" | "C11" | "C18"),
        "needless-eviction" | "needless-refusal" | "excess-eviction" => matches!(prop, "C11" | "C18"),
        "blocked-in-poll" => matches!(prop, "C03" | "C06" | "C23"),
        "ghost-eviction" => matches!(prop, "C08" | "C18" | "C11"),
        _ => true,
    }
}

fn demands(prop: &str, s: &Scenario) -> Verdict {
    let h = hist();
    let cfg = &s.cfg;
    let ample = cfg.ample == 1;
    let unsync = cfg.driver == 1;
    match prop {
        "C01" => linearizable(h, ample),
        "C02" => {
            exclusive(h)?;
            usable(h)
        }
        "C03" => usable(h),
        "C04" => {
            delivered(h, ample)?;
            exclusive(h)?;
            usable(h)
        }
        "C05" => {
            timed(h)?;
            exclusive(h)?;
            usable(h)
        }
        "C06" => {
            delivered(h, ample)?;
            exclusive(h)?;
            usable(h)
        }
        // growing through a mutable reference is judged step by step
        "C07" if unsync && s.grows() => Ok(()),
        "C07" => bounded(h, cfg.hash, s.has_pins()),
        "C08" => evictions(h),
        "C09" => pinned_stay(h),
        "C10" => {
            if ample && !unsync {
                sizes_meanwhile(h)?;
            }
            sizes(h)
        }
        "C11" => {
            if unsync || (h.num_shards > 1 && cfg.hash != 1) {
                Ok(())
            } else if cfg.variant == 0 {
                no_evictions(h)?;
                linearizable(h, true)
            } else {
                single_writer(h, cfg, s.has_pins())
            }
        }
        "C12" => no_leftovers(h),
        "C13" => usable(h),
        "C14" => counted(h),
        // judged call by call
        "C16" if unsync => Ok(()),
        "C16" => {
            linearizable(h, ample)?;
            delivered(h, ample)?;
            // retain leaves loads alone
            invalidation(h)?;
            exclusive(h)?;
            usable(h)
        }
        "C17" => {
            invalidation(h)?;
            linearizable(h, ample)
        }
        "C18" => {
            sizes(h)?;
            no_leftovers(h)?;
            evictions(h)
        }
        _ => Ok(()),
    }
}

/// One simulated run and its verdict for `prop`.
pub fn run(prop: &str, s: &Scenario, mode: &Mode) -> RunOut {
    let mut out = match s.cfg.driver {
        0 if s.cfg.default_lc == 1 => run_sync::<DefaultLifecycle<K, V>>(s, mode),
        0 => run_sync::<Lc>(s, mode),
        1 => crate::unsync::run_unsync(s, mode, matches!(prop, "C11" | "C18"), matches!(prop, "C18")),
        2 => crate::churn::run_churn(s, mode),
        3 => crate::diff::run_diff(s, mode),
        4 => crate::scan::run_scan(s, mode),
        5 => crate::halt::run_halt(s, mode),
        d => panic!("driver {d}?"),
    };
    if out.violation.is_none() && s.cfg.driver <= 1 {
        if let Err(v) = demands(prop, s) {
            out.violation = Some(v);
        }
    }
    if let Some((c, _)) = &out.violation {
        if !relevant(prop, c) {
            out.violation = None;
            out.irrelevant = true;
        }
    }
    out
}

macro_rules! probes {
    ($($name: ident,)*) => {
        #[allow(non_camel_case_types, clippy::enum_variant_names)]
        #[derive(Clone, Copy)]
        pub enum P { $($name,)* }
        pub const PROBES: &[&str] = &[$(stringify!($name),)*];
    };
}

// Rare conditions, counted over the runs.
probes! {
    lookups_hit, lookups_missed, loads_granted, loads_completed, loads_failed, handed_over,
    waited_for_value, waiters_at_delivery, timed_out, cancelled, invalidated_load_refused,
    evictions, displaced, refused_overweight, premises_met, cleared, sub_operations,
    invalidated_during_load, stores, pin_kept_item, zeroed_before_evict, replace_absent,
    retain_removed, retain_panicked, overlapping_ops, over_capacity_by_growth, two_waiters_or_more,
}

/// What this run reached.
pub fn reached(n: &mut [u64; PROBES.len()]) {
    let h = hist();
    let mut add = |p: P| n[p as usize] += 1;
    let mut max_ret = 0;
    for r in &h.ops {
        if r.probe {
            continue;
        }
        if r.inv < max_ret {
            add(P::overlapping_ops);
        }
        max_ret = max_ret.max(r.ret);
        if r.parent != NO_OP {
            add(P::sub_operations);
        }
        if stores(r) {
            add(P::stores);
        }
        match (r.code, r.res) {
            (Code::Clear | Code::Drain, _) => add(P::cleared),
            (Code::Get | Code::Peek | Code::GetMut | Code::PeekMut, Res::Val(_)) => add(P::lookups_hit),
            (Code::Get | Code::Peek | Code::GetMut | Code::PeekMut, Res::Miss) => add(P::lookups_missed),
            (Code::Replace | Code::ReplaceLc, Res::Err(_)) => add(P::replace_absent),
            (Code::GInsert, Res::Err(_)) => add(P::invalidated_load_refused),
            (Code::Retain, Res::Panicked) => add(P::retain_panicked),
            _ => (),
        }
        if r.grant != 0 {
            add(P::loads_granted);
            if r.pending_seq != 0 || r.t_ret > r.t_inv && r.parked_ns > 0 {
                add(P::handed_over);
            }
            match r.finish {
                Finish::Inserted(..) => add(P::loads_completed),
                Finish::Dropped => add(P::loads_failed),
                Finish::None => (),
            }
        } else if matches!(r.code, Code::Gvog | Code::Goi | Code::GvogAsync | Code::GoiAsync) {
            match r.res {
                Res::Val(_) if r.parked_ns > 0 => add(P::waited_for_value),
                Res::Timeout => add(P::timed_out),
                Res::Cancelled => add(P::cancelled),
                _ => (),
            }
        }
    }
    for g in holdings(h) {
        let inside = |r: &&crate::exec::OpRec| {
            (r.key == g.key && matches!(r.code, Code::Insert | Code::InsertLc | Code::Remove) || r.code == Code::Clear)
                && r.inv > g.grant
                && r.inv < g.end_inv
        };
        if h.ops.iter().any(|r| inside(&r)) {
            add(P::invalidated_during_load);
        }
    }
    for _ in 0..h.judged {
        add(P::premises_met);
    }
    for (i, w) in h.waited.iter().enumerate() {
        add(P::waiters_at_delivery);
        if i > 0 && h.waited[i - 1].holder == w.holder {
            add(P::two_waiters_or_more);
        }
    }
    for e in &h.evs {
        match e.ev {
            LcEv::Evict { key, vid, .. } => match h.ops.get(e.op) {
                Some(r) if r.key == key && r.vid != vid => add(P::displaced),
                Some(r) if r.vid == vid => add(P::refused_overweight),
                _ => add(P::evictions),
            },
            LcEv::Pin { ans: true, .. } => add(P::pin_kept_item),
            LcEv::Before { w: 0, changed: true, .. } => add(P::zeroed_before_evict),
            LcEv::Pred { keep: false, panicked: false, .. } => add(P::retain_removed),
            _ => (),
        }
    }
    for s in &h.snaps {
        if s.weight > s.capacity {
            add(P::over_capacity_by_growth);
        }
    }
}

/// Whether the run got where this property could have failed.
pub fn exercised(prop: &str, out: &RunOut, n: &[u64; PROBES.len()]) -> bool {
    let p = |p: P| n[p as usize] > 0;
    let f = |f: Fault| out.fired[f as usize] > 0;
    match prop {
        "C01" => p(P::overlapping_ops) && (p(P::lookups_hit) || p(P::loads_completed)),
        "C02" => n[P::loads_granted as usize] > 1 && p(P::overlapping_ops),
        "C03" => p(P::handed_over) || p(P::waited_for_value) || p(P::cancelled) || p(P::timed_out),
        "C04" => p(P::waiters_at_delivery),
        "C05" => p(P::timed_out) || p(P::waited_for_value),
        "C06" => f(Fault::Cancel) || f(Fault::CancelNotified) || f(Fault::CancelLoader) || f(Fault::WakerChange) || f(Fault::SpuriousPoll),
        "C07" => p(P::evictions) || p(P::refused_overweight),
        "C08" => p(P::evictions) || p(P::displaced) || p(P::refused_overweight),
        "C09" => p(P::pin_kept_item) || p(P::zeroed_before_evict),
        "C10" => p(P::stores),
        "C11" => p(P::stores),
        "C12" => out.steps > 0 || p(P::stores),
        "C13" => f(Fault::Reentry) || p(P::sub_operations),
        "C14" => p(P::lookups_hit) || p(P::lookups_missed),
        "C15" => p(P::evictions),
        "C16" => p(P::cleared) || p(P::retain_removed) || p(P::retain_panicked),
        "C17" => p(P::invalidated_during_load),
        "C18" => p(P::stores),
        "C19" | "C23" => p(P::premises_met),
        _ => true,
    }
}
