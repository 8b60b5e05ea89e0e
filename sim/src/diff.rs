//! The same history with and without observers: results and evictions have to be the same.

use crate::engine::{engine, Mode};
use crate::exec::*;
use crate::scen::*;
use crate::types::*;

/// Marks the operations that were added.
pub const EXTRA: i64 = 99;

#[derive(Clone, Debug, PartialEq)]
struct Seen {
    what: String,
    evicted: Vec<(u32, u32)>,
}

/// Results and evictions of the base operations, in order. With `soft`, values are replaced
/// meanwhile and only keys can be compared.
fn seen(soft: bool) -> Vec<Seen> {
    let h = hist();
    let mut out = Vec::new();
    for (i, r) in h.ops.iter().enumerate() {
        if r.c == EXTRA || r.probe {
            continue;
        }
        let res = match r.res {
            Res::Val(_) if soft => "value".to_string(),
            Res::Err(_) if soft => "error".to_string(),
            x => format!("{x:?}"),
        };
        let evicted = h
            .evs
            .iter()
            .filter(|e| e.op == i)
            .filter_map(|e| match e.ev {
                LcEv::Evict { key, vid, .. } => Some((key, if soft { 0 } else { vid })),
                _ => None,
            })
            .collect();
        out.push(Seen {
            what: format!("{}(key {}) -> {res}", r.code.name(), r.key),
            evicted,
        });
    }
    // what's left at the end
    if let Some(s) = h.snaps.last() {
        out.push(Seen {
            what: format!("len {} weight {}", s.len, s.weight),
            evicted: s.found.iter().map(|f| (f.0, if soft { 0 } else { f.1 })).collect(),
        });
    }
    out
}

fn base_of(s: &Scenario) -> Scenario {
    let mut b = s.clone();
    for p in &mut b.phases {
        for t in p.iter_mut() {
            t.retain(|o| o.c != EXTRA);
        }
        p.retain(|t| !t.is_empty());
    }
    b
}

fn exec(s: &Scenario, mode: &Mode) -> RunOut {
    if s.cfg.p1 == 1 {
        crate::unsync::run_unsync(s, mode, false, false)
    } else {
        run_sync::<Lc>(s, mode)
    }
}

pub fn run_diff(s: &Scenario, mode: &Mode) -> RunOut {
    let soft = s.cfg.variant == 1;
    if soft && s.cfg.p1 != 1 {
        // replaces only have to go unnoticed if they keep the weight
        let mut weights = std::collections::HashMap::new();
        for o in s.phases.iter().flatten().flatten() {
            let stores = matches!(o.code, Code::Insert | Code::Replace | Code::Goi | Code::Gvog | Code::GoiAsync);
            if stores && (o.k as i64) < s.cfg.keys - 2 && *weights.entry(o.k).or_insert(o.w) != o.w {
                return exec(s, mode);
            }
        }
    }
    let base = base_of(s);
    let plain = exec(&base, &Mode::Replay { trace: Vec::new() });
    if plain.violation.is_some() {
        return plain;
    }
    let a = seen(soft);
    let mut out = exec(s, mode);
    if out.violation.is_some() {
        return out;
    }
    let b = seen(soft);
    if a != b {
        let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        out.violation = Some((
            "observers-matter".into(),
            format!(
                "step {at} differs: without the added operations {:?}, with them {:?}",
                a.get(at),
                b.get(at)
            ),
        ));
    }
    engine().note(b.len() as u64);
    out
}
