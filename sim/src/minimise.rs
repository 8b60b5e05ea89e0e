//! From a failing run to a small replay file, and back.

use crate::checks;
use crate::engine::{Mode, MIRROR, MIRROR_LEN};
use crate::os::{self, Died};
use crate::scen::*;
use crate::types::Cfg;
use std::time::{Duration, Instant};

const TEXT: usize = 1 << 16;
static mut SHARED: *mut u8 = std::ptr::null_mut();

#[derive(Clone, Debug)]
pub struct Outcome {
    pub class: String,
    pub msg: String,
    pub hash: u64,
    pub trace: Vec<u32>,
}

fn clean(x: &str) -> String {
    x.replace('\n', " ")
}

/// One run in a process of its own. None if nothing is violated.
pub fn attempt(prop: &str, s: &Scenario, mode: &Mode, cpu_s: i64) -> Option<Outcome> {
    unsafe {
        if SHARED.is_null() {
            SHARED = os::shared(TEXT + MIRROR_LEN * 4, None);
        }
        let text = SHARED;
        let mirror = SHARED.add(TEXT) as *mut u32;
        *(text as *mut u32) = 0;
        *mirror = 0;
        let died = os::in_child(cpu_s, || {
            MIRROR = mirror;
            let o = checks::run(prop, s, mode);
            let Some((c, m)) = o.violation else { return 0 };
            let t = format!("{}\n{}\n{}", o.hash, c, clean(&m));
            let n = t.len().min(TEXT - 8);
            std::ptr::copy_nonoverlapping(t.as_ptr(), text.add(4), n);
            *(text as *mut u32) = n as u32;
            3
        });
        let n = (*mirror as usize).min(MIRROR_LEN - 1);
        let trace = std::slice::from_raw_parts(mirror.add(1), n).to_vec();
        match died {
            Died::Exit(0) => None,
            Died::Exit(3) => {
                let n = *(text as *const u32) as usize;
                let t = String::from_utf8_lossy(std::slice::from_raw_parts(text.add(4), n)).into_owned();
                let mut l = t.splitn(3, '\n');
                let hash = l.next()?.parse().ok()?;
                let class = l.next()?.to_string();
                let msg = l.next().unwrap_or("").to_string();
                Some(Outcome { class, msg, hash, trace })
            }
            x if x == os::HUNG => Some(Outcome {
                class: "hang".into(),
                msg: format!("a call didn't return within {cpu_s} s of CPU time and passed no scheduling point meanwhile"),
                hash: 0,
                trace,
            }),
            x => Some(Outcome {
                class: "crash".into(),
                msg: format!("the process died: {x:?}"),
                hash: 0,
                trace,
            }),
        }
    }
}

struct Min {
    prop: String,
    class: String,
    s: Scenario,
    best: Outcome,
    end: Instant,
    tries: u64,
    cpu_s: i64,
}

impl Min {
    fn over(&self) -> bool {
        Instant::now() > self.end
    }

    fn same(&mut self, s: &Scenario, mode: &Mode) -> Option<Outcome> {
        self.tries += 1;
        attempt(&self.prop, s, mode, self.cpu_s).filter(|o| o.class == self.class)
    }

    /// Takes the smaller scenario if it still fails, with the schedule at hand or another one.
    fn scenario(&mut self, s: Scenario) -> bool {
        if self.over() || s == self.s {
            return false;
        }
        let mut got = self.same(&s, &Mode::Replay { trace: self.best.trace.clone() });
        let seeds = if matches!(self.class.as_str(), "hang") { 2 } else { 40 };
        let mut k = 0;
        while got.is_none() && k < seeds && !self.over() {
            got = self.same(&s, &Mode::Live { seed: 1000 + k });
            k += 1;
        }
        if let Some(o) = got {
            self.s = s;
            self.best = o;
            return true;
        }
        false
    }

    fn trace(&mut self, t: Vec<u32>) -> bool {
        if self.over() {
            return false;
        }
        let s = self.s.clone();
        if let Some(o) = self.same(&s, &Mode::Replay { trace: t.clone() }) {
            self.best = o;
            // what it asked for beyond the end is 0 anyway
            self.best.trace.truncate(t.len());
            return true;
        }
        false
    }

    fn ops(&mut self) {
        // whole phases and tasks
        let mut p = 0;
        while p < self.s.phases.len() {
            let mut c = self.s.clone();
            c.phases.remove(p);
            if !self.scenario(c) {
                p += 1;
            }
        }
        let mut p = 0;
        while p < self.s.phases.len() {
            let mut t = 0;
            while t < self.s.phases[p].len() {
                let mut c = self.s.clone();
                c.phases[p].remove(t);
                if !self.scenario(c) {
                    t += 1;
                }
            }
            p += 1;
        }
        // halves of long tasks, then single operations
        for p in 0..self.s.phases.len() {
            for t in 0..self.s.phases[p].len() {
                let mut n = self.s.phases[p][t].len() / 2;
                while n > 0 {
                    let mut i = 0;
                    while i < self.s.phases[p][t].len() {
                        let mut c = self.s.clone();
                        let ops = &mut c.phases[p][t];
                        let end = (i + n).min(ops.len());
                        ops.drain(i..end);
                        if !self.scenario(c) {
                            i += n;
                        }
                    }
                    n /= 2;
                }
                let mut i = 0;
                while i < self.s.phases[p][t].len() {
                    self.one(p, t, i);
                    i += 1;
                }
            }
        }
    }

    /// Simplifies one operation.
    fn one(&mut self, p: usize, t: usize, i: usize) {
        let edit = |s: &Scenario, f: &dyn Fn(&mut Op)| {
            let mut c = s.clone();
            f(&mut c.phases[p][t][i]);
            c
        };
        let mut j = 0;
        while j < self.s.phases[p][t][i].sub.len() {
            let c = edit(&self.s, &|o| {
                o.sub.remove(j);
            });
            if !self.scenario(c) {
                // its own operations
                let mut l = 0;
                while l < self.s.phases[p][t][i].sub[j].sub.len() {
                    let c = edit(&self.s, &|o| {
                        o.sub[j].sub.remove(l);
                    });
                    if !self.scenario(c) {
                        l += 1;
                    }
                }
                j += 1;
            }
        }
        let simpler: [&dyn Fn(&mut Op); 4] = [
            &|o| o.pin = false,
            &|o| o.w = 1,
            &|o| {
                o.code = match o.code {
                    Code::InsertLc => Code::Insert,
                    Code::ReplaceLc => Code::Replace,
                    Code::GoiAsync => Code::Goi,
                    Code::GvogAsync => Code::Gvog,
                    c => c,
                };
                if o.code == Code::Goi {
                    o.c = 0;
                }
                if o.code == Code::Gvog {
                    o.a = -1;
                }
            },
            &|o| {
                if matches!(o.code, Code::Yield | Code::Sleep) {
                    o.a = 1;
                }
            },
        ];
        for (k, f) in simpler.into_iter().enumerate() {
            // weights that have to stay a function of the key, loads that have to stay cancellable
            if k == 1 && self.s.cfg.driver == 3 || k == 2 && self.prop == "C13" {
                continue;
            }
            let c = edit(&self.s, f);
            self.scenario(c);
        }
    }

    fn cfg(&mut self) {
        let d = Cfg::default();
        // scenarios whose soundness depends on how large the lists are
        let bound = self.s.cfg.reenter != 0 || self.s.cfg.driver > 2;
        for (n, v) in d.pairs() {
            if matches!(n, "driver" | "variant" | "keys" | "ample" | "cap" | "est_items" | "p1" | "p2" | "p3" | "p4" | "default_lc" | "reenter" | "fair_steps" | "tick_ns") {
                continue;
            }
            if bound && matches!(n, "hot_pm" | "ghost_pm" | "shards") {
                continue;
            }
            let mut c = self.s.clone();
            c.cfg.set(n, v);
            self.scenario(c);
        }
        // fault kinds one by one
        for b in 0..32 {
            if self.s.cfg.faults & (1 << b) != 0 {
                let mut c = self.s.clone();
                c.cfg.faults &= !(1 << b);
                self.scenario(c);
            }
        }
    }

    fn schedule(&mut self) {
        // drop the tail
        let mut n = self.best.trace.len();
        while n > 0 {
            let mut t = self.best.trace.clone();
            let keep = t.len().saturating_sub(n);
            t.truncate(keep);
            if !self.trace(t) {
                n /= 2;
            } else {
                n = n.min(self.best.trace.len());
            }
        }
        // benign decisions wherever possible
        let mut n = self.best.trace.len();
        while n > 0 {
            let mut i = 0;
            while i < self.best.trace.len() && !self.over() {
                let end = (i + n).min(self.best.trace.len());
                if self.best.trace[i..end].iter().any(|x| *x != 0) {
                    let mut t = self.best.trace.clone();
                    t[i..end].fill(0);
                    self.trace(t);
                }
                i += n;
            }
            n /= 2;
        }
        while self.best.trace.last() == Some(&0) {
            self.best.trace.pop();
        }
    }
}

fn file(prop: &str, seed: u64, index: u64, s: &Scenario, o: &Outcome, tries: u64, orig: (usize, usize)) -> String {
    let mut t = String::new();
    t.push_str("# replay: bash /verif/bin/replay.sh <this file>\n");
    t.push_str(&format!("property {prop}\nbuild {}\nfound_with seed {seed} run {index}\n", crate::build()));
    t.push_str(&format!("class {}\nfingerprint {}\nmessage {}\n", o.class, o.hash, o.msg));
    t.push_str(&format!(
        "# minimised in {tries} runs: {} -> {} operations, {} -> {} scheduling and fault decisions ({} not benign)\n",
        orig.0,
        s.ops(),
        orig.1,
        o.trace.len(),
        o.trace.iter().filter(|x| **x != 0).count()
    ));
    t.push_str("# decisions, in order; 0 is: keep running the current task, no fault\ntrace");
    for x in &o.trace {
        t.push_str(&format!(" {x}"));
    }
    t.push('\n');
    t.push_str(&s.text());
    t
}

/// Reproduces, shrinks and writes the replay file. Exit 0 if it reproduces.
pub fn command(prop: &str, seed: u64, index: u64, class: &str, budget: u64, out: &str) -> i32 {
    let (s, live) = crate::case(prop, seed, index);
    let cpu_s = if class == "hang" { 4 } else { 20 };
    let Some(first) = attempt(prop, &s, &Mode::Live { seed: live }, 20).filter(|o| o.class == class) else {
        return 4;
    };
    let orig = (s.ops(), first.trace.len());
    let mut m = Min {
        prop: prop.into(),
        class: class.into(),
        s: s.clone(),
        best: first.clone(),
        end: Instant::now() + Duration::from_secs(budget),
        tries: 0,
        cpu_s,
    };
    if first.trace.len() >= MIRROR_LEN - 1 || m.same(&s, &Mode::Replay { trace: first.trace.clone() }).is_none() {
        // can't be expressed as a trace: say where it came from
        let t = format!("property {prop}\nbuild {}\nclass {class}\nmessage {}\nrun {seed} {index}\n", crate::build(), first.msg);
        std::fs::write(out, t).unwrap();
        return 0;
    }
    for _ in 0..3 {
        let before = (m.s.clone(), m.best.trace.len());
        m.ops();
        m.cfg();
        m.schedule();
        if m.over() || (m.s.clone(), m.best.trace.len()) == before {
            break;
        }
    }
    // the file has to fail the same way
    let (s, t) = (m.s.clone(), m.best.trace.clone());
    if let Some(mut o) = m.same(&s, &Mode::Replay { trace: t.clone() }) {
        o.trace = t;
        std::fs::write(out, file(prop, seed, index, &s, &o, m.tries, orig)).unwrap();
        return 0;
    }
    std::fs::write(out, file(prop, seed, index, &crate::case(prop, seed, index).0, &first, m.tries, orig)).unwrap();
    0
}

pub fn field<'a>(text: &'a str, name: &str) -> Option<&'a str> {
    text.lines().find_map(|l| l.strip_prefix(name)?.strip_prefix(' '))
}

/// Exit 1 and the violation if the file still fails, 0 if it doesn't.
pub fn replay(path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("can't read {path}");
        return 2;
    };
    let (Some(prop), Some(class)) = (field(&text, "property"), field(&text, "class")) else {
        eprintln!("not a replay file");
        return 2;
    };
    let (s, mode) = if let Some(run) = field(&text, "run") {
        let n: Vec<u64> = run.split(' ').map(|x| x.parse().unwrap()).collect();
        let (s, live) = crate::case(prop, n[0], n[1]);
        (s, Mode::Live { seed: live })
    } else {
        let Some(s) = Scenario::parse(&text) else {
            eprintln!("bad scenario");
            return 2;
        };
        let trace = text
            .lines()
            .find_map(|l| l.strip_prefix("trace"))
            .unwrap_or("")
            .split_whitespace()
            .map(|x| x.parse().unwrap())
            .collect();
        (s, Mode::Replay { trace })
    };
    match attempt(prop, &s, &mode, 20) {
        Some(o) => {
            println!("{}: {}", o.class, o.msg);
            let known = field(&text, "fingerprint").and_then(|f| f.parse().ok());
            println!(
                "class {}, fingerprint {} ({})",
                if o.class == class { "as recorded" } else { "differs" },
                o.hash,
                if known == Some(o.hash) { "as recorded" } else { "differs" }
            );
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None => {
            println!("property {prop} holds on this run");
            0
        }
    }
}
