//! A worker process: its share of the seeds, one after the other.

use crate::checks::{self, exercised, reached, PROBES};
use crate::engine::{Mode, FAULTS, MIRROR, MIRROR_LEN};
use crate::{case, os};
use std::collections::HashSet;
use std::io::Write;
use std::time::Instant;

/// The status file: index of the current run + 1, then its decisions.
pub const STATUS_LEN: usize = 8 + MIRROR_LEN * 4;
/// Fingerprints kept per worker.
const MAX_DISTINCT: usize = 6_000_000;

/// Exit codes: 0 done, 3 found a violation.
pub fn worker(args: &[&str]) -> i32 {
    let [prop, seed, first, stride, count, wall_ms, status, out] = args else {
        eprintln!("worker PROP SEED FIRST STRIDE COUNT WALL_MS STATUS OUT");
        return 2;
    };
    let num = |s: &str| s.parse::<u64>().unwrap();
    let (seed, first, stride, count, wall_ms) = (num(seed), num(first), num(stride), num(count), num(wall_ms));
    os::limits();
    let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(status).unwrap();
    file.set_len(STATUS_LEN as u64).unwrap();
    let beat = os::shared(STATUS_LEN, Some(&file)) as *mut u64;
    unsafe { MIRROR = beat.add(1) as *mut u32 };
    os::watchdog(beat);

    let t = Instant::now();
    let (mut steps, mut sim_ns, mut switches, mut runs, mut nontrivial, mut irrelevant) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut fired = [0u64; FAULTS.len()];
    let mut probes = [0u64; PROBES.len()];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut capped = false;
    let mut found = None;
    let mut samples: Vec<(u64, u64)> = Vec::new();
    let mut i = first;
    while i < count {
        if runs % 64 == 0 && t.elapsed().as_millis() as u64 > wall_ms {
            capped = true;
            break;
        }
        unsafe { std::ptr::write_volatile(beat, i + 1) };
        let (s, live) = case(prop, seed, i);
        let o = checks::run(prop, &s, &Mode::Live { seed: live });
        runs += 1;
        steps += o.steps;
        sim_ns += o.sim_ns;
        switches += o.switches;
        irrelevant += o.irrelevant as u64;
        for (a, b) in fired.iter_mut().zip(&o.fired) {
            *a += b;
        }
        let mut here = [0u64; PROBES.len()];
        reached(&mut here);
        for (a, b) in probes.iter_mut().zip(&here) {
            *a += b;
        }
        if exercised(prop, &o, &here) {
            nontrivial += 1;
            if distinct.len() < MAX_DISTINCT {
                distinct.insert(o.hash);
            }
            if samples.len() < 2 {
                samples.push((i, o.hash));
            }
        }
        if let Some((class, msg)) = o.violation {
            found = Some((i, class, msg));
            break;
        }
        i += stride;
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    writeln!(f, "runs {runs}\nsteps {steps}\nsim_ns {sim_ns}\nswitches {switches}\nnontrivial {nontrivial}\nirrelevant {irrelevant}\ncapped {}", capped as u64).unwrap();
    for (n, v) in FAULTS.iter().zip(fired) {
        writeln!(f, "fault {n} {v}").unwrap();
    }
    for (n, v) in PROBES.iter().zip(probes) {
        writeln!(f, "probe {n} {v}").unwrap();
    }
    for (i, h) in samples {
        writeln!(f, "sample {i} {h}").unwrap();
    }
    if let Some((i, c, m)) = &found {
        writeln!(f, "violation {i} {c} {}", m.replace('\n', " ")).unwrap();
    }
    f.flush().unwrap();
    let mut d: Vec<u64> = distinct.into_iter().collect();
    d.sort_unstable();
    let mut bytes = Vec::with_capacity(d.len() * 8);
    for x in d {
        bytes.extend_from_slice(&x.to_le_bytes());
    }
    std::fs::write(format!("{out}.hashes"), bytes).unwrap();
    if found.is_some() {
        3
    } else {
        0
    }
}

/// Prints the fingerprint of every `step`th run, live and replayed from its own trace.
pub fn fingerprints(prop: &str, seed: u64, from: u64, n: u64, step: u64) -> i32 {
    for k in 0..n {
        let i = from + k * step;
        let (s, live) = case(prop, seed, i);
        let a = checks::run(prop, &s, &Mode::Live { seed: live });
        if a.violation.is_some() {
            break;
        }
        let b = checks::run(prop, &s, &Mode::Replay { trace: a.trace.clone() });
        println!("{i} {:x} {:x} {}", a.hash, b.hash, a.steps == b.steps);
    }
    0
}

/// For development: prints what a batch of runs finds.
pub fn find(prop: &str, seed: u64, n: u64) -> i32 {
    let t = Instant::now();
    let mut bad = 0;
    let (mut non, mut irr) = (0, 0);
    let mut probes = [0u64; PROBES.len()];
    for i in 0..n {
        let (s, live) = case(prop, seed, i);
        let out = checks::run(prop, &s, &Mode::Live { seed: live });
        irr += out.irrelevant as u64;
        let mut here = [0u64; PROBES.len()];
        reached(&mut here);
        for (a, b) in probes.iter_mut().zip(&here) {
            *a += b;
        }
        non += exercised(prop, &out, &here) as u64;
        if let Some((c, m)) = out.violation {
            println!("run {i} {c}: {m}");
            if bad < 1 {
                println!("{}", s.text());
            }
            bad += 1;
            if bad > 8 {
                break;
            }
        }
    }
    println!("{prop}: {n} runs in {:?}, {bad} bad, {non} exercised, {irr} irrelevant", t.elapsed());
    for (n, v) in PROBES.iter().zip(probes) {
        print!("{n} {v}, ");
    }
    println!();
    0
}
