//! The check of one property: workers, verdict, evidence.

use crate::engine::FAULTS;
use crate::minimise::field;
use crate::os::HUNG_EXIT;
use crate::{case, checks};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// Always the same split, whatever the machine.
const WORKERS: u64 = 8;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct W {
    child: Child,
    bin: PathBuf,
    out: PathBuf,
    status: PathBuf,
    first: u64,
    done: bool,
}

struct Found {
    bin: PathBuf,
    index: u64,
    class: String,
    msg: String,
}

fn spawn(bin: &Path, dir: &Path, n: u64, prop: &str, seed: u64, first: u64, count: u64, wall: u64) -> W {
    let out = dir.join(format!("out{n}"));
    let status = dir.join(format!("status{n}"));
    let child = Command::new(bin)
        .args(["worker", prop])
        .args([seed, first, WORKERS, count, wall].map(|x| x.to_string()))
        .args([&status, &out])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("can't start a worker");
    W { child, bin: bin.into(), out, status, first, done: false }
}

/// Does this run end like that again?
fn crashes_again(prop: &str, seed: u64, index: u64, bin: &Path, dir: &Path, hang: bool) -> bool {
    let w = Command::new(bin)
        .args(["worker", prop])
        .args([seed, index, 1, index + 1, 3_600_000].map(|x| x.to_string()))
        .args([dir.join("again.status"), dir.join("again.out")])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .expect("can't start a worker");
    if hang {
        w.code() == Some(HUNG_EXIT)
    } else {
        w.code() != Some(0)
    }
}

/// check PROP TIER SEED DBG_BIN REL_BIN VERIF_DIR RUNS WALL_S
pub fn check(args: &[&str]) -> i32 {
    let [prop, tier, seed, dbg, rel, verif, runs, wall_s] = args else {
        eprintln!("check PROP TIER SEED DBG_BIN REL_BIN VERIF_DIR RUNS WALL_S");
        return 2;
    };
    if !checks::PROPS.contains(prop) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let seed: u64 = seed.parse().unwrap();
    let count: u64 = runs.parse().unwrap();
    let wall_s: u64 = wall_s.parse().unwrap();
    let verif = PathBuf::from(verif);
    let dir = verif.join("work").join(format!("{prop}-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let t0 = Instant::now();
    println!("property {prop} tier {tier} seed {seed}: up to {count} runs on {WORKERS} workers, {wall_s} s");
    let bins = [PathBuf::from(dbg), PathBuf::from(rel)];
    let mut ws: Vec<W> = (0..WORKERS)
        .map(|n| spawn(&bins[(n % 2) as usize], &dir, n, prop, seed, n, count, wall_s * 1000))
        .collect();
    let mut found: Option<Found> = None;
    let mut odd = Vec::new();
    while found.is_none() && ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let Some(st) = w.child.try_wait().unwrap() else { continue };
            w.done = true;
            if st.code() == Some(0) {
                continue;
            }
            if st.code() == Some(3) {
                let text = fs::read_to_string(&w.out).unwrap_or_default();
                let v = field(&text, "violation").unwrap_or("0 harness no details");
                let mut p = v.splitn(3, ' ');
                found = Some(Found {
                    bin: w.bin.clone(),
                    index: p.next().unwrap().parse().unwrap_or(0),
                    class: p.next().unwrap_or("").into(),
                    msg: p.next().unwrap_or("").into(),
                });
                break;
            }
            // died in the middle of a run
            let status = fs::read(&w.status).unwrap_or_default();
            let index = status.get(..8).map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()));
            let hang = st.code() == Some(HUNG_EXIT);
            let how = format!("{st} (signal {:?})", st.signal());
            if index == 0 {
                odd.push(format!("worker {} died before its first run: {how}", w.first));
                continue;
            }
            let index = index - 1;
            if crashes_again(prop, seed, index, &w.bin, &dir, hang) {
                found = Some(Found {
                    bin: w.bin.clone(),
                    index,
                    class: if hang { "hang" } else { "crash" }.into(),
                    msg: if hang {
                        "a call never returned".into()
                    } else {
                        format!("the process died: {how}")
                    },
                });
                break;
            }
            // killed from outside (out of memory, say): go on behind it
            odd.push(format!("worker {} died in run {index}, which doesn't happen again: {how}", w.first));
        }
    }
    for w in &mut ws {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    // merge
    let mut sums: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = FAULTS.iter().map(|f| (f.to_string(), 0)).collect();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut hashes: Vec<u64> = Vec::new();
    for w in &ws {
        let Ok(text) = fs::read_to_string(&w.out) else { continue };
        for l in text.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            match p.as_slice() {
                ["fault", n, v] => *faults.entry(n.to_string()).or_default() += v.parse::<u64>().unwrap(),
                ["probe", n, v] => *probes.entry(n.to_string()).or_default() += v.parse::<u64>().unwrap(),
                ["sample", i, h] => samples.push((i.parse::<u64>().unwrap(), h.to_string(), w.bin.clone())),
                ["violation", ..] => (),
                [n, v] => *sums.entry(n.to_string()).or_default() += v.parse::<u64>().unwrap(),
                _ => (),
            }
        }
        let mut name = w.out.clone().into_os_string();
        name.push(".hashes");
        if let Ok(b) = fs::read(name) {
            hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    hashes.sort_unstable();
    hashes.dedup();
    let get = |n: &str| sums.get(n).copied().unwrap_or(0);

    // one seed, one execution: again in another process, and from the recorded decisions
    let mut again = (0u64, 0u64);
    if found.is_none() {
        let n = 40;
        let step = (count / n).max(1);
        for bin in &bins {
            let run = || {
                let o = Command::new(bin)
                    .args(["fingerprints", prop])
                    .args([seed, 0, n.min(count), step].map(|x| x.to_string()))
                    .stderr(Stdio::null())
                    .output()
                    .expect("can't start a worker");
                String::from_utf8_lossy(&o.stdout).into_owned()
            };
            let (a, b) = (run(), run());
            for (x, y) in a.lines().zip(b.lines()) {
                again.0 += 1;
                let p: Vec<&str> = x.split(' ').collect();
                if x != y || p.len() != 4 || p[1] != p[2] || p[3] != "true" {
                    again.1 += 1;
                }
            }
        }
        if again.1 != 0 {
            println!("WARNING: {} of {} runs weren't repeatable", again.1, again.0);
        }
    }

    // verdict
    let mut code = 0;
    let mut violation = String::from("null");
    if let Some(f) = &found {
        code = 1;
        println!("found in run {}: {}: {}", f.index, f.class, f.msg);
        let replays = verif.join("replays");
        fs::create_dir_all(&replays).unwrap();
        let path = replays.join(format!("{prop}-{}-{seed}-{}.replay", f.class, f.index));
        let _ = fs::remove_file(&path);
        let budget = if *tier == "thorough" { 180 } else { 45 };
        let st = Command::new(&f.bin)
            .args(["minimise", prop])
            .args([seed, f.index].map(|x| x.to_string()))
            .args([&f.class, &budget.to_string()])
            .arg(&path)
            .stdout(Stdio::null())
            .status();
        if !path.exists() {
            println!("minimising didn't work ({st:?}), the replay file names the seed");
            let build = if f.bin == bins[0] { "simdbg" } else { "simrel" };
            fs::write(&path, format!("property {prop}\nbuild {build}\nclass {}\nmessage {}\nrun {seed} {}\n", f.class, f.msg, f.index)).unwrap();
        }
        // in a fresh process it fails the same way
        let r = Command::new(&f.bin).arg("replay").arg(&path).output();
        if let Ok(r) = r {
            for l in String::from_utf8_lossy(&r.stdout).lines().filter(|l| !l.starts_with("VIOLATION")) {
                println!("replay: {l}");
            }
        }
        violation = format!("{{\"class\": {}, \"message\": {}, \"run\": {}, \"replay\": {}}}", esc(&f.class), esc(&f.msg), f.index, esc(&path.to_string_lossy()));
        println!("VIOLATION property={prop} replay={}", path.display());
    }
    for o in &odd {
        println!("note: {o}");
    }

    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let map = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let texts: Vec<String> = samples
        .iter()
        .take(4)
        .map(|(i, h, bin)| {
            let b = if *bin == bins[0] { "simdbg" } else { "simrel" };
            format!(
                "{{\"seed\": {seed}, \"run\": {i}, \"build\": {}, \"fingerprint\": {}, \"scenario\": {}}}",
                esc(b),
                esc(h),
                esc(&case(prop, seed, *i).0.text())
            )
        })
        .collect();
    let runs = get("runs");
    let per_hour = runs as f64 / search_s.max(0.001) * 3600.0;
    let ev = format!(
        r#"{{
 "property": {prop}, "tier": {tier}, "seed": {seed}, "level": "exploration", "wall_s": {wall:.2}, "violations": {nviol},
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {distinct},
  "rule": {rule},
  "samples": [{samples}],
  "nontrivial_runs": {nontrivial},
  "runs_per_hour": {per_hour:.0}, "seeds_per_hour": {per_hour:.0},
  "simulated_seconds": {sim:.3},
  "scheduling_steps": {steps}, "task_switches": {switches},
  "faults_injected": {faults},
  "conditions_reached": {probes},
  "runs_ended_by_violations_of_other_properties": {irrelevant},
  "workers_stopped_by_the_wall_clock": {capped},
  "repeatability": {{"runs_executed_twice_in_separate_processes_and_replayed_from_their_trace": {again}, "differing": {differing}}},
  "builds": ["simdbg: debug assertions, overflow checks, feature stats", "simrel: as released, no features"],
  "ran_real": {real},
  "ran_stub": {stub},
  "violation": {violation}
 }},
 "assumptions": {assumptions}
}}
"#,
        prop = esc(prop),
        tier = esc(tier),
        nviol = code,
        distinct = hashes.len(),
        rule = esc(&rule(prop)),
        samples = texts.join(", "),
        nontrivial = get("nontrivial"),
        sim = get("sim_ns") as f64 / 1e9,
        steps = get("steps"),
        switches = get("switches"),
        faults = map(&faults),
        probes = map(&probes),
        irrelevant = get("irrelevant"),
        capped = get("capped"),
        again = again.0,
        differing = again.1,
        real = "[\"all of quick_cache: sync, sync_placeholder, shard, linked_slab, unsync, options, rw_lock (std branch)\", \"hashbrown, equivalent, std collections and Arc\"]",
        stub = "[\"parking_lot / std RwLock: a lock of the simulator with std's interface that doesn't poison (src/sim.rs)\", \"std::thread park/unpark/current, std::time::Instant: simulated\", \"atomics: real, with a scheduling point before each access\", \"the async executor, the hash function, weighters, lifecycles and loaders: the harness\"]",
        assumptions = "[\"schedules are sequentially consistent: weaker memory orders aren't explored\", \"seeded sampling, not enumeration\", \"preemption happens at lock, atomic, park, clock and user-code points only\"]",
    );
    let evdir = verif.join("evidence");
    fs::create_dir_all(&evdir).unwrap();
    fs::write(evdir.join(format!("{prop}.json")), ev).unwrap();
    let _ = fs::remove_dir_all(&dir);
    println!(
        "{runs} runs ({} distinct and non-trivial), {} steps, {:.1} simulated s, {:.1} s wall",
        hashes.len(),
        get("steps"),
        get("sim_ns") as f64 / 1e9,
        wall
    );
    if code == 0 && runs == 0 {
        println!("no run was completed");
        return 2;
    }
    code
}

fn rule(prop: &str) -> String {
    let what = match prop {
        "C01" => "operations of different tasks overlapped and one of them returned or stored a value",
        "C02" => "at least two callers were granted a load and operations overlapped",
        "C03" => "somebody waited for a load and got it or its value, timed out or was cancelled",
        "C04" => "somebody was waiting at the moment a load delivered its value",
        "C05" => "a wait timed out or ended with a value",
        "C06" => "a future was cancelled, moved to another waker or polled without need",
        "C07" => "something was evicted or refused",
        "C08" => "something was evicted, displaced or refused",
        "C09" => "a pin kept an item, or before_evict zeroed a weight",
        "C10" | "C11" | "C18" => "something was stored",
        "C12" => "steps were taken",
        "C13" => "a loader, callback or destructor called back into the cache",
        "C14" => "something was fetched",
        "C15" => "something was evicted",
        "C16" => "retain or clear removed something, or the predicate panicked",
        "C17" => "a key was invalidated while its load was in flight",
        "C19" => "the premises held: a resident item the scan must not evict",
        "C23" => "a caller was stopped in the middle of its call while others ran",
        _ => "",
    };
    format!(
        "Run i takes its scenario (configuration, tasks, operations) and its schedule and faults from a PRNG seeded with (VERIF_SEED, {prop}, i). Non-trivial: {what}. Distinct: by a 64-bit hash over every scheduling and fault decision, every call and every result, counted exactly over all workers (up to 6 million per worker)."
    )
}
