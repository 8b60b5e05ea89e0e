#!/usr/bin/env python3
"""miri.py check <property> <tier> <seed> <wall s> | miri.py replay <file>

Seeded executions of the real library under Miri: see miri/src/main.rs.
"""
import json, os, re, subprocess, sys, time

ROOT = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
CRATE = os.path.join(ROOT, "miri")
FLAGS = ("-Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"
         " -Zmiri-preemption-rate=%s")
LOCKS = {"parking_lot": ["--features", "parking_lot"], "std": []}
BATCH = 96


def miri(lock, rate, seeds, args, timeout=600, listing=False):
    env = {k: v for k, v in os.environ.items()
           if k not in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "MIRI_SYSROOT")}
    env["MIRIFLAGS"] = FLAGS % rate + " " + seeds
    if listing:
        env["MIRIFLAGS"] += " -Zmiri-env-forward=QC_LIST"
        env["QC_LIST"] = "1"
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--quiet", *LOCKS[lock], "--", *args]
    try:
        p = subprocess.run(cmd, cwd=CRATE, env=env, capture_output=True, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        subprocess.run(["pkill", "-9", "-P", str(os.getpid())])
        return 124, (e.stdout or b"").decode(errors="replace"), "timed out"


def ub(err):
    m = re.search(r"^error: (Undefined Behavior: .*)$", err, re.M) or re.search(r"^(PRECONDITION .*)$", err, re.M)
    # numbers of allocations differ from run to run
    return m and re.sub(r"alloc\d+", "alloc", m.group(1))


def kind(message):
    """What must stay the same while minimising: the kind of undefined behaviour."""
    return re.sub(r"0x[0-9a-f]+|\d+|`[^`]*`|alloc\S*", "_", message)[:60]


def failing(out, err):
    return [int(x) for x in re.findall(r"FAILING SEED: (\d+)", out + err)]


def many(a, b):
    return f"-Zmiri-many-seeds={a}..{b} -Zmiri-many-seeds-keep-going"


def minimise(lock, rate, wseed, wanted, deadline):
    """Fewer operations, some schedule: returns (seed, args) or None."""
    _, out, _ = miri(lock, rate, "-Zmiri-seed=0", [str(wseed)], listing=True)
    ops = re.findall(r"^LIST (\d+:\d+) ", out, re.M)

    def fails(keep):
        if time.time() > deadline:
            return None
        args = [str(wseed), *keep]
        _, out, err = miri(lock, rate, "-Zmiri-many-seeds=0..24", args, timeout=60)
        for s in failing(out, err)[:1]:
            _, _, err = miri(lock, rate, f"-Zmiri-seed={s}", args, timeout=60)
            if ub(err) and kind(ub(err)) == kind(wanted):
                return s, args
        return None

    best = fails(ops)
    if not best:
        return None
    size = max(1, len(ops) // 2)
    while True:
        i = 0
        while i < len(ops):
            less = ops[:i] + ops[i + size:]
            got = less and fails(less)
            if got:
                best, ops = got, less
            else:
                i += size
        if size == 1 or time.time() > deadline:
            return best
        size //= 2


def backtrace(err):
    at = err.find("error: Undefined Behavior")
    return [l for l in err[at:].splitlines()[:60] if l.strip()]


def check(prop, tier, seed, wall):
    start = time.time()
    for lock in LOCKS:
        rc, out, err = miri(lock, "0.01", "-Zmiri-seed=0", ["1", "9:9"])
        if "RUN " not in out:
            sys.stderr.write(err[-3000:])
            return 2
    built = time.time()
    base = seed * 1_000_003 % 2_000_000_000
    runs, samples, other = 0, [], {}
    distinct, faults, threads, ops = set(), [0] * 5, 0, 0
    per_lock = dict.fromkeys(LOCKS, 0)
    at, n, found = base, 0, None
    while time.time() - built < wall and not found:
        lock = "std" if n % 3 == 2 else "parking_lot"
        rate = ("0.01", "0.05", "0.2")[n // 3 % 3]
        n += 1
        _, out, err = miri(lock, rate, many(at, at + BATCH), ["auto"])
        for m in re.finditer(r"^RUN (\d+) (\d+) (\d+) (\w+) (\d+) (\d+) (\d+) (\d+) (\d+)$", out, re.M):
            runs += 1
            per_lock[lock] += 1
            threads += int(m[2])
            ops += int(m[3])
            if int(m[3]) > 1:
                distinct.add((m[1], m[4]))
            faults = [a + int(b) for a, b in zip(faults, m.groups()[4:])]
            if len(samples) < 3:
                samples.append({"lock": lock, "preemption_rate": rate, "workload_seed": m[1], "threads": int(m[2]), "operations": int(m[3]), "fingerprint_of_results": m[4]})
        for s in failing(out, err):
            rc, out1, err1 = miri(lock, rate, f"-Zmiri-seed={s}", ["auto"])
            if ub(err1):
                found = (lock, rate, s, ub(err1), err1, re.search(r"^WORKLOAD (\d+)$", out1, re.M)[1])
                break
            # a deadlock or an abort is other properties' business
            what = re.search(r"^error: (.{0,60})", err1, re.M)
            what = what.group(1) if what else f"exit status {rc}"
            other[what] = other.get(what, 0) + 1
            runs += 1
        at += BATCH
    took = time.time() - built
    path = None
    if found:
        lock, rate, s, message, err1, workload = found
        print(f"{prop}: seed {s}, {lock} lock: {message}")
        args = ["auto"]
        m = minimise(lock, rate, int(workload), message, time.time() + 120)
        if m:
            s, args = m
            _, _, err1 = miri(lock, rate, f"-Zmiri-seed={s}", args)
            message = ub(err1) or message
        _, listing, _ = miri(lock, rate, f"-Zmiri-seed={s}", [workload, *args[1:]], listing=True)
        path = os.path.join(ROOT, "replays", f"{prop}-ub-{seed}-{s}.replay")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(f"property {prop}\nengine miri\nlock {lock}\nrate {rate}\nseed {s}\nargs {' '.join(args)}\nerror {message}\n")
            f.write("".join(f"# {l}\n" for l in re.findall(r"^LIST (.*)$", listing, re.M) + backtrace(err1)))
        again = replay(path)
        if again != 1:
            print(f"{prop}: the replay does not reproduce it", file=sys.stderr)
    names = ["panics_of_user_code", "failed_loads", "cancelled_futures", "time_outs", "abandoned_guards"]
    json.dump({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(distinct),
            "rule": "One Miri seed is one execution: it draws a workload (threads, operations, cache options, faults) and decides every preemption, stale read, spurious exchange failure, address and the clock. Counted: distinct pairs of workload and results of its operations, of workloads with at least two operations.",
            "samples": samples,
            "runs_per_hour": round(runs / max(took, 1e-9) * 3600),
            "seeds": [base, at],
            "runs_by_lock": per_lock,
            "preemption_rates": ["0.01", "0.05", "0.2"],
            "threads_simulated": threads, "operations": ops,
            "faults": dict(zip(names, faults)),
            "ended_otherwise": other,
            "simulated_time": "Miri's virtual clock, advanced by executed steps and waits; not summed",
            "real_code": "quick_cache as shipped (no hook), hashbrown, parking_lot, the standard library",
            "stub": "operating system (Miri), parking_lot_core's futex parker (std mutex and condvar instead)",
        },
        "assumptions": ["Miri's interpreter, its data race detector and its weak memory emulation", "borrow tracking is off: aliasing models are not judged"],
        "wall_s": round(time.time() - start, 1),
        "violations": 1 if found else 0,
    }, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop}: {runs} runs, {len(distinct)} distinct, faults {faults}, {other or 'all ended by themselves'}")
    if found:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def replay(path):
    f = dict(l.rstrip("\n").split(" ", 1) for l in open(path) if not l.startswith("#"))
    _, _, err = miri(f["lock"], f["rate"], f"-Zmiri-seed={f['seed']}", f["args"].split())
    got = ub(err)
    print("replay:", got or "no undefined behaviour", "(as recorded)" if got == f["error"] else "(NOT as recorded)")
    return 1 if got else 0


if __name__ == "__main__":
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2], sys.argv[3], int(sys.argv[4]), float(sys.argv[5])))
    sys.exit(replay(sys.argv[2]))
