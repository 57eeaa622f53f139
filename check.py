#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation with fault injection.

  check.py ID                    explore (VERIF_SEED, VERIF_TIER from the environment)
  check.py ID --replay FILE [-v] re-execute one recorded violation
Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=ID replay=PATH": broken, and the replay file was
seen to reproduce it in a fresh process.  Exit 2: no answer (could not build, nondeterministic, harness error).
"""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS, REAL, STUB, ASSUME

VERIF = B.VERIF
OUT = os.path.join(VERIF, "replays")
# name -> (variant, share of the tier's runs)
TIERS = {"quick": {"opt": (60000, 14), "san": (14000, 14), "det": 240},
         "thorough": {"opt": (6000000, 600), "san": (2000000, 600), "det": 3000}}


def die(msg):
    sys.stderr.write("CHECK-ERROR: %s\n" % msg)
    print("CHECK-ERROR: %s" % msg.splitlines()[0])
    sys.exit(2)


LENIENT = False


def env(known):
    e = dict(os.environ)
    e.pop("SIM_LENIENT", None)
    if LENIENT:
        e["SIM_LENIENT"] = "1"
    e["SIM_MRI_IMAGE"] = B.IMG
    e["SIM_KNOWN"] = ",".join(known)
    e["LC_ALL"] = "C"
    return e


def sim(exe, args, known, timeout=900):
    try:
        return subprocess.run([exe] + [str(a) for a in args], env=env(known), stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        die("simulator did not finish within %d s: %s" % (timeout, args))


def explore(exe, pid, base, start, count, workers, secs, known, maxviol=24):
    p = sim(exe, ["run", pid, base, start, count, workers, secs, maxviol], known, secs + 240)
    try:
        j = json.loads(p.stdout)
    except ValueError:
        die("simulator produced no result (%s): %s %s" % (p.returncode, p.stdout[-300:], p.stderr[-300:]))
    if j["worker_died"]:
        die("a simulator worker died: %s" % p.stderr[-300:])
    return j


def known_findings(pid):
    r = {}
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path, errors="replace"):
        m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            r[m.group(2)] = m.group(3)
    return r


def shape(f):
    return (f["kind"], re.sub(r"0x[0-9a-fA-F]+|\b[0-9a-f]{6,}\b|\d+", "#", f["msg"])[:60])


def gate(bins, variant, f, pid, known, budget):
    """Same seed twice, recorded choices, minimised choices, then the replay file in a fresh process."""
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%s-%s.replay" % (pid, variant, f["seed"]))
    p = sim(bins[variant], ["min", pid, f["seed"], path, budget], known, budget + 400)
    if p.returncode:
        return None, "seed %s (%s): %s" % (f["seed"], variant, p.stdout.strip() or p.stderr[-200:])
    text = open(path, errors="replace").read()
    want = re.search(r"^hash (\S+)", text, re.M).group(1)
    kind = re.search(r"^kind (\S+)", text, re.M).group(1)
    for _ in range(5 if LENIENT else 1):
        q = sim(bins[variant], ["replay", pid, path, "-v"], known)
        m = re.search(r"verdict=(\S+) kind=(\S+) hash=(\S+)", q.stdout)
        if not m or m.group(1) != "violation" or m.group(2) != kind or (m.group(3) != want and not LENIENT):
            return None, "the replay file %s does not reproduce" % path
    lines = q.stdout.splitlines()
    if len(lines) > 400:
        lines = lines[:60] + ["... %d lines left out; 'check.py %s --replay %s -v' prints them ..." % (len(lines) - 400, pid, path)] + lines[-340:]
    with open(path, "a", errors="replace") as o:
        o.write("# schedule and fault trace (virtual microseconds, event)\n")
        for l in lines:
            o.write("# " + l + "\n")
    return path, re.search(r"^message (.*)", text, re.M).group(1)


def replay(pid, path, verbose):
    known = list(known_findings(pid))
    variant = re.search(r"^variant (\S+)", open(path, errors="replace").read(), re.M).group(1)
    bins = B.build((variant,))
    p = sim(bins[variant], ["replay", pid, path] + (["-v"] if verbose else []), known)
    sys.stdout.write(p.stdout)
    if p.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.exit(p.returncode if p.returncode in (0, 1) else 2)


def sample(exe, pid, base, known):
    for i in range(40):
        p = sim(exe, ["idx", pid, base, i, "-v"], known)
        if "nontrivial=1" in p.stdout:
            L = p.stdout.splitlines()
            if len(L) > 34:
                L = L[:20] + ["... %d events ..." % (len(L) - 32)] + L[-12:]
            return {"run_index": i, "trace": [l[:160] for l in L]}
    return {"run_index": -1, "trace": ["none of the first 40 runs was non-trivial"]}


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        die("usage: check.py ID")
    pid = sys.argv[1]
    try:
        if "--replay" in sys.argv:
            replay(pid, sys.argv[sys.argv.index("--replay") + 1], "-v" in sys.argv)
        t0 = time.time()
        bins = B.build()
    except B.BuildError as e:
        die("build failed: %s" % e)
    tb = time.time() - t0
    prop = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in TIERS:
        tier = "quick"
    base = int(os.environ.get("VERIF_SEED", "1") or 1)
    T = TIERS[tier]
    W = os.cpu_count() or 4
    scale = prop.get("scale", 1.0)
    kf = known_findings(pid)
    known = sorted(kf)
    runs, found, harness, knownbits = {}, [], [], 0
    for v, first in (("opt", 0), ("san", 1 << 40)):
        n, secs = T[v]
        runs[v] = explore(bins[v], pid, base, first, int(n * scale), W, secs, known)
        for f in runs[v]["found"]:
            (found if f["verdict"] == 2 else harness).append((v, f))
        knownbits |= runs[v].get("known", 0)
    # gate every kind of violation before believing it
    confirmed, refused, seen = [], [], set()
    budget = 12 if tier == "quick" else 60
    # the seed with the shortest trace of each kind first
    found.sort(key=lambda x: x[1]["choices"])
    # The second pass only runs if nothing reproduced byte for byte: schedule and verdict must still repeat every time,
    # but what CrashDebug made of memory it never initialised, or had already freed, may differ.
    global LENIENT
    for LENIENT in (False, True):
        tries = 0
        for v, f in found:
            s = shape(f)
            if s in seen or len(confirmed) >= 3 or tries > 6 or time.time() - t0 > (400 if tier == "quick" else 3000):
                continue
            path, msg = gate(bins, v, f, pid, known, budget)
            if path:
                seen.add(s)
                confirmed.append((path, f["kind"], msg))
            else:
                refused.append(msg)
                tries += 1
        if confirmed:
            break
    LENIENT = False
    for k, note in sorted(kf.items()):
        if (knownbits >> KNOWN_BITS.index(k)) & 1:
            print("KNOWN-FINDING: property=%s %s" % (pid, note))
    det = []
    if not confirmed:
        if refused:
            die("violations were seen but could not be reproduced from their seed: " + "; ".join(refused))
        if harness:
            die("harness error in seed %s (%s): %s" % (harness[0][1]["seed"], harness[0][0], harness[0][1]["msg"]))
        for v in ("opt", "san"):
            n = T["det"] if v == "opt" else T["det"] // 2
            d = [explore(bins[v], pid, base, 0, n, w, 0, known)["digest"] for w in (W, 3)]
            if d[0] != d[1]:
                die("not deterministic: %s digests of %d runs differ between worker counts: %s" % (v, n, d))
            det.append({"variant": v, "seeds_run_twice": n, "workers": [W, 3], "digest": d[0]})
    tot = {}
    for v in runs:
        for k, c in runs[v]["counters"].items():
            a = tot.setdefault(k, [0, 0])
            a[0] += c[0]
            a[1] += c[1]
    ev = sum(r["runs"] for r in runs.values())
    wall_sim = sum(r["wall_s"] for r in runs.values())
    if not confirmed:
        if ev < 50:
            die("only %d simulated runs were possible" % ev)
        missing = [p for p in prop.get("probes", []) if not tot.get(p, [0])[0] and p not in SOFT]
        if missing:
            die("conditions this check depends on never occurred: " + ", ".join(missing))
    simt = sum(r["sim_us"] for r in runs.values()) / 1e6
    evidence = {
        "property": pid, "tier": tier, "seed": base, "level": "exploration", "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in runs.values()),
            "rule": prop["rule"] + " Distinct: full event-log hash (every request, reply, system call, fault and byte moved) differs; counted per variant.",
            "samples": [sample(bins["opt"], pid, base, known)],
            "runs_per_hour": int(ev / max(wall_sim, .001) * 3600),
            "seeds_per_hour": int(ev / max(wall_sim, .001) * 3600),
            "simulated_time_s": round(simt, 3),
            "simulated_system_calls": sum(r["steps"] for r in runs.values()),
            "longest_run_system_calls": max(r["max_steps"] for r in runs.values()),
            "distinct_interleavings": sum(r["distinct_schedules"] for r in runs.values()),
            "interleaving_measure": "distinct sequences of event classes (system calls of CrashDebug, deliveries in both directions, GDB requests and replies, faults) per run",
            "event_class_bigrams": max(r["event_bigrams"] for r in runs.values()),
            "faults_fired": {k: {"times": c[0], "runs": c[1]} for k, c in sorted(tot.items()) if not k.startswith("p_")},
            "conditions_reached": {k[2:]: {"times": c[0], "runs": c[1]} for k, c in sorted(tot.items()) if k.startswith("p_")},
            "armed_but_never_fired": [p for p in prop.get("probes", []) if not tot.get(p, [0])[0]],
            "variants": {v: {k: runs[v][k] for k in ("runs", "nontrivial", "distinct_nontrivial", "distinct_schedules", "wall_s", "digest")} for v in runs},
            "determinism_self_check": det,
            "components_real": prop.get("real", REAL), "components_stubbed": prop.get("stub", STUB),
            "build_s": round(tb, 2),
        },
        "assumptions": ASSUME + prop.get("assume", []),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if confirmed:
        for path, kind, msg in confirmed:
            print("%s: %s" % (kind, msg))
        print("VIOLATION property=%s replay=%s" % (pid, confirmed[0][0]))
        sys.exit(1)
    print("OK property=%s runs=%d distinct=%d interleavings=%d simulated=%.0fs wall=%.1fs" %
          (pid, ev, evidence["coverage"]["distinct_nontrivial"], evidence["coverage"]["distinct_interleavings"], simt, time.time() - t0))


# Faults that only fire if the code makes that kind of call: armed in every exploration and reported, but code that
# does the same thing without that call is no less checked.
SOFT = {"alloc_cap", "sigpipe", "hangup_midpacket", "p_mem_read_prefix", "p_mem_read_err", "seek_fail", "tell_fail", "close_fail", "file_grow_between_passes", "file_shrink_between_passes", "select_eintr"}
KNOWN_BITS = ["bus-fault-signal", "stop-signal", "overlap-word"]
if __name__ == "__main__":
    main()
