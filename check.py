#!/usr/bin/env python3
"""Runs the check of one property:  check.py C01 [quick|thorough]   or   check.py replay FILE

Every run builds the simulator from /repo's working tree, executes the property's share of simulated runs,
and rewrites evidence/<id>.json. Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed.
Exit 2: the check could not be carried out."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import simbuild
from plan import PLAN, THOROUGH

LEVEL = "exploration"
WORKERS = max(1, min(8, os.cpu_count() or 1))
REAL = ["h_malloc.c", "memory.c", "random.c", "chacha.c", "pages.c", "util.c", "new.cc", "third_party/libdivide.h (compiled from the working tree with compiler instrumentation, otherwise unchanged)"]
STUB = ["kernel memory calls (mmap, munmap, mprotect, mremap, madvise, prctl): model of address space, limits and refusals over real memory",
        "protection keys: model checked on every instrumented access", "getrandom: seeded stream with short and interrupted reads",
        "pthread mutexes and threads: fibers under a seeded scheduler, preemptible at every memory access of the allocator",
        "fork: the handlers run in simulated order, the child is a real process that continues the simulation", "write/abort: recorded",
        "memory tagging (mte configuration): software model of tags"]


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


def load_known():
    """known_findings.txt: lines 'finding: property=<id> class=<class> match=<regex> what=<text>' (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+class=(\S+)\s+match=/(.*)/\s+what=(.*)$", line.strip())
            if m:
                out.append({"property": m.group(1), "class": m.group(2), "re": re.compile(m.group(3)), "what": m.group(4)})
    return out


def replay_file(path, verbose=True):
    cfg = None
    for line in open(path, errors="replace"):
        m = re.match(r"#?\s*config[ =](\S+)", line)
        if m:
            cfg = m.group(1); break
    if not cfg:
        m = re.match(r"C\d+-(\w+)-", os.path.basename(path)); cfg = m and m.group(1)
    if cfg not in simbuild.CONFIGS:
        die("cannot tell which configuration %s belongs to" % path)
    exe = simbuild.build_exe(cfg)
    p = subprocess.run([exe, "replay", path] + (["-v"] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    return p.returncode, p.stdout.decode(errors="replace")


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    if sys.argv[1] == "replay":
        rc, out = replay_file(sys.argv[2]); print(out); return 0 if rc == 0 else 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if pid not in PLAN:
        die("no check for " + pid)
    t0 = time.time()
    parts = PLAN[pid]
    names = sorted({c for p in parts for c in p["configs"]})
    try:
        exes = simbuild.build_many(names)
        simbuild.gc()
    except simbuild.BuildError as e:
        die("the simulator cannot be built from the working tree:\n" + str(e))
    tbuild = time.time() - t0
    mult = THOROUGH if tier == "thorough" else 1
    # a generous limit on time keeps a slow machine inside the limit of the caller; normally all runs are carried out
    limit = float(os.environ.get("CHECK_LIMIT", "100" if tier == "quick" else "3000"))
    scratch = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=simbuild.BUILD)
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    jobs = []
    for p in parts:
        n = p["runs"] * mult
        split = max(1, min(n, 4 if len(p["configs"]) >= 4 else 8))
        for w in range(split):
            for c in p["configs"]:
                jobs.append((p["mode"], c, w, split, n))
    # the slow modes first
    jobs.sort(key=lambda j: (j[0] == "gen", j[2]))
    tstart = time.time()
    state = {"viol": None}
    procs = set()

    def run_job(j):
        mode, cfg, w, nw, n = j
        if state["viol"] is not None:
            return None
        left = limit - (time.time() - tstart)
        if left < 1:
            return None
        out = os.path.join(scratch, "%s-%s-%d.json" % (mode, cfg, w))
        cmd = [exes[cfg], "batch", pid[1:].lstrip("0"), str(seed), mode, str(w), str(nw), str(n), "%.1f" % left, out, scratch]
        pr = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        procs.add(pr)
        try:
            _, err = pr.communicate(timeout=left + 240)
        except subprocess.TimeoutExpired:
            os.killpg(pr.pid, 9); pr.communicate()
            return {"error": "worker %s %s %d did not finish" % (mode, cfg, w)}
        finally:
            procs.discard(pr)
        if not os.path.exists(out):
            if state["viol"] is not None:
                return None
            return {"error": "worker %s %s %d died (%d): %s" % (mode, cfg, w, pr.returncode, err.decode(errors="replace")[-300:])}
        r = json.load(open(out))
        if r["violation"] and state["viol"] is None:
            state["viol"] = r["violation"]
            for q in list(procs):
                try: os.killpg(q.pid, 9)
                except OSError: pass
        return r

    with ThreadPoolExecutor(WORKERS) as ex:
        results = [r for r in ex.map(run_job, jobs) if r]
    wall = time.time() - tstart
    errors = [r["error"] for r in results if "error" in r]
    results = [r for r in results if "error" not in r]
    for r in results:
        for k, v in r["errors"].items():
            errors.append("%s/%s: %s (x%d)" % (r["config"], r["mode"], k, v))
    agg = {k: {} for k in ("counters", "faults", "ops", "probes", "other_classes")}
    tot = {k: 0 for k in ("runs", "distinct_histories", "distinct_schedules", "distinct_nontrivial", "terminal", "nontrivial", "determinism_rechecks")}
    per = {}
    for r in results:
        for k in agg: merge(agg[k], r[k])
        for k in tot: tot[k] += r[k]
        key = r["config"] + "/" + r["mode"]
        per[key] = per.get(key, 0) + r["runs"]
    known, code, lines = load_known(), 0, []
    nviol = 0
    for v in [r["violation"] for r in results if r["violation"]]:
        path, cls, msg, note = (v.split("\t") + ["", "", ""])[:4]
        final = os.path.join(rdir, os.path.basename(path))
        shutil.copy(path, final)
        # gate: twice in fresh processes, with the same hash
        ok = [replay_file(final, False)[0] for _ in range(2)]
        if ok != [0, 0]:
            errors.append("violation %s did not replay exactly (%s): %s" % (cls, ok, msg)); continue
        kf = [k for k in known if k["property"] == pid and k["class"] == cls and k["re"].search(msg)]
        if kf:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, kf[0]["what"])); continue
        nviol += 1
        if nviol == 1:
            lines.append("VIOLATION property=%s replay=%s" % (pid, final))
            lines.append("  %s: %s" % (cls, msg)); lines.append("  %s" % note)
            code = 1
    samples = [r["sample"] for r in results if r["sample"]][:6]
    active = sum(agg["faults"].values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVEL, "wall_s": round(time.time() - t0, 2), "violations": nviol,
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": tot["distinct_nontrivial"],
            "rule": "Each evaluation is one simulated run: the seed decides program, schedule, entropy, address placement and faults. A run is non-trivial if it made at least three calls and the property's own check was evaluated in it at least once; distinct means a different hash over all events of the run.",
            "samples": samples,
            "runs_per_configuration_and_workload": per,
            "runs_per_hour": int(tot["runs"] / wall * 3600) if wall > 0 else 0,
            "seeds_per_hour": int(tot["runs"] / wall * 3600) if wall > 0 else 0,
            "simulated_time": "the allocator reads no clock; simulated time is counted in scheduling points of allocator code",
            "simulated_steps": agg["counters"].get("steps", 0),
            "distinct_histories": tot["distinct_histories"], "distinct_interleavings": tot["distinct_schedules"],
            "interleaving_measure": "distinct hashes of the sequence of (operation, scheduling point, next thread)",
            "runs_ended_by_expected_stop": tot["terminal"], "determinism_rechecks": tot["determinism_rechecks"],
            "faults_injected": agg["faults"], "faults_injected_total": active, "operations": agg["ops"], "misuse_probes": agg["probes"], "reach_counters": agg["counters"],
            "violations_of_other_properties_seen": agg["other_classes"],
            "components_real": REAL, "components_simulated": STUB, "build_s": round(tbuild, 2), "harness_errors": errors[:10],
        },
        "assumptions": ["accesses by the compiler's instrumentation points are the only places where threads interleave (sequentially consistent memory)",
                        "the model of the kernel's memory calls is faithful where the allocator depends on it",
                        "sampling: a clean batch is evidence for the explored runs only"],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    shutil.rmtree(scratch, ignore_errors=True)
    for l in lines: print(l)
    print("%s %s: %d runs (%d distinct and non-trivial), %d steps, %d faults, %.1f s build + %.1f s run, exit %d" % (pid, tier, tot["runs"], tot["distinct_nontrivial"], agg["counters"].get("steps", 0), active, tbuild, wall, code))
    if code == 0 and errors:
        for e in errors[:10]: print("ERROR " + e)
        return 2
    if code == 0 and tot["distinct_nontrivial"] == 0:
        die("nothing was explored")
    return code


if __name__ == "__main__":
    sys.exit(main())
