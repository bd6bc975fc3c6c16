#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> <quick|thorough>.

Exit 0: held on everything explored. Exit 1: violation, with a line
`VIOLATION property=<id> replay=<path>`. Exit 2: the check itself failed."""
import json, os, queue, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS

VERIF = vbuild.VERIF
EVID = os.path.join(VERIF, "evidence")
NCPU = os.cpu_count() or 4


def load_known(pid):
    keys = []
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        line = line.strip()
        if line.startswith("known: property=%s key=" % pid):
            keys.append(line.split("key=", 1)[1].split()[0])
    return keys


class Violation(Exception):
    def __init__(self, replay, text, exe):
        self.replay, self.text, self.exe = replay, text, exe


class CheckError(Exception):
    pass


def run_job(argv, limit, env=None):
    try:
        p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, env=env)
    except subprocess.TimeoutExpired:
        raise CheckError("job exceeded its hard limit: %s" % " ".join(argv))
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")


def replay(exe, path, known, env=None):
    argv = [exe, "--replay", path]
    for key in known:
        argv += ["--known", key]
    rc, out, err = run_job(argv, 300, env)
    return rc


def confirm(v, kind, known, env=None):
    """A violation counts only if its recorded case reproduces twice, or, where it
    depends on what the process did before, if its job reproduces it."""
    rc = [replay(v.exe, v.replay, [], env) for _ in range(2)]
    if rc == [10, 10]:
        return
    if kind != "mc":
        with open(v.replay, "a") as f:
            f.write("whole job\n")
        for _ in range(4):
            if replay(v.exe, v.replay, known, env) == 10:
                return
    raise CheckError("recorded violation did not reproduce (exit %s): %s" % (rc, v.text))


def run_part(pid, part, tier, deadline, known):
    """Runs one driver of a property. Returns a list of per-job results."""
    kind = part["kind"]
    name = os.path.basename(part["driver"])[:-3]
    if kind == "mc":
        exe = vbuild.build_mc(name, part["driver"], part.get("profiler", False), part.get("defines", ()))
    else:
        exe = vbuild.build_enum(name, part)
    env = dict(os.environ)
    env.pop("RUY_PATHS", None)
    if kind != "mc":
        env["MALLOC_PERTURB_"] = "165"  # memory never written or released has no benign contents
    env.update(part.get("env", {}))
    rc, out, err = run_job([exe, "--list"] + ([] if kind == "mc" else ["--tier", tier]), 60, env)
    if rc:
        raise CheckError("cannot list jobs of %s: %s" % (exe, err[-500:]))
    jobs = [l.split() for l in out.splitlines() if l.strip()]
    if kind == "mc":
        prefix = part.get("prefix")
        jobs = [j for j in jobs if not prefix or any(j[0].startswith(p) for p in prefix)]
        jobs = [(j[0], float(j[1]) if len(j) > 1 else 1.0) for j in jobs]
    else:
        jobs = [(j[0], float(j[1])) for j in jobs]
    jobs.sort(key=lambda j: -j[1])
    work = os.path.join(VERIF, "build", "run", "%s-%s-%d" % (pid, name, os.getpid()))
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    budget = deadline - time.time()
    stop = []
    slots = queue.Queue()
    for i in range(NCPU):
        slots.put(i)

    def one(k):
        j = jobs[k][0]
        if stop:
            return None
        left = deadline - time.time()
        if left < 3:
            return {"job": j, "skipped": True, "complete": False}
        share = left if tier == "quick" else min(left, max(60, 2.5 * budget * NCPU / len(jobs)))
        resf = os.path.join(work, "%d.json" % k)
        artf = os.path.join(EVID, "replay", "%s-%s-%s.txt" % (pid, name, j.replace("/", "_")))
        if os.path.exists(artf):
            os.unlink(artf)
        argv = [exe, "--config" if kind == "mc" else "--job", j, "--tier", tier, "--out", resf,
                "--artifact", artf, "--seconds", "%.0f" % share]
        if kind == "mc":
            slot = slots.get()
            argv += ["--pin", str(slot)]
        else:
            for key in known:
                argv += ["--known", key]
        try:
            rc, out, err = run_job(argv, left + 180, env)
        finally:
            if kind == "mc":
                slots.put(slot)
        if rc == 10:
            stop.append(1)
            lines = [l for l in out.splitlines() if "VIOLATION" in l]
            raise Violation(artf, (lines or ["?"])[-1][:1500], exe)
        if rc != 0 or not os.path.exists(resf):
            stop.append(1)
            raise CheckError("job %s of %s exited %d: %s %s" % (j, name, rc, out[-600:], err[-1500:]))
        r = json.load(open(resf))
        r["job"] = j
        return r

    res, first, cerr = [], None, None
    with ThreadPoolExecutor(max_workers=part.get("workers", NCPU)) as ex:
        futs = [ex.submit(one, k) for k in range(len(jobs))]
        for f in futs:
            try:
                r = f.result()
                if r:
                    res.append(r)
            except Violation as v:
                first = first or v
            except CheckError as e:
                cerr = cerr or e
    shutil.rmtree(work, ignore_errors=True)
    if first:
        confirm(first, kind, known, env)
        raise first
    if cerr:
        raise cerr
    return res


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    chk = CHECKS[pid]
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", 600 if tier == "quick" else 780))
    deadline = t0 + budget
    os.makedirs(EVID, exist_ok=True)
    known = load_known(pid)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "exhaustive": True, "parts": []}
    known_seen = {}
    violations = 0
    rc = 0
    msg = ""
    try:
        for part in chk["parts"]:
            if tier == "quick" and part.get("thorough_only"):
                continue
            pt = time.time()
            try:
                res = run_part(pid, part, tier, deadline, known)
            except vbuild.BuildError:
                if not part.get("optional_build"):
                    raise
                # A configuration nobody builds by default: no build, no results to be wrong.
                cov["exhaustive"] = False
                cov["parts"].append({"driver": part["driver"], "kind": part["kind"], "jobs": 0, "not_built": True})
                continue
            p = {"driver": part["driver"], "kind": part["kind"], "jobs": len(res),
                 "incomplete_jobs": [r["job"] for r in res if not r.get("complete")]}
            if p["incomplete_jobs"]:
                cov["exhaustive"] = False
            if part["kind"] == "mc":
                st = sum(r.get("states", 0) for r in res)
                cov["states"] += st
                cov["transitions"] += sum(r.get("transitions", 0) for r in res)
                cov["traces_validated_against_impl"] += sum(r.get("execs", 0) for r in res)
                p["schedules_replayed_to_identical_state"] = sum(r.get("replayed", 0) for r in res)
                p["schedules_with_preemption"] = sum(r.get("preempt_execs", 0) for r in res)
                p["revisited_states_pruned"] = sum(r.get("pruned", 0) for r in res)
                p["configs"] = [{"config": r["job"], "bounds_preempt_spurious_stale_timer": r.get("bounds"),
                                 "threads": r.get("max_threads"), "completed_preempt_bound": r.get("completed_preempt_bound"),
                                 "distinct_outcomes": r.get("outcomes"), "complete": r.get("complete")} for r in res]
                big = sorted((r for r in res if r.get("sample")), key=lambda r: -r.get("execs", 0))[:3]
                cov["samples"] += ["%s: schedule %s" % (r["job"], r["sample"]) for r in big]
            else:
                cov["states"] += sum(r.get("states", 0) for r in res)
                cov["traces_validated_against_impl"] += sum(r.get("cases", 0) for r in res)
                if part.get("single_call"):
                    # one call of the code under test per case: its transitions are the result values it produced
                    p["transition_unit"] = "result value compared with the oracle"
                    cov["transitions"] += sum(r.get("comparisons", 0) for r in res)
                else:
                    p["transition_unit"] = "operation of the code under test"
                    cov["transitions"] += sum(r.get("transitions", 0) for r in res)
                    p["values_compared_with_oracle"] = sum(r.get("comparisons", 0) for r in res)
                cnt = {}
                for r in res:
                    for k, n in r.get("counters", {}).items():
                        cnt[k] = cnt.get(k, 0) + n
                    for k, m in r.get("known", {}).items():
                        known_seen[k] = m
                p["counters"] = cnt
                for r in res:
                    if len(cov["samples"]) < 12:
                        cov["samples"] += ["%s: %s" % (r["job"], s) for s in r.get("samples", [])[-2:]]
            p["wall_s"] = round(time.time() - pt, 2)
            cov["parts"].append(p)
    except Violation as v:
        violations = 1
        rc = 1
        msg = v.text
        print(v.text)
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
    except (CheckError, vbuild.BuildError) as e:
        print("CHECK-ERROR %s: %s" % (pid, e), file=sys.stderr)
        rc = 2
    for k in sorted(known_seen):
        print("KNOWN-FINDING: property=%s key=%s %s" % (pid, k, known_seen[k]))
    if violations:
        cov["exhaustive"] = False
        cov["violation"] = msg
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": chk["level"], "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": violations, "assumptions": chk.get("assumptions", [])}
    tmp = os.path.join(EVID, "%s.json.tmp%d" % (pid, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(EVID, "%s.json" % pid))
    if rc == 0:
        print("%s %s: held; %d states, %d transitions, %d traces, exhaustive=%s, %.1fs" %
              (pid, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
               cov["exhaustive"], time.time() - t0))
    sys.exit(rc)


if __name__ == "__main__":
    main()
