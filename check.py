#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - decide one property by deterministic simulation.

Builds the simulator from /repo's working tree, runs seeded simulated histories on all cores, and
reports.  Exit 0: held on everything explored.  Exit 1: VIOLATION line with a minimised replay file.
Anything else: the machinery itself failed (nothing is claimed)."""
import collections, json, os, subprocess, sys, tempfile, time, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
from budgets import BUDGET, DEFAULT, RULE, ASSUME
B = os.environ.get("MXBUILD", os.path.join(V, "build"))
SIM = os.path.join(B, "mxsim")
NW = int(os.environ.get("MXWORKERS", "8"))

def err(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(3)

def replay(path, tmo=120):
    p = subprocess.run([SIM, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo)
    out = p.stdout.decode("utf-8", "replace").splitlines()
    cls = next((l[9:] for l in out if l.startswith("VIOLATED ")), None)
    trace = next((l[6:] for l in out if l.startswith("trace ")), None)
    msg = "\n".join(out[2:]) if cls else ""
    return p.returncode, cls, trace, msg

def known(prop):
    r = []
    f = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known": r.append(d)
    return r

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed0 = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    b = subprocess.run(["bash", os.path.join(V, "tools", "build.sh"), B], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if b.returncode or not os.path.exists(SIM):
        print(b.stdout.decode("utf-8", "replace")[-2000:]); err("build failed")
    runs, cap = BUDGET.get(prop, DEFAULT)[0 if tier == "quick" else 1]
    if os.environ.get("MXRUNS"): runs = int(os.environ["MXRUNS"])
    kn = known(prop); kcls = [c for d in kn for c in d["classes"]]
    work = tempfile.mkdtemp(prefix="mxsim.")
    base = seed0 * 1000003
    st = dict(procs=0, runs=0, steps=0, switches=0, simtime=0.0, distinct=0, rechecks=0, secs=0.0)
    cnt = {k: collections.Counter() for k in ("faults", "calls", "probes", "known")}
    found = None; notes = []
    per = max(1, (runs + NW - 1) // NW)
    ws = {}
    for w in range(NW):
        out = os.path.join(work, "w%d" % w)
        ws[w] = (subprocess.Popen([SIM, "run", prop, str(base + w), str(NW), str(cap), str(per), "0" if tier == "quick" else "1", out] + kcls,
                                  stdout=subprocess.DEVNULL, stderr=open(out + ".log", "wb")), out)
    try:
        deadline = time.time() + cap + 120
        while ws:
            time.sleep(0.05)
            if time.time() > deadline: err("workers did not finish")
            for w in list(ws):
                p, out = ws[w]
                rc = p.poll()
                if rc is None: continue
                del ws[w]
                if rc in (0, 1, 4) and os.path.exists(out):
                    d = json.load(open(out))
                    st["runs"] += d["runs"]; st["procs"] += d["procs"]; st["steps"] += d["steps"]; st["switches"] += d["switches"]
                    st["simtime"] += d["simtime_s"]; st["distinct"] += d["distinct"]; st["rechecks"] += d["determinism_rechecks"]; st["secs"] += d["seconds"]
                    for k in cnt: cnt[k].update(d[k])
                if rc == 0: continue
                if rc in (1, 4):
                    plan = out + ".plan"
                    if rc == 4: notes.append("worker %d: two executions of one plan differed" % w)
                else:  # the simulator itself died: memory of the harness was damaged by the code under test?
                    seed = open(out + ".cur").read().strip() if os.path.exists(out + ".cur") else ""
                    if not seed: err("worker died with %s: %s" % (rc, open(out + ".log").read()[-300:]))
                    plan = out + ".plan"
                    txt = subprocess.run([SIM, "plan", prop, seed, "0" if tier == "quick" else "1"], stdout=subprocess.PIPE).stdout
                    open(plan, "wb").write(txt)
                if found is None: found = (plan, rc)
                for q, _ in ws.values(): q.terminate()
                for q, _ in ws.values(): q.wait()
                ws.clear(); break
    finally:
        for q, _ in ws.values(): q.kill()
    viol = 0
    if found:
        plan, rc = found
        a, b2 = replay(plan), replay(plan)
        rdir = os.path.join(V, "replay"); os.makedirs(rdir, exist_ok=True)
        seed = next(l.split()[1] for l in open(plan) if l.startswith("seed "))
        dst = os.path.join(rdir, "%s-%s.plan" % (prop, seed))
        if a[0] == 1 and a[:3] == b2[:3]:
            mn = plan + ".min"
            try:
                subprocess.run([SIM, "min", plan, mn, "40" if tier == "quick" else "120"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
                c, d = replay(mn), replay(mn)
                if not (c[0] == 1 and c[:3] == d[:3] and c[1] == a[1]): raise ValueError
            except Exception:
                mn, c = plan, a
            shutil.copy(mn, dst); viol = 1
            print("violated: %s" % c[1]); print(c[3][:3000])
        elif a[0] not in (0, 1, 3) and b2[0] == a[0]:
            shutil.copy(plan, dst); viol = 1
            print("violated: the simulated process damages memory outside its own heap; the simulator is killed by signal %d, reproducibly" % -a[0])
        else:
            shutil.copy(plan, dst)
            err("a reported violation did not reproduce identically: %s vs %s (%s)" % (a[:3], b2[:3], notes))
    samples = []
    for s in (base, base + 1):
        t = subprocess.run([SIM, "plan", prop, str(s), "0" if tier == "quick" else "1"], stdout=subprocess.PIPE).stdout.decode()
        samples.append(t[:1500])
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed0, level="exploration", wall_s=round(wall, 2), violations=viol,
              assumptions=ASSUME,
              coverage=dict(evaluations=st["runs"], distinct_nontrivial=st["distinct"],
                            rule=RULE.get(prop, "") + " One evaluation is one simulated run (a whole history); two runs count as distinct if the hash of their complete event trace (every simulated system call with its argument, outcome, fault, exit status and output) differs.",
                            samples=samples,
                            seeds=dict(first=base, stride=1, count=st["runs"]),
                            runs_per_hour=int(st["runs"] * 3600 / max(wall, .1)),
                            simulated_processes=st["procs"], simulated_system_calls=st["steps"], context_switches=st["switches"],
                            simulated_process_seconds=round(st["simtime"], 3), determinism_rechecks=st["rechecks"],
                            faults_injected=dict(cnt["faults"]), probes=dict(cnt["probes"]), calls=dict(cnt["calls"]),
                            known_findings=dict(cnt["known"]),
                            real_components="all of mairix's own C sources (unchanged, from /repo), glibc stdio and string functions, zlib, bzip2, liblzma",
                            stubbed_components="kernel (file system, mmap, processes, signals, clock, pid, host name), allocator, IMAP server, OpenSSL initialisation",
                            notes=notes))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for d in kn: print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, dst)); sys.exit(1)
    if st["runs"] < min(runs, 20): err("only %d runs were made" % st["runs"])
    print("%s %s: held on %d simulated runs (%d processes, %d system calls, %d faults) in %.0f s" % (prop, tier, st["runs"], st["procs"], st["steps"], sum(cnt["faults"].values()), wall))

main()
