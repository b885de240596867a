#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]   - the check of one property
   run.py --replay FILE [-v]          - re-executes one replay file against /repo's current tree
Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Anything else: the check itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as B
WORKERS = int(os.environ.get("SIM_JOBS", "8"))
FAULTS = {"fault.allocation": "memory allocation (operator new) made by library code fails",
          "fault.tensor": "storage allocation of a dense tensor fails",
          "fault.kernel": "a dense kernel (libtorch operation) throws",
          "fault.callback": "a user supplied callback throws",
          "fault.entropy": "the entropy source fails",
          "fault.stream": "the output stream or standard output fails after some bytes"}
def sh(*cmd, timeout=600):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
def known():
    out = []
    f = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"): out.append(json.loads(l))
    return out
def slug(s): return re.sub(r"[^A-Za-z0-9]+", "-", s).strip("-")[:80]
def run_plan(exe, path):
    p = sh(exe, "run", path)
    m = re.search(r"^hash (\w+)$", p.stdout, re.M)
    v = re.search(r"^violated (.*)\n(.*)", p.stdout, re.M)
    return p.returncode, (m.group(1) if m else None), (v.group(1) if v else None), (v.group(2) if v else p.stdout[-300:])
def replay(path, verbose):
    prop = re.search(r"^prop (\w+)", open(path).read(), re.M).group(1)
    exe = B.build(B.group_of(prop))
    r = subprocess.run([exe, "run", path] + (["-v"] if verbose else []))
    return r.returncode
def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    exe = B.build(B.group_of(prop))
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="sim_" + prop + "_")
    thorough = tier == "thorough"
    cap = 10800 if thorough else int(os.environ.get("SIM_CAP", "420"))
    runs = os.environ.get("SIM_RUNS", "0")
    p = sh(exe, "batch", prop, str(seed), runs, str(WORKERS), str(cap), str(int(thorough)), tmp, timeout=cap + 900)
    if p.returncode or not os.path.exists(tmp + "/batch.json"):
        print("check error: the batch ended with", p.returncode, p.stdout[-2000:]); return 2
    b = json.load(open(tmp + "/batch.json"))
    # the same small set of seeds again, with another number of workers: the histories must be identical
    det = []
    for w in (1, 3):
        os.makedirs(tmp + "/d%d" % w)
        sh(exe, "batch", prop, str(seed + 7777), str(min(b["wanted"], 48)), str(w), "200", "0", tmp + "/d%d" % w)
        det.append(json.load(open(tmp + "/d%d/batch.json" % w))["acc"])
    deterministic = det[0] == det[1]
    rep_dir = os.path.join(HERE, "replays"); os.makedirs(rep_dir, exist_ok=True)
    kn = [k for k in known() if k["property"] == prop]
    reported, trouble, knownhit, seen = [], [], [], {}
    for line in b["found"]:
        head, cls, msg = line.split("\t", 2)
        foreign, s = head.split(" ")
        if foreign == "1" or cls.startswith("harness:"): continue
        if seen.get(cls, 0) >= 1: continue
        if any(re.search(k["match"], cls + " " + msg) for k in kn): continue
        if len(reported) >= 4: break
        plan = os.path.join(rep_dir, "%s-%s.plan" % (slug(cls), s))
        open(plan, "w").write(sh(exe, "gen", prop, s, str(int(thorough))).stdout)
        a, c = run_plan(exe, plan), run_plan(exe, plan)
        if not (a[2] == cls and a[1:3] == c[1:3]):
            trouble.append("seed %s: %s did not reproduce (%s / %s)" % (s, cls, a[1:], c[1:])); continue
        small = plan[:-5] + ".min.plan"
        m = sh(exe, "min", plan, small, "60" if thorough else "25")
        if m.returncode == 0 and os.path.exists(small):
            x, y = run_plan(exe, small), run_plan(exe, small)
            if x[2] == cls and x[1:3] == y[1:3]: plan, a = small, x
        with open(plan, "a") as f: f.write("# violated: %s\n# %s\n# replay: python3 run.py --replay %s -v\n" % (cls, a[3], plan))
        seen[cls] = seen.get(cls, 0) + 1
        reported.append(dict(cls=cls, msg=a[3], seed=s, replay=plan))
    for k in kn:
        if k.get("plan"):
            a = run_plan(exe, os.path.join(HERE, k["plan"]))
            hit = a[2] is not None and re.search(k["match"], a[2] + " " + a[3]) is not None
            knownhit.append(dict(id=k["id"], still_present=hit))
            if hit: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            elif a[2] is not None:
                reported.append(dict(cls=a[2], msg=a[3], seed="known", replay=os.path.join(HERE, k["plan"])))
    for r in reported:
        print("  %s: %s (seed %s)" % (r["cls"], r["msg"], r["seed"]))
        print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))
    fired = {FAULTS[k]: v for k, v in b["counts"].items() if k in FAULTS}
    samples = []
    for i in range(2):
        s = sh(exe, "gen", prop, str(1000 + i), str(int(thorough))).stdout
        samples.append(s[:1500])
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2),
        coverage=dict(
            evaluations=b["runs"], distinct_nontrivial=b["distinct_nontrivial"], rule=b["rule"], samples=samples,
            runs_wanted=b["wanted"], distinct_histories=b["distinct"],
            seeds_per_hour=int(b["runs"] / max(b["wall"], 1e-6) * 3600), simulation_wall_s=round(b["wall"], 2), build_wall_s=round(t_build, 2),
            simulated_seconds=b["sim_seconds"], faults_injected=fired,
            probes={k: v for k, v in b["counts"].items() if k not in FAULTS},
            library_code_locations_reached=b["cov"], slowest_run_s=b["slowest"],
            runs_cut_short_by_another_property=b["foreign"], runs_without_answer=b["trouble"],
            determinism=dict(seeds_repeated=min(b["wanted"], 48), worker_counts=[1, 3], identical=deterministic),
            real_components=b["real"], stubs=b["stubs"], known_findings=knownhit,
            not_reproduced=trouble),
        assumptions=["libtorch kernels compute what they document", "the simulator's own models are right (they agree with the library on every run of a clean check)"],
        violations=reported)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(tmp)
    print("%s %s: %d runs (%d distinct, %d of them non-trivial), %d violating, %d cut short by other properties, %d without answer, build %.0f s, simulation %.1f s, deterministic=%s" % (
        prop, tier, b["runs"], b["distinct"], b["distinct_nontrivial"], b["violations"], b["foreign"], b["trouble"], t_build, b["wall"], deterministic))
    for t in trouble: print("not reproduced:", t)
    if reported: return 1
    if trouble: return 2
    if b["trouble"] > b["runs"] // 20: return 2
    return 0
if __name__ == "__main__":
    if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2], "-v" in sys.argv))
    sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
