#!/usr/bin/env python3
"""Development tool: seedtest.py ID...  confirms a planted bug in a scratch copy (/tmp/wt, bind-mounted over /repo in a
private mount namespace) and runs the check of its property against it. Options: --nocheck, --notests, --check PROP"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", **k)
def ns(cmd, t=1500): return sh("unshare -m bash -c 'mount --bind %s /repo && cd /repo && %s'" % (WT, cmd), timeout=t)
def reset():
    if not os.path.isdir(WT): sh("cp -a /repo " + WT)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("git -C %s fetch -q /repo HEAD; git -C %s checkout -q -f %s; git -C %s clean -fdq" % (WT, WT, head, WT))
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    for i in ids:
        d = os.path.join(HERE, "seeded", i); meta = json.load(open(d + "/meta.json"))
        reset()
        out = {}
        demo = "/tmp/demo_" + i
        sh("rm -rf %s; cp -r %s %s" % (demo, d, demo))
        if "--notests" not in sys.argv:
            b = ns("bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; echo rc=$?")
            out["demo_clean"] = ns("timeout 300 bash %s/demo.sh" % demo).returncode
        a = sh("git -C %s apply %s/patch.diff" % (WT, d))
        if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout); continue
        if "--notests" not in sys.argv:
            b = ns("bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1")
            out["build"] = b.returncode
            if b.returncode: print(sh("grep -E \"error\" /tmp/seed_build.log | cut -c1-300 | head -5").stdout)
            ns("bash /opt/vp/test.sh /tmp/seed_t.json > /tmp/seed_test.log 2>&1")
            t = json.load(open("/tmp/seed_t.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            out["missing_tests"] = [x for x in base if x not in t["passed"]]
            r = ns("timeout 300 bash %s/demo.sh" % demo)
            out["demo_bug"] = r.returncode; out["demo_out"] = r.stdout[-200:]
        if "--nocheck" not in sys.argv:
            props = [sys.argv[sys.argv.index("--check") + 1]] if "--check" in sys.argv else [meta["property"]]
            props = [p for p in props]
            for p in props:
                t0 = time.time()
                r = ns("cd %s && SIM_BUILD=/tmp/wtb VERIF_SEED=1 python3 run.py %s quick" % (HERE, p), 2000)
                viol = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")]
                out["check_" + p] = (r.returncode, round(time.time() - t0), viol[:3], r.stdout.splitlines()[-1][:300] if r.stdout else "")
        reset()
        ok = out.get("demo_clean", 0) == 0 and out.get("demo_bug", 1) != 0 and not out.get("missing_tests")
        print(i, "VALID" if ok else "INVALID", json.dumps(out, indent=1))
main()
