#!/usr/bin/env python3
"""Development helper: library function mk(id, prop, edits, needs, breaks, demo_cpp) writes /verif/seeded/<id>."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# exit 0: the property held; anything else: it did not. Run with cwd = the repository, after its build.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
T=$repo/extern/pytorch/torch
[ -d "$T" ] || T=/opt/vp/torch-site/torch
g++ -std=gnu++17 -O0 -w -D_GLIBCXX_USE_CXX11_ABI=0 -DFMT_HEADER_ONLY=1 -DFMT_DEPRECATED_OSTREAM -DDOCTEST_CONFIG_IMPLEMENT \
	-I"$repo/extern/boost" -I"$repo/extern/doctest" -I"$repo/include" -isystem "$T/include" -isystem "$T/include/torch/csrc/api/include" \
	"$here/demo.cpp" -o "$tmp/demo" -L"$repo/_build/sources" -lQuantiT -L"$T/lib" -Wl,--no-as-needed -ltorch -ltorch_cpu -lc10 \
	-Wl,-rpath,"$repo/_build/sources" -Wl,-rpath,"$T/lib" -pthread || exit 4
cd "$tmp" && timeout 120 ./demo
'''
def mk(id, prop, edits, needs, breaks, demo, wt="/tmp/wt"):
    sh = lambda c: subprocess.run(c, shell=True, check=True, text=True, stdout=subprocess.PIPE).stdout
    head = sh("git -C /repo rev-parse HEAD").strip()
    sh(f"git -C {wt} fetch -q /repo HEAD; git -C {wt} checkout -q -f {head}")
    for f, old, new in edits:
        p = os.path.join(wt, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(HERE, "seeded", id); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh(f"git -C {wt} diff"))
    sh(f"git -C {wt} checkout -q -f {head}")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    open(d + "/demo.cpp", "w").write(demo)
