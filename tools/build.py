#!/usr/bin/env python3
"""Builds the simulator for one group of workloads from /repo's current working tree.

Object files are cached under /verif/build by a hash of the preprocessed dependencies' contents (the list of files the
compiler itself reported plus the command line), so nothing stale is ever linked."""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QTT_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
TORCH = REPO + "/extern/pytorch/torch"
if not os.path.isdir(TORCH): TORCH = "/opt/vp/torch-site/torch"
INC = [f"-I{REPO}/extern/boost", f"-I{REPO}/extern/doctest", f"-I{REPO}/include",
       "-isystem", f"{TORCH}/include", "-isystem", f"{TORCH}/include/torch/csrc/api/include"]
COMMON = ["-DFMT_HEADER_ONLY=1", "-DFMT_DEPRECATED_OSTREAM", "-D_GLIBCXX_USE_CXX11_ABI=0", "-DDOCTEST_CONFIG_DISABLE",
          "-DQUANTIT_SIM=1", "-std=gnu++17", "-w", "-fno-omit-frame-pointer"]
COV = ["-fsanitize-coverage=trace-pc"]
GROUPS = {
    "bt": dict(lib=True, torch=True, wl=["w_bt.cpp"], props=["C01", "C02", "C03", "C04"], only=["btensor.cpp", "any_quantity.cpp", "groups.cpp", "tensorgdot.cpp", "torch_formatter.cpp", "dimension_manip.cpp"]),
    "linalg": dict(lib=True, torch=True, wl=["w_linalg.cpp"], props=["C12"], only=["btensor.cpp", "any_quantity.cpp", "groups.cpp", "tensorgdot.cpp", "torch_formatter.cpp", "dimension_manip.cpp", "LinearAlgebra.cpp", "btensor_linalg.cpp"]),
    "mps": dict(lib=True, torch=True, wl=["w_mps.cpp"], props=["C07"]),
    "dmrg": dict(lib=True, torch=True, wl=["w_dmrg.cpp"], props=["C08", "C09", "C10", "C15"]),
    "rand": dict(lib=True, torch=True, wl=["w_rand.cpp"], props=["C13"]),
    "ambient": dict(lib=True, torch=True, wl=["w_ambient.cpp", "w_bt.cpp", "w_linalg.cpp", "w_mps.cpp", "w_dmrg.cpp", "w_rand.cpp", "w_models.cpp"], props=["C14"]),
    "conc": dict(lib=True, torch=True, wl=["w_conc.cpp", "w_bt.cpp", "w_linalg.cpp", "w_mps.cpp", "w_models.cpp"], props=["C11"]),
    "models": dict(lib=True, torch=True, wl=["w_models.cpp"], props=["C16"]),
    "fmt": dict(lib=True, torch=True, wl=["w_fmt.cpp"], props=["C18"], wlcov=True, only=["btensor.cpp", "any_quantity.cpp", "groups.cpp", "tensorgdot.cpp", "torch_formatter.cpp", "dimension_manip.cpp", "LinearAlgebra.cpp", "btensor_linalg.cpp", "MPT.cpp"]),
    "flat": dict(lib=False, torch=False, wl=["w_flat.cpp"], props=["C05"]),
    "qvec": dict(lib=True, torch=False, wl=["w_qvec.cpp"], props=["C06"], only=["any_quantity.cpp", "groups.cpp"], wlcov=True),
}
def group_of(prop):
    for g, d in GROUPS.items():
        if prop in d["props"]: return g
    raise SystemExit("no workload for " + prop)
def lib_sources():
    txt = open(REPO + "/sources/CMakeLists.txt").read()
    m = re.search(r"SOURCE_LIST\s+(.*?)\)", txt, re.S | re.I)
    names = re.findall(r"[\w./]+\.cpp", m.group(1)) if m else []
    return [os.path.join(REPO, "sources", os.path.basename(n)) for n in names]
def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()
_fh = {}
def fhash(f):
    if f not in _fh:
        try: _fh[f] = hashlib.sha256(open(f, "rb").read()).hexdigest()
        except OSError: _fh[f] = "absent"
    return _fh[f]
def compile_one(src, flags):
    os.makedirs(OUT + "/o", exist_ok=True)
    cmd = ["g++", *flags, "-c", src]
    base = os.path.join(OUT, "o", os.path.basename(src) + "." + sha(src, *cmd)[:12])
    obj, dep, key = base + ".o", base + ".d", base + ".key"
    def cur():
        try: t = open(dep).read()
        except OSError: return None
        files = t.replace("\\\n", " ").split(":", 1)[1].split()
        return sha(*[f + fhash(f) for f in sorted(set(files)) if not f.startswith(("/usr/", "/opt/")) and "/pytorch/" not in f])
    if os.path.exists(obj) and os.path.exists(key) and open(key).read() == cur(): return obj
    p = subprocess.run(cmd + ["-MMD", "-MF", dep, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        errs = [l[:400] for l in p.stdout.splitlines() if re.search(r"error|undefined|fatal", l)][:12]
        raise SystemExit("BUILD-FAILED compiling %s\n%s" % (src, "\n".join(errs)))
    k = cur()
    open(key, "w").write(k or "?")
    return obj
def build(group, full=False):
    g = GROUPS[group]
    S = os.path.join(HERE, "sim")
    inc = [*INC, "-I" + S]
    jobs = []
    opt = ["-O1"]
    if g["lib"]:
        srcs = None if full else g.get("only")  # the part of the library the workloads need; all of it if that does not link
        if srcs and not all(os.path.exists(os.path.join(REPO, "sources", x)) for x in srcs): srcs = None
        libs = [os.path.join(REPO, "sources", s) for s in srcs] if srcs else lib_sources()
        for s in libs: jobs.append((s, [*COMMON, *opt, *COV, *inc]))
    for w in g["wl"]: jobs.append((os.path.join(S, w), [*COMMON, "-O1", *(COV if g.get("wlcov", not g["lib"]) else []), *inc]))
    if g["torch"]: jobs.append((os.path.join(S, "torchseam.cpp"), [*COMMON, "-O1", *inc]))
    jobs.append((os.path.join(S, "core.cpp"), [*COMMON, "-O1", *inc]))
    jobs.append((os.path.join(S, "main.cpp"), [*COMMON, "-O1", *inc]))
    # the slowest first
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(int(os.environ.get("SIM_JOBS", "8"))) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), order))
    exe = os.path.join(OUT, "sim_" + group)
    link = ["g++", *objs, "-o", exe, "-pthread", "-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_wrlock,--wrap=__cxa_guard_acquire",
            "-Wl,--export-dynamic", "-Wl,--version-script=" + os.path.join(S, "exports.map")]
    if g["torch"] or full:
        link += [f"-L{TORCH}/lib", "-Wl,--no-as-needed", "-ltorch", "-ltorch_cpu", "-lc10", f"-Wl,-rpath,{TORCH}/lib"]
    p = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode and g.get("only") and not full: return build(group, True)
    if p.returncode:
        raise SystemExit("BUILD-FAILED linking\n" + "\n".join(l[:300] for l in p.stdout.splitlines() if "undefined" in l or "error" in l)[:3000])
    return exe
if __name__ == "__main__":
    print(build(sys.argv[1]))
