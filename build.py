#!/usr/bin/env python3
"""Builds the simulator binaries (2D/3D x quadratic/cubic splines) from /repo's current working tree."""
import hashlib, os, subprocess, sys, glob, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("MATTER_REPO", "/repo"); DST = HERE + "/dst"
VARIANTS = {"2q": (2, 2), "2c": (2, 3), "3q": (3, 2), "3c": (3, 3)}
BUILD = os.environ.get("MATTER_DST_BUILD", HERE + "/build")

def eigen():
    for p in ("/usr/include/eigen3", "/usr/local/include/eigen3", REPO + "/deps/eigen", "/opt/vp/deps/eigen3"):
        if os.path.isdir(p + "/Eigen"): return p
    return "/usr/include/eigen3"

def flags(v):
    d, g = VARIANTS[v]
    return (["-DTHREEDIM"] if d == 3 else []) + ["-DMATTER_DST", "-DMATTER_DST_SPLINEDEG=%d" % g, '-DSRC_DIR="%s/src"' % REPO, '-DINCLUDE_DIR="%s/deps"' % REPO,
        "-I" + eigen(), "-I" + REPO + "/src", "-I" + DST, "-I" + DST + "/shim/x/y"]
SUT = ["-std=c++17", "-O2", "-g1", "-fopenmp", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-D_GLIBCXX_ASSERTIONS", "-fno-pie", "-w"]
HAR = ["-std=c++20", "-O1", "-g1", "-fno-pie", "-w"]
WRAP = "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock"

def _h(*parts):
    h = hashlib.sha256()
    for x in parts: h.update(x if isinstance(x, bytes) else x.encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def headers():
    h = hashlib.sha256()
    for root in (REPO + "/src", DST):
        for p in sorted(glob.glob(root + "/**/*", recursive=True)):
            if os.path.isfile(p) and not p.endswith(".cpp"): h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def build(variants=None, quiet=True):
    """Returns {variant: binary}. Objects and binaries are content-addressed on every header, source and flag, so a stale one is never used."""
    variants = list(variants or VARIANTS); hd = headers(); ob = os.path.join(BUILD, "obj"); os.makedirs(ob, exist_ok=True); jobs = {}; need = {}
    sut = sorted(p for p in glob.glob(REPO + "/src/**/*.cpp", recursive=True) if os.path.basename(p) != "mpm.cpp") + [DST + "/sut_objects.cpp"]
    def add(f, v, fl):
        o = "%s/%s_%s_%s.o" % (ob, v or "all", os.path.basename(f)[:-4], _h(hd, f, open(f, "rb").read(), " ".join(fl), open(os.path.abspath(__file__), "rb").read())); jobs[o] = (f, fl); return o
    common = [add(DST + "/%s.cpp" % f, None, HAR + x + ["-I" + DST]) for f, x in (("rt", ["-O2"]), ("os", ["-O2"]), ("gen", []))]
    for v in variants:
        need[v] = [add(f, v, SUT + flags(v)) for f in sut] + [add(DST + "/%s.cpp" % f, v, HAR + flags(v)) for f in ("run", "model", "engine", "world", "plast")] + common
    key = _h(*sorted(sum(need.values(), []))); out = os.path.join(BUILD, key); bins = {v: os.path.join(out, "sim_" + v) for v in variants}
    if all(os.path.exists(b) for b in bins.values()): return bins
    os.makedirs(out, exist_ok=True)
    if not os.environ.get("MATTER_DST_KEEP"):
        for old in glob.glob(BUILD + "/*"):
            b = os.path.basename(old)
            if b.startswith("work-") and time.time() - os.path.getmtime(old) < 7200: continue # another check may be running
            if b not in (key, "obj") and os.path.isdir(old): subprocess.call(["rm", "-rf", old])
        for o in glob.glob(ob + "/*.o"):
            if o not in jobs: os.unlink(o)
    cost = lambda o: -{"run.cpp": 9, "plasticity.cpp": 10, "model.cpp": 8, "world.cpp": 6, "plast.cpp": 6, "engine.cpp": 5}.get(os.path.basename(jobs[o][0]), 3)
    todo = sorted((o for o in jobs if not os.path.exists(o)), key=cost)
    def one(o):
        f, fl = jobs[o]; t = o + ".%d.tmp" % os.getpid(); r = subprocess.run(["g++"] + fl + ["-c", f, "-o", t], capture_output=True, text=True)
        if r.returncode == 0: os.rename(t, o)
        return (f, r.returncode, r.stderr)
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("JOBS", os.cpu_count() or 8))) as ex:
        for f, rc, err in ex.map(one, todo):
            if rc: raise RuntimeError("compilation of %s failed:\n%s" % (f, err[-4000:]))
    def link(v):
        t = bins[v] + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-no-pie", "-rdynamic", WRAP] + need[v] + ["-o", t, "-ldl", "-lpthread"], capture_output=True, text=True)
        if r.returncode: raise RuntimeError("linking failed:\n" + r.stderr[-4000:])
        os.rename(t, bins[v])
    with cf.ThreadPoolExecutor(max_workers=4) as ex: list(ex.map(link, [v for v in variants if not os.path.exists(bins[v])]))
    return bins

if __name__ == "__main__":
    import time; t = time.time(); b = build(sys.argv[1:] or None); print(b, "%.1fs" % (time.time() - t))
