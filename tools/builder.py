"""Content-keyed incremental builder: compiles /repo/src (current working tree) and the harness
into /verif/build/<config>/.  Nothing here depends on file times: an object is reused only if the
content hash of its source, of every header it included, and of its command line are unchanged."""
import hashlib, os, subprocess, sys, json, shlex, threading, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
MPI_INC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
BASE = ["-std=gnu++11", "-w", "-DNDEBUG", "-DOMPI_SKIP_MPICXX", "-fno-strict-aliasing", "-fno-diagnostics-color"] + MPI_INC
PORT = ["-DUSE_V4_PORTABLE", "-DUSE_V8_PORTABLE"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,alignment,vptr,float-divide-by-zero,float-cast-overflow,shift,bounds,enum,bool",
       "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-g1"]
CONFIGS = {
  "ref":         dict(c=["-O2", "-DVPIC_USE_PTHREADS"], l=[]),
  "v4sse":       dict(c=["-O2", "-DVPIC_USE_PTHREADS", "-DUSE_V4_SSE", "-DVPIC_USE_LEGACY_SORT"], l=[]),
  "v8avx2":      dict(c=["-O2", "-DVPIC_USE_PTHREADS", "-DUSE_V4_AVX2", "-DUSE_V8_AVX2", "-mavx2", "-mfma"], l=[]),
  "v8omp":       dict(c=["-O2", "-DVPIC_USE_OPENMP", "-fopenmp"] + PORT, l=["-fopenmp"]),
  "v16portable": dict(c=["-O2", "-DVPIC_USE_PTHREADS", "-DUSE_V16_PORTABLE"] + PORT, l=[]),
  "v16avx512":   dict(c=["-O2", "-DVPIC_USE_PTHREADS", "-DUSE_V4_AVX2", "-DUSE_V8_AVX2", "-DUSE_V16_AVX512", "-mavx2", "-mfma", "-mavx512f", "-mavx512dq"], l=[]),
  "asan":        dict(c=["-O1", "-DVPIC_USE_PTHREADS"] + SAN, l=SAN),
  "asanv16":     dict(c=["-O1", "-DVPIC_USE_PTHREADS", "-DUSE_V16_PORTABLE"] + PORT + SAN, l=SAN),
  "tsan":        dict(c=["-O1", "-DVPIC_USE_PTHREADS", "-fsanitize=thread", "-g1"], l=["-fsanitize=thread"]),
}
# the vector class headers, one build per variant; only the harness is compiled with these flags
SIMD = {"v4_portable": (4, ["USE_V4_PORTABLE"], []), "v4_sse": (4, ["USE_V4_SSE"], []), "v4_avx": (4, ["USE_V4_AVX"], ["-mavx"]), "v4_avx2": (4, ["USE_V4_AVX2"], ["-mavx2", "-mfma"]),
        "v8_portable": (8, ["USE_V8_PORTABLE"], []), "v8_avx": (8, ["USE_V8_AVX"], ["-mavx"]), "v8_avx2": (8, ["USE_V8_AVX2"], ["-mavx2", "-mfma"]),
        "v16_portable": (16, ["USE_V16_PORTABLE"], []), "v16_avx512": (16, ["USE_V16_AVX512", "NEED_AVX512"], ["-mavx2", "-mfma", "-mavx512f", "-mavx512dq"])}
for _k, _v in SIMD.items():
    CONFIGS["simd_" + _k] = dict(c=["-O2", "-DVPIC_USE_PTHREADS"], l=[], lib="ref", h=["-std=gnu++14", "-fwrapv", "-ffp-contract=off", "-DVW=%d" % _v[0]] + ["-D" + d for d in _v[1]] + _v[2])
LINK = ["-rdynamic", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi", "-lpthread", "-ldl", "-lm", "-Wl,--wrap=log_printf"]

def sha(b): return hashlib.sha256(b).hexdigest()
_cache, _lock = {}, threading.Lock()
def fhash(p):
    with _lock:
        if p in _cache: return _cache[p]
    try:
        with open(p, "rb") as f: h = sha(f.read())
    except OSError: h = None
    with _lock: _cache[p] = h
    return h

def repo_sources():
    out = []
    for d, dn, fn in os.walk(os.path.join(REPO, "src")):
        dn[:] = sorted(x for x in dn if x != "test")
        for f in sorted(fn):
            if f.endswith(".cc") or f.endswith(".c"): out.append(os.path.join(d, f))
    return out

def parse_dep(path):
    with open(path) as f: t = f.read()
    t = t.replace("\\\n", " ").split(":", 1)[1]
    return [os.path.abspath(x) for x in t.split()]

class BuildError(Exception): pass

def compile_one(src, obj, flags):
    cmd = ["g++"] + flags + ["-c", src, "-o", obj]
    key = sha(" ".join(cmd).encode())
    kf = obj + ".key"
    if os.path.exists(obj) and os.path.exists(kf):
        try:
            with open(kf) as f: k = json.load(f)
            if k["cmd"] == key and all(fhash(p) == h for p, h in k["deps"].items()): return False
        except Exception: pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    if os.path.exists(kf): os.unlink(kf)
    tmp = obj + ".tmp.o"
    r = subprocess.run(["g++"] + flags + ["-MD", "-MF", dep, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError("compile failed: %s\n%s" % (src, r.stdout[-4000:]))
    os.replace(tmp, obj)
    deps = {p: fhash(p) for p in parse_dep(dep) if not p.startswith("/usr/")}
    with open(kf, "w") as f: json.dump({"cmd": key, "deps": deps}, f)
    os.unlink(dep)
    return True

def link(objs, exe, ldflags, changed):
    key = sha((" ".join(objs) + " ".join(ldflags)).encode())
    kf = exe + ".key"
    hs = sha("".join(fhash_file_now(o) for o in objs).encode()) + key
    if os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == hs: return False
    r = subprocess.run(["g++"] + objs + ["-o", exe + ".tmp"] + ldflags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError("link failed: %s\n%s" % (exe, r.stdout[-4000:]))
    os.replace(exe + ".tmp", exe)
    with open(kf, "w") as f: f.write(hs)
    return True

def fhash_file_now(p):
    with open(p, "rb") as f: return sha(f.read())

def build(targets, jobs=None, extra_flags=None, quiet=True):
    """targets: {config: set of harness names}. Harness name 'x' -> harness/x.cc (linked with pbt_main.cc, simhooks.cc)."""
    jobs = jobs or os.cpu_count() or 4
    os.makedirs(BUILD, exist_ok=True)
    lockf = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        _cache.clear()
        work, plan = [], []
        H = os.path.join(VERIF, "harness")
        for cfg, names in targets.items():
            c = CONFIGS[cfg]
            base = os.path.join(BUILD, cfg); lb = os.path.join(BUILD, c.get("lib", cfg))
            lib = []
            for s in repo_sources():
                o = os.path.join(lb, "lib", os.path.relpath(s, REPO).replace("/", "__") + ".o")
                work.append((s, o, BASE + c["c"])); lib.append(o)
            hf = [f for f in BASE + c["c"]] + ["-I" + os.path.join(REPO, "src"), "-I" + REPO, "-I" + H]
            hf = ["-O1" if f == "-O2" else f for f in hf] + ["-fno-aggressive-loop-optimizations"]
            com = []
            for n in ["pbt_main", "simhooks"]:
                o = os.path.join(lb, "h", n + ".o"); work.append((os.path.join(H, n + ".cc"), o, hf)); com.append(o)
            for n in sorted(names):
                o = os.path.join(base, "h", n + ".o"); work.append((os.path.join(H, n + ".cc"), o, hf + c.get("h", [])))
                plan.append(([o] + com + lib, os.path.join(base, n), c["l"] + LINK))
        work = list({w[1]: w for w in work}.values())
        # biggest first is not known; harness files last are the slowest, so start them first
        work.sort(key=lambda w: 0 if "/h/" in w[1] else 1)
        with ThreadPoolExecutor(jobs) as ex:
            fs = [ex.submit(compile_one, *w) for w in work]
            err = None; n = 0
            for f in fs:
                try: n += bool(f.result())
                except BuildError as e: err = err or e
            if err: raise err
            fs = [ex.submit(link, o, e, l, True) for o, e, l in plan]
            for f in fs:
                try: f.result()
                except BuildError as e: err = err or e
            if err: raise err
        return n
    finally:
        fcntl.flock(lockf, fcntl.LOCK_UN); lockf.close()

def exe(cfg, name): return os.path.join(BUILD, cfg, name)

if __name__ == "__main__":
    t = {}
    for a in sys.argv[1:]:
        c, n = a.split(":"); t.setdefault(c, set()).update(n.split(","))
    print("compiled", build(t))
