#!/usr/bin/env python3
"""Runs one property check: builds what it needs from /repo's current tree, drives the harness over generated
cases in every configuration, confirms and shrinks any failure, writes evidence/<id>.json.
   runcheck.py C01                 tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED
   runcheck.py C01 --replay FILE   re-run a recorded minimal case"""
import sys, os, json, time, subprocess, tempfile, shutil, signal, struct, threading, hashlib, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import builder
VERIF = builder.VERIF
STALL = float(os.environ.get("VERIF_STALL", "150"))

ENV = dict(os.environ)
ENV.update({
  "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1",
  "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_mpi_yield_when_idle": "1",
  "OMPI_MCA_plm_rsh_agent": "/bin/true", "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_pml": "ob1", "OMPI_MCA_osc": "^ucx,rdma",
  "ASAN_OPTIONS": "detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
  "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99", "TSAN_OPTIONS": "exitcode=66:halt_on_error=1",
  "OMP_DYNAMIC": "false", "OMP_WAIT_POLICY": "passive",
})

class Run:
    def __init__(self, cfg="ref", ranks=1, tpp=1, cases=100, exe=None, opts=None, args=None, cost=None, tag="", seedkey=None):
        self.cfg, self.ranks, self.tpp, self.cases, self.exe = cfg, ranks, tpp, cases, exe
        self.opts, self.args, self.tag, self.seedkey = opts or {}, args or [], tag, seedkey
        self.cost = cost or max(1, min(8, ranks * min(tpp, 4)))
    def name(self): return "%s/r%d/t%d%s" % (self.cfg, self.ranks, self.tpp, ("/" + self.tag) if self.tag else "")
    def spec(self): return dict(cfg=self.cfg, ranks=self.ranks, tpp=self.tpp, exe=self.exe, opts=self.opts, args=self.args, tag=self.tag)

STATE_HDR = 32
def read_state(path):
    try:
        with open(path, "rb") as f:
            h = f.read(STATE_HDR)
            if len(h) < STATE_HDR: return None
            idx, n, done, _ = struct.unpack("qqqq", h)
            n = max(0, min(n, 1 << 17))
            ch = struct.unpack("%dQ" % n, f.read(8 * n)) if n else ()
            return idx, list(ch), done
    except Exception: return None
def read_idx(path):
    try:
        with open(path, "rb") as f: return struct.unpack("qqqq", f.read(STATE_HDR))[:3]
    except Exception: return None

_procs, _plock = set(), threading.Lock()
def kill_all():
    with _plock:
        for p in list(_procs):
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass

class Result: pass

def execute(run, scratch, seed=None, cases=None, start=0, replay=None, seconds=None, known=None, stall=STALL):
    """One harness process (or MPI job). kind: ok | fail | crash | hang"""
    d = tempfile.mkdtemp(prefix="run-", dir=scratch)
    out, st, log = os.path.join(d, "out.json"), os.path.join(d, "state"), os.path.join(d, "log")
    work = os.path.join(d, "w"); os.mkdir(work)
    cmd = [builder.exe(run.cfg, run.exe), "--tpp", str(run.tpp), "--pbt-out", out, "--pbt-state", st, "--pbt-scratch", work]
    if known:
        kf = os.path.join(d, "known"); open(kf, "w").write("\n".join(known) + "\n"); cmd += ["--pbt-known", kf]
    if replay is not None:
        rf = os.path.join(d, "replay")
        with open(rf, "w") as f:
            for c in replay: f.write(" ".join(map(str, c)) + "\n")
        cmd += ["--pbt-replay", rf]
    else:
        cmd += ["--pbt-seed", str(seed), "--pbt-cases", str(cases), "--pbt-start", str(start)]
    if seconds: cmd += ["--pbt-seconds", str(seconds)]
    for k, v in run.opts.items(): cmd += ["--pbt-opt", "%s=%s" % (k, v)]
    cmd += run.args
    env = dict(ENV); env["OMP_NUM_THREADS"] = str(run.tpp); env["TMPDIR"] = work
    if run.ranks > 1: cmd = ["mpirun", "-n", str(run.ranks), "--oversubscribe"] + cmd
    lf = open(log, "wb")
    p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=work, env=env, start_new_session=True)
    with _plock: _procs.add(p)
    last, tl, hang = None, time.monotonic(), False
    while True:
        try: p.wait(0.05 if time.monotonic() - tl < 2 else 0.3); break
        except subprocess.TimeoutExpired: pass
        s = read_idx(st); s = (s[0], s[2]) if s else None
        if s != last: last, tl = s, time.monotonic()
        elif time.monotonic() - tl > stall:
            hang = True
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass
            p.wait(); break
    with _plock: _procs.discard(p)
    try: os.killpg(p.pid, signal.SIGKILL)
    except Exception: pass
    lf.close()
    r = Result(); r.run = run; r.data = None; r.rc = p.returncode
    try:
        with open(out) as f: r.data = json.load(f)
    except Exception: pass
    tail = b""
    try:
        with open(log, "rb") as f:
            f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 200000)); tail = f.read()
    except Exception: pass
    r.log = tail.decode("latin1")
    r.state = read_state(st)
    if hang: r.kind = "hang"
    elif r.data is not None and r.data.get("fail"): r.kind = "fail"
    elif r.data is not None and p.returncode == 0: r.kind = "ok"
    else: r.kind = "crash"
    shutil.rmtree(d, ignore_errors=True)
    return r

def crash_msg(r):
    L = [l for l in r.log.splitlines() if l.strip()]
    for k in ("ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer", "Error at "):
        for i, l in enumerate(L):
            if k in l: return " | ".join(x.strip() for x in L[i:i + 6])[:600]
    return ("exit code %s; " % r.rc) + " | ".join(x.strip() for x in L[-4:])[:500]

def fails(r, key=None):
    return r.kind != "ok"

class Shrinker:
    def __init__(self, run, scratch, known, budget):
        self.run, self.scratch, self.known, self.t_end = run, scratch, known, time.monotonic() + budget
        self.tries = 0
    def first_failing(self, cands):
        """returns (choices, kind, msg, desc) of the first failing candidate or None"""
        while cands:
            if time.monotonic() > self.t_end: return None
            r = execute(self.run, self.scratch, replay=cands, known=self.known, stall=min(STALL, 45))
            self.tries += len(cands)
            if r.kind == "ok": return None
            if r.kind == "fail":
                f = r.data["fail"]; return f["choices"], "fail", f["msg"], f["desc"], f["key"]
            i = r.state[0] if r.state else -1
            if i is None or i < 0 or i >= len(cands): return None
            return cands[i], r.kind, crash_msg(r), "", r.kind
        return None
    def shrink(self, best):
        cur = best
        improved = True
        while improved and time.monotonic() < self.t_end:
            improved = False
            c = cur[0]; n = len(c)
            size = max(1, n // 2)
            while size >= 1 and time.monotonic() < self.t_end:
                # deletions then zeroing, batched
                i = 0; hit = None
                cands = []
                for i in range(0, len(c), size): cands.append(c[:i] + c[i + size:])
                for i in range(0, len(c), size):
                    if any(c[i:i + size]): cands.append(c[:i] + [0] * len(c[i:i + size]) + c[i + size:])
                cands = [x for x in cands if self.less(x, c)]
                hit = self.first_failing(cands[:400]) if cands else None
                if hit and self.less(hit[0], c): cur = hit; c = cur[0]; improved = True; continue
                size //= 2
            cands = []
            for i, v in enumerate(c):
                for w in (v // 2, v - v // 8, v - 1):
                    if 0 <= w < v: cands.append(c[:i] + [w] + c[i + 1:])
            cands = cands[:600]
            if cands and time.monotonic() < self.t_end:
                hit = self.first_failing(cands)
                if hit and self.less(hit[0], c): cur = hit; improved = True
        return cur
    @staticmethod
    def less(a, b): return (len(a), a) < (len(b), b)

def load_known():
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' | 'fixed: ...'"""
    k = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l.split()[1:3])
                k.setdefault(f["property"], {})[f["key"]] = l.split(None, 3)[3]
    return k

def save_replay(pid, d):
    rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
    h = hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(rd, "%s-%s.json" % (pid, h))
    with open(p, "w") as f: json.dump(d, f, indent=1)
    return p

def do_replay(pid, path, chk):
    d = json.load(open(path))
    run = Run(**{k: v for k, v in d["run"].items()}); run.cost = 1
    tg = {run.cfg: {run.exe}}
    for c in chk.get("also", ()): tg.setdefault(c, set()).add(chk["exe"])
    builder.build(tg)
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        if d.get("type") == "run": r = execute(run, scratch, seed=d["seed"], cases=d["cases"])
        else: r = execute(run, scratch, replay=[d["choices"]])
    finally: shutil.rmtree(scratch, ignore_errors=True)
    if r.kind == "ok": print("replay passes"); return 0
    if r.kind == "fail": print(r.data["fail"]["msg"]); print(r.data["fail"]["desc"])
    else: print(r.kind, crash_msg(r))
    print("VIOLATION property=%s replay=%s" % (pid, path)); return 1

def confirm_and_report(pid, res, scratch, seed, known, tier):
    run = res.run
    if res.kind == "fail":
        f = res.data["fail"]; cand = (f["choices"], "fail", f["msg"], f["desc"], f["key"]); idx = f["index"]
    else:
        st = res.state or (0, [], 0)
        cand = (st[1], res.kind, crash_msg(res), "", res.kind); idx = max(0, st[0])
    n, hits, val = 3, 0, None
    for k in range(n):
        r = execute(run, scratch, replay=[cand[0]], known=known, stall=60)
        if r.kind != "ok":
            hits += 1
            if r.kind == "fail": f = r.data["fail"]; val = (f["choices"], "fail", f["msg"], f["desc"], f["key"])
            else: val = (cand[0], r.kind, crash_msg(r), cand[3], r.kind)
        elif k == 0 and hits == 0: break
    rep = dict(property=pid, run=run.spec(), seed=seed, index=idx, tier=tier)
    if hits >= 1:
        sh = Shrinker(run, scratch, known, 90 if tier == "quick" else 240)
        best = val
        if val[1] != "hang" and hits == n:
            try: best = sh.shrink(val)
            except Exception as e: print("shrink stopped: %r" % e)
            # the minimal case must still fail on its own
            r = execute(run, scratch, replay=[best[0]], known=known, stall=60)
            if r.kind == "ok": best = val
            elif r.kind == "fail": best = (r.data["fail"]["choices"], "fail", r.data["fail"]["msg"], r.data["fail"]["desc"], r.data["fail"]["key"])
        rep.update(type="case", choices=best[0], kind=best[1], message=best[2], description=best[3], key=best[4], confirmed="%d/%d" % (hits, n), shrink_tries=sh.tries)
        return rep
    # depends on the history of the process: replay the whole run up to this case
    hits = 0
    for k in range(3):
        r = execute(run, scratch, seed=seed, cases=idx + 1, known=known)
        if r.kind != "ok": hits += 1; val = r
        elif k == 1 and not hits: break
    if hits:
        msg = val.data["fail"]["msg"] if val.kind == "fail" else crash_msg(val)
        rep.update(type="run", cases=idx + 1, kind=val.kind, message=msg, description=cand[3], key=cand[4], confirmed="%d/3" % hits)
        return rep
    rep.update(type="unreproduced", kind=cand[1], message=cand[2], description=cand[3], choices=cand[0])
    return rep

def main():
    import checks
    pid = sys.argv[1]
    chk = checks.CHECKS[pid]
    if "--replay" in sys.argv: sys.exit(do_replay(pid, sys.argv[sys.argv.index("--replay") + 1], chk))
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    runs = chk["runs"](tier)
    only = os.environ.get("VERIF_ONLY")
    if only: runs = [r for r in runs if only in r.name()]
    for r in runs: r.exe = r.exe or chk["exe"]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    tg = {}
    for r in runs: tg.setdefault(r.cfg, set()).add(r.exe)
    for c in chk.get("also", ()): tg.setdefault(c, set()).add(chk["exe"])
    try: nb = builder.build(tg)
    except builder.BuildError as e:
        print(str(e)); print("build of the harness against /repo failed"); sys.exit(2)
    t_build = time.monotonic() - t0
    known_map = load_known().get(pid, {})
    known = sorted(known_map)
    scratch = tempfile.mkdtemp(prefix="verif-")
    results, lock = [], threading.Lock()
    ncore = os.cpu_count() or 4
    slots, cv, stop = [ncore], threading.Condition(), [False]
    soft = chk.get("soft", {}).get(tier, 240 if tier == "quick" else 3000)
    try:
        stages = sorted(set(getattr(r, "stage", 0) for r in runs))
        def go(r):
            need = min(ncore, r.cost)
            with cv:
                while slots[0] < need and not stop[0]: cv.wait()
                if stop[0]: return
                slots[0] -= need
            try:
                rs = int(hashlib.sha256(("%d/%s/%s" % (vseed, pid, r.seedkey or r.name())).encode()).hexdigest()[:15], 16)
                if r.opts: r.opts = {k: (v.replace("@SCRATCH@", scratch) if isinstance(v, str) else v) for k, v in r.opts.items()}
                x = execute(r, scratch, seed=rs, cases=max(1, int(r.cases * scale)), known=known, seconds=soft)
                x.seed = rs
                with lock:
                    results.append(x)
                    if x.kind != "ok": stop[0] = True
            finally:
                with cv: slots[0] += need; cv.notify_all()
        for s in stages:
            if stop[0]: break
            th = [threading.Thread(target=go, args=(r,)) for r in runs if getattr(r, "stage", 0) == s]
            for t in th: t.start()
            for t in th: t.join()
        bad = [x for x in results if x.kind != "ok"]
        viol = None; unrep = []
        for x in sorted(bad, key=lambda x: (x.kind != "fail", x.run.ranks)):
            if viol: break
            rep = confirm_and_report(pid, x, scratch, x.seed, known, tier)
            if rep["type"] == "unreproduced": unrep.append(rep)
            else: viol = rep
        ev = dict(property=pid, tier=tier, seed=vseed, level="exploration", wall_s=0.0)
        evals, hs, samples, labels, per, kn = 0, set(), [], {}, [], {}
        for x in results:
            d = x.data or {}
            evals += d.get("done", 0)
            for h in d.get("hashes", []): hs.add((x.run.name(), h))
            if d.get("samples") and len(samples) < 8: samples.append("[%s] %s" % (x.run.name(), d["samples"][0][:700]))
            for k, v in d.get("labels", {}).items(): labels[k] = labels.get(k, 0) + v
            per.append(dict(run=x.run.name(), outcome=x.kind, cases=d.get("done", 0), nontrivial=d.get("nontrivial", 0)))
            for k, v in d.get("known", {}).items(): kn.setdefault(k, [0, v[1]]); kn[k][0] += v[0]
        if not samples: samples = ["none completed"]
        ev["coverage"] = dict(evaluations=evals, distinct_nontrivial=len(hs), rule=chk["rule"], samples=samples, labels=labels, runs=per)
        ev["assumptions"] = chk.get("assumptions", [])
        ev["violations"] = 1 if viol else 0
        if viol: ev["coverage"]["violation"] = {k: viol[k] for k in viol if k != "choices"}
        if unrep: ev["coverage"]["unreproduced"] = unrep
        if kn: ev["coverage"]["known_findings"] = {k: v[0] for k, v in kn.items()}
        ev["wall_s"] = round(time.monotonic() - t0, 2)
        ev["coverage"]["build_s"] = round(t_build, 2)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s tier=%s seed=%d cases=%d nontrivial=%d build=%.1fs wall=%.1fs" % (pid, tier, vseed, evals, len(hs), t_build, ev["wall_s"]))
        for k in sorted(kn): print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, known_map[k], kn[k][0]))
        if viol:
            p = save_replay(pid, viol)
            print("run %s kind=%s confirmed=%s" % (Run(**viol["run"]).name(), viol["kind"], viol["confirmed"]))
            print(viol["message"]); print(viol["description"][:1500])
            print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        if unrep:
            # never seen again on replay: not believed, but not silently dropped either
            for u in unrep: print("unreproduced %s: %s" % (u["run"]["cfg"], u["message"][:300]))
            return 2
        return 0
    finally:
        kill_all()
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
