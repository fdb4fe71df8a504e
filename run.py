#!/usr/bin/env python3
"""Driver: builds the harnesses a property needs from /repo's working tree, runs their cases
under the monitors, collects what the monitors observed, and reports.

  run.py C01                 decide one property (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py C01 --tier thorough
  run.py --replay out/replay/C01-....json      re-run one recorded case
  run.py --build             build everything (not needed before a check)
Exit: 0 held on everything explored, 1 a violation was reported, 3 the check itself failed.
"""
import sys, os, re, json, time, subprocess, hashlib, threading, shutil, signal, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
BUILD = os.path.join(ROOT, "build")
OUT = os.path.join(ROOT, "out")
EVID = os.path.join(ROOT, "evidence")
NCPU = os.cpu_count() or 4
from checks import BINS, CHECKS  # noqa

FLAVORS = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DVMON_ASAN=1"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-DVMON_TSAN=1"],
    "o2": ["-O2", "-g1"],
    "o3": ["-O3", "-g1", "-march=x86-64"],
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_thread_leaks=0:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "report_objects=1",
}

class CheckError(Exception):
    pass

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ build
def repo_hash():
    h = hashlib.sha256()
    for d in ("include", "desktop_blocks", "desktop_logger", "tools/mermaid/src"):
        for base, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".c", ".h", ".cpp", ".hpp", ".cc", ".inl", ".ipp")):
                    p = os.path.join(base, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    for f in sorted(glob.glob(os.path.join(ROOT, "harness", "**", "*"), recursive=True)):
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

_rh = None
_buildlocks = {}
_bl = threading.Lock()
def build(name, flavor):
    global _rh
    with _bl:
        if _rh is None: _rh = repo_hash()
        lk = _buildlocks.setdefault((name, flavor), threading.Lock())
    with lk:
        try: return _build(name, flavor, [])
        except CheckError as e:
            # part of the harness is guarded: if only that part does not compile, what it uses is no longer supported
            q = BINS[name].get("require")
            if not q: raise
            exe = _build(name, flavor, [q["without"]])
            UNSUPPORTED[name] = (q["key"], q["what"] + ": " + str(e)[-1500:])
            return exe

UNSUPPORTED = {}
def _build(name, flavor, extra):
    b = BINS[name]
    srcs = [os.path.join(ROOT, s) for s in b["src"]]
    for g in b.get("repo_src", []):
        found = sorted(glob.glob(os.path.join(REPO, g)))
        found = [f for f in found if not any(re.search(x, f) for x in b.get("repo_exclude", []))]
        srcs += found
    inc = ["-I" + os.path.join(ROOT, "harness")] + ["-I" + os.path.join(ROOT, i) for i in b.get("harness_inc", [])]
    inc += ["-I" + os.path.join(REPO, i) for i in b.get("inc", ["include"])]
    flags = FLAVORS[flavor] + b.get("flags", []) + extra + ["-w", "-pthread"]
    key = hashlib.sha256(json.dumps([_rh, name, flavor, srcs, inc, flags, b.get("libs", [])]).encode()).hexdigest()[:20]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "%s-%s-%s" % (name, flavor, key))
    if os.path.exists(exe): return exe
    for old in glob.glob(os.path.join(BUILD, "%s-%s-*" % (name, flavor))):
        try: os.unlink(old)
        except OSError: pass
    tmp = tempfile.mkdtemp(dir=BUILD)
    objs, procs = [], []
    def cc(i, s):
        o = os.path.join(tmp, "%d.o" % i)
        if s.endswith(".c"): cmd = ["gcc", "-std=gnu11"]
        else: cmd = ["g++", "-std=c++17"]
        cmd += flags + inc + ["-c", s, "-o", o]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
        return o
    try:
        with ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(lambda t: cc(*t), enumerate(srcs)))
        cmd = ["g++"] + flags + objs + b.get("libs", []) + ["-o", exe + ".tmp"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise CheckError("link failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
        os.rename(exe + ".tmp", exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe

# ------------------------------------------------------------------ run one shard
def crash_key(rc, err):
    m = re.search(r"(SUMMARY|ERROR): (ThreadSanitizer|AddressSanitizer|LeakSanitizer|UndefinedBehaviorSanitizer): (.*)", err)
    kind = None
    t = re.search(r"WARNING: ThreadSanitizer: ([a-z \-()]+)", err)
    if t: kind = "tsan:" + t.group(1).split("(")[0].strip().replace(" ", "-")
    a = re.search(r"ERROR: AddressSanitizer:? ?([A-Za-z0-9\-]+)", err)
    if a: kind = "asan:" + a.group(1)
    if "LeakSanitizer: detected memory leaks" in err and not kind: kind = "lsan:leak"
    u = re.search(r"([\w./+-]+):(\d+):\d+: runtime error: (.*)", err)
    if u and (not a or a.group(1) in ("ABRT",)): kind = "ubsan:" + re.sub(r"[^a-z]+", "-", u.group(3).lower())[:40].strip("-")
    s = re.search(r"Assertion [`'](.*?)' failed", err)
    if s: kind = "assert:" + re.sub(r"[^A-Za-z0-9_]+", "-", s.group(1))[:50]
    term = re.search(r"terminate called (after throwing an instance of '([^']*)'|without)", err)
    if term and not s: kind = "terminate:" + (term.group(2) or "no-active-exception")
    if not kind:
        kind = "signal:%d" % -rc if rc < 0 else "exit:%d" % rc
    # first frame inside /repo identifies the site
    site = ""
    f = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?(\S.*?) (?:%s)/?([\w./+-]+\.(?:hpp|h|cpp|c))" % re.escape(REPO.rstrip("/")), err)
    if f: site = ":" + os.path.basename(f.group(2))
    return "crash:" + kind + site

class Found:
    """Once a violation is certain, a quick check goes on only a little longer: enough to report others, too."""
    def __init__(self, prop, tier):
        self.at, self.on = None, tier == "quick"; self.known = [k for p, k, w in known_findings() if p == prop]
    def see(self, key, acc):
        if self.on and self.at is None and re.match(acc, key) and not any(k.search(key) for k in self.known): self.at = time.time() + GRACE
    def due(self): return self.at is not None and time.time() > self.at
GRACE = 20

class Shard:
    found = None
    def __init__(self, prop, job, exe, lo, n, seed, tier, rundir, idx):
        self.prop, self.job, self.exe, self.lo, self.n = prop, job, exe, lo, n
        self.seed, self.tier, self.dir, self.idx = seed, tier, rundir, idx
        self.viol = []      # (key, detail, case, replayable)
        self.stats, self.maxs, self.sigs, self.evals, self.samples = {}, {}, set(), 0, []
        self.done_cases = 0
        self.errors = []

    def cmd(self, frm, count, logf, hang=None):
        c = [self.exe, self.job["mode"], "--seed", str(self.seed), "--from", str(frm), "--count", str(count), "--log", logf,
             "--hang", str(hang or self.job.get("hang", 60)), "--tier", self.tier]
        for k, v in self.job.get("params", {}).items(): c += ["--param", "%s=%s" % (k, v)]
        return c

    def launch(self, frm, count, tag, deadline, hang=None):
        """one process; returns (rc, last_case, records, stderr)"""
        logf = os.path.join(self.dir, "log-%d-%s" % (self.idx, tag))
        scratch = os.path.join(self.dir, "scratch-%d-%s" % (self.idx, tag))
        os.makedirs(scratch, exist_ok=True)
        errf = logf + ".err"
        env = dict(os.environ); env.update(ENV); env.update(self.job.get("env", {}))
        env["VMON_SCRATCH"] = scratch; env["TMPDIR"] = scratch
        if "ubsan_supp" in self.job: pass
        pre = self.job.get("pre", [])
        with open(errf, "wb") as ef:
            p = subprocess.Popen(pre + self.cmd(frm, count, logf, hang), stdout=subprocess.DEVNULL if not self.job.get("keep_stdout") else ef, stderr=ef,
                                 stdin=subprocess.DEVNULL, cwd=scratch, env=env, start_new_session=True)
            pos, part, end, rc, pause = 0, "", max(time.time() + 5, deadline), None, 0.02
            while rc is None:
                try: p.wait(timeout=pause); rc = p.returncode; break
                except subprocess.TimeoutExpired: pause = min(1.0, pause * 2)
                try:
                    with open(logf, "rb") as f: f.seek(pos); new = f.read()
                    pos += len(new); ls = (part + new.decode(errors="replace")).split("\n"); part = ls.pop()
                    for l in ls:
                        if l.startswith("V "): self.found.see(l[2:].split("\t")[0], self.job.get("accept", ".*"))
                except OSError: pass
                if time.time() > end or self.found.due():
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except OSError: pass
                    p.wait(); rc = "deadline"
            try: os.killpg(p.pid, signal.SIGKILL)   # stragglers
            except OSError: pass
        recs = []
        if os.path.exists(logf):
            with open(logf, errors="replace") as f: recs = f.read().split("\n")
        with open(errf, "rb") as f:
            f.seek(0, 2); size = f.tell(); f.seek(max(0, size - 200000)); err = f.read().decode(errors="replace")
        shutil.rmtree(scratch, ignore_errors=True)
        return rc, recs, err

    def absorb(self, recs):
        cur, done, hang = None, False, False
        for l in recs:
            if not l: continue
            t, _, r = l.partition(" ")
            if t == "B": cur = int(r)
            elif t == "E": cur_done = int(r); self.done_cases += 1
            elif t == "V":
                k, _, d = r.partition("\t"); self.viol.append((k, d, cur))
            elif t == "N":
                for s in r.split(): self.sigs.add(s)
            elif t == "C": self.evals += int(r)
            elif t == "S":
                k, v = r.rsplit(" ", 1); self.stats[k] = self.stats.get(k, 0) + float(v)
            elif t == "M":
                k, v = r.rsplit(" ", 1); self.maxs[k] = max(self.maxs.get(k, float("-inf")), float(v))
            elif t == "X": self.samples.append(r)
            elif t == "H": hang = True
            elif t == "D": done = True
        return cur, done, hang

    def run(self, deadline):
        frm, end, tries = self.lo, self.lo + self.n, 0
        crashes = 0
        while frm < end and time.time() < deadline and not self.found.due():
            rc, recs, err = self.launch(frm, end - frm, "r%d" % tries, deadline); tries += 1
            cur, done, hang = self.absorb(recs)
            if rc == "deadline": return
            if done and rc == 0: return
            if done and rc != 0:
                # everything ran; something was reported at exit (leaks, races in teardown)
                key = crash_key(rc, err)
                self.viol.append((key, tail(err), None)); return
            if hang:
                # confirm: re-run the same case alone before believing it
                ok = 0
                for a in range(2):
                    rc2, recs2, err2 = self.launch(cur, 1, "h%d-%d" % (tries, a), deadline)
                    c2 = any(l.startswith("H ") for l in recs2)
                    if c2:
                        self.viol.append(("hang:" + self.job["mode"], "case %d made no progress for %ss (twice)" % (cur, self.job.get("hang", 60)), cur)); self.found.see("hang:" + self.job["mode"], self.job.get("accept", ".*")); return
                self.stats["unconfirmed_hangs"] = self.stats.get("unconfirmed_hangs", 0) + 1
                frm = cur + 1; continue
            if cur is None and not recs and rc == 2:
                self.errors.append("harness failed to start: rc=%s %s" % (rc, tail(err))); return
            if rc == 0:   # stopped early after many violations
                return
            key = crash_key(rc, err); self.found.see(key, self.job.get("accept", ".*"))
            self.viol.append((key, tail(err), cur if cur is not None else frm))
            crashes += 1
            if crashes >= self.job.get("max_crashes", 3): return
            frm = (cur if cur is not None else frm) + 1

def tail(err):
    lines = [l for l in err.split("\n") if l.strip()]
    keep = [l for l in lines if re.search(r"runtime error|ERROR:|WARNING: Thread|SUMMARY|Assertion|terminate|what\(\)|^ +#\d", l)]
    return " | ".join(x.strip()[:220] for x in (keep or lines)[:14])[:2200]

# ------------------------------------------------------------------ known findings
def known_findings():
    """lines:  open: property=Cnn key=<regex> <what>      fixed: property=Cnn <commit> <what>"""
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", l)
            if m: res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return res

# ------------------------------------------------------------------ a property
def run_check(prop, tier, seed):
    t0 = time.time()
    chk = CHECKS[prop]
    jobs = []
    for j in chk["jobs"]:
        j = dict(j); n = j["thorough"] if tier == "thorough" else j["quick"]
        if n: j["n"] = n; jobs.append(j)
    budget = float(os.environ.get("VERIF_BUDGET", 0)) or (780 if tier == "quick" else 6 * 3600)
    deadline = t0 + budget
    os.makedirs(OUT, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    rundir = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=OUT)
    try:
        need = sorted({(j["bin"], j["flavor"]) for j in jobs})
        with ThreadPoolExecutor(4) as ex: exes = dict(zip(need, ex.map(lambda t: build(*t), need)))
        tb = time.time()
        shards = []; found = Found(prop, tier)
        for j in jobs:
            k = min(j.get("shards", 4), j["n"]); per = (j["n"] + k - 1) // k
            for s in range(k):
                lo = s * per; n = min(per, j["n"] - lo)
                if n > 0: shards.append(Shard(prop, j, exes[(j["bin"], j["flavor"])], lo, n, seed, tier, rundir, len(shards)))
        for s in shards: s.found = found
        # weighted pool: a shard occupies `w` slots
        slots = NCPU + NCPU // 2
        cond = threading.Condition(); free = [slots]
        def go(s):
            w = min(slots, s.job.get("weight", 1))
            with cond:
                while free[0] < w: cond.wait()
                free[0] -= w
            try: s.run(deadline)
            except Exception as e: s.errors.append(repr(e))
            finally:
                with cond: free[0] += w; cond.notify_all()
        order = sorted(shards, key=lambda s: -s.job.get("weight", 1))
        with ThreadPoolExecutor(len(order)) as ex: list(ex.map(go, order))
    finally:
        shutil.rmtree(rundir, ignore_errors=True)
    errs = [e for s in shards for e in s.errors]
    # violations
    known = [(k, w) for p, k, w in known_findings() if p == prop]
    seen, reported, known_hit, other = {}, [], {}, {}
    for s in shards:
        acc = re.compile(s.job.get("accept", ".*"))
        for key, detail, case in s.viol:
            if not acc.match(key):
                other[key] = other.get(key, 0) + 1; continue
            kf = next((w for k, w in known if k.search(key)), None)
            if kf: known_hit[kf] = known_hit.get(kf, 0) + 1; continue
            if key in seen: seen[key]["count"] += 1; continue
            seen[key] = dict(key=key, detail=detail, case=case, job=s.job, count=1)
    for j in jobs:
        if j["bin"] in UNSUPPORTED:
            key, what = UNSUPPORTED[j["bin"]]
            if re.match(j.get("accept", ".*"), key) and key not in seen: seen[key] = dict(key=key, detail=what, case=0, job=j, count=1)
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    for key, v in seen.items():
        rp = os.path.join(OUT, "replay", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", key)[:60]))
        json.dump(dict(property=prop, bin=v["job"]["bin"], flavor=v["job"]["flavor"], mode=v["job"]["mode"], params=v["job"].get("params", {}),
                       env=v["job"].get("env", {}), seed=seed, case=v["case"], tier=tier, key=key, detail=v["detail"]), open(rp, "w"), indent=1)
        reported.append((key, os.path.relpath(rp, ROOT), v))
    for w, n in known_hit.items(): log("KNOWN-FINDING: property=%s %s" % (prop, w))
    # evidence
    stats, maxs, per_job = {}, {}, {}
    sigs, evals, samples = set(), 0, []
    for i, s in enumerate(shards):
        for k, v in s.stats.items(): stats[k] = stats.get(k, 0) + v
        for k, v in s.maxs.items(): maxs[k] = max(maxs.get(k, float("-inf")), v)
        sigs |= {s.job["mode"] + x for x in s.sigs}
        evals += s.evals
        nm = "%s/%s" % (s.job["mode"], s.job["flavor"]); pj = per_job.setdefault(nm, dict(cases=0, planned=0)); pj["cases"] += s.done_cases; pj["planned"] += s.n
        if len(samples) < 12: samples += [{"mode": s.job["mode"], "flavor": s.job["flavor"], "case": x} for x in s.samples[:1]]
    for v in seen.values():
        samples.append({"violation": v["key"], "detail": v["detail"][:400], "case": v["case"]})
    num = lambda x: int(x) if float(x).is_integer() else x
    ev = dict(property=prop, tier=tier, seed=seed, level=chk["level"],
              coverage=dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=chk["rule"], samples=samples or ["none"],
                            observed={k: num(v) for k, v in sorted(stats.items())}, observed_max={k: num(v) for k, v in sorted(maxs.items())}, jobs=per_job),
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(reported))
    if other: ev["coverage"]["observations_of_other_properties"] = other
    if known_hit: ev["coverage"]["known_findings_seen"] = known_hit
    tmpf = os.path.join(EVID, prop + ".json.tmp")
    json.dump(ev, open(tmpf, "w"), indent=1); os.replace(tmpf, os.path.join(EVID, prop + ".json"))
    log("%s tier=%s seed=%d: %d evaluations, %d distinct non-trivial, build %.0fs run %.0fs" % (prop, tier, seed, evals, len(sigs), tb - t0, time.time() - tb))
    for key, rp, v in reported[:12]:
        log("VIOLATION property=%s replay=%s" % (prop, rp)); log("   %s (x%d) case %s: %s" % (key, v["count"], v["case"], v["detail"][:700]))
    if reported: return 1
    if other: log("note: monitors of other properties fired: %s" % other)
    if errs: log("check error: " + errs[0]); return 3
    if evals == 0: log("check error: nothing was evaluated"); return 3
    return 0

def replay(path):
    r = json.load(open(path)); exe = build(r["bin"], r["flavor"])
    env = dict(os.environ); env.update(ENV); env.update(r.get("env", {}))
    d = tempfile.mkdtemp(prefix="vreplay-"); env["VMON_SCRATCH"] = d; env["TMPDIR"] = d
    c = [exe, r["mode"], "--seed", str(r["seed"]), "--from", str(r["case"] or 0), "--count", "1", "--tier", r["tier"]]
    for k, v in r.get("params", {}).items(): c += ["--param", "%s=%s" % (k, v)]
    print(" ".join(c)); rc = subprocess.call(c, env=env, cwd=d); shutil.rmtree(d, ignore_errors=True); print("exit", rc)
    return rc

def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if "--seed" in a: i = a.index("--seed"); seed = int(a[i + 1]); del a[i:i + 2]
    if tier not in ("quick", "thorough"): tier = "quick"
    if a and a[0] == "--replay": return replay(a[1])
    if a and a[0] == "--build":
        for n in BINS:
            for f in sorted({j["flavor"] for c in CHECKS.values() for j in c["jobs"] if j["bin"] == n}): t = time.time(); build(n, f); log("%s %s %.1fs" % (n, f, time.time() - t))
        return 0
    rc = 0
    for p in (a or sorted(CHECKS)):
        try: r = run_check(p, tier, seed)
        except CheckError as e: log("check error: " + str(e)); r = 3
        rc = max(rc, r) if r != 1 else (1 if rc in (0, 1) else rc)
    return rc

if __name__ == "__main__":
    sys.exit(main())
