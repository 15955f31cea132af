#!/usr/bin/env python3
"""Driver: python3 check.py C05 [--tier quick|thorough] | --replay FILE | --selftest

Builds what the property's jobs need from /repo's working tree (below
/verif/build, keyed by the content of the sources), runs the jobs, collects
what the monitors in them report, writes evidence/<id>.json and prints the
verdict. Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
Exit 2: the check itself failed (no verdict)."""
import sys, os, json, time, hashlib, subprocess, shutil, signal, threading, re, tempfile, traceback
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HX_REPO", "/repo")
sys.path.insert(0, HERE)
if __name__ == "__main__": sys.modules["check"] = sys.modules["__main__"]   # one CheckError for all modules
os.environ["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
os.environ["LC_ALL"] = "C"
for v in ("MAKEFLAGS", "MAKELEVEL", "MFLAGS", "LD_PRELOAD", "CFLAGS", "CC"): os.environ.pop(v, None)

class CheckError(Exception): pass

# ------------------------------------------------------------------ building
def repo_files():
    fs = []
    for d in ("", "ui"):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith((".c", ".h")): fs.append(os.path.join(d, f))
    return fs + ["Makefile"]

def make_vars():
    def q(v):
        r = subprocess.run(["make", "-s", "--no-print-directory", "-C", REPO, "--eval", "hx-print: ; @echo $(%s)" % v, "hx-print"], capture_output=True, text=True)
        out = [x for x in r.stdout.split() if x.endswith(".c") and os.path.exists(os.path.join(REPO, x))]
        return out if r.returncode == 0 else []
    plain, fast = q("SOURCES"), q("SOURCES_FAST")
    allc = [f for f in os.listdir(REPO) if f.endswith(".c")]
    if len(plain) < 5: plain = [f for f in allc if f != "xmss_core_fast.c"]
    if len(fast) < 5: fast = [f for f in allc if f != "xmss_core.c"]
    return plain, fast

NOFORT = ["-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]
FLAVORS = {
    "native": ["-O3", "-g", *NOFORT],
    "asan": ["-O1", "-g", *NOFORT, "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g", *NOFORT, "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "vg": ["-O1", "-g", *NOFORT, "-fno-inline"],
}
class Builder:
    def __init__(self):
        h = hashlib.sha256(REPO.encode())
        for f in repo_files():
            h.update(f.encode()); h.update(open(os.path.join(REPO, f), "rb").read())
        for d in ("harness", "ref"):
            for f in sorted(os.listdir(os.path.join(HERE, d))):
                if os.path.isfile(os.path.join(HERE, d, f)): h.update(f.encode()); h.update(open(os.path.join(HERE, d, f), "rb").read())
        for f in ("check.py", "port.py"): h.update(open(os.path.join(HERE, f), "rb").read())
        self.base = os.path.join(HERE, "build"); self.dir = os.path.join(self.base, h.hexdigest()[:16])
        os.makedirs(self.dir, exist_ok=True); os.utime(self.dir)
        for old in sorted((os.path.join(self.base, x) for x in os.listdir(self.base)), key=os.path.getmtime)[:-6]: shutil.rmtree(old, ignore_errors=True)
        self.plain, self.fast = make_vars(); self.lock = threading.Lock(); self.locks = {}; self.notes = []
    def once(self, key, out, fn):
        with self.lock: lk = self.locks.setdefault(key, threading.Lock())
        with lk:
            if os.path.exists(out): return out
            tmp = out + ".tmp%d" % os.getpid()
            fn(tmp); os.rename(tmp, out); return out
    def run(self, cmd, what):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise CheckError("building %s failed:\n%s\n%s" % (what, " ".join(cmd), (r.stdout + r.stderr)[-4000:]))
    WRAPS = {"RAND": ["randombytes"], "SHAKE": ["shake128", "shake256"], "STUBS": ["gen_leaf_wots", "wots_sign"], "THASH": ["thash_f"]}
    OSCALLS = ["open", "open64", "openat", "read", "close", "fopen", "fopen64", "getrandom", "getentropy", "sleep", "usleep", "nanosleep"]
    def lib(self, impl, flavor):
        out = os.path.join(self.dir, "lib%s-%s.so" % (impl, flavor))
        src = [os.path.join(REPO, s) for s in (self.plain if impl == "plain" else self.fast)]
        def fn(tmp):
            err = None
            allf = list(self.WRAPS)
            for feats in sorted(([f for i, f in enumerate(allf) if q >> i & 1] for q in range(1 << len(allf))), key=lambda x: -len(x)):
                wraps = ["SHA256", "SHA512"] + self.OSCALLS + [w for f in feats for w in self.WRAPS[f]]
                try:
                    self.run(["gcc", *FLAVORS[flavor], "-w", "-fPIC", "-shared", *["-DHX_WRAP_" + f for f in feats], "-I", REPO, *src, os.path.join(HERE, "harness", "shim.c"),
                              "-Wl,-Bsymbolic", "-Wl,-z,defs", *["-Wl,--wrap=" + w for w in wraps], "-o", tmp, "-lcrypto"], "lib%s (%s)" % (impl, flavor))
                    if len(feats) < len(allf): self.notes.append("library %s %s built only with the hooks %s" % (impl, flavor, feats))
                    return
                except CheckError as e: err = err or e
            raise err
        return self.once(("lib", impl, flavor), out, fn)
    def harness(self, name, flavor):
        out = os.path.join(self.dir, "%s-%s" % (name, flavor)); fl = [f for f in FLAVORS[flavor] if f != "-O3"] + (["-O2"] if flavor == "native" else []); fl = [f.replace("address,undefined", "address") for f in fl]
        cpp = os.path.join(HERE, "harness", name + ".cpp")
        return self.once(("h", name, flavor), out, lambda tmp: self.run(["g++", "-std=c++17", *fl, "-w", "-I", REPO, cpp, "-o", tmp, "-ldl", "-lcrypto", "-lpthread"], name))
    def rawlib(self, name, srcs, flavor, extra):   # a harness in C linked directly with sources of /repo
        out = os.path.join(self.dir, "%s-%s" % (name, flavor))
        return self.once(("r", name, flavor), out, lambda tmp: self.run(["gcc", *FLAVORS[flavor], "-w", "-I", REPO, *srcs, "-o", tmp, *extra], name))
    def tool(self, tool, mt, fast, flavor="native"):
        n = "%s_%s%s" % ("xmssmt" if mt else "xmss", tool, "_fast" if fast else ""); out = os.path.join(self.dir, "ui-%s-%s" % (n, flavor))
        src = [os.path.join(REPO, s) for s in (self.fast if fast else self.plain)] + [os.path.join(REPO, "ui", tool + ".c"), os.path.join(HERE, "harness", "shim.c")]
        return self.once(("t", n, flavor), out, lambda tmp: self.run(["gcc", *FLAVORS[flavor], "-w", *(["-DXMSSMT"] if mt else []), "-I", REPO, *src, *["-Wl,--wrap=" + w for w in ["SHA256", "SHA512"] + self.OSCALLS], "-o", tmp, "-lcrypto"], n))

# ------------------------------------------------------------------ jobs
class Job:
    """One run of a harness. flavor: build; prefix: e.g. valgrind; needs: libraries."""
    def __init__(self, binary, flavor="native", timeout=240, prefix=(), libs=("plain", "fast"), env=None, weight=1, **args):
        self.binary, self.flavor, self.timeout, self.prefix, self.libs, self.env, self.weight, self.args = binary, flavor, timeout, list(prefix), libs, env or {}, weight, args
    def argv(self): return ["%s=%s" % (k, v) for k, v in self.args.items() if v is not None]
    def describe(self): return "%s[%s] %s" % (self.binary, self.flavor, " ".join(self.argv()))

SAN_ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
           "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_thread_leaks=0:history_size=4"}
def sanitizer_reports(err):
    """(kind, innermost frame in /repo's sources) of each report in a sanitizer's output"""
    out = []
    for m in re.finditer(r"(?:==\d+==ERROR: AddressSanitizer: (\S+)|([^\s:]+\.[ch]):(\d+):\d+: runtime error: ([^\n]*)|WARNING: ThreadSanitizer: ([^(\n]*))", err):
        tail = err[m.start():m.start() + 6000]; nxt = re.search(r"\n(?:==\d+==ERROR|WARNING: ThreadSanitizer|=================\n)", tail[10:]); tail = tail[:nxt.start() + 10] if nxt else tail
        fr = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?(\S+) (%s/[^\s:]+):(\d+)" % re.escape(REPO), tail)
        kind = m.group(1) or (m.group(4) and re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(4))) or m.group(5)
        inrepo = bool(fr) or (m.group(2) and os.path.abspath(m.group(2)).startswith(REPO))
        place = fr.group(1) if fr else (os.path.basename(m.group(2)) if m.group(2) else "?")
        out.append((kind.strip(), place, inrepo, tail[:3000]))
    return out

VG = ["valgrind", "-q", "--fullpath-after=", "--num-callers=30", "--error-limit=no"]
def valgrind_reports(err):
    """(kind, innermost function of /repo, in /repo?, text) of each report of memcheck"""
    out = []
    for blk in re.split(r"\n==\d+== *(?=\n)", "\n" + re.sub(r"(?m)^==\d+==\s*$", r"==1== ", err)):
        ls = [re.sub(r"^==\d+== ?", "", l) for l in blk.splitlines() if re.match(r"==\d+== ", l)]
        head = next((i for i, l in enumerate(ls) if re.match(r"(Conditional jump|Use of uninit|Syscall param|Invalid |Source and destination|Process terminating|Jump to the invalid|Argument '|Mismatched|free\(\))", l)), None)
        if head is None: continue
        text = "\n".join(ls[head:head + 25]); fr = re.search(r"(?:at|by) 0x[0-9A-F]+: (\S+) \((%s/[^\s:]+):(\d+)\)" % re.escape(REPO), text)
        out.append((re.sub(r"0x[0-9a-fA-F]+|\d+", "N", ls[head]).strip()[:60], fr.group(1) if fr else "?", bool(fr), text))
    return out

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed; self.b = Builder(); self.viols = {}; self.stats = {}; self.maxs = {}; self.samples = []; self.skips = []; self.errors = []; self.lock = threading.Lock(); self.jobs_done = 0; self.jobs_incomplete = []; self.others = {}
        self.deadline = time.time() + (float(os.environ.get("HX_BUDGET", "0")) or (740 if tier == "quick" else 1e6))   # what has not begun by then is left out, and said so
        self.scratch = tempfile.mkdtemp(prefix="hx-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    def viol(self, key, msg, job=None, prop=None):
        with self.lock:
            if prop and prop != self.prop: self.others.setdefault((prop, key), msg); return
            self.viols.setdefault(key, {"msg": msg, "job": job.__dict__ if isinstance(job, Job) else job})
    def stat(self, k, v):
        with self.lock: self.stats[k] = self.stats.get(k, 0) + v
    def sample(self, s):
        with self.lock: self.samples.append(s)
    def error(self, s):
        with self.lock: self.errors.append(s)
    def left(self): return max(0, self.deadline - time.time())
    def one(self, job, attempt=0):
        if self.left() < 3:
            with self.lock: self.jobs_incomplete.append(job.describe() + " (out of time)")
            return
        try:
            exe = self.b.harness(job.binary, job.flavor)
            env = dict(os.environ, **SAN_ENV, **job.env, HX_TIER=self.tier, HX_WATCH={"vg": "8", "tsan": "4", "asan": "2"}.get(job.flavor, "1"))
            for l in job.libs: env["HX_" + l.upper()] = self.b.lib(l, job.flavor)
            d = tempfile.mkdtemp(dir=self.scratch)
            t0 = time.time()
            with open(os.path.join(d, "out"), "wb") as fo, open(os.path.join(d, "err"), "wb") as fe:
                p = subprocess.Popen([*job.prefix, exe, *job.argv()], stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True)
                try: rc = p.wait(min(job.timeout, self.left() + 5)); to = False
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL); p.wait(); rc, to = None, True
            out = open(os.path.join(d, "out"), errors="replace").read(); err = open(os.path.join(d, "err"), errors="replace").read()
            if os.environ.get("HX_VERBOSE"): sys.stderr.write("%6.1fs rc=%s %s\n" % (time.time() - t0, rc, job.describe()))
            shutil.rmtree(d, ignore_errors=True)
        except CheckError as e: self.error(str(e)); return
        if to or rc == -9:
            if attempt == 0: return self.one(job, 1)
            with self.lock: self.jobs_incomplete.append(job.describe() + (" (timeout)" if to else " (killed)"))
        finished = False
        for l in out.splitlines():
            try: o = json.loads(l)
            except ValueError: continue
            t = o.get("t")
            if t == "viol": self.viol(o["key"], o["msg"], job, o["p"])
            elif t == "stat": self.stat(o["k"], o["v"])
            elif t == "max":
                with self.lock: self.maxs[o["k"]] = max(self.maxs.get(o["k"], 0), o["v"])
            elif t == "sample": self.sample(o["s"])
            elif t == "skip":
                with self.lock: self.skips.append(job.describe() + ": " + o["s"])
            elif t == "error": self.error(job.describe() + ": " + o["s"])
            elif t == "done": finished = True
        if to or rc == -9: return
        reps = sanitizer_reports(err)
        for kind, place, inrepo, text in reps:
            if inrepo: self.viol("sanitizer %s in %s" % (kind, place), "%s: %s\n%s" % (job.describe(), kind, text), job, job.args.get("sanprop"))
            elif job.flavor == "tsan": self.error("ThreadSanitizer report outside the code under test: " + text[:1500])
        if job.prefix and "valgrind" in job.prefix[0]:
            vr = valgrind_reports(err); reps = reps + vr
            for kind, place, inrepo, text in vr:
                if inrepo: self.viol("valgrind %s in %s" % (kind, place), "%s: %s" % (job.describe(), text), job, job.args.get("sanprop"))
                elif "Process terminating" not in kind: self.error("valgrind report outside the code under test (%s): %s" % (job.describe(), text[:1500]))
        if not finished and rc != 3:
            if rc is not None and rc < 0: self.viol("crash signal %d in %s" % (-rc, job.args.get("set", job.args.get("mode", job.binary))), "%s ended by signal %d\n%s" % (job.describe(), -rc, err[-2000:]), job)
            elif not any(r[2] for r in reps): self.error("%s ended with %s\n%s\n%s" % (job.describe(), rc, out[-1000:], err[-3000:]))
        with self.lock: self.jobs_done += 1
    def run_jobs(self, jobs, workers=8):
        jobs = sorted(jobs, key=lambda j: -j.weight)
        with ThreadPoolExecutor(workers) as ex: list(ex.map(self.one, jobs))

# ------------------------------------------------------------------ verdict
def known(prop):
    ks = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=\[(.*?)\]\s*(.*)", l)
            if m and m.group(1) == prop: ks.append((m.group(2), m.group(3)))
    except FileNotFoundError: pass
    return ks

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": return replay(a[1])
    if a and a[0] == "--selftest": return selftest()
    prop = a[0]; tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    import plans
    spec = plans.PLANS[prop]; r = Run(prop, tier, seed)
    try: spec["run"](r)
    except CheckError as e: r.error(str(e))
    except Exception: r.error(traceback.format_exc())
    finally: shutil.rmtree(r.scratch, ignore_errors=True)
    kn = known(prop); new = {}
    for k, v in sorted(r.viols.items()):
        hit = [x for x in kn if x[0] == k]
        if hit: print("KNOWN-FINDING: property=%s %s %s" % (prop, k, hit[0][1]))
        else: new[k] = v
    sm = r.samples; step = max(1, len(sm) // 10); sm = [s[:600] for s in sm[::step][:12]]
    ev = sum(r.stats.get(k, 0) for k in spec["evals"]); di = sum(r.stats.get(k, 0) for k in spec["distinct"])
    ok_obs = ev > 0 and di > 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evd = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
           "coverage": {"evaluations": ev, "distinct_nontrivial": di, "rule": spec["rule"], "samples": sm or ["none"],
                        "observed": {**r.stats, **{"max " + k: v for k, v in r.maxs.items()}}, "jobs": r.jobs_done, "jobs_without_verdict": r.jobs_incomplete[:20], "skipped": r.skips[:20], "build_notes": sorted(set(r.b.notes))},
           "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(r.viols)}
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f: json.dump(evd, f, indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    print("%s %s seed %d: %d evaluations, %d distinct, %d jobs, %.0f s" % (prop, tier, seed, ev, di, r.jobs_done, time.time() - t0))
    for s in sorted(set(r.skips))[:10]: print("  skipped:", s)
    for s in r.jobs_incomplete[:10]: print("  no verdict:", s)
    for (p, k), m in sorted(r.others.items())[:10]: print("  (seen on the way, decided by the check of %s: %s)" % (p, m[:300]))
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, (k, v) in enumerate(list(new.items())[:8]):
            path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, i))
            with open(path, "w") as f: json.dump({"property": prop, "key": k, "witness": v["msg"], "job": v["job"], "seed": seed, "tier": tier}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path)); print("  " + v["msg"][:1500])
        return 1
    for e in r.errors[:5]: print("ERROR:", e[:3000])
    if r.errors: return 2
    if not ok_obs: print("ERROR: nothing observed"); return 2
    return 0

def replay(path):
    o = json.load(open(path)); j = o["job"]; print("property", o["property"], "\nwitness:", o["witness"])
    if not isinstance(j, dict) or "binary" not in j: print("replay: python3 check.py %s --tier %s with VERIF_SEED=%s" % (o["property"], o["tier"], o["seed"])); return 0
    r = Run(o["property"], o["tier"], o["seed"])
    job = Job(j["binary"], j["flavor"], j["timeout"], j["prefix"], j["libs"], j["env"], 1, **j["args"])
    print("job:", job.describe())
    try: r.one(job)
    finally: shutil.rmtree(r.scratch, ignore_errors=True)
    for k, v in r.viols.items(): print("REPRODUCED", k, "\n ", v["msg"][:2000])
    for e in r.errors: print("ERROR", e)
    return 1 if r.viols else 0

def selftest():
    """setup_cmd: everything needed is there and builds"""
    for t in ("gcc", "g++", "make", "valgrind", "strace"):
        if not shutil.which(t): print("missing:", t); return 1
    b = Builder()
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(b.lib, i, f) for i in ("plain", "fast") for f in FLAVORS]
        for f in sorted(os.listdir(os.path.join(HERE, "harness"))):
            if f.endswith(".cpp") and f != "ptrun.cpp": fs.append(ex.submit(b.harness, f[:-4], "native"))
        for f in fs: f.result()
    print("ok"); return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except CheckError as e: print("ERROR:", e); sys.exit(2)
