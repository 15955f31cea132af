"""Checks of the command line tools: C15 (function), C16 (faults, crashes, races), C17 (hostile files)."""
import os, sys, json, random, subprocess, shutil, signal, threading, time, resource, tempfile
from concurrent.futures import ThreadPoolExecutor
from check import Job, CheckError, SAN_ENV, VG, sanitizer_reports, valgrind_reports, HERE

class Res:
    def __init__(self, rc, out, err, to, san): self.rc, self.out, self.err, self.to, self.san = rc, out, err, to, san
    def crashed(self): return self.rc is not None and (self.rc < 0 and self.rc not in (-signal.SIGPIPE, -signal.SIGKILL) or bool(self.san))
    def how(self): return "signal %d" % -self.rc if self.rc is not None and self.rc < 0 else "status %s" % self.rc

class Cli:
    def __init__(self, r):
        self.r = r; self.lock = threading.Lock(); self.count = {}
    def dir(self): return tempfile.mkdtemp(dir=self.r.scratch)
    def tool(self, t, mt, fast, flavor="native"): return self.r.b.tool(t, mt, fast, flavor)
    def run(self, argv, cwd, stdout=None, prefix=(), cpu=200, wall=600, env=None, pre=None, close_out=False, keep_out=True):
        """stdout: None: captured; or a file object"""
        if not self.r.left(): return Res(None, b"", "", True, [])
        e = dict(os.environ, **SAN_ENV, **(env or {}))
        def lim():
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if pre: pre()
        d = tempfile.mkdtemp(dir=self.r.scratch); op, ep = os.path.join(d, "o"), os.path.join(d, "e"); so = stdout
        if so is None: so = open(op, "wb")
        with open(ep, "wb") as se: p = subprocess.Popen([*prefix, *argv], cwd=cwd, stdout=so, stderr=se, stdin=subprocess.DEVNULL, env=e, preexec_fn=lim, start_new_session=True)
        if stdout is None: so.close()
        try: rc = p.wait(min(wall, self.r.left() + 5)); to = False
        except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); p.wait(); rc, to = None, True
        out = open(op, "rb").read() if stdout is None and keep_out else b""; err = open(ep, errors="replace").read()
        shutil.rmtree(d, ignore_errors=True); self.r.stat("tool runs", 1)
        san = sanitizer_reports(err)
        if prefix and "valgrind" in prefix[0]: san = [x for x in valgrind_reports(err) if x[2] and "fishy" not in x[3].split("\n")[0]]   # (a size that cannot be had is refused)
        if to: self.r.skips.append("a run took longer than %d s: %s" % (wall, " ".join(argv)[-200:]))
        return Res(rc, out, err, to, san)
    def helper(self, binary, libs, **args):
        """runs a harness, returns its lines"""
        exe = self.r.b.harness(binary, "native"); env = dict(os.environ)
        for l in libs: env["HX_" + l.upper()] = self.r.b.lib(l, "native")
        p = subprocess.run([exe, *["%s=%s" % (k, v) for k, v in args.items() if v is not None]], env=env, capture_output=True, text=True)
        ls = []
        for l in p.stdout.splitlines():
            try: ls.append(json.loads(l))
            except ValueError: pass
        for o in ls:
            if o.get("t") == "error": raise CheckError("%s: %s" % (binary, o["s"]))
            if o.get("t") == "skip": self.r.skips.append(o["s"])
        if not any(o.get("t") == "done" for o in ls): raise CheckError("%s %s ended with %s: %s" % (binary, args, p.returncode, p.stderr[-500:]))
        return ls
    def make(self, spec, impl, out, seed, idx=None, stub=None):
        ls = self.helper("clikey", (impl,), mode="make", set=spec, impl=impl, out=out, seed=seed, idx=idx, stub=stub)
        s = [o for o in ls if o.get("t") == "sizes"]
        return s[0] if s and os.path.exists(out) else None
    def sign_lib(self, spec, impl, key, msg, out, keyout): return self.helper("clikey", (impl,), mode="sign", set=spec, impl=impl, key=key, msg=msg, out=out, keyout=keyout)
    def parallel(self, fns, workers=8):
        def one(f):
            if self.r.left() < 3:
                with self.r.lock: self.r.jobs_incomplete.append("a group of runs (out of time)")
                return
            try: f()
            except CheckError as e: self.r.error(str(e))
            except Exception:
                import traceback; self.r.error(traceback.format_exc())
        with ThreadPoolExecutor(workers) as ex: list(ex.map(one, fns))

def wr(p, b):
    with open(p, "wb") as f: f.write(b)
def rd(p):
    with open(p, "rb") as f: return f.read()
MSGLENS = [0, 1, 31, 32, 33, 63, 64, 65, 100, 135, 136, 137, 4000, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 100003]

# ------------------------------------------------------------------------- C15
def tn(mt, t, fast): return ("xmssmt_" if mt else "xmss_") + t + ("_fast" if fast else "")
class Key15:
    """A key file, with what it must hold"""
    def __init__(self, c, d, spec, impl, s, kf): self.c, self.d, self.spec, self.impl, self.s, self.kf = c, d, spec, impl, s, kf; self.mt = spec[0] == "m"; self.fast = impl == "fast"; self.pre = rd(kf)
    @property
    def label(self): return "%s (%s)" % (self.s["name"], self.impl)
    def idx(self, b): o = self.s["pk"] + 4; return int.from_bytes(b[o:o + self.s["idx"]], "big")

def judge_keyfile(c, k):
    b, s = rd(k.kf), k.s; n = s["n"]; v = lambda key, m: c.r.viol("keypair %s %s" % (key, k.impl), "%s: %s" % (k.label, m))
    if len(b) != s["pk"] + s["sk"]: return v("size", "keypair writes %d bytes instead of public key and secret key of %d bytes" % (len(b), s["pk"] + s["sk"]))
    pk, sk = b[:s["pk"]], b[s["pk"]:]
    if pk[:4] != sk[:4] or int.from_bytes(pk[:4], "big") != int(k.spec[2:]): v("oid", "the key file holds the OIDs %s and %s" % (pk[:4].hex(), sk[:4].hex()))
    if any(sk[4:4 + s["idx"]]): v("index", "a new key has index %s" % sk[4:4 + s["idx"]].hex())
    o = 4 + s["idx"]
    if sk[o + 2 * n:o + 4 * n] != pk[4:]: v("parts", "root and public seed in the secret key are not those of the public key")

def do_sign(c, k, rng, m, name, trailing=b""):
    """one run of the sign tool, compared with the library"""
    r = c.r; d, s = k.d, k.s; mf = os.path.join(d, name + ".m"); wr(mf, m); before = rd(k.kf); i0 = k.idx(before)
    lk, lo = os.path.join(d, name + ".lk"), os.path.join(d, name + ".lo"); c.sign_lib(k.spec, k.impl, k.kf, mf, lo, lk)
    q = c.run([c.tool("sign", k.mt, k.fast), os.path.basename(k.kf), name + ".m"], d); after = rd(k.kf); want, wantk = rd(lo), rd(lk); os.unlink(lk); os.unlink(lo)
    if q.to: return None
    v = lambda key, t: r.viol("sign %s %s" % (key, k.impl), "%s at index %d, message of %d bytes: %s" % (k.label, i0, len(m), t))
    if q.crashed(): v("crash", "the sign tool ends with " + q.how() + "\n" + q.err[-800:]); return None
    if rd(mf) != m: v("message file", "the message file was changed")
    if after[:s["pk"] + 4] != before[:s["pk"] + 4]: v("public part", "the public key or the OID in the key file changed")
    if len(after) != len(before) or after[s["pk"] + s["sk"]:] != before[s["pk"] + s["sk"]:]: v("file tail", "what follows the secret key in the key file changed")
    if not want:
        r.stat("refusals compared", 1)
        if q.rc == 0: v("status", "signing fails in the library, but the tool exits with 0")
        if q.out: v("output", "signing fails, but the tool writes %d bytes" % len(q.out))
        if after != wantk: v("key", "the key file is not updated as by the library after a refusal")
        return None
    r.stat("signatures compared", 1)
    if q.rc: v("status", "the library signs, but the tool ends with %s: %s" % (q.how(), q.err[-300:]))
    elif q.out != want: v("output", "the tool wrote %d bytes that are not the %d bytes of signature and message" % (len(q.out), len(want)) + (" (first difference at %d)" % next((i for i in range(min(len(want), len(q.out))) if want[i] != q.out[i]), -1)))
    if after != wantk: v("key", "the key file does not hold the secret key as the library leaves it")
    sm = os.path.join(d, name + ".sm"); wr(sm, q.out); return sm

def do_open(c, k, kf, smf, good, what, impl=None):
    fast = k.fast if impl is None else impl == "fast"; q = c.run([c.tool("open", k.mt, fast), kf, smf], k.d)
    if q.to: return
    c.r.stat("verifications", 1)
    v = lambda key, t: c.r.viol("open %s %s" % (key, "fast" if fast else "plain"), "%s, %s: %s" % (k.label, what, t))
    if q.crashed(): v("crash", "the open tool ends with " + q.how() + "\n" + q.err[-800:])
    elif good and q.rc: v("valid", "a valid signature is not accepted (%s)" % q.how())
    elif not good and q.rc == 0: v("invalid", "accepted (exit status 0)")

def scenario15(c, spec, impl, seed, n, gen=True, idx=None, stub=None):
    rng = random.Random(seed); d = c.dir(); kf = os.path.join(d, "key"); r = c.r
    s = c.make(spec, impl, kf, seed, idx, stub)
    if not s: return
    if gen:
        k = Key15(c, d, spec, impl, s, kf)
        with open(kf, "wb") as f: q = c.run([c.tool("keypair", k.mt, k.fast), s["name"]], d, stdout=f)
        if q.to: return
        if q.rc: r.viol("keypair status " + impl, "%s: the keypair tool ends with %s" % (k.label, q.how())); return
        r.stat("keys generated by the tool", 1); judge_keyfile(c, k)
        with r.lock: other = c.count.setdefault(("key", s["n"]), set()); dup = rd(kf)[s["pk"] + 4 + s["idx"]:][:2 * s["n"]] in other; other.add(rd(kf)[s["pk"] + 4 + s["idx"]:][:2 * s["n"]])
        if dup: r.viol("keypair same " + impl, "%s: the keypair tool produced the same secret key twice" % k.label)
    k = Key15(c, d, spec, impl, s, kf); trailing = rng.randrange(3) == 0
    if trailing:
        with open(kf, "ab") as f: f.write(rng.randbytes(1 + rng.randrange(9000)))
    pkf = os.path.join(d, "pub"); wr(pkf, rd(kf)[:s["pk"]]); sms = []
    for i in range(n):
        m = rng.randbytes(rng.choice(MSGLENS) if rng.randrange(4) else rng.randrange(300)); sm = do_sign(c, k, rng, m, "s%d" % i)
        r.stat("distinct signing runs", 1)
        if sm: sms.append((sm, m))
        if stub: continue   # (no valid tree below)
        if sm: do_open(c, k, rng.choice(("key", "pub")), os.path.basename(sm), True, "signature %d of %d" % (i, n), rng.choice(("plain", "fast")))
        if sms and rng.randrange(2):
            b = bytearray(rd(rng.choice(sms)[0])); w = rng.randrange(6); what = "?"
            if w == 0: p = rng.randrange(len(b)); b[p] ^= 1 << rng.randrange(8); what = "bit of byte %d flipped" % p
            elif w == 1: t = 1 + rng.randrange(min(len(b), 400)); del b[len(b) - t:]; what = "%d bytes cut off" % t
            elif w == 2: b += rng.randbytes(1 + rng.randrange(50)); what = "extended"
            elif w == 3: p = rng.randrange(s["idx"], s["sig"]); b[p] ^= 0x80; what = "bit of signature byte %d flipped" % p
            elif w == 4: b = b[s["sig"]:]; what = "message only"
            else:
                if len(b) == s["sig"]: return
                p = rng.randrange(s["sig"], len(b)); b[p] ^= 1; what = "bit of message byte %d flipped" % (p - s["sig"])
            wr(os.path.join(d, "bad"), bytes(b)); do_open(c, k, "pub", "bad", False, what)
        if sms and rng.randrange(3) == 0:
            b = bytearray(rd(pkf)); p = 4 + rng.randrange(len(b) - 4); b[p] ^= 1 << rng.randrange(8); wr(os.path.join(d, "badpub"), bytes(b)); do_open(c, k, "badpub", os.path.basename(sms[-1][0]), False, "byte %d of the public key changed" % p)
        if rng.randrange(3) == 0:   # a failing run in between
            b4 = rd(kf); T = c.tool("sign", k.mt, k.fast); q = c.run([T, *rng.choice((["key", "nomessage"], ["nokey", "s0.m"], ["key"], ["key", "s0.m", "x"], [], ["key", d + "/."]))], d)
            if not q.to:
                r.stat("failing runs", 1)
                if q.rc == 0: r.viol("failing run status " + impl, "%s: the sign tool exits with 0 without key, message or arguments" % k.label)
                if q.out: r.viol("failing run output " + impl, "%s: a failing run of the sign tool writes %d bytes" % (k.label, len(q.out)))
                if rd(kf) != b4: r.viol("failing run key " + impl, "%s: a failing run of the sign tool changes the key file" % k.label)
    r.sample("%s: %d runs of the sign tool from index %d, messages of %s bytes, trailing data %s" % (k.label, n, k.idx(k.pre), [len(m) for _, m in sms][:8], trailing)); shutil.rmtree(d, ignore_errors=True)

def opens15(c, specs, seed):
    """signatures built by the reference for every registered set, given to the open tools"""
    rng = random.Random(seed); d = c.dir()
    for spec in specs:
        c.helper("verify", ("plain", "fast"), mode="dump", set=spec, seed=seed, dir=d)
        pk, sm = rd(os.path.join(d, spec + ".pk")), rd(os.path.join(d, spec + ".sm"))
        class K: pass
        k = K(); k.c, k.d, k.spec, k.mt, k.fast = c, d, spec, spec[0] == "m", False; k.label = spec
        for impl in ("plain", "fast"):
            do_open(c, k, spec + ".pk", spec + ".sm", True, "built signature", impl); c.r.stat("distinct signing runs", 1)
            for w in range(3):
                b, p = bytearray(sm), bytearray(pk)
                if w == 0: q = rng.randrange(len(b)); b[q] ^= 1 << rng.randrange(8)
                elif w == 1: q = rng.randrange(4, len(p)); p[q] ^= 1 << rng.randrange(8)
                else: b = b[:len(b) - 1 - rng.randrange(min(len(b) - 1, 5000))]
                wr(os.path.join(d, "b.sm"), bytes(b)); wr(os.path.join(d, "b.pk"), bytes(p)); do_open(c, k, "b.pk", "b.sm", False, "altered (%d)" % w, impl)
    shutil.rmtree(d, ignore_errors=True)

def huge15(c, spec, impl, seed):
    """a message of more than 4 GiB, all zeros (sparse files)"""
    d = c.dir(); kf = os.path.join(d, "key"); s = c.make(spec, impl, kf, seed)
    if not s: return
    k = Key15(c, d, spec, impl, s, kf); L = (1 << 32) + 777
    with open(os.path.join(d, "m"), "wb") as f: f.truncate(L)
    rfd, wfd = os.pipe(); head, total, tail, nz = b"", 0, b"", False
    wfile = os.fdopen(wfd, "wb"); res = {}
    def go(): res["q"] = c.run([c.tool("sign", k.mt, k.fast), "key", "m"], d, stdout=wfile, cpu=600); wfile.close()
    t = threading.Thread(target=go); t.start()
    with os.fdopen(rfd, "rb", buffering=0) as f:
        while True:
            x = f.read(1 << 20)
            if not x: break
            if len(head) < s["sig"]: y = x[s["sig"] - len(head):]; head += x[:s["sig"] - len(head)]
            else: y = x
            if y.count(0) != len(y): nz = True
            total += len(x)
    t.join(); q = res["q"]
    if q.to or "Could not read keypair or message" in q.err: c.r.skips.append("no memory for a message of 4 GiB"); shutil.rmtree(d); return
    v = lambda key, m: c.r.viol("huge %s %s" % (key, impl), "%s, message of %d bytes: %s" % (k.label, L, m)); c.r.stat("signing of messages beyond 4 GiB", 1)
    if q.rc or total != s["sig"] + L or nz: v("sign", "the sign tool ends with %s and writes %d bytes instead of %d" % (q.how(), total, s["sig"] + L))
    else:
        with open(os.path.join(d, "sm"), "wb") as f: f.write(head); f.truncate(s["sig"] + L)
        do_open(c, k, "key", "sm", True, "message of %d bytes" % L)
        with open(os.path.join(d, "sm"), "r+b") as f: f.seek(s["sig"] + L - 1); f.write(b"\1")
        do_open(c, k, "key", "sm", False, "last byte of a message of %d bytes changed" % L)
    shutil.rmtree(d, ignore_errors=True)

def run15(r):
    from plans import FAMS, FAM_X10, MT, SHAPES, S256, m, hd, allsets
    c = Cli(r); rng = random.Random(r.seed); th = r.tier == "thorough"; fns = []
    sc = lambda *a, **k: fns.append(lambda: scenario15(c, *a, **k)); i = r.seed * 1000
    if th: 
        for impl in ("plain", "fast"): fns.append(lambda impl=impl: huge15(c, m(S256, 20, 4), impl, r.seed))
        fns.append(lambda: huge15(c, "x:1", "fast", r.seed))
    else: fns.append(lambda: huge15(c, m(S256, 20, 4), rng.choice(("plain", "fast")), r.seed))
    pick = FAMS if th else [S256, FAMS[1 + r.seed % 6]]
    for f in FAMS:
        for sh in ((20, 4), (40, 8), (60, 12)):
            for impl in ("plain", "fast"):
                i += 1; sc(m(f, *sh), impl, i, (8 if f == S256 else 3) * (4 if th else 1) if impl == "fast" else 2 if f != S256 else 4)
        for impl in ("plain", "fast"):
            if f in pick: i += 1; sc("x:%d" % FAM_X10[f], impl, i, 12 if impl == "fast" else 3)
            if f in pick and impl == "fast": i += 1; sc(m(f, 20, 2), impl, i, 6); i += 1; sc(m(f, 60, 6), impl, i, 3)
    for f in pick:   # ends of life, carries, and exhausted keys, with the plain tool anywhere
        for sh in ((20, 4), (40, 8), (60, 12)):
            cap = 1 << sh[0]
            for J in (cap - 2, 254, 65534, (1 << 16) + 300): i += 1; sc(m(f, *sh), "plain", i, 4 if J == cap - 2 else 3, gen=False, idx=J)
            i += 1; sc(m(f, *sh), "fast", i, 2, gen=False, idx=cap if sh[0] % 8 else cap - 1)
        if f == S256 or th: i += 1; sc("x:%d" % FAM_X10[f], "plain", i, 4, gen=False, idx=1022); sc("x:%d" % FAM_X10[f], "fast", i, 2, gen=False, idx=1024); sc("x:%d" % FAM_X10[f], "fast", i, 2, gen=False, idx=1 << 31)
        for spec in ["x:%d" % (FAM_X10[f] + 1), "x:%d" % (FAM_X10[f] + 2), m(f, 40, 2), m(f, 60, 3), m(f, 40, 4), m(f, 20, 2)]:
            if hd(spec)[2] == 20 and f != S256 and not th: continue
            i += 1; sc(spec, "fast", i, 5, gen=False, stub=1)
    al = allsets(); fns += [lambda j=j: opens15(c, al[j::12], r.seed + j) for j in range(12)]
    # names and arguments of the keypair tool
    def names():
        d = c.dir()
        for mt in (0, 1):
            for fast in (0, 1):
                T = c.tool("keypair", mt, fast)
                for a in ([], [""], ["XMSS-SHA2_10_256", "x"], ["XMSSMT-SHA2_20/4_256" if not mt else "XMSS-SHA2_10_256"], ["XMSS-SHA2_10_25"], ["xmss-sha2_10_256"], ["A" * 3000], ["%s%n"]):
                    q = c.run([T, *a], d); r.stat("failing runs", 1)
                    if q.to: continue
                    if q.crashed() or q.rc == 0 or q.out: r.viol("keypair arguments %s" % tn(mt, "keypair", fast), "%s %r ends with %s and writes %d bytes" % (tn(mt, "keypair", fast), a, q.how(), len(q.out)))
    fns.append(names); c.parallel(fns)

# ------------------------------------------------------------------------- C16
FILEOPS = {"open", "openat", "creat", "read", "write", "pread64", "pwrite64", "readv", "writev", "lseek", "close", "fsync", "fdatasync", "ftruncate", "flock", "fcntl", "fstat", "newfstatat", "rename", "renameat", "renameat2", "unlink", "unlinkat", "truncate", "link", "dup", "dup2"}
ERR = {"read": (5, 4), "write": (28, 5, 4), "openat": (24, 13), "flock": (37, 4), "lseek": (29,), "close": (5, 28), "fstat": (5,)}
class F16:
    """A key to be used with faults; each trial works on a copy"""
    def __init__(self, c, spec, impl, seed):
        self.c, self.spec, self.impl, self.seed = c, spec, impl, seed; self.d = c.dir(); self.mt = spec[0] == "m"; self.fast = impl == "fast"; self.kf = os.path.join(self.d, "key")
        self.s = c.make(spec, impl, self.kf, seed); self.tool = c.tool("sign", self.mt, self.fast); rng = random.Random(seed); self.msgs = [rng.randbytes(n) for n in (5000, 0, 33, 20000)]; self.label = "%s (%s)" % (self.s["name"] if self.s else spec, impl)
        self.pt = pt(c)
    def fresh(self):
        d = self.c.dir(); shutil.copy(self.kf, os.path.join(d, "key"))
        for i, m in enumerate(self.msgs): wr(os.path.join(d, "m%d" % i), m)
        return d
    def keyidx(self, d):
        b = rd(os.path.join(d, "key")); o = self.s["pk"] + 4; return int.from_bytes(b[o:o + self.s["idx"]], "big") if len(b) >= o + self.s["idx"] else None
    def traced(self, d, mi, out, stdout=None, **opts):
        """(log events, end) of the sign tool under ptrun"""
        log = out + ".log"; o = ["%s=%s" % (k, v) for k, v in opts.items()]
        argv = [self.pt, "log=" + log, "start=key", "key=key,%d,%d" % (self.s["pk"] + 4, self.s["idx"]), *o, "--", self.tool, "key", "m%d" % mi]
        f = stdout or open(out, "wb"); q = self.c.run(argv, d, stdout=f)
        if not stdout: f.close()
        ev, end = [], None
        try:
            for l in open(log):
                try: e = json.loads(l)
                except ValueError: continue
                if e.get("noptrace"): raise NoTrace()
                if "end" in e: end = (e["end"], e["v"])
                else: ev.append(e)
        except FileNotFoundError: pass
        self.c.r.stat("system calls observed", len(ev)); return ev, end
    def plain_run(self, d, mi, out):
        with open(out, "wb") as f: q = self.c.run([self.tool, "key", "m%d" % mi], d, stdout=f)
        return q
class NoTrace(Exception): pass
def pt(c):
    src = os.path.join(HERE, "harness", "ptrun.cpp"); out = os.path.join(c.r.b.dir, "ptrun")
    return c.r.b.once(("ptrun",), out, lambda tmp: c.r.b.run(["g++", "-O1", "-w", src, "-o", tmp], "ptrun"))

class Ledger:
    """Offline checker over what one copy of a key released: (index, what) of every output, in order"""
    def __init__(self, f, what): self.f, self.what, self.seen = f, what, {}
    def viol(self, key, m): self.f.c.r.viol("%s %s" % (key, self.f.impl), "%s, %s: %s" % (self.f.label, self.what, m))
    def watch(self, ev):   # online: when a byte leaves, the key file holds a later index
        rel = None
        for e in ev:
            if e.get("fd") == 1 and e["e"] in ("write", "writev", "pwrite64", "sendfile", "splice", "copy_file_range") and (e.get("ret") or 0) > 0:
                self.f.c.r.stat("writes of signature bytes observed", 1); rel = e
                if e["idx"] is None or e["idx"] <= self.i0: self.viol("released before update", "signature bytes were written to standard output while the key file held index %s (system call %d, %s); the signature has index %d" % (e["idx"], e["n"], e["e"], self.i0)); return
    def output(self, path, who, rc, mi, key_after):
        b = rd(path); s = self.f.s
        if len(b) >= s["idx"]:
            i = int.from_bytes(b[:s["idx"]], "big"); self.f.c.r.stat("released signatures", 1)
            if i in self.seen: self.viol("index twice", "index %d was released by %s and again by %s" % (i, self.seen[i][0], who))
            self.seen.setdefault(i, (who, b[:s["sig"]]))
            if key_after is not None and key_after <= i: self.viol("key behind", "after %s released index %d, the key file holds index %d" % (who, i, key_after))
        if rc == 0 and mi is not None and (len(b) != s["sig"] + len(self.f.msgs[mi]) or b[s["sig"]:] != self.f.msgs[mi]): self.viol("success incomplete", "%s exits with 0, but wrote %d bytes instead of %d%s" % (who, len(b), s["sig"] + len(self.f.msgs[mi]), "" if len(b) != s["sig"] + len(self.f.msgs[mi]) else " (another message)"))
        return b

def trial(f, what, mi=0, after=(1, 2), stdout=None, complete=True, **opts):
    """one faulty run on a fresh copy, followed by others"""
    d = f.fresh(); L = Ledger(f, what); L.i0 = f.keyidx(d); out = os.path.join(d, "o0")
    ev, end = f.traced(d, mi, out, stdout=stdout, **opts); rc = end[1] if end and end[0] == "exit" else -1
    if not opts.get("closed"): L.watch(ev)
    if end and end[0] == "signal" and end[1] not in (9, 13, 25): L.viol("crash", "ends by signal %d" % end[1])
    f.c.r.stat("distinct faults", 1)
    if not stdout: L.output(out, "the disturbed run", rc, mi if complete else None, f.keyidx(d))
    elif rc == 0 and stdout.name == "/dev/full": L.viol("success incomplete", "exits with 0, though nothing could be written")
    sz = os.path.getsize(os.path.join(d, "key"))
    if rc == 0 and (sz != f.s["pk"] + f.s["sk"]): L.viol("success incomplete", "exits with 0, but the key file has %d bytes" % sz)
    if rc == 0 and f.want is not None and rd(os.path.join(d, "key")) != f.want[mi] : L.viol("success incomplete", "exits with 0, but the key file is not the updated one")
    for j, a in enumerate(after):
        o = os.path.join(d, "o%d" % (j + 1)); q = f.plain_run(d, a, o); L.output(o, "run %d after it" % (j + 1), q.rc, a, f.keyidx(d))
    shutil.rmtree(d, ignore_errors=True); return ev, end

def prepare(f):
    """the key file as it must be after a complete run (deterministic), per message"""
    f.want = {}; d = f.fresh()
    for i in range(len(f.msgs)): f.c.sign_lib(f.spec, f.impl, os.path.join(d, "key"), os.path.join(d, "m%d" % i), os.path.join(d, "x"), os.path.join(d, "kx")); f.want[i] = rd(os.path.join(d, "kx"))
    shutil.rmtree(d)

def parallel16(f, rng, nproc, msg=None):
    """many runs at once on one key file"""
    d = f.fresh(); L = Ledger(f, "%d runs at once" % nproc); L.i0 = i0 = f.keyidx(d); ps = []
    for i in range(nproc):
        o = open(os.path.join(d, "p%d" % i), "wb"); mi = rng.randrange(4) if msg is None else msg
        argv = [f.pt, "log=p%d.log" % i, "start=key", "key=key,%d,%d" % (f.s["pk"] + 4, f.s["idx"]), "delay=%d" % (1 + rng.getrandbits(60)), "--", f.tool, "key", "m%d" % mi] if rng.randrange(4) else [f.tool, "key", "m%d" % mi]
        ps.append((subprocess.Popen(argv, cwd=d, stdout=o, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL), mi, argv[0] == f.pt)); o.close()
    ok = 0
    for i, (p, mi, tr) in enumerate(ps):
        try: p.wait(300)
        except subprocess.TimeoutExpired: p.kill(); p.wait(); f.c.r.skips.append("a parallel run did not end in 300 s")
    for i, (p, mi, tr) in enumerate(ps):
        rc = p.returncode
        if tr:
            end = [json.loads(l) for l in open(os.path.join(d, "p%d.log" % i)) if '"end"' in l]; rc = end[0]["v"] if end and end[0]["end"] == "exit" else -1
        b = L.output(os.path.join(d, "p%d" % i), "process %d" % i, rc, mi, f.keyidx(d)); ok += rc == 0
    fin = f.keyidx(d); f.c.r.stat("parallel processes", nproc); f.c.r.stat("parallel signatures", ok); f.c.r.stat("distinct faults", 1)
    if fin is None or fin < i0 + ok: L.viol("key behind", "%d signatures were made from index %d on, but the key file then holds index %s" % (ok, i0, fin))
    if ok: f.c.r.sample("%s: %d of %d simultaneous runs signed, indices %s" % (f.label, ok, nproc, sorted(L.seen)[:20]))
    shutil.rmtree(d, ignore_errors=True)

def interleave(f, k, kill=False):
    """one run stopped at its k-th system call while another runs"""
    d = f.fresh(); L = Ledger(f, "a run stopped at system call %d while another runs" % k); L.i0 = f.keyidx(d)
    def start(i, mi, **o):
        fo = open(os.path.join(d, "i%d" % i), "wb"); p = subprocess.Popen([f.pt, "log=i%d.log" % i, "start=key", *["%s=%s" % x for x in o.items()], "--", f.tool, "key", "m%d" % mi], cwd=d, stdout=fo, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL); fo.close(); return p
    a = start(0, 0, pause="%d,P" % k); t0 = time.time(); pz = os.path.join(d, "P.paused")
    while not os.path.exists(pz) and a.poll() is None and time.time() - t0 < 60: time.sleep(0.002)
    b = start(1, 2)
    try: b.wait(0.3); f.c.r.stat("interleavings where the second run ended first", 1)
    except subprocess.TimeoutExpired: f.c.r.stat("interleavings where the second run had to wait", 1)
    wr(os.path.join(d, "P.go"), b""); f.c.r.stat("distinct faults", 1)
    for p in (a, b):
        try: p.wait(120)
        except subprocess.TimeoutExpired: p.kill(); p.wait(); f.c.r.skips.append("interleaved runs did not end in 120 s")
    for i, mi in ((0, 0), (1, 2)):
        try: end = [json.loads(l) for l in open(os.path.join(d, "i%d.log" % i)) if '"end"' in l]
        except FileNotFoundError: end = []
        L.output(os.path.join(d, "i%d" % i), "process %d" % i, end[0]["v"] if end and end[0]["end"] == "exit" else -1, mi, f.keyidx(d))
    o = os.path.join(d, "i9"); q = f.plain_run(d, 1, o); L.output(o, "a run after them", q.rc, 1, f.keyidx(d))
    shutil.rmtree(d, ignore_errors=True)

def run16(r):
    from plans import m, S256, FAMS
    c = Cli(r); rng = random.Random(r.seed); th = r.tier == "thorough"; traced = True
    specs = [(m(S256, 20, 4), "fast"), (m(S256, 20, 4), "plain"), ("x:1", "fast"), ("x:1", "plain")] + ([(m(S256, 60, 12), "fast"), (m((2, 24), 20, 4), "fast"), (m((0, 64), 40, 8), "fast"), (m((2, 32), 40, 8), "plain")] if th else [(m(S256, 60, 12), "fast")])
    fs = [None] * len(specs)
    def mk(i):
        f = F16(c, *specs[i], r.seed * 50 + i); prepare(f); fs[i] = f
    c.parallel([lambda i=i: mk(i) for i in range(len(specs))])
    fs = [f for f in fs if f and f.s]; fns = []
    base = {}
    def baseline(f):
        for mi in range(4):
            ev, end = trial(f, "an undisturbed run with message %d" % mi, mi=mi)
            if end != ("exit", 0): r.viol("undisturbed " + f.impl, "%s: an undisturbed run ends with %s" % (f.label, end))
            base[f, mi] = ev
    try: baseline(fs[0])
    except NoTrace: traced = False; r.skips.append("no ptrace here: faults at system calls not tried")
    if traced:
        c.parallel([lambda f=f: baseline(f) for f in fs[1:]])
        for f in fs:
            slow = f.spec == "x:1" and f.impl == "plain"
            for mi in ((0, 1) if not slow or th else (0,)):
                ev = base.get((f, mi), []); N = max([e["n"] for e in ev] or [0]); own = [e for e in ev if not (e["path"].startswith("/"))]
                first = {}   # files that are not the tool's own (configuration of libcrypto) are left alone
                fds = set(); skipn = set()
                for e in ev:
                    if e["e"] == "openat" and e["path"].startswith("/"): fds.add(e["ret"]); skipn.add(e["n"])
                    elif e["fd"] in fds and e["e"] in FILEOPS: skipn.add(e["n"]); fds -= {e["fd"]} if e["e"] == "close" else set()
                for e in ev:
                    n = e["n"]
                    if n not in skipn or rng.randrange(6) == 0:
                        if not slow or rng.randrange(3) == 0 or th:
                            fns.append(lambda f=f, n=n, mi=mi, e=e: trial(f, "killed before system call %d (%s on %d)" % (n, e["e"], e["fd"] if e["fd"] < 99 else -1), mi=mi, kill_entry=n)); fns.append(lambda f=f, n=n, mi=mi, e=e: trial(f, "killed after system call %d (%s)" % (n, e["e"]), mi=mi, kill_exit=n))
                    if e["e"] in FILEOPS and n not in skipn:
                        for er in ERR.get(e["e"], (5,)):
                            for st in (0, 1):
                                if (slow or mi) and rng.randrange(3) and not th: continue
                                fns.append(lambda f=f, n=n, mi=mi, e=e, er=er, st=st: trial(f, "system call %d (%s on %d) failing with error %d%s" % (n, e["e"], e["fd"] if e["fd"] < 99 else -1, er, " and all further ones" if st else ""), mi=mi, err="%d,%d,%d" % (n, er, st)))
                    if e["e"] in ("read", "write") and n not in skipn:
                        for k in ((1, 3, 100, 4095) if th else (1, rng.choice((3, 70, 100, 2000, 4095)))):
                            for st in (0, 1):
                                if e.get("cnt", 0) > k and not (st and k < 50) and not (slow and rng.randrange(3)): fns.append(lambda f=f, n=n, mi=mi, e=e, k=k, st=st: trial(f, "system call %d (%s) transferring only %d bytes%s" % (n, e["e"], k, " and all further ones" if st else ""), mi=mi, short="%d,%d,%d" % (n, k, st)))
                if mi == 0:
                    for n in range(1, N + 1):
                        if n in skipn and n % 5: continue
                        if slow and n % 3 != r.seed % 3 and not th: continue
                        fns.append(lambda f=f, n=n: interleave(f, n))
            # where the output goes
            def outputs(f=f):
                with open("/dev/full", "wb") as o: trial(f, "standard output full", stdout=o)
                with open("/dev/full", "wb") as o: trial(f, "standard output full, empty message", mi=1, stdout=o)
                for ign in (False, True):
                    rf, wf = os.pipe(); os.close(rf); o = os.fdopen(wf, "wb"); trial(f, "standard output a pipe without reader", stdout=o, **({"pipeign": 1} if ign else {})); o.close()
                for mask in (1, 2, 4, 3, 6, 7): trial(f, "standard streams closed (%d)" % mask, closed=mask, complete=False)
                for lim in (1, 50, 100, 4096, 5000, 8192, f.s["sk"], f.s["sig"], f.s["sig"] + 1):
                    for mi in (0, 1): trial(f, "file size limited to %d" % lim, mi=mi, fsize=lim)
            fns.append(outputs)
    for f in fs:
        for q in range(3 if not th else 40): fns.append(lambda f=f, q=q: parallel16(f, random.Random(r.seed * 99 + q), 12 if not (f.spec == "x:1" and f.impl == "plain") else 8))
    rng.shuffle(fns); c.parallel(fns)

# ------------------------------------------------------------------------- C17
MTF = {0x01: 32, 0x09: 64, 0x11: 32, 0x19: 64, 0x21: 24, 0x29: 32, 0x31: 24}
def oidinfo(mt, oid):
    """n, index bytes, total height, tree height, signature bytes of a registered set (None: unknown)"""
    if mt:
        base = next((b for b in MTF if b <= oid < b + 8), None)
        if base is None: return None
        n = MTF[base]; h, d = ((20, 2), (20, 4), (40, 2), (40, 4), (40, 8), (60, 3), (60, 6), (60, 12))[oid - base]; ib = (h + 7) // 8
    else:
        if not 1 <= oid <= 21: return None
        n = (32, 64, 32, 64, 24, 32, 24)[(oid - 1) // 3]; h, d, ib = (10, 16, 20)[(oid - 1) % 3], 1, 4
    ln = {24: 51, 32: 67, 64: 131}[n]
    return n, ib, h, h // d, ib + n + d * ln * n + h * n

class Tool17:
    """One scheme and implementation: honest files, and runs of its tools on others"""
    def __init__(self, c, spec, impl, flavor, seed):
        self.c, self.spec, self.impl, self.flavor = c, spec, impl, flavor; self.mt = spec[0] == "m"; self.fast = impl == "fast"; self.d = c.dir(); kf = os.path.join(self.d, "K"); self.rng = random.Random(seed)
        self.s = c.make(spec, impl, kf, seed); self.key = rd(kf); self.msg = self.rng.randbytes(100); wr(os.path.join(self.d, "M"), self.msg); c.sign_lib(spec, impl, kf, os.path.join(self.d, "M"), os.path.join(self.d, "S"), os.path.join(self.d, "K2")); self.sm = rd(os.path.join(self.d, "S")); self.key2 = rd(os.path.join(self.d, "K2")); self.pk = self.key[:self.s["pk"]]
        for t in ("keypair", "sign", "open"): c.tool(t, self.mt, self.fast, flavor)
        self.label = "%s (%s, %s)" % (self.s["name"], impl, flavor)
    def go(self, t, args, d, **k):
        vg = self.flavor == "vg"; q = self.c.run([self.c.tool(t, self.mt, self.fast, self.flavor), *args], d, prefix=VG if vg else (), cpu=300, wall=500, **k)
        q.cmd = "%s %s" % (tn(self.mt, t, self.fast), " ".join(repr(a)[:60] for a in args)); self.c.r.stat("hostile runs", 1); return q
    def bad(self, what, q, key, t): self.c.r.viol("%s %s %s" % (key, q.cmd.split()[0], ""), "%s, %s: %s: %s\n%s" % (self.label, what, q.cmd, t, q.err[-1200:]))
    def common(self, what, q):
        if q.to: return False
        if q.rc == -signal.SIGXCPU: self.bad(what, q, "does not end", "used 300 s of CPU time without ending"); return False
        if q.crashed(): self.bad(what, q, "crash" if q.rc < 0 else "report " + (q.san[0][0] if q.san else ""), "ends with %s %s" % (q.how(), "; ".join("%s in %s" % (x[0], x[1]) for x in q.san[:3]))); return False
        return True
    # what must be refused: no key of the scheme in it
    def info(self, k):
        if len(k) < 4: return "short", None
        a = oidinfo(self.mt, int.from_bytes(k[:4], "big"))
        if a is None: return "oid", None
        p = 4 + 2 * a[0]
        if len(k) < p + 4: return "short", None
        b = oidinfo(self.mt, int.from_bytes(k[p:p + 4], "big"))
        if b is None: return "oid", None
        need = p + 4 + b[1] + 4 * b[0]
        if k[p:p + 4] == self.key[self.s["pk"]:][:4]: need = p + self.s["sk"]
        return ("short" if len(k) < need else "key"), (p + 4, b)
    def sign(self, what, key, msg, kname="key", mname="msg", d=None, **k):
        """key, msg: bytes, or None if there is no such file, or a function that makes the file"""
        c = self.c; d = d or c.dir(); kp, mp = os.path.join(d, kname), os.path.join(d, mname)
        for p, x in ((kp, key), (mp, msg)):
            if callable(x): x(p)
            elif x is not None: wr(p, x)
        kind, inf = self.info(key) if isinstance(key, bytes) else ("none", None)
        if kind == "key" and not self.fast and inf[1][3] > (10 if self.flavor == "asan" else 5): shutil.rmtree(d, ignore_errors=True); return   # (takes hours)
        if isinstance(msg, bytes) and (kname == mname): msg = key
        q = self.go("sign", [kname, mname], d, **k); self.judge_sign(what, q, kp, key, kind, inf, msg); shutil.rmtree(d, ignore_errors=True); return q
    def judge_sign(self, what, q, kp, key, kind, inf, msg):
        if not self.common(what, q): return
        after = rd(kp) if isinstance(key, bytes) and os.path.isfile(kp) else None
        usable = kind == "key" and isinstance(msg, bytes)
        if q.rc == 0 and not usable: return self.bad(what, q, "status", "exits with 0")
        if q.rc:
            self.c.r.stat("refusals", 1)
            if q.out: self.bad(what, q, "output", "fails, but writes %d bytes to standard output" % len(q.out))
            if after is not None and after != key:
                o, b = inf if inf else (0, (0, 0, 0)); used = kind == "key" and int.from_bytes(key[o:o + b[1]], "big") >= (1 << b[2]) - (b[2] % 8 == 0 and self.mt)
                if not used: self.bad(what, q, "key changed", "fails, but changes the key file (first at byte %d of %d)" % (next((i for i in range(min(len(key), len(after))) if key[i] != after[i]), -1), len(key)))
            return
        self.c.r.stat("odd files that are formally keys", 1); o, b = inf; i = int.from_bytes(key[o:o + b[1]], "big")
        if len(q.out) != b[4] + len(msg) or q.out[b[4]:] != msg or int.from_bytes(q.out[:b[1]], "big") != i: self.bad(what, q, "output", "exits with 0, but writes %d bytes instead of a signature with index %d and a message of %d bytes" % (len(q.out), i, len(msg)))
        n = int.from_bytes(after[o:o + b[1]], "big")
        if n <= i or len(after) != len(key) or after[:o] != key[:o]: self.bad(what, q, "key", "exits with 0, but the key file then holds index %d after %d, or changed elsewhere" % (n, i))
    def open(self, what, pk, sm, kname="key", mname="sm", d=None, **k):
        c = self.c; d = d or c.dir()
        for n, x in ((kname, pk), (mname, sm)):
            p = os.path.join(d, n)
            if callable(x): x(p)
            elif x is not None: wr(p, x)
        q = self.go("open", [kname, mname], d, **k); good = isinstance(pk, bytes) and isinstance(sm, bytes) and pk[:len(self.pk)] == self.pk and sm == self.sm and kname != mname
        if self.common(what, q):
            if q.rc == 0 and not good: self.bad(what, q, "accepted", "reports success")
            if q.rc and good: self.bad(what, q, "not accepted", "fails")
            self.c.r.stat("refusals", 1 if q.rc else 0)
        shutil.rmtree(d, ignore_errors=True); return q

def unpriv(): os.setgroups([]); os.setgid(65534); os.setuid(65534)
def fifo(data):
    def mk(p):
        os.mkfifo(p)
        def w():
            for _ in range(2000):   # until a reader comes
                try: fd = os.open(p, os.O_WRONLY | os.O_NONBLOCK); break
                except OSError: time.sleep(0.01)
            else: return
            try: os.write(fd, data)
            except OSError: pass
            time.sleep(0.3); os.close(fd)
        threading.Thread(target=w, daemon=True).start()
    return mk
def sparse(n):
    def mk(p):
        with open(p, "wb") as f: f.truncate(n)
    return mk
def statefields(n, d, th, o):
    """offsets of the traversal state of a fast key"""
    f = []
    for i in range(2 * d - 1):
        o += (th + 1) * n; f.append((o, 4)); o += 4; f += [(o + j, 1) for j in range(th + 1)]; o += th + 1 + th * n + th // 2 * n
        for j in range(th): f += [(o, 1), (o + 1, 4), (o + 5, 1), (o + 6, 1)]; o += 7 + n
        f.append((o, 4)); o += 4
    return f, o

def cases17(t, rng, count, foreign):
    """hostile cases, as (function, what)"""
    c, K, M, SM, PK = t.c, t.key, t.msg, t.sm, t.pk; P, n, ib = t.s["pk"], t.s["n"], t.s["idx"]; out = []; S = lambda what, *a, **k: out.append(lambda: t.sign(what, *a, **k)); O = lambda what, *a, **k: out.append(lambda: t.open(what, *a, **k))
    # truncation at and around every boundary, and anywhere
    bounds = [0, 4, P, P + 4, P + 4 + ib] + [P + 4 + ib + q * n for q in range(1, 5)] + [len(K)]
    if t.fast: bounds += [f[0] for f in statefields(n, 1 if not t.mt else hdof(t.spec)[1], hdof(t.spec)[2], P + 4 + ib + 4 * n)[0]][::7]
    cuts = sorted({x for b in bounds for x in (b - 1, b, b + 1) if 0 <= x <= len(K)} | {rng.randrange(len(K)) for _ in range(8)})
    if count < 100: cuts = sorted(set(rng.sample(cuts, min(len(cuts), 6))) | {0, 3, 4, P + 3, P + 4, len(K) - 1})
    for x in cuts: S("key file cut to %d of %d bytes" % (x, len(K)), K[:x], M)
    sb = [0, ib, ib + n] + [rng.randrange(t.s["sig"]) for _ in range(6)] + [t.s["sig"] - 1, t.s["sig"], len(SM) - 1]
    for x in sorted(set(sb)): O("signed message cut to %d of %d bytes" % (x, len(SM)), PK, SM[:x])
    for x in sorted({0, 1, 3, 4, 5, P - 1, 4 + n}): O("public key cut to %d of %d bytes" % (x, P), PK[:x], SM)
    for x in (0, 4, P): O("both files cut", PK[:x], SM[:x])
    # identifiers
    oids = [0, 1, 2, 3, 21, 22, 56, 57, 64, 255, 256, 1 << 16, 1 << 24, 1 << 31, (1 << 32) - 1, rng.getrandbits(32)] + [rng.randrange(1, 60) for _ in range(4)]
    for x in oids if count >= 100 else rng.sample(oids, 5):
        b = x.to_bytes(4, "big"); S("OID of the public key %d" % x, b + K[4:], M); S("OID of the secret key %d" % x, K[:P] + b + K[P + 4:], M); S("both OIDs %d" % x, b + K[4:P] + b + K[P + 4:], M)
        if x == int.from_bytes(PK[:4], "big"): continue
        O("OID %d" % x, b + PK[4:], SM); O("OID %d, short input" % x, b + PK[4:], SM[:50])
        i = oidinfo(t.mt, x)
        if i: S("OIDs %d, padded" % x, b + K[4:P] + rng.randbytes(max(0, 2 * i[0] - P + 4)) + b + K[P + 4:] + bytes(200000), M); O("OID %d, padded" % x, b + PK[4:] + bytes(200), SM + rng.randbytes(max(0, i[4] - len(SM)) + 5))
    # index
    for x in (0, 1, (1 << hdof(t.spec)[0]) - 2, (1 << hdof(t.spec)[0]) - 1, 1 << hdof(t.spec)[0], (1 << 8 * ib) - 1, rng.getrandbits(8 * ib), 0x80 << 8 * (ib - 1)): S("index %d" % x, K[:P + 4] + (x % (1 << 8 * ib)).to_bytes(ib, "big") + K[P + 4 + ib:], M)
    # contents
    for x in range(max(6, count // 10)):
        kind = rng.randrange(5); b = bytearray(K)
        if kind == 0: b = bytearray(rng.randbytes(rng.choice((1, 4, 40, 137, 3000, len(K)))))
        elif kind == 1: p = rng.randrange(P + 4, len(b)); b[p:] = rng.randbytes(len(b) - p)
        elif kind == 2:
            for _ in range(1 + rng.randrange(20)): b[rng.randrange(8 if rng.randrange(4) else len(b))] ^= 1 << rng.randrange(8)
        elif kind == 3: p = rng.randrange(P + 4 + ib, len(b)); b[p:p + 4000] = rng.choice((b"\xff", b"\0", b"\x7f")) * len(b[p:p + 4000])
        else: p, q = sorted((rng.randrange(len(b)), rng.randrange(len(b)))); b = b[:p] + b[q:]
        S("damaged key (%d)" % kind, bytes(b), M)
        b = bytearray(SM); kind = rng.randrange(4)
        if kind == 0: b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif kind == 1: b = bytearray(rng.randbytes(rng.choice((0, 1, 4, 100, len(SM), len(SM) + 10))))
        elif kind == 2: b = bytearray(rng.choice((b"\xff", b"\0")) * rng.choice((len(SM), 3, 35, t.s["sig"])))
        else: p, q = sorted((rng.randrange(len(b)), rng.randrange(len(b)))); b = b[:p] + b[q + 1:]
        O("damaged signed message (%d)" % kind, PK, bytes(b)); O("random key", PK[:4] + rng.randbytes(P - 4), SM)
    if t.fast:
        h, d, th = hdof(t.spec); f, end = statefields(n, d, th, P + 4 + ib + 4 * n); wl = {24: 51, 32: 67, 64: 131}[n] * n
        if end + (d - 1) * wl == len(K):
            for x in range(count):
                base = rng.choice((K, t.key2)); b = bytearray(base)
                for _ in range(rng.choice((1, 1, 2, 3))):
                    o, l = rng.choice(f) if rng.randrange(3) else rng.choice([y for y in f if y[1] == 4]); v = rng.choice((0, 1, 2, th, th + 1, th + 2, 31, 127, 128, 255, 1 << th, (1 << th) - 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, rng.getrandbits(32))) % (1 << 8 * l); b[o:o + l] = v.to_bytes(l, "big")
                if rng.randrange(3) == 0: i = (rng.randrange(1 << (h - th)) << th | ((1 << th) - 1)) % (1 << 8 * ib); b[P + 4:P + 4 + ib] = i.to_bytes(ib, "big")
                S("damaged traversal state", bytes(b), M)
    # files that are something else
    for w, x in foreign: S("as key: " + w, x, M); O("as key: " + w, x, SM); O("as signed message: " + w, PK, x)
    S("message as key", M, M); S("signed message as key", SM, M); O("key as signed message", PK, K); O("signed message as key", SM, SM); O("swapped", SM, PK); S("key as message", K, K, mname="key")
    # kinds of files and arguments
    di = os.mkdir; lo = lambda p: os.symlink(os.path.basename(p), p); no = None
    for w, x in (("missing", no), ("a directory", di), ("a link to itself", lo), ("a pipe", fifo(K[:50])), ("a device", lambda p: os.symlink("/dev/null", p)), ("zeros without end", lambda p: os.symlink("/dev/zero", p)), ("a text without length", lambda p: os.symlink("/proc/version", p))):
        S("key file: " + w, x, M); O("key file: " + w, x, SM); O("signed message: " + w, PK, x)
        if w not in ("a device", "zeros without end", "a text without length"): S("message file: " + w, K, x)
    for w in (1 << 42, (1 << 43) - 100):
        def tr(t=t, w=w):
            try: sparse(w)(os.path.join(t.d, "T")); os.unlink(os.path.join(t.d, "T"))
            except OSError: return
            t.sign("message file of %d bytes" % w, t.key, sparse(w)); t.open("signed message of %d bytes" % w, t.pk, sparse(w))
        out.append(tr)
    # without the right to read or write
    def rights(mode, dirmode=0o755):
        def run():
            for which in (0, 1):
                for op in ("sign", "open"):
                    d = c.dir(); os.chmod(d, dirmode); wr(os.path.join(d, "key"), K); wr(os.path.join(d, "msg"), M if op == "sign" else SM); os.chmod(os.path.join(d, ("key", "msg")[which]), mode); os.chown(os.path.join(d, ("key", "msg")[which]), 65534, 65534); os.chmod(os.path.join(d, ("msg", "key")[which]), 0o666)
                    fd = os.open("/dev/null", os.O_RDONLY); os.close(fd)
                    try: q = t.go(op, ["key", "msg"], d, pre=unpriv, prefixed=True) if False else t.go(op, ["key", "msg"], d, pre=unpriv)
                    except Exception: c.r.skips.append("cannot become another user"); shutil.rmtree(d, ignore_errors=True); return
                    if not t.common("file mode %o" % mode, q): continue
                    if (op == "sign" or mode == 0) and not (mode == 0o444 and which == 1) and q.rc == 0: t.bad("file mode %o of the %s" % (mode, ("key", "message")[which]), q, "status", "exits with 0")
                    if q.rc and op == "sign" and q.out: t.bad("file mode %o" % mode, q, "output", "fails, but writes %d bytes" % len(q.out))
                    if q.rc and rd(os.path.join(d, "key")) != K: t.bad("file mode %o" % mode, q, "key changed", "fails, but changes the key file")
                    shutil.rmtree(d, ignore_errors=True)
        return run
    if t.flavor == "native": out += [rights(0), rights(0o444)]
    if t.flavor == "native":   # little memory
        for lim in (20 << 20, 60 << 20, 100 << 20):
            def mem(lim=lim):
                big = bytes(40 << 20); l = lambda: resource.setrlimit(resource.RLIMIT_AS, (lim, lim)); d = c.dir(); wr(os.path.join(d, "key"), K); wr(os.path.join(d, "msg"), big); q = t.go("sign", ["key", "msg"], d, pre=l)
                if q.rc == 127 or (not q.out and "shared librar" in q.err): return
                t.judge_sign("address space of %d bytes" % lim, q, os.path.join(d, "key"), K, *t.info(K), big); q = t.go("open", ["key", "msg"], d, pre=l)
                if t.common("address space of %d bytes" % lim, q) and q.rc == 0: t.bad("little memory", q, "accepted", "reports success")
                shutil.rmtree(d, ignore_errors=True)
            out.append(mem)
    def args(tool, a):
        def run():
            d = c.dir(); wr(os.path.join(d, "key"), K); wr(os.path.join(d, "msg"), M); q = t.go(tool, a, d)
            if t.common("arguments", q):
                if q.rc == 0: t.bad("arguments", q, "status", "exits with 0")
                if q.out and tool != "open": t.bad("arguments", q, "output", "writes %d bytes" % len(q.out))
                if rd(os.path.join(d, "key")) != K: t.bad("arguments", q, "key changed", "changes the key file")
            shutil.rmtree(d, ignore_errors=True)
        out.append(run)
    for tool in ("sign", "open"):
        for a in ([], ["key"], ["key", "msg", "x"], ["", ""], ["key", ""], ["", "msg"], ["key", "x" * 5000], ["x" * 100000, "msg"], ["--help"], ["key/", "msg"], ["key", "msg/"], ["-", "-"]): args(tool, a)
    nm = t.s["name"]; names = [[], [""], [nm, nm], [nm + "x"], [nm[:-1]], [nm.lower()], [" " + nm], [nm + "\n"], ["%s%s%s%n"], ["A" * 100000], [nm.replace("XMSS", "XMSSMT") if not t.mt else nm.replace("XMSSMT", "XMSS")], ["\xff\xfe"], ["1"], ["-h"], [nm.replace("_", "-")], ["XMSS"], ["XMSSMT-"], ["XMSS-SHA2"]]
    for a in names: args("keypair", a)
    return out

def hdof(spec):
    from plans import hd
    h, d, th, ib = hd(spec); return h, d, th

def run17(r):
    from plans import m, S256, FAMS, FAM_X10, c as cc
    c = Cli(r); rng = random.Random(r.seed); th = r.tier == "thorough"; ts = []
    specs = []
    for impl in ("plain", "fast"):
        for fl in ("asan", "vg", "native"):
            for mt in (0, 1):
                fam = rng.choice(FAMS) if fl == "asan" else S256
                specs.append((m(fam, 20, 4) if mt else "x:%d" % FAM_X10[S256], impl, fl))
    specs += [(m(f, 20, 4), "fast", "asan") for f in (FAMS if th else rng.sample(FAMS, 1))] + [(m(S256, 40, 8), "fast", "asan"), (m(S256, 60, 12), "plain", "asan")]
    def mk(i): ts.append((i, Tool17(c, *specs[i], r.seed * 77 + i)))
    c.parallel([lambda i=i: mk(i) for i in range(len(specs))]); ts.sort(key=lambda x: x[0]); fns = []
    foreign = [("a program", rd("/bin/true")[:20000]), ("a text", b"hello world\n" * 50)] + [("key of " + t.label, t.key) for _, t in ts if t.flavor == "native"] + [("signed message of " + t.label, t.sm) for _, t in ts if t.flavor == "native"]
    for i, t in ts:
        cnt = {"asan": 90, "native": 30, "vg": 25}[t.flavor] * (8 if th else 1); fo = foreign if t.flavor != "vg" else foreign[:4]
        cs = cases17(t, random.Random(r.seed * 1000 + i), cnt, fo)
        if t.flavor == "vg" and not th: rng.shuffle(cs); cs = cs[:70]
        def counted(f):
            def g(): f(); r.stat("distinct hostile cases", 1)
            return g
        fns += [counted(f) for f in cs]; r.sample("%s: %d hostile cases" % (t.label, len(cs)))
    rng.shuffle(fns); c.parallel(fns)
    S = ";".join(cc(f, 16, *s) for f, s in zip([S256] * 5 + FAMS, ((4, 2, 0), (6, 3, 0), (5, 1, 1), (6, 2, 1), (5, 1, 3), (4, 1, 0), (8, 2, 2), (6, 2, 1), (12, 3, 2), (4, 2, 0), (3, 1, 1), (10, 2, 3)))); a = dict(impl="fast", libs=("fast",), sanprop="C17", timeout=400 if not th else 3000)
    js = [Job("corrupt", "asan", set=S + ";m:2;m:5;x:1", count=1500 if not th else 30000, seed=r.seed * 10 + i, walk=70, **a) for i in range(2 if not th else 8)] + [Job("corrupt", set=S + ";m:2;m:5;m:8;x:1;x:2", count=6000 if not th else 200000, seed=r.seed * 10 + 3 + i, walk=300, steps=40, **a) for i in range(2 if not th else 8)] + [Job("corrupt", "vg", prefix=VG, set=S, count=60 if not th else 2000, seed=r.seed * 10 + 6, **a), Job("corrupt", "vg", prefix=VG, set=cc(S256, 16, 4, 2, 0), real=1, count=12 if not th else 300, steps=6, seed=r.seed * 10 + 7, **a)]
    js += [Job("corrupt", "asan", impl="plain", libs=("plain",), sanprop="C17", set=";".join(cc(f, 16, *s) for f, s in zip(FAMS, ((4, 2, 0), (3, 1, 0), (4, 2, 0), (4, 1, 0), (6, 3, 0), (4, 2, 0), (4, 2, 0)))), count=100 if not th else 2000, steps=4, seed=r.seed * 10 + 8)]
    r.run_jobs(js)

# ------------------------------------------------------------------------- C24
def snapshot(d):
    o = {}
    for base, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(base, n); s = os.lstat(p); o[os.path.relpath(p, d)] = (oct(s.st_mode), s.st_uid, s.st_gid, s.st_nlink, None if os.path.isdir(p) else (s.st_mtime_ns, os.readlink(p).encode() if os.path.islink(p) else rd(p)))
    return o
def tools24(r):
    """Which files do runs of the tools change, and do they leave processes behind?"""
    from plans import FAMS, FAM_X10, S256, m
    c = Cli(r); rng = random.Random(r.seed * 3 + 1); th = r.tier == "thorough"; seen = set()
    def go(spec, impl, seed):
        rg = random.Random(seed); top = c.dir(); kf0 = os.path.join(top, "k0"); s = c.make(spec, impl, kf0, seed)
        if s is None: return
        key0 = rd(kf0); mt = spec[0] == "m"; fast = impl == "fast"; d = os.path.join(top, "w"); lab = "%s (%s)" % (s["name"], impl); os.unlink(kf0)
        for x in ("", "home", "tmp", "sub"): os.makedirs(os.path.join(d, x), exist_ok=True)
        msg = rg.randbytes(rg.choice(MSGLENS)); wr(os.path.join(d, "m"), msg); wr(os.path.join(d, "pk"), key0[:s["pk"]])
        for x in ("key.tmp", "key~", "key.lock", ".key", "sub/key", "tmp/key", "out", "sm", "short"): wr(os.path.join(d, x), b"other" * rg.randrange(9))
        full = os.path.join(d, "key"); env = {"HOME": os.path.join(d, "home"), "TMPDIR": os.path.join(d, "tmp"), "PWD": d}
        def run(t, args, what, allowed=(), **kw):
            if not r.left(): return None
            before = snapshot(d); q = None; p = {}
            q = c.run([c.tool(t, mt, fast), *args], d, env=env, **kw)
            if q.to: return q
            after = snapshot(d); r.stat("tool runs whose traces were looked at", 1); seen.add((t, what, impl, spec)); cmd = "%s %s (%s)" % (tn(mt, t, fast), " ".join(args), what)
            for n in sorted(set(before) | set(after)):
                if n not in after: r.viol("file gone %s" % t, "%s: %s removes the file %s" % (lab, cmd, n))
                elif n not in before: r.viol("file left %s" % t, "%s: %s leaves a file %s of %d bytes" % (lab, cmd, n, len(after[n][4][1]) if after[n][4] else 0))
                elif before[n][:4] != after[n][:4]: r.viol("file mode %s" % t, "%s: %s changes the rights, owner or links of %s from %s to %s" % (lab, cmd, n, before[n][:4], after[n][:4]))
                elif before[n] != after[n] and n not in allowed: r.viol("file changed %s" % t, "%s: %s changes the file %s" % (lab, cmd, n))
            return q
        for mode in (0o600, 0o640, 0o644):
            wr(full, key0); os.chmod(full, mode)
            for i in range(2): q = run("sign", ["key", "m"], "signing with mode %o" % mode, ("key",))
        if q and q.rc == 0:
            wr(os.path.join(d, "sm"), q.out)
            for kn in ("key", "pk"): run("open", [kn, "sm"], "a good signature")
            b = bytearray(q.out); b[rg.randrange(len(b))] ^= 1; wr(os.path.join(d, "sm"), b); run("open", ["pk", "sm"], "a changed signature"); wr(os.path.join(d, "sm"), b[:rg.randrange(len(b))]); run("open", ["pk", "sm"], "a cut signature")
        run("sign", ["sub/../key", os.path.join(d, "m")], "other paths", ("key",)); run("sign", ["key", "none"], "no message file", ("key",)); run("sign", ["none", "m"], "no key file"); run("sign", ["key"], "one argument"); run("sign", ["short", "m"], "no key", ("short",)); run("open", ["none", "sm"], "no key file"); run("open", ["pk"], "one argument"); run("open", ["short", "sm"], "no key")
        with open("/dev/full", "wb") as f: run("sign", ["key", "m"], "output cannot be written", ("key",), stdout=f)
        used = bytearray(key0); o = s["pk"] + 4; used[o:o + s["idx"]] = b"\xff" * s["idx"]; wr(full, used); run("sign", ["key", "m"], "a used up key", ("key",))
        bad = bytearray(key0); bad[s["pk"]] ^= 0x40; wr(full, bad); run("sign", ["key", "m"], "an unknown identifier", ("key",)); wr(full, key0[:len(key0) - 1 - rg.randrange(len(key0) - 1)]); run("sign", ["key", "m"], "a cut key", ("key",))
        os.unlink(full); os.symlink("sub/real", full); wr(os.path.join(d, "sub/real"), key0); run("sign", ["key", "m"], "a key reached by a symbolic link", ("sub/real",))
        run("keypair", [], "no argument"); run("keypair", ["XMSS-NONE"], "an unknown name"); run("keypair", ["key"], "a file's name")
        if spec in (m(S256, 20, 4), m(FAMS[3], 60, 12)) or spec == "m:2": run("keypair", [s["name"]], "key generation")
        shutil.rmtree(top, ignore_errors=True)
    fns = []; sets = [m(f, 20, 4) for f in FAMS] + [m(f, 60, 12) for f in FAMS] + ["x:%d" % FAM_X10[S256]]
    if not th: sets = [m(S256, 20, 4), "x:1"] + rng.sample(sets, 4)
    for i, sp in enumerate(dict.fromkeys(sets)):
        for impl in ("plain", "fast"):
            if sp[0] == "x" and impl == "plain" and not th: continue
            fns.append(lambda sp=sp, impl=impl, i=i: go(sp, impl, r.seed * 100 + i))
    c.parallel(fns); r.stat("distinct kinds of tool runs", len(seen))
