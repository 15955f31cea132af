"""C22: what builds for another data model, by another compiler or with other options make of the same operations."""
import os, subprocess, random, signal, shutil, time
from check import CheckError, HERE, REPO
import cli, plans
H = os.path.join(HERE, "harness")
LIB32 = ["/lib32/libc.so.6", "/lib32/libgcc_s.so.1"]
M32 = ["-m32", "-fno-pic", "-fno-pie"]
BASE = ("gcc -O2", "gcc", ["-O2"])
VARIANTS = [   # (name, compiler, options)
    ("gcc -O0", "gcc", ["-O0"]), ("gcc -O3, no assertions", "gcc", ["-O3", "-DNDEBUG"]), ("gcc -Os", "gcc", ["-Os"]),
    ("gcc -O3 for this processor", "gcc", ["-O3", "-march=native", "-funroll-loops"]),
    ("gcc -O2 -funsigned-char", "gcc", ["-O2", "-funsigned-char"]),
    ("gcc hardened", "gcc", ["-O2", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=3", "-fstack-protector-all", "-fstack-clash-protection", "-fcf-protection"]),
    ("gcc -O1, patterns in variables", "gcc", ["-O1", "-ftrivial-auto-var-init=pattern"]),
    ("gcc -O2, zeros in variables", "gcc", ["-O2", "-ftrivial-auto-var-init=zero"]),
    ("clang -O0", "clang", ["-O0"]), ("clang -O2", "clang", ["-O2"]), ("clang -O3", "clang", ["-O3", "-fno-vectorize"]),
    ("clang -O1, patterns in variables", "clang", ["-O1", "-ftrivial-auto-var-init=pattern"]),
    ("gcc -O2 32 bit", "gcc", ["-O2", *M32]), ("gcc -O0 32 bit", "gcc", ["-O0", *M32]), ("gcc -O3 32 bit", "gcc", ["-O3", *M32]),
    ("gcc -O1 32 bit, undefined behaviour traps", "gcc", ["-O1", *M32, "-fsanitize=undefined", "-fsanitize-undefined-trap-on-error"]),
    ("clang -O2 32 bit", "clang", ["-O2", *M32]),
]
def b32(opts): return "-m32" in opts
class Port:
    def __init__(self, r): self.r, self.b = r, r.b; self.c = cli.Cli(r); self.missing = set()
    def compile(self, cc, opts, srcs, out, defs=(), wraps=(), harness=True):
        b = self.b; d = out + ".d%d" % os.getpid(); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); objs = []
        m = M32 + ["-I", os.path.join(H, "inc32"), "-isystem", "/usr/include/x86_64-linux-gnu"] if b32(opts) else []
        try:
            for i, s in enumerate(srcs):
                o = os.path.join(d, "%d.o" % i); objs.append(o); own = s.startswith(H)
                b.run([cc if not own else "gcc", *(opts if not own else ["-O2"]), *m, *defs, "-w", "-I", REPO, "-c", s, "-o", o], s)
            w = ["-Wl,--wrap=" + x for x in wraps]
            if b32(opts): b.run(["gcc", *M32, *[o for o in opts if o.startswith("-O")], "-no-pie", "-nostartfiles", "-nodefaultlibs", *objs, *w, "-o", out, *LIB32, "-Wl,-dynamic-linker,/lib32/ld-linux.so.2"], out)
            else: b.run([cc, *opts, *objs, *w, "-o", out, "-lcrypto"], out)
        finally: shutil.rmtree(d, ignore_errors=True)
    def program(self, kind, v, impl, mt=False):
        """the scenario ("port") or a tool, as built for variant v; None if it cannot be built like that"""
        name, cc, opts = v; b = self.b; fast = impl == "fast"
        if not shutil.which(cc) or b32(opts) and not os.path.exists(LIB32[0]): self.miss(name, "no %s or 32-bit C library" % cc); return None
        out = os.path.join(b.dir, "port-%s-%s-%s-%d" % (kind, impl, "".join(x if x.isalnum() else "_" for x in name), mt)); src = [os.path.join(REPO, s) for s in (b.fast if fast else b.plain)]
        own = [os.path.join(H, "portsha.c")] + ([os.path.join(H, "portstart.c")] if b32(opts) else [])
        if kind == "port": src, defs, wraps = src + [os.path.join(H, "port.c")] + own, (), ("randombytes",)
        else: src, defs, wraps = src + [os.path.join(REPO, "ui", kind + ".c")] + own, (["-DXMSSMT"] if mt else []), ()
        try: return b.once(("p", kind, impl, name, mt), out, lambda tmp: self.compile(cc, opts, src, tmp, defs, wraps))
        except CheckError as e:
            if v is BASE: raise
            self.miss(name, "cannot be built here: " + str(e)[-300:]); return None
    def miss(self, name, why):
        with self.r.lock:
            if name not in self.missing: self.missing.add(name); self.r.skips.append("%s: %s" % (name, why))
    def scenario(self, v, impl, part, parts):
        exe = self.program("port", v, impl)
        if not exe: return None
        q = self.c.run([exe, str(self.r.seed), "deep" if self.r.tier == "thorough" else "quick", str(part), str(parts)], self.r.scratch, cpu=400 if self.r.tier == "quick" else 3000, wall=600 if self.r.tier == "quick" else 3600, env={"MALLOC_PERTURB_": "165" if v is not BASE else "90"})
        ls = q.out.decode(errors="replace").split("\n")
        if q.to or q.rc == -9 or q.rc == -signal.SIGXCPU or any(l == "nomem" for l in ls): self.r.jobs_incomplete.append("%s, %s, part %d" % (v[0], impl, part)); return None
        if "norand" in ls: self.r.skips.append("the source of random bytes cannot be replaced"); return None
        return q, ls
    def run(self):
        r = self.r; parts = 4; base = {}; todo = [(im, p) for im in ("plain", "fast") for p in range(parts)]
        def first(im, p):
            x = self.scenario(BASE, im, p, parts)
            if not x: return
            if x[0].rc: self.crash(BASE, im, x); return
            base[im, p] = x[1]; r.stat("results of the reference build", len(x[1]) - 2)
        def crash(v, im, x): r.viol("crash %s %s" % (v[0], im), "%s, %s: the scenario ends with %s after: %s" % (v[0], im, x[0].how(), x[1][-2:]))
        self.crash = crash
        self.c.parallel([lambda im=im, p=p: first(im, p) for im, p in todo])
        def one(v, im, p):
            if (im, p) not in base: return
            x = self.scenario(v, im, p, parts)
            if not x: return
            q, ls = x; bl = base[im, p]; n = 0
            for i, l in enumerate(bl):
                if i >= len(ls) or i == len(ls) - 1 and q.rc: break
                if l != ls[i]: r.viol("result %s %s %s" % (v[0], im, l.split(" ")[0]), "built with %s the %s implementation gives\n    %s\n  with %s\n    %s" % (v[0], im, ls[i][:400], BASE[0], l[:400])); break
                n += 1
            if q.rc: crash(v, im, x)
            r.stat("results compared", n)
            with r.lock: self.seen.add((v[0], im))
            if p == 1: r.sample("%s, %s: %d results, e.g. %s" % (v[0], im, n, ls[len(ls) // 2][:250]))
        self.seen = set()
        jobs = sorted([(v, im, p) for v in VARIANTS for im, p in todo], key=lambda j: ("-O0" not in j[0][0], j[1] == "fast"))
        self.c.parallel([lambda j=j: one(*j) for j in jobs] + self.tools())
        r.stat("builds compared", len(self.seen)); r.jobs_done += len(jobs)
    # ---------------------------------------------------------- tools
    def tools(self):
        r = self.r; rng = random.Random(r.seed * 17 + 3); c = self.c; S = plans; jobs = []
        vs = [v for v in VARIANTS if v[0] in ("gcc -O0", "gcc -O2 -funsigned-char", "gcc hardened", "clang -O2", "gcc -O2 32 bit", "gcc -O1 32 bit, undefined behaviour traps", "clang -O2 32 bit", "gcc -O1, patterns in variables")]
        fams = rng.sample(list(S.MT), 3)
        specs = [("x:%d" % S.FAM_X10[S.S256], 3), (S.m(fams[0], 20, 4), 7), (S.m(fams[1], 60, 12), (1 << 32) + 5), (S.m(fams[2], 40, 8), 0xFFFFFFFE)]
        def job(spec, idx, impl, seed):
            rg = random.Random(seed); d = c.dir(); kf = os.path.join(d, "key"); s = c.make(spec, impl, kf, seed, idx, None); mt = spec[0] == "m"
            if not s: return
            fast = impl == "fast"; k0 = cli.rd(kf); hist = []
            msgs = [rg.randbytes(n) for n in ((0, 1, rg.randrange(300), 5000 + rg.randrange(100), 40000) if spec[0] == "m" or fast or r.tier == "thorough" else (rg.randrange(300), 5000))]
            def session(v):
                dd = c.dir(); out = []
                sign, opn = self.program("sign", v, impl, mt), self.program("open", v, impl, mt)
                if not sign or not opn: return None
                cli.wr(os.path.join(dd, "key"), k0 + b"trailing"); sms = []
                for i, m in enumerate(msgs):
                    cli.wr(os.path.join(dd, "m"), m); q = c.run([sign, "key", "m"], dd)
                    if q.to or q.rc in (-9, -signal.SIGXCPU): return None
                    out.append(("sign %d (%d bytes)" % (i, len(m)), q.rc, q.out, cli.rd(os.path.join(dd, "key")))); sms.append(q.out)
                for i, sm in enumerate(sms + [sms[1][:-1], sms[0][:s["sig"] - 1], b"", sms[-1][:200] + b"x" + sms[-1][201:], sms[-1] + b"\0"]):
                    cli.wr(os.path.join(dd, "sm"), sm); q = c.run([opn, "key", "sm"], dd)
                    if q.to or q.rc in (-9, -signal.SIGXCPU): return None
                    out.append(("open %d (%d bytes)" % (i, len(sm)), q.rc, q.out, cli.rd(os.path.join(dd, "key"))))
                for a in ([], ["key"], ["nokey", "m"]):
                    for t, T in (("sign", sign), ("open", opn)): q = c.run([T, *a], dd); out.append(("%s with arguments %s" % (t, a), q.rc, q.out, cli.rd(os.path.join(dd, "key"))))
                shutil.rmtree(dd, ignore_errors=True); return out
            want = session(BASE)
            if want is None: return
            for v in vs:
                got = session(v)
                if got is None: continue
                for w, g in zip(want, got):
                    r.stat("tool runs compared", 1)
                    if w == g: continue
                    what = "exit status %s instead of %s" % (g[1], w[1]) if w[1] != g[1] else "other output (%d and %d bytes)" % (len(g[2]), len(w[2])) if w[2] != g[2] else "another key file"
                    r.viol("tool %s %s %s" % (v[0], w[0].split()[0], impl), "%s (%s), tools built with %s, %s from index %d: %s than with %s" % (s["name"], impl, v[0], w[0], idx, what, BASE[0])); break
            shutil.rmtree(d, ignore_errors=True)
        for i, (spec, idx) in enumerate(specs):
            for im in ("plain", "fast"):
                if im == "plain" and S.hd(spec)[2] > 6 and S.hd(spec)[1] > 8 and r.tier == "quick" and i % 2: continue
                jobs.append(lambda spec=spec, idx=idx, im=im, i=i: job(spec, idx, im, r.seed * 1000 + i))
        return jobs
def run22(r): Port(r).run()
