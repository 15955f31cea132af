"""What each property's check runs. PLANS[id]["run"](r) adds to r.viols, r.stats, ..."""
import random
from check import Job, VG
FAMS = [(0, 24), (0, 32), (0, 64), (1, 32), (2, 24), (2, 32), (2, 64)]     # (hash function, n)
X10 = [0x01, 0x04, 0x07, 0x0a, 0x0d, 0x10, 0x13]
X16 = [x + 1 for x in X10]
X20 = [x + 2 for x in X10]
MT = {  # first OID of each family's block of eight: 20/2 20/4 40/2 40/4 40/8 60/3 60/6 60/12
    (0, 32): 0x01, (0, 64): 0x09, (1, 32): 0x11, (2, 64): 0x19, (0, 24): 0x21, (2, 32): 0x29, (2, 24): 0x31}
FAM_X10 = dict(zip([(0, 32), (0, 64), (1, 32), (2, 64), (0, 24), (2, 32), (2, 24)], X10))
SHAPES = [(20, 2), (20, 4), (40, 2), (40, 4), (40, 8), (60, 3), (60, 6), (60, 12)]
def m(fam, h, d): return "m:%d" % (MT[fam] + SHAPES.index((h, d)))
def c(fam, w, h, d, k=0): return "c:%d,%d,%d,%d,%d,%d" % (fam[0], fam[1], w, h, d, k)
S256 = (0, 32)
def hd(spec):   # (h, d, th, index bytes)
    if spec[0] == "c": _, n, w, h, d, k = map(int, spec[2:].split(","))
    elif spec[0] == "x": h, d = (10, 16, 20)[(int(spec[2:]) - 1) % 3], 1
    else: h, d = SHAPES[(int(spec[2:]) - 1) % 8]
    return h, d, h // d, 4 if d == 1 else (h + 7) // 8

# tree shapes (h, d, k): every h/d that is a power of two leaves per tree, traversal trade-offs included
def shapes(th_max, h_max, d_max, ks=True):
    out = []
    for th in range(2, th_max + 1):
        for d in range(1, d_max + 1):
            if th * d > h_max: continue
            for k in range(0, th):
                if (th - k) % 2 == 0 and k < th and (ks or k == 0): out.append((th * d, d, k))
                elif k == 0: out.append((th * d, d, 0))
    return sorted(set(out))

def carry_jumps(spec, rng, n=6):
    """indices around carries of the index bytes, tree changes, the end, and random ones"""
    h, d, th, ib = hd(spec); cap = 1 << h; js = set()
    for b in range(8, h, 8): js.add((1 << b) - 2)
    for l in range(1, d): js.add((1 << (l * th)) - 2); js.add(cap - (1 << (l * th)) - 2)
    for b in (31, 32, 33): 
        if b < h: js.add((1 << b) - 2)
    js.add(cap - 5); js.add(cap // 2 - 2)
    for _ in range(n): js.add(rng.randrange(cap)); js.add((rng.randrange(cap) >> 8 << 8 | 0xFE) % cap)
    return sorted(j for j in js if 0 <= j < cap)
def jl(js, run): return ",".join("%d:%d" % (j, run) for j in js)

def life(prop, impl, spec, seed, **kw): return Job("life", impl=impl, set=spec, seed=seed, prop=prop, libs=("plain", "fast") if impl == "both" else (impl,), **kw)

def jobs_families(prop, seed, impl="both", hs=((4, 2, 0), (5, 1, 1)), ws=(4, 16, 256), **kw):
    return [life(prop, impl, c(f, w, h, d, k), seed * 31 + i, weight=3 if w == 256 else 1, **kw) for i, (f, w, (h, d, k)) in enumerate((f, w, s) for f in FAMS for w in ws for s in (hs if w < 256 else ((3, 1, 1), (4, 2, 0))))]
def jobs_shapes(prop, seed, impl, th_max, h_max, d_max, fam=S256, **kw):
    js = []
    for i, (h, d, k) in enumerate(shapes(th_max, h_max, d_max)):
        js.append(life(prop, impl, c(fam, 16, h, d, k), seed * 37 + i, weight=1 << max(0, h - 4), **kw))
    return js
def jobs_long(prop, seed, thorough, which, impl="fast", **kw):
    """whole (or long parts of) lives of registered sets, with stand-ins for leaves and one-time signatures"""
    js = []
    for i, (spec, cnt) in enumerate(which): js.append(life(prop, impl, spec, seed * 41 + i, stub=1, mprof=0, count=cnt, weight=1000, timeout=400 if not thorough else 3000, **kw))
    return js

def run_life(build):
    def run(r):
        jobs = build(r.seed, r.tier == "thorough", random.Random(r.seed))
        r.run_jobs(jobs)
    return run

ASSUME = ["gcc/clang, the linker's --wrap, libcrypto's SHA-2 and the reference model in ref/refxmss.hpp are right",
          "jobs marked stub/memo replace the leaf computation of the code by stand-ins or by a store of its own earlier results"]
PLANS = {}
def plan(id, run, evals, distinct, rule, level="exploration", assumptions=None):
    PLANS[id] = {"run": run, "evals": evals, "distinct": distinct, "rule": rule, "level": level, "assumptions": assumptions or ASSUME}

LONG = [("m:1", "all"), ("m:2", "all"), ("x:3", "all"), ("m:5", 1048576 + 40)]

# ------------------------------------------------------------------ C03
def b03(seed, th, rng):
    js = jobs_families("C03", seed, ws=(16,), ref=0, verify=0, ops=1)
    for i, s in enumerate([(8, 2, 0), (8, 4, 0), (9, 3, 0), (10, 2, 0), (10, 5, 0), (8, 1, 0), (9, 1, 1), (12, 6, 0)]):
        js.append(life("C03", "fast", c(S256, 16, *s), seed + i, ref=0, verify=0, ops=1, stub=1))
        js.append(life("C03", "plain", c(S256, 16, *s), seed + i, ref=0, verify=0, ops=1, stub=1))
    for i, s in enumerate([(16, 4, 0), (16, 2, 0), (18, 6, 0), (17, 1, 0)]): js.append(life("C03", "fast", c(S256, 16, *s), seed + i, ref=0, verify=0, ops=1, stub=1, mprof=0, weight=200))
    js += jobs_long("C03", seed, th, LONG[:3] if not th else LONG, ref=0, verify=0)
    for f in FAMS:   # every registered set anywhere in its life
        for s in ["x:%d" % (FAM_X10[f] + i) for i in range(3)] + [m(f, *x) for x in SHAPES]:
            h, d, t, ib = hd(s)
            if t > 10 and not th and f not in (S256, FAMS[rng.randrange(7)]): continue
            js.append(life("C03", "fast", s, seed, ref=0, verify=0, stub=1, mprof=0, jumps=jl(carry_jumps(s, rng), 5), weight=20 if t > 10 else 1))
            if t <= 10: js.append(life("C03", "plain", s, seed, ref=0, verify=0, stub=1, mprof=0, jumps=jl(carry_jumps(s, rng, 3), 4 if t < 10 else 3), weight=10))
            elif f == S256: js.append(life("C03", "plain", s, seed, ref=0, verify=0, stub=1, mprof=0, jumps=jl(rng.sample(carry_jumps(s, rng, 2), 4), 3), weight=500))
    return js
plan("C03", run_life(b03), ["signatures", "refused attempts"], ["distinct (index, message) signed"],
     "Signing histories (whole lives of many tree shapes, windows around every carry, tree change and the end of registered sets, other operations and reloads in between); the monitor compares the index in each signature and in the secret key before and after each call with its own count. Non-trivial: a distinct (index, message) pair that was actually signed and judged.")

# ------------------------------------------------------------------ C01
def b01(seed, th, rng):
    js = jobs_families("C01", seed, ref=0, ws=(4, 16, 256), hs=((4, 2, 0), (5, 1, 1), (3, 1, 1)), mprof=2)
    js += jobs_shapes("C01", seed, "both", 5 if not th else 7, 8 if not th else 10, 6, ref=0, memo=1)
    js += jobs_shapes("C01", seed + 1, "fast", 6 if not th else 8, 14 if not th else 18, 7, ref=0, stub=1, mprof=0)
    for i, f in enumerate(FAMS): js.append(life("C01", "fast", "x:%d" % FAM_X10[f], seed + i, ref=0, verify=1 if f == S256 or th else 5, weight=100, mprof=2))
    js += jobs_long("C01", seed, th, LONG[3:], ref=0, verify=1 if th else 6)
    js += jobs_long("C01", seed, th, LONG[:3] + ([("m:8", 1048576 + 40), ("m:4", 1048576 + 40), ("c:0,32,16,20,5,0", "all"), ("c:0,32,16,20,10,0", "all")] if th else []), ref=0, verify=1 if th else 2)
    for f in (FAMS if th else [S256, FAMS[rng.randrange(7)]]):   # plain signer anywhere in the life of registered sets, real hashes
        for x in [(60, 12), (40, 8), (20, 4)]: js.append(life("C01", "plain", m(f, *x), seed, ref=0, memo=1, jumps=jl(carry_jumps(m(f, *x), rng, 2), 2), weight=150))
    if th:
        for f in FAMS: js.append(life("C01", "fast", m(f, 20, 2), seed, ref=0, count=3000, verify=3, weight=100, timeout=2000)); js.append(life("C01", "fast", m(f, 60, 12), seed, ref=0, count=2200, verify=1, weight=100, timeout=2000))
        js.append(life("C01", "fast", "x:2", seed, ref=0, verify=8, weight=2000, timeout=3000))
    else: js.append(life("C01", "fast", "m:8", seed, ref=0, count=1100, verify=3, weight=100))
    return js
R01 = run_life(b01)

# ------------------------------------------------------------------ C04
def b04(seed, th, rng):
    js = jobs_families("C04", seed, ref=0, ws=(16,), hs=((2, 1, 0), (4, 2, 0), (3, 1, 1)), over=12)
    js += jobs_shapes("C04", seed, "both", 5, 8 if not th else 10, 6, ref=0, memo=1, over=9)
    js += jobs_shapes("C04", seed + 1, "fast", 7, 16 if not th else 18, 8, ref=0, stub=1, mprof=0, over=9)

    for i, f in enumerate(FAMS): js.append(life("C04", "both", "x:%d" % FAM_X10[f], seed + i, ref=0, memo=1, verify=64, weight=50, over=5))
    js += jobs_long("C04", seed, th, LONG[:3], ref=0, over=5, verify=1 if th else 4)
    for f in FAMS:
        for s in ["x:%d" % (FAM_X10[f] + i) for i in range(3)] + [m(f, *x) for x in SHAPES]:
            h, d, t, ib = hd(s); cap = 1 << h; near = [(cap - 4, 10), (cap - 1, 5), (cap - 2, 5)]
            if t > 10 and not th and f not in (S256, FAMS[rng.randrange(7)]): continue
            js.append(life("C04", "fast", s, seed, ref=0, verify=0, stub=1, mprof=0, jumps=",".join("%d:%d" % x for x in near), weight=20 if t > 10 else 1))
            if t <= 10: js.append(life("C04", "plain", s, seed, ref=0, verify=1, stub=1, mprof=0, jumps=",".join("%d:%d" % x for x in near), weight=3))
            elif f == S256: js.append(life("C04", "plain", s, seed, ref=0, verify=1, stub=1, mprof=0, jumps="%d:6" % (cap - 2), weight=300))
        js.append(life("C04", "plain", m(f, 60, 12), seed, ref=0, verify=1, jumps="%d:5" % ((1 << 60) - 2), weight=30))
        js.append(life("C04", "plain", m(f, 40, 8), seed, ref=0, verify=1, jumps="%d:5" % ((1 << 40) - 3), weight=30))
    return js
plan("C04", run_life(b04), ["signatures", "refused attempts"], ["distinct (index, message) signed"],
     "Whole lives of keys of many tree shapes, of XMSS_10, and with stand-ins of XMSS_20, 20/2 and 20/4, plus the last indices of every registered set, each followed by further attempts. The monitor counts signatures against the capacity, checks their validity, the refusals, and searches the secret key buffer for 6-byte pieces of the former seeds. Non-trivial: a distinct (index, message) pair that was signed and judged.")

# ------------------------------------------------------------------ C05
def b05(seed, th, rng):
    js = jobs_families("C05", seed, verify=0, ws=(4, 16, 256), hs=((4, 2, 0), (5, 1, 1), (6, 3, 0)), mprof=2)
    js += jobs_shapes("C05", seed, "both", 5 if not th else 7, 8 if not th else 10, 6, verify=0, memo=1)
    js += jobs_shapes("C05", seed + 1, "fast", 6 if not th else 8, 14 if not th else 18, 7, verify=0, stub=1, mprof=0)
    for i, f in enumerate(FAMS):
        js.append(life("C05", "both" if f == S256 or th else "fast", "x:%d" % FAM_X10[f], seed + i, memo=1, verify=0, weight=100, mprof=2))
        for x in [(60, 12), (40, 8), (20, 4)]:
            s = m(f, *x); cj = carry_jumps(s, rng, 1); js.append(life("C05", "plain", s, seed, verify=0, jumps=jl(cj if th else cj[::4] if f == S256 else sorted(rng.sample(cj, 2)), 2), weight=60)); js.append(life("C05", "fast", s, seed, verify=0, count=40, weight=30))
        for x in [(20, 2), (40, 4), (60, 6), (40, 2), (60, 3)]:
            s = m(f, *x); t = hd(s)[2]
            if t > 10 and not th and f != S256: continue
            js.append(life("C05", "plain", s, seed, verify=0, stub=1, mprof=0, jumps=jl(carry_jumps(s, rng, 2) if t <= 10 else rng.sample(carry_jumps(s, rng, 2), 3), 2), weight=300 if t > 10 else 10))
    js += jobs_long("C05", seed, th, LONG + ([("m:8", 1048576 + 40), ("c:0,32,16,20,5,0", "all"), ("c:0,32,16,20,10,0", "all")] if th else []), verify=0, ref=1 if th else 16)
    for d in (15, 20, 30):   # tree addresses beyond 2^32 with the fast signer: jumps to aligned indices
        for J in (1 << 33, 1 << 40, (1 << 59) + (1 << 45)): js.append(life("C05", "fast", c(S256, 16, 60, d) if 60 % d == 0 else c(S256, 16, 2 * d, d), seed, verify=0, stub=1, mprof=0, jumps="%d:%d" % (J, 5000), weight=20))
    if th:
        js.append(life("C05", "fast", "x:2", seed, verify=0, weight=2000, timeout=3000, ref=4))
        for f in FAMS: js.append(life("C05", "fast", m(f, 20, 2), seed, count=2100, verify=0, weight=100, timeout=2000))
    return js
R05 = run_life(b05)

# ------------------------------------------------------------------ C06
def b06(seed, th, rng):
    js = jobs_families("C06", seed, ws=(16,), hs=((4, 2, 0), (6, 3, 0)))
    js += jobs_shapes("C06", seed, "both", 5 if not th else 7, 8 if not th else 10, 6, verify=0, memo=1)
    js += jobs_shapes("C06", seed + 1, "fast", 7 if not th else 8, 16 if not th else 18, 8, stub=1, mprof=0, ref=1)
    js += jobs_long("C06", seed, th, LONG + ([("m:8", 1048576 + 40), ("c:0,32,16,20,5,0", "all"), ("c:0,32,16,20,10,0", "all")] if th else []), ref=0, verify=1 if th else 8)
    js += jobs_long("C06", seed + 5, th, [("c:0,32,16,18,9,0", "all"), ("c:0,32,16,18,6,1", "all"), ("c:0,32,16,18,3,2", "all")], ref=0)
    for f in FAMS: js.append(life("C06", "fast", m(f, 20, 4), seed, stub=1, mprof=0, count=40000, ref=0, weight=50))
    for f in (FAMS if th else [S256]):
        for x in SHAPES: 
            if x[0] // x[1] <= 10: js.append(life("C06", "plain", m(f, *x), seed, ref=1, verify=1, stub=1, mprof=0, jumps=jl(carry_jumps(m(f, *x), rng, 4), 4), weight=30))
    return js
plan("C06", run_life(b06), ["one-time signatures tracked"], ["distinct (index, message) signed"],
     "Whole lives of many hypertree shapes (also registered ones, with stand-ins for leaves and one-time signatures); the monitor keeps, for every one-time key (layer, number within the layer), a hash of the one-time signature it made and checks that an upper one never changes and a lowest one never repeats, and that each is the one on the root below. Non-trivial: a distinct (index, message) pair whose signature was tracked.")

# ------------------------------------------------------------------ C20
def b20(seed, th, rng):
    js = jobs_families("C20", seed, ref=0, ws=(4, 16, 256), hs=((4, 2, 0), (5, 1, 1), (6, 3, 0)), mprof=2, verify=4)
    js += jobs_shapes("C20", seed, "both", 6 if not th else 8, 9 if not th else 12, 7, ref=0, memo=1, verify=16)
    js += jobs_shapes("C20", seed + 1, "both", 6 if not th else 8, 12 if not th else 14, 7, ref=0, stub=1, mprof=0)
    for i, f in enumerate(FAMS):
        js.append(life("C20", "both", "x:%d" % FAM_X10[f], seed + i, ref=0, memo=1, verify=16, weight=100, mprof=2, over=6))
        js.append(life("C20", "both", m(f, 60, 12), seed + i, ref=0, stub=1, mprof=0, count=3000, plain_every=4, weight=50))
        js.append(life("C20", "both", m(f, 20, 2), seed + i, ref=0, stub=1, mprof=0, count=4200, plain_every=16, weight=50))
    js += jobs_long("C20", seed, th, [("m:1", "all"), ("m:2", "all"), ("m:5", 1048576 + 40)], impl="both", ref=0, verify=0, plain_every=256)
    js += jobs_long("C20", seed, th, [("x:3", "all")], impl="both", ref=0, verify=0, plain_every=1 << 15 if th else 1 << 17)
    if th: js += jobs_long("C20", seed, th, [("m:8", 1048576 + 40), ("c:0,32,16,20,5,0", "all"), ("c:0,32,16,20,10,0", "all"), ("c:0,32,16,18,6,1", "all")], impl="both", ref=0, verify=0, plain_every=64)
    return js
plan("C20", run_life(b20), ["plain/fast comparisons"], ["distinct (index, message) signed"],
     "Both implementations run side by side from the same random bytes through the same messages; the monitor compares public keys, the leading part of the secret keys, return codes and every byte of the signatures, over whole lives of many tree shapes and trade-offs and over registered sets (with stand-ins where trees are large). Non-trivial: a distinct (index, message) pair signed by both and compared (or by one of them, where the plain signer is only sampled).")

# ------------------------------------------------------------------ C21
def b21(seed, th, rng):
    js = jobs_shapes("C21", seed, "fast", 8, 16 if not th else 19, 9, ref=0, verify=0, stub=1, mprof=0, hashbound=1)
    js += jobs_families("C21", seed, impl="fast", ref=0, verify=0, ws=(16,), hs=((6, 3, 0), (6, 1, 0)), hashbound=1)
    for i, f in enumerate(FAMS): js.append(life("C21", "fast", "x:%d" % FAM_X10[f], seed + i, ref=0, verify=0, stub=1, mprof=0, hashbound=1)); js.append(life("C21", "fast", m(f, 20, 4), seed + i, ref=0, verify=0, stub=1, mprof=0, hashbound=1, count=70000)); js.append(life("C21", "fast", m(f, 60, 12), seed + i, ref=0, verify=0, stub=1, mprof=0, hashbound=1, count=34000, weight=20))
    js.append(life("C21", "fast", "x:1", seed, ref=0, verify=0, hashbound=1, weight=50))
    js += jobs_long("C21", seed, th, LONG + [("c:0,32,16,20,5,0", "all"), ("c:0,32,16,18,9,0", "all")] + ([("c:0,32,16,20,10,0", "all"), ("m:8", 1048576 + 40)] if th else []), ref=0, verify=0, hashbound=1)
    return js
plan("C21", run_life(b21), ["signatures"], ["distinct (index, message) signed"],
     "Every signature of whole lives of many tree shapes and registered sets with the fast implementation; the monitor counts leaf computations and hash computations inside each signing call and compares them with the bound. Non-trivial: a distinct (index, message) pair signed with its cost recorded (histograms are among the samples).")

# ------------------------------------------------------------------ verification
def allsets(): return ["x:%d" % (x + i) for x in X10 for i in range(3)] + [m(f, *x) for f in MT for x in SHAPES]
def vcost(s):   # rough cost of one verification
    h, d, t, ib = hd(s); f = FAMS_OF(s); w = int(s[2:].split(",")[2]) if s[0] == "c" else 16
    return d * {24: 2, 32: 2, 64: 6}[f[1]] * (1 if f[0] == 0 else 6) * (8 if w == 256 else 1)
def thin(s, budget): return max(1, round(vcost(s) * 0.13 / budget))   # budget: seconds, roughly
def FAMS_OF(s):
    if s[0] == "c": _, *v = s[2:].split(","); return (int(s[2:].split(",")[0]), int(s[2:].split(",")[1]))
    if s[0] == "x": return [f for f, o in FAM_X10.items() if o <= int(s[2:]) < o + 3][0]
    return [f for f, o in MT.items() if o <= int(s[2:]) < o + 8][0]
CUST = [c(f, w, 4, 2) for f in FAMS for w in (4, 16, 256)]
def jobs_synth(prop, seed, count):
    return [Job("verify", mode="synth", prop=prop, set=s, seed=seed + i, count=count, weight=vcost(s)) for i, s in enumerate(allsets() + CUST)]
def jobs_mut(prop, seed, th, rng):
    js = []
    for i, s in enumerate(allsets() + CUST):
        full = th or FAMS_OF(s) == S256; js.append(Job("verify", mode="mut", prop=prop, set=s, seed=seed * 13 + i, thin=1 if th else thin(s, 7 if full else 2), impl="both" if full else rng.choice(("plain", "fast")), weight=vcost(s)))
    for i, s in enumerate(["c:0,32,16,4,2,0", "c:0,24,4,3,1,0"]): js.append(Job("verify", mode="mut", prop=prop, set=s, seed=seed * 17 + i, allbytes=1, impl="plain" if i else "fast", weight=60))
    js.append(Job("verify", mode="mut", prop=prop, set="x:1;m:2", seed=seed, mlen=3000, weight=60, impl="fast")); js.append(Job("verify", mode="mut", prop=prop, set="x:19;m:1;x:4", seed=seed, mlen=0, weight=60))
    for s in ("x:1", "m:2") + (("x:7", "x:10", "x:4", "x:13", "x:16") if th else ()): js.append(Job("verify", mode="long", prop=prop, set=s, seed=seed, weight=30 if s == "x:1" else 50, impl="both" if th else "plain"))
    return js
def huge(prop, seed, impl, s, **kw): return Job("huge", impl=impl, set=s, seed=seed, prop=prop, libs=(impl,), weight=5000, timeout=500, **kw)
H2, H1 = "c:0,32,16,4,2,0", "c:0,32,16,4,1,0"

def a01(seed, th, rng):
    js = b01(seed, th, rng) + jobs_synth("C01", seed, 4 if not th else 20)
    js += [huge("C01", seed, "plain", H2), huge("C01", seed, "fast", H2, open=0), huge("C01", seed, "fast", H1, open=0)]
    if th: js += [huge("C01", seed, "fast", c((2, 32), 16, 4, 2)), huge("C01", seed, "plain", c((0, 64), 16, 4, 2)), Job("verify", mode="long", prop="C01", set=";".join(c(f, 16, 4, 2) for f in FAMS), seed=seed)]
    else: js.append(Job("verify", mode="long", prop="C01", set="x:1", seed=seed, impl="plain"))
    return js
plan("C01", run_life(a01), ["signatures", "accepted"], ["distinct (index, message) signed", "distinct inputs verified"],
     "Keys of many tree shapes, hash functions and Winternitz parameters signing messages of varied length and content at every index of their life (large registered sets with stand-ins for leaves and one-time signatures), each signature opened by both implementations; built signatures at chosen indices for all 77 registered sets; messages beyond 4 GiB. Non-trivial: a distinct (index, message) pair signed and judged, or a distinct signed message verified.")
def a05(seed, th, rng):
    js = b05(seed, th, rng) + [huge("C05", seed, "plain", H2), huge("C05", seed, "fast", H2), huge("C05", seed, "fast", H1)]
    if th: js += [huge("C05", seed, "fast", c(f, 16, 4, 2)) for f in FAMS[1:]]
    return js
plan("C05", run_life(a05), ["reference comparisons"], ["distinct (index, message) signed"],
     "Every part of public keys and signatures compared with a reference model of RFC 8391 / SP 800-208 written independently of the code: all hash functions and Winternitz parameters on small trees, XMSS_10 of all families over the whole life, the plain signer with real hashes at carries and tree changes of registered sets, and with stand-ins for leaves and one-time signatures the large registered sets. Non-trivial: a distinct (index, message) pair signed and compared.")
def b02(seed, th, rng):
    js = jobs_mut("C02", seed, th, rng) + [huge("C02", seed, "plain", H2)]
    if th:
        for q in range(1, 6): js += jobs_mut("C02", seed * 100 + q, th, rng)
        js += [huge("C02", seed, "fast", c(f, 16, 4, 2)) for f in FAMS[1:]]
    return js
plan("C02", run_life(b02), ["rejected", "accepted"], ["distinct inputs verified"],
     "Honest-looking signed messages for all 77 registered sets and own ones, altered: a bit in the units of the signature, in index, randomizer, message and public key, swapped and copied parts, truncation and extension (also by 2^32), other OIDs, and signatures whose recomputed root misses the root in the public key by single bytes; every acceptance is confirmed with the reference verifier. Non-trivial: a distinct (signed message, public key) pair verified.")
def b11(seed, th, rng):
    js = jobs_mut("C11", seed + 1, th, rng)[:: 1 if th else 2] + jobs_synth("C11", seed, 2)[:: 1 if th else 2] + [huge("C11", seed, "plain", H2)]
    js += [Job("verify", mode="long", prop="C11", set="c:0,32,16,4,2,0", seed=seed), Job("verify", mode="fuzz", prop="C11", seed=seed, count=20000 if not th else 400000, weight=50)]
    if th: js.append(huge("C11", seed, "fast", c((1, 32), 16, 4, 2)))
    return js
plan("C11", run_life(b11), ["rejected", "accepted"], ["distinct inputs verified"],
     "Accepted and rejected signed messages of all registered sets (see C02), with the output buffer filled with a pattern beforehand; after each call the monitor compares return code, message length and the content of the message's place. Non-trivial: a distinct (signed message, public key) pair verified.")
def b07(seed, th, rng):
    js = [Job("verify", "asan", mode="fuzz", prop="C07", seed=seed * 100 + i, count=1500 if not th else 40000, sanprop="C07", timeout=400 if not th else 3000) for i in range(8 if not th else 32)]
    js += [Job("verify", mode="fuzz", prop="C07", seed=seed * 100 + 50 + i, count=15000 if not th else 400000, timeout=400 if not th else 3000) for i in range(2 if not th else 8)]
    js += [Job("verify", "asan", mode="mut", prop="C07", set=s, seed=seed + i, thin=1 if th else 2 * thin(s, 1), sanprop="C07", impl="plain" if i % 2 else "fast", weight=vcost(s), timeout=800 if not th else 3000) for i, s in enumerate((allsets() if th else rng.sample(allsets(), 16) + ["x:1", "m:1"]) + CUST)]
    js += [Job("verify", "asan", mode="synth", prop="C07", set=s, seed=seed + i, count=1, sanprop="C07", weight=vcost(s)) for i, s in enumerate(allsets())]
    return js
plan("C07", run_life(b07), ["verifications"], ["distinct inputs verified"],
     "Arbitrary and altered signed messages of any length (short ones included) and public keys given to the verification of all registered sets and own ones: under AddressSanitizer and UndefinedBehaviorSanitizer with heap buffers of exactly the size, and with read-only inputs that end at inaccessible pages. The monitors are the sanitizers, the page protection, comparison of the inputs, a pattern behind the output, and a watchdog on CPU time. Non-trivial: a distinct (signed message, public key) pair given to verification.",
     assumptions=["memory errors that neither AddressSanitizer nor page protection notices (inside one object) are not seen", "the shim checks the ranges passed to libcrypto's SHA-2"])

# ------------------------------------------------------------------ C08
def b08(seed, th, rng):
    A = dict(flavor="asan", sanprop="C08", ref=0, verify=0, timeout=300 if not th else 3000)
    js = jobs_families("C08", seed, ws=(4, 16, 256), hs=((4, 2, 0), (3, 1, 1)), mprof=2, over=2, **A)
    for i, (h, d, k) in enumerate(shapes(6 if not th else 8, 12 if not th else 16, 7)): js.append(life("C08", "both" if h <= 9 else "fast", c(FAMS[i % 7] if h <= 9 else S256, (16, 4, 256)[i % 3] if h <= 6 else 16, h, d, k), seed * 37 + i, weight=1 << max(0, h - 4), stub=1, mprof=0, over=9, **A))
    for i, f in enumerate(FAMS):
        js.append(life("C08", "fast", "x:%d" % FAM_X10[f], seed + i, stub=1, mprof=0, weight=20, **A))
        for s in ["x:%d" % (FAM_X10[f] + i) for i in range(3)] + [m(f, *x) for x in SHAPES]:
            h, d, t, ib = hd(s); cap = 1 << h
            if t > 10 and not th and f != S256 and rng.randrange(8): continue
            if t <= 10 or f == S256 or th: js.append(life("C08", "plain", s, seed, stub=1, mprof=0, weight=10 if t <= 10 else 100, jumps=jl(rng.sample(carry_jumps(s, rng, 2), 2) + [cap - 2] if t <= 16 else [cap - 2], 4 if t <= 10 else 3), **A))
            js.append(life("C08", "fast", s, seed, stub=1, mprof=0, count=400 if t <= 10 else 60, weight=10 if t <= 10 else 100, **A))
        js.append(life("C08", "fast", m(f, 60, 12), seed, mprof=2, count=70, weight=50, **A))
    js.append(life("C08", "fast", m(S256, 20, 4), seed, stub=1, mprof=0, count=34000 if not th else 1048576, weight=100, **A))
    js.append(life("C08", "fast", m(S256, 40, 8), seed, stub=1, mprof=0, count=34000 if not th else 1100000, weight=100, **A))
    js.append(life("C08", "fast", m(S256, 20, 2), seed, stub=1, mprof=0, count=6000, weight=100, **A))
    js += [huge("C08", seed, "plain", H2, open=0), huge("C08", seed, "fast", H2, open=0)]
    for i, s in enumerate(("x:1", "m:2", "x:7")): js.append(life("C08", "fast", s, seed + i, ref=0, verify=0, mprof=3, count=12, weight=60))
    return js
plan("C08", run_life(b08), ["signatures", "refused attempts"], ["distinct (index, message) signed"],
     "Key generation and signing histories of all families, Winternitz parameters, many tree shapes and all registered sets (with stand-ins for leaves and one-time signatures where trees are large) under AddressSanitizer and UndefinedBehaviorSanitizer, with heap buffers of exactly the announced sizes and messages compared afterwards; messages beyond 4 GiB between inaccessible pages. Non-trivial: a distinct (index, message) pair signed under these monitors.",
     assumptions=ASSUME + ["memory errors inside one object (from one member of the state to the next) are not seen by AddressSanitizer; the checks of C05, C06 and C20 see their effects"])

# ------------------------------------------------------------------ C09
def b09(seed, th, rng):
    js = [Job("rand", mode="req", impl=im, libs=(im,), seed=seed * 10 + i, count=3000 if not th else 60000, timeout=300 if not th else 3000) for im in ("plain", "fast") for i in range(2 if not th else 8)]
    js += [Job("rand", "asan", mode="req", impl=im, libs=(im,), seed=seed * 10 + 5, count=1500, sanprop="C09") for im in ("plain", "fast")]
    for im in ("plain", "fast"):
        js.append(Job("rand", mode="keys", impl=im, libs=(im,), seed=seed, set=";".join(c(f, w, *s) for f in FAMS for w in (4, 16, 256) for s in ((4, 2, 0), (3, 1, 1))), count=4 if not th else 20))
        js.append(Job("rand", mode="keys", impl=im, libs=(im,), seed=seed, set=";".join(c(f, 16, 4, 2) for f in FAMS), count=2, stub=0))
        for f in FAMS: js.append(Job("rand", mode="keys", impl=im, libs=(im,), seed=seed, set=";".join(s for s in ["x:%d" % (FAM_X10[f] + i) for i in range(3)] + [m(f, *x) for x in SHAPES] if hd(s)[2] <= 10 or (hd(s)[2] == 16 and th)), count=3))
    return js

plan("C09", run_life(b09), ["requests", "keys generated"], ["distinct fault scripts"],
     "Requests for random bytes of many lengths and key generations of all families, implementations and registered sets with trees of up to 2^10 leaves, with the system calls behind them replaced by scripted ones that deliver known bytes, fall short, are interrupted and fail; the monitor compares what the request or the key holds with what was delivered. Non-trivial: a distinct sequence of outcomes of system calls.",
     assumptions=["the random source is reached through open, openat, fopen, read, getrandom or getentropy (as wrapped by the linker)"])

# ------------------------------------------------------------------ C10
def b10(seed, th, rng):
    js = []
    for i in range(6 if not th else 40):   # mixtures of keys of different sets in one process
        sets = [c(FAMS[(i + j) % 7], (16, 4, 256)[(i + j) % 3] if j < 3 and FAMS[(i + j) % 7] != (0, 64) else 16, *[(4, 2, 0), (3, 1, 1), (6, 3, 0), (4, 1, 0), (5, 1, 1), (6, 2, 1)][(i * 5 + j) % 6]) for j in range(4)]
        js.append(Job("pure", mode="order", set=";".join(sets), seed=seed * 20 + i, count=150, rounds=4 if not th else 8, timeout=300, weight=30))
    js.append(Job("pure", mode="order", set="m:8;m:21;" + c(S256, 16, 4, 2), seed=seed, count=60, rounds=3, impl="fast", weight=60))
    for o in rng.sample((1, 4, 7, 10, 13, 16), 2 if not th else 6): js.append(Job("pure", mode="order", set="x:%d;m:%d" % (o, o), seed=seed, count=40, rounds=3, impl="fast", timeout=400, weight=150))   # the same OID number in both schemes
    for f in FAMS:
        for w in (16, 4, 256): js.append(Job("pure", "vg", prefix=VG, mode="vg", set=c(f, w, *((4, 2, 0) if w != 256 else (2, 1, 0))), seed=seed, count=9, impl="both" if w == 16 else ("plain", "fast")[(FAMS.index(f) + w // 4 + seed) % 2], timeout=400, sanprop="C10", weight=100 if w == 256 else 50))
    for i, s in enumerate(((6, 3, 0), (5, 1, 1), (6, 1, 2), (6, 2, 1))): js.append(Job("pure", "vg", prefix=VG, mode="vg", set=c(S256, 16, *s), impl="fast" if i else "both", seed=seed, count=(66, 33)[i == 0], timeout=400, sanprop="C10", weight=100))
    js.append(Job("pure", "vg", prefix=VG, mode="vg", set="m:8", impl="fast", seed=seed, count=6, timeout=400, sanprop="C10", weight=200))
    # every signature from a state that was copied and reloaded in between (also in C03)
    js += [life("C10", "both", c(S256, 16, *s), seed + i, ref=0, verify=4, ops=1) for i, s in enumerate([(6, 2, 0), (6, 3, 0), (5, 1, 1)])]
    return js
plan("C10", run_life(b10), ["operations alone in a process", "operations"], ["distinct operations", "distinct (index, message) signed"],
     "Key generations, signatures and verifications are done once each alone in a process of their own, then again in random order in one process with other contents of stack, heap and output buffers and with other keys in between, and every output byte is compared; under memcheck every output byte is checked to be made from initialized bytes and no branch to depend on others. Non-trivial: a distinct operation with its inputs.")

# ------------------------------------------------------------------ C12
def b12(seed, th, rng):
    js = [Job("params", mode="registry", seed=seed + i, weight=1000) for i in range(1 if not th else 5)] + [Job("params", "asan", mode="registry", seed=seed + 9, sanprop="C12", weight=900)]
    N = 16
    for im in ("plain", "fast"):
        for i in range(N): js.append(Job("params", mode="oids", impl=im, libs=(im,), lo=(i << 32) // N, hi=((i + 1) << 32) // N, weight=100))
    for f in FAMS: js.append(Job("params", mode="api", set=";".join(s for s in ["x:%d" % (FAM_X10[f] + i) for i in range(3)] + [m(f, *x) for x in SHAPES] if hd(s)[2] <= 10 or th or f == S256), seed=seed, weight=500))
    for o in (1, 4, 7, 10, 13, 16): js.append(Job("params", mode="mixed", impl="both", set="x:%d;m:%d" % (o, o), seed=seed, count=300, timeout=400, weight=600))
    return js
plan("C12", run_life(b12), ["OID lookups", "name lookups", "parameter structures", "API calls"], ["parameter structures", "API calls", "accepted OIDs"],
     "All 2^32 OIDs given to both lookups of both builds, all registered names and many thousands near them, every combination of the documented parameters, and key generation, signing and verification with registered and unknown OIDs, compared with the registry of RFC 8391 and SP 800-208. Non-trivial: an accepted OID, a parameter structure compared member by member, or a call of key generation, signing or verification judged.",
     assumptions=["the registry in ref/refxmss.hpp, transcribed from the standards, is right"])

# ------------------------------------------------------------------ C13
def b13(seed, th, rng):
    js = []
    for i, f in enumerate(FAMS):
        for w in (4, 16, 256):
            for im in ("plain", "fast") if th or f == S256 else (("plain", "fast")[(i + w // 4) % 2],): js.append(Job("wots", impl=im, libs=(im,), set=c(f, w, 4, 2), seed=seed + i, csumstep=1, real=20 if not th else 300, weight=50 if w == 256 else 5, timeout=300 if not th else 2000))
    if th:
        for q in range(1, 6): js += [Job("wots", impl="plain", libs=("plain",), set=c(f, w, 4, 2), seed=seed * 10 + q, csumstep=1, real=60, timeout=2000) for f in FAMS for w in (4, 16, 256)]
    return js
plan("C13", run_life(b13), ["one-time signatures", "with real hashes"], ["distinct checksum values"],
     "One-time signatures for every value the checksum can take, in all families and Winternitz parameters; a stand-in for the chain step that counts reads off the position revealed in each chain, which is compared with the standard's digits and checksum and with the positions for other digests; with real hashes the signatures, the recovered and the generated public keys are compared with the reference. Non-trivial: a distinct checksum value (per parameter set).")

# ------------------------------------------------------------------ C14
def b14(seed, th, rng):
    js = []
    for im in ("plain", "fast"):
        js += [Job("shake", mode="grid", impl=im, libs=(im,), seed=seed, max=1400 if not th else 6000, weight=10, timeout=400 if not th else 3000), Job("shake", mode="big", impl=im, libs=(im,), seed=seed, count=40 if not th else 600, weight=10, timeout=400 if not th else 3000)]
    js.append(Job("shake", "asan", mode="grid", impl="plain", libs=("plain",), seed=seed, max=1010, sanprop="C14", weight=10))
    for w in (0, 1):
        for d in ("in", "out"): js.append(Job("shake", mode="huge", impl="plain" if w else "fast", libs=("plain" if w else "fast",), which=w, dir=d, seed=seed, weight=1000, timeout=500))
    return js
plan("C14", run_life(b14), ["calls"], ["distinct length pairs"],
     "Both functions with all input and output lengths up to eight blocks and more (each with many lengths of the other side), random lengths up to megabytes, and beyond 4 GiB on either side; buffers end at inaccessible pages and lie in patterns; the oracle is libcrypto's SHAKE and the reference's own sponge. Non-trivial: a distinct (function, input length, output length).",
     assumptions=["libcrypto's SHAKE is right (cross-checked with an own sponge)"])

# ------------------------------------------------------------------ C18
def b18(seed, th, rng):
    mixed = ";".join(c(f, 16, *s) for f, s in zip(FAMS, [(4, 2, 0), (6, 3, 0), (5, 1, 1), (4, 2, 0), (4, 1, 0), (6, 2, 1), (4, 2, 0)]))
    js = []
    for im in ("plain", "fast"):
        for i in range(2 if not th else 10): js.append(Job("thread", "tsan", impl=im, libs=(im,), set=mixed, threads=8, count=14 if im == "fast" or th else 4, rounds=2 if not th else 6, seed=seed * 10 + i, sanprop="C18", weight=100, timeout=400 if not th else 3000))
        js.append(Job("thread", "tsan", impl=im, libs=(im,), set=c(S256, 16, 6, 3), threads=8, count=30 if im == "fast" else 6, rounds=2, same=1, seed=seed, sanprop="C18", weight=100, timeout=400))
        js.append(Job("thread", "tsan", impl=im, libs=(im,), set=c(S256, 16, 4, 2) + ";" + c((0, 24), 4, 3, 1), threads=8, count=4, rounds=3, os=1, seed=seed, sanprop="C18", weight=50, timeout=400))
        js.append(Job("thread", "tsan", impl=im, libs=(im,), set=";".join(c(f, w, 2, 1) if w == 256 else c(f, w, 4, 2) for f in FAMS for w in (4, 256)), threads=8, count=2, rounds=2, seed=seed, sanprop="C18", weight=100, timeout=400))
        js.append(Job("thread", impl=im, libs=(im,), set=mixed, threads=8, count=40, rounds=6 if not th else 60, seed=seed, weight=60, timeout=400 if not th else 3000))
        js.append(Job("thread", impl=im, libs=(im,), set=c(S256, 16, 6, 3), threads=16, count=60 if im == "fast" or th else 20, rounds=6 if not th else 60, same=1, seed=seed + 1, weight=60, timeout=400 if not th else 3000))
        js.append(Job("thread", impl=im, libs=(im,), set=c(S256, 16, 4, 2), threads=16, count=3, rounds=8, os=1, seed=seed, weight=20, timeout=400))
    for im in ("plain", "fast"):   # nothing has run in the process before the threads begin
        for cold in (1, 2, 3):
            for i, f in enumerate([(0, 24), (0, 64), (1, 32), (2, 32)] if not th else FAMS): js.append(Job("thread", "tsan", impl=im, libs=(im,), set=";".join((c(f, 16, 4, 2), c(f, 4, 3, 1, 1))), threads=4, count=2, rounds=1, cold=cold, seed=seed * 100 + i, sanprop="C18", weight=10, timeout=400))
            js.append(Job("thread", "tsan", impl=im, libs=(im,), set="x:%d;m:%d" % (seed % 7 * 3 + 1, seed % 7 * 8 + 2), threads=3, count=1, rounds=1, cold=cold, seed=seed, sanprop="C18", weight=150 if im == "plain" else 60, timeout=400)) if im == "fast" or th else None
            for i in range(4 if not th else 60): js.append(Job("thread", impl=im, libs=(im,), set=";".join(c(f, 16, 4, 2) for f in FAMS), threads=8, count=3, rounds=1, cold=cold, seed=seed * 100 + i, weight=5, timeout=400))
    js.append(Job("thread", "tsan", impl="fast", libs=("fast",), set="m:8;m:2;x:1", threads=6, count=12, rounds=1, seed=seed, sanprop="C18", weight=200, timeout=400))
    return js
def r18(r):   # the jobs are threaded themselves
    r.run_jobs(b18(r.seed, r.tier == "thorough", random.Random(r.seed)), workers=3)
plan("C18", r18, ["operations"], ["distinct keys"],
     "Threads that generate keys, sign and verify at the same time, with own keys and shared messages, public keys and signatures: under ThreadSanitizer, and at full speed with every result compared with that of the same operations done alone; also with the real random source. Non-trivial: a distinct key whose operations overlapped those of other threads.",
     assumptions=["ThreadSanitizer sees the accesses of the code under test, not those inside libcrypto"])

# ------------------------------------------------------------------ C19
def b19(seed, th, rng):
    js = []
    for im in ("plain", "fast"):
        for i, f in enumerate(FAMS):
            js.append(Job("ct", "vg", prefix=VG, impl=im, libs=(im,), set=c(f, 16, 4, 2), count=17, seed=seed, sanprop="C19", timeout=400, weight=50, jumps="3,15"))
            if th or i % 3 == (seed + (im == "fast")) % 3: js.append(Job("ct", "vg", prefix=VG, impl=im, libs=(im,), set=c(f, 4, 3, 1, 1), count=5, seed=seed, sanprop="C19", timeout=400, weight=50)); js.append(Job("ct", "vg", prefix=VG, impl=im, libs=(im,), set=c(f, 256, 2, 1), count=3, seed=seed, sanprop="C19", timeout=400, weight=100))
        js.append(Job("ct", "vg", prefix=VG, impl=im, libs=(im,), set=";".join(c(S256, 16, *s) for s in ((6, 3, 0), (5, 1, 1))), count=33 if im == "fast" else 10, seed=seed, sanprop="C19", timeout=400, weight=100))
    js.append(Job("ct", "vg", prefix=VG, impl="fast", libs=("fast",), set="m:8", count=4, seed=seed, sanprop="C19", timeout=600, weight=300))
    if th: js += [Job("ct", "vg", prefix=VG, impl="fast", libs=("fast",), set=m(f, 20, 4), count=40, seed=seed, sanprop="C19", timeout=2500) for f in FAMS]
    return js
plan("C19", run_life(b19), ["operations with secrets undefined"], ["digests declassified"],
     "Key generation and signing (whole small lives, all families, Winternitz parameters, both implementations, one registered set) under memcheck with the secret seed and the randomizer key marked as undefined, so that every branch and address that depends on them is reported; only the digests that one-time signatures are made on count as public. Non-trivial: a one-time signature made with secrets undefined.",
     assumptions=["memcheck follows definedness bit by bit through the compiled code (gcc -O1); instructions with data-dependent timing are not considered", "hashes of secrets computed by libcrypto are followed through its code"])

# ------------------------------------------------------------------ command line tools
def run_cli(fn):
    def run(r):
        import cli
        getattr(cli, fn)(r)
    return run
CLIA = ["the tools are built by the checks from the sources the Makefile names, with gcc -O3, not by the Makefile"]
plan("C15", run_cli("run15"), ["tool runs"], ["distinct signing runs"],
     "Random sequences of runs of the keypair, sign and open tools (both schemes, both implementations): keys of all families, jumps to carries and ends of life, used-up keys, message files of many sizes and beyond 4 GiB, altered and truncated inputs, failing runs in between; each run of the sign tool is compared with what the library makes of the same key file (output, key file, status), and the open tools also get signatures built for all 77 registered sets. Non-trivial: a signing run compared, or a built signature given to the open tool.", assumptions=CLIA)
plan("C16", run_cli("run16"), ["tool runs", "parallel processes"], ["distinct faults"],
     "The sign tool under ptrace: killed before and after each of its system calls, each file operation failing (once or from then on) or transferring less, output closed, full or limited, runs at once and stopped at each system call while another runs, each followed by further runs. The monitor reads the index in the key file at each write to standard output and keeps a ledger of the indices of everything released. Non-trivial: a distinct fault, kill point, interleaving or set of parallel runs.", level="fault_enumeration",
     assumptions=CLIA + ["what a system call was reported to have written stays written (no loss of power)"])
plan("C17", run_cli("run17"), ["hostile runs", "damaged keys"], ["distinct hostile cases", "distinct damaged keys"],
     "All twelve tools, built with AddressSanitizer and UndefinedBehaviorSanitizer, without, and under memcheck, on damaged files: cut at every boundary, other identifiers and indices, random and foreign contents, damaged traversal states, directories, pipes, devices, unreadable and huge files, little memory, odd arguments; the monitor judges exit status, output and key file. Signing with damaged secret keys through the library, several attempts each. Non-trivial: a distinct damaged input.", assumptions=CLIA)

# ------------------------------------------------------------------ C22
def r22(r):
    import port
    port.run22(r)
plan("C22", r22, ["results compared", "tool runs compared"], ["builds compared", "results of the reference build"],
     "A fixed workload (all OIDs near the registered ones, SHAKE, lives of small keys of all hash functions, stretches around carries of indices up to 2^60, altered and cut signatures) whose results are printed line by line, and sessions of the sign and open tools, built by gcc and clang at several optimisation levels, for 64 and 32 bit, with unsigned char, hardening, patterns or zeros in uninitialised variables, and with undefined behaviour trapping; each result is compared with that of the build by gcc -O2 for 64 bit. Non-trivial: a build (with implementation) compared, a result of the reference build.",
     assumptions=["on 32 bit the C library's files in /lib32 and own SHA-256/512 code (harness/portsha.c) are used", "big-endian platforms cannot be run here"])

# ------------------------------------------------------------------ C23
def b23(seed, th, rng):
    js = []; n = 400 if th else 40; q = 60 if th else 12
    for f in FAMS:
        for w in (16, 4, 256):
            if w == 256 and f == (0, 64) and not th: continue
            js.append(Job("intr", set=";".join(c(f, w, *s) for s in (((4, 2, 0), (3, 1, 1), (6, 3, 0)) if w == 16 else ((4, 2, 0),) if w == 4 else ((2, 1, 0),))), seed=seed, count=n, points=q if w < 256 else q // 2, timeout=3000 if th else 400, weight=50))
    for s in ((6, 2, 0), (6, 1, 2), (5, 1, 1), (8, 4, 0), (6, 2, 1)): js.append(Job("intr", set=c(S256, 16, *s), seed=seed + 1, count=300, points=q, timeout=3000 if th else 400, weight=80))
    js.append(Job("intr", set=c(S256, 16, 4, 2), seed=seed + 2, count=16, points=q, maxmsg=3000000, timeout=400, weight=80))   # ended within long messages
    for f in rng.sample(FAMS, 2 if not th else 7): js.append(Job("intr", set=";".join(["x:%d" % FAM_X10[f], m(f, 20, 4), m(f, 60, 12)]), impl="fast", libs=("fast",), seed=seed, count=40 if th else 12, points=q, timeout=3000 if th else 400, weight=90))
    return js
plan("C23", run_life(b23), ["interruptions", "signings judged"], ["distinct interruptions"],
     "Signing by a process that shares secret key and output buffer with the monitor and is ended at sampled hash computations (every phase of signing is made of them) and at sampled times, with small and large sets, both implementations, long messages, one after another on the same key; the monitor compares the buffer with the finished signature, and signs again with the key left behind. Non-trivial: an interruption at a different hash computation or time.",
     assumptions=["the memory of an ended process is what its stores left in program order (as for signals, kills and mapped files; not loss of power)"])
# ------------------------------------------------------------------ C24
def b24(seed, th, rng):
    js = []; n = 400 if th else 48; T = 3000 if th else 400
    for im in ("plain", "fast"):
        for f in FAMS: js.append(Job("left", set=";".join((c(f, 16, 4, 2), c(f, 4, 3, 1, 1))), impl=im, libs=(im,), seed=seed, count=n, timeout=T, weight=50))
        js.append(Job("left", set=";".join((c(S256, 256, 4, 2), c(S256, 16, 6, 3), c(S256, 16, 5, 1, 1), c(S256, 16, 6, 1))), impl=im, libs=(im,), seed=seed, count=n, timeout=T, weight=60))
        for f in FAMS:
            if im == "fast": js.append(Job("left", set=";".join(("x:%d" % FAM_X10[f], m(f, 20, 4))), impl=im, libs=(im,), seed=seed, count=n, life=12, timeout=T, weight=80))
            if f in ((0, 32), (2, 32)) or th: js += [Job("left", set=m(f, *s), impl=im, libs=(im,), seed=seed, count=n, life=8, timeout=T, weight=95) for s in ((60, 12), (40, 8))]
    return js
def run24(r):
    import cli
    cli.tools24(r); run_life(b24)(r)
plan("C24", run24, ["operations", "stacks measured", "tool runs whose traces were looked at"], ["distinct kinds of operations", "distinct kinds of tool runs"],
     "Each kind of operation (key generation with a failing random source, signing, verification of good and of all kinds of bad input, refusals, unknown identifiers, damaged states), many times in one process, in the same thread and in threads of their own; open files, threads, allocated and mapped memory counted before and after, process-wide settings and output compared; stack use measured on a painted stack for messages up to megabytes and over whole lives; all files around the tools' runs compared with those before. Non-trivial: a further kind of operation for a further parameter set and implementation.",
     assumptions=["memory held back by the C library after it was freed is not counted"])
