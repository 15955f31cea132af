// C10: outputs depend on the declared inputs only. Every operation is first done in a
// process of its own; then all are repeated in random order in one process, with what
// they find on stack, heap and in the output buffers varied, with the inputs recorded.
// Under valgrind (mode=vg): every output byte is made from initialized bytes only.
#include "hx.hpp"
#include <malloc.h>
#include <sys/wait.h>
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#else
#define VALGRIND_MAKE_MEM_UNDEFINED(a, n) 0
#define VALGRIND_CHECK_MEM_IS_DEFINED(a, n) 0
#define VALGRIND_MAKE_MEM_DEFINED(a, n) 0
#define RUNNING_ON_VALGRIND 0
#define VALGRIND_COUNT_ERRORS 0
#endif
using namespace hx;
static Rng *R;
struct Op { int kind; size_t key; u64 seed; Bytes sk, msg, sm, pk; bool usedup = false; };     // inputs
struct Out { int rc = 0; ull len = 0; Bytes a, b; };                           // outputs: (pk, sk), (sm, sk) or (m)
static std::vector<Set> sets; static std::vector<Impl *> ims;
__attribute__((noinline)) static void poison_stack(u8 pat) { volatile u8 b[300000]; for (size_t i = 0; i < sizeof b; i++) b[i] = pat ? pat : (u8)(i * 167); }
struct Place { u8 pat = 0; unsigned shift = 0; u8 *fixed = nullptr; };        // fixed: all keys in turn at the same addresses
static Out perform(const Op &o, const Place &pl) {
    const Set &st = sets[o.key]; Key k(ims[o.key], &st); Out r; Bytes sm, pk, sk, m; u8 *psk, *psm, *ppk, *pm; size_t sh = pl.shift, sb = st.rp.sigb();
    size_t nsm = o.kind == 1 ? sb + o.msg.size() : o.sm.size(), nm = o.kind == 1 ? o.msg.size() : o.sm.size();
    if (pl.fixed) { psk = pl.fixed; psm = psk + (1 << 20); ppk = psm + (1 << 20); pm = ppk + 4096; } else { sk.resize(k.sk.size() + sh); sm.resize(nsm + sh + 1); pk.resize(k.pk.size() + sh); m.resize(nm + sh + 1); psk = &sk[sh]; psm = &sm[sh]; ppk = &pk[sh]; pm = &m[sh]; }
    memset(psk, pl.pat, k.sk.size()); memset(psm, pl.pat, nsm); memset(ppk, pl.pat, k.pk.size()); memset(pm, pl.pat, nm); r.len = pl.pat * 0x0101010101ULL; poison_stack(pl.pat); progress();
    if (o.kind == 0) { Rng rr(o.seed); rand_src() = &rr; if (k.im->rand_hook) *k.im->rand_hook = rand_fill; r.rc = k.keypair(ppk, psk); rand_src() = nullptr; r.len = 0; r.a.assign(ppk, ppk + k.pk.size()); r.b.assign(psk, psk + k.sk.size()); }
    else if (o.kind == 1) { memcpy(psk, o.sk.data(), o.sk.size()); if (nm) memcpy(pm, o.msg.data(), nm); poison_stack(pl.pat); r.rc = k.sign(psk, psm, &r.len, pm, nm); if (!r.rc) r.a.assign(psm, psm + std::min<size_t>(nsm, r.len)); else r.len = 0; r.b.assign(psk, psk + k.sk.size()); }
    else { memcpy(psm, o.sm.data(), o.sm.size()); memcpy(ppk, o.pk.data(), o.pk.size()); poison_stack(pl.pat); r.rc = k.open(pm, &r.len, psm, o.sm.size(), ppk); r.a.assign(pm, pm + std::min<size_t>(nm, r.rc ? (o.sm.size() < sb ? o.sm.size() : o.sm.size() - sb) : r.len)); }
    return r;
}
static Out isolated(const Op &o) {   // in a child
    int fd[2]; if (pipe(fd)) fail("pipe"); fflush(stdout); pid_t p = fork();
    if (!p) { close(fd[0]); progress_count() = 0; Out r = perform(o, Place()); auto wr = [&](const void *b, size_t n) { while (n) { ssize_t k = write(fd[1], b, n); if (k <= 0) _exit(1); b = (char *)b + k; n -= k; } }; size_t n[2] = {r.a.size(), r.b.size()}; wr(&r.rc, sizeof r.rc); wr(&r.len, sizeof r.len); wr(n, sizeof n); wr(r.a.data(), n[0]); wr(r.b.data(), n[1]); _exit(0); }
    close(fd[1]); Out r; bool ok = true; auto rd = [&](void *b, size_t n) { while (n) { ssize_t k = read(fd[0], b, n); if (k <= 0) { ok = false; return; } b = (char *)b + k; n -= k; } }; size_t n[2] = {0, 0}; rd(&r.rc, sizeof r.rc); rd(&r.len, sizeof r.len); rd(n, sizeof n); if (ok) { r.a.resize(n[0]); r.b.resize(n[1]); rd(r.a.data(), n[0]); rd(r.b.data(), n[1]); }
    close(fd[0]); int stt; waitpid(p, &stt, 0); if (!ok) { viol("C10", "crash alone", fmt("%s: an operation in a process of its own ends with status %x", sets[o.key].spec.c_str(), stt)); fail("child"); } return r;
}
static std::string describe(const Op &o) { static const char *n[] = {"key generation", "signing", "verification"}; std::string s = sets[o.key].spec + " " + ims[o.key]->name + " " + n[o.kind]; if (o.kind == 1) s += fmt(" at index %" PRIu64 ", message of %zu bytes", be(&o.sk[sets[o.key].off()], sets[o.key].rp.idxb()), o.msg.size()); return s; }
static bool compare(const Op &o, const Out &e, const Out &g, const std::string &how) {
    static const char *na[] = {"public key", "signed message", "message"}; std::string w;
    if (!e.rc != !g.rc) w = fmt("return code %d instead of %d", g.rc, e.rc); else if (o.kind && !e.rc && e.len != g.len) w = fmt("length %llu instead of %llu", g.len, e.len); else if (e.a != g.a) { size_t i = 0; while (i < e.a.size() && i < g.a.size() && e.a[i] == g.a[i]) i++; w = fmt("%s differs from byte %zu on", na[o.kind], i); } else if (e.b != g.b) { size_t i = 0; while (i < e.b.size() && i < g.b.size() && e.b[i] == g.b[i]) i++; w = fmt("secret key differs from byte %zu on", i); }
    if (w.empty()) return true; viol("C10", std::string("differs ") + (o.kind == 0 ? "keypair " : o.kind == 1 ? "sign " : "open ") + ims[o.key]->name, describe(o) + ": " + w + " from the same operation alone in a fresh process, " + how); return false;
}
static void vg(const std::string &what, const u8 *p, size_t n) { u64 x = (u64)VALGRIND_CHECK_MEM_IS_DEFINED(p, n); if (x) { viol("C10", "uninitialized " + what, what + fmt(": byte %" PRIu64 " of %zu was made from uninitialized memory", x - (u64)p, n)); VALGRIND_MAKE_MEM_DEFINED(p, n); } }
int main(int c, char **v) {
    Args a(c, v); Rng r(a.n("seed", 1) * 577 + 19); R = &r; watch("C10", "operation"); std::string mode = a.s("mode", "order");
    for (auto &s : a.list("set", ';')) for (auto im : {"plain", "fast"}) if (a.s("impl", "both") == "both" || a.s("impl") == im) { sets.push_back(mkset(s)); ims.push_back(load(im)); }
    u64 nops = 0, nrep = 0; std::set<u64> distinct;
    if (mode == "vg") {
        for (size_t i = 0; i < sets.size(); i++) { const Set &st = sets[i]; const auto &p = st.rp; std::string w = st.spec + " " + ims[i]->name + " "; Key k(ims[i], &st); (void)!VALGRIND_MAKE_MEM_UNDEFINED(k.sk.data(), k.sk.size()); (void)!VALGRIND_MAKE_MEM_UNDEFINED(k.pk.data(), k.pk.size());
            keypair_seeded(k, 5 + i); nops++; vg(w + "public key", k.pk.data(), k.pk.size()); vg(w + "fresh secret key", k.sk.data(), k.sk.size()); u64 cap = std::min<u64>(p.capacity() + 1, a.n("count", 20));
            for (u64 e = 0; e < cap; e++) { u8 *m = (u8 *)malloc(50), *sm = (u8 *)malloc(p.sigb() + 50); r.fill(m, 50); ull *l = (ull *)malloc(sizeof *l); int rc = k.sign(k.sk.data(), sm, l, m, 50); nops++; distinct.insert(e * 1000 + i); if (!rc) { vg(w + "signature length", (u8 *)l, sizeof *l); vg(w + "signature", sm, p.sigb()); vg(w + "message in signed message", sm + p.sigb(), 50); } vg(w + "secret key after signing", k.sk.data(), k.sk.size());
                if (e < 2 || e + 2 >= cap) { u8 *o = (u8 *)malloc(p.sigb() + 50); if (rc) r.fill(sm, p.sigb() + 50); if (e == 1) sm[p.sigb() - 1] ^= 1; ull *ml = (ull *)malloc(sizeof *ml); int rr = k.open(o, ml, sm, p.sigb() + 50, k.pk.data()); nops++; vg(w + "message length", (u8 *)ml, sizeof *ml); vg(w + (rr ? "rejected message" : "opened message"), o, 50); free(o); free(ml); }
                free(m); free(sm); free(l); }
        }
        sample(fmt("%" PRIu64 " operations under valgrind: %d", nops, (int)RUNNING_ON_VALGRIND));
    } else {
        std::vector<Op> ops; std::vector<Out> outs; std::vector<Bytes> sk(sets.size()), pk(sets.size()); std::vector<Bytes> lastsm(sets.size()); u64 N = a.n("count", 200); bool seeded = ims[0]->rand_hook != nullptr; if (!seeded) { skip("random source not replaceable"); }
        auto add = [&](Op o) { outs.push_back(isolated(o)); nops++; distinct.insert(fnv(o.sk.data(), std::min<size_t>(o.sk.size(), 64), fnv(o.msg.data(), o.msg.size(), fnv(o.sm.data(), o.sm.size(), o.kind + 3 * o.key)))); ops.push_back(std::move(o)); return outs.back(); };
        for (size_t i = 0; i < sets.size(); i++) { Op o; o.kind = 0; o.key = i; o.seed = r.next() >> (i % 2 ? 0 : 0); Out e = add(o); if (e.rc) fail("keypair"); pk[i] = e.a; sk[i] = e.b; }
        for (u64 q = 0; q < N; q++) { size_t i = r.below(sets.size()); const Set &st = sets[i];
            if (r.below(4) == 0 && !lastsm[i].empty()) { Op o; o.kind = 2; o.key = i; o.sm = lastsm[i]; o.pk = pk[i]; u64 t = r.below(4); if (t == 1) o.sm[r.below(o.sm.size())] ^= 4; if (t == 2) o.sm.resize(r.below(o.sm.size())); add(o); continue; }
            Op o; o.kind = 1; o.key = i; o.sk = sk[i]; o.msg = message(r, r.below(2)); if (r.below(3) == 0) o.msg.resize(std::min<size_t>(o.msg.size(), 32)); Out e = add(o); sk[i] = e.b; if (!e.rc) lastsm[i] = e.a;
            if (e.rc) { Op g; g.kind = 0; g.key = i; g.seed = r.next(); Out f = add(g); pk[i] = f.a; sk[i] = f.b; lastsm[i].clear(); } (void)st; }
        // the same operations with one part of a key changed: keys that have much in common must not be mistaken for each other
        for (u64 q = 0, n0 = ops.size(); q < N / 3 && n0; q++) { Op o = ops[r.below(n0)]; const auto &p = sets[o.key].rp; size_t of = sets[o.key].off(), part = r.below(4), in = r.below(3) ? (r.below(2) ? p.n - 1 : 0) : r.below(p.n); u8 x = 1 << r.below(8); if (!o.kind) continue;
            if (o.kind == 1) o.sk[of + p.idxb() + part * p.n + in] ^= x; else if (part < 2) o.pk[of + part * p.n + in] ^= x; else if (o.sm.size() > p.idxb() + p.n) o.sm[part == 2 ? p.idxb() + in : r.below(p.idxb())] ^= x; add(o); }
        // once more, alone, in a new process: the same?
        for (u64 q = 0; q < 20; q++) { size_t j = r.below(ops.size()); if (ops[j].kind || seeded) { nrep++; compare(ops[j], outs[j], isolated(ops[j]), "done again alone"); } }
        u8 *fixed = (u8 *)mmap(nullptr, 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (u64 round = 0; round < a.n("rounds", 4); round++) {
            std::vector<size_t> ord(ops.size()); for (size_t i = 0; i < ord.size(); i++) ord[i] = i; if (round) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
            static const u8 pats[] = {0, 0xff, 0xA5, 1, 0x80}; Place pl; pl.pat = pats[round % 5]; pl.shift = round * 3 % 16; if (round % 2) pl.fixed = fixed; mallopt(M_PERTURB, pl.pat ^ 0x5a);
            for (size_t j : ord) { if (!ops[j].kind && !seeded) continue; if (round > 1) pl.pat = pats[r.below(5)]; nrep++; if (!compare(ops[j], outs[j], perform(ops[j], pl), round ? fmt("when done among other operations in random order (round %d, outputs filled with %02x%s)", (int)round, pl.pat, pl.fixed ? ", all keys at the same address" : "") : std::string("when done after the other operations"))) break; }
        }
        for (size_t i = 0; i < sets.size() && i < 3; i++) sample(describe(ops[i]) + fmt(" and %zu other operations, each alone and %d times among others", ops.size() - 1, (int)a.n("rounds", 4)));
    }
    stat("operations", nops); stat("repetitions compared", nrep); stat("distinct operations", distinct.size()); done();
}
