// C19, to be run under valgrind: secrets are marked as undefined memory, so that a
// branch or an address that depends on them is reported. The digests that one-time
// signatures are made on (and that the signature makes public) are declassified.
#include "hx.hpp"
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#else
#error no valgrind headers
#endif
using namespace hx;
static u64 ndecl, nops, drawn; static Bytes stream; static std::vector<bool> secret; static bool marking; static size_t pos;
static void src(u8 *x, ull n) { for (ull i = 0; i < n; i++, pos++) { if (pos >= stream.size()) fail("more random bytes than expected"); x[i] = stream[pos]; if (marking && secret[pos]) VALGRIND_MAKE_MEM_UNDEFINED(x + i, 1); } drawn += n; }
static int declass(const xmss_params *p, u8 *, const u8 *msg, const u8 *, const u8 *, const u32 *) { VALGRIND_MAKE_MEM_DEFINED(msg, p->n); ndecl++; return 0; }
int main(int c, char **v) {
    Args a(c, v); if (!RUNNING_ON_VALGRIND) fail("not under valgrind"); Impl *im = load(a.s("impl", "plain")); if (!im->rand_hook || !im->wsign_hook) { skip("hooks not available"); done(); return 0; } u64 tainted = 0, errs = 0;
    for (auto &sp : a.list("set", ';')) {
        Set st = mkset(sp); const auto &p = st.rp; unsigned n = p.n; Rng r(a.n("seed", 1) * 7 + n); stream = r.bytes(8 * n); std::string w = sp + "(" + p.name + ") " + im->name;
        *im->rand_hook = src; *im->wsign_hook = declass; marking = false; pos = 0; Key k(im, &st); k.keypair(); size_t used = pos; nops++;
        // which of the bytes drawn are the secret seed and the randomizer key
        secret.assign(stream.size(), false); size_t found = 0; for (const u8 *part : {k.skseed(), k.skprf()}) for (size_t i = 0; i + n <= used; i++) if (!memcmp(&stream[i], part, n)) { for (unsigned j = 0; j < n; j++) secret[i + j] = true; found++; break; }
        if (found < 2) { skip(w + ": the seeds are not parts of the random bytes as drawn"); continue; }
        Key t(im, &st); marking = true; pos = 0; t.keypair(); nops++; marking = false;
        if (VALGRIND_CHECK_MEM_IS_DEFINED(t.skseed(), n) == 0) { skip(w + ": the secret is not tracked"); continue; }
        u64 cap = std::min<u64>(p.capacity() + 1, a.n("count", 8)); u64 d0 = ndecl;
        for (u64 e = 0; e < cap; e++) { u8 *m = (u8 *)malloc(33), *sm = (u8 *)malloc(p.sigb() + 33); for (int i = 0; i < 33; i++) m[i] = i * 7 + e; ull l; t.sign(t.sk.data(), sm, &l, m, 33); nops++; free(m); free(sm); }
        if (VALGRIND_CHECK_MEM_IS_DEFINED(t.skseed(), n) != 0) tainted++;
        // jumps into the middle of the life are as good as signing up to there for the plain signer
        for (auto &j : a.list("jumps")) { u64 J = strtoull(j.c_str(), 0, 0); if (J >= p.capacity()) continue; Key q(im, &st); marking = true; pos = 0; q.keypair(); marking = false; q.set_idx(J); for (int e = 0; e < 2; e++) { u8 *m = (u8 *)malloc(33), *sm = (u8 *)malloc(p.sigb() + 33); for (int i = 0; i < 33; i++) m[i] = i * 3 + e; ull l; q.sign(q.sk.data(), sm, &l, m, 33); nops++; free(m); free(sm); } }
        if (ndecl == d0) { skip(w + ": one-time signing not observed"); }
        sample(w + fmt(": key generated and %d signatures made with %u secret bytes undefined, %" PRIu64 " digests declassified", (int)cap, 2 * n, ndecl - d0));
    }
    errs = VALGRIND_COUNT_ERRORS; stat("operations with secrets undefined", nops); stat("digests declassified", ndecl); stat("keys tracked to the end", tainted); stat("valgrind errors", errs); done();
}
