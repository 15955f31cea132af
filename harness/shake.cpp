// C14: the built-in SHAKE128/256 against libcrypto's and the reference's.
#include "hx.hpp"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/evp.h>
using namespace hx;
typedef void (*Fn)(u8 *, ull, const u8 *, ull);
static u64 ncalls, ncross; static std::set<u64> lens;
static EVP_MD_CTX *ctx; static EVP_MD *md[2];
static void oracle(int w, u8 *out, size_t ol, const u8 *in, size_t il) { EVP_DigestInit_ex(ctx, md[w], nullptr); EVP_DigestUpdate(ctx, in, il); if (ol) EVP_DigestFinalXOF(ctx, out, ol); }
static const char *nm[2] = {"SHAKE128", "SHAKE256"};
struct Tester {
    Fn f[2]; Rng *r; bool guard; size_t maxlen; Buf *in, *out;   // buffers whose ends lie at inaccessible pages, reused
    Bytes want;
    Tester(Impl *im, Rng *r, size_t maxlen) : r(r), maxlen(maxlen) { f[0] = (Fn)im->shake128; f[1] = (Fn)im->shake256; in = new Buf(maxlen, true); out = new Buf(maxlen, true); want.resize(maxlen + 1); }
    // input and output at the ends of their mappings (so that neither reading nor writing behind goes unnoticed), a pattern before the output
    void one(int w, size_t ol, size_t il, bool cross) {
        if (!f[w]) return;
        u8 *i = in->p + in->n - il, *o = out->p + out->n - ol; size_t pre = std::min<size_t>(64, out->n - ol); r->fill(i, il > 64 && r->below(4) ? 64 : il); memset(o - pre, 0xC3, pre + ol); u64 hi = il <= 4096 ? fnv(i, il) : 0;
        progress(); f[w](o, ol, i, il); ncalls++; lens.insert((u64)w << 62 | (u64)ol << 31 | il); oracle(w, want.data(), ol, i, il);
        std::string at = fmt("%s input %zu bytes, output %zu bytes", nm[w], il, ol);
        if (memcmp(o, want.data(), ol)) { size_t d = 0; while (o[d] == want[d]) d++; viol("C14", fmt("output %s", nm[w]), at + fmt(": differs from FIPS 202 from byte %zu on", d)); }
        for (size_t k = 0; k < pre; k++) if ((o - pre)[k] != 0xC3) { viol("C14", "write before output", at + ": byte before the output written"); break; }
        if (il <= 4096 && fnv(i, il) != hi) viol("C14", "input changed", at + ": input changed");
        if (cross) { ncross++; Bytes x(ol + 1); ref::shake(w ? 136 : 168, x.data(), ol, i, il); if (memcmp(x.data(), want.data(), ol)) fail("reference and libcrypto disagree: " + at); }
    }
    // the same in the middle of a pattern, unaligned
    void middle(int w, size_t ol, size_t il) {
        if (!f[w]) return;
        size_t sh = r->below(16); Bytes o(ol + 96, 0x3C), i = r->bytes(il + 32); Bytes i2 = i; progress(); f[w](&o[32 + sh], ol, &i[sh], il); ncalls++; oracle(w, want.data(), ol, &i[sh], il);
        std::string at = fmt("%s input %zu bytes, output %zu bytes at offset %zu", nm[w], il, ol, sh);
        if (memcmp(&o[32 + sh], want.data(), ol)) viol("C14", fmt("output %s", nm[w]), at + ": differs from FIPS 202");
        for (size_t k = 0; k < o.size(); k++) if ((k < 32 + sh || k >= 32 + sh + ol) && o[k] != 0x3C) { viol("C14", "write outside output", at + fmt(": byte %ld outside the output written", (long)k - (long)(32 + sh))); break; }
        if (i != i2) viol("C14", "input changed", at + ": input changed");
    }
};
int main(int c, char **v) {
    Args a(c, v); Rng r(a.n("seed", 1) * 977 + 1); watch("C14", "SHAKE"); Impl *im = load(a.s("impl", "plain")); ctx = EVP_MD_CTX_new(); md[0] = EVP_MD_fetch(nullptr, "SHAKE128", nullptr); md[1] = EVP_MD_fetch(nullptr, "SHAKE256", nullptr);
    std::string mode = a.s("mode", "grid"); for (int w = 0; w < 2; w++) if (!(w ? im->shake256 : im->shake128)) skip(fmt("no function %s", nm[w]));
    if (mode == "grid") {
        size_t N = a.n("max", 1400); Tester t(im, &r, N + 8); const size_t L[] = {0, 1, 2, 7, 8, 9, 24, 31, 32, 33, 64, 96, 128, 135, 136, 137, 167, 168, 169, 271, 272, 273, 335, 336, 337, 408, 504, 512, 1000};
        for (int w = 0; w < 2; w++) for (size_t x = 0; x <= N; x++) { for (size_t l : L) { if (l > N) continue; t.one(w, l, x, (x + l) % 17 == 0); t.one(w, x, l, (x + l) % 17 == 0); } t.middle(w, x, r.below(N)); t.middle(w, r.below(N), x); t.one(w, r.below(N), x, false); t.one(w, x, r.below(N), false); }
        for (int w = 0; w < 2; w++) for (size_t x = 0; x <= 520; x++) for (size_t y = a.n("seed") % 3; y <= 520; y += 3) t.one(w, y, x, false);
        sample(fmt("input and output lengths 0..%zu, %" PRIu64 " calls", N, ncalls));
    } else if (mode == "big") {
        Tester t(im, &r, a.n("max", 6u << 20)); for (int w = 0; w < 2; w++) for (u64 i = 0; i < a.n("count", 40); i++) { size_t b = i % 2 ? (size_t)1 << (10 + r.below(12)) : r.below(t.maxlen - 300); size_t l = std::min(t.maxlen, b + r.below(300)); size_t o = r.below(400); if (i % 3) t.one(w, o, l, false); else t.one(w, l, o, false); }
        size_t rates[2] = {168, 136}; for (int w = 0; w < 2; w++) for (size_t k : {255, 256, 257, 511, 512, 1023, 1024, 4096}) for (int d = -1; d <= 1; d++) { t.one(w, 64, k * rates[w] + d, false); t.one(w, k * rates[w] + d, 32, false); t.one(w, 8 * k + d, 8 * k + d, false); }
        sample(fmt("lengths up to %zu, %" PRIu64 " calls", t.maxlen, ncalls));
    } else {   // beyond 4 GiB
        size_t L = (1ULL << 32) + 200; int w = a.n("which", 0); Fn f = w ? (Fn)im->shake256 : (Fn)im->shake128; std::string dir = a.s("dir", "in");
        if (!f) { stat("calls", 0); done(); return 0; }
        size_t mapl = (L + 4095) / 4096 * 4096; u8 *b = (u8 *)mmap(nullptr, mapl + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) { skip("no memory for 4 GiB"); stat("calls", 0); done(); return 0; } mprotect(b + mapl, 4096, PROT_NONE); madvise(b, mapl, MADV_HUGEPAGE); u8 *p = b + mapl - L;
        if (dir == "in") { p[0] = 7; p[L - 1] = 9; p[1ULL << 32] = 5; u8 o[48], e[48]; progress(); f(o, 48, p, L); ncalls++; oracle(w, e, 48, p, L); if (memcmp(o, e, 48)) viol("C14", fmt("output %s huge input", nm[w]), fmt("%s of %zu bytes differs from FIPS 202", nm[w], L)); }
        else {   // squeeze block by block with the reference's permutation
            u8 in[50]; r.fill(in, 50); progress(); f(p, L, in, 50); ncalls++; size_t rate = w ? 136 : 168; u64 s[25] = {0}; u8 blk[200] = {0}; memcpy(blk, in, 50); blk[50] ^= 0x1f; blk[rate - 1] ^= 0x80; for (size_t i = 0; i < rate / 8; i++) { u64 x; memcpy(&x, blk + 8 * i, 8); s[i] ^= x; }
            for (size_t o = 0; o < L; o += rate) { ref::keccak_f(s); size_t n = std::min(rate, L - o); if (memcmp(p + o, s, n)) { viol("C14", fmt("output %s huge output", nm[w]), fmt("%s: output of %zu bytes differs from FIPS 202 from byte %zu on", nm[w], L, o)); break; } }
        }
        lens.insert(L * 4 + w * 2 + (dir == "in")); sample(fmt("%s %s of %zu bytes", nm[w], dir.c_str(), L));
    }
    stat("calls", ncalls); stat("cross-checks of the reference", ncross); stat("distinct length pairs", lens.size()); done();
}
