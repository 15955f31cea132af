// Messages longer than 4 GiB. Buffers end at inaccessible pages.
#include "hx.hpp"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/evp.h>
#include <openssl/sha.h>
using namespace hx;
static u8 *big(size_t n) { size_t b = (n + 4095) / 4096 * 4096; u8 *p = (u8 *)mmap(nullptr, b + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { skip("not enough memory for messages beyond 4 GiB"); done(); exit(0); } mprotect(p + b, 4096, PROT_NONE); madvise(p, b, MADV_HUGEPAGE); return p + b - n; }
static void digest(const ref::Params &p, u8 *out, const u8 *R, const u8 *root, u64 idx, const u8 *m, size_t n) {
    Bytes pre(p.pad() + 3 * p.n); ref::toByte(&pre[0], 2, p.pad()); memcpy(&pre[p.pad()], R, p.n); memcpy(&pre[p.pad() + p.n], root, p.n); ref::toByte(&pre[p.pad() + 2 * p.n], idx, p.n);
    const EVP_MD *md = p.func == ref::SHA2 ? (p.n == 64 ? EVP_sha512() : EVP_sha256()) : p.func == ref::SHAKE128 ? EVP_shake128() : EVP_shake256(); EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit(c, md); EVP_DigestUpdate(c, pre.data(), pre.size()); EVP_DigestUpdate(c, m, n);
    u8 t[64]; if (p.func == ref::SHA2) { unsigned l; EVP_DigestFinal(c, t, &l); } else EVP_DigestFinalXOF(c, t, p.n); memcpy(out, t, p.n); EVP_MD_CTX_free(c);
}
static bool zeros(const u8 *p, size_t n) { static const u8 z[4096] = {0}; while (n) { size_t k = n < 4096 ? n : 4096; if (memcmp(p, z, k)) return false; p += k; n -= k; } return true; }
int main(int ac, char **av) {
    Args a(ac, av); std::string prop = a.s("prop", "C01"), w; watch(strdup(prop.c_str()), "message beyond 4 GiB"); Set st = mkset(a.s("set")); const auto &p = st.rp; Key k(load(a.s("impl", "plain")), &st);
    bool open = (prop == "C01" && a.n("open", 1)) || prop == "C11", alter = prop == "C02" || prop == "C11"; size_t L = (1ULL << 32) + a.n("extra", 37), sb = p.sigb(); u64 nv = 0; w = st.spec + " " + k.im->name;
    keypair_seeded(k, a.n("seed", 1)); u8 *m = big(L), *sm = big(L + sb); Rng r(a.n("seed", 1));
    for (size_t pos : {(size_t)0, (size_t)36, (size_t)1 << 31, ((size_t)1 << 32) - 1, (size_t)1 << 32, L - 1}) m[pos] = 1 + r.below(255);
    ull sl = 0; progress(); int rc = k.sign(k.sk.data(), sm, &sl, m, L);
    if (rc) { viol("C01", "huge refused " + k.im->name, w + fmt(": signing a message of %zu bytes fails", L)); done(); return 0; }
    if (sl != L + sb) viol("C01", "huge smlen " + k.im->name, w + fmt(": signed message length %llu for a message of %zu bytes", sl, L));
    if (memcmp(sm + sb, m, L)) viol("C01", "huge message part " + k.im->name, w + fmt(": signed message does not contain the message of %zu bytes", L));
    { ref::Key rk(p, k.seed3n().data()); Bytes R(p.n), d(p.n); rk.R(R.data(), 0); digest(p, d.data(), R.data(), rk.root.data(), 0, m, L); Bytes e = rk.sign(0, nullptr, 0, d.data()); if (memcmp(sm, e.data(), sb)) { if (prop == "C01") open = true; viol("C05", "huge signature " + k.im->name, w + fmt(": signature of a message of %zu bytes is not that of RFC 8391", L)); } }
    if (open || alter) {
        memcpy(sm + sb, m, L); u8 *o = big(L + sb); ull ml; auto op = [&](size_t n) { ml = ~0ULL; progress(); nv++; return k.open(o, &ml, sm, n, k.pk.data()); };
        if (open) { rc = op(L + sb); if (rc) viol("C01", "huge rejected " + k.im->name, w + fmt(": signature of a message of %zu bytes rejected", L)); else { if (ml != L || memcmp(o, m, L)) for (auto c : {"C01", "C11"}) viol(c, "huge opened " + k.im->name, w + fmt(": message of %zu bytes opened to another of %llu bytes", L, ml)); } }
        if (alter) {
            auto rej = [&](size_t n, const std::string &what) { int rc = op(n); if (!rc) viol("C02", "huge accepted " + k.im->name, w + ": " + what + " accepted"); else { if (ml) viol("C11", "huge length rejected " + k.im->name, w + fmt(": %s rejected, but length %llu reported", what.c_str(), ml)); if (n >= sb && !zeros(o, n - sb)) viol("C11", "huge message rejected " + k.im->name, w + ": " + what + " rejected, but the message's place does not hold zeros"); } };
            sm[sb + L - 1] ^= 1; rej(L + sb, fmt("a message of %zu bytes with the last byte changed", L)); sm[sb + L - 1] ^= 1;
            rej(L + sb - (1ULL << 32), "a message with 2^32 bytes cut off");
            if (prop == "C02") { Bytes s2(sb + 37); ull x; k.sign(k.sk.data(), s2.data(), &x, m, 37); memcpy(sm, s2.data(), s2.size()); rej(sb + 37 + (1ULL << 32), "a message of 37 bytes with 2^32 bytes appended"); rej((1ULL << 32) + sb - 1, "a signed message of 2^32 + signature length - 1 bytes"); }
        }
    }
    stat("signatures", 1); stat("verifications", nv); stat("messages beyond 4 GiB", 1); stat("distinct (index, message) signed", 1); stat("distinct inputs verified", nv); sample(w + fmt(": message of %zu bytes signed%s", L, open ? " and opened" : "")); done();
}
