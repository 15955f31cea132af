// C13: one-time signatures. Positions revealed are read off with a stand-in for the
// chain step that counts, and compared with the reference with the real one.
#include "hx.hpp"
using namespace hx;
static Rng *R; static Impl *im; static Set st; static u64 nsig, nreal, npairs, ncs; static std::set<u64> csums;
// out = in, its first 4 bytes (little endian) one higher
static int count_step(unsigned n, u8 *out, const u8 *in, const u8 *, const u32 *) { u32 v; memcpy(&v, in, 4); v++; memmove(out, in, n); memcpy(out, &v, 4); return 1; }
static void addr(u32 *a, bool wild) { for (int i = 0; i < 8; i++) a[i] = R->below(4) ? (u32)R->next() : R->below(2) ? 0 : 0xffffffffu; a[3] = 0; if (!wild) a[5] = a[6] = a[7] = 0; }
static Bytes digest_of(const ref::Params &p, unsigned kind, u64 arg) {   // digits chosen so that the sum of (w-1-digit) is arg
    Bytes d(p.n); unsigned l1 = p.n * 8 / p.lgw(); if (kind == 0) memset(d.data(), 0, p.n); else if (kind == 1) memset(d.data(), 0xff, p.n); else if (kind == 2) R->fill(d.data(), p.n); else {
        std::vector<unsigned> inv(l1, 0); u64 left = arg; unsigned q = R->below(3);   // spread evenly, packed to the front, or at random
        for (unsigned i = 0; q == 1 && i < l1; i++) { inv[i] = std::min<u64>(left, p.w - 1); left -= inv[i]; }
        if (q == 0) for (unsigned i = 0; i < l1; i++) { inv[i] = left / (l1 - i); left -= inv[i]; }
        while (left) { unsigned i = R->below(l1), room = p.w - 1 - inv[i]; if (!room) continue; u64 v = 1 + R->below(std::min<u64>(room, left)); inv[i] += v; left -= v; }
        for (unsigned i = 0; i < l1; i++) { unsigned per = 8 / p.lgw(); d[i / per] |= (p.w - 1 - inv[i]) << (8 - p.lgw() * (i % per + 1)); }
    }
    return d;
}
struct Pos { std::vector<long> v; };
static u32 head(const u8 *p) { u32 v; memcpy(&v, p, 4); return v; }
static std::vector<std::map<Bytes, long>> tab;   // with the real chain step: where each value lies in its chain, by the reference
static std::vector<long> positions(xmss_params *prm, const Bytes &d, const Bytes &seed, const Bytes &pub, const u32 *a0, const Bytes &pk) {
    const auto &p = st.rp; Bytes sig(p.wotsb()); u32 a[8]; memcpy(a, a0, 32); Bytes dc = d; progress(); im->wots_sign(prm, sig.data(), d.data(), seed.data(), pub.data(), a); nsig++;
    std::vector<long> v; if (tab.size()) for (unsigned i = 0; i < p.len(); i++) { auto f = tab[i].find(Bytes(&sig[i * p.n], &sig[i * p.n] + p.n)); v.push_back(f == tab[i].end() ? -1000000 : f->second); }
    else for (unsigned i = 0; i < p.len(); i++) { long q = (long)p.w - 1 - (long)(u32)(head(&pk[i * p.n]) - head(&sig[i * p.n])); bool on = !memcmp(&pk[i * p.n + 4], &sig[i * p.n + 4], p.n - 4); v.push_back(on ? q : -1000000); }
    // consistency
    Bytes pk2(p.wotsb()); memcpy(a, a0, 32); im->wots_pk_from_sig(prm, pk2.data(), sig.data(), d.data(), pub.data(), a);
    if (pk2 != pk) viol("C13", "consistency " + st.spec, st.spec + ": public key recovered from the one-time signature on " + hex(d.data(), d.size()) + " is not the generated one");
    return v;
}
static void judge(const Bytes &d, const std::vector<long> &v) {
    auto e = ref::digits(st.rp, d.data()); for (unsigned i = 0; i < e.size(); i++) if ((long)e[i] != v[i]) { viol("C13", fmt("position %s %s", i < st.rp.len1() ? "digit" : "checksum", st.spec.c_str()), st.spec + fmt(": chain %u of the one-time signature on %s is at position %ld instead of %u", i, hex(d.data(), d.size()).c_str(), v[i], e[i])); return; }
}
static void extend(const Bytes &a, const std::vector<long> &va, const Bytes &b, const std::vector<long> &vb) {
    if (a == b) return; npairs++; bool ab = false, ba = false; for (size_t i = 0; i < va.size(); i++) { ab |= vb[i] < va[i]; ba |= va[i] < vb[i]; }
    if (!ab) viol("C13", "extendable " + st.spec, st.spec + ": the one-time signature on " + hex(a.data(), a.size()) + " can be hashed forward to one on " + hex(b.data(), b.size()));
    if (!ba) viol("C13", "extendable " + st.spec, st.spec + ": the one-time signature on " + hex(b.data(), b.size()) + " can be hashed forward to one on " + hex(a.data(), a.size()));
}
int main(int c, char **v) {
    Args a(c, v); Rng r(a.n("seed", 1) * 101 + 3); R = &r; watch("C13", "one-time signature"); im = load(a.s("impl", "plain"));
    auto hook = (int (**)(unsigned, u8 *, const u8 *, const u8 *, const u32 *))dlsym(im->h, "hx_thash_f_hook");
    for (auto &sp : a.list("set", ';')) {
        st = mkset(sp); const auto &p = st.rp; xmss_params prm = st.params(im); if (prm.wots_len != p.len() || prm.wots_sig_bytes != p.wotsb()) { viol("C13", "length " + sp, sp + fmt(": %u chains instead of %u", prm.wots_len, p.len())); continue; }
        u64 maxc = (u64)p.len1() * (p.w - 1), step = a.n("csumstep", 1);
        // with the counting stand-in
        bool works = false;
        for (int real = 0; real < 2 && !works; real++) { works = real || hook; if (!works) continue; tab.clear(); if (real) step *= p.w == 256 ? 40 : 4;
            if (!real) *hook = count_step; Bytes seed = r.bytes(p.n), pub = r.bytes(p.n), pk(p.wotsb()); u32 ad[8], x[8]; addr(ad, false); memcpy(x, ad, 32); im->wots_pkgen(&prm, pk.data(), seed.data(), pub.data(), x);
            Bytes sk0(p.wotsb()); for (unsigned i = 0; i < p.len(); i++) { ref::Adrs A; for (int j = 0; j < 8; j++) A.w[j] = ad[j]; ref::wots_sk(p, &sk0[i * p.n], i, seed.data(), pub.data(), A); }
            bool same = true;
            if (real) { ref::Adrs A; for (int j = 0; j < 8; j++) A.w[j] = j < 5 ? ad[j] : 0; same = ref::wots_pk(p, seed.data(), pub.data(), A) == pk; tab.resize(p.len());
                for (unsigned i = 0; i < p.len() && same; i++) { Bytes y(&sk0[i * p.n], &sk0[i * p.n] + p.n); for (unsigned q = 0; q < p.w; q++) { tab[i][y] = q; A.w[5] = i; ref::chain(p, y.data(), q, 1, pub.data(), A); } }
                if (!same) { works = false; tab.clear(); skip("one-time public keys are not the reference's (decided by C05): " + sp); } }
            else { for (unsigned i = 0; i < p.len(); i++) same &= !memcmp(&sk0[i * p.n + 4], &pk[i * p.n + 4], p.n - 4);   // chains start at the standard's secret values
            if (same) for (unsigned i = 0; i < p.len(); i++) if (head(&pk[i * p.n]) - head(&sk0[i * p.n]) != p.w - 1) viol("C13", "public key position " + sp, sp + fmt(": chain %u of the public key is at position %u instead of %u", i, head(&pk[i * p.n]) - head(&sk0[i * p.n]), p.w - 1)); }
            std::vector<std::pair<Bytes, std::vector<long>>> recent; auto go = [&](const Bytes &d) { auto v = positions(&prm, d, seed, pub, ad, pk); judge(d, v); for (auto &q : recent) extend(q.first, q.second, d, v); if (recent.size() >= 6) recent.erase(recent.begin() + r.below(6)); recent.push_back({d, v}); return v; };
            if (!real) { auto q = positions(&prm, r.bytes(p.n), seed, pub, ad, pk); bool off = false; for (long z : q) off |= z < -100000; if (off && !same) works = false; }   // the chains do not go through the hook
            if (works) {
                for (unsigned k = 0; k < 3; k++) go(digest_of(p, k, 0));
                for (u64 cs = 0; cs <= maxc; cs++) { bool edge = cs < 40 || cs + 40 > maxc || (cs + 1) % p.w < 3 || (cs + 1) % 256 < 3; if (!edge && cs % step != a.n("seed") % step) continue; Bytes d = digest_of(p, 3, cs); auto v = go(d); csums.insert(cs * 1000003 + p.n * 7 + p.w); ncs++;
                    if (cs % 7 == 0) {   // digits only raised: the checksum must answer
                        Bytes e = d; unsigned per = 8 / p.lgw(); for (u64 t = 1 + r.below(3); t; t--) { unsigned i = r.below(p.len1()), sh = 8 - p.lgw() * (i % per + 1), dg = (e[i / per] >> sh) & (p.w - 1); if (dg < p.w - 1) { unsigned nd = dg + 1 + r.below(p.w - 1 - dg); e[i / per] = (e[i / per] & ~((p.w - 1) << sh)) | nd << sh; } }
                        if (e != d) { auto ve = positions(&prm, e, seed, pub, ad, pk); judge(e, ve); extend(d, v, e, ve); } } }
                for (u64 i = 0; i < (real ? 30 : 300); i++) go(digest_of(p, 2, 0));
                for (unsigned i = 0; i < p.n; i++) for (unsigned b = 0; b < 8; b++) { if (real && (i + b) % 8) continue; Bytes d(p.n); d[i] = 1 << b; go(d); for (auto &x : d) x = ~x; go(d); }
            }
            if (!real) *hook = nullptr;
        }
        tab.clear(); if (!works) skip("chain step not observable in " + sp);
        // with real hashes
        for (u64 i = 0; i < a.n("real", 20); i++) {
            Bytes seed = r.bytes(p.n), pub = r.bytes(p.n), d = digest_of(p, i < 2 ? i : r.below(2) ? 2 : 3, r.below(maxc + 1)), pk(p.wotsb()), sig(p.wotsb()), pk2(p.wotsb()); if (i == 3) memset(seed.data(), 0, p.n); if (i == 4) memset(pub.data(), 0xff, p.n);
            u32 ad[8], x[8]; addr(ad, i % 3 == 2); ref::Adrs A; for (int j = 0; j < 8; j++) A.w[j] = j < 5 ? ad[j] : 0;
            progress(); memcpy(x, ad, 32); im->wots_pkgen(&prm, pk.data(), seed.data(), pub.data(), x); if (i % 2) memcpy(x, ad, 32); im->wots_sign(&prm, sig.data(), d.data(), seed.data(), pub.data(), x); if (i % 4 < 2) memcpy(x, ad, 32); Bytes dd = d; im->wots_pk_from_sig(&prm, pk2.data(), sig.data(), d.data(), pub.data(), x); nreal++; nsig++;
            for (int j = 0; j < 5; j++) if (j != 3 && x[j] != ad[j]) viol("C13", "address " + sp, sp + ": one-time signature functions changed the address of the key pair");
            if (d != dd) viol("C13", "digest changed " + sp, sp + ": the digest was changed");
            if (pk2 != pk) viol("C13", "consistency " + sp, sp + ": public key recovered from the one-time signature on " + hex(d.data(), d.size()) + " is not the generated one");
            if (ref::wots_pk(p, seed.data(), pub.data(), A) == pk) { Bytes e = ref::wots_sign(p, d.data(), seed.data(), pub.data(), A); for (unsigned q = 0; q < p.len(); q++) if (memcmp(&e[q * p.n], &sig[q * p.n], p.n)) { viol("C13", fmt("position %s %s", q < p.len1() ? "digit" : "checksum", sp.c_str()), sp + fmt(": chain %u of the one-time signature on %s is not at the position of its digit", q, hex(d.data(), d.size()).c_str())); break; } }
            Bytes d2 = d; d2[r.below(p.n)] ^= 1 << r.below(8); memcpy(x, ad, 32); im->wots_pk_from_sig(&prm, pk2.data(), sig.data(), d2.data(), pub.data(), x); if (pk2 == pk) viol("C13", "second digest " + sp, sp + ": a one-time signature is valid for a second digest: " + hex(d.data(), d.size()) + " and " + hex(d2.data(), d2.size()));
            if (i == 0) sample(sp + " digest " + hex(d.data(), d.size(), 16) + ": recovered key equals generated key");
        }
        sample(sp + fmt(" (%s): %" PRIu64 " one-time signatures, checksum values seen so far %zu of 0..%" PRIu64, im->name.c_str(), nsig, csums.size(), maxc));
    }
    stat("one-time signatures", nsig); stat("with real hashes", nreal); stat("digest pairs compared", npairs); stat("distinct checksum values", csums.size()); done();
}
