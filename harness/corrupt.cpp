// Signing with damaged secret keys: never leaves the buffers, ends, and either signs
// (index advanced, length right) or refuses and leaves an unused key as it was.
#include "hx.hpp"
using namespace hx;
static int stub(unsigned n, u8 *l, const u8 *sk, const u8 *pub, const u32 *, const u32 *a) { u64 h = fnv(sk, n, fnv(pub, n)) + a[0] * 31 + a[1] * 77 + a[2] * 1231 + a[4] * 1000003ULL; Rng(h).fill(l, n); return 1; }
static int wstub(const xmss_params *p, u8 *sig, const u8 *msg, const u8 *sk, const u8 *, const u32 *a) { Rng(fnv(msg, p->n, fnv(sk, p->n)) + a[4]).fill(sig, p->wots_sig_bytes); return 1; }
struct Field { size_t off; unsigned len; char kind; };   // the fields of the traversal state, for aiming (as far as the size of the key agrees)
static std::vector<Field> fields(const Set &s, const xmss_params &p) {
    std::vector<Field> f; size_t o = s.off() + p.index_bytes + 4 * p.n; unsigned th = p.tree_height;
    for (unsigned i = 0; i < 2 * p.d - 1; i++) {
        o += (th + 1) * p.n; f.push_back({o, 4, 'o'}); o += 4; for (unsigned j = 0; j <= th; j++) f.push_back({o + j, 1, 'l'}); o += th + 1 + th * p.n + (th / 2) * p.n;
        for (unsigned j = 0; j < th - p.bds_k; j++) { f.push_back({o, 1, 'h'}); f.push_back({o + 1, 4, 'i'}); f.push_back({o + 5, 1, 'u'}); f.push_back({o + 6, 1, 'c'}); o += 7 + p.n; }
        o += ((1u << p.bds_k) - p.bds_k - 1) * p.n; f.push_back({o, 4, 'x'}); o += 4;
    }
    o += (p.d - 1) * p.wots_sig_bytes; if (o != s.off() + p.sk_bytes) f.clear(); return f;
}
int main(int c, char **v) {
    Args a(c, v); Rng R(a.n("seed", 1) * 977 + 3); u64 N = a.n("count", 300), T = a.n("steps", 20), ndmg = 0, nsig = 0, nref = 0, nsets = 0; std::set<u64> seen; watch("C17", "signing with damaged keys " + a.s("set")); bool real = a.n("real");
    for (auto &sp : a.list("set", ';')) {
        Set st = mkset(sp); Impl *im = load(a.s("impl", "fast")); if (!real) { if (!im->leaf_hook || !im->wsign_hook) { skip("no stand-ins"); continue; } *im->leaf_hook = stub; *im->wsign_hook = wstub; }
        Key k0(im, &st); keypair_seeded(k0, R.next()); if (k0.rc) fail("keypair"); nsets++; auto fs = fields(st, k0.prm); if (fs.empty() && st.rp.d && im->name == "fast") skip("state layout unknown: damaged at random");
        size_t skb = k0.sk.size(), sb = st.rp.sigb(), hdr = st.off() + st.rp.idxb(); u64 cap = st.rp.capacity(); std::vector<Bytes> snaps = {k0.sk};
        { Bytes m = R.bytes(9), sm(sb + 9); ull l; Key k = k0; u64 walk = a.n("walk", 70); u64 span = cap > 4 * walk ? walk : cap; for (u64 i = 0; i < span && i + 1 < cap; i++) { progress(); if (k.sign(k.sk.data(), sm.data(), &l, m.data(), 9)) fail("cannot sign"); snaps.push_back(k.sk); } }
        for (u64 it = 0; it < N; it++) {
            Bytes key = snaps[R.below(snaps.size())]; unsigned nd = 1 + R.below(R.below(3) ? 2 : 8); std::string what; bool idxhit = false;
            for (unsigned q = 0; q < nd; q++) {
                u64 w = R.below(20);
                if (!fs.empty() && w < 15) { const Field &f = fs[R.below(4) ? R.below(fs.size()) : 0]; const Field *g = &f; if (R.below(2)) { char kd = "olhiucx"[R.below(7)]; for (int t = 0; t < 500 && g->kind != kd; t++) g = &fs[R.below(fs.size())]; }
                    unsigned th = k0.prm.tree_height; u64 vals[] = {0, 1, 2, 3, th - 1, th, th + 1, th + 2, 31, 32, 63, 64, 127, 128, 255, (1ull << th) - 1, 1ull << th, (1ull << th) + 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, R.next(), R.below(1ull << th)}; u64 x = vals[R.below(sizeof vals / sizeof *vals)]; ref::toByte(&key[g->off], x, g->len); what += fmt("%c at %zu = %" PRIx64 " ", g->kind, g->off, x & (g->len == 1 ? 0xff : 0xffffffffu)); }
                else if (w < 17 && skb > hdr + 4 * st.rp.n) { size_t p = hdr + 4 * st.rp.n + R.below(skb - hdr - 4 * st.rp.n); key[p] ^= 1u << R.below(8); what += fmt("bit of byte %zu ", p); }
                else if (w == 17) { size_t p = hdr + R.below(skb - hdr), n = std::min<size_t>(skb - p, 1 + R.below(300)); R.fill(&key[p], n); what += fmt("random [%zu,+%zu) ", p, n); }
                else if (w == 18 || !q) { u64 x = R.below(3) ? R.below(cap) : R.next(); ref::toByte(&key[st.off()], x, st.rp.idxb()); idxhit = true; what += fmt("index %" PRIu64 " ", be(&key[st.off()], st.rp.idxb())); }
                else { size_t p = hdr; u8 x = R.below(2) ? 0xff : 0; memset(&key[p], x, skb - p); what += fmt("all %02x ", x); }
            }
            ndmg++; seen.insert(fnv(key.data(), skb)); Buf sk(skb); sk.set(key.data()); (void)idxhit;
            for (u64 t = 0; t < T; t++) {
                size_t ml = R.below(40); Bytes m = R.bytes(ml); Buf sm(sb + ml); ull l = ~0ull; Bytes before(sk.p, sk.p + skb); u64 i0 = be(sk.p + st.off(), st.rp.idxb()); progress();
                int rc = k0.sign(sk.p, sm.p, &l, m.data(), ml); std::string w = st.spec + " " + im->name + ", damaged: " + what + fmt("index %" PRIu64 ", attempt %" PRIu64 ": ", i0, t);
                if (rc) { nref++; if (i0 < cap && memcmp(before.data(), sk.p, skb)) viol("C17", "refusal changes key " + im->name, w + "signing fails, but changes the secret key"); if (t) break; continue; }
                nsig++; if (i0 >= cap) viol("C17", "signs beyond capacity " + im->name, w + "signs");
                if (l != sb + ml || (ml && memcmp(sm.p + sb, m.data(), ml))) viol("C17", "length " + im->name, w + fmt("reports %llu bytes instead of %zu, or another message", l, sb + ml));
                if (be(sm.p, st.rp.idxb()) != i0 || (i0 + 1 < (u64)1 << std::min(63u, st.rp.h) && be(sk.p + st.off(), st.rp.idxb()) != i0 + 1)) viol("C17", "index " + im->name, w + "the signature has another index, or the key does not advance by one");
            }
            if (it < 2) sample(st.spec + " " + what);
        }
    }
    stat("damaged keys", ndmg); stat("signatures with damaged keys", nsig); stat("damaged keys refused", nref); stat("distinct damaged keys", seen.size()); done();
}
