// Key files and expected results for the checks of the command line tools.
// mode=make: writes a key file (out=). mode=sign: signs msg= with the key file key= through
// the library, count= times, and writes the signed messages (out=, one after the other) and the key file (keyout=).
#include "hx.hpp"
using namespace hx;
static Bytes rd(const std::string &p) { FILE *f = fopen(p.c_str(), "rb"); if (!f) fail("cannot read " + p); Bytes b; u8 t[65536]; size_t k; while ((k = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + k); fclose(f); return b; }
static void wr(const std::string &p, const Bytes &b) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) fail("cannot write " + p); }
static int stub(unsigned n, u8 *l, const u8 *sk, const u8 *pub, const u32 *, const u32 *a) { u64 h = fnv(sk, n, fnv(pub, n)) + a[0] * 31 + a[1] * 77 + a[2] * 1231 + a[4] * 1000003ULL; Rng(h).fill(l, n); return 1; }
int main(int c, char **v) {
    Args a(c, v); Impl *im = load(a.s("impl")); Set st = mkset(a.s("set")); Key k(im, &st); std::string mode = a.s("mode");
    if (mode == "make") { if (a.n("stub")) { if (!im->leaf_hook) { skip("no leaf hook"); done(); return 0; } *im->leaf_hook = stub; } bool s = keypair_seeded(k, a.n("seed")); if (im->leaf_hook) *im->leaf_hook = nullptr; if (k.rc) fail("keypair"); if (a.m.count("idx")) k.set_idx(a.n("idx")); Bytes f = k.pk; f.insert(f.end(), k.sk.begin(), k.sk.end()); wr(a.s("out"), f); (void)s; }
    else { Bytes f = rd(a.s("key")), m = rd(a.s("msg")), out; if (f.size() < k.pk.size() + k.sk.size()) fail("key file too short"); memcpy(k.sk.data(), &f[k.pk.size()], k.sk.size()); int rc = 0; for (u64 i = 0; i < a.n("count", 1) && !rc; i++) { Bytes sm(st.rp.sigb() + m.size()); ull l = 0; rc = k.sign(k.sk.data(), sm.data(), &l, m.data(), m.size()); if (!rc) { sm.resize(std::min<size_t>(sm.size(), l)); out.insert(out.end(), sm.begin(), sm.end()); } } memcpy(&f[k.pk.size()], k.sk.data(), k.sk.size()); wr(a.s("out"), out); wr(a.s("keyout"), f); stat("rc", rc ? 1 : 0); }
    line(fmt("{\"t\":\"sizes\",\"name\":\"%s\",\"pk\":%zu,\"sk\":%zu,\"sig\":%zu,\"idx\":%u,\"cap\":%" PRIu64 ",\"n\":%u}", st.rp.name.c_str(), k.pk.size(), k.sk.size(), (size_t)st.rp.sigb(), (unsigned)st.rp.idxb(), (u64)st.rp.capacity(), st.rp.n)); done();
}
