// Verification: honest-looking signatures for any set (C01), altered ones (C02),
// what is handed out (C11), and arbitrary bytes in exact buffers (C07).
#include "hx.hpp"
using namespace hx;
static Args *A; static Rng *R;
static u64 n_open, n_acc, n_rej, n_short, n_unknown; static std::set<u64> distinct;
static std::vector<Impl *> impls;

// A verification key and signature built from the top of the tree downwards: random
// authentication paths, real one-time signatures. The message digest can be made for
// another public key root than the one that the signature leads to.
struct Synth {
    ref::Params p; u64 idx; Bytes sk, seed; std::vector<Bytes> auth, root, ws; Bytes rnd;
    void layer(u32 l) {
        u64 t = idx; for (u32 i = 0; i < l; i++) t >>= p.th();
        u32 lf = (u32)(t & ((1ULL << p.th()) - 1)); t >>= p.th(); u8 cur[64], nx[64]; ref::real_leaf(p, cur, sk.data(), seed.data(), l, t, lf);
        for (unsigned k = 0; k + 1 < p.th(); k++) { step(l, t, lf, k, cur, nx); memcpy(cur, nx, p.n); }
        last.assign(cur, cur + p.n); lt = t; llf = lf;
        step(l, t, lf, p.th() - 1, cur, nx); root[l].assign(nx, nx + p.n);
    }
    Bytes last; u64 lt; u32 llf;   // of the top layer: the node below the root
    void step(u32 l, u64 t, u32 lf, unsigned k, const u8 *cur, u8 *out) {
        ref::Adrs a = ref::adrs(l, t, 2); a.w[5] = k; a.w[6] = lf >> (k + 1); const u8 *s = &auth[l][(size_t)k * p.n];
        if ((lf >> k) & 1) ref::RAND_HASH(p, out, s, cur, seed.data(), a); else ref::RAND_HASH(p, out, cur, s, seed.data(), a);
    }
    Synth(const ref::Params &p, u64 idx, bool zero_first = false) : p(p), idx(idx), sk(R->bytes(p.n)), seed(R->bytes(p.n)), auth(p.d), root(p.d), ws(p.d), rnd(R->bytes(p.n)) {
        for (u32 l = 0; l < p.d; l++) { auth[l] = R->bytes((size_t)p.th() * p.n); layer(l); }
        while (zero_first && root[p.d - 1][0]) { R->fill(&auth[p.d - 1][(size_t)(p.th() - 1) * p.n], p.n); u8 o[64]; step(p.d - 1, lt, llf, p.th() - 1, last.data(), o); root[p.d - 1].assign(o, o + p.n); }
        u64 t = idx;
        for (u32 l = 0; l < p.d; l++) { u32 lf = (u32)(t & ((1ULL << p.th()) - 1)); t >>= p.th(); if (l) ws[l] = ref::real_wsign(p, root[l - 1].data(), sk.data(), seed.data(), l, t, lf); }
    }
    Bytes pk(const Bytes &rt) const { Bytes o(rt); o.insert(o.end(), seed.begin(), seed.end()); return o; }
    Bytes sign(const Bytes &m, const Bytes &forroot) {
        Bytes sm(p.idxb()); ref::toByte(&sm[0], idx, p.idxb()); sm.insert(sm.end(), rnd.begin(), rnd.end());
        Bytes node(p.n); ref::H_msg(p, node.data(), rnd.data(), forroot.data(), idx, m.data(), m.size());
        ws[0] = ref::real_wsign(p, node.data(), sk.data(), seed.data(), 0, p.th() >= 64 ? 0 : idx >> p.th(), (u32)(idx & ((1ULL << p.th()) - 1)));
        for (u32 l = 0; l < p.d; l++) { sm.insert(sm.end(), ws[l].begin(), ws[l].end()); sm.insert(sm.end(), auth[l].begin(), auth[l].end()); }
        sm.insert(sm.end(), m.begin(), m.end()); return sm;
    }
    const Bytes &top() const { return root[p.d - 1]; }
};
static Bytes withoid(const Set &st, Bytes pk, u32 oid) { if (!st.custom) { u8 o[4]; ref::toByte(o, oid, 4); pk.insert(pk.begin(), o, o + 4); } return pk; }
static const ref::Params *known(bool mt, u32 oid) { for (auto &p : ref::registry()) if (p.mt == mt && p.oid == oid) return &p; return nullptr; }

enum Want { ACCEPT, REJECT, ANY };
// One call of the verification; every property it can decide is judged here.
static int open1(Impl *im, const Set &st, const Bytes &sm, const Bytes &pk, Want want, const std::string &what, const char *cat) {
    Key k(im, &st); size_t cap = sm.size(); Bytes out(cap + 64, 0xA5), s = sm, q = pk; ull ml = ~0ULL; n_open++;
    distinct.insert(fnv(sm.data(), std::min<size_t>(sm.size(), 1 << 20), fnv(pk.data(), pk.size(), sm.size())));
    progress(); int rc = k.open(out.data(), &ml, s.data(), s.size(), q.data());
    const ref::Params *p = &st.rp; if (!st.custom) p = known(st.mt, (u32)be(pk.data(), 4));
    std::string w = st.spec + "(" + st.rp.name + ") " + im->name + " " + what;
    if (s != sm || q != pk) viol("C07", "input changed " + im->name, w + ": verification changed its input");
    for (size_t i = cap; i < out.size(); i++) if (out[i] != 0xA5) { viol("C07", "write behind output " + im->name, w + fmt(": byte %zu behind the output buffer written", i - cap)); break; }
    if (!p) { n_unknown++; if (rc == 0) { viol("C12", "unknown OID verify " + im->name, w + ": verification under an unknown OID succeeded"); viol("C02", std::string("accepted ") + cat + " " + im->name, w + ": accepted under an unknown OID"); } return rc; }
    if (rc == 0) {
        n_acc++;
        bool right = ref::verify(*p, sm.data(), sm.size(), pk.data() + st.off());
        if (!right) viol("C02", std::string("accepted ") + cat + " " + im->name, w + fmt(": accepted, although it does not lead to the root in the public key (signed message of %zu bytes)", sm.size()));
        else if (want == REJECT) { w = "(the reference accepts it, too)"; }
        size_t m = sm.size() - p->sigb();
        if (sm.size() >= p->sigb()) {
            if (ml != m) { viol("C11", "length accepted " + im->name, w + fmt(": accepted, message length %llu reported, but it has %zu bytes", ml, m)); viol("C01", "length accepted " + im->name, w + fmt(": message length %llu reported, but it has %zu bytes", ml, m)); }
            if (m && memcmp(out.data(), &sm[p->sigb()], m)) { viol("C11", "message accepted " + im->name, w + ": accepted, but the message delivered is not the one signed"); viol("C01", "message accepted " + im->name, w + ": the message delivered is not the one signed"); }
        }
    } else {
        n_rej++; size_t claimed = sm.size() < p->sigb() ? sm.size() : sm.size() - p->sigb(); if (sm.size() < p->sigb()) n_short++;
        if (want == ACCEPT && ref::verify(*p, sm.data(), sm.size(), pk.data() + st.off())) viol("C01", "verify " + st.spec + " " + im->name, w + fmt(": a valid signature is rejected, message length %zu", sm.size() - p->sigb()));
        if (ml != 0) viol("C11", "length rejected " + im->name, w + fmt(": rejected, but a message length of %llu is reported", ml));
        for (size_t i = 0; i < claimed; i++) if (out[i]) { viol("C11", "message rejected " + im->name, w + fmt(": rejected, but byte %zu of the %zu bytes of the message's place is %02x", i, claimed, out[i])); break; }
    }
    return rc;
}
static u64 thin = 1; static bool drop() { return thin > 1 && R->below(thin); }   // leave out some alterations
static void openall(const Set &st, const Bytes &sm, Bytes pk, Want want, const std::string &what, const char *cat) {
    if (want == REJECT && strcmp(cat, "near miss") && strcmp(cat, "unknown OID") && drop()) return;
    if (!st.custom) if (auto *q = known(st.mt, (u32)be(pk.data(), 4))) if (pk.size() < 4 + 2 * q->n) { size_t z = pk.size(); pk.resize(4 + 2 * q->n); R->fill(&pk[z], pk.size() - z); }   // a public key of that set has this size
    for (auto im : impls) open1(im, st, sm, pk, want, what, cat); }

static u64 pick_idx(const ref::Params &p) {
    u64 cap = p.capacity();
    switch (R->below(6)) {
    case 0: return R->below(cap);
    case 1: return cap - 1 - R->below(std::min<u64>(cap, 3));
    case 2: { unsigned b = 1 + R->below(p.h - 1 ? p.h - 1 : 1); u64 v = (1ULL << b) - (R->below(3) == 0); return v < cap ? v : 0; }
    case 3: { unsigned l = p.d > 1 ? 1 + R->below(p.d - 1) : 0; u64 v = (1 + R->below(3)) << (l * p.th()); v -= R->below(2); return v < cap ? v : cap - 1; }
    case 4: return R->below(cap) & ~0xffULL;
    default: return R->below(cap) | (cap > 256 ? 0xff : 0);
    }
}
static void mode_synth(const Set &st) {
    for (u64 i = 0; i < A->n("count", 4); i++) {
        u64 idx = pick_idx(st.rp); Synth s(st.rp, idx, i % 5 == 4); Bytes m = message(*R, A->n("mprof", 1)); Bytes sm = s.sign(m, s.top());
        openall(st, sm, withoid(st, s.pk(s.top()), st.oid), ACCEPT, fmt("index %" PRIu64 " built signature", idx), "valid");
        if (i == 0) sample(st.rp.name + fmt(" index %" PRIu64 " message %zu bytes accepted", idx, m.size()));
    }
}
static void mode_mut(const Set &st) {
    const auto &p = st.rp; unsigned n = p.n; size_t maxu = A->n("units", 1u << 30); bool allbytes = A->n("allbytes");
    u64 idx = pick_idx(p); Synth s(p, idx); Bytes m = R->bytes(A->n("mlen", 40 + R->below(200))); Bytes sm = s.sign(m, s.top()), pk = withoid(st, s.pk(s.top()), st.oid); size_t sb = p.sigb(), off = st.off();
    openall(st, sm, pk, ACCEPT, fmt("index %" PRIu64, idx), "valid");
    auto flip = [&](size_t pos, unsigned bit, const std::string &what, const char *cat) { Bytes x = sm; x[pos] ^= 1u << bit; openall(st, x, pk, REJECT, fmt("index %" PRIu64 " %s: bit %u of byte %zu flipped", idx, what.c_str(), bit, pos), cat); };
    for (size_t i = 0; i < p.idxb(); i++) for (unsigned b = 0; b < 8; b++) flip(i, b, "index", "index flip");
    { std::vector<size_t> us; for (size_t o = p.idxb(); o < sb; o += n) us.push_back(o);
      auto unitname = [&](size_t o) { size_t u = (o - p.idxb()) / n; if (!u) return std::string("randomizer"); u--; size_t per = p.len() + p.th(); return fmt("layer %zu %s %zu", u / per, u % per < p.len() ? "chain" : "authentication node", u % per < p.len() ? u % per : u % per - p.len()); };
      size_t stepu = us.size() > maxu ? us.size() / maxu + 1 : 1; size_t start = R->below(stepu);
      for (size_t i = start; i < us.size(); i += stepu) { if (allbytes) for (unsigned b = 0; b < n; b++) flip(us[i] + b, R->below(8), unitname(us[i]), "signature flip"); else { unsigned q = R->below(3); flip(us[i] + (q == 0 ? 0 : q == 1 ? n - 1 : R->below(n)), R->below(8), unitname(us[i]), "signature flip"); } }
      // the randomizer and the ends of each layer always
      for (unsigned b = 0; b < n; b++) flip(p.idxb() + b, R->below(8), "randomizer", "signature flip");
      for (u32 l = 0; l < p.d; l++) { size_t o = p.idxb() + n + l * (p.wotsb() + (size_t)p.th() * n); for (size_t q : {o, o + p.wotsb() - n, o + p.wotsb(), o + p.wotsb() + (size_t)(p.th() - 1) * n}) { flip(q, R->below(8), unitname(q), "signature flip"); flip(q + n - 1, R->below(8), unitname(q), "signature flip"); } }
      // swapped and repeated units
      for (unsigned c = 0; c < 12; c++) { size_t i = us[R->below(us.size())], j = c < 6 ? (i + n < sb ? i + n : i - n) : us[R->below(us.size())]; Bytes x = sm; std::swap_ranges(&x[i], &x[i] + n, &x[j]); if (x != sm) openall(st, x, pk, REJECT, fmt("index %" PRIu64 ": units at %zu and %zu swapped", idx, i, j), "swap"); Bytes y = sm; memcpy(&y[i], &sm[j], n); if (y != sm) openall(st, y, pk, REJECT, "unit copied over another", "swap"); }
      for (u32 l = 0; l + 1 < p.d; l++) { size_t per = p.wotsb() + (size_t)p.th() * n, o = p.idxb() + n + l * per; Bytes x = sm; std::swap_ranges(&x[o], &x[o] + per, &x[o + per]); openall(st, x, pk, REJECT, fmt("layers %u and %u swapped", l, l + 1), "swap"); }
      for (u32 l = 0; l < p.d; l++) { size_t per = p.wotsb() + (size_t)p.th() * n, o = p.idxb() + n + l * per; Bytes x = sm; memset(&x[o], 0, per); openall(st, x, pk, REJECT, fmt("layer %u zero", l), "swap"); x = sm; R->fill(&x[o], per); openall(st, x, pk, REJECT, fmt("layer %u random", l), "swap"); }
    }
    // the message
    { size_t st1 = m.size() > 400 ? m.size() / 200 : 1; for (size_t i = 0; i < m.size(); i += st1) flip(sb + i, R->below(8), "message", "message flip"); if (m.size()) for (unsigned b = 0; b < 8; b++) flip(sb + m.size() - 1, b, "message", "message flip"); }
    for (size_t c : {(size_t)1, (size_t)2, (size_t)8, (size_t)n, (size_t)64, (size_t)136, (size_t)256, m.size(), m.size() + 1, m.size() + n, sm.size() - 1, sm.size(), sm.size() - p.idxb(), (size_t)R->below(sm.size())}) if (c <= sm.size()) { Bytes x(sm.begin(), sm.end() - c); openall(st, x, pk, REJECT, fmt("index %" PRIu64 ": last %zu bytes cut off", idx, c), "truncation"); }
    for (size_t c : {(size_t)1, (size_t)2, (size_t)8, (size_t)n, (size_t)64, (size_t)136, (size_t)256, (size_t)65536}) for (int z = 0; z < 3; z++) { Bytes x = sm; Bytes e(c, z == 1 ? 0x80 : 0); if (z == 2) R->fill(e.data(), c); x.insert(x.end(), e.begin(), e.end()); openall(st, x, pk, REJECT, fmt("index %" PRIu64 ": %zu bytes added at the end", idx, c), "extension"); x = sm; x.insert(x.begin() + sb, e.begin(), e.end()); openall(st, x, pk, REJECT, fmt("%zu bytes added before the message", c), "extension"); }
    if (m.size()) { Bytes x = sm; x.erase(x.begin() + sb); openall(st, x, pk, REJECT, "first byte of the message removed", "truncation"); x = sm; x.erase(x.begin()); openall(st, x, pk, REJECT, "first byte removed", "truncation"); }
    // the index and tree moved consistently by the attacker
    for (u64 d : {(u64)1, (u64)1 << p.th(), (u64)1 << (p.h - 1)}) { Bytes x = sm; ref::toByte(&x[0], idx ^ d, p.idxb()); openall(st, x, pk, REJECT, fmt("index %" PRIu64 " changed to %" PRIu64, idx, idx ^ d), "index flip"); }
    // the public key
    for (size_t i = off; i < pk.size(); i++) { Bytes x = pk; x[i] ^= 1u << R->below(8); openall(st, sm, x, REJECT, fmt("index %" PRIu64 ": byte %zu of the public key changed", idx, i), "public key flip"); }
    { Bytes x = pk; std::swap_ranges(&x[off], &x[off] + n, &x[off + n]); openall(st, sm, x, REJECT, "root and public seed swapped", "public key flip"); }
    // a signature whose digest was made for another root: differs from the root computed in few bytes only
    for (int z = 0; z < 2; z++) {
        if (z) s = Synth(p, idx, true);   // the computed root begins with 0
        auto near = [&](Bytes t, const std::string &what) { if (t == s.top() || drop()) return; openall(st, s.sign(m, t), withoid(st, s.pk(t), st.oid), REJECT, fmt("index %" PRIu64 ": public key root differs from the computed root in %s%s", idx, what.c_str(), z ? " (which begins with 0)" : ""), "near miss"); };
        openall(st, s.sign(m, s.top()), withoid(st, s.pk(s.top()), st.oid), ACCEPT, fmt("index %" PRIu64, idx), "valid");
        for (unsigned i = 0; i < n; i++) { Bytes t = s.top(); t[i] ^= 1u << R->below(8); near(t, fmt("one bit of byte %u", i)); if (i % 4 == 0) { t = s.top(); t[i] += 0x80; near(t, fmt("the top bit of byte %u", i)); } }
        { Bytes t = s.top(); for (unsigned i = 1; i < n; i++) t[i] ^= 0x5a; near(t, "all bytes but the first"); t = s.top(); for (unsigned i = 0; i + 1 < n; i++) t[i] ^= 0x5a; near(t, "all bytes but the last"); }
        for (unsigned c = 0; c < 10; c++) { unsigned i = R->below(n), j = (i + 1 + R->below(n - 1)) % n; u8 v = 1 + R->below(255); Bytes t = s.top(); t[i] ^= v; t[j] ^= v; near(t, fmt("bytes %u and %u by the same pattern", i, j)); t = s.top(); t[i] += v; t[j] -= v; near(t, fmt("bytes %u and %u, sum unchanged", i, j)); t = s.top(); std::swap(t[i], t[j]); near(t, fmt("bytes %u and %u swapped", i, j)); }
        for (unsigned c : {8u, 16u, n / 2}) for (int hi = 0; hi < 2; hi++) { Bytes t = s.top(); for (unsigned i = 0; i < n; i++) if ((i < c) != hi) t[i] ^= 0x11; near(t, fmt("%s %u bytes", hi ? "all but the first" : "the first", c)); }
        { Bytes t = s.top(); R->fill(t.data(), n); near(t, "everything"); t.assign(n, 0); near(t, "everything (root 0)"); }
    }
    // other parameter sets
    if (!st.custom) {
        auto oidpk = [&](u32 o) { Bytes x = pk; ref::toByte(&x[0], o, 4); return x; };   // (s may be another key by now)
        std::vector<u32> oids; for (auto &q : ref::registry()) if (q.mt == st.mt && q.oid != st.oid && (q.n == p.n || R->below(4) == 0)) oids.push_back(q.oid);
        for (u32 o : oids) openall(st, sm, oidpk(o), REJECT, fmt("OID changed to %u", o), "OID");
        std::vector<u32> un{st.oid << 8, st.oid << 24, 0u, st.oid + 0x40, ~st.oid, __builtin_bswap32(st.oid)}; for (unsigned b = 0; b < 32; b++) un.push_back(st.oid ^ 1u << b);
        for (u32 o : un) if (!known(st.mt, o)) openall(st, sm, oidpk(o), REJECT, fmt("OID changed to 0x%08x", o), "unknown OID");
        Set ot = st; ot.mt = !st.mt; if (auto *q = known(ot.mt, st.oid)) { ot.rp = *q; openall(ot, sm, pk, REJECT, "verified with the functions of the other scheme", "OID"); }
    }
    sample(st.rp.name + fmt(" index %" PRIu64 " message %zu bytes: %" PRIu64 " calls so far, %" PRIu64 " accepted", idx, m.size(), n_open, n_acc));
}
// long messages: changes far back, and lengths that agree modulo powers of two
static void mode_long(const Set &st) {
    const auto &p = st.rp; for (size_t L : {(size_t)65536 + 77, (size_t)(1 << 20) + 5, (size_t)(1 << 24) + 300}) {
        Synth s(p, pick_idx(p)); Bytes m = R->bytes(L); Bytes pk = withoid(st, s.pk(s.top()), st.oid); Bytes sm = s.sign(m, s.top()); size_t sb = p.sigb();
        openall(st, sm, pk, ACCEPT, fmt("message of %zu bytes", L), "valid");
        for (size_t pos : {L - 1, L - 2, L - 64, L / 2, (size_t)65535, (size_t)65536, (size_t)4096, (size_t)R->below(L)}) { Bytes x = sm; x[sb + pos] ^= 1u << R->below(8); openall(st, x, pk, REJECT, fmt("byte %zu of a message of %zu bytes changed", pos, L), "message flip"); }
        for (size_t c : {(size_t)256, (size_t)65536, (size_t)1 << 20, (size_t)1 << 24}) { if (c < L) { Bytes x(sm.begin(), sm.end() - c); openall(st, x, pk, REJECT, fmt("last %zu bytes cut off", c), "truncation"); } if (c <= 1 << 20) { Bytes x = sm; x.resize(sm.size() + c); openall(st, x, pk, REJECT, fmt("%zu zero bytes added", c), "extension"); } }
        Bytes e; Bytes se = s.sign(e, s.top()); openall(st, se, pk, ACCEPT, "empty message", "valid"); se.resize(se.size() + 256); openall(st, se, pk, REJECT, "256 bytes added to the empty message", "extension"); se.resize(se.size() - 256 + 65536); openall(st, se, pk, REJECT, "65536 bytes added to the empty message", "extension");
    }
}
// arbitrary bytes in exact buffers (sanitizer builds)
static u64 maxhash = 0;
static void mode_fuzz() {
    std::vector<Set> sets; for (auto &p : ref::registry()) sets.push_back(mkset((p.mt ? "m:" : "x:") + std::to_string(p.oid))); u64 N = A->n("count", 2000); bool heavy = A->n("heavy", 1);
    std::map<u64, std::pair<Bytes, Bytes>> honest;
    for (u64 it = 0; it < N; it++) {
        size_t si = R->below(sets.size()); Set st = sets[si]; const auto &p = st.rp; Impl *im = impls[R->below(impls.size())]; size_t sb = p.sigb(); u32 oid = st.oid; u64 c = R->below(100);
        bool full = c < 12 && (p.d <= 3 || R->below(4) == 0) && heavy; size_t len;
        if (full) len = sb + (R->below(3) ? R->below(70) : R->below(3) ? 0 : R->below(5000));
        else switch (R->below(8)) { case 0: len = R->below(9); break; case 1: len = sb - 1 - R->below(3); break; case 2: len = p.idxb() + R->below(2 * p.n); break; case 3: len = p.n * (1 + R->below(6)) - R->below(2); break; case 4: len = sb - p.n * (1 + R->below(4)); break; case 5: len = 0; break; default: len = R->below(sb); }
        std::string what = fmt("iteration %" PRIu64 " oid %u length %zu", it, oid, len);
        Bytes data; data.reserve(len + 1); data.resize(len); Bytes pkd(4 + 2 * p.n); unsigned kind = R->below(5);
        if (kind == 0) memset(data.data(), 0xff, len); else if (kind == 1) ; else R->fill(data.data(), len);
        if (kind == 1) memset(pkd.data(), 0, pkd.size()); else R->fill(pkd.data(), pkd.size());
        if (full && R->below(2)) { auto &h = honest[si]; if (h.first.empty() && p.d <= 4) { Synth s(p, pick_idx(p)); Bytes m = R->bytes(R->below(100)); h = {s.sign(m, s.top()), withoid(st, s.pk(s.top()), st.oid)}; } if (!h.first.empty()) { data = h.first; pkd = h.second; for (u64 f = R->below(4); f; f--) data[R->below(data.size())] ^= 1 << R->below(8); len = data.size(); } }
        bool unknown = R->below(10) == 0; if (unknown) { oid = R->below(2) ? (u32)R->next() : (u32[]){0, 0x80000000u, 0xffffffffu, 0x7fffffffu, 0x16, 0x39, 0x100, 0x80000001u}[R->below(8)]; if (known(st.mt, oid)) unknown = false; else pkd.resize(4); }
        ref::toByte(&pkd[0], oid, 4); auto *kp = known(st.mt, oid);
        if (kp && !full && len >= kp->sigb()) len = kp->sigb() - 1, data.resize(len);
        if (kp && pkd.size() < 4 + 2 * kp->n) pkd.resize(4 + 2 * kp->n);
        bool pg = R->below(2); Buf sm(len, pg), pk(pkd.size(), pg), out(len, R->below(2)); Buf mlb(sizeof(ull)); ull *ml = (ull *)mlb.p; *ml = ~0ULL;
        sm.set(data.data()); pk.set(pkd.data()); if (out.n) memset(out.p, 0xA5, out.n); sm.protect(); pk.protect();
        u64 h0 = im->hash_counter ? *im->hash_counter() : 0;
        progress(); int rc = st.mt ? im->xmssmt_sign_open(out.p, ml, sm.p, len, pk.p) : im->xmss_sign_open(out.p, ml, sm.p, len, pk.p);
        u64 hc = im->hash_counter ? *im->hash_counter() - h0 : 0, hb = kp ? 100 + 4 * kp->d * (3ULL * kp->len() * kp->w + 4 * (kp->len() + kp->th())) : 0; maxhash = std::max(maxhash, hc);
        if (hc > hb) viol("C07", "work " + im->name, what + fmt(": verification computed %" PRIu64 " hashes, more than four times what a signature takes", hc));
        n_open++; distinct.insert(fnv(data.data(), len, fnv(pkd.data(), pkd.size(), it)));
        if ((len && memcmp(sm.p, data.data(), len)) || memcmp(pk.p, pkd.data(), pkd.size())) viol("C07", "input changed " + im->name, what + ": verification changed its input");
        if (unknown) { n_unknown++; if (!rc) viol("C12", "unknown OID verify " + im->name, what + ": verification under an unknown OID succeeded"); continue; }
        if (rc) { n_rej++; if (len < sb) n_short++; } else { n_acc++; if (kp && !ref::verify(*kp, data.data(), len, pkd.data() + 4)) viol("C02", "accepted junk " + im->name, what + ": accepted"); }
        if (rc && *ml) viol("C11", "length rejected " + im->name, what + fmt(": rejected, but length %llu reported", *ml));
        if (it < 3) sample(what + fmt(": rc %d", rc));
    }
    // own parameters: every length of the input, small windows
    for (const char *sp : {"c:0,32,16,4,2,0", "c:0,24,4,2,1,0", "c:2,24,256,4,2,0", "c:1,32,16,3,1,0", "c:0,64,16,4,1,0"}) {
        Set st = mkset(sp); size_t sb = st.rp.sigb(); for (auto im : impls) for (size_t len = 0; len <= sb + 3; len += len + 40 < sb && len > 200 ? 1 + R->below(60) : 1) {
            Buf sm(len), pk(2 * st.rp.n), out(len); if (len) R->fill(sm.p, len); R->fill(pk.p, pk.n); Key k(im, &st); ull ml = ~0ULL; progress(); int rc = k.open(out.p, &ml, sm.p, len, pk.p); n_open++; rc ? n_rej++ : n_acc++; if (len < sb) n_short++; distinct.insert(fnv((const u8 *)sp, 14, len * 4 + (im->name == "fast")));
            if (!rc) viol("C02", "accepted junk " + im->name, st.spec + " random bytes accepted");
        }
    }
}
int main(int c, char **v) {
    Args a(c, v); A = &a; Rng r(a.n("seed", 1) * 7919 + 5); R = &r; std::string w = a.s("impl", "both"); if (w != "fast") impls.push_back(load("plain")); if (w != "plain") impls.push_back(load("fast"));
    watch(strdup(a.s("prop", "C07").c_str()), "verification " + a.s("set") + " " + a.s("mode"));
    thin = a.n("thin", 1); std::string mode = a.s("mode"); if (mode == "fuzz") mode_fuzz(); else {
        for (auto &sp : a.list("set", ';')) { Set st = mkset(sp); for (auto im : impls) { auto p = st.params(im); if (p.n != st.rp.n || p.sig_bytes != st.rp.sigb()) { viol("C12", "params " + st.spec, "parameters of " + st.spec + " differ from the registry"); fail("parameters of " + st.spec); } }
            if (mode == "dump") { u64 idx = pick_idx(st.rp); Synth s(st.rp, idx); Bytes m = R->bytes(A->n("mlen", R->below(300))), sm = s.sign(m, s.top()), pk = withoid(st, s.pk(s.top()), st.oid); std::string b = A->s("dir") + "/" + st.spec; for (auto &q : {std::make_pair(b + ".pk", &pk), std::make_pair(b + ".sm", &sm)}) { FILE *f = fopen(q.first.c_str(), "wb"); fwrite(q.second->data(), 1, q.second->size(), f); fclose(f); } n_acc++; } else if (mode == "synth") mode_synth(st); else if (mode == "mut") mode_mut(st); else mode_long(st); } }
    maxstat("most hashes in one verification", maxhash); stat("verifications", n_open); stat("accepted", n_acc); stat("rejected", n_rej); stat("rejected as too short", n_short); stat("unknown OIDs tried", n_unknown); stat("distinct inputs verified", distinct.size()); done();
}
