// Independent executable model of RFC 8391 (XMSS, XMSS^MT) with the key
// generation PRF and the 192-bit sets of SP 800-208. Written from the
// standards' text; shares no code with /repo. SHA-2 comes from OpenSSL's
// low-level functions, SHAKE from the small Keccak below (C14 compares that
// with OpenSSL's as well).
#pragma once
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/sha.h>
#include <cstdint>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {
using u8 = unsigned char; using u32 = uint32_t; using u64 = uint64_t;
using Bytes = std::vector<u8>;

// ---------------------------------------------------------------- Keccak
struct KeccakConst {                       // constants computed from their definitions
    u64 RC[24]; int RHO[25];
    KeccakConst() {
        u8 R = 1;
        for (int r = 0; r < 24; r++) {
            RC[r] = 0;
            for (int j = 0; j < 7; j++) {
                if (R & 1) RC[r] ^= 1ULL << ((1 << j) - 1);
                R = (u8)((R << 1) ^ ((R >> 7) * 0x71));
            }
        }
        int x = 1, y = 0; RHO[0] = 0;
        for (int t = 0; t < 24; t++) { RHO[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; }
    }
};
inline u64 rol(u64 v, int s) { return (v << (s & 63)) | (v >> (-s & 63)); }
__attribute__((optimize("O3", "unroll-loops"))) inline void keccak_f(u64 A[25]) {
    static const KeccakConst K;
    const int *RHO = K.RHO;
    for (int r = 0; r < 24; r++) {
        u64 C[5], B[25], D[5];
#pragma GCC unroll 5
        for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x+5] ^ A[x+10] ^ A[x+15] ^ A[x+20];
#pragma GCC unroll 5
        for (int x = 0; x < 5; x++) D[x] = C[(x+4)%5] ^ rol(C[(x+1)%5], 1);
#pragma GCC unroll 5
        for (int x = 0; x < 5; x++)
#pragma GCC unroll 5
            for (int y = 0; y < 5; y++) B[y + 5*((2*x+3*y)%5)] = rol(A[x+5*y] ^ D[x], RHO[x+5*y]);
#pragma GCC unroll 5
        for (int x = 0; x < 5; x++)
#pragma GCC unroll 5
            for (int y = 0; y < 5; y++) A[x+5*y] = B[x+5*y] ^ (~B[(x+1)%5+5*y] & B[(x+2)%5+5*y]);
        A[0] ^= K.RC[r];
    }
}
inline void shake(unsigned rate, u8 *out, size_t outlen, const u8 *in, size_t inlen) {
    u64 S[25] = {0}; size_t pos = 0; u8 last[200] = {0};
    while (inlen >= rate) { for (unsigned i = 0; i < rate / 8; i++) { u64 v; memcpy(&v, in + 8 * i, 8); S[i] ^= v; } keccak_f(S); in += rate; inlen -= rate; }   // little-endian host
    if (inlen) memcpy(last, in, inlen);
    last[inlen] ^= 0x1F; last[rate - 1] ^= 0x80;
    for (unsigned i = 0; i < rate / 8; i++) { u64 v; memcpy(&v, last + 8 * i, 8); S[i] ^= v; }
    keccak_f(S);
    for (size_t i = 0; i < outlen; i++) { if (pos == rate) { keccak_f(S); pos = 0; } out[i] = (u8)(S[pos / 8] >> (8 * (pos % 8))); pos++; }
}
inline void sha256(u8 *out, const u8 *in, size_t len) { SHA256_CTX c; SHA256_Init(&c); SHA256_Update(&c, in, len); SHA256_Final(out, &c); }
inline void sha512(u8 *out, const u8 *in, size_t len) { SHA512_CTX c; SHA512_Init(&c); SHA512_Update(&c, in, len); SHA512_Final(out, &c); }

// ---------------------------------------------------------------- parameters
enum Func { SHA2 = 0, SHAKE128 = 1, SHAKE256 = 2 };
struct Params {
    Func func; unsigned n, w, h, d; bool mt; u32 oid = 0; std::string name;
    unsigned pad() const { return n == 24 ? 4 : n; }
    unsigned lgw() const { return w == 4 ? 2 : w == 16 ? 4 : 8; }
    unsigned len1() const { return 8 * n / lgw(); }
    unsigned len2() const { unsigned m = len1() * (w - 1), l = 0; while (m) { m /= w; l++; } return l; }  // floor(log_w(m)) + 1
    unsigned len() const { return len1() + len2(); }
    unsigned th() const { return h / d; }
    unsigned idxb() const { return mt ? (h + 7) / 8 : 4; }
    size_t wotsb() const { return (size_t)len() * n; }
    size_t sigb() const { return idxb() + n + (size_t)d * wotsb() + (size_t)h * n; }
    u64 maxidx() const { return h == 64 ? ~0ULL : (1ULL << h) - 1; }
    // number of signatures a key makes
    u64 capacity() const { return h == 8 * idxb() ? maxidx() : maxidx() + 1; }
};

// The registry, generated from the structure of the standards' tables.
inline const std::vector<Params> &registry() {
    static std::vector<Params> v = [] {
        std::vector<Params> v;
        struct Fam { const char *fn; Func f; unsigned n; };
        auto addx = [&](u32 first, Fam fam) {
            unsigned hs[3] = {10, 16, 20};
            for (int i = 0; i < 3; i++) v.push_back({fam.f, fam.n, 16, hs[i], 1, false, first + i,
                std::string("XMSS-") + fam.fn + "_" + std::to_string(hs[i]) + "_" + std::to_string(fam.n * 8)});
        };
        auto addm = [&](u32 first, Fam fam) {
            unsigned hd[8][2] = {{20,2},{20,4},{40,2},{40,4},{40,8},{60,3},{60,6},{60,12}};
            for (int i = 0; i < 8; i++) v.push_back({fam.f, fam.n, 16, hd[i][0], hd[i][1], true, first + i,
                std::string("XMSSMT-") + fam.fn + "_" + std::to_string(hd[i][0]) + "/" + std::to_string(hd[i][1]) + "_" + std::to_string(fam.n * 8)});
        };
        addx(0x01, {"SHA2", SHA2, 32}); addx(0x04, {"SHA2", SHA2, 64}); addx(0x07, {"SHAKE", SHAKE128, 32}); addx(0x0a, {"SHAKE", SHAKE256, 64});
        addx(0x0d, {"SHA2", SHA2, 24}); addx(0x10, {"SHAKE256", SHAKE256, 32}); addx(0x13, {"SHAKE256", SHAKE256, 24});
        addm(0x01, {"SHA2", SHA2, 32}); addm(0x09, {"SHA2", SHA2, 64}); addm(0x11, {"SHAKE", SHAKE128, 32}); addm(0x19, {"SHAKE", SHAKE256, 64});
        addm(0x21, {"SHA2", SHA2, 24}); addm(0x29, {"SHAKE256", SHAKE256, 32}); addm(0x31, {"SHAKE256", SHAKE256, 24});
        return v;
    }();
    return v;
}
inline const Params &find(bool mt, u32 oid) { for (auto &p : registry()) if (p.mt == mt && p.oid == oid) return p; throw std::runtime_error("no such set"); }

// ---------------------------------------------------------------- hash address (RFC 8391, 2.5)
struct Adrs {
    u32 w[8] = {0};
    Adrs &layer(u32 x) { w[0] = x; return *this; }
    Adrs &tree(u64 x) { w[1] = (u32)(x >> 32); w[2] = (u32)x; return *this; }
    Adrs &type(u32 t) { w[3] = t; w[4] = w[5] = w[6] = w[7] = 0; return *this; }
    void bytes(u8 *o) const { for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) o[4*i+j] = (u8)(w[i] >> (24 - 8*j)); }
};
inline void toByte(u8 *o, u64 x, unsigned len) { for (unsigned i = 0; i < len; i++) { unsigned sh = 8 * (len - 1 - i); o[i] = sh >= 64 ? 0 : (u8)(x >> sh); } }

// ---------------------------------------------------------------- keyed hash functions (5.1)
inline void hashcore(const Params &p, u8 *out, const u8 *in, size_t len) {
    u8 t[64];
    if (p.func == SHA2) { if (p.n == 64) sha512(t, in, len); else sha256(t, in, len); }
    else shake(p.func == SHAKE128 ? 168 : 136, t, p.n, in, len);
    memcpy(out, t, p.n);
}
inline void PRF(const Params &p, u8 *out, const u8 *key, const u8 in[32]) {
    u8 b[64 + 64 + 32]; toByte(b, 3, p.pad()); memcpy(b + p.pad(), key, p.n); memcpy(b + p.pad() + p.n, in, 32); hashcore(p, out, b, p.pad() + p.n + 32);
}
inline void PRFa(const Params &p, u8 *out, const u8 *key, const Adrs &a) { u8 b[32]; a.bytes(b); PRF(p, out, key, b); }
inline void PRF_keygen(const Params &p, u8 *out, const u8 *skseed, const u8 *pubseed, const Adrs &a) {   // SP 800-208, 5: PRF_keygen(S_XMSS, SEED || ADRS)
    u8 b[64 + 64 + 64 + 32]; toByte(b, 4, p.pad()); memcpy(b + p.pad(), skseed, p.n); memcpy(b + p.pad() + p.n, pubseed, p.n); a.bytes(b + p.pad() + 2 * p.n);
    hashcore(p, out, b, p.pad() + 2 * p.n + 32);
}
inline void F(const Params &p, u8 *out, const u8 *in, const u8 *seed, Adrs a) {
    u8 b[64 * 3], m[64]; toByte(b, 0, p.pad());
    a.w[7] = 0; PRFa(p, b + p.pad(), seed, a); a.w[7] = 1; PRFa(p, m, seed, a);
    for (unsigned i = 0; i < p.n; i++) b[p.pad() + p.n + i] = in[i] ^ m[i];
    hashcore(p, out, b, p.pad() + 2 * p.n);
}
inline void RAND_HASH(const Params &p, u8 *out, const u8 *L, const u8 *R, const u8 *seed, Adrs a) {
    u8 b[64 * 4], m[128]; toByte(b, 1, p.pad());
    a.w[7] = 0; PRFa(p, b + p.pad(), seed, a); a.w[7] = 1; PRFa(p, m, seed, a); a.w[7] = 2; PRFa(p, m + p.n, seed, a);
    for (unsigned i = 0; i < p.n; i++) { b[p.pad() + p.n + i] = L[i] ^ m[i]; b[p.pad() + 2 * p.n + i] = R[i] ^ m[p.n + i]; }
    hashcore(p, out, b, p.pad() + 3 * p.n);
}
inline void H_msg(const Params &p, u8 *out, const u8 *R, const u8 *root, u64 idx, const u8 *m, size_t mlen) {
    Bytes b(p.pad() + 3 * p.n + mlen); toByte(&b[0], 2, p.pad()); memcpy(&b[p.pad()], R, p.n); memcpy(&b[p.pad() + p.n], root, p.n);
    toByte(&b[p.pad() + 2 * p.n], idx, p.n); if (mlen) memcpy(&b[p.pad() + 3 * p.n], m, mlen);
    hashcore(p, out, b.data(), b.size());
}

// ---------------------------------------------------------------- WOTS+ (3.1)
inline std::vector<unsigned> digits(const Params &p, const u8 *msg) {
    std::vector<unsigned> v; unsigned lg = p.lgw(), csum = 0;
    for (unsigned i = 0; i < p.n; i++) for (int s = 8 - (int)lg; s >= 0; s -= lg) v.push_back((msg[i] >> s) & (p.w - 1));
    for (unsigned x : v) csum += p.w - 1 - x;
    std::vector<unsigned> c(p.len2());
    for (int i = (int)p.len2() - 1; i >= 0; i--) { c[i] = csum & (p.w - 1); csum >>= lg; }   // the checksum in base w, most significant digit first
    if (csum) throw std::runtime_error("checksum does not fit");
    v.insert(v.end(), c.begin(), c.end()); return v;
}
inline void chain(const Params &p, u8 *x, unsigned start, unsigned steps, const u8 *seed, Adrs a) { for (unsigned i = start; i < start + steps; i++) { a.w[6] = i; u8 t[64]; F(p, t, x, seed, a); memcpy(x, t, p.n); } }
inline void wots_sk(const Params &p, u8 *out, unsigned i, const u8 *skseed, const u8 *pubseed, Adrs a) { a.w[5] = i; a.w[6] = 0; a.w[7] = 0; PRF_keygen(p, out, skseed, pubseed, a); }
inline Bytes wots_pk(const Params &p, const u8 *skseed, const u8 *pubseed, Adrs a) {
    Bytes o(p.wotsb()); for (unsigned i = 0; i < p.len(); i++) { wots_sk(p, &o[i*p.n], i, skseed, pubseed, a); a.w[5] = i; chain(p, &o[i*p.n], 0, p.w - 1, pubseed, a); } return o;
}
inline Bytes wots_sign(const Params &p, const u8 *msg, const u8 *skseed, const u8 *pubseed, Adrs a) {
    Bytes o(p.wotsb()); auto dg = digits(p, msg);
    for (unsigned i = 0; i < p.len(); i++) { wots_sk(p, &o[i*p.n], i, skseed, pubseed, a); a.w[5] = i; chain(p, &o[i*p.n], 0, dg[i], pubseed, a); } return o;
}
inline Bytes wots_pk_from_sig(const Params &p, const u8 *sig, const u8 *msg, const u8 *pubseed, Adrs a) {
    Bytes o(sig, sig + p.wotsb()); auto dg = digits(p, msg);
    for (unsigned i = 0; i < p.len(); i++) { a.w[5] = i; chain(p, &o[i*p.n], dg[i], p.w - 1 - dg[i], pubseed, a); } return o;
}

// ---------------------------------------------------------------- L-tree and Merkle trees (4.1.5 ff.)
inline void ltree(const Params &p, u8 *leaf, Bytes pk, const u8 *seed, Adrs a) {
    unsigned l = p.len(); a.w[5] = 0;
    while (l > 1) {
        for (unsigned i = 0; i < l / 2; i++) { a.w[6] = i; u8 t[64]; RAND_HASH(p, t, &pk[2*i*p.n], &pk[(2*i+1)*p.n], seed, a); memcpy(&pk[i*p.n], t, p.n); }
        if (l % 2 == 1) memmove(&pk[(l/2)*p.n], &pk[(l-1)*p.n], p.n);
        l = (l + 1) / 2; a.w[5]++;
    }
    memcpy(leaf, pk.data(), p.n);
}
inline Adrs adrs(u32 layer, u64 tree, u32 type, u32 w4 = 0) { Adrs a; a.layer(layer).tree(tree).type(type); a.w[4] = w4; return a; }
using LeafFn = std::function<void(const Params &, u8 *leaf, const u8 *skseed, const u8 *pubseed, u32 layer, u64 tree, u32 idx)>;
using WsignFn = std::function<Bytes(const Params &, const u8 *msg, const u8 *skseed, const u8 *pubseed, u32 layer, u64 tree, u32 idx)>;
inline void real_leaf(const Params &p, u8 *leaf, const u8 *skseed, const u8 *pubseed, u32 layer, u64 tree, u32 i) {
    ltree(p, leaf, wots_pk(p, skseed, pubseed, adrs(layer, tree, 0, i)), pubseed, adrs(layer, tree, 1, i));
}
inline Bytes real_wsign(const Params &p, const u8 *msg, const u8 *skseed, const u8 *pubseed, u32 layer, u64 tree, u32 i) { return wots_sign(p, msg, skseed, pubseed, adrs(layer, tree, 0, i)); }

struct Tree { std::vector<Bytes> level; };   // level[0] = leaves ... level[th] = root
inline Tree build_tree(const Params &p, const u8 *skseed, const u8 *pubseed, u32 layer, u64 tree, const LeafFn &leaf) {
    Tree t; unsigned th = p.th(); t.level.resize(th + 1); t.level[0].resize(((size_t)1 << th) * p.n);
    for (u32 i = 0; i < (1u << th); i++) leaf(p, &t.level[0][(size_t)i * p.n], skseed, pubseed, layer, tree, i);
    for (unsigned k = 0; k < th; k++) {
        size_t cnt = (size_t)1 << (th - k - 1); t.level[k+1].resize(cnt * p.n);
        for (size_t i = 0; i < cnt; i++) { Adrs a = adrs(layer, tree, 2); a.w[5] = k; a.w[6] = (u32)i; RAND_HASH(p, &t.level[k+1][i*p.n], &t.level[k][2*i*p.n], &t.level[k][(2*i+1)*p.n], pubseed, a); }
    }
    return t;
}

// ---------------------------------------------------------------- keys and signatures (4.1, 4.2)
struct Key {
    Params p; Bytes skseed, skprf, pubseed, root; LeafFn leaf; WsignFn wsign;
    std::map<std::pair<u32,u64>, Tree> cache; std::list<std::pair<u32,u64>> order; size_t cache_max = 64; u64 trees_built = 0;
    std::map<std::pair<u32,u64>, Bytes> wcache;       // one-time signatures on roots, by (layer, index of the leaf over all trees)
    Key(const Params &p, const u8 *seed3n, LeafFn l = real_leaf, WsignFn w = real_wsign) : p(p), skseed(seed3n, seed3n + p.n), skprf(seed3n + p.n, seed3n + 2*p.n), pubseed(seed3n + 2*p.n, seed3n + 3*p.n), leaf(l), wsign(w) {
        auto &t = tree(p.d - 1, 0); root = t.level[p.th()];
    }
    Tree &tree(u32 layer, u64 t) {
        auto k = std::make_pair(layer, t); auto it = cache.find(k);
        if (it != cache.end()) return it->second;
        if (cache.size() >= cache_max) { cache.erase(order.front()); order.pop_front(); }
        order.push_back(k); trees_built++;
        return cache[k] = build_tree(p, skseed.data(), pubseed.data(), layer, t, leaf);
    }
    Bytes pk() const { Bytes o(root); o.insert(o.end(), pubseed.begin(), pubseed.end()); return o; }
    void R(u8 *out, u64 idx) const { u8 b[32]; toByte(b, idx, 32); PRF(p, out, skprf.data(), b); }
    // signature without the message
    Bytes sign(u64 idx, const u8 *m, size_t mlen, const u8 *digest = nullptr) {
        Bytes s(p.idxb() + p.n); toByte(&s[0], idx, p.idxb()); R(&s[p.idxb()], idx);
        Bytes node(p.n); if (digest) node.assign(digest, digest + p.n); else H_msg(p, node.data(), &s[p.idxb()], root.data(), idx, m, mlen);
        u64 t = idx;
        for (u32 l = 0; l < p.d; l++) {
            u32 lf = (u32)(t & ((1ULL << p.th()) - 1)); u64 cell = t; t >>= p.th();
            Bytes ws;
            if (l) { auto it = wcache.find({l, cell}); if (it != wcache.end()) ws = it->second; }
            if (ws.empty()) { ws = wsign(p, node.data(), skseed.data(), pubseed.data(), l, t, lf); if (l) { if (wcache.size() > 256) wcache.clear(); wcache[{l, cell}] = ws; } }
            s.insert(s.end(), ws.begin(), ws.end());
            Tree &tr = tree(l, t);
            for (unsigned k = 0; k < p.th(); k++) { size_t i = (lf >> k) ^ 1; s.insert(s.end(), &tr.level[k][i*p.n], &tr.level[k][i*p.n] + p.n); }
            node = tr.level[p.th()];
        }
        return s;
    }
};
// Root that a signature leads to (4.1.10, 4.2.5)
inline Bytes root_from_sig(const Params &p, const u8 *sm, size_t smlen, const u8 *pkroot, const u8 *pubseed) {
    if (smlen < p.sigb()) return {};
    u64 idx = 0; for (unsigned i = 0; i < p.idxb(); i++) idx = idx << 8 | sm[i];
    Bytes node(p.n); H_msg(p, node.data(), sm + p.idxb(), pkroot, idx, sm + p.sigb(), smlen - p.sigb());
    const u8 *s = sm + p.idxb() + p.n; u64 t = idx;
    for (u32 l = 0; l < p.d; l++) {
        u32 lf = (u32)(t & ((1ULL << p.th()) - 1)); t >>= p.th();
        Bytes pk = wots_pk_from_sig(p, s, node.data(), pubseed, adrs(l, t, 0, lf)); s += p.wotsb();
        u8 cur[64], nx[64]; ltree(p, cur, pk, pubseed, adrs(l, t, 1, lf));
        for (unsigned k = 0; k < p.th(); k++) {
            Adrs a = adrs(l, t, 2); a.w[5] = k; a.w[6] = lf >> (k + 1);
            if ((lf >> k) & 1) RAND_HASH(p, nx, s, cur, pubseed, a); else RAND_HASH(p, nx, cur, s, pubseed, a);
            memcpy(cur, nx, p.n); s += p.n;
        }
        node.assign(cur, cur + p.n);
    }
    return node;
}
inline bool verify(const Params &p, const u8 *sm, size_t smlen, const u8 *pk_no_oid) {
    Bytes r = root_from_sig(p, sm, smlen, pk_no_oid, pk_no_oid + p.n);
    return !r.empty() && memcmp(r.data(), pk_no_oid, p.n) == 0;
}
// An honest-looking signed message for any parameter set at any index without
// building trees: authentication nodes are drawn at random and the root that
// they lead to becomes the public key. Returns false data only if rnd does.
template <class Rnd> Bytes synth(const Params &p, u64 idx, const Bytes &m, Bytes &pk, Rnd &&rnd) {
    // The message digest depends on the root, which depends on the lowest
    // one-time signature: with more than one layer, or with one, choose the root
    // by building from the top: leaf/auth values are free, so fix everything by
    // using one real key per layer and random siblings.
    Bytes sk(p.n), seed(p.n); rnd(sk.data(), p.n); rnd(seed.data(), p.n);
    std::vector<Bytes> auth(p.d), root(p.d); u64 t = idx;
    for (u32 l = 0; l < p.d; l++) {
        u32 lf = (u32)(t & ((1ULL << p.th()) - 1)); t >>= p.th();
        u8 cur[64], nx[64]; real_leaf(p, cur, sk.data(), seed.data(), l, t, lf);
        auth[l].resize((size_t)p.th() * p.n); rnd(auth[l].data(), auth[l].size());
        for (unsigned k = 0; k < p.th(); k++) {
            Adrs a = adrs(l, t, 2); a.w[5] = k; a.w[6] = lf >> (k + 1); const u8 *s = &auth[l][(size_t)k * p.n];
            if ((lf >> k) & 1) RAND_HASH(p, nx, s, cur, seed.data(), a); else RAND_HASH(p, nx, cur, s, seed.data(), a);
            memcpy(cur, nx, p.n);
        }
        root[l].assign(cur, cur + p.n);
    }
    pk = root[p.d - 1]; pk.insert(pk.end(), seed.begin(), seed.end());
    Bytes sm(p.idxb() + p.n); toByte(&sm[0], idx, p.idxb()); rnd(&sm[p.idxb()], p.n);
    Bytes node(p.n); H_msg(p, node.data(), &sm[p.idxb()], pk.data(), idx, m.data(), m.size());
    t = idx;
    for (u32 l = 0; l < p.d; l++) {
        u32 lf = (u32)(t & ((1ULL << p.th()) - 1)); t >>= p.th();
        Bytes ws = real_wsign(p, node.data(), sk.data(), seed.data(), l, t, lf); sm.insert(sm.end(), ws.begin(), ws.end());
        sm.insert(sm.end(), auth[l].begin(), auth[l].end()); node = root[l];
    }
    sm.insert(sm.end(), m.begin(), m.end()); return sm;
}
} // namespace ref
