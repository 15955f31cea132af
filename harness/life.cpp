// Runs keys through their lives (whole lives, or windows anywhere in them) with
// one or both implementations and monitors each operation:
//   C01 C03 C04 C05 C06 C20 C21, and (as sanitizer build) C08.
#include "hx.hpp"
#include <array>
#include <unordered_set>
#include <thread>
using namespace hx;

// ------------------------------------------------------------ leaf stand-ins
static u64 absorb(u64 h, const u8 *p, size_t n) { for (size_t i = 0; i < n; i += 8) { u64 v; memcpy(&v, p + i, 8); h = (h ^ v) * 0x9FB21C651E98DF25ULL; h ^= h >> 32; } return h; }
static u64 absorb_a(u64 h, u32 layer, u64 tree, u32 i) { u64 v[3] = {layer, tree, i}; return absorb(h, (u8 *)v, 24); }
static void stub_leaf(unsigned n, u8 *leaf, const u8 *sk, const u8 *pub, u32 layer, u64 tree, u32 i) { Rng(absorb_a(absorb(absorb(1, sk, n), pub, n), layer, tree, i)).fill(leaf, n); }
static void stub_wsign(unsigned n, size_t len, u8 *sig, const u8 *msg, const u8 *sk, const u8 *pub, u32 layer, u64 tree, u32 i) { Rng(absorb_a(absorb(absorb(absorb(2, msg, n), sk, n), pub, n), layer, tree, i)).fill(sig, len); }
static int hook_stub_leaf(unsigned n, u8 *leaf, const u8 *sk, const u8 *pub, const u32 *, const u32 *a) { stub_leaf(n, leaf, sk, pub, a[0], (u64)a[1] << 32 | a[2], a[4]); return 1; }
static int hook_stub_wsign(const xmss_params *p, u8 *sig, const u8 *msg, const u8 *sk, const u8 *pub, const u32 *a) { stub_wsign(p->n, p->wots_sig_bytes, sig, msg, sk, pub, a[0], (u64)a[1] << 32 | a[2], a[4]); return 1; }

// memo: the real leaf the first time, the stored one afterwards
struct Memo { std::unordered_map<u64, std::array<u8, 64>> m; u64 hits = 0, misses = 0; };
static Memo memo[2];
static u64 memo_key(unsigned n, const u8 *sk, const u8 *pub, const u32 *lt, const u32 *ots) { u64 h = absorb(absorb(3, sk, n), pub, n); u64 v[5]; for (int i = 0; i < 5; i++) v[i] = (u64)ots[i] << 32 | lt[i]; return absorb(h, (u8 *)v, 40); }
template <int I> static int memo_leaf(unsigned n, u8 *leaf, const u8 *sk, const u8 *pub, const u32 *lt, const u32 *ots) {
    auto it = memo[I].m.find(memo_key(n, sk, pub, lt, ots)); if (it == memo[I].m.end()) { memo[I].misses++; return 0; }
    memo[I].hits++; memcpy(leaf, it->second.data(), n); return 1;
}
template <int I> static void memo_store(unsigned n, const u8 *leaf, const u8 *sk, const u8 *pub, const u32 *key) {
    if (memo[I].m.size() > 3000000) memo[I].m.clear();
    memcpy(memo[I].m[memo_key(n, sk, pub, key + 5, key)].data(), leaf, n);
}

// With stand-ins for leaves and one-time signatures: does the signature lead to the root?
// Returns 0 if so, otherwise 1 + the layer whose one-time signature is not one on the node below, or 1000 if the root is another.
static int stub_verify(const ref::Params &p, const Bytes &sm, size_t mlen, const u8 *root, const u8 *sk, const u8 *pub) {
    u64 idx = be(&sm[0], p.idxb()), t = idx; Bytes node(p.n), ws(p.wotsb()); ref::H_msg(p, node.data(), &sm[p.idxb()], root, idx, sm.data() + p.sigb(), mlen);
    const u8 *s = &sm[p.idxb() + p.n];
    for (u32 l = 0; l < p.d; l++) {
        u32 lf = (u32)(t & ((1ULL << p.th()) - 1)); t >>= p.th(); u8 cur[64], nx[64];
        stub_wsign(p.n, ws.size(), ws.data(), node.data(), sk, pub, l, t, lf); if (memcmp(ws.data(), s, ws.size())) return 1 + l;
        s += p.wotsb(); stub_leaf(p.n, cur, sk, pub, l, t, lf);
        for (unsigned k = 0; k < p.th(); k++) {
            ref::Adrs a = ref::adrs(l, t, 2); a.w[5] = k; a.w[6] = lf >> (k + 1);
            if ((lf >> k) & 1) ref::RAND_HASH(p, nx, s, cur, pub, a); else ref::RAND_HASH(p, nx, cur, s, pub, a);
            memcpy(cur, nx, p.n); s += p.n;
        }
        node.assign(cur, cur + p.n);
    }
    return memcmp(node.data(), root, p.n) ? 1000 : 0;
}

struct Life {
    Args a; Set st; std::vector<Key> ks; std::unique_ptr<ref::Key> rk; Rng rng;
    bool stub, usememo, ops; unsigned mprof; u64 verify_every, ref_every; bool calibrated = false;
    std::map<std::pair<u32, u64>, u64> ots_[2];   // (layer, index of the one-time key within the layer) -> hash of what it signed with
    std::unordered_set<u64> distinct; u64 nsig = 0, nver = 0, nref = 0, nrefused = 0, nots = 0, ncmp = 0, nops = 0, maxleaf = 0, maxhash = 0, over = 0; std::vector<u64> leafhist;
    std::vector<Key> fresh;
    Life(const Args &a) : a(a), st(mkset(a.s("set"))), rng(a.n("seed", 1)) {
        stub = a.n("stub"); usememo = a.n("memo"); ops = a.n("ops"); mprof = a.n("mprof", 1); verify_every = a.n("verify", 1); ref_every = a.n("ref", 1);
        std::string w = a.s("impl", "fast");
        if (w == "both" || w == "plain") ks.emplace_back(load("plain"), &st);
        if (w == "both" || w == "fast") ks.emplace_back(load("fast"), &st);
        for (auto &k : ks) if (k.prm.n != st.rp.n || k.prm.sig_bytes != st.rp.sigb() || !k.prm.sk_bytes) { viol("C12", "params " + st.spec, "parameters of " + st.spec + " differ from the registry"); fail("parameters of " + st.spec); }
        for (auto &k : ks) {
            if ((stub || usememo) && (!k.im->leaf_hook || !k.im->wsign_hook)) { skip("leaf hook not available"); done(); exit(0); }
            if (stub) { *k.im->leaf_hook = hook_stub_leaf; *k.im->wsign_hook = hook_stub_wsign; }
            else if (usememo) { if (k.im->name == "plain") { *k.im->leaf_hook = memo_leaf<0>; *k.im->leaf_done = memo_store<0>; } else { *k.im->leaf_hook = memo_leaf<1>; *k.im->leaf_done = memo_store<1>; } }
        }
    }
    std::string where(const Key &k, u64 idx) { return st.spec + "(" + st.rp.name + ") " + k.im->name + " index " + std::to_string(idx); }

    // Compare a signature with the reference. mask(layer, wots?) says which parts are expected to match.
    template <class M> void compare_ref(const Key &k, u64 idx, const Bytes &sm, const Bytes &m, M mask) {
        const auto &p = st.rp; Bytes e = rk->sign(idx, m.data(), m.size()); nref++;
        size_t o = 0; auto bad = [&](const std::string &part, bool ots) {
            viol("C05", "signature " + st.spec + " " + k.im->name + " " + part, where(k, idx) + ": " + part + " differs from RFC 8391, message length " + std::to_string(m.size()));
            if (ots && calibrated) viol("C06", "ots " + st.spec + " " + k.im->name, where(k, idx) + ": " + part + " does not sign the root of the tree below it");
        };
        if (memcmp(&sm[0], &e[0], p.idxb())) bad("index", false);
        o = p.idxb(); if (memcmp(&sm[o], &e[o], p.n)) bad("randomizer", false);
        o += p.n;
        for (u32 l = 0; l < p.d; l++) {
            if (mask(l, true) && memcmp(&sm[o], &e[o], p.wotsb())) bad(fmt("one-time signature of layer %u", l), l > 0);
            o += p.wotsb();
            if (mask(l, false) && memcmp(&sm[o], &e[o], p.th() * p.n)) bad(fmt("authentication path of layer %u", l), false);
            o += (size_t)p.th() * p.n;
        }
    }
    void track_ots(const Key &k, u64 idx, const Bytes &sm, bool upper) {
        const auto &p = st.rp; size_t o = p.idxb() + p.n; u64 cell = be(&sm[0], p.idxb());
        for (u32 l = 0; l < p.d; l++) {
            if (l == 0 || upper) {
                u64 h = absorb(7, &sm[o], p.wotsb()); auto &ots = ots_[&k - &ks[0]]; auto r = ots.insert({{l, cell}, h}); nots++;
                if (!r.second && (l == 0 || r.first->second != h)) viol("C06", "reuse " + st.spec + " " + k.im->name + fmt(" layer %u", l), where(k, idx) + fmt(": one-time key %" PRIu64 " of layer %u signed a second message", cell, l));
            }
            o += p.wotsb() + (size_t)p.th() * p.n; cell >>= p.th();
        }
        auto &t = ots_[&k - &ks[0]]; if (t.size() > 4000000) t.clear();
    }
    bool leaks(const Bytes &before, const Key &k, const Bytes &seeds) {   // 6 consecutive bytes of a seed left?
        (void)before; std::set<std::string> w; unsigned n = st.rp.n;
        for (int s = 0; s < 2; s++) for (unsigned i = 0; i + 6 <= n; i++) w.insert(std::string((const char *)&seeds[s * n + i], 6));
        for (size_t i = st.off(); i + 6 <= k.sk.size(); i++) if (w.count(std::string((const char *)&k.sk[i], 6))) return true;
        return false;
    }
    void other_ops(size_t ki, const Bytes &lastsm, size_t lastm, u64 e) {
        Key &k = ks[ki];
        for (u64 c = rng.below(3); c; c--) {
            nops++;
            switch (rng.below(6)) {
            case 0: if (!lastsm.empty()) { Bytes o(lastsm.size() + 1); ull ml; Bytes s = lastsm; s[rng.below(s.size())] ^= 1 << rng.below(8); k.open(o.data(), &ml, s.data(), s.size(), k.pk.data()); } break;
            case 1: if (!lastsm.empty()) { Bytes o(lastsm.size() + 1); ull ml; k.open(o.data(), &ml, lastsm.data(), lastsm.size(), k.pk.data()); } break;
            case 2: { Bytes t(k.sk.size() + 16); size_t sh = rng.below(16); memcpy(&t[sh], k.sk.data(), k.sk.size()); Bytes n(&t[sh], &t[sh] + k.sk.size()); k.sk.swap(n); } break;   // store and reload
            case 3: if (!st.custom) { u8 o2[4]; memcpy(o2, k.sk.data(), 4); memset(k.sk.data(), 0xEE, 4); Bytes s(k.sigb + 8); ull sl; u8 x[8] = {0};   // unknown parameter set: fails
                    int r = k.sign(k.sk.data(), s.data(), &sl, x, 8); if (!r) viol("C12", "unknown oid sign", "signing with an unknown OID succeeded");
                    memcpy(k.sk.data(), o2, 4); } break;
            case 4: { Bytes x(rng.below(k.sigb)); Bytes o(x.size() + 1); ull ml; k.open(o.data(), &ml, x.data(), x.size(), k.pk.data()); } break;   // too short
            case 5: { Key k2(k.im, &st); k2.sk = fresh[ki].sk; Bytes s(k.sigb); ull sl; if (st.rp.th() <= 5) k2.sign(k2.sk.data(), s.data(), &sl, s.data(), 0); } break;   // another key
            }
        }
        (void)lastm;
        if (k.sk_idx() != e) viol("C03", "index changed " + st.spec + " " + k.im->name, where(k, e) + fmt(": operations other than a successful signature moved the index to %" PRIu64, k.sk_idx()));
    }
    // One signing attempt at index e with every key; returns false if the life cannot go on
    template <class M> bool step(u64 e, M mask, bool jumped, bool verify) {
        const auto &p = st.rp; Bytes m = message(rng, mprof); std::vector<Bytes> sms; std::vector<int> rcs; bool usable = e < p.capacity(); bool go = true;
        plain_now = ks.size() == 2 && (plain_every <= 1 || e % plain_every == 0 || (edge(e) && edge(e / (1ULL << p.th()))) || !usable);
        for (auto &k : ks) {
            if (ks.size() == 2 && k.im->name == "plain") { if (!plain_now) { sms.push_back({}); rcs.push_back(0); continue; } if (plain_every > 1 && usable) { k.sk = fresh[0].sk; k.set_idx(e); } }
            Bytes sm(k.sigb + m.size()), mcopy = m, seeds = k.seed3n(); rng.fill(sm.data(), std::min<size_t>(sm.size(), 64)); ull smlen = ~0ULL;
            u64 l0 = k.im->leaf_counter ? *k.im->leaf_counter() : 0, h0 = k.im->hash_counter ? *k.im->hash_counter() : 0;
            progress(); int rc = k.sign(k.sk.data(), sm.data(), &smlen, m.data(), m.size());
            if (m != mcopy) viol("C08", "message modified " + k.im->name, where(k, e) + ": signing changed the message");
            if (k.im->name == "fast" && k.im->leaf_counter) {
                u64 lc = *k.im->leaf_counter() - l0, hc = *k.im->hash_counter() - h0; maxleaf = std::max(maxleaf, lc); maxhash = std::max(maxhash, hc);
                if (leafhist.size() <= lc) leafhist.resize(lc + 1);
                leafhist[lc]++;
                u64 bound = p.th() / 2 + 2;
                if (lc > bound) viol("C21", "leaves " + st.spec, where(k, e) + fmt(": %" PRIu64 " leaf computations for one signature, bound %" PRIu64, lc, bound));
                if (hashbound && hc > hashbound) viol("C21", "hashes " + st.spec, where(k, e) + fmt(": %" PRIu64 " hash computations for one signature, bound %" PRIu64, hc, hashbound));
            }
            if (usable && rc == 0) {
                nsig++;
                if (be(&sm[0], p.idxb()) != e) viol("C03", "index in signature " + st.spec + " " + k.im->name, where(k, e) + ": signature carries index " + std::to_string(be(&sm[0], p.idxb())));
                u64 after = k.sk_idx();
                if (e + 1 < p.capacity() ? after != e + 1 : after < p.capacity()) viol("C03", "index after signing " + st.spec + " " + k.im->name, where(k, e) + ": secret key holds index " + std::to_string(after) + " afterwards");
                if (smlen != k.sigb + m.size()) { viol("C01", "smlen " + st.spec + " " + k.im->name, where(k, e) + fmt(": smlen %llu for a message of %zu bytes, expected %zu", smlen, m.size(), k.sigb + m.size())); }
                if (m.size() && memcmp(&sm[k.sigb], m.data(), m.size())) viol("C01", "message part " + st.spec + " " + k.im->name, where(k, e) + fmt(": signed message does not end with the message of %zu bytes", m.size()));
                track_ots(k, e, sm, !jumped || k.im->name == "plain");
                if (verify && !stub) {
                    for (auto &v : ks) { if (ks.size() == 2 && !plain_now && v.im->name == "plain") continue;   // by every implementation loaded
                        Bytes o(sm.size(), 0xA5); ull ml = ~0ULL; progress(); int r = v.open(o.data(), &ml, sm.data(), sm.size(), k.pk.data()); nver++;
                        if (r || ml != m.size() || (m.size() && memcmp(o.data(), m.data(), m.size()))) {
                            std::string w = where(k, e) + fmt(" message length %zu", m.size()) + ": honest signature " + (r ? "rejected" : "opened to a different message") + " by " + v.im->name;
                            viol("C01", "verify " + st.spec + " " + k.im->name, w);
                            if (e + 1 == p.capacity()) viol("C04", "last signature invalid " + st.spec + " " + k.im->name, w);
                            else viol("C04", "signature invalid " + st.spec + " " + k.im->name, w);
                            if (ks.size() == 2) viol("C20", "verify " + st.spec + " " + k.im->name, w);
                        }
                    }
                }
                if (verify && stub && stub_ok && (!jumped || k.im->name == "plain")) {
                    int r = stub_verify(p, sm, m.size(), fresh_of(k).skroot(), fresh_of(k).skseed(), fresh_of(k).pubseed()); nver++;
                    if (r && e < 2) { stub_ok = false; skip(where(k, e) + ": stand-ins do not fit"); }
                    else if (r) {
                        std::string w = where(k, e) + (r < 1000 ? fmt(": the one-time signature of layer %d is not one on the root of the tree below", r - 1) : std::string(": honest signature does not lead to the root"));
                        viol("C01", "verify " + st.spec + " " + k.im->name, w); viol("C04", "signature invalid " + st.spec + " " + k.im->name, w);
                        if (r < 1000 && r > 1) viol("C06", "ots " + st.spec + " " + k.im->name, w);
                    }
                }
                distinct.insert(fnv(m.data(), m.size(), e * 2654435761u + (&k - &ks[0])));
                if (rk && ref_every && (e % ref_every == 0 || edge(e))) compare_ref(k, e, sm, m, [&](u32 l, bool w) { return k.im->name == "plain" || mask(l, w); });
                if (e + 1 == p.capacity() && p.capacity() > p.maxidx() && leaks(k.sk, k, seeds)) viol("C04", "seeds kept " + st.spec + " " + k.im->name, where(k, e) + ": the secret key still holds bytes of its seeds after the last signature");
                if (nsig <= 2 || (e + 1 == p.capacity())) sample(where(k, e) + fmt(": rc 0, message %zu bytes, signature %zu bytes hash %016" PRIx64, m.size(), k.sigb, fnv(sm.data(), k.sigb)));
            } else if (usable) {
                viol("C01", "refused " + st.spec + " " + k.im->name, where(k, e) + fmt(": signing failed with %d before the key was used up", rc));
                viol("C04", "capacity " + st.spec + " " + k.im->name, where(k, e) + fmt(": refused with %d, but the key has %" PRIu64 " signatures", rc, p.capacity()));
                go = false;
            } else {
                nrefused++;
                if (rc == 0) viol("C04", "beyond capacity " + st.spec + " " + k.im->name, where(k, e) + fmt(": a signature beyond the capacity %" PRIu64 " was reported as success", p.capacity()));
                Bytes o(sm.size()); ull ml; const Key &f = fresh[&k - &ks[0]];
                if (!stub && f.open(o.data(), &ml, sm.data(), sm.size(), k.pk.data()) == 0) viol("C04", "refused but signed " + st.spec + " " + k.im->name, where(k, e) + ": a refused signing left a valid signature in the output buffer");
                if (k.sk_idx() < p.capacity()) { viol("C04", "usable again " + st.spec + " " + k.im->name, where(k, e) + fmt(": after a refusal the key holds index %" PRIu64 " again", k.sk_idx())); viol("C03", "usable again " + st.spec + " " + k.im->name, where(k, e) + ": index went back"); }
                if (leaks(k.sk, k, f.seed3n())) viol("C04", "seeds kept refused " + st.spec + " " + k.im->name, where(k, e) + ": the secret key still holds bytes of its seeds after a refusal");
            }
            sms.push_back(sm); rcs.push_back(rc);
        }
        if (ks.size() == 2 && plain_now) {
            ncmp++; const auto &kp = ks[0], &kf = ks[1]; size_t pre = st.off() + p.idxb() + 4 * p.n;
            if (!rcs[0] != !rcs[1]) viol("C20", "return code " + st.spec, where(kf, e) + fmt(": plain returns %d, fast %d", rcs[0], rcs[1]));
            else if (!rcs[0] && sms[0] != sms[1] && !jumped) { size_t d = 0; while (sms[0][d] == sms[1][d]) d++; viol("C20", "signature " + st.spec, where(kf, e) + fmt(": plain and fast signatures differ from byte %zu on (signature length %zu, message length %zu)", d, kp.sigb, m.size())); }
            if (memcmp(kp.sk.data(), kf.sk.data(), pre)) viol("C20", "secret key " + st.spec, where(kf, e) + ": index, seeds or root of the secret keys differ after signing");
        }
        if (ops && (e < 3000 || e % 16 == 0 || (e & 0xff) >= 0xfe)) for (size_t i = 0; i < ks.size(); i++) if (!rcs[i] && !sms[i].empty()) other_ops(i, sms[i], m.size(), ks[i].sk_idx());
        return go;
    }
    u64 nseed = 0, hashbound = 0, plain_every = a.n("plain_every", 1); bool plain_now = false, stub_ok = true;
    const Key &fresh_of(const Key &k) const { return fresh[&k - &ks[0]]; }
    bool edge(u64 e) const { u64 t = (1ULL << st.rp.th()); u64 r = e % t; return r < 2 || r + 2 >= t || e + 3 > st.rp.capacity(); }
    void run() {
        const auto &p = st.rp; u64 seed = a.n("seed", 1) * 1000003 + 17; bool seeded = true;
        for (auto &k : ks) { seeded &= keypair_seeded(k, seed); if (k.rc) { viol("C01", "keypair " + st.spec, "key generation for " + st.spec + " failed"); fail("keypair"); } }
        if (ks.size() == 2) {
            if (!seeded) { skip("random source not replaceable: the plain key is cut from the fast one"); ks[0].pk = ks[1].pk; memcpy(ks[0].sk.data(), ks[1].sk.data(), ks[0].sk.size()); }
            if (ks[0].pk != ks[1].pk) viol("C20", "public key " + st.spec, st.spec + ": public keys from the same random bytes differ");
            if (memcmp(ks[0].sk.data(), ks[1].sk.data(), st.off() + p.idxb() + 4 * p.n)) viol("C20", "fresh secret key " + st.spec, st.spec + ": secret keys from the same random bytes differ");
        }
        for (auto &k : ks) if (k.im->name == "plain" && k.im->xmssmt_core_seed_keypair && seeded) {   // from given seeds: the same key, and nothing else written
            Bytes seed = k.seed3n(), s0 = seed, pk(k.pk.size() - st.off() + 16, 0x3C), sk(k.prm.sk_bytes + 16, 0x3C); progress(); int rc = k.im->xmssmt_core_seed_keypair(&k.prm, pk.data(), sk.data(), seed.data()); nseed++;
            bool same = !rc && !memcmp(pk.data(), &k.pk[st.off()], k.pk.size() - st.off()) && !memcmp(sk.data(), &k.sk[st.off()], k.prm.sk_bytes), more = seed != s0; for (int i = 1; i <= 16; i++) more |= pk[pk.size() - i] != 0x3C || sk[sk.size() - i] != 0x3C;
            if (!same) viol("C05", "seed keypair " + st.spec, where(k, 0) + ": the key made from given seeds is not the one made from the same random bytes");
            if (more) viol("C08", "seed keypair " + st.spec, where(k, 0) + ": key generation from given seeds writes outside of the keys");
        }
        stat("keys", ks.size()); if (nseed) stat("keys from given seeds", nseed);
        auto sleaf = [](const ref::Params &p, u8 *leaf, const u8 *sk, const u8 *pub, u32 l, u64 t, u32 i) { stub_leaf(p.n, leaf, sk, pub, l, t, i); };
        auto swsign = [](const ref::Params &p, const u8 *msg, const u8 *sk, const u8 *pub, u32 l, u64 t, u32 i) { Bytes b(p.wotsb()); stub_wsign(p.n, b.size(), b.data(), msg, sk, pub, l, t, i); return b; };
        if (ref_every) {
            if (stub) rk.reset(new ref::Key(p, ks[0].seed3n().data(), sleaf, swsign)); else rk.reset(new ref::Key(p, ks[0].seed3n().data()));
            for (auto &k : ks) {
                Bytes pk = rk->pk(); if (!st.custom) { u8 o[4]; ref::toByte(o, st.oid, 4); pk.insert(pk.begin(), o, o + 4); }
                if (k.pk != pk) viol("C05", "public key " + st.spec + " " + k.im->name, where(k, 0) + ": public key is not that of RFC 8391 for these seeds");
                else calibrated = true;
                if (memcmp(k.skroot(), rk->root.data(), p.n)) viol("C05", "secret key root " + st.spec + " " + k.im->name, where(k, 0) + ": root in the secret key is wrong");
            }
        }
        for (auto &k : ks) if (k.sk_idx() != 0) viol("C03", "first index " + st.spec, where(k, 0) + ": a fresh key starts at index " + std::to_string(k.sk_idx()));
        fresh = ks;
        if (a.n("hashbound")) {   // hash computations of one leaf, measured: a tree of 2^h leaves costs 2^h times that
            Key &k = ks.back(); u64 h0 = *k.im->hash_counter(); u8 leaf[64]; (void)leaf; u32 x[8] = {0}, y[8] = {0};
            auto gl = (decltype(&::gen_leaf_wots))dlsym(k.im->h, "gen_leaf_wots"); if (gl) { gl(&k.prm, leaf, k.skseed(), k.pubseed(), x, y); u64 c = *k.im->hash_counter() - h0; if (c) hashbound = c * (p.th() / 2 + 3 + 2 * p.d) + 16 * (u64)(p.h + 8) + 100; }
        }
        u64 n = a.n("count", 0), cap = p.capacity(); bool all = a.s("count", "all") == "all"; if (all) n = cap;
        u64 extra = a.n("over", 3); auto yes = [](u32, bool) { return true; };
        bool go = true;
        if (a.s("jumps").empty()) {
            for (u64 e = 0; go && e < n && e < cap; e++) go = step(e, yes, false, verify_every && (e % verify_every == 0 || edge(e)));
            if (go && n >= cap) for (u64 i = 0; i < extra; i++) { step(cap, yes, false, false); over++; }
        } else for (auto &j : a.list("jumps")) {
            u64 J = strtoull(j.c_str(), 0, 0), run = 3; auto c = j.find(':'); if (c != std::string::npos) run = strtoull(j.c_str() + c + 1, 0, 0);
            for (size_t i = 0; i < ks.size(); i++) { ks[i].sk = fresh[i].sk; ks[i].set_idx(J); }
            ots_[0].clear(); ots_[1].clear(); go = true; stat("jumps", 1);
            for (u64 e = J; go && e < J + run; e++) {
                u64 ee = std::min(e, cap);
                auto aligned = [&](unsigned bits) { return bits >= 64 ? J == 0 : (J & ((1ULL << bits) - 1)) == 0; };
                auto sh = [](u64 v, unsigned b) { return b >= 64 ? 0 : v >> b; };
                auto mask = [&](u32 l, bool w) { if (w) return l == 0 || (sh(e, l * p.th()) != sh(J, l * p.th()) && aligned(l * p.th())); return sh(e, (l + 1) * p.th()) != sh(J, (l + 1) * p.th()) && aligned((l + 1) * p.th()); };
                bool plain_only = ks.size() == 1 && ks[0].im->name == "plain";
                go = step(ee, mask, true, plain_only && verify_every && (e % verify_every == 0));
            }
        }
        stat("signatures", nsig); stat("distinct (index, message) signed", distinct.size()); stat("verifications", nver); stat("reference comparisons", nref); stat("refused attempts", nrefused); stat("one-time signatures tracked", nots); stat("plain/fast comparisons", ncmp); stat("other operations", nops);
        maxstat("largest leaf count", maxleaf);
        if (maxleaf) { std::string s = st.spec + " leaf computations per signature:"; for (size_t i = 0; i < leafhist.size(); i++) if (leafhist[i]) s += fmt(" %zu:%" PRIu64, i, leafhist[i]); sample(s + fmt(" max hashes %" PRIu64 " bound %" PRIu64, maxhash, hashbound)); }
        if (usememo) stat("memo hits", memo[0].hits + memo[1].hits);
    }
};
int main(int c, char **v) { Args a(c, v); watch(strdup(a.s("prop", "C01").c_str()), a.s("set") + " " + a.s("impl")); Life l(a); l.run(); done(); }
