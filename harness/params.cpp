// C12: names, OIDs and parameters.
#include "hx.hpp"
using namespace hx;
static std::vector<Impl *> impls; static u64 nlook, nnames, nder, napi, nknown;
static const ref::Params *known(bool mt, u32 oid) { for (auto &p : ref::registry()) if (p.mt == mt && p.oid == oid) return &p; return nullptr; }
static int parse(Impl *im, bool mt, xmss_params *p, u32 o) { return mt ? im->xmssmt_parse_oid(p, o) : im->xmss_parse_oid(p, o); }
static int name(Impl *im, bool mt, u32 *o, const char *s) { return mt ? im->xmssmt_str_to_oid(o, s) : im->xmss_str_to_oid(o, s); }
static unsigned func(ref::Func f) { return f == ref::SHA2 ? XMSS_SHA2 : f == ref::SHAKE128 ? XMSS_SHAKE128 : XMSS_SHAKE256; }
static void check_params(const xmss_params &q, const ref::Params &p, const std::string &w, bool reg) {
#define EQ(f, v) if ((u64)q.f != (u64)(v)) viol("C12", std::string(#f) + " " + w, w + fmt(": " #f " is %llu instead of %llu", (ull)q.f, (ull)(v)))
    EQ(func, func(p.func)); EQ(n, p.n); EQ(full_height, p.h); EQ(d, p.d); EQ(wots_w, p.w); EQ(tree_height, p.th()); EQ(wots_log_w, p.lgw()); EQ(wots_len1, p.len1()); EQ(wots_len2, p.len2()); EQ(wots_len, p.len()); EQ(wots_sig_bytes, p.wotsb()); EQ(index_bytes, p.idxb()); EQ(padding_len, p.pad()); EQ(sig_bytes, p.sigb()); EQ(pk_bytes, 2 * p.n); if (reg) EQ(wots_w, 16);
    if (q.sk_bytes < p.idxb() + 4 * p.n) viol("C12", "sk_bytes " + w, w + fmt(": secret key of %llu bytes is too small for its parts", q.sk_bytes));
}
static bool same(const xmss_params &a, const xmss_params &b, bool k = true) {
    return a.func == b.func && a.n == b.n && a.padding_len == b.padding_len && a.wots_w == b.wots_w && a.wots_log_w == b.wots_log_w && a.wots_len1 == b.wots_len1 && a.wots_len2 == b.wots_len2 && a.wots_len == b.wots_len && a.wots_sig_bytes == b.wots_sig_bytes && a.full_height == b.full_height && a.tree_height == b.tree_height && a.d == b.d && a.index_bytes == b.index_bytes && a.sig_bytes == b.sig_bytes && a.pk_bytes == b.pk_bytes && a.sk_bytes == b.sk_bytes && (!k || a.bds_k == b.bds_k);
}
int main(int c, char **v) {
    Args a(c, v); Rng r(a.n("seed", 1) * 31 + 7); watch("C12", "parameters"); std::string w = a.s("impl", "both"), mode = a.s("mode"); if (w != "fast") impls.push_back(load("plain")); if (w != "plain") impls.push_back(load("fast"));
    if (mode == "oids") {   // a range of all 32-bit OIDs
        u64 lo = a.n("lo"), hi = a.n("hi"); for (auto im : impls) for (int mt = 0; mt < 2; mt++) { u64 ok = 0; xmss_params p; memset(&p, 0, sizeof p);
            for (u64 o = lo; o < hi; o++) { nlook++; if (!(o & 0xffffff)) progress(); int rc = parse(im, mt, &p, (u32)o); if (rc == 0) { ok++; if (!known(mt, o)) viol("C12", "unknown OID " + im->name, fmt("%s: %s OID 0x%08llx is accepted, though not registered", im->name.c_str(), mt ? "XMSS^MT" : "XMSS", (ull)o)); } else if (o < 4096 && known(mt, o)) viol("C12", "known OID " + im->name, fmt("%s: registered %s OID 0x%08llx is refused", im->name.c_str(), mt ? "XMSS^MT" : "XMSS", (ull)o)); }
            nknown += ok; }
        sample(fmt("OIDs 0x%llx to 0x%llx, accepted %" PRIu64, (ull)lo, (ull)hi - 1, nknown));
    } else if (mode == "registry") {
        for (auto im : impls) for (auto &p : ref::registry()) {
            u32 o = 0xdeadbeef; nnames++; int rc = name(im, p.mt, &o, p.name.c_str()); if (rc) viol("C12", "name " + p.name, im->name + ": name " + p.name + " is refused"); else if (o != p.oid) viol("C12", "name " + p.name, im->name + ": " + p.name + fmt(" maps to OID 0x%x instead of 0x%x", o, p.oid));
            { u32 x = 0; nnames++; if (!name(im, !p.mt, &x, p.name.c_str())) viol("C12", "other scheme's name", im->name + ": the lookup of the other scheme accepts " + p.name); }
            xmss_params q[3]; for (int i = 0; i < 3; i++) { memset(&q[i], i == 0 ? 0 : i == 1 ? 0xff : 0x5a, sizeof *q); if (parse(im, p.mt, &q[i], p.oid)) viol("C12", "known OID " + im->name, im->name + ": OID of " + p.name + " is refused"); else check_params(q[i], p, p.name, true); nder++; }
            if (!same(q[0], q[1]) || !same(q[0], q[2])) viol("C12", "undetermined " + p.name, im->name + ": parameters of " + p.name + " depend on what the structure held before");
            sample(p.name + fmt(" = 0x%08x: n %u h %u d %u signature %u secret key %llu bytes (%s)", p.oid, q[0].n, q[0].full_height, q[0].d, q[0].sig_bytes, q[0].sk_bytes, im->name.c_str()));
        }
        // names near the registered ones
        std::set<std::pair<bool, std::string>> reg; for (auto &p : ref::registry()) reg.insert({p.mt, p.name});
        auto tryname = [&](const std::string &s) { for (auto im : impls) for (int mt = 0; mt < 2; mt++) { u32 o = 0; nnames++; int rc = name(im, mt, &o, s.c_str()); if (!rc && !reg.count({(bool)mt, s})) viol("C12", "unknown name " + im->name, im->name + ": the name \"" + s + "\" is accepted" + (mt ? " as XMSS^MT" : " as XMSS")); } };
        for (auto &p : ref::registry()) { const std::string &s = p.name; progress();
            for (size_t i = 0; i <= s.size(); i++) { tryname(s.substr(0, i)); tryname(s.substr(i)); if (i < s.size()) { std::string x = s; x.erase(i, 1); tryname(x); x = s; x[i] = tolower(x[i]); tryname(x); for (int ch = 1; ch < 256; ch += (ch >= 32 && ch < 127) ? 1 : 13) { x = s; x[i] = ch; tryname(x); } if (i + 1 < s.size()) { x = s; std::swap(x[i], x[i + 1]); tryname(x); } } for (char ch : {' ', '0', '1', '2', '_', '/', 'X', 'a', '\n'}) { std::string x = s; x.insert(i, 1, ch); tryname(x); } }
            for (auto suf : {"_192", "_256", "_512", "\n", " ", "_"}) tryname(s + suf); for (auto &q : ref::registry()) if (r.below(8) == 0) tryname(s + q.name); }
        for (auto fn : {"SHA2", "SHAKE", "SHAKE256", "SHAKE128", "SHA3", "SHA256", "SHA512", ""}) for (auto pre : {"XMSS-", "XMSSMT-", "XMSS^MT-", "XMSS_", "XMSSMT_", ""}) for (auto hh : {"10", "16", "20", "20/2", "20/4", "40/2", "40/4", "40/8", "60/3", "60/6", "60/12", "60/2", "5", "15", "25", "40", "60", "20/1", "60/4", "40/1", "8/2"}) for (auto nn : {"128", "192", "256", "384", "512", "24", "32"}) tryname(std::string(pre) + fn + "_" + hh + "_" + nn);
        for (int i = 0; i < 3000; i++) { std::string s; for (u64 k = r.below(40); k; k--) s += (char)(1 + r.below(255)); tryname(s); } tryname(std::string(5000, 'X'));
        // derived members for own parameters, whatever the structure held before
        for (auto im : impls) for (unsigned f = 0; f < 3; f++) for (unsigned n : {24u, 32u, 64u}) for (unsigned ww : {4u, 16u, 256u}) for (unsigned h = 1; h <= 63; h++) for (unsigned d = 1; d <= h; d++) { if (h % d) continue;
            xmss_params q[2]; for (int i = 0; i < 2; i++) { if (i) r.fill((u8 *)&q[i], sizeof *q); else memset(&q[i], 0, sizeof *q); q[i].func = f; q[i].n = n; q[i].wots_w = ww; q[i].full_height = h; q[i].d = d; q[i].bds_k = (h / d) % 2 == 0 && h / d > 2 ? 2 * (h % 2) : 0; nder++; if (im->xmss_xmssmt_initialize_params(&q[i])) { if (f == 0 || n != 24 || f == 2) viol("C12", "refused parameters", im->name + fmt(": own parameters func %u n %u w %u h %u d %u are refused", f, n, ww, h, d)); } else { ref::Params rp{(ref::Func)f, n, ww, h, d, d > 1, 0, ""}; if (n != 24 || f != 1) check_params(q[i], rp, fmt("func %u n %u w %u h %u d %u", f, n, ww, h, d), false); } }
            if (!same(q[0], q[1])) viol("C12", "undetermined", im->name + fmt(": parameters func %u n %u w %u h %u d %u depend on what the structure held before", f, n, ww, h, d)); }
        // unknown OIDs through the API
        std::vector<u32> os; for (auto &p : ref::registry()) { for (int b = 0; b < 32; b++) os.push_back(p.oid ^ (1u << b)); for (u32 k : {8, 16, 24}) os.push_back(p.oid << k); os.push_back(p.oid + 0x100); os.push_back(__builtin_bswap32(p.oid)); os.push_back(-p.oid); } for (int i = 0; i < 500; i++) os.push_back(r.next()); os.push_back(0); os.push_back(~0u);
        Bytes pk(4 + 128), sk(1 << 20), sm(1 << 17), m(1 << 17); for (auto im : impls) { if (im->rand_hook) *im->rand_hook = [](u8 *x, ull n) { memset(x, 1, n); }; for (u32 o : os) for (int mt = 0; mt < 2; mt++) { if (known(mt, o)) continue; progress(); napi += 3; std::string at = im->name + fmt(": %s with unknown OID 0x%08x ", mt ? "XMSS^MT" : "XMSS", o);
            xmss_params q; if (!parse(im, mt, &q, o)) { viol("C12", "unknown OID " + im->name, at + "accepted by the lookup"); continue; }
            if (!(mt ? im->xmssmt_keypair(pk.data(), sk.data(), o) : im->xmss_keypair(pk.data(), sk.data(), o))) viol("C12", "unknown OID keypair " + im->name, at + "key generation succeeded");
            ref::toByte(&sk[0], o, 4); ref::toByte(&pk[0], o, 4); memset(&sk[4], 0, 1000); ull l; if (!(mt ? im->xmssmt_sign(sk.data(), sm.data(), &l, m.data(), 10) : im->xmss_sign(sk.data(), sm.data(), &l, m.data(), 10))) viol("C12", "unknown OID sign " + im->name, at + "signing succeeded");
            if (!(mt ? im->xmssmt_sign_open(m.data(), &l, sm.data(), sm.size(), pk.data()) : im->xmss_sign_open(m.data(), &l, sm.data(), sm.size(), pk.data()))) viol("C12", "unknown OID verify " + im->name, at + "verification succeeded"); } }
    }
    else if (mode == "mixed") {   // both schemes in turn, with the same OID numbers: honest signatures stay valid, unknown OIDs stay refused
        struct K { Set st; std::unique_ptr<Key> k; Bytes sm; }; std::vector<K> ks; Impl *im = impls.back(); for (auto &sp : a.list("set", ';')) ks.push_back({mkset(sp), nullptr, {}});
        for (auto &k : ks) { const auto &p = k.st.rp; k.k.reset(new Key(im, &k.st)); if (!k.k->prm.sk_bytes) { viol("C12", "known OID " + im->name, im->name + ": OID of " + p.name + " is refused"); continue; } progress(); keypair_seeded(*k.k, r.next()); if (k.k->rc) viol("C12", "keypair " + p.name, im->name + ": key generation refuses " + p.name); }
        for (u64 q = 0; q < a.n("count", 200); q++) { auto &k = ks[r.below(ks.size())]; const auto &p = k.st.rp; Impl *vi = impls[r.below(impls.size())]; progress(); napi++;
            u64 t = r.below(6); if (k.sm.empty() && t < 4) t = 5;
            if (t < 4) { Bytes o(k.sm.size()); ull l = 0; Key x(vi, &k.st); int rc = x.open(o.data(), &l, k.sm.data(), k.sm.size(), k.k->pk.data()); if (rc || l != k.sm.size() - p.sigb()) { viol("C12", "signature refused among other OIDs " + vi->name, vi->name + ": an honest signature of " + p.name + fmt(" is refused (code %d, length %llu), in a process that also used OID 0x%x of the other scheme", rc, l, p.oid)); break; } }
            else if (t == 4) {   // the same number, or another one, where it is unknown
                bool mt = r.below(2); u32 o; do o = 1 + r.below(0x60); while (known(mt, o)); if (r.below(2)) for (auto &x : ks) if (!known(!x.st.mt, x.st.oid)) { mt = !x.st.mt; o = x.st.oid; }
                Bytes pk(200), sk(400000), sm(120000), m(120000); ull l = 0; ref::toByte(&pk[0], o, 4); ref::toByte(&sk[0], o, 4); int a1 = mt ? vi->xmssmt_sign(sk.data(), sm.data(), &l, m.data(), 10) : vi->xmss_sign(sk.data(), sm.data(), &l, m.data(), 10), a2 = mt ? vi->xmssmt_sign_open(m.data(), &l, sm.data(), sm.size(), pk.data()) : vi->xmss_sign_open(m.data(), &l, sm.data(), sm.size(), pk.data());
                if (!a1 || !a2) { viol("C12", "unknown OID among others " + vi->name, vi->name + fmt(": %s with the unknown OID 0x%08x succeeds after calls with OIDs of the other scheme", a1 ? "verification" : "signing", o)); break; } }
            else { Bytes m = r.bytes(r.below(50)); k.sm.assign(p.sigb() + m.size(), 0); ull l = 0; int rc = k.k->sign(k.k->sk.data(), k.sm.data(), &l, m.data(), m.size()); if (rc || l != k.sm.size()) { viol("C12", "signing among other OIDs " + im->name, im->name + ": signing with " + p.name + fmt(" gives code %d and length %llu instead of %zu, in a process that also used OID 0x%x of the other scheme", rc, l, k.sm.size(), p.oid)); break; } } }
        sample(ks[0].st.rp.name + " and " + ks.back().st.rp.name + " in turn");
    }
    else { // api: key generation, signing and verification with every registered OID use its parameters
        for (auto &sp : a.list("set", ';')) { Set st = mkset(sp); const auto &p = st.rp; for (auto im : impls) { if (!im->leaf_hook) { skip("no leaf hook"); continue; } *im->leaf_hook = [](unsigned n, u8 *l, const u8 *, const u8 *, const u32 *, const u32 *a) { for (unsigned i = 0; i < n; i++) l[i] = a[4] * 7 + i + a[0]; return 1; };
            Key k(im, &st); if (!k.prm.sk_bytes) { viol("C12", "known OID " + im->name, im->name + ": OID of " + p.name + " is refused"); continue; } keypair_seeded(k, r.next()); napi++;
            if (k.rc) { viol("C12", "keypair " + p.name, im->name + ": key generation refuses " + p.name); continue; } if (be(k.pk.data(), 4) != p.oid || be(k.sk.data(), 4) != p.oid) viol("C12", "keypair OID " + p.name, im->name + ": keys of " + p.name + " do not carry its OID");
            Bytes m = r.bytes(20), sm(p.sigb() + 20 + 64, 0xEE), o(sm.size()); ull l = 0; progress(); if (k.sign(k.sk.data(), sm.data(), &l, m.data(), 20) || l != p.sigb() + 20) viol("C12", "sign size " + p.name, im->name + ": signature of " + p.name + fmt(" has %llu bytes instead of %zu", l - 20, p.sigb())); for (size_t i = p.sigb() + 20; i < sm.size(); i++) if (sm[i] != 0xEE) { viol("C12", "sign size " + p.name, im->name + ": signature of " + p.name + " is longer than registered"); break; }
            napi++; } sample("keys of " + p.name); } }
    stat("OID lookups", nlook); stat("accepted OIDs", nknown); stat("name lookups", nnames); stat("parameter structures", nder); stat("API calls", napi); done();
}
