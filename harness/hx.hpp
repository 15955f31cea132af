// Common part of the harnesses: loading the implementation libraries built
// from /repo, parameter sets, keys, random workloads, and reporting. Every
// finding is one JSON line on stdout; check.py collects them.
#pragma once
#include "../ref/refxmss.hpp"
extern "C" {
#include "params.h"
#include "wots.h"
#include "xmss.h"
#include "xmss_core.h"
#include "xmss_commons.h"
#include "utils.h"
#include "randombytes.h"
}
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <cinttypes>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <unordered_map>

namespace hx {
using ref::Bytes; using ref::u8; using ref::u32; using ref::u64;
typedef unsigned long long ull;

// ---------------------------------------------------------------- reporting
inline std::mutex &out_mx() { static std::mutex m; return m; }
inline std::string esc(const std::string &s) {
    std::string o; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
inline std::string fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline std::string hex(const u8 *p, size_t n, size_t max = 64) { std::string o; char b[3]; for (size_t i = 0; i < n && i < max; i++) { snprintf(b, 3, "%02x", p[i]); o += b; } if (n > max) o += ".."; return o; }
inline std::map<std::string, int> &viol_count() { static std::map<std::string, int> m; return m; }
inline void line(const std::string &s) { std::lock_guard<std::mutex> g(out_mx()); fputs((s + "\n").c_str(), stdout); fflush(stdout); }
// key: identifies the kind and place of the violation; msg: the witness
inline void viol(const std::string &prop, const std::string &key, const std::string &msg) {
    { std::lock_guard<std::mutex> g(out_mx()); if (++viol_count()[prop + key] > 2) return; }
    line("{\"t\":\"viol\",\"p\":\"" + prop + "\",\"key\":\"" + esc(key) + "\",\"msg\":\"" + esc(msg) + "\"}");
}
inline void stat(const std::string &k, u64 v) { line("{\"t\":\"stat\",\"k\":\"" + esc(k) + "\",\"v\":" + std::to_string(v) + "}"); }
inline void maxstat(const std::string &k, u64 v) { line("{\"t\":\"max\",\"k\":\"" + esc(k) + "\",\"v\":" + std::to_string(v) + "}"); }
inline void sample(const std::string &s) { line("{\"t\":\"sample\",\"s\":\"" + esc(s) + "\"}"); }
inline void skip(const std::string &s) { line("{\"t\":\"skip\",\"s\":\"" + esc(s) + "\"}"); }
inline void done() { line("{\"t\":\"done\"}"); }
[[noreturn]] inline void fail(const std::string &s) { line("{\"t\":\"error\",\"s\":\"" + esc(s) + "\"}"); exit(3); }

// ---------------------------------------------------------------- hang detection
// progress() is called around each call of the code under test. If 150 s of CPU
// time pass without progress, the call counts as not returning.
struct Count { u64 v = 0; operator u64() const { return __atomic_load_n(&v, __ATOMIC_RELAXED); } void operator=(u64 x) { __atomic_store_n(&v, x, __ATOMIC_RELAXED); } void operator++(int) { __atomic_fetch_add(&v, 1, __ATOMIC_RELAXED); } };   // orders nothing, so that no race is hidden by it
inline Count &progress_count() { static Count c; return c; }
inline const char *&progress_prop() { static const char *p = nullptr; return p; }
inline std::string &progress_what() { static std::string s; return s; }
inline void progress() { progress_count()++; }
inline void on_tick(int) {
    static u64 last = 0; static int same = 0;
    if (progress_count() != last) { last = progress_count(); same = 0; return; }
    static long lim = getenv("HX_WATCH") ? 5 * atol(getenv("HX_WATCH")) : 5; if (++same >= lim) { const char *p = progress_prop(); char b[1024]; int n = snprintf(b, sizeof b, "\n{\"t\":\"viol\",\"p\":\"%s\",\"key\":\"no return %s\",\"msg\":\"a call did not return within 150 s of CPU time or more (%s)\"}\n{\"t\":\"done\"}\n", p, progress_what().c_str(), progress_what().c_str()); if (write(1, b, n)) {} _exit(0); }
}
inline void watch(const char *prop, const std::string &what) {
    progress_prop() = prop; progress_what() = what; signal(SIGVTALRM, on_tick);
    struct itimerval t = {{30, 0}, {30, 0}}; setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

// ---------------------------------------------------------------- random numbers
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    void fill(u8 *p, size_t n) { while (n) { u64 v = next(); size_t k = n < 8 ? n : 8; memcpy(p, &v, k); p += k; n -= k; } }
    Bytes bytes(size_t n) { Bytes b(n); fill(b.data(), n); return b; }
};
inline u64 fnv(const u8 *p, size_t n, u64 h = 1469598103934665603ULL) { for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ULL; h ^= h >> 29; return h * 0xBF58476D1CE4E5B9ULL; }

// ---------------------------------------------------------------- arguments key=value
struct Args {
    std::map<std::string, std::string> m;
    Args(int c, char **v) { for (int i = 1; i < c; i++) { std::string s = v[i]; auto p = s.find('='); if (p == std::string::npos) m[s] = "1"; else m[s.substr(0, p)] = s.substr(p + 1); } }
    std::string s(const std::string &k, const std::string &d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
    u64 n(const std::string &k, u64 d = 0) const { auto i = m.find(k); return i == m.end() ? d : strtoull(i->second.c_str(), 0, 0); }
    std::vector<std::string> list(const std::string &k, char sep = ',') const { std::vector<std::string> o; std::stringstream ss(s(k)); std::string x; while (std::getline(ss, x, sep)) if (!x.empty()) o.push_back(x); return o; }
};

// ---------------------------------------------------------------- implementations
struct Impl {
    std::string name; void *h = nullptr;
#define HX_FN(f) decltype(&::f) f = nullptr;
#define HX_FNS HX_FN(xmss_keypair) HX_FN(xmss_sign) HX_FN(xmss_sign_open) HX_FN(xmssmt_keypair) HX_FN(xmssmt_sign) HX_FN(xmssmt_sign_open) \
    HX_FN(xmss_core_keypair) HX_FN(xmss_core_sign) HX_FN(xmss_core_sign_open) HX_FN(xmssmt_core_keypair) HX_FN(xmssmt_core_sign) HX_FN(xmssmt_core_sign_open) \
    HX_FN(xmss_parse_oid) HX_FN(xmssmt_parse_oid) HX_FN(xmss_str_to_oid) HX_FN(xmssmt_str_to_oid) HX_FN(xmss_xmssmt_initialize_params) \
    HX_FN(wots_pkgen) HX_FN(wots_sign) HX_FN(wots_pk_from_sig) HX_FN(randombytes)
    HX_FNS
#undef HX_FN
    void (*shake128)(u8 *, ull, const u8 *, ull) = nullptr, (*shake256)(u8 *, ull, const u8 *, ull) = nullptr;
    int (*xmssmt_core_seed_keypair)(const xmss_params *, u8 *, u8 *, u8 *) = nullptr;
    void (**rand_hook)(u8 *, ull) = nullptr; void (**hash_hook)() = nullptr;
    int (**leaf_hook)(unsigned, u8 *, const u8 *, const u8 *, const u32 *, const u32 *) = nullptr;
    void (**leaf_done)(unsigned, const u8 *, const u8 *, const u8 *, const u32 *) = nullptr;
    int (**wsign_hook)(const xmss_params *, u8 *, const u8 *, const u8 *, const u8 *, const u32 *) = nullptr;
    u64 *(*leaf_counter)() = nullptr; u64 *(*wsign_counter)() = nullptr; u64 *(*hash_counter)() = nullptr;
    template <class T> void get(T &p, const char *n, bool need) { p = (T)dlsym(h, n); if (!p && need) fail(std::string("no function ") + n + " in " + name); }
};
inline Impl *load(const std::string &name) {   // "plain" or "fast"
    static std::map<std::string, Impl *> cache; if (cache[name]) return cache[name];
    const char *path = getenv(name == "plain" ? "HX_PLAIN" : "HX_FAST"); if (!path) fail("no library path for " + name);
    auto *im = new Impl; im->name = name; im->h = dlopen(path, RTLD_NOW | RTLD_LOCAL); if (!im->h) fail(std::string("dlopen: ") + dlerror());
#define HX_FN(f) im->get(im->f, #f, true);
    HX_FNS
#undef HX_FN
    im->get(im->shake128, "shake128", false); im->get(im->shake256, "shake256", false);
    im->get(im->xmssmt_core_seed_keypair, "xmssmt_core_seed_keypair", false);
    im->get(im->rand_hook, "hx_rand_hook", false); im->get(im->hash_hook, "hx_hash_hook", false); im->get(im->leaf_hook, "hx_leaf_hook", false); im->get(im->leaf_done, "hx_leaf_done", false);
    im->get(im->wsign_hook, "hx_wsign_hook", false); im->get(im->leaf_counter, "hx_leaf_counter", false);
    im->get(im->wsign_counter, "hx_wsign_counter", false); im->get(im->hash_counter, "hx_hash_counter", false);
    return cache[name] = im;
}

// ---------------------------------------------------------------- parameter sets
// "x:OID", "m:OID" (registered) or "c:func,n,w,h,d,k" (own parameters, used through the core functions)
struct Set {
    std::string spec; bool custom = false, mt = false; u32 oid = 0; unsigned k = 0; ref::Params rp;
    unsigned off() const { return custom ? 0 : 4; }
    xmss_params params(Impl *im) const {
        xmss_params p; memset(&p, 0, sizeof p); int rc;
        if (custom) { p.func = rp.func == ref::SHA2 ? XMSS_SHA2 : rp.func == ref::SHAKE128 ? XMSS_SHAKE128 : XMSS_SHAKE256; p.n = rp.n; p.wots_w = rp.w; p.full_height = rp.h; p.d = rp.d; p.bds_k = k; rc = im->xmss_xmssmt_initialize_params(&p); }
        else rc = mt ? im->xmssmt_parse_oid(&p, oid) : im->xmss_parse_oid(&p, oid);
        if (rc) { memset(&p, 0, sizeof p); }
        return p;
    }
};
inline Set mkset(const std::string &spec) {
    Set s; s.spec = spec;
    if (spec[0] == 'c') {
        unsigned f, n, w, h, d, k; if (sscanf(spec.c_str(), "c:%u,%u,%u,%u,%u,%u", &f, &n, &w, &h, &d, &k) != 6) fail("bad set " + spec);
        s.custom = true; s.mt = d > 1; s.k = k; s.rp = ref::Params{(ref::Func)f, n, w, h, d, s.mt, 0, spec};
    } else { s.mt = spec[0] == 'm'; s.oid = strtoul(spec.c_str() + 2, 0, 0); s.rp = ref::find(s.mt, s.oid); }
    return s;
}

// ---------------------------------------------------------------- keys
struct Key {
    Impl *im; const Set *st; xmss_params prm; Bytes pk, sk; int rc = 0;
    size_t sigb;      // from the reference, not from the implementation
    size_t skb() const { return st->off() + prm.sk_bytes; }
    Key(Impl *im, const Set *st) : im(im), st(st), prm(st->params(im)), sigb(st->rp.sigb()) { pk.resize(st->off() + 2 * st->rp.n); sk.resize(skb()); }
    int keypair() { return keypair(pk.data(), sk.data()); }
    int keypair(u8 *pk, u8 *sk) {
        if (st->custom) return rc = st->mt ? im->xmssmt_core_keypair(&prm, pk, sk) : im->xmss_core_keypair(&prm, pk, sk);
        return rc = st->mt ? im->xmssmt_keypair(pk, sk, st->oid) : im->xmss_keypair(pk, sk, st->oid);
    }
    template <class T> static T *nonnull(T *p) { static u8 *z = (u8 *)malloc(1) + 1; return p ? p : z; }   // (of size 0)
    int sign(u8 *sk, u8 *sm, ull *smlen, const u8 *m, ull mlen) const {
        m = nonnull(m);
        if (st->custom) return st->mt ? im->xmssmt_core_sign(&prm, sk, sm, smlen, m, mlen) : im->xmss_core_sign(&prm, sk, sm, smlen, m, mlen);
        return st->mt ? im->xmssmt_sign(sk, sm, smlen, m, mlen) : im->xmss_sign(sk, sm, smlen, m, mlen);
    }
    int open(u8 *m, ull *mlen, const u8 *sm, ull smlen, const u8 *pk) const {
        m = nonnull(m); sm = nonnull(sm);
        if (st->custom) return st->mt ? im->xmssmt_core_sign_open(&prm, m, mlen, sm, smlen, pk) : im->xmss_core_sign_open(&prm, m, mlen, sm, smlen, pk);
        return st->mt ? im->xmssmt_sign_open(m, mlen, sm, smlen, pk) : im->xmss_sign_open(m, mlen, sm, smlen, pk);
    }
    u64 sk_idx() const { u64 v = 0; for (unsigned i = 0; i < st->rp.idxb(); i++) v = v << 8 | sk[st->off() + i]; return v; }
    void set_idx(u64 v) { ref::toByte(&sk[st->off()], v, st->rp.idxb()); }
    const u8 *skseed() const { return &sk[st->off() + st->rp.idxb()]; }
    const u8 *skprf() const { return skseed() + st->rp.n; }
    const u8 *skroot() const { return skseed() + 2 * st->rp.n; }
    const u8 *pubseed() const { return skseed() + 3 * st->rp.n; }
    Bytes seed3n() const { unsigned n = st->rp.n; Bytes b(3 * n); memcpy(&b[0], skseed(), 2 * n); memcpy(&b[2 * n], pubseed(), n); return b; }
};
inline u64 be(const u8 *p, unsigned n) { u64 v = 0; for (unsigned i = 0; i < n; i++) v = v << 8 | p[i]; return v; }

// random source for key generation
inline Rng *&rand_src() { static thread_local Rng *r = nullptr; return r; }
inline u64 &rand_calls() { static thread_local u64 c = 0; return c; }
inline void rand_fill(u8 *x, ull n) { rand_calls()++; if (!rand_src()) fail("randombytes called outside key generation"); rand_src()->fill(x, n); }
// true if key generation really took its bytes from the hook
inline bool keypair_seeded(Key &k, u64 seed) {
    Rng r(seed); rand_src() = &r; u64 before = rand_calls();
    if (k.im->rand_hook) *k.im->rand_hook = rand_fill;
    k.keypair(); rand_src() = nullptr; if (k.im->rand_hook) *k.im->rand_hook = nullptr;
    return rand_calls() != before;
}

// ---------------------------------------------------------------- messages
inline size_t msg_len(Rng &r, unsigned profile) {
    static const size_t L[] = {0, 1, 2, 15, 16, 31, 32, 33, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 135, 136, 137, 167, 168, 169, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025};
    if (profile == 0) return r.below(80);
    u64 c = r.below(100);
    if (c < 45) return L[r.below(sizeof L / sizeof *L)];
    if (c < 90) return r.below(400);
    if (c < 98) return r.below(6000);
    return profile >= 2 ? 60000 + r.below(80000) : r.below(20000);
}
inline Bytes message(Rng &r, unsigned profile) {
    size_t n = msg_len(r, profile); Bytes m(n); u64 c = r.below(16);
    if (c == 0) memset(m.data(), 0, n); else if (c == 1) memset(m.data(), 0xff, n); else r.fill(m.data(), n);
    if (n && c == 2) m[n - 1] = 0;
    if (n && c == 3) m[0] = 0;
    return m;
}

// ---------------------------------------------------------------- buffers of exactly n bytes
// heap: malloc of exactly that size (for AddressSanitizer). page: the end lies at
// an inaccessible page, and protect() makes the content read-only.
struct Buf {
    u8 *p = nullptr; size_t n = 0; bool page = false; u8 *base = nullptr; size_t maplen = 0;
    Buf(size_t n, bool page = false, int align = 0) : n(n), page(page) {
        if (page) {
            size_t ps = 4096, body = (n + ps - 1) / ps * ps + ps; maplen = body + ps;
            base = (u8 *)mmap(nullptr, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) fail("mmap");
            mprotect(base + body, ps, PROT_NONE); p = base + body - n;
        } else { base = (u8 *)malloc(n ? n : 1); p = n ? base : base + 1; }
        (void)align;
    }
    Buf(const Buf &) = delete;
    void protect() { if (page) mprotect(base, maplen - 4096, PROT_READ); }
    void set(const u8 *s) { if (n) memcpy(p, s, n); }
    ~Buf() { if (page) munmap(base, maplen); else free(base); }
};
} // namespace hx
