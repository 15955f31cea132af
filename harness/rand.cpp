// C09: where the bytes of a fresh key come from. The system calls behind the random
// source are scripted: what they deliver is known, and they fail and fall short.
#include "hx.hpp"
#include <cerrno>
#include <cstdio>
#include <sys/wait.h>
using namespace hx;
struct hx_os { int (*open)(const char *, int *); int (*read)(int, void *, size_t, ssize_t *); int (*close)(int, int *); int (*get)(void *, size_t, unsigned, ssize_t *); int (*fopen)(const char *, FILE **); int (*sleep)(void); };
static Rng *R; static u64 salt; static Bytes S; static unsigned level; static int streak, ostreak; static std::set<int> fds; static u64 nopen, nread, nshort, nfail, nsleep, nget, nunopened, nclose; static std::string script;
static u8 sbyte(u64 i) { u64 z = (i / 8 + salt) * 0x9E3779B97F4A7C15ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31; return z >> (8 * (i % 8)); }
static ssize_t deliver(void *b, size_t n) { for (size_t i = 0; i < n; i++) { u8 v = sbyte(S.size()); ((u8 *)b)[i] = v; S.push_back(v); } return n; }
static bool note(const char *f, long v) { if (script.size() < 600) script += fmt(" %s%ld", f, v); return true; }
static bool rnd(const char *p) { return !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"); }
static int os_open(const char *p, int *fd) { if (!rnd(p)) return 0; nopen++; if (level && ostreak < 4 && R->below(level >= 2 ? 3 : 8) < 1) { ostreak++; nfail++; static const int e[] = {EMFILE, EINTR, ENOENT, ENFILE, EACCES}; errno = e[R->below(5)]; *fd = -1; note("open!", errno); return 1; } ostreak = 0; *fd = R->below(4) ? 1000000 + (int)R->below(1000) : (1 << 30) + 5; while (fds.count(*fd)) (*fd)++; fds.insert(*fd); note("open", *fd); return 1; }
static ssize_t serve(void *b, size_t n, const char *nm) {
    nread++; u64 c = level ? R->below(level >= 2 ? 4 : 10) : 99; if (n == 0) return 0;
    if (level == 3 && R->below(50)) c = 9;
    if (c == 0 && streak < 5) { streak++; nfail++; int k = R->below(4); if (k == 0 && nm[0] == 'r') { note("eof", 0); return 0; } errno = k == 1 ? EINTR : k == 2 ? EAGAIN : EIO; if (nm[0] == 'g' && k == 3) errno = EINTR; note("read!", errno); return -1; }
    streak = 0; if (c == 1 && n > 1) { size_t k = R->below(3) ? 1 + R->below(n - 1) : R->below(2) ? n - 1 : 1; nshort++; note("short", k); return deliver(b, k); }
    note("full", n); return deliver(b, n);
}
static int os_read(int fd, void *b, size_t n, ssize_t *r) { if (!fds.count(fd)) { if (fd >= 1000000 || fd < 0) { nunopened++; errno = EBADF; *r = -1; return 1; } return 0; } *r = serve(b, n, "read"); return 1; }
static int os_close(int fd, int *r) { if (!fds.count(fd)) return 0; fds.erase(fd); nclose++; *r = 0; return 1; }
static int os_get(void *b, size_t n, unsigned f, ssize_t *r) { nget++; if (f & (1u << 31)) { if (n > 256) { errno = EIO; *r = -1; return 1; } if (level && R->below(4) == 0 && streak < 4) { streak++; errno = EINTR; *r = -1; return 1; } streak = 0; *r = deliver(b, n); return 1; } *r = serve(b, n, "getrandom"); return 1; }
static ssize_t ck_read(void *, char *b, size_t n) { return serve(b, n, "read"); }
static int os_fopen(const char *p, FILE **f) { if (!rnd(p)) return 0; nopen++; cookie_io_functions_t io = {ck_read, 0, 0, 0}; *f = fopencookie(nullptr, "r", io); return 1; }
static int os_sleep() { nsleep++; return 1; }
static hx_os OS = {os_open, os_read, os_close, os_get, os_fopen, os_sleep};

// Ranges of the delivered bytes that x consists of; empty if some part of x was not delivered (or only used before)
static std::vector<bool> used;
static bool covered(const u8 *x, size_t n, size_t from, bool mark, size_t *bad) {
    size_t i = 0; used.resize(S.size());
    while (i < n) {   // longest piece, directly behind the last one preferred
        size_t best = 0, at = 0; size_t m = std::min<size_t>(n - i, 8);
        for (size_t s = from; s + m <= S.size(); s++) { if (used[s] || memcmp(&S[s], x + i, m)) continue; size_t k = 0; while (i + k < n && s + k < S.size() && !used[s + k] && S[s + k] == x[i + k]) k++; if (k > best) { best = k; at = s; if (k == n - i) break; } }
        if (best < m) { *bad = i; return false; }
        if (mark) for (size_t k = 0; k < best; k++) used[at + k] = true;
        i += best;
    }
    return true;
}
static void reset() { S.clear(); used.clear(); fds.clear(); streak = ostreak = 0; script.clear(); salt += 0x100000007ULL; }
static int stub(unsigned n, u8 *l, const u8 *sk, const u8 *pub, const u32 *, const u32 *a) { u64 h = fnv(sk, n, fnv(pub, n)) + a[0] * 31 + a[1] * 77 + a[2] * 1231 + a[4] * 1000003ULL; Rng(h).fill(l, n); return 1; }
int main(int c, char **v) {
    Args a(c, v); Rng r(a.n("seed", 1) * 613 + 11); R = &r; salt = r.next(); watch("C09", "random bytes"); std::string mode = a.s("mode"); Impl *im = load(a.s("impl", "plain")); auto os = (hx_os **)dlsym(im->h, "hx_os"); if (!os) fail("no hx_os"); *os = &OS; u64 nfork = 0, nreq = 0, nkeys = 0, bytes = 0; std::set<u64> scripts;
    if (mode == "req") {
        const size_t L[] = {0, 1, 2, 3, 31, 32, 33, 72, 96, 192, 255, 256, 257, 511, 512, 4095, 4096, 4097, 65536, 65537, 1048575, 1048576, 1048577, 2097152, 2097153, 3333333};
        for (u64 i = 0; i < a.n("count", 3000); i++) {
            reset(); level = i % 10 == 0 ? 0 : 1 + r.below(2); size_t n = r.below(3) ? r.below(400) : L[r.below(i % 50 ? 20 : sizeof L / sizeof *L)]; if (n > 100000) level = level ? 3 : 0; u8 pat = r.below(2) ? 0xA5 : 0; bool pg = r.below(2); Buf b(n + 64, pg); memset(b.p, pat, b.n); u8 *x = b.p + (r.below(2) ? 64 : 32);
            progress(); im->randombytes(x, n); nreq++; bytes += n; scripts.insert(fnv((const u8 *)script.data(), script.size(), n)); std::string at = im->name + fmt(": request for %zu random bytes, calls:", n) + script.substr(0, 500);
            if (i == 0 && n && S.empty()) { for (int q = 0; q < 20 && S.empty(); q++) im->randombytes(x, 32); if (S.empty()) { skip("the random source does not use the calls that are scripted"); break; } }
            for (u8 *q = b.p; q < b.p + b.n; q++) if ((q < x || q >= x + n) && *q != pat) { viol("C09", "outside request", at + fmt(": byte at offset %ld written", (long)(q - x))); break; }
            size_t bad = 0; if (S.size() >= n && !memcmp(x, S.data(), n)) continue;
            if (n <= 5000 ? !covered(x, n, 0, true, &bad) : true) viol("C09", "undelivered bytes", at + fmt(": returned, but byte %zu of the request was not delivered by the system for it (%zu bytes delivered)", bad, S.size()));
        }
    } else {
        for (auto &sp : a.list("set", ';')) { Set st = mkset(sp); unsigned n = st.rp.n; if (im->leaf_hook && a.n("stub", 1)) *im->leaf_hook = stub;
            for (u64 i = 0; i < a.n("count", 4); i++) {
                reset(); level = i % 3; Key k1(im, &st), k2(im, &st); memset(k1.sk.data(), 0x11, k1.sk.size()); memset(k2.sk.data(), 0xEE, k2.sk.size()); u64 s0 = salt; Rng rs = r; progress(); k1.keypair(); nkeys++; std::string at = st.spec + "(" + st.rp.name + ") " + im->name;
                if (k1.rc) { viol("C01", "keypair " + sp, at + ": key generation failed"); break; }
                if (S.empty()) { skip("key generation does not draw from the calls that are scripted"); break; }
                scripts.insert(fnv((const u8 *)script.data(), script.size(), st.rp.oid * 64 + i)); size_t delivered = S.size();
                auto judge = [&](Key &k, const char *which) { const u8 *part[3] = {k.skseed(), k.skprf(), k.pubseed()}; const char *nm[3] = {"secret seed", "randomizer key", "public seed"}; for (int j = 0; j < 3; j++) { size_t bad = 0; if (!covered(part[j], n, 0, true, &bad)) viol("C09", std::string("seed ") + nm[j] + " " + im->name, at + fmt(": byte %zu of the %s of the %s key is not one delivered for it by the system's random source (%zu bytes delivered; calls:%s)", bad, nm[j], which, S.size(), script.substr(0, 300).c_str())); }
                    if (memcmp(k.pk.data() + st.off() + n, k.pubseed(), n)) viol("C09", "public seed " + im->name, at + ": the public key's seed is not the one drawn"); };
                judge(k1, "first"); progress(); k2.keypair(); nkeys++; judge(k2, "second");   // from bytes not used by the first
                // again from the same bytes with other failures: nothing else goes in
                { Bytes S0 = S; reset(); salt = s0; level = 1 + i % 2; Key k3(im, &st); memset(k3.sk.data(), 0x77, k3.sk.size()); memset(k3.pk.data(), 0x77, k3.pk.size()); progress(); k3.keypair(); nkeys++; size_t m = std::min(S.size(), S0.size()); (void)m;
                  if (k3.pk != k1.pk || k3.sk != k1.sk) { bool sameseeds = !memcmp(k3.skseed(), k1.skseed(), 2 * n) && !memcmp(k3.pubseed(), k1.pubseed(), n); viol("C09", "not determined " + im->name, at + (sameseeds ? ": keys with the same seeds differ" : ": the same bytes from the random source give different keys")); } }
                (void)delivered;
                if (i == 0) {   // a process and its child both go on generating keys, with the real source
                    *os = nullptr; Key a1(im, &st), a2(im, &st), a3(im, &st); progress(); a1.keypair(); int pf[2]; if (pipe(pf)) fail("pipe"); fflush(stdout); size_t n3 = 3 * n; pid_t pid = fork(); if (pid < 0) fail("fork");
                    if (!pid) { a2.keypair(); Bytes s = a2.seed3n(); size_t q = write(pf[1], s.data(), n3); _exit(q == n3 ? 0 : 1); }
                    a3.keypair(); Bytes s2(n3), s3 = a3.seed3n(), s1 = a1.seed3n(); size_t got = 0; close(pf[1]); while (got < n3) { ssize_t q = read(pf[0], &s2[got], n3 - got); if (q <= 0) break; got += q; } close(pf[0]); int ws; waitpid(pid, &ws, 0); progress(); nkeys += 3; *os = &OS;
                    if (got == n3) { nfork++; auto common = [&](const Bytes &x, const Bytes &y) { for (size_t u = 0; u + 8 <= n3; u += 4) for (size_t v = 0; v + 8 <= n3; v++) if (!memcmp(&x[u], &y[v], 8)) return true; return false; };
                        if (common(s2, s3)) viol("C09", "same seeds after fork " + im->name, at + ": a process and its child, forked after a key was generated, generate keys with the same secret bytes");
                        if (common(s1, s3) || common(s1, s2)) viol("C09", "same seeds " + im->name, at + ": two keys generated one after another have secret bytes in common"); }
                }
            }
            sample(st.rp.name + " " + im->name + ": calls" + script.substr(0, 200));
        }
    }
    stat("requests", nreq); stat("keys generated on both sides of a fork", nfork); stat("keys generated", nkeys); stat("bytes requested directly", bytes); stat("distinct fault scripts", scripts.size()); stat("opens", nopen); stat("reads", nread); stat("short reads", nshort); stat("failures injected", nfail); stat("sleeps", nsleep); stat("getrandom calls", nget); done();
}
