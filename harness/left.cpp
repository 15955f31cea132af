// C24: what operations leave behind in a process that does many of them: memory, file
// descriptors, mappings, threads, process-wide settings, output; and the stack they need.
#include "hx.hpp"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <fenv.h>
#include <functional>
#include <malloc.h>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace hx;
extern char **environ;
struct hx_os { int (*open)(const char *, int *); int (*read)(int, void *, size_t, ssize_t *); int (*close)(int, int *); int (*get)(void *, size_t, unsigned, ssize_t *); int (*fopen)(const char *, FILE **); int (*sleep)(void); };
static Rng *R; static unsigned faults; static u64 nfault; static int streak;
static bool hit() { if (!faults || streak >= 3 || R->below(3)) { streak = 0; return false; } streak++; nfault++; return true; }
static int os_open(const char *, int *fd) { if (!hit()) return 0; errno = R->below(2) ? EINTR : EMFILE; *fd = -1; return 1; }
static int os_read(int fd, void *b, size_t n, ssize_t *r) { if (!hit()) return 0; if (n > 1 && R->below(2)) { int f = faults; faults = 0; *r = read(fd, b, 1 + R->below(n - 1)); faults = f; return 1; } errno = R->below(2) ? EINTR : EIO; *r = -1; return 1; }
static int os_close(int, int *) { return 0; }
static int os_get(void *, size_t, unsigned, ssize_t *) { return 0; }
static int os_fopen(const char *, FILE **) { return 0; }
static int os_sleep() { return 1; }
static hx_os OS = {os_open, os_read, os_close, os_get, os_fopen, os_sleep};
static long entries(const char *d) { DIR *x = opendir(d); long n = 0; if (!x) return 0; while (readdir(x)) n++; closedir(x); return n; }
struct State { long fds, threads, heap, map; std::map<std::string, std::string> set; };
static long mapped() { long v = 0; FILE *f = fopen("/proc/self/statm", "r"); if (f) { if (fscanf(f, "%ld", &v) != 1) v = 0; fclose(f); } return v * 4096; }
static void state(State &s, bool all) {
    malloc_trim(0); s.fds = entries("/proc/self/fd"); s.threads = entries("/proc/self/task"); struct mallinfo2 mi = mallinfo2(); s.heap = mi.uordblks + mi.hblkhd; s.map = mapped();
    if (!all) return;
    for (int i = 1; i < 65; i++) { struct sigaction a; memset(&a, 0, sizeof a); if (sigaction(i, nullptr, &a)) continue; s.set["handling of signal " + std::to_string(i)] = fmt("%p %x", (void *)a.sa_handler, a.sa_flags); }
    sigset_t m; sigemptyset(&m); sigprocmask(SIG_BLOCK, nullptr, &m); std::string q; for (int i = 1; i < 65; i++) q += sigismember(&m, i) ? '1' : '0'; s.set["signal mask"] = q;
    mode_t u = umask(0); umask(u); s.set["umask"] = std::to_string(u); char b[4096]; s.set["working directory"] = getcwd(b, sizeof b) ? b : "?"; q.clear(); for (char **e = environ; *e; e++) { q += *e; q += '\n'; } s.set["environment"] = q;
    s.set["rounding mode"] = std::to_string(fegetround()); for (int i : {RLIMIT_NOFILE, RLIMIT_STACK, RLIMIT_AS, RLIMIT_CORE, RLIMIT_FSIZE, RLIMIT_CPU, RLIMIT_DATA}) { struct rlimit l; getrlimit((__rlimit_resource)i, &l); s.set["resource limit " + std::to_string(i)] = fmt("%llu/%llu", (ull)l.rlim_cur, (ull)l.rlim_max); }
    s.set["files in the working directory"] = std::to_string(entries("."));
}
// output of the code under test goes to a file while it runs
static int cap = -1, so, se; static void quiet() { fflush(stdout); fflush(stderr); if (cap < 0) { cap = memfd_create("out", 0); so = fcntl(1, F_DUPFD, 500); se = fcntl(2, F_DUPFD, 501); } dup2(cap, 1); dup2(cap, 2); }
static long loud() { fflush(stdout); fflush(stderr); dup2(so, 1); dup2(se, 2); long n = lseek(cap, 0, SEEK_END); if (ftruncate(cap, 0)) n = -1; lseek(cap, 0, SEEK_SET); return n; }
// stack needed by f
static const size_t SB = 96 << 20; static u8 *stk; static std::function<void()> job;
static void *run(void *) { job(); return nullptr; }
static size_t paintedfrom = 0;
static size_t stack_of(std::function<void()> f) {
    if (!stk) { stk = (u8 *)mmap(nullptr, SB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (stk == MAP_FAILED) fail("mmap"); memset(stk, 0xC7, SB); mprotect(stk, 4096, PROT_NONE); }
    else memset(stk + paintedfrom, 0xC7, SB - paintedfrom);
    job = f; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stk, SB); pthread_t t; if (pthread_create(&t, &at, run, nullptr)) fail("thread"); pthread_join(t, nullptr); pthread_attr_destroy(&at);
    size_t i = 4096; const u64 P = 0xC7C7C7C7C7C7C7C7ULL; while (i < SB && *(u64 *)(stk + i) == P) i += 8; paintedfrom = i < 8192 ? 4096 : i - 4096; return SB - i;
}
static int stub(unsigned n, u8 *l, const u8 *sk, const u8 *pub, const u32 *, const u32 *a) { u64 h = fnv(sk, n, fnv(pub, n)) + a[0] * 31 + a[1] * 77 + a[2] * 1231 + a[4] * 1000003ULL; Rng(h).fill(l, n); return 1; }
static void *thr(void *p) { (*(std::function<void()> *)p)(); return nullptr; }
int main(int c, char **v) {
    if (!getenv("GLIBC_TUNABLES")) { setenv("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0", 1); execv("/proc/self/exe", v); }   // what is freed shall count as free
    Args a(c, v); Rng r(a.n("seed", 1) * 811 + 3); R = &r; watch("C24", "operations"); Impl *im = load(a.s("impl", "plain")); auto os = (hx_os **)dlsym(im->h, "hx_os"); if (os) *os = &OS;
    u64 N = a.n("count", 60), nops = 0, nscen = 0, nstack = 0, smax = 0; long hmax = 0; std::set<std::string> distinct; char tmpl[] = "/tmp/hxleftXXXXXX"; if (!mkdtemp(tmpl) || chdir(tmpl)) fail("scratch directory");
    auto scenario = [&](const Set &st, const std::string &what, bool threads, u64 n, std::function<void(u64)> f) {
        auto go = [&](u64 k) { quiet(); for (u64 i = 0; i < k; i++) { progress(); if (threads) { std::function<void()> g = [&] { f(i); }; pthread_t t; if (pthread_create(&t, nullptr, thr, &g)) fail("thread"); pthread_join(t, nullptr); } else f(i); nops++; } return loud(); };
        std::string w = st.spec + "(" + st.rp.name + ") " + im->name + ": " + what + (threads ? ", each in a thread of its own" : ""), key = what + " " + im->name; State s0, s1, s2; state(s0, true); long o = go(n); state(s1, true); nscen++; distinct.insert(w);
        if (o) viol("C24", "output " + key, w + fmt(": %ld bytes written to standard output or error", o));
        for (auto &x : s1.set) if (x.second != s0.set[x.first]) viol("C24", "settings " + key, w + ": changes the " + x.first + " of the process: " + s0.set[x.first].substr(0, 100) + " -> " + x.second.substr(0, 100));
        state(s1, false); go(n); state(s2, false); auto grown = [&](const State &x, const State &y, u64 n, std::string *m) { *m = ""; if (y.fds - x.fds >= (long)(n / 4)) *m += fmt(" %ld file descriptors", y.fds - x.fds); if (y.threads - x.threads >= (long)(n / 4)) *m += fmt(" %ld threads", y.threads - x.threads); if (y.heap - x.heap >= (long)(16 * n)) *m += fmt(" %ld bytes of allocated memory", y.heap - x.heap); if (y.map - x.map >= (long)(2048 * n)) *m += fmt(" %ld bytes of mapped memory", y.map - x.map); return !m->empty(); };
        if (getenv("HX_DEBUG")) fprintf(stderr, "%s %.1f\n", w.c_str(), clock() / 1e6); std::string m; hmax = std::max(hmax, s2.heap - s1.heap);
        if (grown(s1, s2, n, &m)) { go(3 * n); State s3; state(s3, false); if (grown(s2, s3, 3 * n, &m)) { go(3 * n); State s4; state(s4, false); if (grown(s3, s4, 3 * n, &m)) viol("C24", "growth " + key, w + fmt(": %" PRIu64 " such operations more (after %" PRIu64 ") leave behind", 3 * n, 5 * n) + m); } }
    };
    for (auto &sp : a.list("set", ';')) {
        Set st = mkset(sp); Key k(im, &st); if (!k.prm.sk_bytes) { skip("no parameters"); continue; } bool big = st.rp.h / st.rp.d > 5 || st.rp.w == 256; if (!st.custom) { if (im->leaf_hook) *im->leaf_hook = stub; else if (st.rp.h / st.rp.d > 5) { skip("leaves cannot be replaced"); continue; } } else if (im->leaf_hook) *im->leaf_hook = nullptr;
        if (k.keypair()) { skip("no key"); continue; } size_t sb = k.sigb; Bytes msg = r.bytes(120), sm(sb + 200), mo(sb + 200), pk2(k.pk.size()), sk2(k.sk.size()); ull l = 0; Bytes work = k.sk; if (k.sign(work.data(), sm.data(), &l, msg.data(), msg.size())) { skip("no signature"); continue; }
        Bytes good(sm.begin(), sm.begin() + l); u64 n = st.rp.d > 6 ? std::max<u64>(N / 4, 12) : big ? std::max<u64>(N / 3, 16) : N; u64 cap = st.rp.capacity();
        auto sgn = [&](Bytes &s, size_t ml) { ull x; return k.sign(s.data(), sm.data(), &x, msg.data(), ml); };
        auto opn = [&](const Bytes &b, const u8 *pk) { ull x; return k.open(mo.data(), &x, b.data(), b.size(), pk); };
        for (bool th : {false, true}) {
            scenario(st, "key generation", th, std::max<u64>(n / 2, 12), [&](u64) { faults = 1; k.keypair(pk2.data(), sk2.data()); faults = 0; });
            scenario(st, "signing", th, n, [&](u64 i) { if (i % 4 == 0) work = k.sk; sgn(work, i % 120); });
            scenario(st, "verification of a good signature", th, n, [&](u64) { opn(good, k.pk.data()); });
            scenario(st, "verification of a changed signature", th, n, [&](u64) { Bytes b = good; b[r.below(sb)] ^= 1 << r.below(8); opn(b, k.pk.data()); });
            scenario(st, "verification of a changed message", th, n, [&](u64) { Bytes b = good; b[sb + r.below(120)] ^= 1; opn(b, k.pk.data()); });
            scenario(st, "verification of input too short", th, n * 4, [&](u64 i) { Bytes b(good.begin(), good.begin() + (i % 8 ? r.below(sb) : 0)); opn(b, k.pk.data()); });
            scenario(st, "verification with an index that is too large", th, n, [&](u64) { Bytes b = good; memset(b.data(), 0xff, st.rp.idxb()); opn(b, k.pk.data()); });
            { Bytes used = k.sk; if (im->name == "plain") { memset(&used[st.off()], 0xff, st.rp.idxb()); scenario(st, "signing with a used up key", th, n, [&](u64) { Bytes s = used; sgn(s, 5); sgn(s, 5); });
                Bytes last = k.sk; ref::toByte(&last[st.off()], cap - 1, st.rp.idxb()); scenario(st, "the last signature and a refusal", th, n, [&](u64) { Bytes s = last; sgn(s, 5); sgn(s, 5); }); }
              else if (cap <= 64) { scenario(st, "a whole life and a refusal", th, std::max<u64>(n / 6, 20), [&](u64) { Bytes s = k.sk; for (u64 i = 0; i < cap + 2; i++) sgn(s, 5); }); }
              if (im->name == "fast") { scenario(st, "signing with damaged traversal states", th, n, [&](u64 i) { Bytes s = k.sk; size_t f = st.off() + st.rp.idxb() + 4 * st.rp.n; for (int q = 0; q < 1 + (int)(i % 40); q++) s[f + r.below(s.size() - f)] = r.below(3) ? 0xff : r.next(); sgn(s, 5); }); } }
            if (!st.custom) scenario(st, "calls with unknown identifiers and names", th, n * 3, [&](u64 i) { Bytes p = k.pk, s = k.sk; p[i % 4] ^= 0x80; s[i % 4] ^= 0x80; opn(good, p.data()); sgn(s, 3); u8 t[64]; u32 o = 0x7f000000 + i; st.mt ? im->xmssmt_keypair(pk2.data(), sk2.data(), o) : im->xmss_keypair(pk2.data(), sk2.data(), o); xmss_params q; memset(t, 0, 64); memset(&q, 0, sizeof q); im->xmss_parse_oid(&q, o); im->xmssmt_parse_oid(&q, o); im->xmss_str_to_oid(&o, "XMSS-SHA2_10_255"); im->xmssmt_str_to_oid(&o, "XMSSMT-SHA2_20/2_257"); im->xmss_str_to_oid(&o, "XMSS-SHA2_10_256"); });
        }
        // the stack needed
        std::map<std::string, std::pair<size_t, std::string>> lo, hi; auto st1 = [&](const char *op, const std::string &at, std::function<void()> f) { progress(); size_t x = stack_of(f); nstack++; smax = std::max<u64>(smax, x); if (!lo.count(op) || x < lo[op].first) lo[op] = {x, at}; if (!hi.count(op) || x > hi[op].first) hi[op] = {x, at}; };
        quiet();
        for (size_t ml : {(size_t)0, (size_t)1, (size_t)100, (size_t)5000, (size_t)300000, (size_t)a.n("long", 8000000)}) { Bytes M(ml + 1), S(sb + ml), O(sb + ml); M.resize(ml + 1); Bytes s = k.sk; ull x = 0, y = 0; std::string at = fmt("a message of %zu bytes", ml); u8 *m = M.data();
            st1("signing", at, [&] { k.sign(s.data(), S.data(), &x, m, ml); }); st1("verification", at, [&] { k.open(O.data(), &y, S.data(), S.size(), k.pk.data()); }); S[sb - 1] ^= 1; st1("verification", at + " and a changed signature", [&] { k.open(O.data(), &y, S.data(), S.size(), k.pk.data()); }); if (ml) st1("verification", fmt("%zu bytes, which are too short", ml < sb ? ml : sb - 1), [&] { k.open(O.data(), &y, S.data(), ml < sb ? ml : sb - 1, k.pk.data()); }); }
        { Bytes s = k.sk; ull x; for (u64 i = 0; i < std::min<u64>(cap + 1, a.n("life", 66)); i++) st1("signing", fmt("signature %" PRIu64, i), [&] { k.sign(s.data(), sm.data(), &x, msg.data(), 5); }); }
        if (im->name == "plain") for (u64 i : {cap / 2 - 1, cap / 2, cap - 3, cap - 2, cap - 1}) { Bytes s = k.sk; ref::toByte(&s[st.off()], i, st.rp.idxb()); ull x; if (!big || st.rp.h / st.rp.d < 11) st1("signing", fmt("index %" PRIu64, i), [&] { k.sign(s.data(), sm.data(), &x, msg.data(), 5); }); }
        loud();
        for (auto &x : hi) if (x.second.first > lo[x.first].first + 65536 + 4 * k.sk.size()) viol("C24", "stack " + x.first + " " + im->name, st.spec + "(" + st.rp.name + ") " + im->name + ": " + x.first + fmt(" needs %zu bytes of stack for ", x.second.first) + x.second.second + fmt(", %zu for ", lo[x.first].first) + lo[x.first].second);
        for (auto &x : hi) sample(st.rp.name + " " + im->name + " " + x.first + fmt(": %zu to %zu bytes of stack", lo[x.first].first, x.second.first));
    }
    if (chdir("/") || rmdir(tmpl)) { std::string q = std::string("rm -rf ") + tmpl; if (system(q.c_str())) {} }
    stat("operations", nops); stat("groups of operations", nscen); stat("failures of the random source injected", nfault); stat("stacks measured", nstack); maxstat("bytes of stack at most", smax); maxstat("largest growth of allocated memory in a group, bytes", hmax); stat("distinct kinds of operations", distinct.size()); done();
}
