// C18: threads with keys of their own, sharing public keys, messages and signatures.
#include "hx.hpp"
#include <thread>
#include <sys/wait.h>
#include <atomic>
using namespace hx;
static Count nops;
struct Rec { Bytes pk, sk0; std::vector<Bytes> sms; std::vector<Bytes> msgs; Bytes skend; };
// A record made in a child process, so that nothing of the code under test has run in this one
static void put(int fd, const Bytes &b) { u64 n = b.size(); Bytes x((u8 *)&n, (u8 *)&n + 8); x.insert(x.end(), b.begin(), b.end()); for (size_t i = 0; i < x.size();) { ssize_t k = write(fd, &x[i], x.size() - i); if (k <= 0) _exit(9); i += k; } }
static bool get(int fd, Bytes &b) { u64 n; auto rd = [&](u8 *p, size_t l) { while (l) { ssize_t k = read(fd, p, l); if (k <= 0) return false; p += k; l -= k; } return true; }; if (!rd((u8 *)&n, 8) || n > 1u << 28) return false; b.resize(n); return rd(b.data(), n); }
template <class F> static bool elsewhere(Rec &o, F f) {
    int p[2]; if (pipe(p)) fail("pipe"); fflush(stdout); pid_t pid = fork(); if (pid < 0) fail("fork");
    if (!pid) { close(p[0]); Rec r = f(); put(p[1], r.pk); put(p[1], r.sk0); put(p[1], r.skend); Bytes n{(u8)r.sms.size(), (u8)r.msgs.size()}; put(p[1], n); for (auto &x : r.sms) put(p[1], x); for (auto &x : r.msgs) put(p[1], x); _exit(0); }
    close(p[1]); Bytes n; bool ok = get(p[0], o.pk) && get(p[0], o.sk0) && get(p[0], o.skend) && get(p[0], n); if (ok) { o.sms.resize(n[0]); o.msgs.resize(n[1]); for (auto &x : o.sms) ok &= get(p[0], x); for (auto &x : o.msgs) ok &= get(p[0], x); } close(p[0]); int w; waitpid(pid, &w, 0); return ok;
}
int main(int c, char **v) {
    Args a(c, v); Rng r(a.n("seed", 1) * 449 + 2); watch("C18", "threads"); Impl *im = load(a.s("impl", "fast")); std::vector<Set> sets; for (auto &s : a.list("set", ';')) sets.push_back(mkset(s)); unsigned T = a.n("threads", 6); u64 N = a.n("count", 30);
    bool os = a.n("os"); if (im->rand_hook && !os) *im->rand_hook = rand_fill;
    struct Plan { size_t set; u64 seed; }; std::vector<Plan> plan(T); for (auto &p : plan) { p.set = r.below(sets.size()); p.seed = r.next(); } if (a.n("same")) for (auto &p : plan) p.set = 0;
    std::vector<Bytes> shared; for (int i = 0; i < 8; i++) shared.push_back(message(r, 1));   // messages all threads read
    auto work = [&](unsigned t, bool delays, const Rec *given = nullptr) {
        Rec o; const Set &st = sets[plan[t].set]; Key k(im, &st); Rng q(plan[t].seed); Rng rr(plan[t].seed + 1); if (given) { k.pk = given->pk; k.sk = given->sk0; } else { rand_src() = &rr; k.keypair(); rand_src() = nullptr; nops++; } o.pk = k.pk; o.sk0 = k.sk;
        for (u64 i = 0; i < N; i++) { const Bytes &m = shared[q.below(shared.size())]; Bytes sm(st.rp.sigb() + m.size()); ull l = 0; int rc = k.sign(k.sk.data(), sm.data(), &l, m.data(), m.size()); nops++; progress(); if (rc) { o.sms.push_back({}); if (i > st.rp.capacity() + 2) break; continue; } o.sms.push_back(sm);
            if (i % 3 == 0) { Bytes out(sm.size()); ull ml; int rv = k.open(out.data(), &ml, sm.data(), sm.size(), k.pk.data()); nops++; o.msgs.push_back(Bytes{(u8)!!rv, (u8)ml}); } if (delays && q.below(5) == 0) std::this_thread::yield(); }
        o.skend = k.sk; return o;
    };
    auto verify_all = [&](std::vector<Rec> &together) {   // all verify all signatures of all
        std::atomic<unsigned> ready{0}; std::vector<std::thread> th2; std::atomic<u64> bad{0};
        for (unsigned t = 0; t < T; t++) th2.emplace_back([&, t] { ready++; while (ready < T) ; for (unsigned q = 0; q < T; q++) { unsigned u = (q + t / 2) % T; const Set &st = sets[plan[u].set]; Key k(im, &st); for (size_t i = 0; i < together[u].sms.size(); i += 1 + N / 6) { const Bytes &sm = together[u].sms[i]; if (sm.empty()) continue; Bytes out(sm.size()); ull ml = 0; progress(); int rc = k.open(out.data(), &ml, sm.data(), sm.size(), together[u].pk.data()); nops++; if (rc || ml != sm.size() - st.rp.sigb() || (ml && memcmp(out.data(), &sm[st.rp.sigb()], ml))) bad++; } } });
        for (auto &x : th2) x.join();
        if (bad) viol("C18", "shared verification " + im->name, im->name + fmt(": %llu verifications of valid shared signatures fail when done in parallel", (ull)bad.load()));
    };
    u64 rounds = a.n("rounds", 1); Count overlaps; std::set<u64> distinct;
    for (u64 round = 0; round < rounds; round++) {
        for (auto &p : plan) p.seed = r.next();
        std::vector<Rec> alone(T), together(T); unsigned cold = round ? 0 : a.n("cold");   // what the threads begin with is the first this process does: 1 generating keys, 2 signing, 3 verifying
        if (!os) for (unsigned t = 0; t < T; t++) { if (!cold) alone[t] = work(t, false); else if (!elsewhere(alone[t], [&] { return work(t, false); })) { skip("no result from the child process"); stat("operations", 0); done(); return 0; } }
        if (cold == 3) verify_all(alone);
        std::atomic<unsigned> ready{0}; std::vector<std::thread> th; std::atomic<int> inside{0};
        for (unsigned t = 0; t < T; t++) th.emplace_back([&, t] { ready++; while (ready < T) ; if (inside.fetch_add(1, std::memory_order_relaxed)) overlaps++; together[t] = work(t, false, cold == 2 ? &alone[t] : nullptr); inside.fetch_sub(1, std::memory_order_relaxed); });
        for (auto &x : th) x.join();
        for (unsigned t = 0; t < T; t++) { std::string w = sets[plan[t].set].spec + " " + im->name + fmt(" thread %u of %u", t, T); distinct.insert(fnv(together[t].pk.data(), together[t].pk.size()));
            if (!os) { if (together[t].pk != alone[t].pk || together[t].sk0 != alone[t].sk0) viol("C18", "keypair " + im->name, w + ": key generated differs from the one generated alone"); if (together[t].sms != alone[t].sms) viol("C18", "signature " + im->name, w + ": signatures differ from those made alone"); if (together[t].skend != alone[t].skend) viol("C18", "secret key " + im->name, w + ": secret key differs from the one alone"); if (together[t].msgs != alone[t].msgs) viol("C18", "verification " + im->name, w + ": verification results differ from those alone"); }
            for (auto &m : together[t].msgs) if (m[0]) viol("C18", "verification " + im->name, w + ": own signature rejected"); }
        if (os) { std::set<Bytes> pks; for (auto &x : together) pks.insert(x.pk); if (pks.size() < T) viol("C18", "same key " + im->name, im->name + ": two threads generated the same key"); for (unsigned t = 0; t < T; t++) { const Set &st = sets[plan[t].set]; unsigned n = st.rp.n; const u8 *s = &together[t].sk0[st.off() + st.rp.idxb()]; for (int part : {0, 1, 3}) { unsigned z = 0; for (unsigned i = 0; i < n; i++) z += !s[part * n + i]; if (z > 8) viol("C18", "incomplete seed " + im->name, im->name + fmt(": a seed of a key generated in thread %u has %u bytes 0 of %u", t, z, n)); } } }
        verify_all(together);
        // the random source itself
        if (os || !im->rand_hook) { std::vector<std::thread> th3; std::vector<Bytes> got(T); ready = 0; for (unsigned t = 0; t < T; t++) th3.emplace_back([&, t] { ready++; while (ready < T) ; for (int i = 0; i < 60; i++) { Bytes b(256); im->randombytes(b.data(), 256); nops++; got[t].insert(got[t].end(), b.begin(), b.end()); } }); for (auto &x : th3) x.join(); std::set<Bytes> w; for (auto &g : got) for (size_t i = 0; i + 16 <= g.size(); i += 16) if (!w.insert(Bytes(&g[i], &g[i] + 16)).second) { viol("C18", "random bytes " + im->name, im->name + ": threads got the same random bytes"); break; } }
    }
    stat("operations", nops); stat("cold starts", a.n("cold") ? 1 : 0); stat("threads started", T * 2 * rounds); stat("threads that overlapped others", (u64)overlaps); stat("distinct keys", distinct.size()); sample(fmt("%u threads, %" PRIu64 " rounds, %" PRIu64 " operations, %s", T, rounds, (u64)nops, im->name.c_str())); done();
}
