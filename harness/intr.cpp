// C23: signing that is interrupted anywhere. Secret key and output buffer live in shared
// memory; a child signs and is ended at a chosen hash computation or moment. What it left
// behind is then judged, and signed with again.
#include "hx.hpp"
#include <sys/wait.h>
using namespace hx;
struct Shared { u64 hashes; ull len; int rc, done; };
static Shared *sh; static u64 limit;
static void on_hash() { if (++sh->hashes == limit) _exit(77); }
static u8 *shared(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) fail("mmap"); return (u8 *)p; }
int main(int c, char **v) {
    Args a(c, v); Rng r(a.n("seed", 1) * 733 + 5); watch("C23", "signing"); sh = (Shared *)shared(sizeof *sh); u64 nint = 0, nrel = 0, nnot = 0, nsign = 0, ncrash = 0, nadopt = 0, nhook = 0, ntime = 0; std::set<u64> distinct;
    for (auto &sp : a.list("set", ';')) for (auto name : {"plain", "fast"}) { if (a.s("impl", "both") != "both" && a.s("impl") != name) continue;
        Impl *im = load(name); Set st = mkset(sp); const auto &p = st.rp; Key k(im, &st); if (!k.prm.sk_bytes) { skip("no parameters"); continue; } if (!keypair_seeded(k, r.next())) { skip("random source not replaceable"); } if (k.rc) { skip("no key"); continue; }
        std::string w = st.spec + " " + name; bool plain = im->name == "plain"; size_t maxm = a.n("maxmsg", 400), sb = p.sigb(), ib = p.idxb(), wo = ib + p.n; u8 *sk = shared(k.sk.size()), *sm = shared(sb + maxm + 1); Bytes cur = k.sk; std::map<u64, std::string> ledger;
        auto child = [&](const Bytes &from, const Bytes &m, u64 lim, u64 us) {   // 0: ended early, 1: returned, -1: crashed
            memcpy(sk, from.data(), from.size()); r.fill(sm, sb + m.size()); memset(sh, 0, sizeof *sh); limit = lim; fflush(stdout); pid_t pid = fork(); if (pid < 0) fail("fork");
            if (!pid) { if (im->hash_hook) *im->hash_hook = on_hash; if (us) { struct itimerval t = {{0, 0}, {(time_t)(us / 1000000), (suseconds_t)(us % 1000000)}}; setitimer(ITIMER_REAL, &t, nullptr); } sh->rc = k.sign(sk, sm, &sh->len, Key::nonnull(m.data()), m.size()); sh->done = 1; _exit(0); }
            int x; waitpid(pid, &x, 0); progress(); if (WIFSIGNALED(x) && WTERMSIG(x) != SIGALRM) { ncrash++; return -1; } return sh->done ? 1 : 0; };
        u64 cap = std::min<u64>(p.capacity(), a.n("count", 40)); Bytes start = cur;
        for (u64 e = 0; e < cap; e++) {
            Bytes m = r.bytes(r.below(maxm)), m2 = r.bytes(r.below(60)); struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); int d = child(cur, m, 0, 0); clock_gettime(CLOCK_MONOTONIC, &t1); nsign++; if (d != 1 || sh->rc) break;   // (a key that was interrupted before may be refused)
            u64 i = be(sm, ib), H = sh->hashes, us = (t1.tv_sec - t0.tv_sec) * 1000000 + (t1.tv_nsec - t0.tv_nsec) / 1000 + 1; Bytes E(sm, sm + sb), next(sk, sk + cur.size());
            if (ledger.count(i)) { viol("C23", "reuse later " + im->name, w + fmt(": index %" PRIu64 " is used again, although %s", i, ledger[i].c_str())); break; }
            std::vector<std::pair<u64, u64>> pts; if (H) { for (u64 x : {(u64)1, (u64)2, (u64)3, (u64)4, H - 1, H}) if (r.below(3) == 0) pts.push_back({x, 0}); u64 l = p.len() * 2; pts.push_back({1 + r.below(l), 0}); for (u64 q = 0; q < a.n("points", 12); q++) pts.push_back({1 + r.below(H), 0}); } for (u64 q = 0; q < (H ? 3 : a.n("points", 12)); q++) pts.push_back({0, 1 + r.below(us + us / 10)});
            Bytes adopt; std::string how; bool rel = false; std::set<u64> done;
            for (auto &pt : pts) { if (pt.first && !done.insert(pt.first).second) continue; int x = child(cur, m, pt.first, pt.second); if (x < 0) continue; if (x == 1) { if (sh->rc) break; } else { nint++; if (pt.first) { nhook++; distinct.insert(fnv((u8 *)&pt.first, 8, fnv((u8 *)&i, 8, fnv((u8 *)w.data(), w.size())))); } else ntime++; }
                size_t blocks = 0; for (unsigned j = 0; j < p.len(); j++) blocks += !memcmp(sm + wo + j * p.n, &E[wo + j * p.n], p.n); u64 is = be(sk + st.off(), ib); Bytes S(sk, sk + cur.size()); (blocks ? nrel : nnot)++;
                std::string at = x == 1 ? std::string("signing returned") : pt.first ? fmt("signing was ended at hash computation %" PRIu64 " of %" PRIu64, pt.first, H) : fmt("signing was ended after %" PRIu64 " of about %" PRIu64 " us", pt.second, us); at += fmt(" at index %" PRIu64 " with %zu of %u values of its one-time signature in the output buffer", i, blocks, p.len());
                if (is <= i || r.below(3) == 0) { int y = child(S, m2, 0, 0); nsign++; if (y == 1 && !sh->rc) { u64 i2 = be(sm, ib);
                    if (i2 <= i && blocks) { viol("C23", std::string("reuse ") + im->name, w + ": " + at + fmt("; the key it left signs another message with index %" PRIu64, i2)); }
                    else if (plain) { Bytes pk(k.pk.begin() + st.off(), k.pk.end()); if (!ref::verify(p, sm, sb + m2.size(), pk.data())) viol("C23", "invalid afterwards", w + ": " + at + "; the key it left makes an invalid signature"); } } }
                if (r.below(4) == 0) { adopt = S; how = at; rel = blocks; } }
            if (!adopt.empty() && r.below(3) == 0) { nadopt++; cur = adopt; if (rel) ledger[i] = how; } else { cur = next; ledger[i] = "a signature with it was made"; }
        }
        munmap(sk, k.sk.size()); munmap(sm, sb + maxm + 1); sample(w + fmt(": %" PRIu64 " interruptions so far, %" PRIu64 " with a part of the one-time signature put out", nint, nrel));
    }
    stat("interruptions", nint); stat("interrupted at a chosen hash computation", nhook); stat("interrupted at a chosen time", ntime); stat("left with part of the one-time signature", nrel); stat("left without", nnot); stat("keys used on after an interruption", nadopt); stat("signings judged", nsign); stat("crashes", ncrash); stat("distinct interruptions", distinct.size() + ntime); done();
}
