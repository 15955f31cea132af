/* C22: a fixed (seeded) scenario whose every result is printed as one line, so that
   builds of the code under test for other platforms, compilers and options can be
   compared line by line. Plain C, needs no libcrypto. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "params.h"
#include "xmss.h"
#include "xmss_core.h"
typedef unsigned long long ull; typedef unsigned char u8;
void shake128(u8 *, ull, const u8 *, ull) __attribute__((weak)); void shake256(u8 *, ull, const u8 *, ull) __attribute__((weak));   /* if there */
static uint64_t rs; static unsigned randcalls;
static uint64_t nxt(void) { uint64_t z = (rs += 0x9E3779B97F4A7C15ULL); z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ULL; z = (z ^ z >> 27) * 0x94D049BB133111EBULL; return z ^ z >> 31; }
static void fill(u8 *p, size_t n) { size_t i; for (i = 0; i < n; i++) p[i] = (u8)(nxt() >> 24); }
void __wrap_randombytes(unsigned char *x, unsigned long long n) { randcalls++; fill(x, (size_t)n); }
static uint64_t fnv(const u8 *p, size_t n) { uint64_t h = 1469598103934665603ULL; size_t i; for (i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ULL; return h ^ h >> 31; }
static uint64_t seed; static unsigned part, parts = 1, nlife, deep;
/* buffers with a margin that must stay untouched */
static u8 *mk(size_t n) { u8 *p = malloc(n + 64); if (!p) { printf("nomem\n"); exit(4); } memset(p, 0x5A, n + 64); return p + 32; }
static int intact(const u8 *p, size_t n) { int i; for (i = 0; i < 32; i++) if (p[-1 - i] != 0x5A || p[n + i] != 0x5A) return 0; return 1; }
static void rel(u8 *p) { free(p - 32); }
static void pparams(const char *what, uint32_t oid, int rc, const xmss_params *p)
{
    if (rc) printf("oid %s %08lx refused\n", what, (unsigned long)oid);
    else printf("oid %s %08lx func %u n %u pad %u w %u logw %u len1 %u len2 %u len %u wsig %u h %u th %u d %u idx %u sig %u pk %u sk %llu k %u\n", what, (unsigned long)oid, p->func, p->n, p->padding_len, p->wots_w, p->wots_log_w, p->wots_len1, p->wots_len2, p->wots_len, p->wots_sig_bytes, p->full_height, p->tree_height, p->d, p->index_bytes, p->sig_bytes, p->pk_bytes, (ull)p->sk_bytes, p->bds_k);
}
static void life(int func, unsigned n, unsigned w, unsigned h, unsigned d, unsigned k, const uint64_t *jumps, int nj, int run, int all)
{
    xmss_params p; u8 *pk, *sk, *sk0, *sm, *m, *o; ull l, ml; int j, r, rc; char tag[96]; if (nlife++ % parts != part) return;
    snprintf(tag, sizeof tag, "%d,%u,%u,%u,%u,%u", func, n, w, h, d, k);
    memset(&p, 0, sizeof p); p.func = func; p.n = n; p.wots_w = w; p.full_height = h; p.d = d; p.bds_k = k;
    rc = xmss_xmssmt_initialize_params(&p); if (!deep && p.sk_bytes == p.index_bytes + 4 * p.n && p.tree_height > 6) return;
    printf("%s init %d sig %u sk %llu\n", tag, rc, p.sig_bytes, (ull)p.sk_bytes); if (rc) return;
    pk = mk(p.pk_bytes); sk = mk((size_t)p.sk_bytes); sk0 = mk((size_t)p.sk_bytes);
    rs = seed * 77 + fnv((u8 *)tag, strlen(tag)); randcalls = 0;
    rc = d == 1 ? xmss_core_keypair(&p, pk, sk) : xmssmt_core_keypair(&p, pk, sk);
    if (!randcalls) { printf("norand\n"); exit(0); }
    printf("%s key %d pk %016llx sk %016llx margin %d\n", tag, rc, (ull)fnv(pk, p.pk_bytes), (ull)fnv(sk, (size_t)p.sk_bytes), intact(pk, p.pk_bytes) && intact(sk, (size_t)p.sk_bytes));
    memcpy(sk0, sk, (size_t)p.sk_bytes);
    if (p.sk_bytes == p.index_bytes + 4 * p.n && !all && run > 2) run = 2;
    if (p.sk_bytes == p.index_bytes + 4 * p.n && all && (unsigned)run > 6 + 600u / (p.d << p.tree_height)) run = 6 + 600 / (p.d << p.tree_height);   /* no stored state: every signature computes d whole trees */
    for (j = 0; j < nj; j++) {
        if (!all) memcpy(sk, sk0, (size_t)p.sk_bytes);
        if (!all) { unsigned i; for (i = 0; i < p.index_bytes; i++) sk[i] = (u8)(jumps[j] >> 8 * (p.index_bytes - 1 - i)); }
        for (r = 0; r < run; r++) {
            size_t len = (size_t)(nxt() % 140); uint64_t at = 0; unsigned i, nb; int v; sm = mk(p.sig_bytes + len); m = mk(len); o = mk(p.sig_bytes + len); fill(m, len); l = 0; ml = 0;
            for (i = 0; i < p.index_bytes; i++) at = at << 8 | sk[i];
            rc = d == 1 ? xmss_core_sign(&p, sk, sm, &l, m, len) : xmssmt_core_sign(&p, sk, sm, &l, m, len);
            printf("%s idx %llu sign %d sm %016llx sk %016llx margin %d", tag, (ull)at, rc, rc ? 0ULL : (ull)(l == p.sig_bytes + len ? fnv(sm, (size_t)l) : 1), (ull)fnv(sk, (size_t)p.sk_bytes), intact(sm, p.sig_bytes + len) && intact(m, len) && intact(sk, (size_t)p.sk_bytes));
            if (!rc) {
                v = d == 1 ? xmss_core_sign_open(&p, o, &ml, sm, l, pk) : xmssmt_core_sign_open(&p, o, &ml, sm, l, pk); printf(" open %d %llu %016llx", !v, ml, v ? 0ULL : (ull)fnv(o, (size_t)ml));
                nb = (unsigned)(nxt() % (8 * (p.sig_bytes + len))); sm[nb / 8] ^= (u8)(1 << nb % 8);
                v = d == 1 ? xmss_core_sign_open(&p, o, &ml, sm, l, pk) : xmssmt_core_sign_open(&p, o, &ml, sm, l, pk); printf(" altered %d", !v);
                nb = (unsigned)(nxt() % p.sig_bytes); v = d == 1 ? xmss_core_sign_open(&p, o, &ml, sm, nb, pk) : xmssmt_core_sign_open(&p, o, &ml, sm, nb, pk); printf(" short %d margin %d", !v, intact(o, p.sig_bytes + len) && intact(pk, p.pk_bytes));
            }
            printf("\n"); rel(sm); rel(m); rel(o);
        }
    }
    fflush(stdout); rel(pk); rel(sk); rel(sk0);
}
int main(int argc, char **argv)
{
    static const struct { int f; unsigned n; } F[] = {{XMSS_SHA2, 24}, {XMSS_SHA2, 32}, {XMSS_SHA2, 64}, {XMSS_SHAKE128, 32}, {XMSS_SHAKE256, 24}, {XMSS_SHAKE256, 32}, {XMSS_SHAKE256, 64}};
    static const uint64_t J60[] = {0xFFFFFFFFULL, 0xFFFFFFFFFFULL, 0x7FFFFFFFFFFFFFFULL, (1ULL << 60) - 2, 255, 65535, 0x7FFFFFFFULL, 0x1FFFFFFFFULL, 0}, J40[] = {0x7FFFFFFFULL, 0xFFFFFFFFULL, (1ULL << 40) - 3}, Z[] = {0};
    static const size_t L[] = {0, 1, 135, 136, 137, 167, 168, 169, 500, 5000};
    uint32_t o; unsigned i, j; xmss_params p; int rc; u8 *a, *b;
    seed = argc > 1 ? strtoull(argv[1], 0, 0) : 1; deep = argc > 2 && !strcmp(argv[2], "deep"); if (argc > 4) { part = (unsigned)atoi(argv[3]); parts = (unsigned)atoi(argv[4]); }
    if (part == 0) {
    for (o = 0; o < 0x140; o++) { uint32_t q = o < 0x100 ? o : o < 0x120 ? 1u << (o - 0x100) : 1 | 1u << (o - 0x120); memset(&p, 0, sizeof p); rc = xmss_parse_oid(&p, q); pparams("xmss", q, rc, &p); memset(&p, 0, sizeof p); rc = xmssmt_parse_oid(&p, q); pparams("xmssmt", q, rc, &p); }
    rs = seed; a = mk(5000); b = mk(5000);
    if (shake128 && shake256) for (i = 0; i < 10; i++) for (j = 0; j < 10; j++) { fill(a, 5000); shake128(b, L[j], a, L[i]); printf("shake128 %lu %lu %016llx", (unsigned long)L[i], (unsigned long)L[j], (ull)fnv(b, L[j])); shake256(b, L[j], a, L[i]); printf(" shake256 %016llx margin %d\n", (ull)fnv(b, L[j]), intact(b, 5000)); }
    }
    for (i = 0; i < 7; i++) {
        life(F[i].f, F[i].n, 16, 4, 2, 0, Z, 1, 19, 1);
        life(F[i].f, F[i].n, 4, 3, 1, 1, Z, 1, 10, 1);
        if (i % 3 == 1 || deep) life(F[i].f, F[i].n, 256, 2, 1, 0, Z, 1, 6, 1);
        if (i == 1 || i == 5 || deep) { life(F[i].f, F[i].n, 4, 60, 30, 0, J60, i == 1 || deep ? 9 : 4, 3, 0); if (i == 1 || deep) life(F[i].f, F[i].n, 4, 40, 10, 0, J40, 3, 3, 0); else life(F[i].f, F[i].n, 4, 40, 20, 1, J40, 3, 3, 0); }
    }
    life(XMSS_SHA2, 32, 4, 6, 3, 0, Z, 1, 66, 1); life(XMSS_SHA2, 32, 4, 6, 2, 1, Z, 1, 66, 1); life(XMSS_SHA2, 24, 4, 8, 2, 2, Z, 1, 258, 1); life(XMSS_SHA2, 24, 4, 9, 1, 3, Z, 1, 515, 1); life(XMSS_SHA2, 24, 4, 12, 2, 4, Z, 1, 140, 1);
    if (deep) { life(XMSS_SHA2, 32, 16, 10, 1, 0, Z, 1, 1027, 1); life(XMSS_SHA2, 32, 4, 12, 4, 1, Z, 1, 4100, 1); life(XMSS_SHAKE256, 32, 4, 10, 2, 1, Z, 1, 1027, 1); }
    printf("end\n"); return 0;
}
