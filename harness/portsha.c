/* Portable SHA-256 and SHA-512 with libcrypto's one-shot interface, for builds of
   the code under test where libcrypto is not available (32 bit). */
#if defined __x86_64__ || defined PORT_LIBCRYPTO   /* libcrypto's, without its lookup of the algorithm on each call */
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/sha.h>
unsigned char *SHA256(const unsigned char *d, size_t n, unsigned char *md) { SHA256_CTX c; SHA256_Init(&c); SHA256_Update(&c, d, n); SHA256_Final(md, &c); return md; }
unsigned char *SHA512(const unsigned char *d, size_t n, unsigned char *md) { SHA512_CTX c; SHA512_Init(&c); SHA512_Update(&c, d, n); SHA512_Final(md, &c); return md; }
#else
#include <stdint.h>
#include <stddef.h>
#include <string.h>
static uint32_t r32(uint32_t x, int n) { return x >> n | x << (32 - n); }
static uint64_t r64(uint64_t x, int n) { return x >> n | x << (64 - n); }
static uint64_t K[80]; static uint64_t H256[8], H512[8]; static int ready;
/* The constants: fractional parts of roots of primes, by integer square and cube roots. */
typedef struct { uint32_t w[8]; } big;   /* 256 bit, little endian words */
static int cmp(const big *a, const big *b) { int i; for (i = 7; i >= 0; i--) if (a->w[i] != b->w[i]) return a->w[i] < b->w[i] ? -1 : 1; return 0; }
static big mul(const big *a, const big *b) { big r; int i, j; memset(&r, 0, sizeof r); for (i = 0; i < 8; i++) { uint64_t c = 0; for (j = 0; i + j < 8; j++) { c += (uint64_t)a->w[i] * b->w[j] + r.w[i + j]; r.w[i + j] = (uint32_t)c; c >>= 32; } } return r; }
static big of(uint64_t hi, uint64_t lo) { big r; memset(&r, 0, sizeof r); r.w[0] = (uint32_t)lo; r.w[1] = (uint32_t)(lo >> 32); r.w[2] = (uint32_t)hi; r.w[3] = (uint32_t)(hi >> 32); return r; }
static uint64_t frac(unsigned p, int cube) {   /* floor(root(p) * 2^64) mod 2^64 */
    uint64_t hi, lo = 0; int i; big t; memset(&t, 0, sizeof t);
    if (cube) t.w[6] = p; else t.w[4] = p;
    for (hi = 1; cube ? (hi + 1) * (hi + 1) * (hi + 1) <= p : (hi + 1) * (hi + 1) <= p; hi++) ;
    for (i = 63; i >= 0; i--) { big x = of(hi, lo | (uint64_t)1 << i), y = mul(&x, &x); if (cube) y = mul(&y, &x); if (cmp(&y, &t) <= 0) lo |= (uint64_t)1 << i; }
    return lo;
}
static void setup(void) { int n = 0; unsigned p, q; for (p = 2; n < 80; p++) { for (q = 2; q * q <= p && p % q; q++) ; if (q * q <= p) continue; K[n] = frac(p, 1); if (n < 8) { H512[n] = frac(p, 0); H256[n] = H512[n] >> 32; } n++; } ready = 1; }
unsigned char *SHA256(const unsigned char *d, size_t n, unsigned char *md) {
    uint32_t h[8], w[64]; uint64_t len = n, done = 0; int i, last = 0; unsigned char b[64]; if (!ready) setup();
    for (i = 0; i < 8; i++) h[i] = (uint32_t)H256[i];
    while (!last) {
        memset(b, 0, 64);
        if (done <= len && len - done >= 64) memcpy(b, d + done, 64);
        else { size_t k = done <= len ? len - done : 0; if (done <= len) { if (k) memcpy(b, d + done, k); b[k] = 0x80; } if (done > len || k < 56) { for (i = 0; i < 8; i++) b[56 + i] = (unsigned char)((len * 8) >> (56 - 8 * i)); last = 1; } }
        done += 64;
        for (i = 0; i < 16; i++) w[i] = (uint32_t)b[4 * i] << 24 | (uint32_t)b[4 * i + 1] << 16 | (uint32_t)b[4 * i + 2] << 8 | b[4 * i + 3];
        for (; i < 64; i++) w[i] = w[i - 16] + (r32(w[i - 15], 7) ^ r32(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 7] + (r32(w[i - 2], 17) ^ r32(w[i - 2], 19) ^ w[i - 2] >> 10);
        { uint32_t s[8], x, y; memcpy(s, h, sizeof s);
          for (i = 0; i < 64; i++) { x = s[7] + (r32(s[4], 6) ^ r32(s[4], 11) ^ r32(s[4], 25)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + (uint32_t)(K[i] >> 32) + w[i]; y = (r32(s[0], 2) ^ r32(s[0], 13) ^ r32(s[0], 22)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2])); s[7] = s[6]; s[6] = s[5]; s[5] = s[4]; s[4] = s[3] + x; s[3] = s[2]; s[2] = s[1]; s[1] = s[0]; s[0] = x + y; }
          for (i = 0; i < 8; i++) h[i] += s[i]; }
    }
    for (i = 0; i < 32; i++) md[i] = (unsigned char)(h[i / 4] >> (24 - 8 * (i % 4)));
    return md;
}
unsigned char *SHA512(const unsigned char *d, size_t n, unsigned char *md) {
    uint64_t h[8], w[80], len = n, done = 0; int i, last = 0; unsigned char b[128]; if (!ready) setup();
    for (i = 0; i < 8; i++) h[i] = H512[i];
    while (!last) {
        memset(b, 0, 128);
        if (done <= len && len - done >= 128) memcpy(b, d + done, 128);
        else { size_t k = done <= len ? len - done : 0; if (done <= len) { if (k) memcpy(b, d + done, k); b[k] = 0x80; } if (done > len || k < 112) { for (i = 0; i < 8; i++) b[120 + i] = (unsigned char)((len * 8) >> (56 - 8 * i)); last = 1; } }
        done += 128;
        for (i = 0; i < 16; i++) { int j; w[i] = 0; for (j = 0; j < 8; j++) w[i] = w[i] << 8 | b[8 * i + j]; }
        for (; i < 80; i++) w[i] = w[i - 16] + (r64(w[i - 15], 1) ^ r64(w[i - 15], 8) ^ w[i - 15] >> 7) + w[i - 7] + (r64(w[i - 2], 19) ^ r64(w[i - 2], 61) ^ w[i - 2] >> 6);
        { uint64_t s[8], x, y; memcpy(s, h, sizeof s);
          for (i = 0; i < 80; i++) { x = s[7] + (r64(s[4], 14) ^ r64(s[4], 18) ^ r64(s[4], 41)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K[i] + w[i]; y = (r64(s[0], 28) ^ r64(s[0], 34) ^ r64(s[0], 39)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2])); s[7] = s[6]; s[6] = s[5]; s[5] = s[4]; s[4] = s[3] + x; s[3] = s[2]; s[2] = s[1]; s[1] = s[0]; s[0] = x + y; }
          for (i = 0; i < 8; i++) h[i] += s[i]; }
    }
    for (i = 0; i < 64; i++) md[i] = (unsigned char)(h[i / 8] >> (56 - 8 * (i % 8)));
    return md;
}
#endif
