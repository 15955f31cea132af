/* Linked into each library built from /repo's sources (see build.py). Wraps,
   by the linker's --wrap, the functions the harness observes or replaces.
   Everything is off (calls go through) until the harness sets a hook. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <openssl/sha.h>
#include "params.h"

/* ---- SHA-2 one-shot functions: same results from the low-level functions,
   without OpenSSL 3's per-call algorithm lookup. */
#ifdef __SANITIZE_ADDRESS__
void *__asan_region_is_poisoned(void *beg, size_t size);   /* libcrypto's own accesses are not instrumented */
#define REACHABLE(p, n) do { volatile unsigned char *b_ = (n) ? __asan_region_is_poisoned((void *)(p), (n)) : NULL; if (b_) (void)*b_; } while (0)
#else
#define REACHABLE(p, n) (void)0
#endif
__thread uint64_t hx_hash_count;
uint64_t *hx_hash_counter(void) { return &hx_hash_count; }
void (*hx_hash_hook)(void);
#define COUNT() do { hx_hash_count++; if (hx_hash_hook) hx_hash_hook(); } while (0)
unsigned char *__wrap_SHA256(const unsigned char *d, size_t n, unsigned char *md)
{
    SHA256_CTX c;
    COUNT();
    REACHABLE(d, n); REACHABLE(md, 32);
    SHA256_Init(&c); SHA256_Update(&c, d, n); SHA256_Final(md, &c);
    return md;
}
unsigned char *__wrap_SHA512(const unsigned char *d, size_t n, unsigned char *md)
{
    SHA512_CTX c;
    COUNT();
    REACHABLE(d, n); REACHABLE(md, 64);
    SHA512_Init(&c); SHA512_Update(&c, d, n); SHA512_Final(md, &c);
    return md;
}

/* ---- random bytes */
#ifdef HX_WRAP_RAND
void (*hx_rand_hook)(unsigned char *, unsigned long long);
void __real_randombytes(unsigned char *x, unsigned long long xlen);
void __wrap_randombytes(unsigned char *x, unsigned long long xlen)
{
    if (hx_rand_hook) hx_rand_hook(x, xlen);
    else __real_randombytes(x, xlen);
}
#endif

/* ---- SHAKE: only counted */
#ifdef HX_WRAP_SHAKE
#include "fips202.h"
void __real_shake128(unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il);
void __real_shake256(unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il);
void __wrap_shake128(unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il) { COUNT(); __real_shake128(o, ol, i, il); }
void __wrap_shake256(unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il) { COUNT(); __real_shake256(o, ol, i, il); }
#endif

/* ---- leaves and one-time signatures */
#ifdef HX_WRAP_STUBS
#include "wots.h"
#include "xmss_commons.h"
/* A hook returns nonzero if it produced the result itself. */
int (*hx_leaf_hook)(unsigned n, unsigned char *leaf, const unsigned char *sk_seed, const unsigned char *pub_seed, const uint32_t *ltree_addr, const uint32_t *ots_addr);
void (*hx_leaf_done)(unsigned n, const unsigned char *leaf, const unsigned char *sk_seed, const unsigned char *pub_seed, const uint32_t *key);
int (*hx_wsign_hook)(const xmss_params *params, unsigned char *sig, const unsigned char *msg, const unsigned char *seed, const unsigned char *pub_seed, const uint32_t *addr);
__thread uint64_t hx_leaf_count, hx_wsign_count;
uint64_t *hx_leaf_counter(void) { return &hx_leaf_count; }
uint64_t *hx_wsign_counter(void) { return &hx_wsign_count; }
void __real_gen_leaf_wots(const xmss_params *params, unsigned char *leaf,
                   const unsigned char *sk_seed, const unsigned char *pub_seed,
                   uint32_t ltree_addr[8], uint32_t ots_addr[8]);
void __wrap_gen_leaf_wots(const xmss_params *params, unsigned char *leaf,
                   const unsigned char *sk_seed, const unsigned char *pub_seed,
                   uint32_t ltree_addr[8], uint32_t ots_addr[8])
{
    uint32_t key[10];
    hx_leaf_count++;
    if (hx_leaf_hook && hx_leaf_hook(params->n, leaf, sk_seed, pub_seed, ltree_addr, ots_addr)) return;
    memcpy(key, ots_addr, 5 * sizeof *key); memcpy(key + 5, ltree_addr, 5 * sizeof *key);
    __real_gen_leaf_wots(params, leaf, sk_seed, pub_seed, ltree_addr, ots_addr);
    if (hx_leaf_done) hx_leaf_done(params->n, leaf, sk_seed, pub_seed, key);
}
void __real_wots_sign(const xmss_params *params,
               unsigned char *sig, const unsigned char *msg,
               const unsigned char *seed, const unsigned char *pub_seed,
               uint32_t addr[8]);
void __wrap_wots_sign(const xmss_params *params,
               unsigned char *sig, const unsigned char *msg,
               const unsigned char *seed, const unsigned char *pub_seed,
               uint32_t addr[8])
{
    hx_wsign_count++;
    if (hx_wsign_hook && hx_wsign_hook(params, sig, msg, seed, pub_seed, addr)) return;
    __real_wots_sign(params, sig, msg, seed, pub_seed, addr);
}
#endif

/* ---- the step function of the one-time signature chains */
#ifdef HX_WRAP_THASH
#include "hash.h"
int (*hx_thash_f_hook)(unsigned n, unsigned char *out, const unsigned char *in, const unsigned char *pub_seed, const uint32_t *addr);
int __real_thash_f(const xmss_params *params, unsigned char *out, const unsigned char *in, const unsigned char *pub_seed, uint32_t addr[8]);
int __wrap_thash_f(const xmss_params *params, unsigned char *out, const unsigned char *in, const unsigned char *pub_seed, uint32_t addr[8])
{
    if (hx_thash_f_hook && hx_thash_f_hook(params->n, out, in, pub_seed, addr)) return 0;
    return __real_thash_f(params, out, in, pub_seed, addr);
}
#endif

/* ---- system calls behind the random source */
#include <stdarg.h>
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <errno.h>
struct hx_os {   /* a nonzero result of claims(): path or fd is a scripted one */
    int (*open)(const char *path, int *fd);                 /* 1: handled */
    int (*read)(int fd, void *b, size_t n, ssize_t *r);
    int (*close)(int fd, int *r);
    int (*get)(void *b, size_t n, unsigned flags, ssize_t *r);
    int (*fopen)(const char *path, FILE **f);
    int (*sleep)(void);
} *hx_os;
int __real_open(const char *p, int f, ...); int __real_open64(const char *p, int f, ...); int __real_openat(int d, const char *p, int f, ...);
ssize_t __real_read(int fd, void *b, size_t n); int __real_close(int fd); FILE *__real_fopen(const char *p, const char *m); FILE *__real_fopen64(const char *p, const char *m);
ssize_t __real_getrandom(void *b, size_t n, unsigned f); int __real_getentropy(void *b, size_t n); unsigned __real_sleep(unsigned s); int __real_usleep(useconds_t u); int __real_nanosleep(const struct timespec *a, struct timespec *b);
#define MODE(f) int mode = 0; if ((f) & O_CREAT) { va_list a; va_start(a, f); mode = va_arg(a, int); va_end(a); }
int __wrap_open(const char *p, int f, ...) { int fd; MODE(f) if (hx_os && hx_os->open(p, &fd)) return fd; return __real_open(p, f, mode); }
int __wrap_open64(const char *p, int f, ...) { int fd; MODE(f) if (hx_os && hx_os->open(p, &fd)) return fd; return __real_open(p, f, mode); }
int __wrap_openat(int d, const char *p, int f, ...) { int fd; MODE(f) if (hx_os && hx_os->open(p, &fd)) return fd; return __real_openat(d, p, f, mode); }
ssize_t __wrap_read(int fd, void *b, size_t n) { ssize_t r; if (hx_os && hx_os->read(fd, b, n, &r)) return r; return __real_read(fd, b, n); }
int __wrap_close(int fd) { int r; if (hx_os && hx_os->close(fd, &r)) return r; return __real_close(fd); }
FILE *__wrap_fopen(const char *p, const char *m) { FILE *f; if (hx_os && hx_os->fopen(p, &f)) return f; return __real_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { ssize_t r; if (hx_os && hx_os->get(b, n, f, &r)) return r; return __real_getrandom(b, n, f); }
int __wrap_getentropy(void *b, size_t n) { ssize_t r; if (hx_os && hx_os->get(b, n, 1u << 31, &r)) return r < 0 ? -1 : 0; return __real_getentropy(b, n); }
unsigned __wrap_sleep(unsigned s) { if (hx_os && hx_os->sleep()) return 0; return __real_sleep(s); }
int __wrap_usleep(useconds_t s) { if (hx_os && hx_os->sleep()) return 0; return __real_usleep(s); }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (hx_os && hx_os->sleep()) return 0; return __real_nanosleep(a, b); }
