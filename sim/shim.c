/* Compiled once per build of LESS with that build's include path. Uses the public headers only. */
#include "lsim.h"
#include <string.h>
#include "api.h"
#include "LESS.h"
#include "rng.h"
#include "fips202.h"

static void seed(const unsigned char *s, uint32_t n) { initialize_csprng(&platform_csprng_state, s, n); }
static void *plat(void) { return &platform_csprng_state; }
static void rb(unsigned char *x, unsigned long long n) { randombytes(x, n); }
static void ci(void *st, const unsigned char *s, uint32_t n) { initialize_csprng((SHAKE_STATE_STRUCT *)st, s, n); }
static void cr(unsigned char *x, unsigned long long n, void *st) { csprng_randombytes(x, n, (SHAKE_STATE_STRUCT *)st); }

#define XOFS(b)                                                                                                       \
    static void i##b(void *c) { shake##b##_inc_init((shake##b##incctx *)c); }                                         \
    static void a##b(void *c, const uint8_t *p, size_t n) { shake##b##_inc_absorb((shake##b##incctx *)c, p, n); }     \
    static void f##b(void *c, uint8_t *o) { (void)o; shake##b##_inc_finalize((shake##b##incctx *)c); }                \
    static void s##b(void *c, uint8_t *o, size_t n) { shake##b##_inc_squeeze(o, n, (shake##b##incctx *)c); }          \
    static void o##b(uint8_t *o, size_t on, const uint8_t *p, size_t n) { shake##b(o, on, p, n); }
#define SHAS(b)                                                                                                       \
    static void i##b(void *c) { sha3_##b##_inc_init((sha3_##b##incctx *)c); }                                         \
    static void a##b(void *c, const uint8_t *p, size_t n) { sha3_##b##_inc_absorb((sha3_##b##incctx *)c, p, n); }     \
    static void f##b(void *c, uint8_t *o) { sha3_##b##_inc_finalize(o, (sha3_##b##incctx *)c); }                      \
    static void o##b(uint8_t *o, size_t on, const uint8_t *p, size_t n) { (void)on; sha3_##b(o, p, n); }
/* sha3_256 and shake256 share a suffix: keep the names apart */
#define i256 xi256
#define a256 xa256
#define f256 xf256
#define o256 xo256
XOFS(128)
XOFS(256)
#undef i256
#undef a256
#undef f256
#undef o256
SHAS(256)
SHAS(384)
SHAS(512)

__attribute__((visibility("default"))) const struct lsim_api lsim_api = {
#if defined(CATEGORY_1)
    1,
#elif defined(CATEGORY_3)
    3,
#else
    5,
#endif
    SEED_LENGTH_BYTES, N, K, T, W, NUM_KEYPAIRS, SEED_TREE_MAX_PUBLISHED_BYTES / SEED_LENGTH_BYTES,
    .pkb = CRYPTO_PUBLICKEYBYTES, .skb = CRYPTO_SECRETKEYBYTES, .cryptob = CRYPTO_BYTES,
    .max_bytes = LESS_CRYPTO_MAX_BYTES, .bytes0 = LESS_CRYPTO_BYTES(0),
    .keypair = crypto_sign_keypair, .sign = crypto_sign, .open = crypto_sign_open,
    .seed = seed, .platform = plat, .randombytes = rb,
    .csprng_size = sizeof(SHAKE_STATE_STRUCT), .csprng_init = ci, .csprng_read = cr,
    .hash = {
        {sizeof(shake128incctx), i128, a128, f128, s128, o128, 168, 0},
        {sizeof(shake256incctx), xi256, xa256, xf256, s256, xo256, 136, 0},
        {sizeof(sha3_256incctx), i256, a256, f256, 0, o256, 136, 32},
        {sizeof(sha3_384incctx), i384, a384, f384, 0, o384, 104, 48},
        {sizeof(sha3_512incctx), i512, a512, f512, 0, o512, 72, 64},
    },
};

/* ---- the entropy / random oracle seam: calls that cross an object file boundary (ld --wrap) ---- */
#define PRE(k, alg, c, i, o, n) (lsim_ctl.xof_pre && lsim_ctl.xof_pre(k, alg, c, i, o, n))
#define POST(k, alg, c, i, o, n) do { if (lsim_ctl.xof_post) lsim_ctl.xof_post(k, alg, c, i, o, n); } while (0)
#define WX(b)                                                                                                         \
    void __real_shake##b##_inc_init(shake##b##incctx *);                                                              \
    void __real_shake##b##_inc_absorb(shake##b##incctx *, const uint8_t *, size_t);                                   \
    void __real_shake##b##_inc_finalize(shake##b##incctx *);                                                          \
    void __real_shake##b##_inc_squeeze(uint8_t *, size_t, shake##b##incctx *);                                        \
    void __wrap_shake##b##_inc_init(shake##b##incctx *c) {                                                            \
        if (!PRE(LSIM_INIT, LSIM_SHAKE##b, c, 0, 0, 0)) __real_shake##b##_inc_init(c);                                \
    }                                                                                                                 \
    void __wrap_shake##b##_inc_absorb(shake##b##incctx *c, const uint8_t *p, size_t n) {                              \
        if (!PRE(LSIM_ABSORB, LSIM_SHAKE##b, c, p, 0, n)) __real_shake##b##_inc_absorb(c, p, n);                      \
    }                                                                                                                 \
    void __wrap_shake##b##_inc_finalize(shake##b##incctx *c) {                                                        \
        if (!PRE(LSIM_FINAL, LSIM_SHAKE##b, c, 0, 0, 0)) __real_shake##b##_inc_finalize(c);                           \
    }                                                                                                                 \
    void __wrap_shake##b##_inc_squeeze(uint8_t *o, size_t n, shake##b##incctx *c) {                                   \
        if (!PRE(LSIM_SQUEEZE, LSIM_SHAKE##b, c, 0, o, n)) __real_shake##b##_inc_squeeze(o, n, c);                    \
        POST(LSIM_SQUEEZE, LSIM_SHAKE##b, c, 0, o, n);                                                                \
    }
#define WS(b)                                                                                                         \
    void __real_sha3_##b##_inc_init(sha3_##b##incctx *);                                                              \
    void __real_sha3_##b##_inc_absorb(sha3_##b##incctx *, const uint8_t *, size_t);                                   \
    void __real_sha3_##b##_inc_finalize(uint8_t *, sha3_##b##incctx *);                                               \
    void __wrap_sha3_##b##_inc_init(sha3_##b##incctx *c) {                                                            \
        if (!PRE(LSIM_INIT, LSIM_SHA3_##b, c, 0, 0, 0)) __real_sha3_##b##_inc_init(c);                                \
    }                                                                                                                 \
    void __wrap_sha3_##b##_inc_absorb(sha3_##b##incctx *c, const uint8_t *p, size_t n) {                              \
        if (!PRE(LSIM_ABSORB, LSIM_SHA3_##b, c, p, 0, n)) __real_sha3_##b##_inc_absorb(c, p, n);                      \
    }                                                                                                                 \
    void __wrap_sha3_##b##_inc_finalize(uint8_t *o, sha3_##b##incctx *c) {                                            \
        if (!PRE(LSIM_FINAL, LSIM_SHA3_##b, c, 0, o, 0)) __real_sha3_##b##_inc_finalize(o, c);                        \
        POST(LSIM_FINAL, LSIM_SHA3_##b, c, 0, o, sizeof(uint8_t) * (b / 8));                                          \
    }
WX(128)
WX(256)
WS(256)
WS(384)
WS(512)

/* ---- heap memory, should a build use any, comes with planned contents ---- */
static void *stale(void *p, size_t n) {
    uint64_t w = lsim_ctl.heap;
    unsigned char *d = (unsigned char *)p;
    if (p) for (size_t i = 0; i < n; i++) {
        if (i % 8 == 0 && w > 1) w = w * 6364136223846793005ULL + 1442695040888963407ULL;
        d[i] = w > 1 ? (unsigned char)(w >> (56 - i % 8)) : w ? 0xff : 0;
    }
    return p;
}
void *__real_malloc(size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void *__wrap_malloc(size_t n) { return stale(__real_malloc(n), n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return stale(__real_aligned_alloc(a, n), n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int rc = __real_posix_memalign(p, a, n); if (!rc) stale(*p, n); return rc; }

/* ---- preemption points / simulated time (objects compiled with -fsanitize-coverage=trace-pc) ---- */
static void __attribute__((noinline)) rare(uintptr_t pc) {
    if (lsim_ctl.hits) lsim_ctl.hits[pc & 0x1ffff]++;
    if (lsim_ctl.prof && lsim_ctl.prof[pc & 0x1ffff] <= lsim_ctl.rare_thr && --lsim_ctl.rare_n == 0) {
        lsim_ctl.prof = 0;
        lsim_ctl.budget = 0;
    }
}
void __sanitizer_cov_trace_pc(void) {
    uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&lsim_api;
    lsim_ctl.ticks++;
    lsim_ctl.cov[(pc ^ lsim_ctl.prev) & 0xffff] = 1;
    lsim_ctl.prev = pc >> 1;
    if (__builtin_expect(((uintptr_t)lsim_ctl.hits | (uintptr_t)lsim_ctl.prof) != 0, 0)) rare(pc);
    if (--lsim_ctl.budget < 0) lsim_ctl.slow();
}
