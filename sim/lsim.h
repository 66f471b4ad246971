/* Interface between the simulator (main program) and one build of LESS (shared object: /repo's sources + shim.c). */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { LSIM_INIT, LSIM_ABSORB, LSIM_FINAL, LSIM_SQUEEZE };
enum { LSIM_SHAKE128, LSIM_SHAKE256, LSIM_SHA3_256, LSIM_SHA3_384, LSIM_SHA3_512, LSIM_NALG };

struct lsim_ctl {
    int64_t budget;          /* basic blocks until the scheduler is asked again */
    uint64_t ticks;          /* simulated time: basic blocks executed */
    uint8_t *cov;            /* 64 Ki edge map */
    uintptr_t prev;
    int nopreempt;
    uint32_t *hits;          /* counts entries into each basic block; null: not counted */
    const uint32_t *prof;    /* such counts of a whole call: stop at the rare_n-th entry into a block with at most rare_thr of them */
    uint32_t rare_thr;
    int64_t rare_n;
    uint64_t heap;           /* what fresh heap memory contains */
    void (*slow)(void);
    /* before the call; returns 1 if the simulator has done it */
    int (*xof_pre)(int kind, int alg, void *ctx, const void *in, void *out, size_t len);
    void (*xof_post)(int kind, int alg, void *ctx, const void *in, void *out, size_t len);
};
extern struct lsim_ctl lsim_ctl __attribute__((visibility("default")));

struct lsim_hash {
    size_t ctx;
    void (*init)(void *);
    void (*absorb)(void *, const uint8_t *, size_t);
    void (*finalize)(void *, uint8_t *);            /* XOF: out ignored */
    void (*squeeze)(void *, uint8_t *, size_t);     /* null for fixed length */
    void (*oneshot)(uint8_t *, size_t, const uint8_t *, size_t);
    unsigned rate, outlen;
};

struct lsim_api {
    int cat, S, N, K, T, W, NK, MAXS;
    size_t pkb, skb, cryptob, max_bytes, bytes0;
    int (*keypair)(unsigned char *, unsigned char *);
    int (*sign)(unsigned char *, unsigned long long *, const unsigned char *, unsigned long long, const unsigned char *);
    int (*open)(unsigned char *, unsigned long long *, const unsigned char *, unsigned long long, const unsigned char *);
    void (*seed)(const unsigned char *, uint32_t);
    void *(*platform)(void);
    void (*randombytes)(unsigned char *, unsigned long long);
    size_t csprng_size;
    void (*csprng_init)(void *, const unsigned char *, uint32_t);
    void (*csprng_read)(unsigned char *, unsigned long long, void *);
    struct lsim_hash hash[LSIM_NALG];
};
#ifdef __cplusplus
}
#endif
