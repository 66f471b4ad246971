/* Interface between katsim and one build of a LESS tool (shared object: the tool's source, LESS's sources, kshim.c). */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
struct ksim_ctl {
    FILE *(*fopen)(const char *, const char *);
    int (*fail)(int kind);                    /* 1: this call fails (planned fault) */
    void (*leave)(int status, const char *how) __attribute__((noreturn));
    int (*rename)(const char *, const char *);
    int (*unlink)(const char *);
    int (*enter)(int what);                   /* benchmark: a measured operation starts; 0: do not run the real one */
    int (*done)(int what, int rc);
    int fast;                                 /* long reads: a cheap permutation stands in for the block cipher */
    long fastcalls;
};
static inline void ksim_fast(const unsigned char *key, const unsigned char *in, unsigned char *out) {
    uint64_t a, b, k, l;
    __builtin_memcpy(&a, in, 8), __builtin_memcpy(&b, in + 8, 8), __builtin_memcpy(&k, key, 8), __builtin_memcpy(&l, key + 8, 8);
    a = (a ^ k) * 0x9e3779b97f4a7c15ULL, b = (b ^ l ^ a >> 29) * 0xbf58476d1ce4e5b9ULL, a ^= b >> 31;
    __builtin_memcpy(out, &a, 8), __builtin_memcpy(out + 8, &b, 8);
}
extern struct ksim_ctl ksim_ctl __attribute__((visibility("default")));
enum { KF_OPEN, KF_READ, KF_WRITE, KF_SEEK, KF_CLOSE, KF_ALLOC, KF_EVPNEW, KF_EVPINIT, KF_EVPUPD, KF_KEYPAIR, KF_SIGN, KF_VERIFY, KF_WRONGMSG, KF_WRONGLEN, KF_KEYPAIRLATE, KF_SIGNLATE, KF_VERIFYLATE, KF_N };
enum { KB_RREF, KB_KEYGEN, KB_SIGN, KB_VERIFY, KB_N };
struct ksim_api {
    int (*main)(int, char **);
    size_t pkb, skb, cryptob;
    int (*keypair)(unsigned char *, unsigned char *);
    int (*sign)(unsigned char *, unsigned long long *, const unsigned char *, unsigned long long, const unsigned char *);
    void (*seed)(const unsigned char *, uint32_t);
    size_t xof_ctx;
    int (*xof_init)(void *, unsigned char *, unsigned char *, unsigned long);
    int (*xof_read)(void *, unsigned char *, unsigned long);
    void (*drbg_init)(unsigned char *, unsigned char *, int);
    int (*drbg_read)(unsigned char *, unsigned long long);
    const char *algname;
};
#ifdef __cplusplus
}
#endif
