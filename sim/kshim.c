/* Link-time seams (ld --wrap) of the tool builds: files, allocator, process end, block cipher, library calls. */
#include "ksim.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#ifdef KSIM_KAT
#include "KAT_NIST_rng.h"   /* before LESS.h: its macros collide with OpenSSL's headers */
#endif
#include "LESS.h"
#include "api.h"
#include "rng.h"
#include "codes.h"
int kat_main(int, char **);
static void seed(const unsigned char *s, uint32_t n) { initialize_csprng(&platform_csprng_state, s, n); }

FILE *__wrap_fopen(const char *p, const char *m) { return ksim_ctl.fopen(p, m); }
int __wrap_rename(const char *a, const char *b) { return ksim_ctl.rename(a, b); }
int __wrap_remove(const char *a) { return ksim_ctl.unlink(a); }
int __wrap_unlink(const char *a) { return ksim_ctl.unlink(a); }
void *__real_calloc(size_t, size_t);
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
static int big(size_t n) { return n > (1u << 30); }
void *__wrap_calloc(size_t a, size_t b) { return (b && big(a > SIZE_MAX / b ? SIZE_MAX : a * b)) || ksim_ctl.fail(KF_ALLOC) ? NULL : __real_calloc(a, b); }
void *__wrap_malloc(size_t a) { return big(a) || ksim_ctl.fail(KF_ALLOC) ? NULL : __real_malloc(a); }
void *__wrap_realloc(void *p, size_t a) { return big(a) || ksim_ctl.fail(KF_ALLOC) ? NULL : __real_realloc(p, a); }
void __wrap_abort(void) { ksim_ctl.leave(134, "abort"); }
void __wrap_exit(int s) { ksim_ctl.leave(s & 255, "exit"); }
void __wrap__exit(int s) { ksim_ctl.leave(s & 255, "_exit"); }

#ifdef KSIM_KAT
void *__real_EVP_CIPHER_CTX_new(void);
int __real_EVP_EncryptInit_ex(EVP_CIPHER_CTX *, const EVP_CIPHER *, ENGINE *, const unsigned char *, const unsigned char *);
int __real_EVP_EncryptUpdate(EVP_CIPHER_CTX *, unsigned char *, int *, const unsigned char *, int);
static void *shared_ctx;
void __real_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *);
void __wrap_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) { if (!ksim_ctl.fast || c != shared_ctx) __real_EVP_CIPHER_CTX_free(c); }
void *__wrap_EVP_CIPHER_CTX_new(void) {
    if (ksim_ctl.fast) return shared_ctx ? shared_ctx : (shared_ctx = __real_EVP_CIPHER_CTX_new());
    return ksim_ctl.fail(KF_EVPNEW) ? NULL : __real_EVP_CIPHER_CTX_new();
}
static unsigned char fast_key[32];
int __wrap_EVP_EncryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *i) {
    if (ksim_ctl.fast) { if (k) memcpy(fast_key, k, 32); return 1; }
    return ksim_ctl.fail(KF_EVPINIT) ? 0 : __real_EVP_EncryptInit_ex(c, t, e, k, i);
}
int __wrap_EVP_EncryptUpdate(EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *in, int n) {
    if (ksim_ctl.fast && n % 16 == 0) { for (int i = 0; i < n; i += 16) ksim_fast(fast_key, in + i, o + i), ksim_ctl.fastcalls++; *ol = n; return 1; }
    return ksim_ctl.fail(KF_EVPUPD) ? 0 : __real_EVP_EncryptUpdate(c, o, ol, in, n);
}
void __wrap_ERR_print_errors_fp(FILE *f) { (void)f; }
int __real_crypto_sign_keypair(unsigned char *, unsigned char *);
int __real_crypto_sign(unsigned char *, unsigned long long *, const unsigned char *, unsigned long long, const unsigned char *);
int __real_crypto_sign_open(unsigned char *, unsigned long long *, const unsigned char *, unsigned long long, const unsigned char *);
int __wrap_crypto_sign_keypair(unsigned char *pk, unsigned char *sk) {
    int r = ksim_ctl.fail(KF_KEYPAIR) ? -1 : __real_crypto_sign_keypair(pk, sk);
    return r == 0 && ksim_ctl.fail(KF_KEYPAIRLATE) ? -1 : r;
}
int __wrap_crypto_sign(unsigned char *sm, unsigned long long *sl, const unsigned char *m, unsigned long long ml, const unsigned char *sk) {
    int r = ksim_ctl.fail(KF_SIGN) ? -1 : __real_crypto_sign(sm, sl, m, ml, sk);
    return r == 0 && ksim_ctl.fail(KF_SIGNLATE) ? -1 : r;
}
int __wrap_crypto_sign_open(unsigned char *m, unsigned long long *ml, const unsigned char *sm, unsigned long long sl, const unsigned char *pk) {
    int r = ksim_ctl.fail(KF_VERIFY) ? -1 : __real_crypto_sign_open(m, ml, sm, sl, pk);
    if (r == 0 && *ml && ksim_ctl.fail(KF_WRONGMSG)) m[*ml / 2] ^= 4;
    if (r == 0 && *ml && ksim_ctl.fail(KF_WRONGLEN)) --*ml;
    if (r == 0 && ksim_ctl.fail(KF_VERIFYLATE)) r = -1; /* the message is filled in, as by a real failure */
    return r;
}
static int xi(void *c, unsigned char *s, unsigned char *d, unsigned long n) { return KAT_NIST_seedexpander_init(c, s, d, n); }
static int xr(void *c, unsigned char *x, unsigned long n) { return KAT_NIST_seedexpander(c, x, n); }
__attribute__((visibility("default"))) const struct ksim_api ksim_api = {
    kat_main, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, __real_crypto_sign_keypair, __real_crypto_sign, seed,
    sizeof(KAT_NIST_AES_XOF_struct), xi, xr, KAT_NIST_randombytes_init, KAT_NIST_randombytes, CRYPTO_ALGNAME};
#else
void __real_LESS_keygen(prikey_t *, pubkey_t *);
size_t __real_LESS_sign(const prikey_t *, const char *const, const uint64_t, sign_t *);
int __real_LESS_verify(const pubkey_t *const, const char *const, const uint64_t, const sign_t *const);
void __wrap_LESS_keygen(prikey_t *sk, pubkey_t *pk) { if (ksim_ctl.enter(KB_KEYGEN)) __real_LESS_keygen(sk, pk); ksim_ctl.done(KB_KEYGEN, 0); }
size_t __wrap_LESS_sign(const prikey_t *sk, const char *const m, const uint64_t n, sign_t *s) {
    size_t r = 0;
    if (ksim_ctl.enter(KB_SIGN)) r = __real_LESS_sign(sk, m, n, s);
    ksim_ctl.done(KB_SIGN, 0);
    return r;
}
int __wrap_LESS_verify(const pubkey_t *const pk, const char *const m, const uint64_t n, const sign_t *const s) {
    int r = 1;
    if (ksim_ctl.enter(KB_VERIFY)) r = __real_LESS_verify(pk, m, n, s);
    return ksim_ctl.done(KB_VERIFY, r);
}
int __real_generator_RREF(generator_mat_t *, uint8_t *);
int __wrap_generator_RREF(generator_mat_t *g, uint8_t *p) {
    int r = 1;
    if (ksim_ctl.enter(KB_RREF)) r = __real_generator_RREF(g, p);
    ksim_ctl.done(KB_RREF, r);
    return r;
}
__attribute__((visibility("default"))) const struct ksim_api ksim_api = {
    kat_main, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, crypto_sign_keypair, crypto_sign, seed, 0, 0, 0, 0, 0, CRYPTO_ALGNAME};
#endif
