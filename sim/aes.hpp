// Independent AES-256 (FIPS 197), the NIST counter-mode DRBG and the seed expander, for the reference model of the tools.
#pragma once
#include "model.hpp"
struct Aes256 {
    uint8_t rk[240];
    bool fast = ksim_ctl.fast;   // long reads: a cheap permutation stands in for the cipher, on both sides
    static const uint8_t *sbox() {
        static uint8_t s[256];
        static bool init = false;
        if (!init) {
            auto mul = [](int a, int b) { int r = 0; for (; b; b >>= 1) { if (b & 1) r ^= a; a = a << 1 ^ (a & 0x80 ? 0x11b : 0); } return r & 255; };
            for (int x = 0; x < 256; x++) {
                int inv = 0;
                for (int y = 1; y < 256 && x; y++) if (mul(x, y) == 1) { inv = y; break; }
                int r = 0;
                for (int i = 0; i < 8; i++) r |= ((inv >> i ^ inv >> (i + 4) % 8 ^ inv >> (i + 5) % 8 ^ inv >> (i + 6) % 8 ^ inv >> (i + 7) % 8 ^ 0x63 >> i) & 1) << i;
                s[x] = (uint8_t)r;
            }
            init = true;
        }
        return s;
    }
    explicit Aes256(const uint8_t *k) {
        const uint8_t *S = sbox();
        memcpy(rk, k, 32);
        uint8_t rc = 1;
        for (int i = 8; i < 60; i++) {
            uint8_t t[4];
            memcpy(t, rk + 4 * (i - 1), 4);
            if (i % 8 == 0) { uint8_t x = t[0]; t[0] = S[t[1]] ^ rc, t[1] = S[t[2]], t[2] = S[t[3]], t[3] = S[x]; rc = (uint8_t)(rc << 1 ^ (rc & 0x80 ? 0x1b : 0)); }
            else if (i % 8 == 4) for (auto &x : t) x = S[x];
            for (int j = 0; j < 4; j++) rk[4 * i + j] = rk[4 * (i - 8) + j] ^ t[j];
        }
    }
    void block(const uint8_t *in, uint8_t *out) const { if (fast) return ksim_fast(rk, in, out);
        const uint8_t *S = sbox();
        uint8_t s[16], t[16];
        for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[i];
        auto x2 = [](uint8_t a) { return (uint8_t)(a << 1 ^ (a & 0x80 ? 0x1b : 0)); };
        for (int r = 1; r <= 14; r++) {
            for (int c = 0; c < 4; c++) for (int q = 0; q < 4; q++) t[4 * c + q] = S[s[4 * ((c + q) % 4) + q]];
            for (int c = 0; c < 4; c++) {
                uint8_t *a = t + 4 * c, b[4];
                if (r < 14) {
                    for (int q = 0; q < 4; q++) b[q] = (uint8_t)(x2(a[q]) ^ x2(a[(q + 1) % 4]) ^ a[(q + 1) % 4] ^ a[(q + 2) % 4] ^ a[(q + 3) % 4]);
                    memcpy(a, b, 4);
                }
            }
            for (int i = 0; i < 16; i++) s[i] = t[i] ^ rk[16 * r + i];
        }
        memcpy(out, s, 16);
    }
};
struct RefDrbg {
    uint8_t key[32], v[16];
    static void inc(uint8_t *p, int n) { while (n-- && !++p[n]) {} }
    void update(const uint8_t *data) {
        uint8_t t[48];
        Aes256 a(key);
        for (int i = 0; i < 3; i++) inc(v, 16), a.block(v, t + 16 * i);
        if (data) for (int i = 0; i < 48; i++) t[i] ^= data[i];
        memcpy(key, t, 32), memcpy(v, t + 32, 16);
    }
    void init(const uint8_t *entropy, const uint8_t *pers) {
        uint8_t m[48];
        memcpy(m, entropy, 48);
        if (pers) for (int i = 0; i < 48; i++) m[i] ^= pers[i];
        memset(key, 0, 32), memset(v, 0, 16);
        update(m);
    }
    void read(uint8_t *x, size_t n) {
        Aes256 a(key);
        uint8_t b[16];
        while (n) {
            inc(v, 16), a.block(v, b);
            size_t k = n < 16 ? n : 16;
            memcpy(x, b, k);
            x += k, n -= k;
        }
        update(nullptr);
    }
};
struct RefXof {
    uint8_t key[32], ctr[16], buf[16];
    unsigned pos = 16;
    uint64_t left = 0;
    void init(const uint8_t *seed, const uint8_t *div, uint64_t maxlen) {
        memcpy(key, seed, 32), memcpy(ctr, div, 8);
        for (int i = 0; i < 4; i++) ctr[8 + i] = (uint8_t)(maxlen >> (24 - 8 * i));
        memset(ctr + 12, 0, 4);
        pos = 16, left = maxlen;
    }
    void read(uint8_t *x, size_t n) {
        Aes256 a(key);
        left -= n;
        for (size_t i = 0; i < n; i++) {
            if (pos == 16) { a.block(ctr, buf); RefDrbg::inc(ctr + 12, 4); pos = 0; }
            x[i] = buf[pos++];
        }
    }
};
