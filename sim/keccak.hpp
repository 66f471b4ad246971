// Independent Keccak sponge (FIPS 202), written for the reference model: no code shared with /repo.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstddef>
#include <vector>
#include <string>

typedef std::vector<uint8_t> Bytes;

struct Sponge {
    uint64_t a[25];
    unsigned rate, pos;
    uint8_t dom;
    bool squeezing;
    size_t stuck = 0;   // leading output bytes that read as 0xff (simulated unlucky stream)
    Sponge(unsigned rate_, uint8_t dom_) : rate(rate_), pos(0), dom(dom_), squeezing(false) { memset(a, 0, sizeof a); }
    static Sponge shake128() { return Sponge(168, 0x1f); }
    static Sponge shake256() { return Sponge(136, 0x1f); }
    static Sponge sha3(unsigned bits) { return Sponge(200 - bits / 4, 0x06); }
    static inline __attribute__((always_inline)) uint64_t rol(uint64_t x, unsigned n) { return n ? (x << n) | (x >> (64 - n)) : x; }
    static uint64_t rc(unsigned round) {
        // LFSR x^8+x^6+x^5+x^4+1
        static uint64_t tab[24];
        static bool init = false;
        if (!init) {
            uint8_t r = 1;
            for (int i = 0; i < 24; i++) {
                uint64_t c = 0;
                for (int j = 0; j < 7; j++) {
                    if (r & 1) c |= 1ULL << ((1u << j) - 1);
                    r = (uint8_t)((r << 1) ^ ((r & 0x80) ? 0x71 : 0));
                }
                tab[i] = c;
            }
            init = true;
        }
        return tab[round];
    }
    __attribute__((optimize("O3"))) void permute() {
        static constexpr unsigned rot[25] = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};
        uint64_t s[25];
        memcpy(s, a, sizeof s);
        for (unsigned r = 0; r < 24; r++) {
            uint64_t c[5], b[25];
#pragma GCC unroll 5
            for (int x = 0; x < 5; x++) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
#pragma GCC unroll 5
            for (int x = 0; x < 5; x++) {
                uint64_t d = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
#pragma GCC unroll 5
                for (int y = 0; y < 25; y += 5) s[y + x] ^= d;
            }
#pragma GCC unroll 5
            for (int x = 0; x < 5; x++)
#pragma GCC unroll 5
                for (int y = 0; y < 5; y++) b[((2 * x + 3 * y) % 5) * 5 + y] = rol(s[y * 5 + x], rot[y * 5 + x]);
#pragma GCC unroll 5
            for (int y = 0; y < 25; y += 5)
#pragma GCC unroll 5
                for (int x = 0; x < 5; x++) s[y + x] = b[y + x] ^ (~b[y + (x + 1) % 5] & b[y + (x + 2) % 5]);
            s[0] ^= rc(r);
        }
        memcpy(a, s, sizeof s);
    }
    void absorb(const void *p, size_t n) {
        const uint8_t *s = (const uint8_t *)p;
        while (n) {
            if (pos == 0 && n >= rate) {
                for (unsigned i = 0; i < rate / 8; i++) {
                    uint64_t w;
                    memcpy(&w, s + 8 * i, 8);
                    a[i] ^= w;
                }
                s += rate, n -= rate;
                permute();
                continue;
            }
            ((uint8_t *)a)[pos++] ^= *s++, n--;
            if (pos == rate) permute(), pos = 0;
        }
    }
    void finish() {
        ((uint8_t *)a)[pos] ^= dom;
        ((uint8_t *)a)[rate - 1] ^= 0x80;
        permute();
        pos = 0;
        squeezing = true;
    }
    void squeeze(void *p, size_t n) {
        if (!squeezing) finish();
        uint8_t *d = (uint8_t *)p;
        while (n) {
            if (pos == rate) permute(), pos = 0;
            size_t k = rate - pos < n ? rate - pos : n;
            memcpy(d, (uint8_t *)a + pos, k);
            if (stuck) { size_t f = stuck < k ? stuck : k; memset(d, 0xff, f); stuck -= f; }
            d += k, pos += (unsigned)k, n -= k;
        }
    }
};
