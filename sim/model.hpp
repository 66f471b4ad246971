// Executable reference model of LESS (spec documents LESS-2024-02-19 / parameters.h), independent of /repo's code.
#pragma once
#include "keccak.hpp"
#include <algorithm>
#include <cstdlib>
#include <numeric>

struct Params {
    int cat, S, N, K, T, W, NK, MAXS;
    int H() const { return 2 * S; }
    int nbits() const { int b = 0; while ((1 << b) <= N) b++; return b; }
    int rref_bytes() const { return (7 * (N - K) * K + 7) / 8 + (N + 7) / 8; }
    int mono_bytes() const { return (7 * K + 7) / 8 + (nbits() * K + 7) / 8; }
    int pk_bytes() const { return S + (NK - 1) * rref_bytes(); }
    int sk_bytes() const { return 3 * S; }
    int off_mono() const { return H(); }
    int off_digest() const { return H() + W * mono_bytes(); }
    int off_seeds() const { return off_digest() + H(); }
    int sig_len(int n) const { return off_seeds() + n * S + 1; }
    int sig_max() const { return sig_len(MAXS); }
    int leaves() const { int l = 1; while (l <= T) l *= 2; return l; }
};

// Overrides of the random oracles, shared by the real code's seam and the model (see DESIGN.md).
struct OracleMode {
    int chal = 0;         // 0: real oracle; else mode of the challenge expansion
    uint64_t seed = 0;    // varies the forced challenge; with `pinned`, the same one for every digest
    bool pinned = false;
    int unlucky = 0;      // words that are rejected before the useful ones
    int stall = 0;        // leading bytes of sampling streams that read as 0xff
    int mask = -1;        // >= 0: every digest byte but this one is constant
    bool active() const { return chal != 0 || unlucky > 0; }
};

static inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed ^ 0x1234567)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    void fill(void *p, size_t n) { uint8_t *d = (uint8_t *)p; for (size_t i = 0; i < n; i++) d[i] = (uint8_t)(next() >> 24); }
};
static inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
    const uint8_t *s = (const uint8_t *)p;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, s + i, 8); h = mix64(h ^ w); }
    uint64_t w = 0;
    memcpy(&w, s + i, n - i);
    return mix64(h ^ w ^ ((uint64_t)n << 56));
}

enum { CHAL_REAL = 0, CHAL_WORST = 1, CHAL_BEST = 2, CHAL_PREFIX = 3, CHAL_SUFFIX = 4, CHAL_SPREAD = 5, CHAL_PAIRS = 6, CHAL_RANDOM = 7, CHAL_MODES = 8 };

// positions of the W challenged rounds maximising (worst) or minimising (best) the number of published seeds
static inline int seed_cover(const Params &p, const std::vector<uint8_t> &ch, std::vector<int> *nodes = nullptr) {
    int L = p.leaves();
    std::vector<uint8_t> hid(2 * L - 1, 0);
    for (int i = 0; i < p.T; i++) hid[L - 1 + i] = ch[i] != 0;
    for (int i = L - 2; i >= 0; i--) hid[i] = hid[2 * i + 1] || hid[2 * i + 2];
    int n = 0;
    for (int i = 1; i < 2 * L - 1; i++)
        if (!hid[i] && hid[(i - 1) / 2]) { n++; if (nodes) nodes->push_back(i); }
    return n;
}
struct CoverDP {
    const Params &p; bool worst;
    std::vector<std::vector<int>> best;   // per tree node: value by weight
    CoverDP(const Params &p_, bool worst_) : p(p_), worst(worst_) {
        int L = p.leaves();
        best.assign(2 * L - 1, {});
        for (int i = 2 * L - 2; i >= 0; i--) {
            if (i >= L - 1) { best[i] = (i - (L - 1) < p.T) ? std::vector<int>{1, 0} : std::vector<int>{1}; continue; }
            auto &a = best[2 * i + 1], &b = best[2 * i + 2];
            int m = std::min<int>((int)(a.size() + b.size()) - 2, p.W);
            std::vector<int> r(m + 1, -1);
            for (size_t x = 0; x < a.size(); x++)
                for (size_t y = 0; y < b.size() && (int)(x + y) <= m; y++) {
                    int v = x + y == 0 ? 1 : a[x] + b[y];
                    int &c = r[x + y];
                    if (c < 0 || (worst ? v > c : v < c)) c = v;
                }
            best[i] = r;
        }
    }
    int value() const { return best[0][p.W]; }
    void place(int node, int w, Rng &r, std::vector<uint8_t> &ch) const {
        int L = p.leaves();
        if (w == 0) return;
        if (node >= L - 1) { ch[node - (L - 1)] = 1; return; }
        auto &a = best[2 * node + 1], &b = best[2 * node + 2];
        std::vector<int> cand;
        for (int x = 0; x <= w && x < (int)a.size(); x++)
            if (w - x < (int)b.size() && a[x] + b[w - x] == best[node][w]) cand.push_back(x);
        int x = cand[r.below(cand.size())];
        place(2 * node + 1, x, r, ch);
        place(2 * node + 2, w - x, r, ch);
    }
};

struct Model {
    Params p;
    OracleMode om;
    CoverDP worst, best;
    typedef std::vector<std::vector<uint8_t>> Mat;
    struct Mono { std::vector<uint8_t> c; std::vector<int> perm; };
    uint8_t inv[128];

    explicit Model(const Params &pp) : p(pp), worst(p, true), best(p, false) {
        inv[0] = 0;
        for (int i = 1; i < 127; i++)
            for (int j = 1; j < 127; j++)
                if (i * j % 127 == 1) inv[i] = (uint8_t)j;
    }
    Model(const Model &o) : Model(o.p) { om = o.om; }

    Sponge xof(const Bytes &in) const {
        Sponge s = p.cat == 1 ? Sponge::shake128() : Sponge::shake256();
        s.absorb(in.data(), in.size());
        s.finish();
        if (in.size() == (size_t)p.S || in.size() == (size_t)(3 * p.S + 2)) s.stuck = (size_t)om.stall;
        return s;
    }
    static unsigned word16(Sponge &s) { uint8_t b[2]; s.squeeze(b, 2); return b[0] | b[1] << 8; }
    static int bits(unsigned v) { int b = 0; while ((1u << b) <= v) b++; return v == 0 ? 1 : b; }

    // ---- random oracle overrides -------------------------------------------------------------------------------
    std::vector<uint8_t> forced_challenge(const uint8_t *digest) const {
        uint64_t s = om.seed ^ (om.pinned ? 0 : hash_bytes(digest, (size_t)p.H()));
        Rng r(s);
        std::vector<uint8_t> ch((size_t)p.T, 0);
        int T = p.T, W = p.W, n;
        switch (om.chal) {
        case CHAL_WORST: worst.place(0, W, r, ch); break;
        case CHAL_BEST: best.place(0, W, r, ch); break;
        case CHAL_PREFIX: for (int i = 0; i < W; i++) ch[i] = 1; break;
        case CHAL_SUFFIX: for (int i = 0; i < W; i++) ch[T - 1 - i] = 1; break;
        case CHAL_SPREAD: for (int i = 0; i < W; i++) ch[(size_t)i * T / W] = 1; break;
        case CHAL_PAIRS:
            for (n = 0; n < W;) { int q = (int)r.below(T / 2) * 2; for (int k = 0; k < 2 && n < W; k++) if (!ch[q + k]) ch[q + k] = 1, n++; }
            break;
        default:
            for (n = 0; n < W;) { int q = (int)r.below(T); if (!ch[q]) ch[q] = 1, n++; }
        }
        int how = (int)r.below(3);
        for (int i = 0; i < T; i++)
            if (ch[i]) ch[i] = (uint8_t)(how == 0 ? p.NK - 1 : how == 1 ? 1 : 1 + r.below(p.NK - 1));
        return ch;
    }
    // bytes that replace the beginning of the challenge expansion's stream
    Bytes forced_stream(const uint8_t *digest) const {
        Bytes out;
        int kb = bits((unsigned)p.NK - 1), pb = bits((unsigned)p.T - 1);
        auto put = [&](unsigned v) { out.push_back((uint8_t)v); out.push_back((uint8_t)(v >> 8)); };
        Rng r(om.seed ^ 77);
        for (int i = 0; i < om.unlucky; i++) {   // a position >= T, which every reader must skip
            unsigned pos = (1u << pb) - 1;
            put(((unsigned)r.next() & ((1u << kb) - 1)) | pos << kb);
        }
        if (om.chal) {
            auto ch = forced_challenge(digest);
            std::vector<int> order;
            for (int i = 0; i < p.T; i++) if (ch[i]) order.push_back(i);
            Rng q(om.seed ^ (om.pinned ? 0 : hash_bytes(digest, (size_t)p.H())) ^ 99);
            for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[q.below(i)]);
            for (size_t i = 0; i < order.size(); i++) {
                put((unsigned)ch[order[i]] | (unsigned)order[i] << kb);
                if (q.chance(30)) put((unsigned)ch[order[i]] | (unsigned)order[i] << kb);   // a repeated position
                if (q.chance(30)) put(0u | (unsigned)order[i] << kb);                       // value 0 on a taken position
            }
        }
        return out;
    }
    void digest_post(uint8_t *d, size_t n) const {
        if (om.mask >= 0)
            for (size_t i = 0; i < n; i++)
                if (i != (size_t)om.mask % n) d[i] = (uint8_t)(0x5a + i);
    }

    // ---- primitives ----------------------------------------------------------------------------------------------
    std::vector<uint8_t> challenge(const uint8_t *digest) const {
        Sponge s = xof(Bytes(digest, digest + p.H()));
        Bytes pre = om.active() ? forced_stream(digest) : Bytes();
        if (pre.size()) { Bytes skip(pre.size()); s.squeeze(skip.data(), skip.size()); }
        size_t at = 0;
        std::vector<uint8_t> ch((size_t)p.T, 0);
        int kb = bits((unsigned)p.NK - 1), pb = bits((unsigned)p.T - 1), placed = 0;
        while (placed < p.W) {
            unsigned w;
            if (at < pre.size()) w = pre[at] | pre[at + 1] << 8, at += 2;
            else w = word16(s);
            unsigned v = w & ((1u << kb) - 1), pos = (w >> kb) & 0xffff;
            if (p.cat == 1) pos &= 0xff;
            pos &= (1u << pb) - 1;
            if (v >= (unsigned)p.NK || pos >= (unsigned)p.T || ch[pos]) continue;
            ch[pos] = (uint8_t)v;
            placed += v != 0;
        }
        return ch;
    }
    void sample(Sponge &s, uint8_t *out, int n, int lo, int span) const {
        int c = 0;
        for (;;) {
            uint64_t w;
            s.squeeze(&w, 8);
            for (int i = 0; i < 9; i++, w >>= 7) {
                int v = (int)(w & 127);
                if (v <= span) out[c++] = (uint8_t)(v + lo);
                if (c >= n) return;
            }
        }
    }
    Mono mono(const Bytes &in) const {
        Sponge s = xof(in);
        Mono m;
        m.c.resize(p.N);
        m.perm.resize(p.N);
        sample(s, m.c.data(), p.N, 1, 125);
        std::iota(m.perm.begin(), m.perm.end(), 0);
        std::vector<uint32_t> r(p.N);
        s.squeeze(r.data(), 4u * p.N);
        for (int i = 0; i < p.N - 1; i++) std::swap(m.perm[i], m.perm[i + r[i] % (p.N - i)]);
        return m;
    }
    Mono mono_ephem(const uint8_t *seed, const uint8_t *salt, int round) const {
        Bytes in(seed, seed + p.S);
        in.insert(in.end(), salt, salt + p.H());
        in.push_back((uint8_t)round);
        in.push_back((uint8_t)(round >> 8));
        return mono(in);
    }
    struct Dense {   // K x N, row stride padded
        int K, N, st;
        std::vector<uint8_t> v;
        Dense(int k, int n) : K(k), N(n), st((n + 31) / 32 * 32), v((size_t)k * st, 0) {}
        uint8_t *row(int r) { return &v[(size_t)r * st]; }
        const uint8_t *row(int r) const { return &v[(size_t)r * st]; }
    };
    Dense g0(const uint8_t *seed) const {
        Dense g(p.K, p.N);
        Sponge s = xof(Bytes(seed, seed + p.S));
        for (int r = 0; r < p.K; r++) {
            g.row(r)[r] = 1;
            sample(s, g.row(r) + p.K, p.N - p.K, 0, 126);
        }
        return g;
    }
    static uint8_t mul(int a, int b) { return (uint8_t)(a * b % 127); }
    bool rref(Dense &g, std::vector<uint8_t> &piv) const {
        piv.assign(p.N, 0);
        int col = 0;
        for (int r = 0; r < p.K; r++) {
            int pr = -1;
            for (; col < p.N; col++) {
                for (int i = r; i < p.K; i++)
                    if (g.row(i)[col]) { pr = i; break; }
                if (pr >= 0) break;
            }
            if (pr < 0) return false;
            piv[col] = 1;
            uint8_t *a = g.row(r);
            if (pr != r) std::swap_ranges(a, a + g.st, g.row(pr));
            int sc = inv[a[col]];
            for (int c = 0; c < g.st; c++) a[c] = mul(a[c], sc);
            for (int i = 0; i < p.K; i++) {
                uint8_t *b = g.row(i);
                if (i == r || !b[col]) continue;
                uint16_t f = (uint16_t)(127 - b[col]);
                for (int c = 0; c < g.st; c++) {
                    uint16_t x = (uint16_t)(b[c] + f * a[c]);
                    x = (uint16_t)((x & 127) + (x >> 7));
                    x = (uint16_t)((x & 127) + (x >> 7));
                    b[c] = (uint8_t)(x == 127 ? 0 : x);
                }
            }
            col++;
        }
        return true;
    }
    // normalised, sorted non-pivot columns, row-major
    Bytes normal_form(const Dense &g, const std::vector<uint8_t> &piv) const {
        std::vector<Bytes> cols;
        for (int c = 0; c < p.N; c++) {
            if (piv[c]) continue;
            Bytes v(p.K);
            int f = 0;
            for (int r = 0; r < p.K; r++) {
                v[r] = g.row(r)[c];
                if (!f) f = v[r];
            }
            for (auto &x : v) x = mul(x, inv[f]);
            cols.push_back(v);
        }
        std::sort(cols.begin(), cols.end());
        int M = p.N - p.K;
        Bytes out((size_t)p.K * M);
        for (int c = 0; c < M; c++)
            for (int r = 0; r < p.K; r++) out[(size_t)r * M + c] = cols[c][r];
        return out;
    }
    Dense apply(const Dense &g, const Mono &m) const {
        Dense o(p.K, p.N);
        for (int r = 0; r < p.K; r++)
            for (int c = 0; c < p.N; c++) o.row(r)[m.perm[c]] = mul(g.row(r)[c], m.c[c]);
        return o;
    }
    struct Bits {
        uint8_t *d; size_t at = 0;
        explicit Bits(uint8_t *d_) : d(d_) {}
        void put(unsigned v, int n) { for (int i = 0; i < n; i++, at++) if (v >> i & 1) d[at / 8] |= (uint8_t)(1 << at % 8); }
        unsigned get(int n) { unsigned v = 0; for (int i = 0; i < n; i++, at++) v |= (unsigned)(d[at / 8] >> at % 8 & 1) << i; return v; }
    };
    void pack_rref(const Dense &g, const std::vector<uint8_t> &piv, uint8_t *out) const {
        memset(out, 0, p.rref_bytes());
        for (int i = 0; i < p.N; i++) out[i / 8] |= (uint8_t)(piv[i] << i % 8);
        Bits b(out + (p.N + 7) / 8);
        for (int r = 0; r < p.K; r++)
            for (int c = 0; c < p.N; c++)
                if (!piv[c]) b.put(g.row(r)[c], 7);
    }
    bool has_pivots(const uint8_t *in) const {   // K of them, or it encodes no code
        int np = 0;
        for (int i = 0; i < p.N; i++) np += in[i / 8] >> i % 8 & 1;
        return np == p.K;
    }
    bool unpack_rref(const uint8_t *in, Dense &g) const {
        std::vector<uint8_t> piv(p.N);
        int np = 0;
        for (int i = 0; i < p.N; i++) np += piv[i] = in[i / 8] >> i % 8 & 1;
        if (np != p.K) return false;
        Bits b(const_cast<uint8_t *>(in) + (p.N + 7) / 8);
        for (int r = 0; r < p.K; r++) {
            int k = 0;
            for (int c = 0; c < p.N; c++) {
                if (piv[c]) { g.row(r)[c] = r == k; k++; continue; }
                unsigned v = b.get(7);
                if (v >= 127) return false;
                g.row(r)[c] = (uint8_t)v;
            }
        }
        return true;
    }
    bool pk_well_formed(const Bytes &pk) const {
        for (int i = 0; i < p.NK - 1; i++) { Dense g(p.K, p.N); if (!unpack_rref(&pk[p.S + i * p.rref_bytes()], g)) return false; }
        return true;
    }
    // bytes of a public key whose value does not matter (padding bits of the packed matrices)
    std::vector<Bytes> private_seeds(const uint8_t *sk) const {
        Sponge s = xof(Bytes(sk, sk + p.H()));
        std::vector<Bytes> v;
        for (int i = 0; i < p.NK - 1; i++) { Bytes b(p.H()); s.squeeze(b.data(), b.size()); v.push_back(b); }
        return v;
    }
    void tree_children(std::vector<Bytes> &t, int i, const uint8_t *salt) const {
        Bytes in(salt, salt + p.H());
        in.insert(in.end(), t[i].begin(), t[i].end());
        Sponge s = xof(in);
        for (int k = 1; k <= 2; k++) { t[2 * i + k].resize(p.S); s.squeeze(t[2 * i + k].data(), p.S); }
    }
    std::vector<Bytes> tree(const uint8_t *root, const uint8_t *salt) const {
        int L = p.leaves();
        std::vector<Bytes> t(2 * L - 1);
        t[0].assign(root, root + p.S);
        for (int i = 0; i < L - 1; i++) tree_children(t, i, salt);
        return t;
    }
    Sponge hash() const { return Sponge::sha3(8u * p.H()); }

    // ---- the scheme -----------------------------------------------------------------------------------------------
    void keygen(const uint8_t *ent /* 3S: private seed, G_0 seed */, Bytes &pk, Bytes &sk) const {
        sk.assign(ent, ent + 3 * p.S);
        pk.assign(p.pk_bytes(), 0);
        memcpy(pk.data(), ent + p.H(), p.S);
        auto ps = private_seeds(ent);
        Dense g = g0(ent + p.H());
        for (int i = 0; i < p.NK - 1; i++) {
            Mono qi = mono(ps[i]), q = qi;
            for (int c = 0; c < p.N; c++) q.perm[qi.perm[c]] = c, q.c[qi.perm[c]] = inv[qi.c[c]];
            Dense r = apply(g, q);
            std::vector<uint8_t> piv;
            rref(r, piv);
            pack_rref(r, piv, &pk[p.S + i * p.rref_bytes()]);
        }
    }
    void sign(const Bytes &sk, const Bytes &m, const uint8_t *ent /* 3S: root, salt */, Bytes &sm) const {
        const uint8_t *root = ent, *salt = ent + p.S;
        auto ps = private_seeds(sk.data());
        auto t = tree(root, salt);
        Dense g = g0(sk.data() + p.H());
        Sponge h = hash();
        int L = p.leaves();
        std::vector<Mono> qbar(p.T);
        for (int i = 0; i < p.T; i++) {
            Mono q = mono_ephem(t[L - 1 + i].data(), salt, i);
            Dense r = apply(g, q);
            std::vector<uint8_t> piv;
            rref(r, piv);
            Bytes v = normal_form(r, piv);
            h.absorb(v.data(), v.size());
            std::vector<int> src(p.N);
            for (int c = 0; c < p.N; c++) src[q.perm[c]] = c;
            for (int c = 0; c < p.N; c++)
                if (piv[c]) qbar[i].perm.push_back(src[c]), qbar[i].c.push_back(q.c[src[c]]);
        }
        h.absorb(m.data(), m.size());
        h.absorb(salt, p.H());
        Bytes d(p.H());
        h.squeeze(d.data(), d.size());
        digest_post(d.data(), d.size());
        auto ch = challenge(d.data());
        std::vector<int> nodes;
        int n = seed_cover(p, ch, &nodes);
        sm = m;
        sm.insert(sm.end(), salt, salt + p.H());
        for (int i = 0; i < p.T; i++) {
            if (!ch[i]) continue;
            Mono q = mono(ps[ch[i] - 1]), rev = q;
            for (int c = 0; c < p.N; c++) rev.perm[q.perm[c]] = c, rev.c[q.perm[c]] = q.c[c];
            Bytes a(p.mono_bytes(), 0);
            Bits b(a.data());
            for (int k = 0; k < p.K; k++) b.put((unsigned)rev.perm[qbar[i].perm[k]], p.nbits());
            for (int k = 0; k < p.K; k++) b.put(mul(qbar[i].c[k], rev.c[qbar[i].perm[k]]), 7);
            sm.insert(sm.end(), a.begin(), a.end());
        }
        sm.insert(sm.end(), d.begin(), d.end());
        for (int i : nodes) sm.insert(sm.end(), t[i].begin(), t[i].end());
        sm.push_back((uint8_t)n);
    }
    enum Verdict { REJECT = 0, ACCEPT = 1, BADPK = 2 };
    Verdict open(const Bytes &pk, const Bytes &sm, Bytes &m) const {
        if ((int)sm.size() < p.sig_len(0)) return REJECT;
        int n = sm.back();
        if (n > p.MAXS || (int)sm.size() < p.sig_len(n)) return REJECT;
        size_t ml = sm.size() - p.sig_len(n);
        m.assign(sm.begin(), sm.begin() + ml);
        Bytes sig(sm.begin() + ml, sm.end());
        sig.resize(p.sig_max(), 0);
        const uint8_t *salt = sig.data(), *dig = &sig[p.off_digest()], *st = &sig[p.off_seeds()];
        auto ch = challenge(dig);
        std::vector<int> nodes;
        seed_cover(p, ch, &nodes);
        int L = p.leaves();
        std::vector<Bytes> t(2 * L - 1);
        size_t at = p.off_seeds();
        for (int i : nodes) {   // seeds beyond the maximum read as zero
            t[i].assign(p.S, 0);
            if (at + p.S <= sig.size()) memcpy(t[i].data(), &sig[at], p.S);
            at += p.S;
        }
        (void)st;
        for (int i = 0; i < L - 1; i++)
            if (!t[i].empty()) tree_children(t, i, salt);
        Dense g = g0(pk.data());
        Sponge h = hash();
        int k = 0;
        for (int i = 0; i < p.T; i++) {
            Dense r(p.K, p.N);
            if (!ch[i]) r = apply(g, mono_ephem(t[L - 1 + i].data(), salt, i));
            else {
                Dense f(p.K, p.N);
                const uint8_t *part = &pk[p.S + (ch[i] - 1) * p.rref_bytes()];
                if (!has_pivots(part)) return REJECT;
                if (!unpack_rref(part, f)) return BADPK;
                Bits b(&sig[p.off_mono() + k++ * p.mono_bytes()]);
                std::vector<int> perm(p.K);
                std::vector<int> c(p.K);
                for (auto &x : perm) x = (int)b.get(p.nbits());
                for (auto &x : c) x = (int)b.get(7);
                std::vector<uint8_t> used(p.N, 0);
                for (int j = 0; j < p.K; j++) {
                    if (c[j] == 0 || c[j] == 127 || perm[j] >= p.N || used[perm[j]]) return REJECT;
                    used[perm[j]] = 1;
                }
                for (int y = 0; y < p.K; y++) {
                    for (int j = 0; j < p.K; j++) r.row(y)[j] = mul(f.row(y)[perm[j]], c[j]);
                    int o = p.K;
                    for (int j = 0; j < p.N; j++) if (!used[j]) r.row(y)[o++] = f.row(y)[j];
                }
            }
            std::vector<uint8_t> piv;
            rref(r, piv);
            Bytes v = normal_form(r, piv);
            h.absorb(v.data(), v.size());
        }
        h.absorb(m.data(), m.size());
        h.absorb(salt, p.H());
        Bytes d(p.H());
        h.squeeze(d.data(), d.size());
        digest_post(d.data(), d.size());
        return memcmp(d.data(), dig, d.size()) == 0 ? ACCEPT : REJECT;
    }
};
