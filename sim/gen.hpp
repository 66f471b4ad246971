// Seeded plan generators. A plan is a complete, explicit schedule with its faults; nothing is decided while it runs.
#pragma once
#include <cmath>

struct SetInfo { const char *name; int cat, S, N, K, NK, T, W, MAXS; };
static const SetInfo SETS[] = {
    {"s1a", 1, 16, 140, 70, 2, 40, 6, 18}, {"s1b", 1, 16, 140, 70, 4, 44, 5, 17}, {"s1c", 1, 16, 140, 70, 8, 38, 4, 17}, {"sk", 1, 16, 140, 70, 2, 11, 2, 6},
    {"s3a", 3, 24, 272, 136, 2, 23, 4, 12}, {"s3b", 3, 24, 272, 136, 3, 27, 5, 14}, {"s5a", 5, 32, 516, 258, 2, 19, 4, 13}, {"s5b", 5, 32, 516, 258, 3, 13, 3, 8},
    {"1B", 1, 16, 252, 126, 2, 247, 30, 92}, {"1I", 1, 16, 252, 126, 4, 244, 20, 72}, {"1S", 1, 16, 252, 126, 8, 198, 17, 66},
    {"3B", 3, 24, 400, 200, 2, 759, 33, 163}, {"3S", 3, 24, 400, 200, 3, 895, 26, 136}, {"5B", 5, 32, 548, 274, 2, 1352, 40, 224}, {"5S", 5, 32, 548, 274, 3, 907, 37, 175}};
static const SetInfo &info(const Str &s) { for (auto &x : SETS) if (s == x.name) return x; die("unknown set " + s); }
static int sig_len(const SetInfo &s, int n) {
    Params p{s.cat, s.S, s.N, s.K, s.T, s.W, s.NK, s.MAXS};
    return p.sig_len(n);
}

// real parameter sets run as they ship (release flags, no preemption), one plan each; index = plan number
struct Special { const char *prop, *tier, *what, *impl, *set, *flav; };
static const Special SPECIAL[] = {
    {"C01", "quick", "round", "avx2", "5S", "plain"}, {"C01", "quick", "round", "avx2", "5B", "plain"}, {"C01", "quick", "round", "avx2", "3S", "plain"}, {"C01", "quick", "round", "avx2", "3B", "plain"},
    {"C01", "quick", "round", "ref", "1B", "plain"}, {"C01", "quick", "round", "avx2", "1S", "plain"}, {"C01", "quick", "round", "avx2", "1I", "plain"}, {"C01", "quick", "round", "avx2", "1B", "plain"},
    {"C01", "quick", "huge", "avx2", "1B", "plain"}, {"C01", "quick", "huge", "ref", "1B", "plain"},
    {"C01", "thorough", "round", "ref", "5S", "plain"}, {"C01", "thorough", "round", "ref", "5B", "plain"}, {"C01", "thorough", "round", "ref", "3S", "plain"}, {"C01", "thorough", "round", "ref", "3B", "plain"},
    {"C01", "thorough", "round", "ref", "1S", "plain"}, {"C01", "thorough", "round", "ref", "1I", "plain"},
    {"C02", "quick", "tamper", "avx2", "1B", "plain"}, {"C02", "quick", "tamper", "avx2", "1S", "plain"}, {"C02", "quick", "tamper", "avx2", "1I", "plain"},
    {"C02", "quick", "tamper", "avx2", "3S", "plain"}, {"C02", "quick", "tamper", "avx2", "5S", "plain"}, {"C02", "quick", "tamper", "ref", "1S", "plain"},
    {"C02", "thorough", "tamper", "avx2", "3B", "plain"}, {"C02", "thorough", "tamper", "avx2", "5B", "plain"}, {"C02", "thorough", "tamper", "ref", "1B", "plain"}, {"C02", "thorough", "tamper", "ref", "1I", "plain"},
    {"C02", "thorough", "tamper", "ref", "3S", "plain"}, {"C02", "thorough", "tamper", "ref", "5S", "plain"},
    {"C03", "quick", "hostile", "avx2", "1B", "asan"}, {"C03", "quick", "hostile", "avx2", "3S", "asan"}, {"C03", "quick", "hostile", "avx2", "5S", "asan"}, {"C03", "quick", "hostile", "ref", "1S", "asan"},
    {"C03", "quick", "bulk", "avx2", "s1b", "pre"}, {"C03", "quick", "bulk", "ref", "s1b", "pre"}, {"C03", "thorough", "bulk", "avx2", "1B", "pre"},
    {"C03", "thorough", "hostile", "avx2", "1S", "asan"}, {"C03", "thorough", "hostile", "avx2", "1I", "asan"}, {"C03", "thorough", "hostile", "avx2", "3B", "asan"}, {"C03", "thorough", "hostile", "avx2", "5B", "asan"},
    {"C03", "thorough", "hostile", "ref", "1B", "asan"}, {"C03", "thorough", "hostile", "ref", "3S", "asan"},
    {"C04", "quick", "twin", "avx2", "5B", "plain"}, {"C04", "quick", "twin", "avx2", "5S", "plain"}, {"C04", "quick", "twin", "avx2", "3S", "plain"}, {"C04", "quick", "twin", "avx2", "3B", "plain"},
    {"C04", "quick", "model", "avx2", "1B", "plain"}, {"C04", "quick", "model", "avx2", "1I", "plain"}, {"C04", "quick", "model", "ref", "1S", "plain"},
    {"C04", "thorough", "model", "avx2", "3S", "plain"}, {"C04", "thorough", "model", "avx2", "5S", "plain"}, {"C04", "thorough", "model", "avx2", "3B", "plain"}, {"C04", "thorough", "model", "avx2", "5B", "plain"},
    {"C04", "thorough", "model", "ref", "1B", "plain"}, {"C04", "thorough", "model", "ref", "3S", "plain"}, {"C04", "thorough", "model", "ref", "5S", "plain"},
    {"C09", "quick", "disclose", "avx2", "1S", "plain"}, {"C09", "quick", "disclose", "avx2", "3S", "plain"}, {"C09", "quick", "disclose", "avx2", "5S", "plain"},
    {"C10", "quick", "contract", "avx2", "1S", "plain"}, {"C10", "quick", "contract", "avx2", "3S", "plain"}, {"C10", "quick", "contract", "avx2", "5S", "plain"}, {"C10", "quick", "contract", "avx2", "1B", "plain"},
    {"C23", "quick", "twin ref", "neon", "1B", "plain"}, {"C23", "quick", "twin avx2", "neon", "1S", "plain"}, {"C23", "quick", "twin avx2", "neon", "3S", "plain"},
    {"C23", "quick", "twin avx2", "neon", "5S", "plain"}, {"C23", "quick", "twin avx2", "neon", "1I", "plain"}, {"C23", "quick", "twin avx2", "neon", "3B", "plain"}, {"C23", "quick", "twin avx2", "neon", "5B", "plain"},
    {"C23", "thorough", "twin ref", "neon", "1S", "plain"}, {"C23", "thorough", "twin ref", "neon", "1I", "plain"}, {"C23", "thorough", "twin ref", "neon", "3S", "plain"}, {"C23", "thorough", "twin ref", "neon", "5S", "plain"},
    // histories of more than a thousand calls in one process
    {"C01", "quick", "marathon", "avx2", "sk", "pre"}, {"C05", "quick", "marathon", "avx2", "sk", "pre"}, {"C07", "quick", "marathon", "avx2", "sk", "pre"}, {"C08", "quick", "marathon", "avx2", "sk", "pre"},
    {"C01", "quick", "marathon", "ref", "sk", "pre"}, {"C05", "quick", "marathon", "ref", "sk", "pre"}, {"C07", "quick", "marathon", "ref", "sk", "pre"}, {"C08", "quick", "marathon", "ref", "sk", "pre"},
    // dozens of calls in progress at once
    {"C06", "quick", "crowd", "avx2", "sk", "pre"}, {"C06", "quick", "crowd", "ref", "sk", "pre"},
    // real sets under every shape of challenge, and short histories of them
    {"C01", "quick", "shapes", "avx2", "1B", "plain"}, {"C01", "quick", "shapes", "avx2", "1I", "plain"}, {"C01", "quick", "shapes", "avx2", "1S", "plain"}, {"C01", "quick", "shapes", "avx2", "3S", "plain"},
    {"C09", "quick", "shapes", "avx2", "1B", "plain"}, {"C09", "quick", "shapes", "avx2", "1I", "plain"}, {"C09", "quick", "shapes", "avx2", "1S", "plain"}, {"C09", "quick", "shapes", "avx2", "3S", "plain"},
    {"C10", "quick", "shapes", "avx2", "1B", "plain"}, {"C10", "quick", "shapes", "avx2", "1I", "plain"}, {"C10", "quick", "shapes", "avx2", "1S", "plain"},
    {"C05", "quick", "history", "avx2", "1B", "plain"}, {"C05", "quick", "history", "avx2", "1I", "plain"}, {"C05", "quick", "history", "avx2", "1S", "plain"}, {"C05", "quick", "history", "avx2", "3S", "plain"}, {"C05", "quick", "history", "ref", "1S", "plain"},
    {"C08", "quick", "history", "avx2", "1B", "plain"}, {"C08", "quick", "history", "avx2", "1I", "plain"}, {"C08", "quick", "history", "avx2", "1S", "plain"}, {"C08", "quick", "history", "avx2", "3S", "plain"}, {"C08", "quick", "history", "ref", "1S", "plain"},
    {"C05", "thorough", "history", "avx2", "3B", "plain"}, {"C05", "thorough", "history", "avx2", "5S", "plain"}, {"C05", "thorough", "history", "ref", "1B", "plain"}, {"C08", "thorough", "history", "avx2", "3B", "plain"}, {"C08", "thorough", "history", "avx2", "5S", "plain"},
    {"C01", "thorough", "shapes", "avx2", "3B", "plain"}, {"C01", "thorough", "shapes", "avx2", "5S", "plain"}, {"C01", "thorough", "shapes", "avx2", "5B", "plain"}, {"C01", "thorough", "shapes", "ref", "1S", "plain"}, {"C01", "thorough", "shapes", "ref", "1B", "plain"},
    {"C09", "thorough", "shapes", "avx2", "3B", "plain"}, {"C09", "thorough", "shapes", "avx2", "5S", "plain"}, {"C09", "thorough", "shapes", "avx2", "5B", "plain"}, {"C09", "thorough", "shapes", "ref", "1S", "plain"}, {"C10", "thorough", "shapes", "avx2", "3S", "plain"}, {"C10", "thorough", "shapes", "ref", "1S", "plain"},
    {"C11", "quick", "long sha3_256 absorb", "ref", "s1a", "plain"}, {"C11", "quick", "long shake256 absorb", "avx2", "s1a", "plain"}, {"C11", "quick", "long csprng squeeze", "ref", "s1a", "plain"},
    {"C11", "quick", "long platform squeeze", "avx2", "s1a", "plain"}, {"C11", "quick", "long shake128 oneshot", "ref", "s1a", "plain"}, {"C11", "quick", "long platform squeeze", "ref", "s3b", "plain"}, {"C11", "quick", "long csprng squeeze", "avx2", "s3b", "plain"},
    // more than 65536 reads of one generator
    {"C11", "quick", "many", "ref", "s1a", "plain"}, {"C11", "quick", "many", "avx2", "s3b", "plain"},
    {"C11", "thorough", "long sha3_512 absorb", "ref", "s1a", "plain"}, {"C11", "thorough", "long sha3_384 absorb", "avx2", "s1a", "plain"}, {"C11", "thorough", "long sha3_256 oneshot", "avx2", "s1a", "plain"},
    {"C11", "thorough", "long shake256 oneshot", "ref", "s1a", "plain"}, {"C11", "thorough", "long shake128 squeeze", "avx2", "s1a", "plain"}, {"C11", "thorough", "long shake256 squeeze", "ref", "s1a", "plain"},
    {"C11", "thorough", "long sha3_384 oneshot", "ref", "s1a", "plain"}, {"C11", "thorough", "long sha3_512 oneshot", "avx2", "s1a", "plain"}, {"C11", "thorough", "long shake128 absorb", "ref", "s1a", "plain"},
};

struct G {
    Str prop, tier;
    Rng r;
    std::ostringstream o;
    Str set, flav = "pre";
    std::vector<Str> impl;                 // by node
    int tid = 0, nk = 0, nw = 0, lives = 0;
    uint64_t base;
    bool garbage = false;
    int rare_pct = 0;
    std::vector<std::pair<int, uint64_t>> live;   // ops that may be unfinished, with their estimated length
    std::map<int, size_t> wl;              // wire -> message length
    std::map<int, int> wk;                 // wire -> key

    G(const Str &p, const Str &t, uint64_t seed, long idx) : prop(p), tier(t), r(seed * 1000003 + (uint64_t)idx * 7919 + hash_bytes(p.data(), p.size())) { base = r.next(); }
    const SetInfo &si() { return info(set); }
    bool deep() { return tier == "thorough"; }

    void begin(const Str &s, const Str &f) {
        set = s, flav = f;
        o << "plan " << prop << "\nset " << set << " " << flav << "\n";
    }
    Str pick(std::initializer_list<std::pair<const char *, int>> l) {
        int sum = 0;
        for (auto &x : l) sum += x.second;
        int v = (int)r.below((uint64_t)sum);
        for (auto &x : l) if ((v -= x.second) < 0) return x.first;
        return l.begin()->first;
    }
    Str pick_set() {
        if (deep()) return pick({{"s1a", 18}, {"s1b", 18}, {"s1c", 18}, {"sk", 8}, {"s3a", 10}, {"s3b", 12}, {"s5a", 5}, {"s5b", 6}});
        return pick({{"s1a", 30}, {"s1b", 30}, {"s1c", 26}, {"s3b", 10}, {"s5b", 4}});
    }
    void node(const Str &i) { o << "node " << impl.size() << " " << i << "\n"; impl.push_back(i); }
    void nodes(int n, int ref_pct) {
        int c[2] = {0, 0};
        for (int i = 0; i < n; i++) {
            int ref = r.chance(ref_pct);
            if (c[ref] == 2) ref = !ref;
            c[ref]++;
            node(ref ? "ref" : "avx2");
        }
    }
    std::set<uint64_t> near_bits;
    size_t near_len = 0;                   // >0: all seeds are equal but for one bit
    void seed_node(int n) {
        if (near_len) {
            o << "seed " << n << " " << (base >> 8) << " " << near_len;
            if (lives) {
                uint64_t b;
                do b = r.chance(50) ? 8 * near_len - 1 - r.below(64) : r.below(8 * near_len); while (!near_bits.insert(b).second);
                o << " " << b;
            }
            o << "\n";
            lives++;
            return;
        }
         o << "seed " << n << " " << mix64(base + 1000u * (uint64_t)n + (uint64_t)lives++) << "\n"; }
    void seed_all() { for (size_t i = 0; i < impl.size(); i++) seed_node((int)i); }
    void oracle(int pct) {
        if (!r.chance(pct)) return;
        int chal = r.chance(35) ? CHAL_WORST : r.chance(20) ? CHAL_REAL : 1 + (int)r.below(CHAL_MODES - 1);
        int unlucky = r.chance(20) ? (int)r.below(400) : 0;
        o << "oracle chal=" << chal << " seed=" << (r.next() >> 20) << " pinned=" << (r.chance(25) ? 1 : 0) << " unlucky=" << unlucky << " stall=" << (r.chance(12) ? r.below(3000) : 0) << "\n";
    }
    uint64_t est(int node, Kind k) {
        const SetInfo &s = si();
        double rounds = k == KEYGEN ? s.NK - 1 : s.T;
        double per = s.cat == 1 && s.N == 140 ? (double)s.K * s.K * s.N * (impl[node] == "ref" ? 1.2 : 0.22) : (double)s.K * s.N * 0.75;
        return (uint64_t)(rounds * per);
    }
    int thread_pct = 0;
    Str mem() {
        Str s = thread_pct && r.chance(thread_pct) ? " thread=1" : "";
        return s + (garbage ? fmt(" fill=%llu poison=%llu", (unsigned long long)(r.next() >> 30), (unsigned long long)(r.chance(15) ? 1 : 2 + (r.next() >> 30))) : Str());
    }
    int keygen(int n) {
        o << "op " << ++tid << " " << n << " keygen k" << ++nk << mem() << "\n";
        live.push_back({tid, est(n, KEYGEN)});
        return nk;
    }
    size_t msg_len() {
        switch (r.below(6)) {
        case 0: return 0;
        case 1: return 1;
        case 2: return r.below(300);
        case 3: { static const int rate[] = {72, 104, 136, 168, 200, 8}; return (size_t)(rate[r.below(6)] * (1 + (int)r.below(4)) + r.range(-2, 2)); }
        case 4: return 33 * (1 + r.below(4));
        default: return r.chance(12) ? (r.chance(70) ? 65536ull * (1 + r.below(3)) - 3 + r.below(r.chance(50) ? 7 : 6000) : r.below(1 << 20)) : r.below(r.chance(10) ? 40000 : 3400);
        }
    }
    int sign(int n, int k, long len = -1) {
        size_t l = len >= 0 ? (size_t)len : msg_len();
        o << "op " << ++tid << " " << n << " sign s" << ++nw << " k" << k << " len=" << l << " mseed=" << (r.chance(10) ? r.below(2) : 2 + (r.next() >> 30)) << mem() << "\n";
        live.push_back({tid, est(n, SIGN)});
        wl[nw] = l, wk[nw] = k;
        return nw;
    }
    void open(int n, int w, int k) {
        o << "op " << ++tid << " " << n << " open s" << w << " k" << k << mem() << "\n";
        live.push_back({tid, est(n, OPEN)});
    }
    void finish_all() { for (auto &l : live) o << "run " << l.first << " 0\n"; live.clear(); }
    // random schedule of the live operations
    void interleave(int slices, int kill_pct = 0) {
        for (int i = 0; i < slices && !live.empty(); i++) {
            size_t x = r.below(live.size());
            uint64_t e = live[x].second, t;
            if (r.chance(60)) t = 1 + r.below(e / 2 + 1);
            else t = (uint64_t)std::exp((double)r.below(1000) / 1000.0 * std::log((double)e + 2));
            if (t == 0) t = 1;
            if (r.chance(rare_pct)) {   // stop at a block the call rarely executes, and often let others run to their end there
                static const int thr[] = {1, 2, 5, 20, 60, 150, 400, 4000};
                if (r.chance(30)) o << "rare " << live[x].first << " " << thr[r.below(8)] << " " << (r.next() >> 20) << "\n";
                else o << "block " << live[x].first << " " << r.below(100000) << " " << (r.chance(40) ? r.below(4) : r.next() >> 20) << "\n";
                if (r.chance(kill_pct)) { o << "kill " << live[x].first << "\n"; live.erase(live.begin() + (long)x); continue; }
                for (size_t y = 0; y < live.size() && r.chance(60); y++) {
                    size_t z = r.below(live.size());
                    if (z == x) continue;
                    o << "run " << live[z].first << " " << (r.chance(50) ? 0 : t) << "\n";
                }
                continue;
            }
            o << "run " << live[x].first << " " << t << "\n";
            if (r.chance(kill_pct)) { o << "kill " << live[x].first << "\n"; live.erase(live.begin() + (long)x); }
        }
    }
    int any_node() { return (int)r.below(impl.size()); }
    int mutant(int w, int w2) {
        const SetInfo &s = si();
        int W = s.W, d = ++nw;
        auto big = [&] { return (unsigned long long)(r.next() >> 24); };
        Str x;
        switch (r.below(26)) {
        case 0: case 1: case 2: case 3: case 4: x = fmt("flip %d %llu %d", (int)r.below(6), big(), (int)r.below(8)); break;
        case 5: x = fmt("set %d %llu %d", (int)r.below(6), big(), (int)r.below(256)); break;
        case 6: x = fmt("xorrange %d %llu %d", (int)r.below(7), big(), (int)r.below(3) * 30); break;
        case 7: x = fmt("zero %d %d", (int)r.below(7), r.chance(30) ? 255 : 0); break;
        case 8: x = fmt("trunc %d", r.chance(50) ? 1 + (int)r.below(4) : 1 + (int)r.below((uint64_t)sig_len(s, s.MAXS))); break;
        case 9: x = fmt("head %d", r.chance(50) ? 1 : 1 + (int)r.below(200)); break;
        case 10: x = fmt("keep %d", (int)r.below((uint64_t)sig_len(s, s.MAXS) + 40)); break;
        case 11: x = fmt("extend %d %llu", 1 + (int)r.below(40), big()); break;
        case 12: x = fmt("prefix %d %llu", 1 + (int)r.below(40), big()); break;
        case 13: x = fmt("dup %llu %d", big(), (int)r.below(64)); break;
        case 14: x = fmt("cut %llu %d", big(), (int)r.below(64)); break;
        case 15: x = fmt("count %d", r.chance(50) ? (int)r.below((uint64_t)s.MAXS + 3) : (int)r.below(256)); break;
        case 16: x = fmt("recount %d %llu %d", (int)r.below((uint64_t)s.MAXS + 2), big(), (int)r.below(2)); break;
        case 17: x = "shift"; break;
        case 18: x = r.chance(50) ? fmt("seedswap %d %d", (int)r.below(200), (int)r.below(200)) : Str("seedrot"); break;
        case 19: x = fmt("monoswap %d %d", (int)r.below((uint64_t)W), (int)r.below((uint64_t)W)); break;
        case 20: x = fmt("perm %d %d %d", (int)r.below((uint64_t)W), (int)r.below((uint64_t)s.K), r.chance(50) ? (int)r.below(1024) : s.N - 3 + (int)r.below(6)); break;
        case 21: x = fmt("coef %d %d %d", (int)r.below((uint64_t)W), (int)r.below((uint64_t)s.K), r.chance(50) ? (r.chance(50) ? 0 : 127) : (int)r.below(128)); break;
        case 22: x = fmt("%s %d %d %d", r.chance(50) ? "permswap" : r.chance(60) ? "scale" : "pad", (int)r.below((uint64_t)W), (int)r.below(1000), (int)r.below(1000)); break;
        case 23: case 24: x = r.chance(80) ? fmt("graft %d %d", (int)r.below(6), w2) : fmt("cat 0 %d", w2); break;
        default: x = r.chance(50) ? fmt("badchal 0 %llu", big()) : fmt("random %d %llu %d", (int)r.below((uint64_t)sig_len(s, s.MAXS) + 60), big(), r.chance(70) ? (int)r.below((uint64_t)s.MAXS + 3) : 0);
        }
        o << "mut s" << d << " s" << w << " " << x << "\n";
        wl[d] = wl[w], wk[d] = wk[w];
        return d;
    }
    int bad_pk(int k) {
        int d = ++nk;
        auto big = [&] { return (unsigned long long)(r.next() >> 24); };
        Str x;
        switch (r.below(10)) {
        case 0: case 1: x = fmt("flip %llu %d", big(), (int)r.below(8)); break;
        case 2: x = fmt("set %llu %d", big(), r.chance(40) ? 255 : (int)r.below(256)); break;
        case 3: x = fmt("zero %llu %d %d", big(), (int)r.below(3000), r.chance(50) ? 255 : 0); break;
        case 4: x = fmt("random %llu", big()); break;
        case 5: x = fmt("tear %llu %llu %d", big(), big(), (int)r.below(2)); break;
        case 6: case 7: x = fmt("pivots %d %llu %d", (int)r.below(8), big(), (int)r.below(2)); break;
        case 8: x = fmt("entry %d %llu %d", (int)r.below(8), big(), r.chance(50) ? 127 : (int)r.below(127)); break;
        default: x = fmt("%s %d %llu", r.chance(50) ? "zerocol" : "dupcol", (int)r.below(8), big());
        }
        o << "mutkey k" << d << " k" << k << " pk " << x << "\n";
        return d;
    }
    int bad_sk(int k) {
        int d = ++nk;
        o << "mutkey k" << d << " k" << k << " sk " << (r.chance(50) ? fmt("flip %d %d", (int)r.below(200), (int)r.below(8)) : r.chance(50) ? fmt("tear %d %d %d", (int)r.below(100), (int)r.below(10000), (int)r.below(2)) : fmt("random %d", (int)r.below(100000))) << "\n";
        return d;
    }
    bool big_set() { return si().N > 200; }

    void c01() {
        begin(pick_set(), "pre");
        rare_pct = r.chance(60) ? 15 : 0;
        nodes(r.range(1, 3), big_set() ? 25 : 30);
        garbage = r.chance(50);
        thread_pct = r.chance(30) ? 30 : 0;
        oracle(60);
        seed_all();
        bool conc = r.chance(40);
        int nkeys = r.range(1, 2), ns = big_set() ? 1 : r.range(1, 3);
        std::vector<int> ks, ws;
        for (int i = 0; i < nkeys; i++) ks.push_back(keygen(any_node()));
        if (conc) interleave(6);
        for (int i = 0; i < ns; i++) ws.push_back(sign(any_node(), ks[r.below(ks.size())]));
        if (conc) interleave(r.range(4, 12));
        std::vector<int> del;
        for (int w : ws) { del.push_back(w); if (r.chance(30) && !big_set()) del.push_back(w); }
        for (size_t i = del.size(); i > 1; i--) std::swap(del[i - 1], del[r.below(i)]);
        for (int w : del) open(any_node(), w, wk[w]);
        if (conc) interleave(r.range(4, 12));
        finish_all();
    }
    void c02() {
        begin(pick_set(), "pre");
        nodes(r.chance(25) ? 2 : 1, 25);
        if (r.chance(15)) o << "oracle mask=" << r.below((uint64_t)2 * si().S) << " chal=" << (r.chance(50) ? 0 : CHAL_WORST) << " seed=" << (r.next() >> 20) << "\n";
        else oracle(35);
        seed_all();
        int k1 = keygen(0), k2 = keygen(any_node());
        std::vector<int> ws;
        size_t common = msg_len();
        ws.push_back(sign(0, k1, (long)common));
        ws.push_back(sign(any_node(), r.chance(70) ? k1 : k2, r.chance(50) ? (long)common : -1));
        if (r.chance(40)) ws.push_back(sign(any_node(), k2));
        int m = big_set() ? 4 : impl[0] == "ref" || impl.back() == "ref" ? 8 : r.range(10, 24);
        for (int i = 0; i < m; i++) {
            int w = ws[r.below(ws.size())], w2 = ws[r.below(ws.size())];
            int d = r.chance(6) ? w : mutant(w, w2);
            if (r.chance(15)) d = mutant(d, w2);
            open(any_node(), d, r.chance(12) ? (wk[w] == k1 ? k2 : k1) : wk[w]);
            finish_all();
        }
    }
    void c03() {
        begin(deep() ? pick_set() : pick({{"s1a", 30}, {"s1b", 30}, {"s1c", 26}, {"s3b", 12}, {"s5b", 4}}), "asan");
        nodes(r.chance(30) ? 2 : 1, 30);
        oracle(50);
        seed_all();
        int k1 = keygen(0), k2 = r.chance(20) ? keygen(any_node()) : k1;
        std::vector<int> ws{sign(0, k1)};
        ws.push_back(sign(any_node(), r.chance(30) ? bad_sk(k1) : k2));
        int m = big_set() ? 5 : r.range(6, 16);
        for (int i = 0; i < m; i++) {
            int w = ws[r.below(ws.size())];
            int d = r.chance(12) ? w : mutant(w, ws[r.below(ws.size())]);
            for (int j = (int)r.below(3); j > 0; j--) d = mutant(d, ws[r.below(ws.size())]);
            int k = r.chance(45) ? bad_pk(wk[w]) : wk[w];
            if (r.chance(20)) k = bad_pk(k);
            open(any_node(), d, k);
            finish_all();
        }
    }
    void c04() {
        begin(pick_set(), "pre");
        bool both = r.chance(big_set() ? 40 : 50);
        if (both) node("ref"), node("avx2");
        else nodes(1, 40);
        oracle(55);
        seed_all();
        if (both) {   // the same life on both replicas
            uint64_t s = mix64(base ^ 5);
            o << "seed 0 " << s << "\nseed 1 " << s << "\n";
        }
        int k0 = keygen(0), k1 = both ? keygen(1) : k0;
        size_t len = msg_len();
        int sk = r.chance(15) ? bad_sk(k0) : k0;
        int w0 = sign(0, sk, (long)len), w1 = both ? sign(1, k1, (long)len) : w0;
        wk[w0] = k0;
        int m = big_set() ? 3 : r.range(3, 9);
        for (int i = 0; i < m; i++) {
            int w = r.chance(50) ? w0 : w1, w2 = w == w0 ? w1 : w0;
            int d = r.chance(15) ? w : mutant(w, w2);
            int k = r.chance(25) ? bad_pk(k0) : k0;
            if (both && r.chance(30)) open(0, d, k), open(1, d, k);
            else open(any_node(), d, k);
            finish_all();
        }
    }
    // the NEON build against the reference build: each call of the one is executed again by the other
    void c23() {
        begin(pick_set(), "pre");
        node("neon");
        if (r.chance(50)) node("ref");
        if (r.chance(20)) node("neon");
        o << "twin ref\n";
        garbage = r.chance(30);
        oracle(55);
        seed_all();
        int k0 = keygen(0), k1 = r.chance(50) ? keygen(any_node()) : k0, k = r.chance(15) ? bad_sk(k0) : k0;
        size_t len = msg_len();
        int w0 = sign(0, k, (long)len), w1 = big_set() || r.chance(50) ? w0 : sign(any_node(), k1);
        wk[w0] = k0;
        int m = big_set() ? 2 : r.range(3, 8);
        for (int i = 0; i < m; i++) {
            int w = r.chance(50) ? w0 : w1;
            open(any_node(), r.chance(25) ? w : mutant(w, w == w0 ? w1 : w0), r.chance(10) ? k1 : wk[w]);
            finish_all();
        }
        finish_all();
    }
    void c05() {
        begin(pick_set(), "pre");
        nodes(r.chance(30) ? 2 : 1, 30);
        garbage = true;
        thread_pct = r.chance(30) ? 30 : 0;
        oracle(30);
        seed_all();
        int k = keygen(0), steps = big_set() ? 4 : r.range(4, 9);
        std::vector<int> ks{k}, ws;
        for (int i = 0; i < steps; i++) {
            switch (r.below(4)) {
            case 0: ks.push_back(keygen(any_node())); break;
            case 1: ws.push_back(sign(any_node(), ks[r.below(ks.size())])); break;
            default:
                if (ws.empty()) { ws.push_back(sign(any_node(), ks[r.below(ks.size())])); break; }
                int w = ws[r.below(ws.size())];
                int d = r.chance(50) ? w : mutant(w, ws[r.below(ws.size())]);
                open(any_node(), d, r.chance(15) ? bad_pk(wk[w]) : wk[w]);
            }
            finish_all();
        }
    }
    // many calls, each stopped once or twice at a chosen place; there others run (C06), or it is cancelled (C07)
    void drill() {
        const bool cancel = prop == "C07";
        begin(deep() ? pick_set() : r.chance(60) ? Str("sk") : pick_set(), "pre");
        nodes(1, 40);
        if (r.chance(25)) oracle(50);
        seed_all();
        int k1 = keygen(0), k2 = keygen(0), w1 = sign(0, k1), w2 = sign(0, k2);
        finish_all();
        auto stop = [&](int t) { o << "block " << t << " " << r.below(100000) << " " << (r.chance(40) ? r.below(4) : r.next() >> 20) << "\n"; };
        auto call = [&](int kind) {
            if (kind == 0) keygen(0);
            else if (kind == 1) sign(0, r.chance(50) ? k1 : k2, (long)r.below(60));
            else { int w = r.chance(50) ? w1 : w2; open(0, r.chance(20) ? mutant(w, w1) : w, r.chance(10) ? bad_pk(wk[w]) : wk[w]); }
            live.clear();
            return tid;
        };
        int rounds = big_set() ? 3 : r.range(6, 10);
        for (int i = 0; i < rounds; i++) {
            int kind = (int)r.below(3), a = call(kind);
            stop(a);
            int c = r.chance(30) ? 2 : 1;
            if (cancel) {
                if (r.chance(30)) { int b = call((int)r.below(3)); stop(b); o << "kill " << a << "\nrun " << b << " 0\n"; }
                else o << "kill " << a << "\n";
                call(r.chance(60) ? kind : (int)r.below(3));
                o << "run " << tid << " 0\n";
                continue;
            }
            for (int j = 0; j < c; j++) {
                int b = call(r.chance(60) ? kind : kind == 2 ? 1 : kind == 1 ? 2 : (int)r.below(3));
                if (r.chance(40)) {
                    stop(b);
                    if (r.chance(50)) stop(a);
                    if (r.chance(50)) o << "run " << a << " 0\n";
                }
                o << "run " << b << " 0\n";
                if (r.chance(50)) stop(a);
            }
            o << "run " << a << " 0\n";
        }
    }
    void c06() {
        if (r.chance(60)) return drill();
        begin(pick_set(), "pre");
        rare_pct = r.chance(60) ? 50 : 0;
        nodes(1, 25);
        if (r.chance(20)) node(impl[0] == "ref" ? "avx2" : "ref");
        garbage = r.chance(30);
        oracle(25);
        seed_all();
        int k1 = keygen(0), k2 = keygen(0);
        interleave(4);
        int w1 = sign(0, k1), w2 = sign(0, k2);
        if (r.chance(30)) keygen(0);
        interleave(r.range(8, 24));
        int d1 = r.chance(30) ? mutant(w1, w2) : w1, d2 = r.chance(20) ? mutant(w2, w1) : w2;
        if (!big_set()) sign(any_node(), k1);
        open(any_node(), d1, k1);
        open(0, d2, k2);
        if (r.chance(30)) keygen(0);
        interleave(r.range(8, 30));
        finish_all();
    }
    void c07() {
        if (r.chance(35)) return drill();
        begin(pick_set(), "pre");
        rare_pct = r.chance(60) ? 45 : 0;
        nodes(r.chance(30) ? 2 : 1, 25);
        garbage = r.chance(30);
        oracle(25);
        seed_all();
        int k1 = keygen(0);
        finish_all();
        int rounds = big_set() ? 2 : r.range(2, 4);
        std::vector<int> ws;
        for (int i = 0; i < rounds; i++) {
            int nd = any_node();
            std::vector<int> torn;
            int c = r.range(1, 3);
            for (int j = 0; j < c; j++) {
                int q = (int)r.below(10);
                if (q < 2) keygen(nd);
                else if (q < 6 || ws.empty()) { sign(nd, k1); torn.push_back(tid); }
                else open(nd, ws[r.below(ws.size())], k1);
            }
            interleave(r.range(3, 10), 25);
            if (r.chance(35)) {
                o << "crash " << nd << "\n";
                live.clear();
                seed_node(nd);
            } else if (r.chance(50)) {
                for (auto &l : live) o << "kill " << l.first << "\n";
                live.clear();
            } else finish_all();
            for (int t : torn)
                if (r.chance(60)) {
                    size_t l = 0;
                    for (auto &x : wl) (void)x;
                    l = (size_t)sig_len(si(), (int)r.below((uint64_t)si().MAXS + 1)) + (r.chance(50) ? 0 : r.below(200));
                    o << "torn s" << ++nw << " " << t << " " << l + msg_hint(t) << "\n";
                    int d = nw;
                    if (r.chance(70)) { o << "mut s" << ++nw << " s" << d << " count " << r.below((uint64_t)si().MAXS + 1) << "\n"; d = nw; }
                    open(any_node(), d, k1);
                    finish_all();
                }
            // life goes on
            int w = sign(nd, k1);
            finish_all();
            open(any_node(), w, k1);
            finish_all();
            ws.push_back(w);
        }
    }
    size_t msg_hint(int) { return wl.count(nw - 1) ? wl[nw - 1] : 0; }
    void c08() {
        begin(pick_set(), "pre");
        rare_pct = r.chance(60) ? 20 : 0;
        nodes(r.range(1, 3), 25);
        thread_pct = r.chance(40) ? 30 : 0;
        oracle(25);
        if (r.chance(40)) { static const size_t L[] = {16, 24, 48, 64, 100, 136, 168, 200, 255, 256, 300, 1000}; near_len = L[r.below(12)]; }
        seed_all();
        int k1 = keygen(0), k2 = keygen(any_node());
        if (r.chance(40)) interleave(4);
        int c = big_set() ? 2 : r.range(2, 5);
        std::vector<int> ws;
        for (int i = 0; i < c; i++) {
            ws.push_back(sign(any_node(), r.chance(50) ? k1 : k2, r.chance(50) ? 33 : -1));
            if (r.chance(40)) interleave(5); else finish_all();
            if (r.chance(20)) { int nd = any_node(); o << "crash " << nd << "\n"; live.clear(); seed_node(nd); }
            if (r.chance(30)) { open(any_node(), ws[r.below(ws.size())], k1); if (r.chance(50)) finish_all(); }
            if (r.chance(20)) keygen(any_node());
        }
        finish_all();
    }
    void c09() {
        begin(pick_set(), "pre");
        rare_pct = r.chance(60) ? 20 : 0;
        nodes(1, 25);
        garbage = r.chance(30);
        oracle(75);
        seed_all();
        int k = keygen(0), c = big_set() ? 2 : impl[0] == "ref" ? 3 : r.range(3, 8);
        for (int i = 0; i < c; i++) sign(0, k, (long)r.below(50));
        if (r.chance(25)) interleave(10);
        finish_all();
    }
    void c10() {
        begin(pick_set(), "pre");
        rare_pct = r.chance(60) ? 20 : 0;
        nodes(r.chance(30) ? 2 : 1, 30);
        garbage = true;
        oracle(60);
        seed_all();
        int k = keygen(0), c = big_set() ? 1 : r.range(1, 4);
        for (int i = 0; i < c; i++) {
            int w = sign(any_node(), k);
            if (r.chance(30)) interleave(3);
            open(any_node(), w, k);
            finish_all();
        }
    }
    void c14() {
        begin(pick_set(), "pre");
        nodes(1, 30);
        int stall = r.chance(70) ? (int)r.below(r.chance(20) ? 60000 : 4000) : 0, unl = r.chance(70) ? (int)r.below(r.chance(20) ? 30000 : 2000) : 0;
        if (r.chance(40)) stall = unl = 0;
        o << "oracle chal=" << (r.chance(50) ? (int)r.below(CHAL_MODES) : 0) << " seed=" << (r.next() >> 20) << " stall=" << stall << " unlucky=" << unl << "\n";
        seed_all();
        int k = keygen(0), w = sign(0, k);
        open(0, w, k);
        int m = big_set() ? 1 : impl[0] == "ref" ? 3 : 8;
        for (int i = 0; i < m; i++) { int d = mutant(w, w); open(0, d, r.chance(40) ? bad_pk(k) : k); }
        finish_all();
    }
    void c11() {
        Str s = pick({{"s1a", 50}, {"s3b", 25}, {"s5b", 25}});
        begin(s, "pre");
        node("ref"), node("avx2");
        seed_all();
        static const char *ALG[] = {"shake128", "shake256", "sha3_256", "sha3_384", "sha3_512", "csprng", "platform"};
        static const int RATE[] = {168, 136, 136, 104, 72, 168, 168};
        int slots = r.range(1, 5);
        std::vector<int> alg(slots), stage(slots, 0);
        int steps = r.range(10, 60);
        auto amount = [&](int a) -> size_t {
            int q = RATE[a];
            if (a >= 5) q = s == "s1a" ? 168 : 136;
            switch (r.below(9)) {
            case 0: return 0;
            case 1: return 1;
            case 2: return (size_t)q;
            case 3: return (size_t)(q - 1 + (int)r.below(3));
            case 4: return (size_t)(q * r.range(1, 5));
            case 5: return (size_t)(q * r.range(1, 5) + r.range(-9, 9));
            case 6: return r.below(8);
            case 7: return r.below(5000);
            default: return r.below((uint64_t)q);
            }
        };
        for (int i = 0; i < steps; i++) {
            int x = (int)r.below((uint64_t)slots);
            if (r.chance(8)) {
                int a = (int)r.below(5);
                o << "h.oneshot " << r.below(2) << " " << ALG[a] << " " << amount(a) << " " << amount(a) << " " << r.below(100000) << " " << r.below(8) << "\n";
                continue;
            }
            if (stage[x] == 0 || r.chance(4)) {
                alg[x] = (int)r.below(7);
                o << "h.init " << x << " " << r.below(2) << " " << ALG[alg[x]];
                if (alg[x] >= 5) o << " " << (r.chance(50) ? 48 : amount(alg[x])) << " " << r.below(100000);
                else o << " 0 " << r.below(100000);
                o << "\n";
                stage[x] = alg[x] >= 5 ? 2 : 1;
            } else if (stage[x] == 1) {
                if (r.chance(75)) o << "h.absorb " << x << " " << amount(alg[x]) << " " << r.below(100000) << "\n";
                else { o << "h.final " << x << "\n"; stage[x] = alg[x] < 2 ? 2 : 0; }
            } else {
                o << "h.squeeze " << x << " " << amount(alg[x]) << "\n";
                if (r.chance(4)) stage[x] = 0;
            }
        }
        for (int x = 0; x < slots; x++)
            if (stage[x] == 1) { o << "h.final " << x << "\n"; if (alg[x] < 2) o << "h.squeeze " << x << " 200\n"; }
    }
    void call(int kind, int k, int k2, int w) {
        if (kind == 0) keygen(0);
        else if (kind == 1) sign(0, r.chance(70) ? k : k2, (long)r.below(70));
        else if (kind == 2) open(0, w, wk[w]);
        else open(0, mutant(w, w), r.chance(10) && prop == "C05" ? bad_pk(k) : wk[w]);
    }
    void history(bool longer) {
        seed_all();
        int k1 = keygen(0), k2 = keygen(0);
        finish_all();
        int w = sign(0, k1);
        finish_all();
        // each kind of call more than 256 times
        int kind_n[4] = {longer ? 280 : 4, longer ? 280 : 6, longer ? 280 : 3, longer ? 420 : 3};
        if (longer && impl[0] == "ref" && prop != "C01") for (auto &x : kind_n) x = x > 280 ? 400 : 140;
        int left = 0;
        for (int x : kind_n) left += x;
        for (; left; left--) {
            int v = (int)r.below((uint64_t)left), kind = 0;
            while ((v -= kind_n[kind]) >= 0) kind++;
            kind_n[kind]--;
            int before = nw;
            call(kind, k1, k2, w);
            if (prop == "C07" && r.chance(50)) {     // every other call is abandoned
                o << "block " << tid << " " << r.below(100000) << " " << (r.chance(40) ? r.below(4) : r.next() >> 20) << "\nkill " << tid << "\n";
                live.clear();
                continue;
            }
            finish_all();
            if (kind == 1 && nw > before) w = nw;
        }
        call(0, k1, k2, w), finish_all();
        call(1, k1, k2, w), finish_all();
        open(0, nw, wk[nw]), finish_all();
    }
    void crowd() {
        seed_all();
        int k1 = keygen(0), k2 = keygen(0), w1 = sign(0, k1), w2 = sign(0, k2);
        finish_all();
        static const int SIZE[] = {9, 17, 33, 40, 65};
        for (int i = 0; i < 5; i++) {
            int only = r.chance(40) ? (int)r.below(4) : -1;
            for (int j = 0; j < SIZE[i]; j++) call(only >= 0 ? only : (int)r.below(4), k1, k2, r.chance(50) ? w1 : w2);
            for (auto &l : live) o << "run " << l.first << " " << 1 + r.below(r.chance(50) ? 2000 : l.second / 2 + 2) << "\n";
            interleave(SIZE[i]);
            for (size_t j = live.size(); j > 1; j--) std::swap(live[j - 1], live[r.below(j)]);
            finish_all();
        }
    }
    void shapes() {
        seed_all();
        bool big = si().cat != 1;
        int n = big ? 6 : impl[0] == "ref" ? 5 : 16;
        if (prop == "C10") garbage = true;
        int k = keygen(0);
        finish_all();
        for (int i = 0; i < n; i++) {
            int m = n >= 16 ? i % CHAL_MODES : i < 3 ? (int[]){CHAL_BEST, CHAL_SUFFIX, CHAL_PREFIX}[i] : CHAL_SPREAD + (i - 3) % 3;
            o << "oracle chal=" << m << " seed=" << (r.next() >> 20) << "\n";
            int x = sign(0, k, (long)r.below(100));
            if (prop != "C09") open(0, x, k);
            finish_all();
        }
    }
    void special(const Special &s) {
        begin(s.set, s.flav);
        node(s.impl);
        Str w = s.what;
        if (w.compare(0, 5, "long ") == 0) {
            o << "h.long 0 " << w.substr(5) << " " << (1ULL << 32) + 5 + r.below(3000000) << " " << r.below(100000) << "\n";
            return;
        }
        if (w == "many") {
            static const char *A[] = {"platform", "csprng", "shake128", "shake256"};
            for (int j = 0; j < 4; j++) {
                o << "h.init " << j << " 0 " << A[j] << (j < 2 ? " 48 " : " 0 ") << r.below(100000) << "\n";
                if (j > 1) o << "h.absorb " << j << " " << r.below(3) << " 5 70000\nh.final " << j << "\n";
                o << "h.squeeze " << j << " " << 1 + r.below(3) << " 70000\nh.squeeze " << j << " 5000\n";
            }
            return;
        }
        if (w == "marathon" || w == "history") return history(w == "marathon");
        if (w == "crowd") return crowd();
        if (w == "shapes") return shapes();
        if (w == "huge") {
            // 4 GiB and a bit: lengths that do not fit 32 bits. The message hash is replaced by a digest of (length, samples)
            unsigned long long L = (1ULL << 32) + 5 + r.below(100000);
            o << "oracle longhash=1\n";
            seed_all();
            o << "op 1 0 keygen k1\nop 2 0 sign s1 k1 alias=" << L << "\nop 3 0 open s1 k1\nrun 3 0\nmut s2 s1 aliascut\nop 4 0 open s2 k1\nrun 4 0\n";
            return;
        }
        if (w == "bulk") {   // messages larger than the stack
            seed_all();
            int k = keygen(0), x = sign(0, k, (long)((12u << 20) + r.below(8u << 20)));
            open(0, x, k);
            finish_all();
            static const char *M[] = {"trunc 1", "head 1", "head 3000000", "dup 100 2000000", "extend 9000000 7", "count 255", "keep 11000000"};
            for (const char *m : M) { o << "mut s" << ++nw << " s" << x << " " << m << "\n"; wk[nw] = k; open(0, nw, k); finish_all(); }
            sign(0, k, 40);
            finish_all();
            return;
        }
        o << "oracle chal=" << CHAL_WORST << " seed=" << (r.next() >> 20) << "\n";
        seed_all();
        if (w.compare(0, 4, "twin") == 0) o << w << "\n";
        int k = keygen(0), x = sign(0, k, w == "round" ? -1 : (long)r.below(200));
        if (w.compare(0, 4, "twin") == 0) {
            if (si().cat != 5) open(0, mutant(x, x), k);
            if (Str(s.set) != "5B") open(0, x, k);
            finish_all();
            return;
        }
        if (w == "tamper" || w == "hostile") {
            int k2 = w == "hostile" ? bad_pk(k) : keygen(0), x2 = sign(0, w == "hostile" && r.chance(50) ? bad_sk(k) : k);
            finish_all();
            int m = si().cat == 1 && impl[0] == "avx2" ? 24 : si().cat == 5 || impl[0] == "ref" ? 8 : 12;
            for (int i = 0; i < m; i++) {
                int y = r.chance(50) ? x : x2, d = mutant(y, y == x ? x2 : x);
                if (r.chance(w == "hostile" ? 50 : 15)) d = mutant(d, x2);
                open(0, d, r.chance(w == "hostile" ? 40 : 8) ? (w == "hostile" ? bad_pk(k) : k2) : k);
                finish_all();
            }
            return;
        }
        if (w != "disclose") open(0, x, k);
        finish_all();
        if (w == "round" && Str(s.set) != "5S" && Str(s.set) != "5B" && Str(s.impl) == "avx2") {   // and once with the real challenge
            o << "oracle\n";
            x = sign(0, k);
            open(0, x, k);
            finish_all();
        }
        if (w == "model") { o << "oracle\n"; x = sign(0, k); open(0, mutant(x, x), k); open(0, x, k); finish_all(); }
    }
};

static std::vector<Special> specials(const Str &prop, const Str &tier) {
    std::vector<Special> v;
    for (auto &s : SPECIAL) if (prop == s.prop && (tier == "thorough" || tier == s.tier)) v.push_back(s);
    return v;
}
static Str generate(const Str &prop, uint64_t seed, const Str &tier, long idx) {
    G g(prop, tier, seed, idx);
    auto sp = specials(prop, tier);
    if (idx < (long)sp.size()) { g.special(sp[idx]); return g.o.str(); }
    if (prop == "C01") g.c01();
    else if (prop == "C02") g.c02();
    else if (prop == "C03") g.c03();
    else if (prop == "C04") g.c04();
    else if (prop == "C05") g.c05();
    else if (prop == "C06") g.c06();
    else if (prop == "C07") g.c07();
    else if (prop == "C08") g.c08();
    else if (prop == "C09") g.c09();
    else if (prop == "C10") g.c10();
    else if (prop == "C11") g.c11();
    else if (prop == "C14") g.c14();
    else if (prop == "C23") g.c23();
    else die("no generator for " + prop);
    return g.o.str();
}
// builds a tier needs, as impl.set.flavour; plus the number of special plans
static Str needs(const Str &prop, const Str &tier) {
    std::set<Str> b;
    bool deep = tier == "thorough";
    for (auto &s : specials(prop, tier)) {
        b.insert(Str(s.impl) + "." + s.set + "." + s.flav);
        if (Str(s.what) == "twin") b.insert(Str(Str(s.impl) == "ref" ? "avx2" : "ref") + "." + s.set + "." + s.flav);
        else if (Str(s.what).compare(0, 5, "twin ") == 0) b.insert(Str(s.what).substr(5) + "." + s.set + "." + s.flav);
    }
    std::vector<Str> sets = {"s1a", "s1b", "s1c", "s3b", "s5b"};
    if (deep) sets.insert(sets.end(), {"sk", "s3a", "s5a"});
    std::vector<Str> fl = {"pre"};
    if (prop == "C03") fl = {"asan"};
    if (prop == "C06" || prop == "C07") sets.push_back("sk");
    if (prop == "C11") sets = {"s1a", "s3b", "s5b"};
    for (auto &s : sets) for (auto &f : fl) for (auto i : {"ref", prop == "C23" ? "neon" : "avx2"}) b.insert(Str(i) + "." + s + "." + f);
    Str out = fmt("%zu", specials(prop, tier).size());
    for (auto &x : b) out += " " + x;
    return out;
}
