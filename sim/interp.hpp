// Plan interpreter and oracles.
#pragma once
#include <sstream>
#include <sys/syscall.h>
#ifndef MFD_CLOEXEC
#define MFD_CLOEXEC 1U
#endif

static uint8_t g_cov[65536], g_allcov[65536];
struct lsim_ctl lsim_ctl = {INT64_MAX, 0, g_cov, 0, 0, nullptr, nullptr, 0, 0, 0, nullptr, nullptr, nullptr};
static long g_cur_idx = -1;
static uint64_t g_hash;       // of the events so far
static char g_crash_ctx[256] = "outside any operation";

struct Result {
    bool bad = false;
    Str what, trace;
    uint64_t hash = 0, ticks = 0, sched = 0;
    long ops = 0, opens = 0, slices = 0, new_edges = 0;
    std::map<Str, long> count;
};

static void crash_report(const char *how) {
    char b[512];
    int n = snprintf(b, sizeof b, "\nRES %ld BAD hash=%016llx what=crash: %s while executing %s\nVERDICT violation hash=%016llx crash: %s while executing %s\n", g_cur_idx,
                     (unsigned long long)mix64(g_hash ^ lsim_ctl.ticks), how, g_crash_ctx, (unsigned long long)mix64(g_hash ^ lsim_ctl.ticks), how, g_crash_ctx);
    fflush(stdout);
    if (write(1, b, (size_t)n)) {}
}
static void on_signal(int sig, siginfo_t *, void *) {
    if (!g_cur && !strncmp(g_crash_ctx, "outside", 7)) {
        char m[] = "lsim: crash in the simulator itself\n";
        if (write(2, m, sizeof m - 1)) {}
        _exit(9);
    }
    const char *n = sig == SIGSEGV ? "invalid memory access" : sig == SIGBUS ? "bus error" : sig == SIGFPE ? "arithmetic fault" : sig == SIGILL ? "illegal instruction" : "abort";
    crash_report(n);
    _exit(7);
}
#ifdef LSIM_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char *__asan_get_report_description();
extern "C" int __asan_report_present();
static void on_death() {
    if (__asan_report_present()) {
        if (!strncmp(g_crash_ctx, "outside", 7)) return;
        Str s = Str("sanitizer report (") + __asan_get_report_description() + ")";
        crash_report(s.c_str());
        _exit(7);
    }
}
extern "C" const char *__asan_default_options() { return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:use_sigaltstack=0"; }
#endif
static void install_handlers() {
    static uint8_t *alt = (uint8_t *)mmap(nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt, ss.ss_size = 1 << 18;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
#ifdef LSIM_ASAN
    __sanitizer_set_death_callback(on_death);
#endif
    lsim_ctl.slow = slow_tick;
    lsim_ctl.xof_pre = xof_pre;
    lsim_ctl.xof_post = xof_post;
}

// ----------------------------------------------------------------------------------------------------------- plan state
struct Node { Inst *in = nullptr; bool up = false; int lives = 0; };
struct Key { Bytes pk, sk; int from = -1; bool ready = false, damaged = false, sk_damaged = false; };
struct Wire { Bytes sm, msg; int key = -1, from = -1; bool ready = false, honest = false; size_t alias = 0; Bytes tape; int n = 0; };
struct HashCtx { Inst *in = nullptr; int alg = 0; std::unique_ptr<GBuf> mem; Sponge ref{168, 0}; int phase = 0; bool csprng = false, platform = false; size_t in_n = 0, out_n = 0; };

enum : unsigned {
    CK_HONEST = 1, CK_AUTH = 2, CK_MODEL = 4, CK_ISO = 8, CK_FRESH = 16, CK_DISCLOSE = 32, CK_BUF = 64, CK_PROGRESS = 128, CK_HASH = 256, CK_TAPE = 512
};
static unsigned flags_of(const Str &p) {
    if (p == "C01") return CK_HONEST | CK_PROGRESS;
    if (p == "C02") return CK_AUTH | CK_PROGRESS;
    if (p == "C03") return CK_BUF | CK_PROGRESS;
    if (p == "C04") return CK_MODEL | CK_PROGRESS;
    if (p == "C05") return CK_ISO | CK_PROGRESS;
    if (p == "C06") return CK_ISO | CK_PROGRESS;
    if (p == "C07") return CK_ISO | CK_HONEST | CK_AUTH | CK_PROGRESS;
    if (p == "C08") return CK_FRESH | CK_PROGRESS;
    if (p == "C09") return CK_DISCLOSE | CK_PROGRESS;
    if (p == "C10") return CK_BUF | CK_TAPE | CK_PROGRESS;
    if (p == "C11") return CK_HASH;
    if (p == "C14") return CK_PROGRESS;
    if (p == "C23") return CK_MODEL;
    die("unknown property " + p);
}

struct Alias {   // L bytes of message: one 2 MiB file mapped again and again, then private memory
    static const size_t C = 2u << 20;
    uint8_t *p = nullptr;
    size_t L, cap;
    static int fd() {
        static int f = -1;
        if (f < 0) {
            f = (int)syscall(SYS_memfd_create, "lsim", MFD_CLOEXEC);
            if (f < 0 || ftruncate(f, C)) die("memfd");
        }
        return f;
    }
    static void fill() {
        Bytes b(C);
        Rng r(4242);
        r.fill(b.data(), C);
        if (pwrite(fd(), b.data(), C, 0) != (ssize_t)C) die("memfd write");
    }
    Alias(size_t L_, size_t tail) : L(L_) {
        size_t whole = L / C * C, rest = (L - whole + tail + 4095) & ~(size_t)4095;
        cap = whole + rest;
        p = (uint8_t *)mmap(nullptr, cap + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) die("mmap alias");
        for (size_t o = 0; o < whole; o += C)
            if (mmap(p + o, C, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd(), 0) == MAP_FAILED) die("mmap chunk");
        mprotect(p + whole, rest, PROT_READ | PROT_WRITE);
        Bytes b(C);
        if (pread(fd(), b.data(), C, 0) != (ssize_t)C) die("memfd read");
        memcpy(p + whole, b.data(), L - whole);
    }
    ~Alias() { if (p) munmap(p, cap + 4096); }
};

// Upper bound on the simulated time of one operation; see DESIGN.md (about 25 times what the unchanged tree needs)
static uint64_t tick_bound(Inst *in, Kind k, uint64_t extra);

struct Sim {
    Str prop;
    unsigned ck = 0;
    Result r;
    bool keep_trace;
    std::map<int, Node> nodes;
    std::map<int, Key> keys;
    std::map<int, Wire> wires;
    std::map<int, std::unique_ptr<Op>> ops;
    std::map<int, HashCtx> hx;
    std::map<Bytes, std::set<Bytes>> signed_by;      // pk -> messages
    std::map<Bytes, Str> seen_entropy;               // salts, seeds, private seeds -> who
    Str set;
    bool seam_lost = false;
    std::map<Str, int> copies;

    Sim(bool kt) : keep_trace(kt) {}

    void ev(const Str &s) {
        g_hash = hash_bytes(s.data(), s.size(), g_hash);
        if (keep_trace) r.trace += "  " + s + "\n";
    }
    void bad(const Str &w) {
        if (r.bad) return;
        r.bad = true;
        r.what = w;
        ev("VIOLATION " + w);
    }
    void n(const char *k, long v = 1) { r.count[k] += v; }

    // --------------------------------------------------------------------------------------------------- operations
    static Str h64(const Bytes &b) { return fmt("%zu:%016llx", b.size(), (unsigned long long)hash_bytes(b.data(), b.size())); }
    Str name(Op *o) { return fmt("op%d(%s@%d/%s.%s)", o->tid, KIND[o->kind], o->node, o->inst->impl.c_str(), o->inst->set.c_str()); }

    void arm(Op *o, uint64_t fill, uint64_t poison) {
        const lsim_api *a = o->inst->api;
        o->b_len.alloc(8, fill ^ 5);
        o->outlen = (unsigned long long *)o->b_len.p;
        switch (o->kind) {
        case KEYGEN:
            o->b_pk.reset(new GBuf(a->pkb, fill ^ 1));
            o->b_sk.reset(new GBuf(a->skb, fill ^ 2));
            break;
        case SIGN:
            o->b_sk.reset(new GBuf(o->sk.size(), 0));
            o->b_sk->set(o->sk);
            o->b_sk->protect();
            if (o->alias_len) break;
            o->b_m.reset(new GBuf(o->msg.size(), 0));
            o->b_m->set(o->msg);
            o->b_m->protect();
            o->b_sm.reset(new GBuf(o->msg.size() + a->cryptob, fill ^ 3));
            break;
        case OPEN:
            o->b_pk.reset(new GBuf(o->pk.size(), 0));
            o->b_pk->set(o->pk);
            o->b_pk->protect();
            if (o->alias_len) break;
            o->b_sm.reset(new GBuf(o->sm.size(), 0));
            o->b_sm->set(o->sm);
            o->b_sm->protect();
            o->b_m.reset(new GBuf(o->sm.size(), fill ^ 4));
        }
        if (o->kind == OPEN) {   // digests that may be expanded into a challenge
            const Params &p = o->inst->model->p;
            const Bytes &s = o->sm;
            size_t L = s.size();
            if (L >= (size_t)p.sig_len(0)) {
                int k = s.back();
                if (L >= (size_t)p.sig_len(k)) {
                    const uint8_t *d = &s[L - p.sig_len(k) + p.off_digest()];
                    o->digests.insert(Bytes(d, d + p.H()));
                }
            }
        }
        o->poison = poison;
        prepare_fiber(o, poison_depth(o->inst), poison);
        n("ops_started");
    }
    static size_t poison_depth(Inst *in) {
        const Params &p = in->model->p;
        size_t need = (size_t)p.K * (p.N + 64) * 6 + (size_t)p.T * p.K * 8 + (size_t)p.leaves() * 2 * p.S + 65536;
        return std::min(need, STACK / 2);
    }
    void ctx_of(Op *o) { snprintf(g_crash_ctx, sizeof g_crash_ctx, "%s", name(o).c_str()); }

    // How often a plain call of each kind enters each basic block: a function of the library alone, so it may be kept across plans
    const std::vector<uint32_t> &profile(Inst *in, Kind k);
    // how often o may still enter block i
    static uint32_t left_of(Op *o, const std::vector<uint32_t> &p, size_t i) {
        uint32_t done = o->hits.empty() ? 0 : o->hits[i];
        return p[i] > done ? p[i] - done : 0;
    }
    void slice(Op *o, int64_t budget, const std::vector<uint32_t> *prof = nullptr, uint32_t rare_thr = 0, int64_t rare_n = 0) {
        if (o->st != RUNNING || r.bad) return;
        for (auto &kv : ops)
            if (kv.second.get() != o && kv.second->st == RUNNING && kv.second->inst == o->inst && kv.second->ticks) {
                kv.second->overlap++;
                o->overlap++;
            }
        uint64_t bound = tick_bound(o->inst, o->kind, (uint64_t)g_om.stall * 400 + (uint64_t)g_om.unlucky * 40 + 20 * (uint64_t)(o->msg.size() + o->sm.size()));
        int64_t left = (int64_t)(bound - o->ticks);
        bool capped = budget == 0 || budget > left;
        uint64_t before = o->ticks;
        ctx_of(o);
        std::unique_ptr<Alias> am, as;
        if (o->alias_len) {
            size_t mlen = o->kind == SIGN ? o->alias_len : o->alias_len - o->sm.size();
            Alias::fill();
            am.reset(new Alias(mlen, o->kind == SIGN ? 0 : o->sm.size()));
            as.reset(new Alias(mlen, o->inst->api->cryptob));
            o->big_m = am->p, o->big_sm = as->p;
            if (o->kind == OPEN) memcpy(as->p + mlen, o->sm.data(), o->sm.size());
            capped = true;
        }
        lsim_ctl.prof = prof ? prof->data() : nullptr, lsim_ctl.rare_thr = rare_thr, lsim_ctl.rare_n = rare_n;
        resume(o, capped ? left : budget);
        bool rare = prof && lsim_ctl.rare_n == 0;
        if (rare) n("preemptions_at_rare_blocks"), capped = false;
        snprintf(g_crash_ctx, sizeof g_crash_ctx, "outside any operation");
        r.ticks += o->ticks - before;
        r.slices++;
        r.sched = mix64(r.sched ^ ((uint64_t)o->tid << 40) ^ (o->ticks - before));
        if (o->st == DONE) {
            if (o->alias_len && o->kind == SIGN) {
                size_t c = o->inst->api->cryptob;
                o->o_sm.assign(as->p + o->alias_len, as->p + o->alias_len + c);
            }
            finish(o);
        } else if (capped) {
            bad(fmt("%s has not returned after %llu basic blocks", name(o).c_str(), (unsigned long long)o->ticks));
        } else {
            n("preemptions");
            ev(fmt("%s preempted at %llu", name(o).c_str(), (unsigned long long)o->ticks));
        }
    }
    void complete(int tid) {
        auto it = ops.find(tid);
        if (it != ops.end() && it->second->st == RUNNING) slice(it->second.get(), 0);
    }
    void collect(Op *o) {   // buffers -> results
        const lsim_api *a = o->inst->api;
        o->o_len = *o->outlen;
        switch (o->kind) {
        case KEYGEN: o->o_pk = o->b_pk->get(a->pkb), o->o_sk = o->b_sk->get(a->skb); break;
        case SIGN:
            if (o->alias_len) {
                size_t tail = o->o_len > o->alias_len ? o->o_len - o->alias_len : 0;
                o->o_sm.resize(std::min(tail, o->o_sm.size()));
                break;
            }
            if (o->o_len <= o->msg.size() + a->cryptob) o->o_sm = o->b_sm->get(o->o_len);
            break;
        case OPEN:
            if (o->alias_len) break;
            if (o->rc == 0 && o->o_len <= o->sm.size()) o->o_msg = o->b_m->get(o->o_len);
        }
    }
    void finish(Op *o) {
        collect(o);
        std::vector<uint32_t>().swap(o->hits);
        r.ops++;
        if (o->kind == OPEN) r.opens++;
        Str res;
        if (o->kind == KEYGEN) res = h64(o->o_pk) + " " + h64(o->o_sk);
        else if (o->kind == SIGN) res = h64(o->o_sm);
        else res = h64(o->o_msg);
        ev(fmt("%s done at %llu rc=%d len=%llu drew=%zu out=%s", name(o).c_str(), (unsigned long long)o->ticks, o->rc, o->rc || o->kind == KEYGEN ? 0 : o->o_len, o->draws.size(), res.c_str()));
        if (o->overlap) n("overlapped_ops");
        if (o->chal_seen && g_om.active()) n("forced_challenges");
        // the code no longer expands its challenge where the simulator can see it: forced challenges had no effect
        if (o->kind == SIGN && !o->rc && !o->chal_seen && g_om.active()) seam_lost = true, n("seam_lost");
        // deliver to slots
        if (o->kind == KEYGEN) {
            Key &k = keys[o->a0];
            k.pk = o->o_pk, k.sk = o->o_sk, k.from = o->tid, k.ready = true;
        } else if (o->kind == SIGN) {
            Wire &w = wires[o->a0];
            w.msg = o->msg, w.key = o->a1, w.from = o->tid, w.honest = !keys[o->a1].sk_damaged, w.alias = o->alias_len, w.sm = o->o_sm;
            w.ready = o->rc == 0 && o->o_len <= o->msg.size() + o->alias_len + o->inst->api->cryptob;
            w.tape = o->draws;
            if (!o->alias_len) signed_by[keys[o->a1].pk].insert(o->msg);
        }
        judge(o);
    }

    // ------------------------------------------------------------------------------------------------------- oracles
    void judge(Op *o);
    void judge_honest(Op *o);
    void judge_auth(Op *o);
    void judge_model(Op *o);
    void judge_twin(Op *o);
    bool twin = false;     // judge by another implementation instead of the model
    Str twin_impl;         // which; empty: the other one of ref and avx2
    void judge_iso(Op *o);
    void judge_steps(Op *o);
    static const unsigned STEP_FACTOR = 4;
    void judge_fresh(Op *o);
    void judge_disclose(Op *o);
    void judge_buf(Op *o);
    std::unique_ptr<Op> rerun(Op *o, Inst *in, const Bytes &tape, uint64_t poison);
    bool honest_open(Op *o) { Wire &w = wires[o->a0]; return w.honest && w.key == o->a1 && !keys[o->a1].damaged; }

    // ------------------------------------------------------------------------------------------------------ commands
    bool need_key(int k) {
        auto it = keys.find(k);
        if (it != keys.end() && !it->second.ready && it->second.from >= 0) complete(it->second.from);
        return !r.bad && keys.count(k) && keys[k].ready;
    }
    bool need_wire(int k) {
        auto it = wires.find(k);
        if (it != wires.end() && !it->second.ready && it->second.from >= 0) complete(it->second.from);
        return !r.bad && wires.count(k) && wires[k].ready;
    }
    Inst *any_inst() { for (auto &kv : nodes) return kv.second.in; return nullptr; }
    void mutate(std::istringstream &in);
    void mutate_key(std::istringstream &in);
    void hash_cmd(std::istringstream &in);
    void ctx_hash(const Str &s) { snprintf(g_crash_ctx, sizeof g_crash_ctx, "%s", s.c_str()); }
    void out_hash() { snprintf(g_crash_ctx, sizeof g_crash_ctx, "outside any operation"); }
    void exec(const Str &line);
};

struct Opts {
    std::map<Str, Str> m;
    explicit Opts(std::istringstream &in) { Str t; while (in >> t) { auto e = t.find('='); if (e == Str::npos) m[t] = "1"; else m[t.substr(0, e)] = t.substr(e + 1); } }
    uint64_t u(const char *k, uint64_t d = 0) { auto it = m.find(k); return it == m.end() ? d : strtoull(it->second.c_str(), 0, 10); }
    bool has(const char *k) { return m.count(k); }
    Str s(const char *k) { return m.count(k) ? m[k] : ""; }
};
static int slotno(const Str &s) { return atoi(s.c_str() + 1); }
static Bytes make_msg(size_t len, uint64_t seed) { Bytes b(len); Rng r(seed); if (seed == 0) return b; if (seed == 1) { std::fill(b.begin(), b.end(), 0xff); return b; } r.fill(b.data(), len); return b; }

void Sim::exec(const Str &line) {
    std::istringstream in(line);
    Str c;
    if (!(in >> c) || c[0] == '#') return;
    if (c == "plan") { in >> prop; ck = flags_of(prop); return; }
    if (c == "set") { Str fl; in >> set >> fl; g_flavour = fl; g_fibers = fl != "asan"; return; }
    if (c == "node") {
        int id; Str impl;
        in >> id >> impl;
        int cp = copies[impl]++;
        if (cp > 1) die("too many nodes");
        Node &nd = nodes[id];
        nd.in = instance(impl, set, cp);
        nd.in->reset();
        nd.in->model->om = g_om;
        return;
    }
    if (c == "oracle") {
        Opts o(in);
        g_om = OracleMode();
        g_om.chal = (int)o.u("chal"), g_om.seed = o.u("seed"), g_om.pinned = o.u("pinned"), g_om.unlucky = (int)o.u("unlucky");
        g_om.mask = o.has("mask") ? (int)o.u("mask") : -1;
        g_om.stall = (int)o.u("stall");
        g_longhash = o.u("longhash");
        for (auto &kv : g_models) kv.second->om = g_om;
        if (g_om.chal) n("fault_forced_challenge");
        if (g_om.unlucky) n("fault_unlucky_challenge_words", g_om.unlucky);
        if (g_om.mask >= 0) n("fault_digest_near_collision");
        if (g_om.stall) n("fault_stalled_sampling_stream");
        ev(line);
        return;
    }
    if (c == "seed") {
        // seed material of the given length; the second form differs from the first in one bit only
        int id; uint64_t s, len = 48, at = 0;
        in >> id >> s;
        bool near = false;
        if (in >> len) near = !!(in >> at); else len = 48;
        if (!nodes.count(id)) return;
        Node &nd = nodes[id];
        Bytes e(std::min<uint64_t>(std::max<uint64_t>(len, 1), 4096));
        Rng(s).fill(e.data(), e.size());
        if (near) e[at / 8 % e.size()] ^= (uint8_t)(1u << at % 8), n("fault_nearly_equal_seeds");
        nd.in->api->seed(e.data(), (uint32_t)e.size());
        nd.up = true;
        ev(line);
        return;
    }
    if (c == "op") {
        int tid, node; Str kind, s0, s1;
        in >> tid >> node >> kind >> s0;
        if (kind != "keygen") in >> s1;
        Opts o(in);
        if (!nodes.count(node) || !nodes[node].up || ops.count(tid)) return;
        std::unique_ptr<Op> op(new Op);
        op->tid = tid, op->node = node, op->inst = nodes[node].in, op->a0 = slotno(s0);
        if (kind == "keygen") {
            op->kind = KEYGEN;
            keys[op->a0] = Key();
            keys[op->a0].from = tid;
        } else if (kind == "sign") {
            op->kind = SIGN, op->a1 = slotno(s1);
            if (!need_key(op->a1)) return;
            op->sk = keys[op->a1].sk;
            if (o.has("alias")) op->alias_len = o.u("alias"), n("huge_messages");
            else op->msg = make_msg(o.u("len"), o.u("mseed"));
            wires[op->a0] = Wire();
            wires[op->a0].from = tid;
            if (!op->alias_len) signed_by[keys[op->a1].pk].insert(op->msg);   // intent: a torn signature of it is not a forgery
        } else {
            op->kind = OPEN, op->a1 = slotno(s1);
            if (!need_wire(op->a0) || !need_key(op->a1)) return;
            op->pk = keys[op->a1].pk, op->sm = wires[op->a0].sm;
            if (wires[op->a0].alias) op->alias_len = wires[op->a0].alias + op->sm.size();
        }
        op->own_thread = o.has("thread");
        for (auto &kv : ops) op->own_thread |= kv.second->st == RUNNING && kv.second->inst == op->inst;
        if (op->own_thread) n("calls_on_other_threads");
        ops[tid] = std::move(op);
        arm(ops[tid].get(), o.u("fill", 7), o.u("poison", 0));
        if (o.u("poison")) n("fault_garbage_memory");
        return;
    }
    if (c == "twin") { twin = true; twin_impl.clear(); in >> twin_impl; return; }
    if (c == "run") {
        int tid; long long t;
        in >> tid >> t;
        auto it = ops.find(tid);
        if (it != ops.end()) slice(it->second.get(), t);
        return;
    }
    if (c == "rare") {   // up to an entry, chosen by pick, into a basic block that such a call enters at most thr times
        int tid; long long thr; uint64_t pick;
        in >> tid >> thr >> pick;
        auto it = ops.find(tid);
        if (it == ops.end() || it->second->st != RUNNING) return;
        Op *o = it->second.get();
        const std::vector<uint32_t> &p = profile(o->inst, o->kind);
        if (r.bad) return;
        uint64_t total = 0;
        for (size_t i = 0; i < p.size(); i++) if (p[i] && p[i] <= thr) total += left_of(o, p, i);
        slice(o, 0, &p, (uint32_t)std::max(1LL, thr), 1 + (int64_t)(pick % (total + 1)));
        return;
    }
    if (c == "block") {  // up to an entry, chosen by pick, into a basic block chosen by which
        int tid; uint64_t which, pick;
        in >> tid >> which >> pick;
        auto it = ops.find(tid);
        if (it == ops.end() || it->second->st != RUNNING) return;
        Op *o = it->second.get();
        const std::vector<uint32_t> &p = profile(o->inst, o->kind);
        std::vector<uint32_t> used;
        for (uint32_t i = 0; i < p.size(); i++) if (left_of(o, p, i)) used.push_back(i);
        if (used.empty()) return;
        static std::vector<uint32_t> only(1 << 17, 2);
        uint32_t b = used[which % used.size()];
        only[b] = 1;
        slice(o, 0, &only, 1, 1 + (int64_t)(pick % left_of(o, p, b)));
        only[b] = 2;
        return;
    }
    if (c == "kill") {
        int tid;
        in >> tid;
        auto it = ops.find(tid);
        if (it == ops.end() || it->second->st != RUNNING) return;
        n("fault_cancelled_operation");
        ev(fmt("%s cancelled at %llu", name(it->second.get()).c_str(), (unsigned long long)it->second->ticks));
        drop_fiber(it->second.get());
        return;
    }
    if (c == "crash") {
        int id;
        in >> id;
        if (!nodes.count(id)) return;
        Node &nd = nodes[id];
        for (auto &kv : ops)
            if (kv.second->node == id && kv.second->st == RUNNING) { n("fault_operation_lost_in_crash"); drop_fiber(kv.second.get()); }
        nd.in->reset();
        nd.up = false;
        nd.lives++;
        n("fault_node_crash");
        ev(line);
        return;
    }
    if (c == "torn") {   // what a cancelled signer had written so far, under a claimed length
        Str d; int tid; long long len;
        in >> d >> tid >> len;
        auto it = ops.find(tid);
        if (it == ops.end() || it->second->st != KILLED || it->second->kind != SIGN || !it->second->b_sm) return;
        Op *o = it->second.get();
        Bytes b = o->b_sm->get(o->b_sm->n);
        b.resize(std::min<size_t>(b.size(), (size_t)len));
        Wire &w = wires[slotno(d)];
        w = Wire();
        w.sm = b, w.msg = o->msg, w.key = o->a1, w.ready = true;
        n("fault_torn_output");
        ev(line + " " + h64(b));
        return;
    }
    if (c == "mut") return mutate(in);
    if (c == "mutkey") return mutate_key(in);
    if (c[0] == 'h' && c[1] == '.') { std::istringstream again(line); return hash_cmd(again); }
    die("bad plan line: " + line);
}

// ------------------------------------------------------------------------------------------------------- channel faults
// mut <dst> <src> <kind> <a> <b> <c>
void Sim::mutate(std::istringstream &in) {
    Str d, s, k;
    uint64_t a = 0, b = 0, c = 0;
    in >> d >> s >> k >> a >> b >> c;
    if (!need_wire(slotno(s))) return;
    Wire w = wires[slotno(s)];
    Inst *any = any_inst();
    const Params &p = any->model->p;
    Bytes o = w.sm, &m = w.sm;
    size_t L = m.size();
    int cnt = L ? m.back() : 0;
    size_t so = L >= (size_t)p.sig_len(cnt) ? L - p.sig_len(cnt) : 0;   // signature offset
    bool whole = L >= (size_t)p.sig_len(cnt);
    size_t mono = so + p.off_mono(), dig = so + p.off_digest(), seeds = so + p.off_seeds();
    Wire *other = nullptr;
    if (k == "graft" || k == "sigswap" || k == "cat") {
        if (!need_wire((int)b)) return;
        other = &wires[(int)b];
    }
    auto region = [&](uint64_t r, size_t &x, size_t &n) {
        switch (r) {
        case 0: x = 0, n = so; break;
        case 1: x = so, n = p.H(); break;
        case 2: x = mono, n = (size_t)p.W * p.mono_bytes(); break;
        case 3: x = dig, n = p.H(); break;
        case 4: x = seeds, n = (size_t)cnt * p.S; break;
        case 5: x = L - 1, n = 1; break;
        default: x = 0, n = L;
        }
        if (!whole || x + n > L) x = 0, n = L;
    };
    if (k == "flip") { size_t x, q; region(a, x, q); if (q) m[x + b % q] ^= (uint8_t)(1u << (c % 8)); }
    else if (k == "set") { size_t x, q; region(a, x, q); if (q) m[x + b % q] = (uint8_t)c; }
    else if (k == "xorrange") { size_t x, q; region(a, x, q); Rng r(b); for (size_t i = 0; i < q; i++) if (!c || r.below(100) < c) m[x + i] ^= (uint8_t)r.next(); }
    else if (k == "zero") { size_t x, q; region(a, x, q); memset(m.data() + x, (int)b, q); }
    else if (k == "trunc") m.resize(L - std::min<size_t>(L, a));
    else if (k == "head") m.erase(m.begin(), m.begin() + std::min<size_t>(L, a));
    else if (k == "keep") m.resize(std::min<size_t>(L, a));
    else if (k == "extend") { Rng r(b); for (size_t i = 0; i < a; i++) m.push_back((uint8_t)r.next()); }
    else if (k == "prefix") { Bytes q(a); Rng r(b); r.fill(q.data(), a); m.insert(m.begin(), q.begin(), q.end()); }
    else if (k == "dup") { if (L) { size_t x = a % L, q = std::min<size_t>(1 + b, L - x); Bytes t(m.begin() + x, m.begin() + x + q); m.insert(m.begin() + x, t.begin(), t.end()); } }
    else if (k == "cut") { if (L) { size_t x = a % L, q = std::min<size_t>(1 + b, L - x); m.erase(m.begin() + x, m.begin() + x + q); } }
    else if (k == "swap") { if (L) { size_t x = a % L, y = b % L; std::swap(m[x], m[y]); } }
    else if (k == "count") { if (L) m.back() = (uint8_t)a; }
    else if (k == "recount") {   // claim another number of published seeds, keeping the message
        if (whole) {
            Bytes t(m.begin(), m.begin() + seeds);
            size_t have = (size_t)cnt * p.S, want = a * p.S;
            Rng r(b);
            for (size_t i = 0; i < want; i++) t.push_back(i < have ? m[seeds + i] : (uint8_t)(c ? r.next() : 0));
            t.push_back((uint8_t)a);
            m = t;
        }
    }
    else if (k == "shift") { if (whole && so) { /* message bytes become signature bytes */ m.erase(m.begin() + (so - 1)); } }
    else if (k == "seedswap") { if (whole && cnt > 1) { size_t x = a % cnt, y = b % cnt; for (int i = 0; i < p.S; i++) std::swap(m[seeds + x * p.S + i], m[seeds + y * p.S + i]); } }
    else if (k == "seedrot") { if (whole && cnt > 1) std::rotate(m.begin() + seeds, m.begin() + seeds + p.S, m.begin() + seeds + (size_t)cnt * p.S); }
    else if (k == "monoswap") { if (whole && p.W > 1) { size_t x = a % p.W, y = b % p.W, z = p.mono_bytes(); for (size_t i = 0; i < z; i++) std::swap(m[mono + x * z + i], m[mono + y * z + i]); } }
    else if (k == "perm" || k == "coef" || k == "permswap" || k == "scale" || k == "pad") {
        if (whole) {
            uint8_t *at = &m[mono + (a % p.W) * p.mono_bytes()];
            Bytes cp(at, at + p.mono_bytes());
            Model::Bits bi(cp.data());
            std::vector<unsigned> pe(p.K), co(p.K);
            for (auto &x : pe) x = bi.get(p.nbits());
            for (auto &x : co) x = bi.get(7);
            unsigned padbits = (unsigned)(8 * p.mono_bytes() - bi.at), pad = padbits ? bi.get((int)std::min(padbits, 16u)) : 0;
            if (k == "perm") pe[b % p.K] = (unsigned)c & ((1u << p.nbits()) - 1);
            if (k == "coef") co[b % p.K] = (unsigned)c & 127;
            if (k == "permswap") { std::swap(pe[b % p.K], pe[c % p.K]); std::swap(co[b % p.K], co[c % p.K]); }
            if (k == "scale") for (auto &x : co) if (x && x < 127) x = Model::mul((int)x, (int)(1 + b % 126));
            if (k == "pad") pad ^= 1 + (unsigned)b;
            Bytes out(p.mono_bytes(), 0);
            Model::Bits bo(out.data());
            for (auto x : pe) bo.put(x, p.nbits());
            for (auto x : co) bo.put(x, 7);
            if (padbits) bo.put(pad, (int)std::min(padbits, 16u));
            memcpy(at, out.data(), out.size());
        }
    }
    else if (k == "graft") {   // region a of wire b
        int c2 = other->sm.empty() ? 0 : other->sm.back();
        if (whole && other->sm.size() >= (size_t)p.sig_len(c2)) {
            size_t o2 = other->sm.size() - p.sig_len(c2);
            Bytes t(m.begin(), m.begin() + so);
            Bytes sig1(m.begin() + so, m.end()), sig2(other->sm.begin() + o2, other->sm.end());
            auto part = [&](const Bytes &g, int n, int r) {
                size_t x[] = {0, (size_t)p.off_mono(), (size_t)p.off_digest(), (size_t)p.off_seeds(), g.size() - 1, g.size()};
                (void)n;
                return Bytes(g.begin() + x[r], g.begin() + x[r + 1]);
            };
            if (a == 5) t.assign(other->sm.begin(), other->sm.begin() + o2);
            for (int r = 0; r < 5; r++) {
                bool from2 = a != 5 && (r == (int)a || (a == 3 && r == 4));
                Bytes x = part(from2 ? sig2 : sig1, 0, r);
                t.insert(t.end(), x.begin(), x.end());
            }
            m = t;
        }
    }
    else if (k == "cat") m.insert(m.end(), other->sm.begin(), other->sm.end());
    else if (k == "random") { m.resize(a); Rng r(b); r.fill(m.data(), a); if (a && c) m.back() = (uint8_t)(c - 1); }
    else if (k == "badchal") { if (whole) { Rng r(b); r.fill(&m[dig], p.H()); } }
    else if (k == "aliascut") {   // the huge message loses 2^32 bytes in transit
        if (w.alias) {
            size_t keep = w.alias & 0xffffffffu;
            Bytes img(keep);
            Alias::fill();
            for (size_t x = 0; x < keep; x += Alias::C)
                if (pread(Alias::fd(), img.data() + x, std::min(keep - x, Alias::C), 0) < 0) die("memfd");
            img.insert(img.end(), m.begin(), m.end());
            m = img;
            w.alias = 0;
        }
    }
    else if (k == "aliasgrow") { if (w.alias) w.alias += a; o.clear(); }
    else if (k == "same") {}
    else die("bad mutation " + k);
    if (m != o || k == "aliascut") w.honest = false;
    w.from = -1;
    n(("fault_" + k).c_str());
    ev("mut " + d + " " + s + " " + k + " " + h64(m));
    wires[slotno(d)] = w;
}
// mutkey <dst> <src> <pk|sk> <kind> <a> <b>
void Sim::mutate_key(std::istringstream &in) {
    Str d, s, which, k;
    uint64_t a = 0, b = 0, c = 0;
    in >> d >> s >> which >> k >> a >> b >> c;
    if (!need_key(slotno(s))) return;
    Key q = keys[slotno(s)];
    const Params &p = any_inst()->model->p;
    Bytes &v = which == "pk" ? q.pk : q.sk;
    Bytes o = v;
    if (k == "flip") v[a % v.size()] ^= (uint8_t)(1u << b % 8);
    else if (k == "set") v[a % v.size()] = (uint8_t)b;
    else if (k == "zero") memset(v.data() + a % v.size(), (int)c, std::min<size_t>(b, v.size() - a % v.size()));
    else if (k == "random") { Rng r(a); r.fill(v.data(), v.size()); }
    else if (k == "tear") { Rng r(b); size_t x = a % v.size(); if (c == 0) memset(&v[x], 0, v.size() - x); else r.fill(&v[x], v.size() - x); }
    else if (which == "pk" && (k == "pivots" || k == "entry" || k == "zerocol" || k == "dupcol")) {
        int mi = (int)(a % (p.NK - 1));
        uint8_t *at = &v[p.S + (size_t)mi * p.rref_bytes()];
        Model &mo = *any_inst()->model;
        if (k == "pivots") {   // move one pivot: keeps the count when c == 0
            Rng r(b);
            for (int t = 0; t < 500; t++) {
                int x = (int)r.below(p.N), y = (int)r.below(p.N);
                bool px = at[x / 8] >> x % 8 & 1, py = at[y / 8] >> y % 8 & 1;
                if (px && !py) { at[x / 8] ^= (uint8_t)(1 << x % 8); if (!c) at[y / 8] ^= (uint8_t)(1 << y % 8); break; }
            }
        } else {
            Model::Dense g(p.K, p.N);
            std::vector<uint8_t> piv(p.N);
            for (int i = 0; i < p.N; i++) piv[i] = at[i / 8] >> i % 8 & 1;
            if (mo.unpack_rref(at, g)) {
                Rng r(b);
                int col = 0, col2 = 0;
                do col = (int)r.below(p.N); while (piv[col]);
                do col2 = (int)r.below(p.N); while (piv[col2] || col2 == col);
                if (k == "entry") g.row((int)r.below(p.K))[col] = (uint8_t)(c % 128);
                for (int i = 0; i < p.K; i++) {
                    if (k == "zerocol") g.row(i)[col] = 0;
                    if (k == "dupcol") g.row(i)[col] = g.row(i)[col2];
                }
                mo.pack_rref(g, piv, at);
            }
        }
    } else if (k == "same") {}
    else die("bad key mutation " + k);
    if (v != o) (which == "pk" ? q.damaged : q.sk_damaged) = true;
    q.from = -1;
    n(("fault_" + which + "_" + k).c_str());
    ev("mutkey " + d + " " + h64(q.pk) + h64(q.sk));
    keys[slotno(d)] = q;
}

// -------------------------------------------------------------------------------------------------------------- oracles
void Sim::judge(Op *o) {
    if (ck & CK_BUF) judge_buf(o);
    if (ck & CK_HONEST) judge_honest(o);
    if (ck & CK_AUTH) judge_auth(o);
    if (ck & CK_MODEL && !seam_lost) judge_model(o);
    if (ck & CK_FRESH) judge_fresh(o);
    if (ck & CK_DISCLOSE && !seam_lost) judge_disclose(o);
    if (ck & CK_ISO) judge_iso(o);
    if (ck & CK_PROGRESS) judge_steps(o);
    if (o->kind == OPEN) {
        n(o->rc == 0 ? "opens_accepted" : "opens_rejected");
        if (o->alias_len) n("huge_opens");
    }
    if (o->kind == SIGN && o->o_sm.size()) {
        int k = o->o_sm.back();
        if (k == o->inst->model->p.MAXS) n("signatures_with_max_seeds");
    }
}
void Sim::judge_honest(Op *o) {
    const Params &p = o->inst->model->p;
    if (o->kind == KEYGEN && o->rc) bad(name(o) + fmt(": key generation failed (%d)", o->rc));
    if (o->kind == SIGN) {
        if (o->rc) return bad(name(o) + fmt(": signing failed (%d)", o->rc));
        size_t ml = o->alias_len + o->msg.size();
        if (o->o_len < ml + p.sig_len(0) || o->o_len > ml + p.sig_max()) return bad(name(o) + fmt(": signed message of %llu bytes for a message of %zu", o->o_len, ml));
    }
    if (o->kind == OPEN) {
        if (!honest_open(o)) {
            if (o->rc == 0 && g_longhash && !wires[o->a0].honest) bad(name(o) + ": accepted a signature moved to a message of another length");
            return;
        }
        if (o->rc) return bad(name(o) + fmt(": rejected an undamaged signed message (op%d, key op%d)", wires[o->a0].from, keys[o->a1].from));
        size_t ml = wires[o->a0].alias + wires[o->a0].msg.size();
        if (o->o_len != ml) return bad(name(o) + fmt(": returned %llu message bytes instead of %zu", o->o_len, ml));
        if (!o->alias_len && o->o_msg != wires[o->a0].msg) return bad(name(o) + ": returned a different message");
        n("honest_round_trips");
    }
}
void Sim::judge_auth(Op *o) {
    if (o->kind != OPEN || o->rc || o->alias_len) return;
    if (o->o_len > o->sm.size()) return bad(name(o) + ": accepted with a message longer than its input");
    if (keys[o->a1].damaged) return;
    auto it = signed_by.find(o->pk);
    if (it != signed_by.end() && it->second.count(o->o_msg)) { if (!wires[o->a0].honest) n("malleated_but_same_message"); return; }
    if (g_om.mask >= 0 && !seam_lost) {   // digests collide with probability 1/256: only the reference verdict separates
        Bytes m;
        if (o->inst->model->open(o->pk, o->sm, m) != Model::REJECT) { n("real_digest_collisions"); return; }
    }
    bad(name(o) + fmt(": accepted a message of %zu bytes that was never signed under this key", o->o_msg.size()));
}
// real parameter sets too large for the model: the other implementation must agree byte for byte
void Sim::judge_twin(Op *o) {
    if (o->alias_len) return;
    Str by = twin_impl.empty() ? Str(o->inst->impl == "ref" ? "avx2" : "ref") : o->inst->impl == twin_impl ? Str("neon") : twin_impl;
    auto q = rerun(o, instance(by, set, 2), o->draws, 0);
    if (r.bad) return;
    Str with = fmt(": the %s implementation, on the same inputs and entropy, ", q->inst->impl.c_str());
    if (q->draws.size() != o->draws.size()) return bad(name(o) + with + fmt("draws %zu bytes of entropy instead of %zu", q->draws.size(), o->draws.size()));
    if ((q->rc == 0) != (o->rc == 0)) return bad(name(o) + with + fmt("returns %d instead of %d", q->rc, o->rc));
    if (o->kind == KEYGEN && (q->o_pk != o->o_pk || q->o_sk != o->o_sk)) return bad(name(o) + with + "generates other keys");
    if (o->kind == SIGN && q->o_sm != o->o_sm) return bad(name(o) + with + "makes another signed message");
    if (o->kind == OPEN && o->rc == 0 && q->o_msg != o->o_msg) return bad(name(o) + with + "recovers another message");
    n("twin_compared");
    if (o->kind == OPEN) n(o->rc == 0 ? "twin_accepts" : "twin_rejects");
}
void Sim::judge_model(Op *o) {
    if (twin) return judge_twin(o);
    Model &m = *o->inst->model;
    const Params &p = m.p;
    if (o->alias_len) return;
    if (o->kind == OPEN) {
        Bytes em;
        auto v = m.open(o->pk, o->sm, em);
        n(v == Model::ACCEPT ? "model_accepts" : v == Model::REJECT ? "model_rejects" : "model_bad_key");
        if (v == Model::BADPK) return;
        if ((v == Model::ACCEPT) != (o->rc == 0)) return bad(name(o) + fmt(": verdict %d, the scheme says %s", o->rc, v == Model::ACCEPT ? "valid" : "invalid"));
        if (o->rc == 0 && o->o_msg != em) bad(name(o) + ": recovered message differs from the scheme's");
        return;
    }
    if (o->rc) return bad(name(o) + fmt(": failed (%d)", o->rc));
    if (o->draws.size() != (size_t)3 * p.S) return bad(name(o) + fmt(": consumed %zu bytes of entropy, the scheme %d", o->draws.size(), 3 * p.S));
    Bytes pk, sk, sm;
    if (o->kind == KEYGEN) {
        m.keygen(o->draws.data(), pk, sk);
        if (pk != o->o_pk) return bad(name(o) + ": public key differs from the scheme's");
        if (sk != o->o_sk) return bad(name(o) + ": secret key differs from the scheme's");
    } else {
        m.sign(o->sk, o->msg, o->draws.data(), sm);
        if (sm == o->o_sm) return;
        size_t i = 0;
        while (i < sm.size() && i < o->o_sm.size() && sm[i] == o->o_sm[i]) i++;
        bad(name(o) + fmt(": signed message differs from the scheme's at byte %zu (lengths %zu, %zu)", i, o->o_sm.size(), sm.size()));
    }
}
std::unique_ptr<Op> Sim::rerun(Op *o, Inst *in, const Bytes &tape, uint64_t poison) {
    std::unique_ptr<Op> q(new Op);
    q->tid = o->tid, q->node = o->node, q->kind = o->kind, q->inst = in, q->a0 = o->a0, q->a1 = o->a1;
    q->msg = o->msg, q->sk = o->sk, q->pk = o->pk, q->sm = o->sm;
    q->use_tape = true, q->tape = tape;
    in->reset();
    arm(q.get(), poison * 31 + 1, poison);
    snprintf(g_crash_ctx, sizeof g_crash_ctx, "isolated re-execution of %s", name(o).c_str());
    uint64_t t = lsim_ctl.ticks;
    resume(q.get(), (int64_t)tick_bound(in, o->kind, (uint64_t)g_om.stall * 400 + (uint64_t)g_om.unlucky * 40 + 20 * (uint64_t)(o->msg.size() + o->sm.size())));
    r.ticks += lsim_ctl.ticks - t;
    snprintf(g_crash_ctx, sizeof g_crash_ctx, "outside any operation");
    n("isolated_reruns");
    if (q->st != DONE) { drop_fiber(q.get()); bad(name(o) + ": its isolated re-execution does not return"); return q; }
    collect(q.get());
    return q;
}
const std::vector<uint32_t> &Sim::profile(Inst *in, Kind k) {
    static std::map<Str, std::array<std::vector<uint32_t>, 3>> all;
    Str key = in->impl + "." + set;
    if (all.count(key)) return all[key][k];
    auto &out = all[key];
    Result keep = r;
    OracleMode om = g_om;
    g_om = OracleMode();
    uint64_t ticks = lsim_ctl.ticks;
    uintptr_t prev = lsim_ctl.prev;
    static uint8_t cov[sizeof g_cov];
    memcpy(cov, g_cov, sizeof g_cov);
    Inst *iso = instance(in->impl, set, 2);
    Op q[3];
    for (int i = 0; i < 3; i++) {
        Op *o = &q[i];
        o->kind = (Kind)i, o->inst = iso, o->use_tape = true;
        o->tape.resize(1024);
        Rng(77 + (uint64_t)i).fill(o->tape.data(), o->tape.size());
        o->msg.assign(33, 'm');
        if (i == SIGN) o->sk = q[0].o_sk;
        if (i == OPEN) o->pk = q[0].o_pk, o->sm = q[1].o_sm;
        o->hits.resize(1 << 17);
        iso->reset();
        arm(o, 5, 0);
        snprintf(g_crash_ctx, sizeof g_crash_ctx, "a plain %s", KIND[i]);
        resume(o, (int64_t)tick_bound(iso, o->kind, 1000000));
        out[i] = std::move(o->hits);
        if (o->st != DONE) { drop_fiber(o); break; }
        collect(o);
        if (o->rc || (i == SIGN && o->o_sm.empty())) break;
    }
    for (auto &v : out) v.resize(1 << 17);
    snprintf(g_crash_ctx, sizeof g_crash_ctx, "outside any operation");
    memcpy(g_cov, cov, sizeof g_cov);
    lsim_ctl.ticks = ticks, lsim_ctl.prev = prev, g_om = om, r = keep;
    return out[k];
}
// without injected streaks, no call takes much longer than a plain call of its kind in the same build
void Sim::judge_steps(Op *o) {
    if (g_om.stall || g_om.unlucky || o->alias_len || r.bad) return;
    uint64_t base = 0;
    for (uint32_t x : profile(o->inst, o->kind)) base += x;
    if (base < 1000) return;     // the plain call does not get that far: other properties say so
    uint64_t bytes = o->msg.size() + o->sm.size();
    n("steps_compared");
    if (o->ticks > STEP_FACTOR * base + 20 * bytes) bad(name(o) + fmt(": took %llu basic blocks where a plain call takes %llu", (unsigned long long)o->ticks, (unsigned long long)base));
}
void Sim::judge_iso(Op *o) {
    if (o->alias_len || r.bad) return;
    auto q = rerun(o, instance(o->inst->impl, set, 2), o->draws, 0);
    if (r.bad) return;
    Str how = o->overlap ? fmt(" (other calls ran on the same instance while it was in progress: %d slices)", o->overlap) : "";
    if (q->draws.size() != o->draws.size()) return bad(name(o) + fmt(": took %zu bytes of entropy, %zu when run alone", o->draws.size(), q->draws.size()) + how);
    if (q->rc != o->rc) return bad(name(o) + fmt(": returned %d, %d when run alone on the same inputs", o->rc, q->rc) + how);
    if (o->kind == KEYGEN && (q->o_pk != o->o_pk || q->o_sk != o->o_sk)) return bad(name(o) + ": produced other keys than when run alone on the same entropy" + how);
    if (o->kind == SIGN && q->o_sm != o->o_sm) {
        size_t i = 0;
        while (i < q->o_sm.size() && i < o->o_sm.size() && q->o_sm[i] == o->o_sm[i]) i++;
        return bad(name(o) + fmt(": produced another signed message than when run alone on the same inputs and entropy (first difference at byte %zu)", i) + how);
    }
    if (o->kind == OPEN && q->o_msg != o->o_msg) return bad(name(o) + ": recovered another message than when run alone" + how);
    n("isolation_compared");
}
static bool contains(const Bytes &hay, const uint8_t *p, size_t k) {
    if (k == 0 || hay.size() < k) return false;
    return memmem(hay.data(), hay.size(), p, k) != nullptr;
}
void Sim::judge_fresh(Op *o) {
    const Params &p = o->inst->model->p;
    if (o->kind == OPEN) {
        if (o->draws.size()) bad(name(o) + fmt(": verification consumed %zu bytes of entropy", o->draws.size()));
        return;
    }
    if (o->alias_len || o->rc) return;
    if (o->draws.size() < (size_t)3 * p.S) return bad(name(o) + fmt(": drew only %zu bytes of entropy (%d needed)", o->draws.size(), 3 * p.S));
    auto fresh = [&](const Bytes &b, const char *what) {
        bool zero = std::all_of(b.begin(), b.end(), [&](uint8_t x) { return x == b[0]; });
        if (zero) return bad(name(o) + fmt(": degenerate %s", what));
        auto it = seen_entropy.find(b);
        if (it != seen_entropy.end()) return bad(name(o) + fmt(": its %s was already used: %s", what, it->second.c_str()));
        seen_entropy[b] = fmt("%s of %s", what, name(o).c_str());
    };
    // every half-seed sized block is looked up: 8 byte blocks collide with probability < 2^-40 in a run
    if (o->kind == KEYGEN) {
        for (int i = 0; i + 8 <= 3 * p.S; i += 8) fresh(Bytes(o->o_sk.begin() + i, o->o_sk.begin() + i + 8), "secret key block");
    } else {
        size_t so = o->msg.size();
        if (o->o_sm.size() < so + (size_t)p.sig_len(0)) return;
        for (int i = 0; i + 8 <= p.H(); i += 8) fresh(Bytes(o->o_sm.begin() + so + i, o->o_sm.begin() + so + i + 8), "salt block");
        int k = o->o_sm.back();
        if (o->o_sm.size() == so + (size_t)p.sig_len(k))
            for (int i = 0; i < k; i++) { auto b = o->o_sm.begin() + so + p.off_seeds() + (size_t)i * p.S; fresh(Bytes(b, b + p.S), "published seed"); }
    }
    n("fresh_blocks_checked");
    // each byte of entropy matters: change one, the result changes, and changes wherever it should
    Rng pick(g_hash);
    size_t at = pick.below(o->draws.size());
    Bytes tape = o->draws;
    tape[at] ^= (uint8_t)(1u << pick.below(8));
    auto q = rerun(o, instance(o->inst->impl, set, 2), tape, 0);
    if (r.bad) return;
    n("entropy_bytes_probed");
    if (o->kind == KEYGEN ? (q->o_sk == o->o_sk || q->o_pk == o->o_pk) : q->o_sm == o->o_sm)
        return bad(name(o) + fmt(": byte %zu of the %zu bytes of entropy it drew has no influence on the result", at, o->draws.size()));
    if (o->kind == SIGN && q->o_sm.size() >= o->msg.size() + (size_t)p.sig_len(0) && o->o_sm.size() >= o->msg.size() + (size_t)p.sig_len(0)) {
        size_t so = o->msg.size();
        // root or salt, either way the commitment (digest) and every published seed change
        if (g_om.mask < 0 && !memcmp(&q->o_sm[so + p.off_digest()], &o->o_sm[so + p.off_digest()], p.H()))
            return bad(name(o) + fmt(": byte %zu of its entropy does not reach the commitments", at));
        if (o->o_sm.back() && q->o_sm.back() && !memcmp(&q->o_sm[so + p.off_seeds()], &o->o_sm[so + p.off_seeds()], p.S))
            return bad(name(o) + fmt(": byte %zu of its entropy does not reach the seed tree", at));
    }
}
void Sim::judge_disclose(Op *o) {
    if (o->kind == OPEN || o->rc) return;
    Model &m = *o->inst->model;
    const Params &p = m.p;
    if (o->kind == KEYGEN) {
        for (int i = 0; i + 8 <= p.H(); i++)
            if (contains(o->o_pk, &o->o_sk[i], 8)) return bad(name(o) + ": private seed bytes appear in the public key");
        for (auto &s : m.private_seeds(o->o_sk.data()))
            for (int i = 0; i + 8 <= p.H(); i += 4)
                if (contains(o->o_pk, &s[i], 8)) return bad(name(o) + ": bytes of a private monomial's seed appear in the public key");
        n("keys_scanned");
        return;
    }
    size_t so = o->msg.size();
    if (o->o_sm.size() < so + (size_t)p.sig_len(0)) return bad(name(o) + ": signed message too short");
    Bytes sig(o->o_sm.begin() + so, o->o_sm.end());
    int cnt = sig.back();
    // secrets: nothing of the private key
    for (int i = 0; i + 8 <= p.H(); i++)
        if (contains(sig, &o->sk[i], 8)) return bad(name(o) + ": private seed bytes appear in the signature");
    for (auto &s : m.private_seeds(o->sk.data()))
        for (int i = 0; i + 8 <= p.H(); i += 4)
            if (contains(sig, &s[i], 8)) return bad(name(o) + ": bytes of a private monomial's seed appear in the signature");
    // published seeds
    auto ch = m.challenge(&sig[p.off_digest()]);
    std::vector<int> nodes;
    int want = seed_cover(p, ch, &nodes);
    if ((int)sig.size() != p.sig_len(cnt) || cnt != want)
        return bad(name(o) + fmt(": publishes %d seeds in %zu bytes, its challenge calls for %d", cnt, sig.size(), want));
    // the ephemeral tree: root among the entropy drawn
    const uint8_t *salt = sig.data();
    const uint8_t *root = nullptr;
    std::vector<Bytes> t;
    for (size_t i = 0; i + p.S <= o->draws.size() && !root; i++) {
        t = m.tree(&o->draws[i], salt);
        if (nodes.empty() || !memcmp(t[nodes[0]].data(), &sig[p.off_seeds()], p.S)) root = &o->draws[i];
    }
    if (!root) return bad(name(o) + ": the first published seed is not the seed its challenge calls for");
    for (int i = 0; i < cnt; i++)
        if (memcmp(t[nodes[i]].data(), &sig[p.off_seeds() + (size_t)i * p.S], p.S))
            return bad(name(o) + fmt(": published seed %d is not the one for node %d of the tree", i, nodes[i]));
    int L = p.leaves();
    for (int i = 0; i < p.T; i++) {
        if (!ch[i]) continue;
        for (int v = L - 1 + i;; v = (v - 1) / 2) {
            for (int j = 0; j + 8 <= p.S; j += 4)
                if (contains(sig, &t[v][j], 8)) return bad(name(o) + fmt(": bytes of the seed of challenged round %d (tree node %d) are disclosed", i, v));
            if (v == 0) break;
        }
    }
    n("signatures_scanned");
    n("seeds_published", cnt);
}
void Sim::judge_buf(Op *o) {
    const lsim_api *a = o->inst->api;
    const Params &p = o->inst->model->p;
    for (GBuf *b : {o->b_m.get(), o->b_sk.get(), o->b_pk.get(), o->b_sm.get(), &o->b_len})
        if (b && !b->intact()) return bad(name(o) + ": wrote in front of a buffer");
    if (o->alias_len) return;
    if (o->kind == SIGN && (o->b_m->get(o->msg.size()) != o->msg || o->b_sk->get(o->sk.size()) != o->sk)) return bad(name(o) + ": changed its inputs");
    if (o->kind == OPEN && (o->b_sm->get(o->sm.size()) != o->sm || o->b_pk->get(o->pk.size()) != o->pk)) return bad(name(o) + ": changed its inputs");
    if (o->kind == OPEN && o->rc == 0 && (o->o_len > o->sm.size() || o->sm.size() - o->o_len < (size_t)p.sig_len(0) || o->sm.size() - o->o_len > (size_t)p.sig_max()))
        return bad(name(o) + fmt(": accepted %zu bytes and reports a message of %llu", o->sm.size(), o->o_len));
    if (o->kind == OPEN && o->rc == 0 && !std::equal(o->o_msg.begin(), o->o_msg.end(), o->sm.begin())) return bad(name(o) + ": accepted, but the message is not the one received");
    if (!(ck & CK_TAPE)) return;
    // length contract of honest calls
    if (a->pkb != (size_t)p.pk_bytes() || a->skb != (size_t)p.sk_bytes() || a->cryptob < (size_t)p.sig_max() || a->bytes0 != (size_t)p.sig_len(0))
        return bad(name(o) + fmt(": announced sizes pk=%zu sk=%zu sig<=%zu, the parameters give %d %d %d", a->pkb, a->skb, a->cryptob, p.pk_bytes(), p.sk_bytes(), p.sig_max()));
    if (o->kind == SIGN) {
        if (o->rc) return bad(name(o) + ": failed");
        if (o->o_len < o->msg.size() + p.sig_len(0) || o->o_len > o->msg.size() + a->cryptob) return bad(name(o) + fmt(": reported length %llu for a message of %zu", o->o_len, o->msg.size()));
        if (!std::equal(o->msg.begin(), o->msg.end(), o->o_sm.begin())) return bad(name(o) + ": the signed message does not start with the message");
        int k = o->o_sm.back();
        if (o->o_len != o->msg.size() + (size_t)p.sig_len(k)) return bad(name(o) + fmt(": reported length %llu does not match its %d published seeds", o->o_len, k));
    }
    if (o->kind != OPEN) {   // every byte of the announced outputs is written: same result over different garbage
        auto q = rerun(o, instance(o->inst->impl, set, 2), o->draws, 12345 + (g_hash & 0xffff));
        if (r.bad) return;
        if (q->o_len != o->o_len && o->kind == SIGN) return bad(name(o) + ": length depends on the previous contents of memory");
        if (q->o_pk != o->o_pk || q->o_sk != o->o_sk || q->o_sm != o->o_sm) return bad(name(o) + ": leaves part of its announced output unwritten (it keeps the previous contents of memory)");
    } else if (honest_open(o)) {
        if (o->rc) return bad(name(o) + ": rejected an undamaged signed message");
        if (o->o_len != wires[o->a0].msg.size()) return bad(name(o) + ": wrong message length");
    }
    n("contracts_checked");
}

static uint64_t tick_bound(Inst *in, Kind k, uint64_t extra) {
    const Params &p = in->model->p;
    uint64_t rounds = k == KEYGEN ? (uint64_t)p.NK + 1 : (uint64_t)p.T + 2;
    uint64_t per = in->set[0] == 's' && in->set[1] == '1' || in->set == "sk" ? (uint64_t)p.K * p.K * p.N * 2 : (uint64_t)p.K * p.N * 4;
    return 25 * rounds * per / 4 + 4000000 + extra;
}

// ----------------------------------------------------------------------------------------------- streaming hash commands
// h.init <slot> <node> <alg>|csprng|platform [seedlen seed] ; h.absorb <slot> <n> <seed> <misalign> ; h.final <slot> ; h.squeeze <slot> <n> [times]
void Sim::hash_cmd(std::istringstream &in) {
    Str c; int slot;
    in >> c >> slot;
    static const unsigned bits[] = {0, 0, 256, 384, 512};
    if (c == "h.init") {
        int node; Str what; size_t sl = 0; uint64_t seed = 0;
        in >> node >> what >> sl >> seed;
        if (!nodes.count(node)) return;
        HashCtx &h = hx[slot];
        h = HashCtx();
        h.in = nodes[node].in;
        const lsim_api *a = h.in->api;
        Bytes s(sl);
        Rng(seed).fill(s.data(), sl);
        ctx_hash(c + " " + what);
        if (what == "csprng" || what == "platform") {
            GBuf sb(sl, 0);
            sb.set(s);
            h.csprng = true;
            h.platform = what == "platform";
            h.ref = h.in->model->p.cat == 1 ? Sponge::shake128() : Sponge::shake256();
            if (h.platform) a->seed(sb.p, (uint32_t)sl);
            else {
                h.mem.reset(new GBuf((a->csprng_size + 63) & ~(size_t)63, seed));
                a->csprng_init(h.mem->p, sb.p, (uint32_t)sl);
            }
            h.ref.absorb(s.data(), sl);
            h.phase = 2;
            if (h.platform)
                for (auto &kv : hx) if (kv.first != slot && kv.second.platform && kv.second.in == h.in) kv.second.phase = 9;
        } else {
            h.alg = what == "shake128" ? 0 : what == "shake256" ? 1 : what == "sha3_256" ? 2 : what == "sha3_384" ? 3 : 4;
            h.ref = h.alg == 0 ? Sponge::shake128() : h.alg == 1 ? Sponge::shake256() : Sponge::sha3(bits[h.alg]);
            h.mem.reset(new GBuf((a->hash[h.alg].ctx + 63) & ~(size_t)63, seed));
            a->hash[h.alg].init(h.mem->p);
            h.phase = 1;
        }
        out_hash();
        return;
    }
    if (c == "h.long") {   // slot = node; one piece of more than 4 GiB, mapped from one small file again and again
        Str what, mode; size_t n_; uint64_t seed;
        in >> what >> mode >> n_ >> seed;
        if (!nodes.count(slot)) return;
        const lsim_api *a = nodes[slot].in->api;
        bool cs = what == "csprng" || what == "platform";
        int alg = what == "shake128" ? 0 : what == "shake256" ? 1 : what == "sha3_256" ? 2 : what == "sha3_384" ? 3 : 4;
        Sponge r0 = cs ? (nodes[slot].in->model->p.cat == 1 ? Sponge::shake128() : Sponge::shake256()) : alg == 0 ? Sponge::shake128() : alg == 1 ? Sponge::shake256() : Sponge::sha3(bits[alg]);
        Str who = what + " (" + nodes[slot].in->impl + ")";
        Alias::fill();
        Alias al(n_, 0);
        Bytes chunk(Alias::C), sd(48);
        Rng(4242).fill(chunk.data(), Alias::C);
        Rng(seed).fill(sd.data(), 48);
        GBuf mem((std::max(a->csprng_size, a->hash[alg].ctx) + 63) & ~(size_t)63, seed);
        n("hash_long");
        if (mode == "absorb" || mode == "oneshot") {
            size_t on = alg > 1 ? bits[alg] / 8 : 77;
            GBuf ob(on, 9);
            Bytes e(on);
            ctx_hash(c + " " + who);
            if (mode == "oneshot") a->hash[alg].oneshot(ob.p, on, al.p, n_);
            else {
                a->hash[alg].init(mem.p);
                a->hash[alg].absorb(mem.p, al.p, n_);
                a->hash[alg].finalize(mem.p, ob.p);
                if (alg < 2) a->hash[alg].squeeze(mem.p, ob.p, on);
            }
            out_hash();
            for (size_t i = 0; i < n_; i += Alias::C) r0.absorb(chunk.data(), std::min<size_t>(Alias::C, n_ - i));
            r0.squeeze(e.data(), on);
            ev(fmt("%s of %zu bytes -> %s", who.c_str(), n_, h64(ob.get(on)).c_str()));
            if (ob.get(on) != e) bad(fmt("%s: wrong digest of a piece of %zu bytes", who.c_str(), n_));
            return;
        }
        size_t whole = n_ / Alias::C * Alias::C;
        ctx_hash(c + " " + who);
        Bytes more(50), emore(50), tail(n_ - whole);
        if (what == "platform") { a->seed(sd.data(), 48); a->randombytes(al.p, n_); a->randombytes(more.data(), 50); }
        else if (cs) { a->csprng_init(mem.p, sd.data(), 48); a->csprng_read(al.p, n_, mem.p); a->csprng_read(more.data(), 50, mem.p); }
        else { a->hash[alg].init(mem.p); a->hash[alg].absorb(mem.p, sd.data(), 48); a->hash[alg].finalize(mem.p, nullptr); a->hash[alg].squeeze(mem.p, al.p, n_); a->hash[alg].squeeze(mem.p, more.data(), 50); }
        out_hash();
        r0.absorb(sd.data(), 48);
        for (size_t i = 0; i < whole; i += Alias::C) r0.squeeze(chunk.data(), Alias::C);
        r0.squeeze(tail.data(), tail.size());
        r0.squeeze(emore.data(), 50);
        ev(fmt("%s read of %zu bytes, then %s", who.c_str(), n_, h64(more).c_str()));
        if (memcmp(al.p, chunk.data(), Alias::C) || memcmp(al.p + whole, tail.data(), tail.size())) bad(fmt("%s: wrong bytes in a read of %zu bytes", who.c_str(), n_));
        else if (more != emore) bad(fmt("%s: wrong bytes after a read of %zu bytes", who.c_str(), n_));
        return;
    }
    if (c == "h.oneshot") {   // slot = node
        Str what; size_t n_, on; uint64_t seed, mis;
        in >> what >> n_ >> on >> seed >> mis;
        if (!nodes.count(slot)) return;
        int alg = what == "shake128" ? 0 : what == "shake256" ? 1 : what == "sha3_256" ? 2 : what == "sha3_384" ? 3 : 4;
        if (alg > 1) on = bits[alg] / 8;
        Bytes s(n_), e(on);
        Rng(seed).fill(s.data(), n_);
        GBuf ib(n_, 0), ob(on, seed);
        ib.set(s);
        ib.protect();
        ctx_hash(c + " " + what);
        nodes[slot].in->api->hash[alg].oneshot(ob.p, on, ib.p, n_);
        out_hash();
        Sponge r0 = alg == 0 ? Sponge::shake128() : alg == 1 ? Sponge::shake256() : Sponge::sha3(bits[alg]);
        r0.absorb(s.data(), n_);
        r0.squeeze(e.data(), on);
        n("hash_oneshots");
        ev(fmt("oneshot %s %zu -> %s", what.c_str(), n_, h64(ob.get(on)).c_str()));
        if (!ob.intact()) return bad(what + ": wrote in front of its output");
        if (ob.get(on) != e) bad(fmt("%s of %zu bytes (%s): wrong output of %zu bytes", what.c_str(), n_, nodes[slot].in->impl.c_str(), on));
        return;
    }
    if (!hx.count(slot)) return;
    HashCtx &h = hx[slot];
    const lsim_api *a = h.in->api;
    if (h.phase == 9) return;
    const lsim_hash &H = a->hash[h.alg];
    Str who = h.csprng ? (h.platform ? "randombytes" : "csprng_randombytes") : fmt("hash algorithm %d", h.alg);
    who += " (" + h.in->impl + ")";
    if (c == "h.absorb") {
        if (h.phase != 1) return;
        size_t n_, rep = 1; uint64_t seed;
        in >> n_ >> seed >> rep;
        for (; rep > 1 && !r.bad; rep--) {
            std::istringstream one(fmt("h.absorb %d %zu %llu", slot, n_, (unsigned long long)(seed + rep)));
            hash_cmd(one);
        }
        if (r.bad) return;
        Bytes s(n_);
        Rng(seed).fill(s.data(), n_);
        GBuf ib(n_, 0);
        ib.set(s);
        ib.protect();
        ctx_hash(c + " " + who);
        H.absorb(h.mem->p, ib.p, n_);
        out_hash();
        h.ref.absorb(s.data(), n_);
        h.in_n += n_;
        n("hash_absorbs");
        return;
    }
    if (c == "h.final") {
        if (h.phase != 1) return;
        ctx_hash(c + " " + who);
        if (h.alg < 2) { H.finalize(h.mem->p, nullptr); h.phase = 2; out_hash(); return; }
        size_t on = bits[h.alg] / 8;
        GBuf ob(on, 3);
        H.finalize(h.mem->p, ob.p);
        out_hash();
        h.phase = 3;
        Bytes e(on);
        h.ref.squeeze(e.data(), on);
        n("hash_finals");
        ev(fmt("%s final after %zu -> %s", who.c_str(), h.in_n, h64(ob.get(on)).c_str()));
        if (!ob.intact()) return bad(who + ": wrote in front of its output");
        if (ob.get(on) != e) bad(fmt("%s: wrong digest of a message of %zu bytes absorbed in pieces", who.c_str(), h.in_n));
        return;
    }
    if (c == "h.squeeze") {
        if (h.phase != 2) return;
        size_t n_, rep = 1;
        in >> n_ >> rep;
        for (; rep > 1 && !r.bad; rep--) {
            std::istringstream one(fmt("h.squeeze %d %zu", slot, n_));
            hash_cmd(one);
        }
        if (r.bad) return;
        GBuf ob(n_, 9);
        ctx_hash(c + " " + who);
        if (h.platform) a->randombytes(ob.p, n_);
        else if (h.csprng) a->csprng_read(ob.p, n_, h.mem->p);
        else H.squeeze(h.mem->p, ob.p, n_);
        out_hash();
        Bytes e(n_);
        h.ref.squeeze(e.data(), n_);
        n("hash_squeezes");
        ev(fmt("%s squeeze %zu at %zu -> %s", who.c_str(), n_, h.out_n, h64(ob.get(n_)).c_str()));
        if (!ob.intact()) return bad(who + ": wrote in front of its output");
        if (ob.get(n_) != e) bad(fmt("%s: wrong bytes when reading %zu at offset %zu of the stream", who.c_str(), n_, h.out_n));
        if (h.mem && !h.mem->intact()) return bad(who + ": wrote in front of its state");
        h.out_n += n_;
        return;
    }
    die("bad hash command " + c);
}

static Result run_plan(const Str &text, bool trace) {
    g_om = OracleMode();
    g_longhash = false;
    g_count_blocks = text.find("\nrare ") != Str::npos || text.find("\nblock ") != Str::npos;
    g_hash = 0x1e55, lsim_ctl.ticks = 0, lsim_ctl.prev = 0;
    memset(g_cov, 0, sizeof g_cov);
    for (auto &kv : g_models) kv.second->om = g_om;
    Sim s(trace);
    std::istringstream in(text);
    Str line;
    while (!s.r.bad && std::getline(in, line)) s.exec(line);
    std::vector<int> left;
    for (auto &kv : s.ops) if (kv.second->st == RUNNING) left.push_back(kv.first);
    for (int t : left) if (!s.r.bad) s.complete(t);
    for (auto &kv : s.ops) if (kv.second->st == RUNNING) drop_fiber(kv.second.get());
    for (auto &kv : s.nodes) kv.second.in->reset();
    s.r.hash = g_hash;
    for (size_t i = 0; i < sizeof g_cov; i++) if (g_cov[i] && !g_allcov[i]) g_allcov[i] = 1, s.r.new_edges++;
    return s.r;
}
