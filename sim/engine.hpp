// Simulator core: instances of the real code, fibers, guarded buffers, entropy / random oracle seam.
#pragma once
#include <array>
#include "lsim.h"
#include "model.hpp"
#include <dlfcn.h>
#include <link.h>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <sys/mman.h>
#include <unistd.h>

typedef std::string Str;
static inline Str fmt(const char *f, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
static inline Str hex(const uint8_t *p, size_t n) { Str s; for (size_t i = 0; i < n; i++) s += fmt("%02x", p[i]); return s; }
[[noreturn]] static inline void die(const Str &s) { fprintf(stderr, "lsim: %s\n", s.c_str()); _exit(9); }

// ---------------------------------------------------------------------------------------------------------------- libs
static inline void raw_copy(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
extern "C" void *__tls_get_addr(void *);
struct Inst {
    Str impl, set, path;
    void *dl = nullptr;
    const lsim_api *api = nullptr;
    struct Seg { uint8_t *at; size_t n; Bytes image; };
    std::vector<Seg> segs;
    uint8_t *tls = nullptr;
    size_t tls_n = 0, tls_mod = 0;
    Bytes tls_init;
    std::shared_ptr<Model> model;
    void reset() {
        for (auto &s : segs) raw_copy(s.at, s.image.data(), s.n);
        if (tls) memcpy(tls, tls_init.data(), tls_n);
    }
};
static Str g_libdir, g_flavour = "pre";
static bool g_fibers = true;
static std::map<Str, std::unique_ptr<Inst>> g_insts;
static std::map<Str, std::shared_ptr<Model>> g_models;

static int phdr_cb(struct dl_phdr_info *i, size_t, void *arg) {
    Inst *in = (Inst *)arg;
    if (!i->dlpi_name || in->path != i->dlpi_name) return 0;
    uintptr_t ro0 = 0, ro1 = 0, pg = 4095;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
            ro0 = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            ro1 = (ro0 + i->dlpi_phdr[k].p_memsz) & ~pg;
        }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) &h = i->dlpi_phdr[k];
        if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) {
            uintptr_t a = i->dlpi_addr + h.p_vaddr, e = a + h.p_memsz;
            if (ro1 > a && ro0 <= a) a = ro1 < e ? ro1 : e;
            if (a < e) in->segs.push_back({(uint8_t *)a, e - a, {}});
        }
        if (h.p_type == PT_TLS && h.p_memsz) {
            in->tls_n = h.p_memsz;
            in->tls_init.assign((uint8_t *)(i->dlpi_addr + h.p_vaddr), (uint8_t *)(i->dlpi_addr + h.p_vaddr) + h.p_filesz);
            in->tls_init.resize(h.p_memsz, 0);
            in->tls_mod = i->dlpi_tls_modid;
        }
    }
    return 1;
}
static std::shared_ptr<Model> model_of(const Str &set, const lsim_api *a) {
    auto &m = g_models[set];
    if (!m) {
        Params p{a->cat, a->S, a->N, a->K, a->T, a->W, a->NK, a->MAXS};
        m = std::make_shared<Model>(p);
    }
    return m;
}
static Inst *instance(const Str &impl, const Str &set, int copy) {
    Str key = impl + "." + set + "." + g_flavour + "." + fmt("%d", copy);
    auto &p = g_insts[key];
    if (!p) {
        p.reset(new Inst);
        p->impl = impl, p->set = set;
        p->path = g_libdir + "/" + key + ".so";
        p->dl = dlopen(p->path.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!p->dl) die(dlerror());
        p->api = (const lsim_api *)dlsym(p->dl, "lsim_api");
        if (!p->api) die("no lsim_api in " + p->path);
        dl_iterate_phdr(phdr_cb, p.get());
        if (p->tls_n) { unsigned long at[2] = {p->tls_mod, 0}; p->tls = (uint8_t *)__tls_get_addr(at); }    // makes this thread's block
        for (auto &s : p->segs) { s.image.resize(s.n); raw_copy(s.image.data(), s.at, s.n); }
        p->model = model_of(set, p->api);
    }
    return p.get();
}

// ----------------------------------------------------------------------------------------------------- guarded buffers
struct GBuf {   // exactly n accessible bytes up to an inaccessible page; canary in front of them
    uint8_t *map = nullptr, *p = nullptr;
    size_t n = 0, pages = 0;
    GBuf() {}
    GBuf(size_t size, uint64_t fill) { alloc(size, fill); }
    GBuf(const GBuf &) = delete;
    GBuf &operator=(const GBuf &) = delete;
#ifdef LSIM_ASAN
    ~GBuf() { free(map); }
    void alloc(size_t size, uint64_t fill) {
        n = size;
        map = p = (uint8_t *)malloc(size ? size : 1);
        if (!p) die("malloc");
        if (!size) p++;
        pattern(fill);
    }
    void protect() {}
    void unprotect() {}
    bool intact() const { return true; }
#else
    ~GBuf() { if (map) munmap(map, (pages + 2) * 4096); }
    void alloc(size_t size, uint64_t fill) {
        n = size;
        pages = (size + 64 + 4095) / 4096;
        map = (uint8_t *)mmap(nullptr, (pages + 2) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (map == MAP_FAILED) die("mmap");
        mprotect(map + 4096, pages * 4096, PROT_READ | PROT_WRITE);
        p = map + 4096 + pages * 4096 - size;
        memset(map + 4096, 0xC5, (size_t)(p - map - 4096));
        pattern(fill);
    }
    void protect() { mprotect(map + 4096, pages * 4096, PROT_READ); }
    void unprotect() { mprotect(map + 4096, pages * 4096, PROT_READ | PROT_WRITE); }
    bool intact() const { for (uint8_t *q = map + 4096; q < p; q++) if (*q != 0xC5) return false; return true; }
#endif
    void pattern(uint64_t fill) {
        Rng r(fill);
        uint64_t w = r.next();
        for (size_t i = 0; i < n; i++) { if (i % 8 == 0) w = w * 6364136223846793005ULL + 1442695040888963407ULL; p[i] = (uint8_t)(w >> (56 - i % 8)); }
    }
    void set(const Bytes &b) { if (b.size()) memcpy(p, b.data(), b.size()); }
    Bytes get(size_t k) const { return Bytes(p, p + k); }
};

// --------------------------------------------------------------------------------------------------------------- fibers
extern "C" void lsim_switch(void **save, void *load);
asm(R"(
.text
.globl lsim_switch
.type lsim_switch,@function
lsim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size lsim_switch,.-lsim_switch
)");

struct Op;
static Op *g_cur = nullptr;         // op whose code is executing
static void *g_sched_sp = nullptr;
static const size_t STACK = 8u << 20, GUARD = 64u << 20;
struct Stack { uint8_t *lo; uint8_t *map; };
static std::vector<Stack> g_stacks;
static Stack stack_get() {
    if (!g_stacks.empty()) { Stack s = g_stacks.back(); g_stacks.pop_back(); return s; }
    Stack s;
    s.map = (uint8_t *)mmap(nullptr, GUARD + STACK + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (s.map == MAP_FAILED) die("mmap stack");
    s.lo = s.map + GUARD;
    mprotect(s.lo, STACK, PROT_READ | PROT_WRITE);
    return s;
}
static void stack_put(Stack s) { madvise(s.lo, STACK, MADV_DONTNEED); g_stacks.push_back(s); }
static void poison_stack(Stack s, size_t depth, uint64_t pat) {
    uint64_t *e = (uint64_t *)(s.lo + STACK), *b = (uint64_t *)(s.lo + STACK - depth);
    if (pat == 0) { memset(b, 0, depth); return; }
    if (pat == 1) { memset(b, 0xff, depth); return; }
    uint64_t w = mix64(pat);
    for (; b < e; b++) { w = w * 6364136223846793005ULL + 1442695040888963407ULL; *b = w ^ (w >> 31); }
}

// ------------------------------------------------------------------------------------------------------------------- op
enum Kind { KEYGEN, SIGN, OPEN };
static const char *KIND[] = {"keygen", "sign", "open"};
enum State { IDLE, RUNNING, DONE, KILLED };
struct Ctx { Bytes in; size_t total = 0; Bytes over; size_t at = 0; bool is_chal = false; };
struct Op {
    int tid = 0, node = 0;
    Kind kind = KEYGEN;
    Inst *inst = nullptr;
    State st = IDLE;
    int a0 = 0, a1 = 0;                 // slots: key | sm,key
    Bytes msg, sk, pk, sm;              // inputs as given
    size_t alias_len = 0;               // >0: a message of that many bytes, mapped from one small file again and again
    std::unique_ptr<GBuf> b_m, b_sk, b_pk, b_sm;
    GBuf b_len;
    unsigned long long *outlen = nullptr;
    int rc = 0;
    Bytes draws;
    std::vector<size_t> draw_len;
    Bytes tape;                         // forced entropy (replays), else the node's own generator
    bool use_tape = false;
    size_t tape_at = 0;
    bool tape_over = false;
    bool own_thread = false;            // has thread-local data of its own (else that of the node's main thread)
    uint64_t poison = 0;
    std::map<void *, Ctx> ctx;
    std::set<Bytes> digests;
    int chal_seen = 0;
    uint64_t ticks = 0;
    int slices = 0;
    int overlap = 0;                    // other ops on the node that ran while this one was unfinished
    Stack stack{nullptr, nullptr};
    void *sp = nullptr;
    std::vector<uint32_t> hits;         // basic block counts, when asked for
    Bytes tls;
    uint8_t *big_m = nullptr, *big_sm = nullptr;   // alias mappings
    size_t big_m_n = 0, big_sm_n = 0;
    // results
    Bytes o_pk, o_sk, o_sm, o_msg;
    unsigned long long o_len = 0;
};

static OracleMode g_om;
static bool g_hook_busy = false;
static bool g_longhash = false;  // large absorbs are replaced by a digest of what they point to
static uint64_t g_draw_ops = 0;
static bool g_count_blocks = false;   // the plan preempts at chosen blocks

static void yield_to_sched() {
    Op *o = g_cur;
    lsim_switch(&o->sp, g_sched_sp);
}
static void slow_tick() {
    if (!g_cur || lsim_ctl.nopreempt > 0 || !g_fibers) { lsim_ctl.budget = 0; return; }
    yield_to_sched();
}
static bool is_platform(Op *o, void *ctx) { return ctx == o->inst->api->platform(); }
static int xof_pre(int kind, int alg, void *ctx, const void *in, void *out, size_t len) {
    Op *o = g_cur;
    if (!o || g_hook_busy) return 0;
    if (is_platform(o, ctx)) {
        if (kind == LSIM_SQUEEZE) {
            lsim_ctl.nopreempt++;
            if (o->use_tape) {
                if (o->tape_at + len > o->tape.size()) o->tape_over = true;
                for (size_t i = 0; i < len; i++) ((uint8_t *)out)[i] = o->tape_at < o->tape.size() ? o->tape[o->tape_at++] : 0xEE;
                return 1;
            }
        }
        return 0;
    }
    bool xof = alg == LSIM_SHAKE128 || alg == LSIM_SHAKE256;
    if (kind == LSIM_INIT) { o->ctx[ctx] = Ctx(); return 0; }
    auto it = o->ctx.find(ctx);
    if (it == o->ctx.end()) return 0;
    Ctx &c = it->second;
    if (kind == LSIM_ABSORB) {
        if (xof && c.in.size() < 256) c.in.insert(c.in.end(), (const uint8_t *)in, (const uint8_t *)in + std::min<size_t>(len, 256));
        c.total += len;
        if (!xof && g_longhash && len > (1u << 24)) {
            const uint8_t *p = (const uint8_t *)in;
            uint8_t d[64] = {0};
            memcpy(d, &len, 8);
            uint64_t h1 = hash_bytes(p, 1 << 16), h2 = hash_bytes(p + len - (1 << 16), 1 << 16), h3 = hash_bytes(p + len / 2, 1 << 16);
            memcpy(d + 8, &h1, 8), memcpy(d + 16, &h2, 8), memcpy(d + 24, &h3, 8);
            g_hook_busy = true;
            o->inst->api->hash[alg].absorb(ctx, d, 64);
            g_hook_busy = false;
            return 1;
        }
        return 0;
    }
    if (kind == LSIM_FINAL && xof) {
        const Params &p = o->inst->model->p;
        Bytes head(c.in.begin(), c.in.begin() + std::min<size_t>(c.in.size(), (size_t)p.H()));
        if (c.total == (size_t)p.H() && o->digests.count(head)) {
            c.is_chal = true;
            o->chal_seen++;
            if (g_om.active()) c.over = o->inst->model->forced_stream(head.data());
        } else if (g_om.stall && (c.total == (size_t)p.S || c.total == (size_t)(3 * p.S + 2)))
            c.over.assign((size_t)g_om.stall, 0xff);
    }
    return 0;
}
static void xof_post(int kind, int alg, void *ctx, const void *, void *out, size_t len) {
    Op *o = g_cur;
    if (!o || g_hook_busy) return;
    if (is_platform(o, ctx)) {
        if (kind == LSIM_SQUEEZE) {
            lsim_ctl.nopreempt--;
            g_draw_ops++;
            o->draws.insert(o->draws.end(), (uint8_t *)out, (uint8_t *)out + len);
            o->draw_len.push_back(len);
        }
        return;
    }
    bool xof = alg == LSIM_SHAKE128 || alg == LSIM_SHAKE256;
    auto it = o->ctx.find(ctx);
    if (it == o->ctx.end()) return;
    Ctx &c = it->second;
    if (kind == LSIM_SQUEEZE && xof && c.at < c.over.size()) {
        size_t k = std::min(len, c.over.size() - c.at);
        memcpy(out, &c.over[c.at], k);
        c.at += len;
    }
    if (kind == LSIM_FINAL && !xof) {
        o->inst->model->digest_post((uint8_t *)out, len);
        o->digests.insert(Bytes((uint8_t *)out, (uint8_t *)out + len));
    }
}

static void call_op(Op *o) {
    const lsim_api *a = o->inst->api;
    switch (o->kind) {
    case KEYGEN: o->rc = a->keypair(o->b_pk->p, o->b_sk->p); break;
    case SIGN:
        if (o->alias_len) o->rc = a->sign(o->big_sm, o->outlen, o->big_m, o->alias_len, o->b_sk->p);
        else o->rc = a->sign(o->b_sm->p, o->outlen, o->b_m->p, o->msg.size(), o->b_sk->p);
        break;
    case OPEN:
        if (o->alias_len) o->rc = a->open(o->big_m, o->outlen, o->big_sm, o->alias_len, o->b_pk->p);
        else o->rc = a->open(o->b_m->p, o->outlen, o->b_sm->p, o->sm.size(), o->b_pk->p);
        break;
    }
}
static void fiber_entry() {
    for (;;) {
        call_op(g_cur);
        g_cur->st = DONE;
        yield_to_sched();
    }
}
extern "C" void lsim_fiber_entry() { fiber_entry(); }

// Result of a slice. budget 0: run to completion
static void resume(Op *o, int64_t budget) {
    Inst *in = o->inst;
    lsim_ctl.heap = o->poison;
    if (!g_fibers) {
        g_cur = o;
        call_op(o);
        o->st = DONE;
        g_cur = nullptr;
        lsim_ctl.nopreempt = 0;
        return;
    }
    Bytes main_tls;
    if (in->tls_n && o->own_thread) {
        main_tls.assign(in->tls, in->tls + in->tls_n);
        if (o->tls.empty()) o->tls = in->tls_init;
        memcpy(in->tls, o->tls.data(), in->tls_n);
    }
    uint64_t t0 = lsim_ctl.ticks;
    lsim_ctl.budget = budget ? budget : INT64_MAX;
    if (g_count_blocks && o->hits.empty()) o->hits.resize(1 << 17);
    if (!o->hits.empty()) lsim_ctl.hits = o->hits.data();
    g_cur = o;
    lsim_switch(&g_sched_sp, o->sp);
    g_cur = nullptr;
    lsim_ctl.hits = nullptr;
    lsim_ctl.prof = nullptr;
    lsim_ctl.nopreempt = 0;
    o->ticks += lsim_ctl.ticks - t0;
    o->slices++;
    if (in->tls_n && o->own_thread) {
        memcpy(o->tls.data(), in->tls, in->tls_n);
        memcpy(in->tls, main_tls.data(), in->tls_n);
    }
    if (o->st == DONE && o->stack.map) { stack_put(o->stack); o->stack.map = nullptr; }
}
static void prepare_fiber(Op *o, size_t depth, uint64_t poison) {
    o->st = RUNNING;
    if (!g_fibers) return;
    o->stack = stack_get();
    poison_stack(o->stack, depth, poison);
    uint64_t *top = (uint64_t *)(o->stack.lo + STACK);
    *--top = 0;                                   // fake return address keeps the ABI alignment at entry
    *--top = (uint64_t)(uintptr_t)&lsim_fiber_entry;
    top -= 6;
    memset(top, 0, 48);
    o->sp = top;
}
static void drop_fiber(Op *o) {
    if (o->stack.map) { stack_put(o->stack); o->stack.map = nullptr; }
    o->st = KILLED;
}
