// Deterministic simulator for the command line tools: known-answer generator (C12), its random generators (C13), benchmarks (C24).
// Same command line as lsim. Every plan runs in a forked child, so a plan is one exact execution.
#include "ksim.h"
#include "aes.hpp"
#include <cmath>
#include <csetjmp>
#include <cstdarg>
#include <dlfcn.h>
#include <errno.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
typedef std::string Str;
static Str fmt(const char *f, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
[[noreturn]] static void die(const Str &s) { fprintf(stderr, "katsim: %s\n", s.c_str()); _exit(9); }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:use_sigaltstack=0"; }
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char *__asan_get_report_description();
extern "C" int __asan_report_present();
struct ksim_ctl ksim_ctl;

static Str g_libdir;
static long g_idx = -1;
static bool g_verbose = false;
static Str g_trace;
static uint64_t g_hash;
static bool g_bad = false;
static Str g_what;
static std::map<Str, long> g_count;
static int g_out = 1;
static char g_where[128] = "outside";
static void ev(const Str &s) { g_hash = hash_bytes(s.data(), s.size(), g_hash); if (g_verbose) g_trace += "  " + s + "\n"; }
static void bad(const Str &w) { if (g_bad) return; g_bad = true; g_what = w; ev("VIOLATION " + w); }
static void crash_report(const char *how) {
    char b[600];
    int n = snprintf(b, sizeof b, "\nRES %ld BAD hash=%016llx ops=1 what=crash: %s in %s\nVERDICT violation hash=%016llx crash: %s in %s\n", g_idx, (unsigned long long)g_hash, how, g_where, (unsigned long long)g_hash, how, g_where);
    if (write(g_out, b, (size_t)n)) {}
}

// ------------------------------------------------------------------------------------------------------- simulated clock
static uint64_t g_tsc;
static bool g_tsc_on = false;
static long g_reads = 0;
static void on_signal(int sig, siginfo_t *, void *u) {
    ucontext_t *c = (ucontext_t *)u;
    if (sig == SIGSEGV && g_tsc_on) {
        const uint8_t *ip = (const uint8_t *)c->uc_mcontext.gregs[REG_RIP];
        int len = ip[0] == 0x0f && ip[1] == 0x31 ? 2 : ip[0] == 0x0f && ip[1] == 0x01 && ip[2] == 0xf9 ? 3 : 0;
        if (len) {
            c->uc_mcontext.gregs[REG_RAX] = (long long)(g_tsc & 0xffffffff);
            c->uc_mcontext.gregs[REG_RDX] = (long long)(g_tsc >> 32);
            if (len == 3) c->uc_mcontext.gregs[REG_RCX] = 0;
            c->uc_mcontext.gregs[REG_RIP] += len;
            g_reads++;
            return;
        }
    }
    if (!strcmp(g_where, "outside")) { if (write(2, "katsim: crash in the simulator itself\n", 38)) {} _exit(9); }
    crash_report(sig == SIGSEGV ? "invalid memory access" : sig == SIGFPE ? "arithmetic fault" : sig == SIGBUS ? "bus error" : sig == SIGILL ? "illegal instruction" : "abort");
    _exit(7);
}
static void on_death() {
    if (!__asan_report_present() || !strcmp(g_where, "outside")) return;
    Str s = Str("sanitizer report (") + __asan_get_report_description() + ")";
    crash_report(s.c_str());
    _exit(7);
}

// --------------------------------------------------------------------------------------------------- simulated file system
struct File { Str data; };
static std::map<Str, std::shared_ptr<File>> g_fs;
struct Handle { std::shared_ptr<File> f; Str name; size_t pos = 0; bool rd = false, wr = false, app = false; FILE *fp = nullptr; bool open = true; };
static std::vector<std::unique_ptr<Handle>> g_handles;
struct Fault { int kind; long nth; Str act; long arg; };
static std::vector<Fault> g_faults;
static long g_seen[KF_N];
static long g_capacity = -1;
static size_t g_buf = 0;
static std::vector<std::unique_ptr<char[]>> g_bufs;
static bool g_hard = false;     // a fault that may legitimately end in a failure status has been injected
static int g_sticky_write = 0;
static struct { bool on = false; long at = 0; int kind = 0; long val = 0; bool done = false; } g_corrupt;
static const char *KN[] = {"fopen", "read", "write", "seek", "close", "alloc", "evpnew", "evpinit", "evpupd", "keypair", "sign", "verify", "wrongmsg", "wronglen", "keypairlate", "signlate", "verifylate"};
static void hit(const char *n, bool hard) { g_count[Str("fault_") + n]++; if (hard) g_hard = true; ev(Str("fault ") + n); }
static const Fault *due(int kind) {
    long n = ++g_seen[kind];
    for (auto &f : g_faults) if (f.kind == kind && f.nth == n) return &f;
    return nullptr;
}
static size_t disk_used() { size_t t = 0; for (auto &x : g_fs) t += x.second->data.size(); return t; }
static ssize_t fs_read(void *c, char *b, size_t n) {
    Handle *h = (Handle *)c;
    const Fault *f = due(KF_READ);
    if (!h->rd) { errno = EBADF; return -1; }
    if (f && f->act == "error") { hit("read_error", true); errno = EIO; return -1; }
    if (f && f->act == "eof") { hit("premature_eof", true); return 0; }
    size_t left = h->pos < h->f->data.size() ? h->f->data.size() - h->pos : 0, k = std::min(n, left);
    if (f && f->act == "short" && k > 1) { k = 1 + (size_t)f->arg % (k - 1); hit("short_read", false); }
    memcpy(b, h->f->data.data() + h->pos, k);
    h->pos += k;
    return (ssize_t)k;
}
static ssize_t fs_write1(Handle *h, const char *b, size_t n) {
    const Fault *f = due(KF_WRITE);
    if (!h->wr) { errno = EBADF; return 0; }
    size_t k = n;
    if (g_sticky_write) { errno = EIO; return 0; }
    if (f && f->act == "error") { hit("write_error", true); errno = EIO; return 0; }
    if (f && f->act == "dead") { hit("disk_dead", true); g_sticky_write = 1; errno = EIO; return 0; }
    if (f && f->act == "torn") { hit("torn_write", true); k = n ? (size_t)f->arg % n : 0; g_sticky_write = 1; }
    if (f && f->act == "short" && n > 1) { k = 1 + (size_t)f->arg % (n - 1); hit("short_write", false); }
    if (h->app) h->pos = h->f->data.size();
    if (g_capacity >= 0) {
        size_t used = disk_used(), room = used < (size_t)g_capacity ? (size_t)g_capacity - used : 0;
        size_t grow = h->pos + k > h->f->data.size() ? h->pos + k - h->f->data.size() : 0;
        if (grow > room) { k -= std::min(k, grow - room); static bool full = false; if (!full) hit("disk_full", true); full = true; }
    }
    if (k == 0) { errno = ENOSPC; return 0; }
    if (h->f->data.size() < h->pos + k) h->f->data.resize(h->pos + k);
    memcpy(&h->f->data[h->pos], b, k);
    h->pos += k;
    return (ssize_t)k;
}
// The C library asks again for what a write() left over; over a cookie stream it does not, so the seam does.
static ssize_t fs_write(void *c, const char *b, size_t n) {
    size_t done = 0;
    while (done < n) {
        ssize_t k = fs_write1((Handle *)c, b + done, n - done);
        if (k <= 0) break;
        done += (size_t)k;
    }
    return (ssize_t)done;
}
static int fs_seek(void *c, off64_t *o, int w) {
    Handle *h = (Handle *)c;
    if (due(KF_SEEK)) { hit("seek_error", true); errno = EIO; return -1; }
    off64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off64_t)h->pos : (off64_t)h->f->data.size();
    if (base + *o < 0) { errno = EINVAL; return -1; }
    h->pos = (size_t)(base + *o);
    *o = (off64_t)h->pos;
    return 0;
}
static void apply_corruption(Handle *h) {
    if (!g_corrupt.on || g_corrupt.done || !h->wr || h->f->data.empty()) return;
    Str &d = h->f->data;
    size_t at = (size_t)g_corrupt.at % d.size();
    g_corrupt.done = true;
    switch (g_corrupt.kind) {
    case 0: d[at] = (char)(d[at] ^ (1 << g_corrupt.val % 8)); hit("bit_rot", true); break;
    case 1: d.resize(at); hit("file_truncated", true); break;
    case 2: { size_t n = std::min<size_t>((size_t)g_corrupt.val, d.size() - at); d.erase(at, n); hit("lost_write", true); break; }
    case 3: { size_t n = std::min<size_t>((size_t)g_corrupt.val, d.size() - at); memset(&d[at], 0, n); hit("zeroed_block", true); break; }
    default: { size_t n = std::min<size_t>((size_t)g_corrupt.val, d.size() - at); d.insert(at, d.substr(at, n)); hit("duplicated_write", true); }
    }
}
static int fs_close(void *c) {
    Handle *h = (Handle *)c;
    h->open = false;
    ev(fmt("close %s at %zu bytes", h->name.c_str(), h->f->data.size()));
    if (const Fault *f = due(KF_CLOSE)) {   // a delayed write error: the last part of a written file never reached the disk
        hit("close_error", true);
        Str &d = h->f->data;
        if (h->wr) d.resize(d.size() - std::min<size_t>(d.size(), 1 + (size_t)f->arg % 4096));
        errno = EIO;
        return -1;
    }
    apply_corruption(h);
    return 0;
}
static FILE *fs_open(const char *path, const char *mode) {
    if (due(KF_OPEN)) { hit("open_error", true); errno = EACCES; return nullptr; }
    std::unique_ptr<Handle> h(new Handle);
    h->name = path;
    bool plus = strchr(mode, '+');
    auto it = g_fs.find(path);
    if (mode[0] == 'r') {
        if (it == g_fs.end()) { errno = ENOENT; return nullptr; }
        h->rd = true, h->wr = plus;
    } else {
        if (it == g_fs.end()) { if (strchr(path, '/')) { errno = ENOENT; return nullptr; } g_fs[path] = std::make_shared<File>(); }
        else if (mode[0] == 'w') it->second->data.clear();
        h->wr = true, h->rd = plus, h->app = mode[0] == 'a';
    }
    h->f = g_fs[path];
    cookie_io_functions_t io = {fs_read, fs_write, fs_seek, fs_close};
    FILE *fp = fopencookie(h.get(), mode, io);
    if (!fp) die("fopencookie");
    if (g_buf) { g_bufs.emplace_back(new char[g_buf]); setvbuf(fp, g_bufs.back().get(), _IOFBF, g_buf); }
    h->fp = fp;
    ev(fmt("open %s %s", path, mode));
    g_handles.push_back(std::move(h));
    return fp;
}
static int fs_rename(const char *a, const char *b) { auto it = g_fs.find(a); if (it == g_fs.end()) { errno = ENOENT; return -1; } g_fs[b] = it->second; g_fs.erase(a); return 0; }
static int fs_unlink(const char *a) { return g_fs.erase(a) ? 0 : (errno = ENOENT, -1); }
static int planned(int kind) {
    if (!due(kind)) return 0;
    hit(KN[kind], true);
    return 1;
}
static jmp_buf g_leave;
static int g_status;
static Str g_how;
static void leave(int status, const char *how) { g_status = status; g_how = how; longjmp(g_leave, 1); }

static const ksim_api *load(const Str &name) {
    static std::map<Str, const ksim_api *> m;
    if (m.count(name)) return m[name];
    void *h = dlopen((g_libdir + "/" + name + ".0.so").c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) die(dlerror());
    const ksim_api *a = (const ksim_api *)dlsym(h, "ksim_api");
    if (!a) die("no ksim_api");
    return m[name] = a;
}

// ------------------------------------------------------------------------------------------- C12: what the files must hold
static const int RECORDS = 100;
struct Expect { size_t req, rsp; int ready; };
static uint8_t *g_shared[8];
static std::map<Str, int> g_shared_of;
static const size_t SHARED = 96u << 20;
static Str hexs(const uint8_t *p, size_t n) { static const char *d = "0123456789ABCDEF"; Str s; s.reserve(2 * n); for (size_t i = 0; i < n; i++) s += d[p[i] >> 4], s += d[p[i] & 15]; return s; }
static Str record(const ksim_api *a, const Str &count, const Bytes &seed, const Bytes &msg) {
    Bytes pk(a->pkb), sk(a->skb), sm(msg.size() + a->cryptob);
    unsigned long long sl = 0;
    a->seed(seed.data(), 48);
    if (a->keypair(pk.data(), sk.data()) || a->sign(sm.data(), &sl, msg.data(), msg.size(), sk.data()) || sl > sm.size()) return "";
    return "count = " + count + "\nseed = " + hexs(seed.data(), 48) + fmt("\nmlen = %zu\nmsg = ", msg.size()) + hexs(msg.data(), msg.size()) + "\npk = " + hexs(pk.data(), pk.size()) + "\nsk = " +
           hexs(sk.data(), sk.size()) + fmt("\nsmlen = %llu\nsm = ", sl) + hexs(sm.data(), (size_t)sl) + "\n\n";
}
static void compute_expected(const ksim_api *a, uint8_t *sh) {
    RefDrbg d;
    uint8_t e[48];
    for (int i = 0; i < 48; i++) e[i] = (uint8_t)i;
    d.init(e, nullptr);
    Str req, rsp = Str("# ") + a->algname + "\n\n";
    for (int i = 0; i < RECORDS; i++) {
        Bytes seed(48), msg(33 * (size_t)(i + 1));
        d.read(seed.data(), 48);
        d.read(msg.data(), msg.size());
        req += fmt("count = %d\nseed = ", i) + hexs(seed.data(), 48) + fmt("\nmlen = %zu\nmsg = ", msg.size()) + hexs(msg.data(), msg.size()) + "\npk =\nsk =\nsmlen =\nsm =\n\n";
        rsp += record(a, fmt("%d", i), seed, msg);
    }
    Expect x = {req.size(), rsp.size(), 1};
    if (sizeof x + req.size() + rsp.size() > SHARED) die("expected files too large");
    memcpy(sh + sizeof x, req.data(), req.size());
    memcpy(sh + sizeof x + req.size(), rsp.data(), rsp.size());
    memcpy(sh, &x, sizeof x);
}
// after silent corruption of the request file: the response must at least be a correct answer to the requests it shows
static Str self_consistent(const ksim_api *a, const Str &rsp) {
    size_t p = 0;
    Str head = Str("# ") + a->algname + "\n\n";
    if (rsp.compare(0, head.size(), head)) return "bad header";
    p = head.size();
    auto field = [&](const char *name, Str &v) {
        size_t n = strlen(name);
        if (rsp.compare(p, n, name)) return false;
        size_t e = rsp.find('\n', p);
        if (e == Str::npos) return false;
        v = rsp.substr(p + n, e - p - n);
        p = e + 1;
        return true;
    };
    auto unhex = [](const Str &s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)strtol(s.substr(i, 2).c_str(), 0, 16)); return b; };
    int n = 0;
    for (; p < rsp.size(); n++) {
        size_t start = p;
        Str count, seed, mlen, msg;
        if (!field("count = ", count) || !field("seed = ", seed) || !field("mlen = ", mlen) || !field("msg = ", msg)) return fmt("record %d is malformed", n);
        size_t ml = strtoull(mlen.c_str(), 0, 10);
        Bytes m = ml ? unhex(msg) : Bytes();
        if (seed.size() != 96 || m.size() != ml) return fmt("record %d: lengths disagree", n);
        Str want = record(a, count, unhex(seed), m);
        if (ml == 0) { size_t q = want.find("msg = \n"); if (q != Str::npos) want.insert(q + 6, "00"); }
        if (want.empty() || rsp.compare(start, want.size(), want)) return fmt("record %d does not follow from its own seed and message", n);
        p = start + want.size();
    }
    if (n != RECORDS) return fmt("%d records", n);
    return "";
}

struct Opts {
    std::map<Str, Str> m;
    explicit Opts(std::istringstream &in) { Str t; while (in >> t) { auto e = t.find('='); m[t.substr(0, e)] = e == Str::npos ? "1" : t.substr(e + 1); } }
    uint64_t u(const char *k, uint64_t d = 0) { auto it = m.find(k); return it == m.end() ? d : strtoull(it->second.c_str(), 0, 10); }
};
static void at(const char *w) { snprintf(g_where, sizeof g_where, "%s", w); }
static void quiet_stdout(int &fd) {
    fd = (int)syscall(SYS_memfd_create, "ksim", 0);
    if (fd < 0) die("memfd");
    fflush(stdout);
    dup2(fd, 1);
}
static long g_ops = 0;
static void run_c12(const ksim_api *a, const Str &lib, const std::vector<Str> &stale) {
    Str req = fmt("PQCsignKAT_%zu.req", a->skb), rsp = fmt("PQCsignKAT_%zu.rsp", a->skb);
    req = fmt("PQCsignKAT_%zu.req", a->pkb), rsp = fmt("PQCsignKAT_%zu.rsp", a->pkb);
    for (auto &s : stale) {
        std::istringstream in(s);
        Str w; size_t n; uint64_t seed;
        in >> w >> w >> n >> seed;
        auto f = std::make_shared<File>();
        f->data.resize(n);
        Rng(seed).fill(&f->data[0], n);
        if (seed % 2) for (auto &c : f->data) c = "0123456789ABCDEF=\n countseedmlen"[(unsigned char)c % 32];
        g_fs[w == "req" ? req : rsp] = f;
        hit("stale_files", false);
    }
    int fd, ret = 0;
    quiet_stdout(fd);
    at("the known-answer generator");
    static char arg0[] = "kat";
    static char *av[] = {arg0, nullptr};
    if (setjmp(g_leave) == 0) ret = a->main(1, av) & 255, g_how = "return";
    else ret = g_status;
    // what the C library does at process end
    if (g_how != "abort" && g_how != "_exit")
        for (auto &h : g_handles) if (h->open) fflush(h->fp);
    at("outside");
    Str got_req = g_fs.count(req) ? g_fs[req]->data : "", got_rsp = g_fs.count(rsp) ? g_fs[rsp]->data : "";
    ev(fmt("ended by %s with status %d; %zu and %zu bytes", g_how.c_str(), ret, got_req.size(), got_rsp.size()));
    g_hash = hash_bytes(got_rsp.data(), got_rsp.size(), g_hash);
    g_count[ret ? "ended_in_failure" : "ended_in_success"]++;
    g_count["file_operations"] += g_seen[KF_READ] + g_seen[KF_WRITE] + g_seen[KF_OPEN] + g_seen[KF_CLOSE];
    g_ops += g_seen[KF_READ] + g_seen[KF_WRITE] + g_seen[KF_OPEN] + g_seen[KF_CLOSE];
    if (ret) {
        if (!g_hard) bad(fmt("the generator fails (status %d) although nothing failed under it", ret));
        return;
    }
    for (const char *k : {"keypair", "sign", "verify", "wrongmsg", "wronglen", "keypairlate", "signlate", "verifylate"})
        if (g_count.count(Str("fault_") + k)) return bad(fmt("the generator reports success although %s", !strncmp(k, "keypair", 7) ? "key generation failed" : !strncmp(k, "sign", 4) ? "signing failed" : !strncmp(k, "verify", 6) ? "a signed message did not open" : !strcmp(k, "wrongmsg") ? "a signed message opened to another message" : "a signed message opened with another length"));
    if (g_corrupt.done) {
        Str e = self_consistent(a, got_rsp);
        if (e.size()) bad("the generator reports success over a damaged request file but " + e);
        g_count["self_consistent_checked"]++;
        return;
    }
    const uint8_t *sh = g_shared[g_shared_of[lib]];
    Expect x;
    memcpy(&x, sh, sizeof x);
    auto diff = [&](const Str &got, const uint8_t *want, size_t n, const char *what) {
        size_t i = 0;
        while (i < got.size() && i < n && (uint8_t)got[i] == want[i]) i++;
        if (i < n || got.size() != n) bad(fmt("the generator reports success but its %s file is wrong from byte %zu on (%zu bytes, %zu expected)", what, i, got.size(), n));
    };
    diff(got_req, sh + sizeof x, x.req, "request");
    diff(got_rsp, sh + sizeof x + x.req, x.rsp, "response");
    g_count["files_compared"]++;
}

// ---------------------------------------------------------------------------------------------------------------- C13
struct Slot { std::unique_ptr<uint8_t[]> ctx; RefXof ref; bool ok = false; };
static std::map<int, Slot> g_slots;
static RefDrbg g_ref;
static bool g_drbg_ok = false;
static bool g_stop = false;
static void c13(const ksim_api *a, const Str &line) {
    std::istringstream in(line);
    Str c;
    in >> c;
    if (g_stop) return;
    g_hard = false;
    auto guarded = [&](const std::function<void()> &f) {   // false: the process would have ended here
        at(c.c_str());
        bool back = true;
        if (setjmp(g_leave) == 0) f();
        else back = false;
        at("outside");
        if (!back) { ev(c + " ended the process by " + g_how); g_count["stopped_by_error"]++; g_stop = true; if (!g_hard) bad(c + ": ends the process although nothing failed"); if (g_status == 0) bad(c + ": ends the process with success after a failing cipher call"); }
        return back;
    };
    g_ops++;
    if (c == "xof.init") {
        int s; uint64_t seed, div, maxlen;
        in >> s >> seed >> div >> maxlen;
        Bytes sd(32), dv(8);
        Rng(seed).fill(sd.data(), 32);
        Rng(div).fill(dv.data(), 8);
        Slot &z = g_slots[s];
        if (!z.ctx) { z.ctx.reset(new uint8_t[a->xof_ctx]); Rng(seed + 1).fill(z.ctx.get(), a->xof_ctx); }
        int rc = 0;
        if (!guarded([&] { rc = a->xof_init(z.ctx.get(), sd.data(), dv.data(), maxlen); })) return;
        ev(fmt("%s -> %d", line.c_str(), rc));
        if (maxlen >= (1ULL << 32)) { if (rc != -1) bad(fmt("seed expander initialised for %llu bytes returns %d", (unsigned long long)maxlen, rc)); g_count["refusals"]++; return; }
        if (rc) return bad(fmt("seed expander initialisation fails (%d)", rc));
        z.ref.init(sd.data(), dv.data(), maxlen);
        z.ok = true;
    } else if (c == "xof.read" || c == "xof.null") {
        int s; uint64_t n, rep = 1;
        in >> s >> n >> rep;
        if (!g_slots.count(s) || !g_slots[s].ok) return;
        for (; rep > 1 && !g_stop && !g_bad; rep--) c13(a, fmt("%s %d %llu", c.c_str(), s, (unsigned long long)n));
        if (g_stop || g_bad) return;
        Slot &z = g_slots[s];
        bool null = c == "xof.null";
        size_t room = n > (8u << 20) ? 1 : (size_t)n;
        std::unique_ptr<uint8_t[]> out(new uint8_t[room + 1]);
        memset(out.get(), 0xA7, room + 1);
        int rc = 0;
        if (n > (8u << 20) && n < z.ref.left) return;   // never ask for more than the buffer unless it must be refused
        if (!guarded([&] { rc = a->xof_read(z.ctx.get(), null ? nullptr : out.get(), n); })) return;
        ev(fmt("%s -> %d %016llx", line.c_str(), rc, (unsigned long long)hash_bytes(out.get(), room)));
        if (null) { if (rc != -2) bad(fmt("seed expander without output buffer returns %d", rc)); g_count["refusals"]++; return; }
        if (n > z.ref.left || (n == z.ref.left && rc)) {   // asking for exactly the rest may be refused (the NIST code does) or granted
            if (rc != -3) bad(fmt("seed expander asked for %llu of %llu bytes returns %d", (unsigned long long)n, (unsigned long long)z.ref.left, rc));
            for (size_t i = 0; i < room + 1; i++) if (out[i] != 0xA7) return bad("seed expander writes although it refuses");
            g_count["refusals"]++;
            return;
        }
        if (rc) return bad(fmt("seed expander refuses %llu bytes with %llu left (%d)", (unsigned long long)n, (unsigned long long)z.ref.left, rc));
        Bytes e(room);
        z.ref.read(e.data(), room);
        if (room && memcmp(e.data(), out.get(), room)) {
            if (g_hard) return bad("seed expander delivers wrong bytes after a failing cipher call");
            return bad(fmt("seed expander delivers wrong bytes (read of %llu)", (unsigned long long)n));
        }
        if (out[room] != 0xA7) return bad("seed expander writes past its output");
        g_count["reads_compared"]++;
        g_count["bytes_compared"] += (long)room;
    } else if (c == "drbg.init") {
        uint64_t s, pers;
        int carry = 0;
        in >> s >> pers >> carry;
        Bytes e(48), p(48);
        Rng(s).fill(e.data(), 48);
        Rng(pers).fill(p.data(), 48);
        if (carry > 0 && carry <= 16) {   // entropy for which the counter starts with its last bytes (nearly) at their maximum
            static const uint8_t zero[48] = {0};
            RefDrbg z;
            z.init(zero, nullptr);
            for (int i = 0; i < 16; i++) {
                uint8_t want = i < 16 - carry ? e[32 + i] : i == 15 ? (uint8_t)(0xff - s % 4) : 0xff;
                e[32 + i] = z.v[i] ^ want ^ (pers ? p[32 + i] : 0);
            }
            g_count["counters_near_carry"]++;
        }
        if (!guarded([&] { a->drbg_init(e.data(), pers ? p.data() : nullptr, 256); })) return;
        g_ref.init(e.data(), pers ? p.data() : nullptr);
        g_drbg_ok = true;
        ev(line);
    } else if (c == "drbg.read") {
        size_t n, rep = 1;
        in >> n >> rep;
        if (!g_drbg_ok) return;
        for (; rep > 1 && !g_stop && !g_bad; rep--) c13(a, fmt("drbg.read %zu", n));
        if (g_stop || g_bad) return;
        std::unique_ptr<uint8_t[]> out(new uint8_t[n + 1]);
        memset(out.get(), 0xA7, n + 1);
        int rc = 0;
        if (!guarded([&] { rc = a->drbg_read(out.get(), n); })) return;
        ev(fmt("%s -> %d %016llx", line.c_str(), rc, (unsigned long long)hash_bytes(out.get(), n)));
        if (rc) { if (!g_hard) bad(fmt("the generator fails (%d) although nothing failed", rc)); g_stop = true; return; }
        Bytes e(n);
        g_ref.read(e.data(), n);
        if (n && memcmp(e.data(), out.get(), n)) return bad(fmt("the counter-mode generator delivers wrong bytes (read of %zu)%s", n, g_hard ? " after a failing cipher call" : ""));
        if (out[n] != 0xA7) return bad("the counter-mode generator writes past its output");
        g_count["reads_compared"]++;
        g_count["bytes_compared"] += (long)n;
    } else if (c == "long") {   // one read of several GiB into a mapping of one small file again and again
        Str what; size_t n_; uint64_t seed;
        in >> what >> n_ >> seed;
        const size_t C = 2u << 20, whole = n_ / C * C, rest = (n_ - whole + 4095) & ~(size_t)4095;
        int fd = (int)syscall(SYS_memfd_create, "ksim", 0);
        if (fd < 0 || ftruncate(fd, (off_t)C)) die("memfd");
        uint8_t *p = (uint8_t *)mmap(nullptr, whole + rest + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) die("mmap");
        for (size_t o = 0; o < whole; o += C) if (mmap(p + o, C, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) die("mmap chunk");
        if (rest) mprotect(p + whole, rest, PROT_READ | PROT_WRITE);
        Bytes e(48), first(64), efirst(64), more(50), emore(50), chunk(C), tail(n_ - whole), ctx(a->xof_ctx);
        Rng(seed).fill(e.data(), 48);
        bool xof = what == "xof";
        ksim_ctl.fast = 1;
        RefDrbg d;
        RefXof x;
        int rc = 0;
        auto get = [&](uint8_t *o, size_t k) { return guarded([&] { rc = xof ? a->xof_read(ctx.data(), o, k) : a->drbg_read(o, k); }); };
        if (!guarded([&] { if (xof) a->xof_init(ctx.data(), e.data(), e.data() + 32, 0xffffffffUL); else a->drbg_init(e.data(), nullptr, 256); })) return;
        if (!get(first.data(), 64)) return;
        if (!ksim_ctl.fastcalls) { ev("the cipher is not called through the seam: run skipped"); return; }
        if (!get(p, n_) || !get(more.data(), 50)) return;
        if (xof) {
            x.init(e.data(), e.data() + 32, 0xffffffffUL);
            x.read(efirst.data(), 64);
            for (size_t i = 0; i < whole; i += C) x.read(chunk.data(), C);
            x.read(tail.data(), tail.size()), x.read(emore.data(), 50);
        } else {
            d.init(e.data(), nullptr);
            d.read(efirst.data(), 64);
            Aes256 k(d.key);
            uint8_t b[16];
            for (size_t i = 0; i < n_; i += 16) { RefDrbg::inc(d.v, 16), k.block(d.v, b); memcpy(i < whole ? &chunk[i % C] : &tail[i - whole], b, std::min<size_t>(16, n_ - i)); }
            d.update(nullptr);
            d.read(emore.data(), 50);
        }
        ev(fmt("%s -> %016llx", line.c_str(), (unsigned long long)hash_bytes(more.data(), 50)));
        if (first != efirst) return bad("wrong bytes before a long read");
        if (memcmp(p, chunk.data(), C) || memcmp(p + whole, tail.data(), tail.size())) return bad(fmt("%s delivers wrong bytes in a read of %zu", xof ? "the seed expander" : "the counter-mode generator", n_));
        if (more != emore) return bad(fmt("%s delivers wrong bytes after a read of %zu", xof ? "the seed expander" : "the counter-mode generator", n_));
        g_count["long_reads"]++;
    } else die("bad plan line " + line);
}

// ---------------------------------------------------------------------------------------------------------------- C24
static std::vector<double> g_dur[KB_N];
static int g_depth = 0, g_mode = 0, g_real = 0, g_failverify = 0;
static uint64_t g_bseed;
static int b_enter(int) { return g_depth++ == 0 ? g_real : 1; }
static int b_done(int what, int rc) {
    if (--g_depth) return rc;
    Rng r(g_bseed ^ (uint64_t)what << 50 ^ (uint64_t)g_dur[what].size() << 20);
    uint64_t d;
    switch (g_mode) {
    case 0: d = 1000 + r.below(100000); break;
    case 1: d = 123456789; break;
    case 2: d = 5000000 + r.below(100); break;
    case 3: d = r.chance(3) ? 1000000000ULL * (1 + r.below(50)) : 100000 + r.below(5000); break;   // the clock jumps, or the machine stalls
    case 4: d = r.below(3); break;
    default: d = 10000000000ULL + r.below(7000000000ULL);
    }
    g_tsc += d;
    g_dur[what].push_back((double)d / 1000.0);
    g_ops++;
    if (what == KB_VERIFY) return g_failverify ? 0 : g_real ? rc : 1;
    return rc;
}
static void run_c24(const ksim_api *a, const Str &lib, Opts &o) {
    g_mode = (int)o.u("mode"), g_real = (int)o.u("real"), g_failverify = (int)o.u("failverify"), g_bseed = o.u("seed");
    g_tsc = o.u("start");
    if (g_mode == 3) g_count["fault_clock_jumps"]++;
    if (g_failverify) g_count["fault_failed_verification"]++;
    if (g_tsc > ~0ULL / 2) g_count["fault_clock_wraps"]++;
    int fd, ret = 0;
    quiet_stdout(fd);
    int fe = (int)syscall(SYS_memfd_create, "kerr", 0), old2 = dup(2);
    dup2(fe, 2);
    at("the benchmark");
    if (prctl(PR_SET_TSC, PR_TSC_SIGSEGV)) die("PR_SET_TSC");
    g_tsc_on = true;
    static char arg0[] = "bench";
    static char *av[] = {arg0, nullptr};
    if (setjmp(g_leave) == 0) ret = a->main(1, av) & 255;
    else ret = g_status;
    fflush(stdout);
    prctl(PR_SET_TSC, PR_TSC_ENABLE);
    g_tsc_on = false;
    at("outside");
    dup2(old2, 2);
    auto slurp = [](int f) { Str s; char b[4096]; ssize_t n; lseek(f, 0, SEEK_SET); while ((n = read(f, b, sizeof b)) > 0) s.append(b, (size_t)n); return s; };
    Str out = slurp(fd), err = slurp(fe);
    ev("stdout " + out);
    ev("stderr " + err);
    if (ret) return bad(fmt("the benchmark ends with status %d", ret));
    std::vector<std::pair<Str, Str>> got;
    for (size_t i = 0; i < out.size();) {
        size_t e = i;
        auto num = [&](size_t p) { size_t q = p; if (q < out.size() && out[q] == '-') q++; while (q < out.size() && (isalnum((unsigned char)out[q]) || out[q] == '.')) q++; return q; };
        bool start = (isdigit((unsigned char)out[i]) || out[i] == '-' || !out.compare(i, 3, "nan") || !out.compare(i, 3, "inf")) && (i == 0 || !isalnum((unsigned char)out[i - 1]));
        if (start && (e = num(i)) < out.size() && e > i && out[e] == ',') {
            size_t f = num(e + 1);
            if (f > e + 1 && (f == out.size() || out[f] == '\n')) got.push_back({out.substr(i, e - i), out.substr(e + 1, f - e - 1)});
            i = f > i ? f : i + 1;
        } else i++;
    }
    std::vector<int> phases;
    for (int i = 0; i < KB_N; i++) if (g_dur[i].size()) phases.push_back(i);
    static const char *PN[] = {"Gaussian elimination", "key generation", "signing", "verification"};
    if (lib.compare(0, 3, "mem") == 0) {   // one operation each; calls that prepare it are not measured
        phases = {lib.compare(0, 9, "memkeygen") == 0 ? KB_KEYGEN : lib.compare(0, 7, "memsign") == 0 ? KB_SIGN : KB_VERIFY};
        if (!g_dur[phases[0]].size()) return bad("the benchmark does not exercise its operation");
    } else if (!g_dur[KB_KEYGEN].size() || !g_dur[KB_SIGN].size() || !g_dur[KB_VERIFY].size()) return bad("the benchmark does not exercise every operation");
    if (got.size() < phases.size()) return bad(fmt("the benchmark measured %zu operations and prints %zu results", phases.size(), got.size()));
    got.erase(got.begin(), got.end() - (long)phases.size());
    for (size_t i = 0; i < phases.size(); i++) {
        auto &v = g_dur[phases[i]];
        __float128 s = 0, q = 0;
        for (double x : v) s += x;
        s /= v.size();
        for (double x : v) q += (x - s) * (x - s);
        double mean = (double)s, sd = v.size() > 1 ? sqrt((double)(q / (v.size() - 1))) : 0;
        double gm = strtod(got[i].first.c_str(), 0), gs = strtod(got[i].second.c_str(), 0);
        if (!(fabs(gm - mean) <= 0.011 + 1e-9 * fabs(mean))) bad(fmt("the benchmark prints a mean of %s kilocycles for %s, its %zu calls took %.3f on average", got[i].first.c_str(), PN[phases[i]], v.size(), mean));
        if (v.size() > 1 && !(fabs(gs - sd) <= 0.011 + 1e-6 * fabs(sd) + 1e-12 * mean)) bad(fmt("the benchmark prints a deviation of %s kilocycles for %s, its %zu calls deviate by %.3f", got[i].second.c_str(), PN[phases[i]], v.size(), sd));
        g_count["statistics_compared"]++;
    }
    Str all = out + err;
    size_t p = all.find("average of ");
    if (p != Str::npos)
        for (int i : phases) if (i != KB_RREF && (long)g_dur[i].size() != atol(all.c_str() + p + 11)) bad(fmt("the benchmark announces %ld runs and makes %zu (%s)", atol(all.c_str() + p + 11), g_dur[i].size(), PN[i]));
    if (all.find("unctional") != Str::npos || all.find("functional") != Str::npos) {
        bool no = all.find("not functional") != Str::npos;
        if (no != (g_failverify != 0)) bad(no ? "the benchmark reports failing verification of valid signatures" : "the benchmark reports success although verification failed");
        g_count["verdicts_compared"]++;
    }
    g_count["clock_readings"] += g_reads;
}

// ------------------------------------------------------------------------------------------------------------------- plan
static void execute(const Str &text) {
    g_hash = 0x1e55;
    Str prop, lib;
    std::istringstream in(text);
    Str line;
    std::vector<Str> stale, body;
    const ksim_api *a = nullptr;
    Str benchline;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        Str c;
        if (!(l >> c) || c[0] == '#') continue;
        if (c == "plan") l >> prop;
        else if (c == "lib") { l >> lib; a = load(lib); }
        else if (c == "stale") stale.push_back(line);
        else if (c == "buf") l >> g_buf;
        else if (c == "disk") l >> g_capacity;
        else if (c == "corrupt") { g_corrupt.on = true; l >> g_corrupt.kind >> g_corrupt.at >> g_corrupt.val; }
        else if (c == "fault") {
            Fault f;
            Str k;
            f.arg = 0;
            l >> k >> f.nth >> f.act >> f.arg;
            f.kind = -1;
            for (int i = 0; i < KF_N; i++) if (k == KN[i]) f.kind = i;
            if (f.kind < 0) die("bad fault " + line);
            g_faults.push_back(f);
        } else if (c == "bench") benchline = line;
        else body.push_back(line);
    }
    if (!a) die("no lib");
    if (prop == "C12") run_c12(a, lib, stale);
    else if (prop == "C24") { std::istringstream l(benchline); Opts o(l); run_c24(a, lib, o); }
    else for (auto &b : body) if (!g_bad) c13(a, b);
}
static int run_child(const Str &text, bool verbose) {
    // expected files are computed once per process, by the real library itself, in a child of their own
    Str lib;
    { std::istringstream in(text); Str l, c; while (std::getline(in, l)) { std::istringstream x(l); Str p; x >> p; if (p == "plan") x >> c; if (p == "lib" && c == "C12") x >> lib; } }
    if (lib.size()) {
        load(lib);
        if (!g_shared_of.count(lib)) {
            int k = (int)g_shared_of.size();
            g_shared[k] = (uint8_t *)mmap(nullptr, SHARED, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            g_shared_of[lib] = k;
        }
        uint8_t *sh = g_shared[g_shared_of[lib]];
        if (!((Expect *)sh)->ready) {
            fflush(stdout);
            pid_t p = fork();
            if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); at("the library, while computing the expected answers"); compute_expected(load(lib), sh); _exit(0); }
            int st;
            waitpid(p, &st, 0);
            if (!((Expect *)sh)->ready) return WIFEXITED(st) ? WEXITSTATUS(st) : 7;
        }
    }
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        g_verbose = verbose;
        g_out = dup(1);
        execute(text);
        fflush(stdout);
        Str s = g_trace + fmt("RES %ld %s ops=%ld ticks=%ld hash=%016llx sched=%016llx", g_idx, g_bad ? "BAD" : "OK", g_ops, g_ops, (unsigned long long)g_hash, (unsigned long long)g_hash);
        for (auto &kv : g_count) s += fmt(" %s=%ld", kv.first.c_str(), kv.second);
        if (g_bad) s += " what=" + g_what;
        s += "\n";
        if (verbose) s += fmt("VERDICT %s hash=%016llx %s\n", g_bad ? "violation" : "ok", (unsigned long long)g_hash, g_what.c_str());
        if (write(g_out, s.data(), s.size()) != (ssize_t)s.size()) _exit(9);
        _exit(g_bad ? 1 : 0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { at("the program"); crash_report("killed by a signal"); return 7; }
    return WEXITSTATUS(st);
}

// -------------------------------------------------------------------------------------------------------------- generator
static Str generate(const Str &prop, uint64_t seed, const Str &tier, long idx) {
    Rng r(seed * 1000003 + (uint64_t)idx * 7919 + hash_bytes(prop.data(), prop.size()));
    std::ostringstream o;
    o << "plan " << prop << "\n";
    static const char *V[] = {"katref", "katavx2", "katutil"};
    if (prop == "C12") {
        Str v = V[r.below(3)];
        if (r.chance(60)) v = r.chance(50) ? "katavx2" : "katutil";
        bool asan = r.chance(tier == "thorough" ? 25 : 12);
        if (idx < 3) { v = V[idx]; asan = false; }            // fault free, one per copy of the program
        if (idx >= 3 && idx < 6) { v = V[idx - 3]; asan = true; }
        if (idx == 6) { o << "lib katavx2.1B.kat\n"; return o.str(); }
        o << "lib " << v << ".sk." << (asan ? "katasan" : "kat") << "\n";
        if (r.chance(40)) { static const int B[] = {1, 7, 64, 512, 1024, 8192, 65536}; o << "buf " << B[r.below(7)] << "\n"; }
        if (r.chance(25)) o << "stale " << (r.chance(50) ? "req " : "rsp ") << r.below(r.chance(50) ? 3000 : 4000000) << " " << r.below(100000) << "\n";
        if (idx < 6) return o.str();
        if (r.chance(30)) for (int i = 1 + (int)r.below(6); i > 0; i--) o << "fault " << (r.chance(50) ? "read " : "write ") << 1 + r.below(r.chance(50) ? 40 : 2000) << " short " << r.below(100000) << "\n";
        int n = r.chance(12) ? 0 : r.chance(75) ? 1 : 2;
        for (int i = 0; i < n; i++) {
            long deep = (long)r.below(r.chance(30) ? 5 : r.chance(50) ? 120 : 900);
            switch (r.below(15)) {
            case 0: o << "fault fopen " << 1 + r.below(4) << " error\n"; break;
            case 1: o << "fault write " << 1 + deep << " error\n"; break;
            case 2: o << "fault write " << 1 + deep << " " << (r.chance(50) ? "dead" : "torn") << " " << r.below(100000) << "\n"; break;
            case 3: case 4: {
                long total = r.chance(40) ? 400000 : 2400000;
                o << "disk " << (r.chance(15) ? (long)r.below(50) : (long)r.below((uint64_t)total)) << "\n";
                break;
            }
            case 5: o << "fault read " << 1 + deep << " error\n"; break;
            case 6: o << "fault read " << 1 + deep << " eof\n"; break;
            case 7: o << "fault close " << 1 + r.below(4) << " error " << r.below(100000) << "\n"; break;
            case 8: o << "fault alloc " << 1 + r.below(r.chance(50) ? 6 : 310) << " error\n"; break;
            case 9: { static const char *E[] = {"evpnew", "evpinit", "evpupd"}; o << "fault " << E[r.below(3)] << " " << 1 + r.below(r.chance(50) ? 10 : 11500) << " error\n"; break; }
            case 10: case 14: { static const char *E[] = {"keypair", "sign", "verify", "wrongmsg", "wronglen", "keypairlate", "signlate", "verifylate"}; o << "fault " << E[r.below(8)] << " " << 1 + r.below(100) << " error\n"; break; }
            case 11: o << "fault seek " << 1 + r.below(3) << " error\n"; break;
            default: o << "corrupt " << (r.chance(50) ? 0 : r.below(5)) << " " << r.below(r.chance(30) ? 2000 : 360000) << " " << r.below(r.chance(50) ? 9 : 700) << "\n";
            }
        }
        return o.str();
    }
    if (prop == "C13" && idx < (tier == "thorough" ? 6 : 2)) {
        o << "lib " << V[tier == "thorough" ? idx / 2 : (long)r.below(3)] << ".sk.kat\n";
        if (idx % 2 == 0) o << "long drbg " << (1ULL << 32) + 5 + r.below(3000000) << " " << r.below(100000) << "\n";
        else o << "long xof " << (1ULL << 32) - 10000000 - r.below(3000000) << " " << r.below(100000) << "\n";
        return o.str();
    }
    if (prop == "C13") {
        o << "lib " << V[r.below(3)] << ".sk.katasan\n";
        if (idx == 8 || idx == 9) {   // more than 65536 reads
            o << "xof.init 0 " << r.below(1000000) << " 5 3000000\nxof.read 0 " << 1 + r.below(20) << " 70000\n" << "drbg.init " << r.below(1000000) << " 0\ndrbg.read " << 1 + r.below(20) << " 70000\n";
            return o.str();
        }
        int faults = r.chance(45) ? 0 : 1 + (int)r.below(2);
        for (int i = 0; i < faults; i++) { static const char *E[] = {"evpnew", "evpinit", "evpupd"}; o << "fault " << E[r.below(3)] << " " << 1 + r.below(r.chance(40) ? 8 : 400) << " error\n"; }
        auto amount = [&]() -> uint64_t {
            switch (r.below(8)) {
            case 0: return 0;
            case 1: return 1;
            case 2: return 16;
            case 3: return 15 + r.below(3);
            case 4: return 16 * r.below(20) + r.below(3);
            case 5: return r.below(40);
            case 6: return r.below(r.chance(20) ? 70000 : 6000);
            default: return r.below(16);
            }
        };
        std::vector<uint64_t> lens(5, 0);
        auto init = [&](int s) {
            uint64_t ml = r.chance(60) ? 1000000 + r.below(1000000) : r.chance(20) ? (1ULL << 32) - 1 - r.below(300) : r.chance(15) ? (1ULL << 32) + r.below(3) : r.chance(30) ? r.below(64) : r.below(100000);
            o << "xof.init " << s << " " << r.below(1000000) << " " << r.below(1000000) << " " << ml << "\n";
            if (ml < (1ULL << 32)) lens[(size_t)s] = ml;
        };
        if (idx % 200 == 7) { o << "xof.init 0 1 2 3000000\nxof.read 0 1048570\nxof.read 0 17\nxof.read 0 70000\n"; }   // counter carries past its second byte
        if (r.chance(85)) o << "drbg.init " << r.below(1000000) << " " << (r.chance(50) ? 0 : 1 + r.below(100000)) << (r.chance(35) ? fmt(" %d", 1 + (int)r.below(16)) : Str()) << "\n";
        init(0);
        int steps = 10 + (int)r.below(50);
        for (int i = 0; i < steps; i++) {
            int s = (int)r.below(5);
            switch (r.below(10)) {
            case 0: init(s); break;
            case 1: o << "xof.null " << s << " " << amount() << "\n"; break;
            case 2: if (lens[(size_t)s]) { o << "xof.read " << s << " " << (r.chance(50) ? lens[(size_t)s] - std::min<uint64_t>(lens[(size_t)s], r.below(3)) : lens[(size_t)s] + r.below(100)) << "\n"; break; } // fall through
            case 3: case 4: case 5: case 6: o << "xof.read " << (lens[(size_t)s] ? s : 0) << " " << amount() << "\n"; break;
            case 7: if (r.chance(15)) { o << "drbg.init " << r.below(1000000) << " " << (r.chance(50) ? 0 : 1 + r.below(100000)) << (r.chance(35) ? fmt(" %d", 1 + (int)r.below(16)) : Str()) << "\n"; break; } // fall through
            default: o << "drbg.read " << amount() << "\n";
            }
        }
        return o.str();
    }
    if (prop == "C24") {
        static const char *B[] = {"benchref", "benchavx2", "benchutil", "benchmem", "memkeygen", "memsign", "memverify"};
        bool real = r.chance(6);
        int b = (int)r.below(7);
        if (idx < 7) b = (int)idx, real = true;
        if (real && b == 0 && idx > 0 && tier != "thorough") b = 1;
        o << "lib " << B[b] << ".sk.bench\n";
        uint64_t start = r.chance(30) ? ~0ULL - r.below(1000000000ULL) : r.chance(50) ? r.below(1000) : r.next() >> 4;
        o << "bench mode=" << r.below(6) << " real=" << (real ? 1 : 0) << " failverify=" << (r.chance(25) ? 1 : 0) << " seed=" << (r.next() >> 20) << " start=" << start << "\n";
        return o.str();
    }
    die("no generator for " + prop);
}
static Str needs(const Str &prop, const Str &) {
    if (prop == "C12") return "7 katref.sk.kat katavx2.sk.kat katutil.sk.kat katref.sk.katasan katavx2.sk.katasan katutil.sk.katasan katavx2.1B.kat";
    if (prop == "C13") return "2 katref.sk.katasan katavx2.sk.katasan katutil.sk.katasan katref.sk.kat katavx2.sk.kat katutil.sk.kat";
    return "0 benchref.sk.bench benchavx2.sk.bench benchutil.sk.bench benchmem.sk.bench memkeygen.sk.bench memsign.sk.bench memverify.sk.bench";
}
int main(int argc, char **argv) {
    std::vector<Str> a;
    bool verbose = false;
    for (int i = 1; i < argc; i++) {
        Str s = argv[i];
        if (s == "--lib") g_libdir = argv[++i];
        else if (s == "--cov") ++i;
        else if (s == "-v") verbose = true;
        else a.push_back(s);
    }
    (void)verbose;
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("LSIM_REEXEC")) {
        setenv("LSIM_REEXEC", "1", 1);
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (a.empty()) die("usage: gen | run | batch");
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    __sanitizer_set_death_callback(on_death);
    ksim_ctl = {fs_open, planned, leave, fs_rename, fs_unlink, b_enter, b_done};
    Aes256::sbox();
    if (a[0] == "gen") { fputs(generate(a[1], strtoull(a[2].c_str(), 0, 10), a[3], atol(a[4].c_str())).c_str(), stdout); return 0; }
    if (a[0] == "needs") { puts(needs(a[1], a[2]).c_str()); return 0; }
    if (a[0] == "run") {
        std::ifstream f(a[1]);
        if (!f) die("cannot read " + a[1]);
        std::stringstream ss;
        ss << f.rdbuf();
        return run_child(ss.str(), true);
    }
    if (a[0] == "batch") {
        Str line;
        while (std::getline(std::cin, line)) {
            g_idx = atol(line.c_str());
            int rc = run_child(generate(a[1], strtoull(a[2].c_str(), 0, 10), a[3], g_idx), false);
            if (rc != 0 && rc != 1 && rc != 7) return 9;
        }
        return 0;
    }
    die("unknown mode " + a[0]);
}
