// Deterministic simulator for LESS: executes plans (seeded schedules + faults) against the real code and judges them.
//   lsim --lib DIR gen PROP SEED TIER INDEX      print the plan
//   lsim --lib DIR run FILE                      execute a plan, print its trace and verdict; exit 1 on a violation
//   lsim --lib DIR batch PROP SEED TIER          one plan index per line of stdin, one result line each
#include "engine.hpp"
#include "interp.hpp"
#include "gen.hpp"
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/personality.h>
#include <sys/resource.h>

static void print_result(const Result &r, long idx) {
    Str s = fmt("RES %ld %s ops=%ld ticks=%llu opens=%ld slices=%ld hash=%016llx sched=%016llx new=%ld", idx, r.bad ? "BAD" : "OK", r.ops, (unsigned long long)r.ticks, r.opens, r.slices,
                (unsigned long long)r.hash, (unsigned long long)r.sched, r.new_edges);
    for (auto &kv : r.count) s += fmt(" %s=%ld", kv.first.c_str(), kv.second);
    if (r.bad) s += " what=" + r.what;
    puts(s.c_str());
    fflush(stdout);
}

int main(int argc, char **argv) {
    std::vector<Str> a;
    Str covfile;
    bool verbose = false;
    for (int i = 1; i < argc; i++) {
        Str s = argv[i];
        if (s == "--lib") g_libdir = argv[++i];
        else if (s == "--cov") covfile = argv[++i];
        else if (s == "-v") verbose = true;
        else a.push_back(s);
    }
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("LSIM_REEXEC")) {
        setenv("LSIM_REEXEC", "1", 1);
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (a.empty()) die("usage: gen | run | batch");
    struct rlimit rl = {64u << 20, RLIM_INFINITY};
    (void)rl;
    install_handlers();
    if (a[0] == "gen") {
        fputs(generate(a[1], strtoull(a[2].c_str(), 0, 10), a[3], atol(a[4].c_str())).c_str(), stdout);
        return 0;
    }
    if (a[0] == "needs") { puts(needs(a[1], a[2]).c_str()); return 0; }
    if (a[0] == "run") {
        std::ifstream f(a[1]);
        if (!f) die("cannot read " + a[1]);
        std::stringstream ss;
        ss << f.rdbuf();
        Result r = run_plan(ss.str(), true);
        if (verbose) fputs(r.trace.c_str(), stdout);
        print_result(r, -1);
        if (r.bad) printf("VERDICT violation hash=%016llx %s\n", (unsigned long long)r.hash, r.what.c_str());
        else printf("VERDICT ok hash=%016llx\n", (unsigned long long)r.hash);
        return r.bad ? 1 : 0;
    }
    if (a[0] == "batch") {
        Str line;
        while (std::getline(std::cin, line)) {
            if (line == "quit") break;
            long idx = atol(line.c_str());
            g_cur_idx = idx;
            Result r = run_plan(generate(a[1], strtoull(a[2].c_str(), 0, 10), a[3], idx), false);
            print_result(r, idx);
        }
        if (covfile.size()) {
            FILE *f = fopen(covfile.c_str(), "wb");
            if (f) { fwrite(g_allcov, 1, sizeof g_allcov, f); fclose(f); }
        }
        return 0;
    }
    die("unknown mode " + a[0]);
}
