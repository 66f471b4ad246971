#!/usr/bin/env python3
"""Check one property by deterministic simulation: check.py PROP [--tier quick|thorough] [--plans N] [--replay FILE]

Exit 0: nothing found. Exit 1 with a VIOLATION line: found, reproduced in fresh processes, minimised.
Any other exit: the check itself failed."""
import argparse
import json
import os
import re
import selectors
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
from props import PROPS  # noqa: E402

VERIF = build.VERIF
JOBS = int(os.environ.get("LSIM_JOBS", "8"))
LIB = build.OUT + "/lib"


class CheckError(Exception):
    pass


def argv(prop, *rest):
    m = PROPS[prop]["main"]
    return [build.OUT + "/" + m, "--lib", LIB] + [str(x) for x in rest]


def clean_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("LSIM_") and k not in ("ASAN_OPTIONS", "LD_PRELOAD")}
    return e


def gen(prop, seed, tier, idx):
    return subprocess.run(argv(prop, "gen", prop, seed, tier, idx), stdout=subprocess.PIPE, text=True, check=True, env=clean_env()).stdout


def run_plan(prop, text, timeout=600, verbose=False):
    """-> (verdict, hash, what, output); verdict: ok | bad | hang | error"""
    path = build.OUT + "/run.%d.plan" % os.getpid()
    with open(path, "w") as f:
        f.write(text)
    try:
        r = subprocess.run(argv(prop, *((["-v"] if verbose else []) + ["run", path])), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=timeout, env=clean_env(), errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", "-", "an operation does not return", ""
    finally:
        os.unlink(path)
    m = re.search(r"^VERDICT (ok|violation) hash=([0-9a-f]+) ?(.*)$", r.stdout, re.M)
    if not m:
        return "error", "-", "exit %d: %s" % (r.returncode, (r.stderr or r.stdout)[-500:]), r.stdout
    return ("ok" if m.group(1) == "ok" else "bad"), m.group(2), m.group(3), r.stdout


def klass(what):
    """violation class: the description without numbers"""
    w = re.sub(r"op\d+", "op", what)
    w = re.sub(r"/(ref|avx2|neon)\.\w+", "", w)
    return re.sub(r"\d+", "#", w)


class Worker:
    def __init__(self, prop, seed, tier, n):
        self.cov = build.OUT + "/cov.%d.%d" % (os.getpid(), n)
        self.p = subprocess.Popen(argv(prop, "--cov", self.cov, "batch", prop, seed, tier), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=clean_env(), errors="replace")
        self.idx, self.t0, self.cut = None, 0, False

    def give(self, idx):
        self.idx, self.t0 = idx, time.time()
        try:
            self.p.stdin.write("%d\n" % idx)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass


def parse(line):
    m = re.match(r"RES (-?\d+) (OK|BAD) (.*)$", line)
    if not m:
        return None
    what = None
    rest = m.group(3)
    if " what=" in " " + rest:
        rest, what = (" " + rest).split(" what=", 1)
    d = dict(x.split("=", 1) for x in rest.split())
    return int(m.group(1)), m.group(2), d, what


STOP = 4      # failing plans after which a sweep ends
GRACE = 25    # seconds a sweep goes on after its first failing plan


def sweep(prop, seed, tier, special, total, cap, limit):
    """Runs plans 0..total-1. Returns (results, failures, coverage edges)."""
    t0 = time.time()
    workers = [Worker(prop, seed, tier, i) for i in range(JOBS)]
    sel = selectors.DefaultSelector()
    for w in workers:
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
    nxt, res, fails, covs = 0, [], [], []
    active = set(workers)
    failed_at = None

    def fail(w, what):
        nonlocal failed_at
        failed_at = failed_at or time.time()
        fails.append((w.idx, what, time.time() - w.t0))

    def feed(w):
        nonlocal nxt
        if nxt < total and time.time() - t0 < cap and len(fails) < STOP and not (failed_at and time.time() - failed_at > GRACE):
            w.give(nxt)
            nxt += 1
            return True
        w.idx = None
        try:
            w.p.stdin.close()
        except OSError:
            pass
        return False

    for w in workers:
        feed(w)
    while active:
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            line = w.p.stdout.readline()
            if line:
                r = parse(line.rstrip("\n"))
                if r is None:
                    continue
                w.got = True
                if r[1] == "BAD":
                    fail(w, r[3] or "?")
                    if r[3] and r[3].startswith("crash") and PROPS[prop]["main"] != "katsim":
                        continue    # the process is on its way out
                res.append(r)
                feed(w)
                continue
            # end of file: finished or died
            sel.unregister(w.p.stdout)
            active.discard(w)
            rc = w.p.wait()
            if rc == 0 and w.idx is None:
                if os.path.exists(w.cov):
                    covs.append(open(w.cov, "rb").read())
                    os.unlink(w.cov)
                continue
            if w.idx is not None and rc == 9:
                raise CheckError("simulator error on plan %s" % w.idx)
            if w.idx is not None and not any(f[0] == w.idx for f in fails):
                if not w.cut:
                    fail(w, "crash: worker ended with status %d" % rc)
            if nxt < total and len(fails) < STOP and not (failed_at and time.time() - failed_at > GRACE):
                n = Worker(prop, seed, tier, len(workers))
                workers.append(n)
                active.add(n)
                sel.register(n.p.stdout, selectors.EVENT_READ, n)
                feed(n)
        for w in list(active):
            if w.idx is not None and time.time() - w.t0 > limit and not w.cut:
                fail(w, "hang: an operation does not return")
                w.cut = True
                w.p.kill()
            elif w.idx is not None and failed_at and time.time() - failed_at > 2 * GRACE and not w.cut:
                w.cut = True    # there is a failure to report already
                w.p.kill()
    edges = 0
    if covs:
        acc = int.from_bytes(covs[0], "little")
        for c in covs[1:]:
            acc |= int.from_bytes(c, "little")
        edges = bin(acc).count("1")
    return res, [f[:2] for f in sorted(fails, key=lambda f: (f[2] > 5, f[2] if f[2] > 5 else 0, f[0]))], edges, time.time() - t0   # quick ones first: they are replayed many times


def confirm(prop, text, hang_limit):
    """The verdict has to come out twice, identically, in fresh processes."""
    a = run_plan(prop, text, hang_limit)
    if a[0] == "ok":
        return None
    b = run_plan(prop, text, hang_limit)
    if a[0] == "error" or b[0] == "error":
        raise CheckError("simulator error: " + a[2] + b[2])
    return a if a[:3] == b[:3] else None


def minimise(prop, text, want, budget, hang_limit):
    t0 = time.time()
    k = klass(want[2])
    runs = 0

    def still(lines):
        nonlocal runs
        runs += 1
        v = run_plan(prop, "\n".join(lines) + "\n", hang_limit)
        return v[0] == want[0] and klass(v[2]) == k

    lines = [x for x in text.splitlines() if x.strip()]
    head = [x for x in lines if x.split()[0] in ("plan", "set", "node")]
    body = [x for x in lines if x not in head]
    chunk = max(1, len(body) // 2)
    while chunk >= 1 and time.time() - t0 < budget:
        i, hit = 0, False
        while i < len(body) and time.time() - t0 < budget:
            cand = body[:i] + body[i + chunk:]
            if still(head + cand):
                body, hit = cand, True
            else:
                i += chunk
        if chunk == 1 and not hit:
            break
        chunk = max(1, chunk // 2) if chunk > 1 else (1 if hit else 0)
    # simpler arguments
    for i in range(len(body)):
        for pat, rep in ((r" fill=\d+", ""), (r" poison=\d+", ""), (r"len=\d+", "len=0"), (r"len=\d+", "len=1"), (r" stall=\d+", " stall=0"), (r" unlucky=\d+", " unlucky=0"), (r" pinned=1", " pinned=0")):
            if time.time() - t0 > budget:
                break
            c = re.sub(pat, rep, body[i])
            if c != body[i] and still(head + body[:i] + [c] + body[i + 1:]):
                body[i] = c
    return "\n".join(head + body) + "\n", runs


def known(prop):
    out = []
    path = VERIF + "/known_findings.txt"
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)$", line.strip())
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--plans", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--rate", action="store_true", help="run every plan and report how many fail")
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    prop, cfg = a.prop, PROPS[a.prop]
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(build.OUT, exist_ok=True)
    os.makedirs(VERIF + "/replays", exist_ok=True)
    build.ensure([], main=(cfg["main"],))
    if a.replay:
        text = open(a.replay).read()
        s = re.search(r"^set (\S+) (\S+)", text, re.M)
        if s and cfg["main"].startswith("lsim"):
            build.ensure([(i, s.group(1), s.group(2)) for i in sorted({"ref", "avx2"} | set(re.findall(r"^node \d+ (\S+)", text, re.M)))], main=())
        elif not s:
            build.ensure([tuple(x.split(".")) for x in subprocess.run(argv(prop, "needs", prop, "quick"), stdout=subprocess.PIPE, text=True, env=clean_env()).stdout.split()[1:]], main=())
        v = run_plan(prop, text, 600, verbose=True)
        print(v[3])
        sys.exit({"ok": 0, "bad": 1, "hang": 1}.get(v[0], 3))
    need = subprocess.run(argv(prop, "needs", prop, tier), stdout=subprocess.PIPE, text=True, check=True, env=clean_env()).stdout.split()
    special, libs = int(need[0]), [tuple(x.split(".")) for x in need[1:]]
    build.ensure(libs, main=(), jobs=JOBS)
    tb = time.time() - t0
    total = a.plans or cfg[tier][0]
    cap = cfg[tier][1]
    limit = cfg.get("limit", 240)
    print("property %s, tier %s, seed %d: built in %.1f s; up to %d simulated runs" % (prop, tier, seed, tb, total), flush=True)
    if a.rate:
        global STOP, GRACE
        STOP = GRACE = 10 ** 9
        res, fails, edges, wall = sweep(prop, seed, tier, special, total, 10 ** 9, limit)
        print("%d of %d plans fail, the first is plan %s; %.0f s" % (len(fails), total, fails[0][0] if fails else "-", wall))
        for f in fails[:5]:
            print("  %d %s" % f)
        return
    res, fails, edges, wall = sweep(prop, seed, tier, special, total, cap, limit)
    kf = known(prop)
    seen_known, viol = set(), None
    for idx, what in fails:
        text = gen(prop, seed, tier, idx)
        hang = what.startswith("hang")
        t1 = time.time()
        c = confirm(prop, text, min(limit, 150) if hang else limit)
        limit1 = max(15, 3 * (time.time() - t1))
        if c is None:
            print("plan %d: '%s' did not reproduce in a fresh process" % (idx, what))
            continue
        hit = [d for rx, d in kf if rx.search(c[2])]
        if hit:
            seen_known.add(hit[0])
            continue
        print("plan %d violates the property: %s" % (idx, c[2]), flush=True)
        small, runs = (text, 0) if hang else minimise(prop, text, c, cfg.get("min_s", 60), min(limit, limit1))
        m = confirm(prop, small, limit) if small != text else c
        if m is None:
            small, m = text, c
        path = "replays/%s-%d-%d.plan" % (prop, seed, idx)
        n_all, n_min = len(text.splitlines()), len(small.splitlines())
        with open(VERIF + "/" + path, "w") as f:
            f.write("# property %s, VERIF_SEED=%d, tier %s, plan %d; minimised from %d to %d lines in %d runs\n# %s\n# event hash %s\n# replay: python3 tools/check.py %s --replay %s\n%s" % (
                prop, seed, tier, idx, n_all, n_min, runs, m[2], m[1], prop, path, small))
        viol = (path, m[2], small)
        break
    unconfirmed = bool(fails) and viol is None and not seen_known
    write_evidence(prop, cfg, tier, seed, res, edges, wall, time.time() - t0, tb, viol, a)
    for rx, d in kf:
        if d in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, d))
    n = len(res)
    print("%d simulated runs in %.1f s (%.0f per hour), %d operations" % (n, wall, n * 3600 / max(wall, .01), sum(int(r[2].get("ops", 0)) for r in res)))
    if viol:
        print("violation: %s" % viol[1])
        print("replay (%d lines):\n%s" % (len(viol[2].splitlines()), viol[2]))
        print("VIOLATION property=%s replay=%s" % (prop, viol[0]))
        sys.exit(1)
    if unconfirmed:
        print("error: a run failed but its plan does not reproduce the failure")
        sys.exit(3)
    if n < min(total, cfg.get("min_runs", 20)):
        print("error: only %d of %d runs were made" % (n, total))
        sys.exit(3)
    for probe, least in cfg.get("probes", {}).get(tier, {}).items():
        got = sum(int(r[2].get(probe, 0)) for r in res)
        if got < least and not a.plans and n == total:
            print("note: probe %s reached %d times (expected at least %d)" % (probe, got, least))
    print("property %s held in every run" % prop)


def write_evidence(prop, cfg, tier, seed, res, edges, wall, total_wall, tb, viol, a):
    if a.no_evidence:
        return
    sums, kinds = {}, {}
    for r in res:
        for k, v in r[2].items():
            if k in ("hash", "sched", "new"):
                continue
            try:
                v = int(v)
            except ValueError:
                continue
            sums[k] = sums.get(k, 0) + v
    faults = {k[6:]: v for k, v in sums.items() if k.startswith("fault_")}
    probes = {k: v for k, v in sums.items() if not k.startswith("fault_") and k not in ("ticks", "ops", "opens", "slices")}
    hashes = {r[2].get("hash") for r in res if int(r[2].get(cfg.get("nontrivial", "ops"), 0)) > 0}
    scheds = {r[2].get("sched") for r in res}
    samples = []
    for i in ([res[0], res[len(res) // 2]] if res else []):
        try:
            samples.append({"plan": i[0], "text": gen(prop, seed, tier, i[0])[:1500], "result": i[2]})
        except Exception:
            pass
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(res),
            "distinct_nontrivial": len(hashes),
            "rule": cfg["rule"],
            "samples": samples or [{"plan": None}],
            "simulated_runs": len(res),
            "seeds": "plans 0..%d of VERIF_SEED=%d, each with its own derived seed" % (len(res) - 1, seed),
            "runs_per_hour": round(len(res) * 3600 / max(wall, .01)),
            "simulated_time_ticks": sums.get("ticks", 0),
            "simulated_time_unit": cfg.get("unit", "executed basic blocks of the real code (only preemptible builds are counted)"),
            "operations": sums.get("ops", 0),
            "fault_kinds_injected": faults,
            "distinct_event_histories": len(hashes),
            "distinct_schedules": len(scheds),
            "edge_pairs_reached": edges,
            "probes": probes,
            "real_components": cfg["real"],
            "stubbed_components": cfg["stub"],
        },
        "assumptions": cfg["assume"],
        "wall_s": round(total_wall, 2),
        "violations": 1 if viol else 0,
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    try:
        main()
    except (CheckError, build.BuildError) as e:
        print("error: %s" % e)
        sys.exit(3)
