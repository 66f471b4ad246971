#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/props.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS
NOTE = {
 "C01": "Seeded search over keys, messages, forced and real challenges, mixed implementations and interleavings; real sets run once each (quick). Trusts the simulator's challenge forcing, which both sides see alike.",
 "C02": "Seeded search over channel faults and their combinations; finds acceptance bugs reachable by damage and splicing, also with near-colliding digests; no statement about cryptanalysis.",
 "C03": "Seeded search under AddressSanitizer with exactly sized buffers; sees memory errors, traps and hangs, not silent logic errors (C04 does).",
 "C04": "Refinement against an independent executable model written from the scheme, byte for byte, on both implementations; trusts the model.",
 "C05": "Every call is re-executed alone in a fresh instance on the recorded entropy over clean memory and compared.",
 "C06": "Seeded schedules preempt real code at basic blocks; each call is compared with its isolated re-execution. One core's interleavings only; entropy draws are atomic.",
 "C07": "Seeded cancellation and crash points at basic-block granularity, torn outputs delivered; compared with isolated re-execution and the round-trip and authenticity oracles.",
 "C08": "Global uniqueness of every salt and seed block over each simulated history plus perturbation of drawn entropy bytes.",
 "C09": "Published seeds compared with the minimal cover computed independently; every signature scanned for secrets.",
 "C10": "Guarded, exactly sized, garbage-filled buffers; outputs recomputed over other garbage and compared.",
 "C11": "Interleaved streams in random pieces against an independent Keccak.",
 "C12": "The real generator program (three copies) runs on a simulated file system with planned faults; its files are compared with those computed from the library and an independent AES generator. Trusts the real C library's stdio above the seam.",
 "C13": "The real generators run under planned read sequences and cipher faults against an independent AES model.",
 "C14": "Step bounds (about 25 times what the unchanged code needs at most) on every call, under injected streaks of rejected samples.",
 "C23": "The real NEON sources run on x86-64 with Arm's intrinsics emulated lane by lane; every call is executed again by the reference (large sets: AVX2) build on the same inputs and entropy. Trusts the emulation; no Arm compiler or processor is involved.",
 "C24": "The real benchmark programs run on a simulated cycle counter (rdtscp is trapped); printed results are compared with exact statistics of the simulated durations. Only x86-64.",
}
NA = {
 "C20": "Timing and cache side channels are properties of the hardware and compiler; simulation executes one path at a time on an idealised clock and there is no schedule or fault for them to depend on. Known to be violated in places (the code branches on secret permutations), so it is listed for completeness only.",
 "C21": "Pure functions over small domains: no schedule, time, I/O or fault to simulate. Exhaustive or proof techniques fit, simulation does not; their use inside the scheme is checked by C04.",
 "C22": "A cryptographic assumption; no execution of the code can decide it.",
}
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    d = json.loads(line)
    i = d["id"]
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
                       "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "LESS_SIM_PARAMS", "enable": "gcc -DCATEGORY_n=1 '-DLESS_SIM_PARAMS=\"/verif/sim/params/x.h\"' (tools/build.py); all other seams are link-time (ld --wrap) or compile-time (-fsanitize-coverage=trace-pc) and need no change",
               "source_commits": ["98ae9b4"]},
     "checks": checks, "not_applicable": na,
     "notes": "tools/check.py PROP --replay FILE replays a violation; known_findings.txt lists repaired and recorded defects; DESIGN.md explains everything."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
