"""Per property configuration of the checks: (number of simulated runs, wall cap in seconds) per tier, probes, evidence text."""

REAL = ["key generation, signing, verification, seed tree, code arithmetic, Keccak/SHAKE, CSPRNG: /repo's own sources, reference and AVX2 implementations, compiled from the working tree"]
STUB = ["operating system entropy: replaced by the library's own deterministic generator, seeded by the plan",
        "challenge / sampling streams: real, except in runs that force them (fault kinds forced_challenge, unlucky_challenge_words, stalled_sampling_stream)",
        "thread scheduler: callers are fibers switched at basic-block boundaries by the plan"]
BASE_ASSUME = ["most runs use scaled-down parameter sets (same code, fewer rounds and smaller matrices, selected by LESS_SIM_PARAMS); real sets run where stated",
               "x86-64 with AVX2, gcc; the NEON sources run in C23 only"]


KREAL = ["the known-answer generator and its random generators: /repo's own sources (three copies), compiled from the working tree, on the real LESS library, real OpenSSL and real C library stdio"]
KSTUB = ["the file system under stdio (in memory), the allocator's and cipher's failures, process end"]


def P(main="lsim", **kw):
    d = dict(main=main, real=REAL, stub=STUB, assume=BASE_ASSUME, limit=240, min_s=60)
    d.update(kw)
    d["assume"] = BASE_ASSUME + kw.get("assume", []) if main.startswith("lsim") else kw.get("assume", [])
    return d


PROPS = {
    "C01": P(quick=(420, 500), thorough=(12000, 3000), limit=400,
             rule="a plan = nodes, seeds, forced challenges, garbage memory, keygen/sign/open calls and their interleaving, all from one derived seed; some plans are histories of more than a thousand calls, or run a shipped set under every shape of challenge; non-trivial: at least one undamaged signed message was opened and compared",
             nontrivial="honest_round_trips", probes={"quick": {"honest_round_trips": 400, "signatures_with_max_seeds": 50, "huge_opens": 2}},
             assume=["messages over 4 GiB: the absorption of the message is replaced by a digest of its length and samples of its contents"]),
    "C02": P(quick=(400, 500), thorough=(8000, 3000), rule="a plan = keys, signed messages, and 8 to 24 deliveries damaged, spliced, redirected or replayed by the channel; non-trivial: at least one delivery was opened", nontrivial="opens",
             probes={"quick": {"opens_rejected": 800, "malleated_but_same_message": 20}},
             assume=["forgeries are those the simulated channel can make (damage, splicing, replay), not cryptanalysis"]),
    "C03": P(main="lsim_asan", quick=(420, 500), thorough=(12000, 3000), rule="a plan = keys, signed messages and 6 to 16 calls on damaged inputs of every length, under AddressSanitizer with exactly sized buffers; non-trivial: at least one open ran", nontrivial="opens",
             probes={"quick": {"opens_rejected": 1000}}, assume=["memory errors AddressSanitizer and guard pages can see"]),
    "C04": P(quick=(260, 500), thorough=(6000, 3000), limit=600, rule="a plan = one or two replicas living the same life plus damaged deliveries; every result is compared byte for byte with the reference model (in the sets too large for it, with the other implementation); non-trivial: at least one operation compared", nontrivial="ops",
             probes={"quick": {"model_accepts": 60, "model_rejects": 200, "twin_compared": 12}}, assume=["the reference model (sim/model.hpp) states the scheme; malformed public keys are outside its verdict"]),
    "C05": P(quick=(260, 500), thorough=(8000, 3000), rule="a plan = a history of calls over garbage-filled buffers and stack; every call is executed again alone in a fresh instance over clean memory; two plans are histories of more than a thousand calls; non-trivial: at least one comparison", nontrivial="isolation_compared",
             probes={"quick": {"isolation_compared": 800}}),
    "C06": P(quick=(340, 500), thorough=(8000, 3000), rule="a plan = up to five calls in progress at once on one instance (9 to 65 in the crowd plans), preempted at planned times or at chosen code locations; every call is executed again alone on the same entropy; non-trivial: at least one call overlapped another", nontrivial="overlapped_ops",
             probes={"quick": {"overlapped_ops": 600, "preemptions": 3000, "preemptions_at_rare_blocks": 1000}},
             assume=["a single draw from the shared entropy generator is not preempted (the repository documents no thread safety for it)", "preemption at basic blocks of one core; no weak memory effects"]),
    "C07": P(quick=(240, 500), thorough=(8000, 3000), rule="a plan = calls cancelled at planned times or code locations (hundreds in one history in the marathon plans), node crashes with restart, torn outputs replayed; non-trivial: at least one call was cut", nontrivial="preemptions",
             probes={"quick": {"fault_cancelled_operation": 150, "fault_node_crash": 80, "fault_torn_output": 50, "preemptions_at_rare_blocks": 150}}),
    "C08": P(quick=(260, 500), thorough=(8000, 3000), rule="a plan = nodes with distinct seeds living through signs, verifications, crashes; every result is re-executed with one entropy byte changed; non-trivial: at least one entropy byte probed", nontrivial="entropy_bytes_probed",
             probes={"quick": {"entropy_bytes_probed": 500, "fault_nearly_equal_seeds": 15}}),
    "C09": P(quick=(360, 500), thorough=(10000, 3000), rule="a plan = signatures under real and forced challenges; non-trivial: at least one signature scanned", nontrivial="signatures_scanned",
             probes={"quick": {"signatures_scanned": 600, "signatures_with_max_seeds": 100}}),
    "C10": P(quick=(260, 500), thorough=(8000, 3000), limit=400, rule="a plan = honest calls on exactly sized, garbage-filled, guarded buffers; non-trivial: at least one contract checked", nontrivial="contracts_checked",
             probes={"quick": {"contracts_checked": 500, "signatures_with_max_seeds": 50}}),
    "C11": P(quick=(6000, 300), thorough=(400000, 2000), rule="a plan = up to five hash / XOF / CSPRNG streams fed and read in interleaved pieces; non-trivial: at least one output compared", nontrivial="hash_squeezes",
             probes={"quick": {"hash_squeezes": 10000, "hash_long": 5}}, assume=["inputs and outputs up to 40 KB per stream, except in the runs with one piece of more than 4 GiB"]),
    "C14": P(quick=(600, 500), thorough=(8000, 3000), rule="a plan = calls under rejected challenge words, stalled sampling streams and damaged inputs, each with a step bound; non-trivial: at least one call returned", nontrivial="ops",
             probes={"quick": {"fault_stalled_sampling_stream": 100}}, assume=["progress is demanded once the injected streak of rejected words has ended"]),
    "C23": P(quick=(260, 500), thorough=(8000, 3000), limit=600, rule="a plan = keys, signed messages and damaged deliveries on NEON and reference nodes; every call is executed again by the other implementation on the same inputs and entropy; non-trivial: at least one call compared", nontrivial="twin_compared",
             real=["the NEON sources of the optimised implementation, the reference and AVX2 implementations: /repo's own sources, compiled from the working tree"],
             stub=STUB + ["the Arm vector instructions: emulated lane by lane on x86-64 (sim/neon/arm_neon.h), so the compiler for Arm and the processor are not real"],
             probes={"quick": {"twin_compared": 1500, "twin_accepts": 200, "twin_rejects": 200}},
             assume=["the emulated intrinsics mean what Arm's definitions say", "little-endian, char is signed (as on the platform the NEON tree is written for)"]),
    "C12": P(main="katsim", quick=(260, 500), thorough=(12000, 3000), limit=120, real=KREAL, stub=KSTUB, unit="file operations",
             rule="a plan = one run of the known-answer generator (one of its three copies) on a simulated file system with planned faults; non-trivial: it ended and its status and files were judged",
             nontrivial="file_operations", probes={"quick": {"files_compared": 60, "ended_in_failure": 80}},
             assume=["one request at a time on the simulated disk; the C library's own buffering and formatting are real", "scaled-down parameter set except in one run"]),
    "C13": P(main="katsim", quick=(1500, 300), thorough=(60000, 2000), limit=400, real=KREAL, stub=KSTUB, unit="calls",
             rule="a plan = initialisations and reads of up to five seed expanders and the counter-mode generator, with planned cipher faults; non-trivial: at least one read compared",
             nontrivial="reads_compared", probes={"quick": {"reads_compared": 10000, "stopped_by_error": 300, "refusals": 1000, "long_reads": 1, "counters_near_carry": 200}},
             assume=["OpenSSL's AES is real except in the reads of several GiB, where a cheap permutation stands in for it; its calls fail only where planned"]),
    "C24": P(main="katsim", quick=(400, 300), thorough=(8000, 1500), limit=200, real=["the benchmark programs (four sources of less_benchmark.c, and the three of the memory benchmark; reference and AVX2 builds); LESS itself in the runs marked real"],
             stub=["the cycle counter (rdtscp traps to the simulator)", "the measured operations in runs not marked real: they only let simulated time pass"], unit="measured calls",
             rule="a plan = one run of a benchmark program on a simulated clock; non-trivial: its statistics were compared", nontrivial="statistics_compared",
             probes={"quick": {"statistics_compared": 900}}, assume=["time passes only inside measured calls"]),
}
