#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
R, O = "Reference_Implementation/", "Optimized_Implementation/common/"
def both(*fs): return [R + f for f in fs] + [O + f for f in fs]
L = []
def p(id, title, st, over, qt, why, files, mech, state=(), obs=(), hook=None):
    L.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(obs), hook_needed=hook)))
API = ["crypto_sign_keypair / crypto_sign / crypto_sign_open (lib/sign.c)"]
p("C01", "Every honestly signed message verifies and is recovered unchanged",
  "For every key pair the library generates, every message of any length (empty, longer than 4 GiB, any content), every entropy and every challenge that can come out, signing succeeds and opening the signed message with the matching public key accepts and returns exactly that message and its length. This holds in whichever implementation (reference or AVX2) each of the three calls runs, in any order of calls, and for every shipped parameter set.",
  ["inputs", "histories", "configurations", "schedules"], "all seeds, messages, challenges (including those that publish the maximum number of seeds or make the verifier skip or redo work), all 7 parameter sets, both implementations in every role",
  "The tests sign a handful of messages per set with a few seeds; the challenge that publishes the maximum number of seeds has probability below 2^-40 and was in fact rejected before the repair d9575e1. No test mixes implementations or uses long messages.",
  both("lib/LESS.c", "lib/sign.c", "lib/seedtree.c", "lib/codes.c", "lib/monomial.c", "include/parameters.h") + ["Optimized_Implementation/avx2/lib/codes.c"],
  [("commit / challenge / respond and its recomputation", "LESS_sign, LESS_verify in lib/LESS.c"), ("seed tree publication and regeneration", "lib/seedtree.c"), ("length bookkeeping of signed messages", "lib/sign.c")],
  [("flag tree", "which seeds are published", "lib/seedtree.c")], API, "LESS_SIM_PARAMS selects scaled down parameter sets")
p("C02", "No signed message altered, spliced or replayed in transit opens as new",
  "If opening a signed message under an honestly generated public key accepts, then the returned message is one that the holder of that key signed. This holds whatever an unreliable or hostile channel did to the signed message: bit damage, truncation, extension, rearranged parts, parts of other signatures, another key, wrong counts, and challenges forced to their most favourable values.",
  ["inputs", "histories", "fault_sequences"], "all sequences of key generations, signatures and channel damage (single and combined) over every region of a signed message, under both implementations",
  "The only negative check in the repository flips bytes of a single signature; nothing tests splicing across signatures and keys, lengths and counts, unused bits, or a digest that agrees with the right one in almost every byte.",
  both("lib/LESS.c", "lib/sign.c", "lib/codes.c", "lib/monomial.c", "lib/seedtree.c"),
  [("final digest comparison", "timing_safe_memcmp and its caller LESS_verify in lib/LESS.c"), ("digest over every commitment, the message, its length and the salt", "LESS_verify in lib/LESS.c"), ("seed regeneration bound to the published count", "lib/seedtree.c")], [], API)
p("C03", "Hostile signed messages and public keys are contained",
  "Opening any byte string of any length under any public key bytes, and signing with any bytes as a private key, returns normally: it never reads or writes outside the given buffers (a message buffer as long as the signed message, as the interface documents), never traps, and never hangs. Inputs are never modified.",
  ["inputs", "fault_sequences"], "all byte strings as signed messages (every length from 0), public keys and private keys, alone and in combination, in both implementations",
  "No test feeds lengths below a signature, wrong seed counts or public keys that do not decode; before the repairs b3571c4, 663bb9a and 86c7f79 such inputs read and wrote out of bounds.",
  both("lib/sign.c", "lib/LESS.c", "lib/seedtree.c", "lib/codes.c", "lib/monomial.c") + ["Optimized_Implementation/avx2/lib/codes.c"],
  [("length checks before any part is used", "crypto_sign_open in lib/sign.c"), ("decoding checks", "expand_to_rref in lib/codes.c"), ("bounded seed regeneration", "lib/seedtree.c")], [], API + ["AddressSanitizer reports", "faults on guard pages"])
p("C04", "Both implementations compute the documented scheme, bit for bit",
  "Given the same entropy, key and message, the reference and the AVX2 implementation produce identical public keys, private keys and signed messages, equal to those the scheme defines, and drawing the entropy in the same amounts. For every signed message and every well-formed public key both give the verdict and message the scheme defines. A public key part that marks the wrong number of pivots, and so encodes no code, lets no signed message that uses it open.",
  ["inputs", "configurations", "histories"], "all seeds, messages, forced challenges, damaged signed messages and damaged keys, on both implementations and all parameter sets; the oracle is an independent executable model",
  "The recorded KAT tests compare each build with itself; nothing compares the two implementations on the same inputs, on rare challenges, on damaged inputs, or with an independent description.",
  both("lib/LESS.c", "lib/codes.c", "lib/monomial.c", "lib/seedtree.c", "lib/utils.c", "lib/rng.c", "include/fq_arith.h", "include/rng.h") + ["Optimized_Implementation/avx2/lib/codes.c"],
  [("same arithmetic in scalar and vector form", "lib/codes.c of both trees"), ("shared packing formats", "compress_rref, expand_to_rref, compress_monom_action in lib/codes.c, lib/monomial.c")], [], API)
p("C05", "A call's result depends only on its inputs and the entropy it draws",
  "The outcome of generating a key, signing or opening is a function of the inputs and of the entropy the call draws: it does not depend on which calls ran before in the process (including rejected ones), nor on the previous contents of output buffers, stack or other memory.",
  ["histories", "inputs"], "all histories of calls on valid and invalid inputs, over all prior memory contents",
  "Tests run one fixed sequence of calls over whatever memory happens to hold, usually zeros; a read of uninitialised memory or a leftover global changes nothing they look at.",
  both("lib/LESS.c", "lib/codes.c", "lib/monomial.c", "lib/seedtree.c", "lib/sign.c", "lib/rng.c"),
  [("no state but the entropy generator", "platform_csprng_state in lib/rng.c"), ("locals initialised before use", "lib/LESS.c, lib/codes.c")], [("platform_csprng_state", "entropy generator, the only mutable state", "lib/rng.c")], API)
p("C06", "Calls in progress at the same time do not affect each other",
  "When several key generations, signatures and verifications are in progress at once in one process (threads, or signal handlers), each gives exactly the result it gives when run alone on the same inputs and the same entropy. No schedule makes one call see or disturb another's intermediate data.",
  ["schedules", "histories"], "all interleavings of up to five calls at basic-block granularity, with a single draw of entropy taken as atomic",
  "The tests are single threaded. A scratch buffer made static, a cached matrix or a shared table being built lazily passes all of them.",
  both("lib/LESS.c", "lib/codes.c", "lib/monomial.c", "lib/seedtree.c", "lib/utils.c", "lib/sign.c", "lib/fips202.c"),
  [("all working data on the caller's stack", "lib/LESS.c, lib/codes.c"), ("constant tables are const", "lib/codes.c, lib/keccakf1600.c")], [("platform_csprng_state", "shared by all calls", "lib/rng.c")], API)
p("C07", "Cancelled calls and crashes leave nothing behind; partial output is never valid",
  "If a call is abandoned at any point (cancelled thread, longjmp out, crash and restart) then every later call in that or a restarted process behaves as if the abandoned one had never run, apart from the entropy it consumed. What an abandoned signer had written so far never opens as a message it was not asked to sign, and honest round trips keep working.",
  ["crash_points", "histories", "fault_sequences"], "all points of abandonment (every basic block) of every operation, sequences of several of them, restarts with only keys and finished outputs surviving, and delivery of torn outputs under any claimed length",
  "No test interrupts a call.",
  both("lib/LESS.c", "lib/sign.c", "lib/codes.c", "lib/seedtree.c", "lib/rng.c"),
  [("no cross-call state", "lib/LESS.c"), ("signature count and length written last", "lib/sign.c")], [("platform_csprng_state", "what survives a cancelled call", "lib/rng.c")], API)
p("C08", "Every secret and salt comes from fresh entropy, all of which is used",
  "Every key generation and every signature draws its seeds and salt anew from the entropy source, at least as much as the security level asks for, and every byte drawn influences the result, so two calls never reuse a salt or a secret seed; verification draws none. This holds across calls, interleavings, nodes and restarts (with a newly seeded source).",
  ["histories", "schedules", "crash_points", "inputs"], "all histories of calls on several nodes with crashes and reseeding; each entropy byte of sampled calls is perturbed",
  "Tests verify signatures; signatures made with a constant salt, a truncated seed or a reused root verify as well.",
  both("lib/LESS.c", "lib/rng.c", "include/rng.h", "lib/seedtree.c"),
  [("draw per call", "LESS_keygen and LESS_sign in lib/LESS.c"), ("seed tree expansion with the salt", "lib/seedtree.c")], [("platform_csprng_state", "advances with every draw", "lib/rng.c")], API)
p("C09", "A signature discloses the seeds of unchallenged rounds and nothing more",
  "The seeds a signature publishes determine exactly the ephemeral seeds of the rounds its challenge leaves unchallenged, by the fewest tree nodes, in the order the verifier uses them. No seed of a challenged round, no ancestor of one, and no secret of the private key can be read from a signature or public key, whatever the challenge.",
  ["inputs", "histories"], "all challenges (real and forced: fewest, most, clustered, alternating, boundary rounds), keys and entropies, over tree shapes with and without unused leaves",
  "A signature that publishes too much verifies just as well, and no test looks at what is published.",
  both("lib/seedtree.c", "lib/LESS.c", "include/parameters.h"),
  [("publication flags propagated from leaves to root", "compute_seeds_to_publish in lib/seedtree.c"), ("publication", "publish_seeds in lib/seedtree.c")], [("flag tree", "nodes whose seed is disclosed", "lib/seedtree.c")], API)
p("C10", "Calls respect the announced sizes and report exact lengths",
  "With buffers of exactly the announced sizes, key generation and signing write every byte they announce and not one outside, leave their inputs unchanged, and report a length that matches what they wrote; a signed message starts with the message and is longer by no more than the announced maximum. Opening returns the length that was signed.",
  ["inputs", "configurations"], "all messages, keys, entropies and challenges, including those needing the largest signature, for every parameter set and both implementations, over every previous buffer content",
  "Tests allocate generously, and the largest signature practically never occurs by chance.",
  both("lib/sign.c", "lib/LESS.c", "lib/codes.c", "lib/seedtree.c", "include/api.h", "include/parameters.h", "include/LESS.h"),
  [("size macros", "include/api.h, include/LESS.h, include/parameters.h"), ("signed length", "crypto_sign in lib/sign.c")], [], API)
p("C11", "Hash, XOF and random streams do not depend on how they are fed or read",
  "SHAKE128/256, SHA3-256/384/512 and the deterministic generators built on them produce the standard's output for every message and every way of splitting input and output into pieces of any size (including empty ones), with any number of streams in progress at once. One-shot and incremental use agree.",
  ["inputs", "schedules", "histories"], "all splits of input and output, all lengths around block boundaries, several interleaved streams and implementations",
  "No test exercises the incremental interface in pieces; signing uses it with a few fixed shapes.",
  both("lib/fips202.c", "lib/keccakf1600.c", "include/sha3.h", "include/rng.h", "lib/rng.c"),
  [("position kept in the context between calls", "keccak_inc_absorb, keccak_inc_squeeze in lib/fips202.c")], [("incremental context", "sponge lanes plus position", "lib/fips202.c")], ["shake*_inc_*, sha3_*_inc_*, csprng_randombytes, randombytes"])
p("C12", "The known-answer generator never reports success over wrong or partial files",
  "If the known-answer generator exits with success then its request and response files are complete and correct: every record present, in order, with its seed, message, keys, signed message and lengths exactly as the library computes them from the recorded seeds. Any failure to create, write, read, rewind or flush a file, to get memory or random bytes, to generate keys or to sign, and any signed message that does not open to the same message again, ends in a failure status and not in a crash, a hang or a success.",
  ["fault_sequences", "crash_points", "inputs"], "all placements of I/O and allocation faults (full disk, I/O error, short transfers, premature end, failing open, seek, close, allocation, cipher) and of failing library calls along the generator's run",
  "It is run by hand on a healthy disk; nothing in the test suite injects a fault, and before the repair 261c8c6 a full disk gave a truncated file and exit status 0.",
  [R + "lib/nist/PQCgenKAT_sign.c", O + "lib/nist/PQCgenKAT_sign.c", "Utilities/KAT_Generation/lib/PQCgenKAT_sign.c"],
  [("error checks of every I/O call", "main, ReadHex, fprintBstr in lib/nist/PQCgenKAT_sign.c")], [("request file", "is written first and read back", "main in lib/nist/PQCgenKAT_sign.c")], ["exit status and the two files"])
p("C13", "The known-answer random generators deliver their stream under every use",
  "The seed expander and the AES counter-mode generator of the known-answer tools deliver exactly the byte stream their definition gives for a seed, however reads are split, interleaved or reseeded; requests beyond the announced maximum or with missing arguments are refused with the documented code and change nothing. A failing crypto call stops them with an error and never yields predictable or stale bytes as random.",
  ["histories", "fault_sequences", "inputs"], "all sequences of initialisations and reads of any size, with faults in the block cipher calls at any point",
  "No test calls them except through one fixed KAT run.",
  [R + "lib/nist/KAT_NIST_rng.c", O + "lib/nist/KAT_NIST_rng.c", "Utilities/KAT_Generation/lib/KAT_NIST_rng.c"],
  [("buffer position and remaining length in the context", "seedexpander in lib/nist/KAT_NIST_rng.c"), ("error path", "handleErrors in lib/nist/KAT_NIST_rng.c")], [("AES_XOF_struct", "buffer, position, key, counter, remaining", "lib/nist/KAT_NIST_rng.h")], ["return codes and bytes"])
p("C14", "Every call ends within a bounded number of steps, however unlucky its randomness",
  "Key generation, signing and opening return within a number of steps proportional to the parameters: rejection sampling keeps making progress through long streaks of rejected values once the streak ends, and no damaged or hostile input makes a call run longer than an honest one by more than a constant factor.",
  ["inputs", "fault_sequences", "schedules"], "all streaks of rejected challenge words and rejected sampling bytes followed by ordinary ones, and all damaged inputs",
  "A streak of thousands of rejected samples never occurs in a test.",
  both("lib/LESS.c", "lib/utils.c", "lib/codes.c", "lib/monomial.c", "include/rng.h"),
  [("rejection sampling loops", "SampleChallenge in lib/utils.c, FUNC generator sampling in lib/codes.c, include/rng.h")], [], API + ["basic blocks executed"])
p("C23", "The NEON build computes the same results as the reference",
  "Built from the NEON tree, the library produces the same keys, signed messages, verdicts and recovered messages as the reference implementation (and as the AVX2 one) for the same inputs and entropy, drawing the same amount of it, for honest and for damaged signed messages and for every parameter set.",
  ["inputs", "configurations", "histories"], "all seeds, messages, challenges and damaged signed messages, all parameter sets, whatever ran before in the process; Arm's vector instructions as Arm defines them",
  "No test is built for ARM here, and the ones that exist compare the NEON build only with itself.",
  ["Optimized_Implementation/neon/include/macro.h", O + "lib/codes.c", O + "lib/LESS.c", O + "lib/monomial.c", O + "lib/seedtree.c", O + "include/fq_arith.h"],
  [("vector macros in terms of Arm intrinsics", "Optimized_Implementation/neon/include/macro.h"), ("vector row operations shared with the AVX2 build", O + "lib/codes.c")], [], API)
# not claimed
p("C20", "Running time and memory accesses do not depend on secrets",
  "The instructions executed and addresses touched while generating keys and signing do not depend on private seeds, so timing and cache observers learn nothing.",
  ["inputs"], "all secrets, compared pairwise", "Tests check results only.", both("lib/LESS.c", "lib/codes.c", "lib/monomial.c", "include/fq_arith.h"), [("branch-free arithmetic", "include/fq_arith.h"), ("timing_safe_memcmp", "lib/LESS.c")])
p("C21", "Field arithmetic and packing functions are total and exact",
  "Each arithmetic helper over the field with 127 elements and each packing function gives the mathematically exact result for every argument in its domain, and packing followed by unpacking is the identity.",
  ["inputs"], "all arguments of each helper", "Unit tests sample arguments.", both("include/fq_arith.h", "lib/codes.c", "lib/monomial.c"), [("reduction macros", "include/fq_arith.h")])
p("C22", "Forging without the private key is infeasible at the claimed level",
  "No adversary of the claimed cost can produce a signed message that opens under a key it does not hold, beyond what the hardness assumption allows.",
  ["programs"], "all adversaries", "Not testable.", ["LESS-2024-02-19.pdf"], [("parameter choice", "include/parameters.h")])
p("C24", "The benchmark's reported cycle statistics are those of the measured calls",
  "The mean and standard deviation the benchmark tools print for each operation are those of the time its measured calls took, each call being measured from just before it starts to just after it ends, whatever those times are (constant, minute, huge, widely spread) and wherever the cycle counter starts. A verification that fails is reported as such.",
  ["inputs", "schedules"], "all sequences of durations and clock starting points, with and without failing verifications", "No test runs the benchmarks or looks at the numbers.", ["Utilities/Benchmarking/include/timing_and_stat.h", R + "lib/bench/less_benchmark.c"], [("Welford statistics", "Utilities/Benchmarking/include/timing_and_stat.h"), ("start and stop of each measurement", "microbench, LESS_sign_verify_speed in " + R + "lib/bench/less_benchmark.c")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in L: f.write(json.dumps(d, ensure_ascii=False) + "\n")
