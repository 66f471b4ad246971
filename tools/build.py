"""Builds the simulator and simulation builds of LESS from the sources in /repo's working tree.

Everything lands in /verif/.build (git-ignored); an artefact is keyed by the contents of all its inputs, so a change in
/repo always leads to a rebuild and nothing stale is ever used."""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LSIM_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
SIM = os.path.join(VERIF, "sim")

IMPL = {"ref": REPO + "/Reference_Implementation", "avx2": REPO + "/Optimized_Implementation/avx2", "neon": REPO + "/Optimized_Implementation/neon"}
# the NEON sources run on an emulation of the Arm intrinsics (sim/neon/arm_neon.h)
IMPL_FLAGS = {"neon": ["-I", SIM + "/neon", "-flax-vector-conversions", "-fwrapv"]}
SMALL = {"s1a": 1, "s1b": 1, "s1c": 1, "sk": 1, "s3a": 3, "s3b": 3, "s5a": 5, "s5b": 5}
REAL = {"1B": (1, "BALANCED"), "1I": (1, "INTERMEDIATE"), "1S": (1, "SHORT_SIG"), "3B": (3, "BALANCED"),
        "3S": (3, "SHORT_SIG"), "5B": (5, "BALANCED"), "5S": (5, "SHORT_SIG")}
RELEASE = ("-O3 -DNDEBUG -fpermissive -march=native -mavx2 -mavx -ftree-vectorize -funroll-loops "
           "-fomit-frame-pointer -fno-stack-protector").split()
FLAV = {
    "plain": RELEASE,                                     # the flags of the shipped Release build
    "pre": RELEASE,                                       # the same, plus a callback on every basic block
    "asan": "-O1 -g -march=native -mavx2 -mavx -fno-omit-frame-pointer -fsanitize=address --param asan-use-after-return=0".split(),
}
WRAP = ["shake%d_inc_%s" % (b, f) for b in (128, 256) for f in ("init", "absorb", "finalize", "squeeze")] + \
       ["sha3_%d_inc_%s" % (b, f) for b in (256, 384, 512) for f in ("init", "absorb", "finalize")] + \
       ["malloc", "aligned_alloc", "posix_memalign"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.stdout


def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


_cc = None


def cc_id():
    global _cc
    if _cc is None:
        _cc = run(["gcc", "--version"]).splitlines()[0] + hashlib.sha256(
            run(["gcc", "-march=native", "-Q", "--help=target"]).encode()).hexdigest()
    return _cc


# command line tools: implementation they are built against, their own sources (directory, files), extra include directories
TOOLS = {
    "katref": ("ref", REPO + "/Reference_Implementation/lib/nist", ("KAT_NIST_rng.c", "PQCgenKAT_sign.c"), []),
    "katavx2": ("avx2", REPO + "/Optimized_Implementation/avx2/lib/nist", ("KAT_NIST_rng.c", "PQCgenKAT_sign.c"), []),
    "katutil": ("ref", REPO + "/Utilities/KAT_Generation/lib", ("KAT_NIST_rng.c", "PQCgenKAT_sign.c"), [REPO + "/Utilities/KAT_Generation/include"]),
    "benchref": ("ref", REPO + "/Reference_Implementation/lib/bench", ("less_benchmark.c",), []),
    "benchavx2": ("avx2", REPO + "/Optimized_Implementation/avx2/lib/bench", ("less_benchmark.c",), []),
    "benchutil": ("avx2", REPO + "/Utilities/Benchmarking/lib", ("less_benchmark.c",), [REPO + "/Utilities/Benchmarking/include"]),
    "memkeygen": ("avx2", REPO + "/Utilities/MemoryBenchmarking/lib", ("less_keygen.c",), [REPO + "/Utilities/MemoryBenchmarking/include"]),
    "memsign": ("avx2", REPO + "/Utilities/MemoryBenchmarking/lib", ("less_sign.c",), [REPO + "/Utilities/MemoryBenchmarking/include"]),
    "memverify": ("avx2", REPO + "/Utilities/MemoryBenchmarking/lib", ("less_verify.c",), [REPO + "/Utilities/MemoryBenchmarking/include"]),
    "benchmem": ("avx2", REPO + "/Utilities/MemoryBenchmarking/lib", ("less_benchmark.c",), [REPO + "/Utilities/MemoryBenchmarking/include"]),
}
TOOLFLAV = {"kat": [], "katasan": "-O1 -g -fno-omit-frame-pointer -fsanitize=address --param asan-use-after-return=0".split(), "bench": []}
TOOLWRAP = "fopen rename remove unlink calloc malloc realloc abort exit _exit".split()
KATWRAP = ("EVP_CIPHER_CTX_new EVP_CIPHER_CTX_free EVP_EncryptInit_ex EVP_EncryptUpdate ERR_print_errors_fp "
           "crypto_sign_keypair crypto_sign crypto_sign_open").split()
BENCHWRAP = "LESS_keygen LESS_sign LESS_verify generator_RREF".split()


def tool_plan(tool, sset, flav):
    impl, d, files, inc = TOOLS[tool]
    src, hdr = impl_files(impl)
    own = [os.path.join(d, f) for f in files]
    extra = [p for x in [d] + inc for p in glob.glob(x + "/*.h")] + [SIM + "/kshim.c", SIM + "/ksim.h"] + ([SIM + "/params/%s.h" % sset] if sset in SMALL else [])
    key = digest(set(src + hdr + own + extra), [tool, sset, flav, TOOLFLAV[flav], RELEASE, defs(sset), cc_id(), KATWRAP, TOOLWRAP, BENCHWRAP, 2])
    return key, (src, own, inc + [d], impl)


def tool_jobs(tool, sset, flav, objdir, spec):
    src, own, inc, impl = spec
    kat = tool.startswith("kat")
    base = ["gcc", "-std=gnu11", "-w", "-fPIC", "-fvisibility=hidden", "-fno-semantic-interposition"] + sum((["-I", i] for i in [IMPL[impl] + "/include"] + inc + [SIM]), []) + RELEASE + defs(sset)
    jobs, objs = [], []
    for s in src + own + [SIM + "/kshim.c"]:
        o = os.path.join(objdir, os.path.basename(s) + ".o")
        objs.append(o)
        if s.endswith(".s"):
            jobs.append(["gcc", "-c", s, "-o", o])
            continue
        c = base + ["-c", s, "-o", o]
        if s in own:
            c += TOOLFLAV[flav] + ["-Dmain=kat_main"]
        if s.endswith("kshim.c") and kat:
            c.append("-DKSIM_KAT")
        jobs.append(c)
    return jobs, objs


def impl_files(impl):
    d = IMPL[impl]
    src = sorted(glob.glob(d + "/lib/*.c")) + sorted(glob.glob(d + "/lib/*.s"))
    hdr = [p for p in glob.glob(d + "/include/**/*", recursive=True) + glob.glob(d + "/lib/**/*", recursive=True)
           if os.path.isfile(p) and p.endswith((".h", ".inc", ".c", ".s"))]
    return src, hdr


def defs(sset):
    if sset in SMALL:
        return ["-DCATEGORY_%d=1" % SMALL[sset], '-DLESS_SIM_PARAMS="%s/params/%s.h"' % (SIM, sset)]
    c, t = REAL[sset]
    return ["-DCATEGORY_%d=1" % c, "-D%s=1" % t]


def plan_lib(impl, sset, flav):
    """Returns (key, objdir, list of compile commands, link command)."""
    src, hdr = impl_files(impl)
    if impl == "neon":
        hdr = hdr + sorted(p for p in glob.glob(SIM + "/neon/**/*.h", recursive=True))
    extra = [SIM + "/shim.c", SIM + "/lsim.h"] + ([SIM + "/params/%s.h" % sset] if sset in SMALL else [])
    key = digest(set(src + hdr + extra), [impl, sset, flav, FLAV[flav], defs(sset), WRAP, cc_id(), 4])
    return key, src


def cc_jobs(impl, sset, flav, objdir, src):
    base = ["gcc", "-std=gnu11", "-w", "-fPIC", "-fvisibility=hidden", "-fno-semantic-interposition", "-I", IMPL[impl] + "/include", "-I", SIM] + FLAV[flav] + IMPL_FLAGS.get(impl, []) + defs(sset)
    jobs, objs = [], []
    for s in src:
        o = os.path.join(objdir, os.path.basename(s) + ".o")
        objs.append(o)
        if s.endswith(".s"):
            jobs.append(["gcc", "-c", s, "-o", o])
            continue
        c = base + ["-c", s, "-o", o]
        # linear algebra of the large sets: no preemption points inside, to keep runs short
        if flav == "pre" and not (os.path.basename(s) == "codes.c" and sset not in ("s1a", "s1b", "s1c", "sk")):
            c.append("-fsanitize-coverage=trace-pc")
        jobs.append(c)
    o = os.path.join(objdir, "lsim_shim.o")
    objs.append(o)
    jobs.append(base + ["-c", SIM + "/shim.c", "-o", o])
    return jobs, objs


def link_jobs(flav, objs, objdir, names):
    lib = os.path.join(objdir, "lib.so")
    if flav in TOOLFLAV:
        wrap = TOOLWRAP + (BENCHWRAP if flav == "bench" else KATWRAP)
    else:
        wrap = WRAP
    cmd = ["gcc", "-shared", "-o", lib] + objs + ["-Wl,--wrap=" + w for w in wrap] + ["-Wl,-Bsymbolic"]
    if flav in ("asan", "katasan"):
        cmd += ["-fsanitize=address"]
    if flav in ("kat", "katasan"):
        cmd += ["-lcrypto"]
    if flav == "bench":
        cmd += ["-lm"]
    return cmd, lib


def ensure(wanted, main=("lsim", "lsim_asan"), jobs=8, log=None):
    """wanted: iterable of (impl, set, flavour). Returns the library directory."""
    libdir = OUT + "/lib"
    os.makedirs(libdir, exist_ok=True)
    os.makedirs(OUT + "/obj", exist_ok=True)
    pend = []
    for impl, sset, flav in sorted(set(wanted)):
        tool = impl in TOOLS
        key, src = (tool_plan if tool else plan_lib)(impl, sset, flav)
        name = "%s.%s.%s" % (impl, sset, flav)
        stamp = libdir + "/" + name + ".key"
        if os.path.exists(stamp) and open(stamp).read() == key and all(
                os.path.exists("%s/%s.%d.so" % (libdir, name, k)) for k in range(3)):
            continue
        objdir = OUT + "/obj/" + name
        if os.path.isdir(objdir):
            shutil.rmtree(objdir)
        os.makedirs(objdir)
        cj, objs = (tool_jobs if tool else cc_jobs)(impl, sset, flav, objdir, src)
        pend.append((name, flav, key, stamp, objdir, cj, objs))
    mains = []
    for m in main:
        cpp = SIM + ("/katsim.cpp" if m == "katsim" else "/lsim.cpp")
        deps = glob.glob(SIM + "/*.hpp") + [cpp, SIM + "/lsim.h", SIM + "/ksim.h"]
        flags = ["-O2", "-g1", "-std=gnu++17", "-march=native", "-rdynamic", "-w"]
        if m == "lsim_asan":
            flags += ["-fsanitize=address", "-fno-omit-frame-pointer", "-DLSIM_ASAN"]
        if m == "katsim":
            flags += ["-fsanitize=address", "-fno-omit-frame-pointer", "--param", "asan-use-after-return=0"]
        key = digest(deps, [m, flags, cc_id()])
        exe, stamp = OUT + "/" + m, OUT + "/" + m + ".key"
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
            mains.append((exe, stamp, key, ["g++"] + flags + [cpp, "-o", exe, "-ldl"]))
    with cf.ThreadPoolExecutor(jobs) as ex:
        mf = [ex.submit(run, m[3]) for m in mains]
        futs = {p[0]: [ex.submit(run, c) for c in sorted(p[5], key=lambda c: "codes.c" not in " ".join(c))] for p in pend}
        for name, flav, key, stamp, objdir, cj, objs in pend:
            for f in futs[name]:
                f.result()
            cmd, lib = link_jobs(flav, objs, objdir, name)
            run(cmd)
            if os.path.exists(stamp):
                os.unlink(stamp)
            for k in range(3):
                dst = "%s/%s.%d.so" % (libdir, name, k)
                shutil.copyfile(lib, dst + ".tmp")
                os.replace(dst + ".tmp", dst)
            with open(stamp, "w") as f:
                f.write(key)
            shutil.rmtree(objdir)
        for (exe, stamp, key, _), f in zip(mains, mf):
            f.result()
            with open(stamp, "w") as fh:
                fh.write(key)
    return libdir


if __name__ == "__main__":
    ensure([tuple(a.split(".")) for a in sys.argv[1:]], main=())
