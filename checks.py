"""The checks, one function per property."""
import os
from vf import *
from cli import c18, c19, c20, c21
from pkg import c22, c23, c24
from cost import c25

X86_MAIN = ["native", "noasm", "clang", "clang-noasm"]
OTHER = ["emu512", "i686", "aarch64", "armhf", "s390x", "aarch64-noasm", "armhf-noasm"]
A_ORACLE = "the reference encoder and decoder in src/common.h are right (they are written from RFC 4648, independently of the library)"
A_EMU = "qemu-user runs AArch64, ARM and s390x code faithfully; the software AVX-512 intrinsics in src/emu512 do what the instructions do"
A_HW = "codecs are those that this machine's CPU can run, plus the AVX-512 codec in software"

def scales(c):
    return (2, 1) if c.thorough else (1, 0)

def omp_too(c, only, scale):
    """The one-shot functions of an OpenMP build have to do what the serial ones do."""
    c.shim_optional = True
    omp(c, [(v, "res", scale if v == "openmp" else 0, dict(OMP_WAIT_POLICY="passive")) for v in ["openmp"] + (["openmp-O0", "i686-openmp", "aarch64-openmp"] if c.thorough else [])], only=only)

def c01(c):
    s, x = scales(c)
    omp_too(c, "^omp-enc(-outlen)?:", s)
    c.matrix(X86_MAIN + OTHER + (["gcc-O0", "gcc-Os", "clang-O0", "uchar", "pic", "lto"] if c.thorough else []), ["enc", "enc24"], s, x)
    return c.finish("one call (or init, call, final) per case, on random, patterned and exhaustive inputs, its output, *outlen and guard areas compared with the reference encoder; "
                    "non-trivial: distinct non-empty inputs per codec", [A_ORACLE, A_EMU, A_HW])

def c02(c):
    s, x = scales(c)
    omp_too(c, "^omp-dec(-outlen)?:|^omp-dec-ret:.*must be 1", s)
    c.matrix(X86_MAIN + OTHER + (["gcc-O0", "gcc-Os", "clang-O0", "uchar", "pic", "lto"] if c.thorough else []), ["dec", "dec24"], s, x)
    return c.finish("decodes of base64 texts made by the reference encoder and by the library's codecs, compared with the original data; non-trivial: distinct non-empty texts per codec", [A_ORACLE, A_EMU, A_HW])

def c03(c):
    s, x = scales(c)
    omp_too(c, "^omp-dec(-outlen|-ret)?:", s)
    c.matrix(X86_MAIN + OTHER + (["gcc-O0", "clang-O0", "uchar", "lto"] if c.thorough else []), ["lang"], s, x, split=("lang",))
    return c.finish("one base64_decode() per text: all byte values at all positions, all short texts over a small alphabet, paddings at all places, truncations, random edits; the return value "
                    "and, if valid, the output compared with the reference recognizer; non-trivial: distinct non-empty texts per codec", [A_ORACLE, A_EMU, A_HW])

def c04(c):
    s, x = scales(c)
    c.matrix(X86_MAIN + OTHER + (["gcc-O0", "clang-O0", "lto"] if c.thorough else []), ["schunk"], s, x)
    return c.finish("cuts of inputs into chunks: exhaustive for short inputs, all 2-way cuts and many 3-way cuts of longer ones, random cuts; every call's output and *outlen compared with the model; "
                    "non-trivial: distinct (input length, cut) with at least two chunks", [A_ORACLE, A_EMU, A_HW])

def c05(c):
    s, x = scales(c)
    c.matrix(X86_MAIN + OTHER + (["gcc-O0", "clang-O0", "uchar", "lto"] if c.thorough else []), ["dchunk"], s, x)
    return c.finish("cuts of valid and invalid texts into chunks, every call's return value, *outlen and output compared with a character-by-character model of the decoder; "
                    "non-trivial: distinct (text, cut) with at least two chunks", [A_ORACLE, A_EMU, A_HW])

def c06(c):
    s, x = scales(c)
    c.matrix(X86_MAIN + OTHER + (["gcc-O0", "clang-O0", "lto"] if c.thorough else []), ["latch"], s, x)
    return c.finish("streams brought to an error or to the end of the text in many ways, followed by more calls with all sorts of chunks; non-trivial: distinct (history, next chunk)", [A_ORACLE, A_EMU, A_HW])

def c07(c):
    s, x = scales(c)
    c.matrix(X86_MAIN + OTHER, ["bounds"], s, x)
    san = ["asan", "asan-asm", "gccsan", "i686-san", "emu512-san"]
    c.matrix(san, ["bounds", "enc", "lang", "schunk", "dchunk", "latch"] + (["det", "inter"] if c.thorough else []), s, x)
    c.matrix(["msan", "emu512-msan"], ["schunk", "dchunk"], s, x)
    return c.finish("calls with src and out against inaccessible pages on either side, src read-only, canaries after the output, in native builds; the same and other workloads under ASan, UBSan and MSan; "
                    "non-trivial: distinct (input, cut, placement)", [A_ORACLE, A_EMU, A_HW, "inline assembly is not instrumented by the sanitizers: the guard pages decide for it"])

def c08(c):
    s, x = scales(c)
    c.matrix(X86_MAIN + OTHER + (["gcc-O0", "gcc-Os", "clang-O0", "lto"] if c.thorough else []), ["det"], s, x)
    c.matrix(["msan", "emu512-msan", "memcheck"], ["det"], s, x)
    return c.finish("each case is run in a reference environment and again with other buffer contents, surroundings, alignments, state contents, registers and history; "
                    "results are compared; MSan and Memcheck track what must not be depended on; non-trivial: distinct cases", [A_ORACLE, A_EMU, A_HW])

SPYNAMES = ("plain", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512", "neon32", "neon64")
WRAPS = " ".join(f"-Wl,--wrap=base64_stream_{x}code_{n}" for x in ("en", "de") for n in SPYNAMES)

def subsets(c, base, n):
    """Builds with some of the codecs only: none, each alone (thorough), all but one, random ones."""
    import random
    r = random.Random(c.seed * 7919 + 11)
    al = ALL[1:]
    pool = [()] + [tuple(x for x in al if x != y) for y in al] + [(y,) for y in al]
    if c.thorough: sets = pool + [tuple(x for x in al if r.random() < .5) for _ in range(n)]
    else: sets = [()] + [tuple(x for x in al if x != y) for y in r.sample(al, 2)] + [tuple(x for x in al if r.random() < .5) for _ in range(n)]
    return [subset(base, s) for s in dict.fromkeys(sets)]

def spy(c, names, modes, scale, env=None):
    tasks, exes = [], {}
    def build(n):
        try: exes[n] = c.driver(n, "spy.c", flags=WRAPS, whole=True)
        except CheckError as e:
            if os.environ.get("VERIF_STRICT"): raise
            c.note(f"spying on build {n} is left out: {str(e)[-300:]}")
    c.parallel([lambda n=n: build(n) for n in names])
    for n in exes:
        for m in modes: tasks.append(lambda n=n, m=m: c.drv(n, exes[n], m, scale))
    c.parallel(tasks)

def c09(c):
    s, x = scales(c)
    sub = subsets(c, "native", 2 if not c.thorough else 24)
    c.matrix(["native", "noasm", "clang"] + sub + OTHER + ["armhf-plain", "asan"], ["force"], s, x)
    spy(c, ["fakecpu", "aarch64", "armhf"], ["forced"], s)
    return c.finish("every force flag probed in builds with all, some and no codecs, on streams and calls interleaved with others that have other flags, each compared with the model; "
                    "spies on the codec functions observe which codec works; non-trivial: distinct operations on distinct streams", [A_ORACLE, A_EMU, A_HW])

QEMU_CPUS = ["qemu64,-ssse3,-sse4.1,-sse4.2", "core2duo", "Conroe", "Penryn", "Nehalem", "Westmere", "SandyBridge", "IvyBridge", "Haswell", "Skylake-Client,-avx512f", "max", "Haswell,-avx2", "SandyBridge,-avx",
             "Haswell,-xsave,-avx,-avx2", "Opteron_G3", "Opteron_G5", "EPYC"]

def c10(c):
    s, x = scales(c)
    sub = subsets(c, "fakecpu", 3 if not c.thorough else 26)
    spy(c, ["fakecpu", "fakecpu-i686"] + sub, ["vectors"], s)
    spy(c, ["fakecpu", "fakecpu-O0"], ["race"], x)
    spy(c, ["aarch64", "armhf", "armhf-split", "armhf-plain", "s390x", "aarch64-noasm", "armhf-noasm"], ["vectors"], 0)
    # Whole workloads on emulated processors, which refuse instructions that
    # they do not have; and what codec is used there.
    if not shutil.which("qemu-x86_64"): raise CheckError("no qemu-x86_64")
    names = ["native", "noasm", "clang"] if c.thorough else ["native"]
    exes = {n: (c.driver(n, flags="-DNO_STACK_LIMIT -DNO_CRASH_HANDLER"), c.driver(n, "spy.c", flags=WRAPS, whole=True)) if n == "native" else (c.driver(n, flags="-DNO_STACK_LIMIT -DNO_CRASH_HANDLER"), None) for n in names}
    try: exes["i686"] = (c.driver("i686", flags="-DNO_STACK_LIMIT -DNO_CRASH_HANDLER"), None)
    except CheckError as e: c.note(str(e)[:300])
    tasks = []
    def go(n, exe, cpu, mode):
        q = "qemu-i386" if n == "i686" else "qemu-x86_64"
        c.run(n, [q, "-cpu", cpu, exe, mode, "--seed", str(c.seed), "--scale", "0", "--codec", "default", "--have", X86], who=f"{n} on {cpu}, {mode}")
        c.stat("workloads_on_emulated_processors")
    for n, (d, sp) in exes.items():
        for cpu in QEMU_CPUS if c.thorough or n == "native" else QEMU_CPUS[c.seed % 3::3]:
            for mode in (["enc", "dec", "schunk", "dchunk", "lang"] if c.thorough else ["enc", "dchunk"]):
                tasks.append(lambda n=n, d=d, cpu=cpu, mode=mode: go(n, d, cpu, mode))
            if sp: tasks.append(lambda n=n, sp=sp, cpu=cpu: go(n, sp, cpu, "real"))
    c.parallel(tasks)
    return c.finish("the library is shown processors (feature level, XCR0, highest CPUID leaf, noise in all other bits) through hooked cpuid and xgetbv, in a new process each, and spies observe the codec that is used by all four "
                    "ways of calling; default-codec workloads run on emulated processors that trap unsupported instructions; non-trivial: distinct processors shown, and distinct inputs",
                    ["feature levels are cumulative, as in real processors", "qemu-user raises SIGILL for instructions that the chosen model lacks (checked for AVX, AVX2, SSSE3 and SSE4 at run time)", A_ORACLE])

def c14(c):
    s, x = scales(c)
    nat = ["native", "noasm", "clang", "clang-noasm", "pic", "lto"] + (["gcc-O0", "gcc-Os", "clang-O0"] if c.thorough else [])
    c.matrix(nat + OTHER, ["regs"], s, x)
    c.matrix([n for n in nat if n != "pic"] + ["i686"], ["pure"], s, x)
    return c.finish("calls made through a trampoline that fills all preserved registers with random contents and compares them afterwards; calls in a process in which every system call is trapped (seccomp), allocation functions are "
                    "wrapped, the library's and program's data are compared, and stack use is measured; non-trivial: distinct (input, codec)", [A_ORACLE, A_EMU, A_HW, "stack use is measured by painting the stack below the call"],
                    need=dict(first_uses_watched=8, calls_with_register_check=10000))

def c15(c):
    s, x = scales(c)
    c.matrix(X86_MAIN + OTHER + ["asan"] + (["gcc-O0", "clang-O0", "lto"] if c.thorough else []), ["inter"], s, x)
    thr(c, [("native", "", ["nest"], s), ("clang-noasm", "", ["nest"], s)])
    return c.finish("random interleavings of calls on 12 streams with different codecs and flags, with copied, moved and re-initialized state structures; streams used from a signal handler that interrupts other calls, at random times and at every single instruction; "
                    "every call is compared with a model of its own stream; non-trivial: distinct operations", [A_ORACLE, A_EMU, A_HW])

MAKE_FLAGS = "AVX2_CFLAGS=-mavx2 SSSE3_CFLAGS=-mssse3 SSE41_CFLAGS=-msse4.1 SSE42_CFLAGS=-msse4.2 AVX_CFLAGS=-mavx AVX512_CFLAGS=-mavx512vl\\ -mavx512vbmi"

def makefile_tree(c, tag, cc, flags, extra=""):
    """A copy of the tree in which the Makefile has built lib/libbase64.o."""
    d = os.path.join(c.work, "make-" + tag)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "_build", "*.o", "config.h"))
    env = dict(os.environ, **{k: v for k, v in (f.split("=", 1) for f in shlex.split(flags))})
    for k in ("OPENMP", "CFLAGS", "LDFLAGS"): env.pop(k, None) if k not in flags else None
    env["CC"] = cc
    ar = cc.replace("-gcc", "-") if "linux-gnu" in cc else ""
    c.sh(["make", "-C", d, f"LD={ar}ld", f"OBJCOPY={ar}objcopy", "lib/libbase64.o"] + extra.split(), env=env)
    return os.path.join(d, "lib", "libbase64.o")

def c16(c):
    s, x = scales(c)
    names = X86_MAIN + OTHER + ["gcc-O0", "gcc-Os", "clang-O0", "uchar", "pic", "lto", "armhf-plain", "asan-asm", "i686-san"]
    c.matrix(names, ["digest"], s, s)
    # The object that the Makefile makes, which is also linked and filtered differently:
    def mk(tag, base, cc, flags):
        VARIANTS["make-" + tag] = dict(VARIANTS[base])
        try: o = makefile_tree(c, tag, cc, flags)
        except CheckError as e:
            if os.environ.get("VERIF_STRICT"): raise
            c.note(f"Makefile build {tag} is left out: {str(e)[-300:]}"); return
        exe = c.driver(base, out="drv-make-" + tag, lib=o)
        c.drv("make-" + tag, exe, "digest", s)
    jobs = [("gcc", "native", "gcc", MAKE_FLAGS), ("clang", "clang", "clang", MAKE_FLAGS), ("plain", "native", "gcc", ""), ("aarch64", "aarch64", "aarch64-linux-gnu-gcc", "NEON64_CFLAGS=-march=armv8-a"),
            ("armhf", "armhf", "arm-linux-gnueabihf-gcc", "NEON32_CFLAGS=-mfpu=neon CFLAGS=-mfpu=neon"), ("s390x", "s390x", "s390x-linux-gnu-gcc", "")]
    c.parallel([lambda j=j: mk(*j) for j in jobs])
    # Every trace must have the same digest everywhere.
    ncmp = 0
    for ph in sorted(c.digests):
        d = c.digests[ph]
        vals = {}
        for k, v in d.items(): vals.setdefault(v, []).append(k)
        ncmp += len(d)
        if len(vals) > 1:
            groups = sorted(vals.values(), key=len)
            c.add_viol("digest", f"trace {ph}: {', '.join(groups[0][:8])} differ from {len(groups[-1])} others such as {groups[-1][0]}", dict(phase=ph, groups=vals))
    c.stat("digests_compared", ncmp)
    c.stat("builds_compared", len({k.split(':')[0] for d in c.digests.values() for k in d}))
    c.stat("codecs_in_builds_compared", len({k for d in c.digests.values() for k in d}))
    return c.finish("traces of API calls that depend on the seed only (60 streams or one-shot calls each, valid and invalid, in random chunks; and systematic ones with every byte value at every place of some rounds, and all groups of 16 bits); a digest of all return values, *outlen and outputs must be the same for every codec in every build; "
                    "non-trivial: distinct traces per codec", [A_EMU, A_HW, "hash collisions of differing traces do not happen"], need=dict(digests_compared=500, builds_compared=8))

def thr(c, plan):
    """plan: list of (variant, flags, modes, scale)"""
    tasks, exes = [], {}
    def build(n, flags):
        try: exes[n] = c.driver(n, "thr.c", flags=flags)
        except CheckError as e:
            if n == "native" or os.environ.get("VERIF_STRICT"): raise
            c.note(f"build {n} is left out: {str(e)[-300:]}")
    c.parallel([lambda n=n, f=f: build(n, f) for n, f, _, _ in plan])
    for n, f, modes, sc in plan:
        for m in modes:
            if n in exes: tasks.append(lambda n=n, m=m, sc=sc: c.drv(n, exes[n], m, sc))
    c.parallel(tasks, 4)

def c11(c):
    s, x = scales(c)
    thr(c, [("tsan", "-DTSAN_BUILD", ["first", "stress"], s), ("gcctsan", "-DTSAN_BUILD", ["first", "stress"], s), ("native", "", ["step", "first", "stress"], s), ("clang", "", ["stress"] + (["step"] if c.thorough else []), s),
            ("clang-noasm", "", ["stress", "first"], s), ("emu512", "", ["stress"], x), ("i686", "", ["stress", "first"], s), ("aarch64", "", ["stress"], 0), ("armhf", "", ["stress"], 0), ("gcc-O0", "", ["stress", "first"], s)])
    spy(c, ["fakecpu", "fakecpu-O0"], ["race"], x)
    return c.finish("concurrent use by 2 to 24 threads, with streams that pass between threads, under TSan and natively, all results compared with the model; first uses raced in many processes; a call stopped at every single instruction "
                    "while another thread makes calls, including the first use; non-trivial: distinct uses, raced processes and schedules", [A_ORACLE, A_EMU, "TSan does not see inline assembly; the stepping does"],
                    need=dict(overlapping_first_calls=50, concurrent_uses=100000, schedules_of_first_use=300))

def omp(c, plan, n=4, only=None):
    """plan: list of (variant, mode, scale, env)"""
    tasks, exes = [], {}
    def build(v):
        try: exes[v] = c.driver(v, "omp.c")
        except CheckError as e:
            if v in ("openmp", "openmp-shim") and not getattr(c, "shim_optional", False) or os.environ.get("VERIF_STRICT"): raise
            c.note(f"build {v} is left out: {str(e)[-300:]}")
    c.parallel([lambda v=v: build(v) for v in dict.fromkeys(p[0] for p in plan)])
    for v, m, sc, env in plan:
        if v in exes: tasks.append(lambda v=v, m=m, sc=sc, env=env: c.drv(v, exes[v], m, sc, env=env, only=only))
    c.parallel(tasks, n)
    return exes

def c12(c):
    s, x = scales(c)
    c.shim_optional = True
    E = dict(OMP_WAIT_POLICY="passive")
    plan = [("openmp", "res", s, E), ("openmp", "res", x, dict(E, OMP_THREAD_LIMIT="3")), ("openmp", "res", x, dict(E, OMP_DYNAMIC="true", OMP_THREAD_LIMIT="6")), ("openmp", "res", x, dict(E, OMP_THREAD_LIMIT="1")),
            ("openmp-asan", "res", x, E), ("openmp-O0", "res", x, E), ("i686-openmp", "res", s, E), ("aarch64-openmp", "res", 0, E), ("openmp-emu512-shim", "sched", x, {}), ("openmp-shim", "sched", x, {})]
    omp(c, plan)
    # What the serial builds have to satisfy, an OpenMP build has to as well.
    c.matrix(["openmp"], ["enc", "dec", "lang", "force"], 0)
    return c.finish("one-shot calls in OpenMP builds with teams of 1 to 100 threads, fewer than asked for, dynamic teams, nested regions, application threads; errors and padding at every distance up to 5 from every part's boundary; "
                    "return value, *outlen, output and guard areas compared with the reference; non-trivial: distinct (input, team size, codec)", [A_ORACLE, A_EMU, A_HW], need=dict(inputs_with_padding_inside=500, inputs_with_errors=500, valid_texts=500))

def c13(c):
    s, x = scales(c)
    c.shim_optional = True
    plan = [("openmp-shim", "sched", s, {}), ("openmp-noasm-shim", "sched", s, {}), ("openmp-emu512-shim", "sched", x, {}), ("aarch64-openmp-shim", "sched", 0, {}), ("openmp-tsan", "race", s + 1, {}), ("openmp-shim", "race", s, {})]
    exes = omp(c, plan)
    if not any(v in exes for v in ("openmp-shim", "openmp-tsan")):
        # A tree that uses parts of the OpenMP runtime that the shim lacks
        c.note("the tree needs more of the OpenMP runtime than the shim has: results with libgomp decide")
        omp(c, [("openmp", "res", s, {})])
        return c.finish("(libgomp only)", [A_ORACLE])
    return c.finish("calls made on an OpenMP runtime of the check's own, which gives any team size and runs the threads one at a time between barriers in random orders, recording which thread writes which output byte; and at the same time, under TSan; "
                    "results compared with the reference; non-trivial: distinct (input, team size, codec)", [A_ORACLE, "TSan does not see inline assembly: it runs the intrinsics builds"], need=dict(segments_monitored=1000, teams_run=500, bytes_attributed_to_threads=1000000))

def c17(c):
    # Memory: 6 GB for an encoding run, 3.5 GB for a decoding one (32-bit: 3.5)
    avail = next(int(l.split()[1]) for l in open("/proc/meminfo") if l.startswith("MemAvailable")) >> 20
    par = max(1, min(4, avail // 7))
    if avail < 7: raise CheckError("needs 7 GB of memory")
    s = 1 if c.thorough else 0
    names = ["native", "openmp", "i686", "i686-openmp", "noasm"] + (["clang", "clang-noasm", "openmp-O0", "aarch64"] if c.thorough else [])
    exes = {}
    def build(n):
        try: exes[n] = c.driver(n, "big.c", flags="-fopenmp" if "openmp" in n else "")
        except CheckError as e:
            if n == "native" or os.environ.get("VERIF_STRICT"): raise
            c.note(f"build {n} is left out: {str(e)[-300:]}")
    c.parallel([lambda n=n: build(n) for n in names])
    tasks = []
    def T(n, mode, codec):
        if n in exes: tasks.append(lambda: c.drv(n, exes[n], mode, s, codec, timeout=1500))
    cod = X86.split(",")
    for i, cd in enumerate(cod):
        rot = c.thorough or (i + c.seed) % len(cod) == 0
        for mode in ("enc", "dec"): T("native", mode, cd)
        if rot or cd == "AVX2":
            for mode in ("encstream", "decstream"): T("native", mode, cd)
        if rot or cd == "PLAIN":
            for mode in ("enc", "dec") + (("encstream", "decstream") if c.thorough else ()): T("i686", mode, cd)
        if rot:
            for mode in ("enc", "dec"): T("noasm", mode, cd)
    for n in ("openmp", "i686-openmp"):
        for mode in ("encomp", "decomp"): T(n, mode, "default")
    if c.thorough:
        for n in ("clang", "clang-noasm", "openmp-O0"):
            for mode in ("enc", "dec", "encstream", "decstream"): T(n, mode, "default")
        for mode in ("enc", "dec"): T("openmp", mode + "omp", "PLAIN"); T("i686-openmp", mode + "omp", "PLAIN")
        T("aarch64", "enc", "NEON64")
    c.parallel(tasks, par)
    return c.finish("calls with more than 2^32 bytes (2^30 and, for decoding, 2^31 on i386), one-shot, in chunks and with OpenMP; valid texts, errors, padding and truncation at the far end and around the powers of two; all of the output compared; "
                    "the input is one block mapped repeatedly, of a length that shares no large factor with 2^32; non-trivial: distinct (length, codec, place and kind of error)", [A_ORACLE, A_HW], need=dict(megabytes_of_output_compared=20000, calls_beyond_the_small_range=30))
