"""Orchestration: builds variants of /repo, runs monitored workloads, judges
their reports, writes evidence. Standard library only."""
import os, sys, json, time, shutil, subprocess, threading, signal, shlex, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
NCPU = max(2, min(8, os.cpu_count() or 4))
ALL = ["PLAIN", "SSSE3", "SSE41", "SSE42", "AVX", "AVX2", "AVX512"]
NOASM = " ".join(f"-DBASE64_{c}_USE_ASM=0" for c in ("SSSE3", "SSE41", "SSE42", "AVX", "AVX2"))
X86 = "PLAIN,SSSE3,SSE41,SSE42,AVX,AVX2,AVX512"

SAN = "-g -O1 -fno-omit-frame-pointer -fno-sanitize-recover=all"
# name: (compiler, C flags, extra cmake options, run prefix, codecs in it, driver flags)
VARIANTS = {
    "native":  dict(cc="gcc", have=X86),
    # The substitute for writev() that the utility has for MinGW:
    "emuwritev": dict(cc="gcc", cflags="-DEMULATE_WRITEV", have=X86),
    "noasm":   dict(cc="gcc", cflags=NOASM, have=X86),
    "clang":   dict(cc="clang", have=X86),
    "clang-noasm": dict(cc="clang", cflags=NOASM, have=X86),
    "gcc-O0":  dict(cc="gcc", cflags="-O0", build="None", have=X86, drv="-DSTACK_LIMIT=65536"),
    "gcc-Os":  dict(cc="gcc", cflags="-Os -fno-inline-functions", build="None", have=X86),
    "clang-O0": dict(cc="clang", cflags="-O0", build="None", have=X86, drv="-DSTACK_LIMIT=65536"),
    "uchar":   dict(cc="gcc", cflags="-O2 -funsigned-char " + NOASM, build="None", have=X86),
    "pic":     dict(cc="gcc", cflags="-fPIC -fno-plt -fstack-protector-all", have=X86),
    "lto":     dict(cc="gcc", cflags="-flto", have=X86, ldflags="-flto -O2"),
    "emu512":  dict(cc="EMU512", have=X86, drv="-DEMU512"),
    "emu512-san": dict(cc="EMU512", cflags=f"{SAN} -fsanitize=address,undefined {NOASM}", build="None", have=X86, drv="-DEMU512 -fsanitize=address,undefined -DNO_CRASH_HANDLER -DNO_STACK_LIMIT", san=True),
    "emu512-msan": dict(cc="EMU512-clang", cflags=f"-g -O1 -fno-omit-frame-pointer -fsanitize=memory {NOASM}", build="None", have=X86, drv="-DEMU512 -fsanitize=memory -DNO_CRASH_HANDLER -DNO_STACK_LIMIT", san=True),
    "memcheck": dict(cc="gcc", have=X86, drv="-DMEMCHECK -DNO_STACK_LIMIT", run=["valgrind", "-q", "--error-exitcode=66", "--errors-for-leak-kinds=none", "--exit-on-first-error=yes"], san=True),
    "fakecpu": dict(cc="FAKECPU", have=X86),
    "fakecpu-O0": dict(cc="FAKECPU", cflags="-O0", build="None", have=X86),
    "fakecpu-i686": dict(cc="FAKECPU-i686", proc="i686", static=True, have=X86),
    "asan":    dict(cc="clang", cflags=f"{SAN} -fsanitize=address,undefined -fno-sanitize=unsigned-integer-overflow {NOASM}", build="None", have=X86,
                    drv="-fsanitize=address,undefined -DNO_CRASH_HANDLER -DNO_STACK_LIMIT", san=True),
    "asan-asm": dict(cc="clang", cflags=f"{SAN} -fsanitize=address,undefined", build="None", have=X86,
                    drv="-fsanitize=address,undefined -DNO_CRASH_HANDLER -DNO_STACK_LIMIT", san=True),
    "gccsan":  dict(cc="gcc", cflags=f"{SAN} -fsanitize=address,undefined {NOASM}", build="None", have=X86,
                    drv="-fsanitize=address,undefined -DNO_CRASH_HANDLER -DNO_STACK_LIMIT", san=True),
    "msan":    dict(cc="clang", cflags=f"-g -O1 -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins {NOASM}", build="None", have=X86,
                    drv="-fsanitize=memory -DNO_CRASH_HANDLER -DNO_STACK_LIMIT", san=True),
    "tsan":    dict(cc="clang", cflags=f"-g -O1 -fsanitize=thread {NOASM}", build="None", have=X86, drv="-fsanitize=thread", san=True),
    "gcctsan": dict(cc="gcc", cflags=f"-g -O1 -fsanitize=thread {NOASM}", build="None", have=X86, drv="-fsanitize=thread", san=True),
    "openmp":  dict(cc="gcc", cmake="-DBASE64_WITH_OpenMP=ON", have=X86, ldflags="-fopenmp"),
    "openmp-asan": dict(cc="gcc", cflags=f"{SAN} -fsanitize=address,undefined {NOASM}", build="None", cmake="-DBASE64_WITH_OpenMP=ON", have=X86, ldflags="-fopenmp",
                    drv="-fsanitize=address,undefined -DNO_CRASH_HANDLER -DNO_STACK_LIMIT", san=True),
    "openmp-tsan": dict(cc="gcc", cflags=f"-g -O1 -fsanitize=thread {NOASM}", build="None", cmake="-DBASE64_WITH_OpenMP=ON", have=X86, drv="-DSHIM -DTSAN_BUILD -fsanitize=thread", san=True),
    "openmp-shim": dict(cc="gcc", cmake="-DBASE64_WITH_OpenMP=ON", have=X86, drv="-DSHIM"),
    "openmp-noasm-shim": dict(cc="gcc", cflags=NOASM, cmake="-DBASE64_WITH_OpenMP=ON", have=X86, drv="-DSHIM"),
    "openmp-emu512-shim": dict(cc="EMU512", cmake="-DBASE64_WITH_OpenMP=ON", have=X86, drv="-DSHIM -DEMU512"),
    "openmp-O0": dict(cc="gcc", cflags="-O0", build="None", cmake="-DBASE64_WITH_OpenMP=ON", have=X86, ldflags="-fopenmp"),
    "aarch64-openmp": dict(cc="aarch64-linux-gnu-gcc", proc="aarch64", run=["qemu-aarch64"], static=True, cmake="-DBASE64_WITH_OpenMP=ON", ldflags="-fopenmp", have="PLAIN,NEON64"),
    "aarch64-openmp-shim": dict(cc="aarch64-linux-gnu-gcc", proc="aarch64", run=["qemu-aarch64"], static=True, cmake="-DBASE64_WITH_OpenMP=ON", drv="-DSHIM", have="PLAIN,NEON64"),
    "i686":    dict(cc="i686-linux-gnu-gcc", proc="i686", static=True, have=X86),
    "i686-openmp": dict(cc="i686-linux-gnu-gcc", proc="i686", static=True, cmake="-DBASE64_WITH_OpenMP=ON", ldflags="-fopenmp", have=X86),
    "i686-san": dict(cc="i686-linux-gnu-gcc", proc="i686", cflags=f"{SAN} -fsanitize=address,undefined", build="None", ldflags="-static-libasan -static-libubsan", have=X86,
                    drv="-fsanitize=address,undefined -DNO_CRASH_HANDLER -DNO_STACK_LIMIT", san=True),
    "aarch64": dict(cc="aarch64-linux-gnu-gcc", proc="aarch64", run=["qemu-aarch64"], static=True, have="PLAIN,NEON64"),
    "armhf":   dict(cc="arm-linux-gnueabihf-gcc", proc="armv7l", run=["qemu-arm"], static=True, cflags="-mfpu=neon", cmake="-DBASE64_WITH_NEON32=ON", drv="-mfpu=neon", have="PLAIN,NEON32"),
    "armhf-split":   dict(cc="arm-linux-gnueabihf-gcc", proc="armv7l", run=["qemu-arm"], static=True, cmake="-DBASE64_WITH_NEON32=ON", drv="-mfpu=neon", have="PLAIN,NEON32"),
    "armhf-plain": dict(cc="arm-linux-gnueabihf-gcc", proc="armv7l", run=["qemu-arm"], static=True, drv="-mfpu=neon", have="PLAIN"),
    # The intrinsics versions of the NEON codecs are what MSVC compiles: built
    # from a copy of the tree with the definitions of *_USE_ASM taken out.
    "aarch64-noasm": dict(cc="aarch64-linux-gnu-gcc", proc="aarch64", run=["qemu-aarch64"], static=True, have="PLAIN,NEON64", noneonasm=True),
    "armhf-noasm": dict(cc="arm-linux-gnueabihf-gcc", proc="armv7l", run=["qemu-arm"], static=True, cmake="-DBASE64_WITH_NEON32=ON", drv="-mfpu=neon", have="PLAIN,NEON32", noneonasm=True),
    "s390x":   dict(cc="s390x-linux-gnu-gcc", proc="s390x", run=["qemu-s390x"], static=True, have="PLAIN"),
}
def subset(base, have):
    """A variant with only some of the codecs in the build."""
    n = base + "-" + ("".join(h.replace("SSE", "s").replace("AVX", "a").replace("S", "s") for h in have) or "none")
    v = dict(VARIANTS[base], have="PLAIN" + "".join("," + h for h in have))
    v["cmake"] = (v.get("cmake", "") + " " + " ".join(f"-DBASE64_WITH_{x}={'ON' if x in have else 'OFF'}" for x in ALL[1:])).strip()
    VARIANTS[n] = v
    return n

CROSS = ["aarch64", "armhf", "s390x"]

def tasks_of(pid):
    """(state, processor time) of the threads of a process and its descendants"""
    res = []
    try:
        for t in os.listdir(f"/proc/{pid}/task"):
            f = open(f"/proc/{pid}/task/{t}/stat").read().rpartition(")")[2].split()
            res.append((f[0], int(f[11]) + int(f[12])))
            for c in open(f"/proc/{pid}/task/{t}/children").read().split(): res += tasks_of(int(c))
    except (OSError, ValueError, IndexError): pass
    return res

def stands_still(p, blocked, samples=24, pause=2.5):
    """Nothing that the checks run waits for long for anything but itself: if
    for a minute all threads sleep and none uses any time, they wait for
    each other, and will for ever."""
    n, last = 0, None
    while p.poll() is None:
        time.sleep(pause)
        t = tasks_of(p.pid)
        now = (len(t), sum(x[1] for x in t))
        n = n + 1 if t and now == last and all(x[0] in "SZX" for x in t) else 0
        last = now
        if n >= samples:
            blocked.append(f"all {len(t)} threads sleep, and have for {int(n * pause)} s: they wait for each other")
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            return

class CheckError(Exception):
    """The check itself cannot work: neither held nor violated."""

class Check:
    def __init__(self, prop, tier, seed, level="exploration"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.work = os.path.join(VERIF, ".work", f"{prop}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.viols, self.stats, self.maxes, self.samples, self.notes = [], {}, {}, [], []
        self.evals = self.distinct = 0
        self.codecs, self.digests, self.jobs = {}, {}, 0
        self.lock = threading.Lock()
        self.built = {}
        self.known = []
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) match=(.*?) what=(\S+)$", l.strip())
            if m and m.group(1) == prop: self.known.append((m.group(2), m.group(3), m.group(4).replace("-", " ")))

    thorough = property(lambda s: s.tier == "thorough")

    # ------------------------------------------------------------ building
    def sh(self, cmd, cwd=None, env=None, timeout=600, ok=True, **kw):
        if isinstance(cmd, str): cmd = shlex.split(cmd)
        e = dict(os.environ, LC_ALL="C.UTF-8", CCACHE_DISABLE="1")
        for k in ("CFLAGS", "LDFLAGS", "CC", "OPENMP", "OMP_NUM_THREADS"): e.pop(k, None)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=cwd or self.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)
        if ok and p.returncode:
            raise CheckError(f"command failed: {' '.join(cmd)[:300]}\n{p.stdout[-3000:]}")
        return p

    def tree(self, noneonasm):
        """The source tree to build from."""
        if not noneonasm: return REPO
        with self.lock:
            d = os.path.join(self.work, "tree-noneonasm")
            if os.path.isdir(d): return d
            shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "_build"))
            for f in ("lib/arch/neon32/codec.c", "lib/arch/neon64/codec.c"):
                p = os.path.join(d, f)
                if os.path.exists(p):
                    s = open(p).read()
                    open(p, "w").write(re.sub(r"(?m)^#\s*define\s+BASE64_NEON(32|64)_USE_ASM.*$", "", s))
            return d

    def variant(self, name, targets=("base64",), extra="", tag=""):
        """Configure and build; returns the build directory."""
        v = VARIANTS[name]
        b = os.path.join(self.work, "build-" + name + tag)
        with self.lock:
            ev = self.built.get(b)
            mine = ev is None
            if mine: ev = self.built[b] = threading.Event()
        if not mine:
            ev.wait()
            if not os.path.exists(os.path.join(b, ".ok")): raise CheckError(f"building {name} failed")
            return b
        try:
            cc = os.path.join(SRC, v["cc"].replace("EMU512", "cc-emu512").replace("FAKECPU", "cc-fakecpu")) if v["cc"][:3] in ("EMU", "FAK") else shutil.which(v["cc"])
            if not cc: raise CheckError(f"no compiler {v['cc']}")
            cmd = ["cmake", "-S", self.tree(v.get("noneonasm")), "-B", b, "-G", "Ninja", f"-DCMAKE_C_COMPILER={cc}",
                   f"-DCMAKE_BUILD_TYPE={v.get('build', 'Release')}", "-DBASE64_BUILD_TESTS=OFF", "-DBASE64_BUILD_CLI=" + ("ON" if "base64-bin" in targets else "OFF"),
                   "-DBASE64_WERROR=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"]
            if v.get("cflags"): cmd.append("-DCMAKE_C_FLAGS=" + v["cflags"])
            if v.get("cmake"): cmd += v["cmake"].split()
            if extra: cmd += extra.split()
            if v.get("proc"): cmd += ["-DCMAKE_SYSTEM_NAME=Linux", f"-DCMAKE_SYSTEM_PROCESSOR={v['proc']}"]
            ld = ("-static " if v.get("static") else "") + (v.get("ldflags", "") if "san" in name else "")
            if ld.strip(): cmd.append(f"-DCMAKE_EXE_LINKER_FLAGS={ld.strip()}")
            self.sh(cmd)
            self.sh(["ninja", "-C", b, "-j", "4"] + list(targets))
            open(os.path.join(b, ".ok"), "w").close()
        finally:
            ev.set()
        return b

    def driver(self, name, src="drv.c", out=None, flags="", lib=None, libs="", whole=False):
        """Build a driver against a variant's static library, once."""
        key = ("driver", name, src, out, flags, lib, libs, whole)
        with self.lock: lk = self.built.setdefault(key, threading.Lock())
        with lk:
            if (key, 1) not in self.built: self.built[key, 1] = self.driver1(name, src, out, flags, lib, libs, whole)
            return self.built[key, 1]

    def driver1(self, name, src, out, flags, lib, libs, whole):
        v = VARIANTS[name]
        b = self.variant(name)
        lib = lib or os.path.join(b, "libbase64.a")
        if whole: lib = f"-Wl,--whole-archive,{lib},--no-whole-archive"
        exe = os.path.join(b, out or os.path.splitext(os.path.basename(src))[0])
        cc = {"EMU512": "gcc", "EMU512-clang": "clang", "FAKECPU": "gcc", "FAKECPU-i686": "i686-linux-gnu-gcc"}.get(v["cc"], v["cc"])
        opt = "-O1" if v.get("san") else "-O2"
        wrap = ""
        if src == "drv.c" and not v.get("san"):
            wrap = "-DWRAP_ALLOC " + " ".join(f"-Wl,--wrap={f}" for f in ("malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "free"))
        srcs = [s if os.path.isabs(s) else os.path.join(SRC, s) for s in src.split()]
        if os.path.exists(exe): exe += f"-{len(self.built)}"
        self.sh([cc] + f"-g {opt} -w -std=gnu11 -I{REPO}/include -I{SRC} -DBASE64_STATIC_DEFINE {v.get('drv', '')} {flags} {wrap}".split() + srcs + [lib]
                + f"{'-static' if v.get('static') else ''} {v.get('ldflags', '')} {libs} -Wl,-z,now -lpthread -ldl -lm -o {exe}".split())
        return exe

    def cpu(self, flag):
        return (" " + flag + " ") in (" " + " ".join(l for l in open("/proc/cpuinfo") if l.startswith("flags")).replace("\n", " ") + " ")

    # ------------------------------------------------------------ running
    def note(self, s):
        with self.lock: self.notes.append(s)

    def add_viol(self, key, msg, replay):
        with self.lock: self.viols.append((key, msg, replay))

    def stat(self, k, n=1):
        with self.lock: self.stats[k] = self.stats.get(k, 0) + n

    def count(self, evals, distinct=0):
        with self.lock:
            self.evals += evals
            self.distinct += distinct

    def add_sample(self, s):
        with self.lock: self.samples.append(str(s).encode(errors="backslashreplace").decode())  # names that are not UTF-8

    def run(self, name, cmd, timeout=700, env=None, who=None, sanitizer=False, okrc=(0, 1), stdin=None, cwd=None, only=None):
        """Run one monitored workload and take in its report.
        only: of its violations, those that match are this property's."""
        who = who or name
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1:exitcode=66:halt_on_error=1",
                 MSAN_OPTIONS="exitcode=66", TSAN_OPTIONS="exitcode=66:halt_on_error=0:report_thread_leaks=0:history_size=4")
        e.update(env or {})
        for attempt in (1, 2):
            t0 = time.time()
            p = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=stdin or subprocess.DEVNULL, cwd=cwd or self.work, start_new_session=True)
            still = threading.Thread(target=stands_still, args=(p, blocked := []), daemon=True)
            still.start()
            try:
                out, err = p.communicate(timeout=timeout)
                to = False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out, err = p.communicate()
                to = True
            out, err = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
            if "\nVIOL\t" in "\n" + out: break
            if blocked and not only:
                out += "\nVIOL\tblocked\t" + blocked[0] + "\n"
                break
            if to or p.returncode == -signal.SIGKILL: continue      # inconclusive: once more
            break
        if os.environ.get("VERIF_TIME"): print(f"# {time.time() - self.t0:6.1f} s: {who} took {time.time() - t0:.1f} s", flush=True)
        replay = dict(variant=name, cmd=cmd, env=env or {}, stderr=err[-4000:])
        ended = viol = False
        with self.lock:
            self.jobs += 1
            for l in out.split("\n"):
                f = l.split("\t")
                if f[0] == "VIOL" and len(f) >= 3:
                    viol = True
                    if not only or re.search(only, f[1] + ": " + " ".join(f[2:])): self.viols.append((f[1], f"[{who}] " + " ".join(f[2:]), replay))
                elif f[0] == "STAT" and len(f) >= 3:
                    n = int(f[2])
                    if f[1] == "evaluations": self.evals += n
                    elif f[1] == "distinct": self.distinct += n
                    else: self.stats[f[1]] = self.stats.get(f[1], 0) + n
                elif f[0] == "MAX": self.maxes[f[1]] = max(self.maxes.get(f[1], 0), int(f[2]))
                elif f[0] == "SAMPLE": self.samples.append(f"[{who}] {f[1]}")
                elif f[0] == "CODEC": self.codecs.setdefault(name, set()).add(f[1])
                elif f[0] == "DIGEST": self.digests.setdefault(int(f[1]), {})[f"{name}:{f[2]}"] = f[3]
                elif f[0] == "NOTE": self.notes.append(f"[{who}] {f[1]}")
                elif f[0] == "END": ended = True
        m = re.search(r"(ERROR: \w*Sanitizer[^\n]*|WARNING: \w*Sanitizer[^\n]*|runtime error:[^\n]*|Sanitizer:DEADLYSIGNAL[^\n]*|==\d+== (?:Conditional jump|Use of uninit|Invalid read|Invalid write|Syscall param|Uninitialised byte|Unaddressable byte|Jump to the invalid)[^\n]*)", err)
        if m and not only:
            kind = re.sub(r"0x[0-9a-f]+|pid=\d+|==\d+==|\(pid[^)]*\)|\d+", "#", m.group(1))[:100].strip()
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", err)
            if not fr: fr = re.findall(r"#\d+ (\S+) (\S+)", err)
            if not fr: fr = re.findall(r"==\d+==    (?:at|by) 0x[0-9A-F]+: (\S+) (\S+)", err)
            at = next((f"{a} {os.path.basename(b)}" for a, b in fr if "base64" in a or "lib/" in b), fr[0][0] if fr else "?")
            self.add_viol("sanitizer:" + kind.replace(" ", "_"), f"[{who}] {m.group(1)[:200]} at {at}", replay)
            viol = True
        if viol: return out, err, p.returncode
        if to: raise CheckError(f"[{who}] timed out twice: {' '.join(cmd)}")
        if p.returncode < 0 and p.returncode != -signal.SIGKILL:
            self.add_viol(f"crash:signal{-p.returncode}", f"[{who}] process died of signal {-p.returncode}; {err[-300:]}", replay)
        elif p.returncode not in okrc or not ended:
            raise CheckError(f"[{who}] no verdict (exit {p.returncode}): {' '.join(cmd)}\n{out[-500:]}\n{err[-1500:]}")
        return out, err, p.returncode

    def drv(self, name, exe, mode, scale, codec="all", **kw):
        v = VARIANTS[name]
        cmd = v.get("run", []) + [exe, mode, "--seed", str(self.seed), "--scale", str(scale), "--codec", codec, "--have", v["have"]]
        return self.run(name, cmd, who=f"{name} {mode} {codec}", **kw)

    def parallel(self, tasks, n=NCPU):
        """Run callables in parallel. Errors of the check are collected: they
        only matter if no violation was found."""
        errs = []
        def go(t):
            try: t()
            except CheckError as e: errs.append(str(e))
            except Exception as e: errs.append(f"{type(e).__name__}: {e}")
        with ThreadPoolExecutor(n) as ex: list(ex.map(go, tasks))
        if errs:
            with self.lock: self.errors = getattr(self, "errors", []) + errs

    def matrix(self, names, modes, scale, cross_scale=0, split=(), flags="", skip=()):
        """The API driver in the given modes, over variants and their codecs."""
        tasks, exes = [], {}
        def build(n):
            # A change of the tree may be out of reach for an auxiliary build
            # (a new intrinsic that the emulation lacks, say): that is noted,
            # and the other builds decide.
            try: exes[n] = self.driver(n, flags=flags)
            except CheckError as e:
                if n == "native" or os.environ.get("VERIF_STRICT"): raise
                self.note(f"build {n} is left out: {str(e)[-300:]}")
        self.parallel([(lambda n=n: build(n)) for n in names])
        for mode in modes:
            for n in names:
                if n not in exes: continue
                v = VARIANTS[n]
                sc = cross_scale if (v.get("run") or v.get("san")) else scale
                codecs = ["default"] + v["have"].split(",") if mode in split else ["all"]
                if n.startswith("emu512") and mode != "force": codecs = ["AVX512"]
                for c in codecs:
                    if (n, mode) in skip or (n, c) in skip: continue
                    tasks.append(lambda n=n, mode=mode, sc=sc, c=c: self.drv(n, exes[n], mode, sc, c))
        self.parallel(tasks)

    # ------------------------------------------------------------ verdict
    def finish(self, rule, assumptions=(), extra=None, need=None):
        errors = getattr(self, "errors", [])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        new, known = [], []
        for key, msg, rep in self.viols:
            k = next((l for kk, mm, l in self.known if kk == key and re.search(mm, msg)), None)
            (known if k else new).append((key, msg, rep, k))
        if not new and not errors:
            if self.evals == 0: errors.append("nothing was observed")
            for k, n in (need or {}).items():
                if self.stats.get(k, 0) < n: errors.append(f"too few events observed: {k} is {self.stats.get(k, 0)}, at least {n} are needed")
        # A spread of samples over the jobs:
        s = sorted(set(self.samples)); step = max(1, len(s) // 14)
        cov = dict(evaluations=self.evals, distinct_nontrivial=self.distinct, rule=rule, samples=s[::step][:16], jobs=self.jobs,
                   events=dict(sorted({**self.stats, **self.maxes}.items())))
        if self.codecs: cov["codecs_run"] = {k: sorted(v) for k, v in sorted(self.codecs.items())}
        if self.notes: cov["notes"] = sorted(set(self.notes))[:20]
        cov.update(extra or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(new))
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for l in sorted({k for *_, k in known}): print(f"KNOWN-FINDING: property={self.prop} {l}")
        rc = 0
        if new:
            rc = 1
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            path = os.path.join(VERIF, "replay", f"{self.prop}-{os.getpid()}.json")
            json.dump([dict(property=self.prop, key=k, message=m, tier=self.tier, seed=self.seed, replay=r,
                            rerun=f"VERIF_SEED={self.seed} python3 {VERIF}/check.py {self.prop}" + (" --thorough" if self.thorough else "")) for k, m, r, _ in new[:40]], open(path, "w"), indent=1)
            first = {}
            for k, m, r, _ in new: first.setdefault(k, m)
            for k, m in list(first.items())[:12]: print(f"  {k}: {m[:400]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        elif errors:
            rc = 2
            for e in errors[:5]: print("CHECK ERROR:", e)
        else:
            print(f"{self.prop}: held on {self.evals} evaluations ({self.distinct} distinct) in {self.jobs} jobs, {time.time() - self.t0:.0f} s")
        sys.stdout.flush()
        return rc

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)
