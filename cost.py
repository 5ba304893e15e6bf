"""C25: what calls and the utility cost, in instructions and memory."""
import os, re, glob, random, base64, signal, subprocess, threading
from vf import *

OPS_TINY = ("enc-tiny", "dec-tiny")
# At most this part of the plain codec's instructions per byte, in the same
# build, for the same kind of call: (encoding, decoding). What the codecs need
# is well below that, and 1 is what a codec that does not work would need.
SHARE = dict(SSSE3=(.7, .85), SSE41=(.7, .85), SSE42=(.7, .85), AVX=(.6, .75), AVX2=(.35, .5), AVX512=(.2, .5), NEON32=(.55, .85), NEON64=(.4, .65))

def slopes(x):
    x = sorted(x.items())
    return [(b[1] - a[1]) / (b[0] - a[0]) for a, b in zip(x, x[1:])]

def judge(c, who, D, replay):
    """D: {(codec, op): {n: instructions}}"""
    for (codec, op), x in sorted(D.items()):
        s = slopes(x)
        last = s[-1]
        top = 400 if op in OPS_TINY else 9
        c.stat("costs_judged")
        what = f"[{who}] {op} by {codec}: " + ", ".join(f"{n} bytes {v} instructions" for n, v in sorted(x.items()))
        if len(s) > 1 and last > 1.4 * s[0] + .4: c.add_viol("not-linear", what, replay)
        if last > top: c.add_viol("too-much-work", what + f": {last:.1f} per byte", replay)
        if op in OPS_TINY: continue
        plain = D.get(("PLAIN", op))
        if codec in SHARE and plain:
            p = slopes(plain)[-1]
            c.stat("vector_codecs_compared_with_plain")
            if last > SHARE[codec][op[:3] == "dec"] * p: c.add_viol("no-vector-code", what + f": {last:.2f} per byte, of the plain codec's {p:.2f}", replay)
        if codec == "default":
            b = min([slopes(y)[-1] for (k, o), y in D.items() if o == op and k != "default"] or [last])
            if last > 1.3 * b + .3: c.add_viol("slow-default", what + f": {last:.2f} per byte, of the best codec's {b:.2f}", replay)
        if os.environ.get("VERIF_TIME"): print(f"# [{who}] {codec} {op} {last:.2f}" + (f" {last / slopes(plain)[-1]:.2f} of plain" if plain else ""))
        if codec != "PLAIN" and op in ("enc", "dec", "dec-stream-1"): c.add_sample(f"[{who}] {op} by {codec}: {last:.2f} instructions per byte" + (f" (plain: {slopes(plain)[-1]:.2f})" if plain else ""))

COST = re.compile(r"COST (\S+) (\S+) (\d+)(?: (\d+))?")

def stepped(c, name, scale, codec):
    exe = c.driver(name, "cost.c", out="cost")
    cmd = [exe, "step", "--seed", str(c.seed), "--scale", str(scale), "--codec", codec]
    out, *_ = c.run(name, cmd, who=f"{name} step")
    D = {}
    for m in COST.finditer(out): D.setdefault((m[1], m[2]), {})[int(m[3])] = int(m[4])
    judge(c, f"{name}, stepped", D, dict(variant=name, cmd=cmd))

def callgrind(c, name, scale, codec="all"):
    exe = c.driver(name, "cost.c", out="cost")
    d = os.path.join(c.work, f"cg-{name}")
    os.makedirs(d)
    cmd = ["valgrind", "-q", "--tool=callgrind", "--collect-atstart=no", f"--callgrind-out-file={d}/cg", exe, "dump", "--seed", str(c.seed), "--scale", str(scale), "--codec", codec]
    try: c.run(name, cmd, who=f"{name} callgrind")
    except CheckError as e:
        if os.environ.get("VERIF_STRICT"): raise
        c.note(f"callgrind does not work for {name}: {str(e)[-200:]}")
        return
    D = {}
    for f in glob.glob(d + "/cg.*"):
        with open(f) as h: s = h.read(3000)
        m, t = COST.search(s), re.search(r"^summary: (\d+)", s, re.M)
        if m and t: D.setdefault((m[1], m[2]), {})[int(m[3])] = int(t[1])
        os.unlink(f)
    judge(c, f"{name}, callgrind", D, dict(variant=name, cmd=cmd))

def emulated(c, name, simd):
    """qemu-user's log of each executed instruction of the library."""
    exe = c.driver(name, "cost.c", out="cost")
    qemu = VARIANTS[name]["run"][0]
    nm = c.sh([VARIANTS[name]["cc"].replace("gcc", "nm"), exe]).stdout
    lib = sorted({s for s in re.findall(r" [Tt] (base64_\w+)", nm)})
    addr = sorted(int(m[0], 16) for m in re.findall(r"^(\w+) [Tt] (\S+)", nm, re.M) if m[1] in lib)
    after = min([int(m[0], 16) for m in re.findall(r"^(\w+) [Tt] (\S+)", nm, re.M) if int(m[0], 16) > addr[-1]] or [addr[-1] + 65536])
    D = {}
    tasks = []
    def one(codec, op, n):
        cmd = [qemu, "-one-insn-per-tb", "-d", "exec,nochain", "-dfilter", f"{addr[0]:#x}..{after - 1:#x}", exe, "one", "--codec", codec, "--op", op, "--n", str(n)]
        p = subprocess.Popen(cmd, stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, cwd=c.work)
        k = 0
        while b := p.stderr.read(1 << 20): k += b.count(b"\n")
        if p.wait(): raise CheckError(f"[{name}] counting instructions does not work: exit {p.returncode}")
        with c.lock:
            D.setdefault((codec, op), {})[n] = k
            c.jobs += 1
        c.count(1, 1)
    for codec in ("PLAIN", simd):
        for op in ("enc", "dec", "enc-stream-1", "dec-stream-3", "enc-chunks", "dec-chunks"):
            for n in (3000, 6000, 12000): tasks.append(lambda codec=codec, op=op, n=n: one(codec, op, n))
    c.parallel(tasks, 4)
    for k, x in D.items():
        if min(x.values()) == 0: raise CheckError(f"[{name}] no instructions were counted for {k}")
    judge(c, f"{name}, emulated", D, dict(variant=name))

# ------------------------------------------------------------ the utility
def cli_cases(pool, n, only=None):
    """(name, arguments, input): inputs of about n bytes"""
    data = (pool * (n // len(pool) + 1))[:n]
    t = base64.b64encode(data[:n // 4 * 3])
    def fit(w):
        m = n * w // (w + 1) // 4 * 4
        return b"".join(t[i:i + w] + b"\n" for i in range(0, m - m % 4, w))
    C = [("enc -w 76", [], data), ("enc -w 0", ["-w0"], data), ("enc -w 1", ["-w1"], data), ("enc -w 4", ["-w4"], data), ("enc -w 100000", ["-w100000"], data),
         ("dec -n", ["-d", "-n"], t), ("dec one line", ["-d"], t), ("dec lines of 76", ["-d"], fit(76)), ("dec lines of 4", ["-d"], fit(4)), ("dec lines of 1", ["-d"], fit(1)),
         ("dec newlines", ["-d"], b"\n" * n), ("dec -i one line", ["-d", "-i"], t), ("dec -i lines of 4", ["-d", "-i"], fit(4)), ("dec -i lines of 1", ["-d", "-i"], fit(1)),
         ("dec -i garbage", ["-d", "-i"], b"\x80!" * (n // 2)), ("dec newlines, then text", ["-d"], b"\n" * (n // 2) + t[:n // 8 * 4]), ("dec text, then newlines", ["-d"], t[:n // 8 * 4] + b"\n" * (n // 2))]
    return C

def cli_cost(c, name, big):
    from cli import build_clis
    exe = build_clis(c, [name])[name].exe
    pool = random.Random(c.seed).randbytes(1 << 20)
    sizes = (1 << 14, 1 << 16, 3 << 20, (24 if big else 9) << 20)
    cases = {n: {x[0]: x for x in cli_cases(pool, n)} for n in sizes}
    tasks = []
    def one(what):
        x = {}
        for n in sizes:
            _, args, data = cases[n][what]
            f = os.path.join(c.work, f"cost-{what.replace(' ', '_').replace(',', '')}-{n}")
            with open(f, "wb") as h: h.write(data)
            cmd = ["valgrind", "-q", "--tool=callgrind", f"--callgrind-out-file={f}.cg", exe] + args + [f]
            with open(os.devnull, "wb") as null: p = subprocess.run(cmd, stdout=null, stderr=subprocess.PIPE, timeout=600)
            os.unlink(f)
            if p.returncode not in (0, 1) or not os.path.exists(f + ".cg"): raise CheckError(f"callgrind of {what} does not work: {p.returncode} {p.stderr[-300:]}")
            with open(f + ".cg") as h: m = re.search(r"^(?:summary|totals): (\d+)", h.read(), re.M)
            os.unlink(f + ".cg")
            x[len(data)] = int(m[1])
            c.count(1, 1)
            with c.lock: c.jobs += 1
            if len(x) < 2: continue
            s = slopes(x)
            msg = f"[{name}] base64 {' '.join(args)} ({what}): " + ", ".join(f"{n} bytes {v} instructions" for n, v in sorted(x.items()))
            if s[-1] > 1.4 * s[0] + 4:
                c.add_viol("utility-not-linear", msg, {})
                return
            if s[-1] > 150:
                c.add_viol("utility-too-much-work", msg + f": {s[-1]:.1f} per byte", {})
                return
        c.stat("utility_costs_judged")
        c.add_sample(f"[{name}] base64 {what}: {s[-1]:.2f} instructions per byte of input")
        if os.environ.get("VERIF_TIME"): print(f"# {what}: {s}")
    for what in cases[sizes[0]]: tasks.append(lambda what=what: one(what))
    c.parallel(tasks)

def memory(c, name, big):
    """The peak memory use of the utility, for a small and a large input."""
    from cli import build_clis
    exe = build_clis(c, [name])[name].exe
    pool = random.Random(c.seed).randbytes(1 << 20)
    sizes = (8 << 20, (512 << 20) if big else (96 << 20))
    text = base64.b64encode(pool[:3 << 18])
    kinds = [("enc", [], pool), ("enc one line", ["-w0"], pool), ("enc -w 1", ["-w1"], pool), ("dec", ["-d"], b"".join(text[i:i + 76] + b"\n" for i in range(0, len(text), 76))), ("dec one line", ["-d"], text),
             ("dec newlines", ["-d"], b"\n" * (1 << 20)), ("dec -i garbage", ["-di"], b"?" * (1 << 20)), ("dec -i", ["-di"], b"".join(text[i:i + 5] + b"-" for i in range(0, len(text), 5)))]
    def one(what, args, block):
        peak = []
        for n in sizes:
            r, w = os.pipe()
            pid = os.posix_spawn(exe, [exe] + args, dict(os.environ, LC_ALL="C"), file_actions=[(os.POSIX_SPAWN_DUP2, r, 0), (os.POSIX_SPAWN_OPEN, 1, "/dev/null", os.O_WRONLY, 0), (os.POSIX_SPAWN_CLOSE, w)])
            os.close(r)
            timer = threading.Timer(240, lambda: os.kill(pid, signal.SIGKILL))
            timer.start()
            try:
                for _ in range(0, n, len(block)):
                    mv = memoryview(block)
                    while mv: mv = mv[os.write(w, mv):]
            except OSError: pass
            # (the resource usage of wait4() would count what was before exec)
            with open(f"/proc/{pid}/status") as f: m = re.search(r"VmHWM:\s+(\d+)", f.read())
            os.close(w)
            _, st = os.waitpid(pid, 0)
            timer.cancel()
            if os.WIFSIGNALED(st): raise CheckError(f"base64 {what} was killed by signal {os.WTERMSIG(st)} (after 240 s, if it is 9)")
            if not m: raise CheckError("the kernel does not tell a process's peak memory")
            peak.append(int(m[1]))
            if os.waitstatus_to_exitcode(st) != 0: c.note(f"base64 {' '.join(args)}: status {st}")
            c.count(1, 1)
        c.stat("peak_memory_compared")
        with c.lock: c.maxes["peak_memory_KB"] = max(c.maxes.get("peak_memory_KB", 0), peak[1])
        if peak[1] > peak[0] + 4096: c.add_viol("memory", f"[{name}] base64 {' '.join(args)} ({what}): {peak[0]} KB for {sizes[0]} bytes of input, {peak[1]} KB for {sizes[1]}", {})
    c.parallel([lambda k=k: one(*k) for k in kinds], 4)

def utility(c):
    cli_cost(c, "native", c.thorough)
    if not any(k.startswith("utility") for k, *_ in c.viols): memory(c, "native", c.thorough)	# it could take forever

def c25(c):
    names = ["native", "noasm", "clang", "clang-noasm"] + (["lto", "pic"] if c.thorough else [])
    s = 1 if c.thorough else 0
    tasks = [lambda n=n: callgrind(c, n, s) for n in names]
    if c.cpu("avx512vbmi") and c.cpu("avx512vl"): tasks += [lambda n=n: stepped(c, n, s, "PLAIN,AVX512,default") for n in names]
    tasks += [lambda: emulated(c, "aarch64", "NEON64"), lambda: emulated(c, "armhf", "NEON32")]
    if c.thorough: tasks += [lambda: emulated(c, "aarch64-noasm", "NEON64"), lambda: emulated(c, "armhf-noasm", "NEON32"), lambda: stepped(c, "i686", s, "all")]
    tasks.append(lambda: utility(c))
    c.parallel(tasks)
    return c.finish("instructions of calls and of whole runs of the utility, counted by callgrind, single-stepping and qemu's log, at three sizes; per further byte of input they must not grow with the size, must stay below a bound, and for a vector "
                    "codec below a part of what the plain codec needs in the same build; peak memory of the utility for a small and a large input; non-trivial: distinct (build, codec, kind of call, size)",
                    ["callgrind, the trap flag and qemu count instructions right (they agree with each other where they can be compared)", "instructions stand for work; time is not measured"], need=dict(costs_judged=150, vector_codecs_compared_with_plain=80, utility_costs_judged=10, peak_memory_compared=6))
