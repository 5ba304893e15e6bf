"""The base64 utility: models of what it must do, and monitored runs of it."""
import os, re, json, random, base64, signal, subprocess, threading, fcntl, time
from vf import *

AL = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
GARBAGE = bytes(x for x in range(256) if x not in AL + b"=")
BUF = 1 << 20

# ------------------------------------------------------------ the models
def enc_model(data, wrap):
    t = base64.b64encode(data)
    if not wrap or not t: return t
    if wrap >= len(t): return t + b"\n"
    return b"".join(t[i:i + wrap] + b"\n" for i in range(0, len(t), wrap))

RUN = re.compile(rb"[A-Za-z0-9+/]*")
def dec_model(text, i=False, n=False):
    """(valid, the data that the characters up to the first error determine)"""
    if i: text = text.translate(None, GARBAGE)
    elif not n: text = text.translate(None, b"\n")
    m = RUN.match(text).end()
    rest, r = text[m:], m % 4
    valid = (rest == b"" and r == 0) or (rest == b"==" and r == 2) or (rest == b"=" and r == 3)
    # "x=": one more is needed; the data known so far is the same
    return valid, base64.b64decode(text[:m] + b"A" * (-m % 4))[:m * 3 // 4]

def selftest():
    """The models against coreutils, where that is installed, and known answers."""
    assert enc_model(b"foobar", 4) == b"Zm9v\nYmFy\n" and enc_model(b"", 76) == b"" and enc_model(b"f", 0) == b"Zg=="
    assert dec_model(b"Zm9vYg==\n") == (True, b"foob") and dec_model(b"Zm9vYg=") == (False, b"foob") and dec_model(b"Zm9v\nYg==", n=True) == (False, b"foo")
    assert dec_model(b"Z!m9v", i=True) == (True, b"foo") and dec_model(b"Zm9vY") == (False, b"foo") and dec_model(b"Zg==A") == (False, b"f") and dec_model(b"=") == (False, b"")

# ------------------------------------------------------------ running it
class Cli:
    def __init__(self, c, name, exe, prefix=()):
        self.c, self.name, self.exe, self.prefix = c, name, exe, list(prefix)
        self.dead = False
        self.n = 0
        self.lock = threading.Lock()

    def tmp(self, ext=""):
        with self.lock:
            self.n += 1
            return os.path.join(self.c.work, f"cli-{self.name}-{self.n}{ext}")

    def memfd(self, data, at=0):
        fd = os.memfd_create("in")
        mv = memoryview(data)
        while mv: mv = mv[os.write(fd, mv):]
        os.lseek(fd, at, 0)
        return fd

    def go(self, args, data=b"", how="file", plan=None, rng=None, stdin=None, out=None, timeout=60, wrapper=()):
        """Run it once. how: file (standard input is a file), offset (the same,
        not at its start), dash, pipe, arg, none. Returns (rc, out, err, log)."""
        args = list(args)
        close, path, writer, inj_in = [], None, None, []
        if how == "arg":
            path = self.tmp()
            with open(path, "wb") as f: f.write(data)
            args.append(path)
            fin = os.open("/dev/null", os.O_RDONLY)
            inj_in = ["--in", path]
        elif how in ("file", "dash"):
            if how == "dash": args.append("-")
            fin = self.memfd(data)
        elif how == "offset":
            fin = self.memfd(b"=junk=" + data, 6)
        elif how == "pipe":
            fin, w = os.pipe()
            r = rng or random.Random(len(data))
            sizes = r.choice(((1, 3), (1, 100), (1, 5000), (4000, 4200), (65536, 70000), (1, 200000)))
            if len(data) > 100000 and sizes[1] < 1000: sizes = (4000, 4200)
            pause = r.random() < .3 and len(data) < 200000
            def feed():
                mv = memoryview(data)
                try:
                    while mv:
                        n = r.randint(*sizes)
                        k = os.write(w, mv[:n])
                        mv = mv[k:]
                        if pause and r.random() < .05: time.sleep(.0005)
                except OSError: pass
                os.close(w)
            writer = threading.Thread(target=feed)
        elif how == "none": fin = os.open("/dev/null", os.O_RDONLY)
        else: fin = stdin
        if how != "given": close.append(fin)
        fout = out if out is not None else os.memfd_create("out")
        ferr = os.memfd_create("err")
        if out is None: close.append(fout)
        close.append(ferr)
        cmd = list(wrapper) + self.prefix + [self.exe] + args
        log = None
        if plan is not None:
            log = self.tmp(".log")
            cmd = [self.c.inject] + inj_in + ["--log", log, "--plan", plan, "--"] + cmd
        env = dict(os.environ, LC_ALL="C", ASAN_OPTIONS="detect_leaks=0:exitcode=66", UBSAN_OPTIONS="exitcode=66:halt_on_error=1:print_stacktrace=1", MSAN_OPTIONS="exitcode=66")
        env.pop("POSIXLY_CORRECT", None)
        try:
            p = subprocess.Popen(cmd, stdin=fin, stdout=fout, stderr=ferr, env=env, cwd=self.c.work, start_new_session=True)
            if writer: writer.start()
            if how == "pipe": os.close(fin); close.remove(fin)
            try: rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
            if writer: writer.join()
            so = None
            if out is None:
                so = os.pread(fout, 1 << 30, 0)
            se = os.pread(ferr, 1 << 20, 0)
            lg = None
            if log and os.path.exists(log):
                lg = json.load(open(log))
                os.unlink(log)
        finally:
            for fd in close: os.close(fd)
            if path: os.unlink(path)
        if rc in (98, 99) and plan is not None: raise CheckError(f"injecting faults does not work: {se[-300:]}")
        return rc, so, se, lg

    def viol(self, key, msg, args, data, how, plan=None):
        """Record a violation, with the input if it is small."""
        if len(data) > 3000000: keep = None
        else:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            keep = os.path.join(VERIF, "replay", f"{self.c.prop}-{os.getpid()}-{self.name}.in")
            if not os.path.exists(keep): open(keep, "wb").write(data)
        self.c.add_viol(key, f"[{self.name}] base64 {' '.join(args)} ({how}, {len(data)} bytes of input{', plan ' + plan if plan else ''}): {msg}", dict(args=list(args), how=how, plan=plan, input=keep, input_start=data[:200].decode('latin1'), variant=self.name))
        with self.c.lock:
            if len(self.c.viols) > 40: self.dead = True

    def expect(self, args, data, ok, want, how="file", plan=None, rng=None, exact=True, injected=None, **kw):
        """Run and judge. ok: must it succeed (None: either, consistently);
        want: the complete output, of which a failing run may have written a prefix."""
        if self.dead: return None
        key = self.c.prop.lower()
        for attempt in (1, 2):
            rc, out, err, log = self.go(args, data, how, plan, rng, **kw)
            if rc != "timeout": break
        self.c.stat("runs")
        with self.c.lock: self.c.jobs += 1
        if how in ("pipe", "offset", "dash", "arg"): self.c.stat("runs_with_input_by_" + how)
        self.c.count(1)
        if log:
            for k in ("writes", "reads", "short", "eintr", "errors"): self.c.stat({"short": "transfers_cut_short", "eintr": "calls_interrupted", "errors": "failures_injected"}.get(k, k + "_observed"), log[k])
        V = lambda k, m: self.viol(k, m, args, data, how, plan)
        if rc == "timeout":
            self.dead = True
            return V("hang", "does not end (twice)")
        if rc < 0: return V("crash", f"dies of signal {-rc}")
        if rc == 66 or b"Sanitizer" in err or b"runtime error:" in err: return V("sanitizer", f"{err[:600].decode('latin1')}")
        if callable(ok): ok, want = ok(log)
        if ok is None: ok = rc == 0
        if rc != (0 if ok else 1): return V("status", f"exits with {rc}, must exit with {0 if ok else 1} ({len(out)} bytes of output of {len(want)}; stderr {err[:100]!r})")
        if ok and out != want:
            n = next((i for i, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
            return V("output", f"wrong output: {len(out)} bytes, must be {len(want)}; first difference at {n}: {out[n:n + 20]!r} for {want[n:n + 20]!r}")
        if not ok:
            if not want.startswith(out): return V("prefix", f"fails, having written {len(out)} bytes that are not a prefix of the data determined ({len(want)} bytes)")
            if not err: return V("message", "fails without a message on standard error")
            self.c.stat("runs_that_had_to_fail")
        if log and log["bytes_out"] != len(out): raise CheckError("the injector miscounts")
        return rc, out, err, log

def build_clis(c, names):
    """The utility in several builds."""
    selftest()
    clis = {}
    def one(n):
        try:
            b = c.variant(n, targets=("base64", "base64-bin"), tag="-cli")
            exe = next((p for p in (os.path.join(b, "bin", "base64"), os.path.join(b, "base64")) if os.path.isfile(p)), None)
            if not exe: raise CheckError(f"no utility in {b}")
            clis[n] = Cli(c, n, exe, VARIANTS[n].get("run", []))
        except CheckError as e:
            if n == "native" or os.environ.get("VERIF_STRICT"): raise
            c.note(f"build {n} is left out: {str(e)[-300:]}")
    c.parallel([lambda n=n: one(n) for n in names])
    return clis

def build_inject(c):
    c.inject = os.path.join(c.work, "inject")
    c.sh(["gcc", "-O2", "-w", "-o", c.inject, os.path.join(SRC, "inject.c")])

def rand_bytes(r, n): return r.randbytes(n)

# ------------------------------------------------------------ C18
HOWS = ("file", "file", "pipe", "arg", "dash", "offset")

def enc_cases(seed, part, scale):
    """(width or None, size, how, plan)"""
    r = random.Random(seed * 1000003 + part)
    out = []
    for n in list(range(0, 8)) + [47, 48, 49, 56, 57, 58, 113, 114, 115, 170, 171]:
        for w in (None, 0, 1, 2, 3, 4, 5, 75, 76, 77): out.append((w, n, r.choice(HOWS), None))
    # Around the number of vectors that one writev can take: 1024, two per line
    for w in (1, 2, 3, 4, 5, 7, 8, 16, 19, 33, 64, 75, 76, 77, 100):
        for lines in (510, 511, 512, 513, 1023, 1024, 1025, 1536):
            chars = w * lines
            for n in {chars * 3 // 4 + d for d in (-2, -1, 0, 1, 2)}:
                if r.random() < (.25 if scale == 0 else .6): out.append((w, max(0, n), r.choice(HOWS), None))
    # Around the size of the buffers
    for k in (1, 2, 3):
        for d in range(-4, 5):
            for w in (0, 76, None, r.choice((1, 2, 3, 4, 5, 7, 11, 19, 61)), r.choice((1000, 1023, 1024, 4096, 65536)), r.choice((1398098, 1398099, 1398100, 1398101, 1398102, 1398103, 1398104, 1398105, 2796200, 2796204, 10 ** 7, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1))):
                if r.random() < (.22 if scale == 0 else .8): out.append((w, k * BUF + d, r.choice(HOWS), None))
    for _ in range((350, 900, 6000)[scale]):
        w = r.choice((None, 0, 1, r.randint(1, 12), r.randint(1, 100), r.randint(1, 2000), r.randint(1, 10 ** 5)))
        n = r.choice((r.randint(0, 30), r.randint(0, 400), r.randint(0, 5000), r.randint(0, 40000)))
        if w == 1 and n > 20000: n %= 20000
        out.append((w, n, r.choice(HOWS), None))
    # All ways to cut reads: random fragmentation of read calls
    for _ in range((60, 200, 1500)[scale]):
        w = r.choice((None, 0, r.randint(1, 12), r.randint(1, 100)))
        n = r.choice((r.randint(0, 400), r.randint(0, 9000), BUF + r.randint(-3, 3) if r.random() < .3 else 77))
        out.append((w, n, r.choice(("file", "arg")), f"rr:{r.randint(0, 10 ** 6)}"))
    if scale == 2:
        for n in range(0, 420):
            for w in range(0, 80, 3): out.append((w, n, r.choice(HOWS), None))
        for n in (10 * BUF, 10 * BUF + 1, 33 * BUF + 5, 100 * BUF + 2):
            for w in (0, 76, 19): out.append((w, n, "file", None))
    return out, r

def run_cases(c, cli, cases, fn, n=NCPU):
    def batch(cs):
        for x in cs: fn(cli, *x)
    r = random.Random(7); cases = list(cases); r.shuffle(cases)
    return [lambda cs=cases[i::n]: batch(cs) for i in range(n)]

def c18(c):
    build_inject(c)
    mains, others = ["native", "asan", "i686"], ["msan", "gccsan", "clang", "openmp", "emuwritev", "aarch64", "armhf", "s390x"]
    clis = build_clis(c, mains + others)
    pool = random.Random(c.seed).randbytes(4 * BUF)
    big = {}
    seen = set()
    def one(cli, w, n, how, plan):
        r = random.Random(n * 31 + (w or 0))
        if n <= len(pool) - 1000: o = r.randrange(1000); data = pool[o:o + n]
        else: data = (pool * (n // len(pool) + 1))[:n]
        if r.random() < .1: data = bytes([r.choice((0, 255, 10, 0xFB))]) * n
        args = [] if w is None else r.choice((["-w", str(w)], [f"-w{w}"], ["--wrap", str(w)], [f"--wrap={w}"]))
        cli.expect(args, data, True, enc_model(data, 76 if w is None else w), how, plan, rng=r)
        with c.lock:
            if n: seen.add((cli.name, w, n, how, plan))
        if r.random() < .002: c.add_sample(f"[{cli.name}] {' '.join(args)}, {n} bytes by {how} {plan or ''}")
    tasks = []
    for i, (name, cli) in enumerate(clis.items()):
        scale = (1 if name == "native" else 0) if not c.thorough else (2 if name in mains else 1)
        cases, _ = enc_cases(c.seed, i, scale)
        if name in others and not c.thorough:
            r = random.Random(c.seed + i)
            cases = [x for x in cases if x[3] is None and (x[1] < BUF / 2 or r.random() < .3)]
            r.shuffle(cases); cases = cases[:60]
        if cli.prefix: cases = [x for x in cases if x[3] is None]
        tasks += run_cases(c, cli, cases, one)
    c.parallel(tasks)
    c.count(0, len(seen))
    return c.finish("runs of the utility's builds (native, i386, sanitized, OpenMP, emulated ARM and s390x), output and status compared with a model; sizes around the buffer size, line counts around IOV_MAX, widths up to 2^63-1, input by file, pipe, "
                    "argument, '-', from an offset, and with read calls cut at random; non-trivial: distinct (build, width, non-zero size, way of input)", ["Python's base64 module encodes correctly", "qemu-user is faithful"], need=dict(runs=1000, reads_observed=100, runs_with_input_by_pipe=100))

# ------------------------------------------------------------ C19
def wrapped(r, text, style):
    """Insert newlines or garbage."""
    out, i = [], 0
    while i < len(text):
        n = {"lines": 76, "short": r.randint(1, 6), "one": 1, "rare": r.randint(1, 5000), "long": r.randint(50000, 400000)}[style]
        out.append(text[i:i + n]); i += n
    return out

def dec_case(r, big=False):
    """(args, i, n, text)"""
    n = r.choice((r.randint(0, 6), r.randint(0, 40), r.randint(0, 300), r.randint(0, 4000), r.randint(0, 30000)))
    data = r.randbytes(n)
    t = base64.b64encode(data)
    i, nn = r.random() < .4, r.random() < .3
    style = r.choice(("none", "lines", "lines", "short", "one", "rare"))
    if style == "one" and n > 4000: style = "lines"
    parts = [t] if style == "none" else wrapped(r, t, style)
    sep = lambda: b"\n"
    if i and r.random() < .7:
        g = r.choice((GARBAGE, b"\r\n", b" \t\n", b"\"'", b"-_", b"\0", b"\x80\xff\xbd", b",.:;<>?@[\\]^_`{|}~!#$%&()*-"))
        sep = lambda: bytes(r.choice(g) for _ in range(r.choice((1, 1, 2, 5))))
    elif r.random() < .2: sep = lambda: b"\n" * r.randint(1, 5)
    elif r.random() < .05: sep = lambda: b"\r\n"
    x = bytearray()
    if r.random() < .15: x += sep()
    for k, p in enumerate(parts):
        if k: x += sep()
        x += p
    if r.random() < .6: x += sep()
    # And break it
    e = r.random()
    if e < .45 and x:
        for _ in range(r.choice((1, 1, 1, 2))):
            k = r.randrange(7)
            p = r.choice((r.randrange(len(x) + 1), max(0, len(x) - r.randint(0, 6)), r.randint(0, min(8, len(x)))))
            if k == 0: x[p:p] = bytes([r.choice(GARBAGE)])
            elif k == 1 and p < len(x): x[p] = r.choice(GARBAGE)
            elif k == 2: x[p:p] = b"="
            elif k == 3 and p < len(x): del x[p]
            elif k == 4: x[p:p] = bytes([r.choice(AL)])
            elif k == 5: del x[p:]
            else: x += r.choice((b"=", b"==", b"A", b"A===", b"\n=", b"AAAA", b"===="))
    return i, nn, bytes(x)

def dec_args(r, i, n):
    a = [r.choice(("-d", "--decode"))]
    if i: a.append(r.choice(("-i", "--ignore-garbage")))
    if n: a.append(r.choice(("-n", "--no-strip-newlines")))
    if r.random() < .1: a += ["-w", str(r.randint(0, 100))]
    r.shuffle(a) if "-w" not in a else None
    if r.random() < .2 and "-w" not in a and all(len(x) == 2 for x in a): a = ["-" + "".join(x[1] for x in a)]
    return a

def dec_big(seed, k):
    """Texts around the size of the buffer: newlines, padding, errors near the boundary."""
    r = random.Random(seed * 65537 + k)
    nb = r.choice((1, 1, 1, 2))
    target = nb * BUF
    i, nn = r.random() < .3, r.random() < .25
    style = r.choice(("none", "none", "lines", "long", "rare"))
    if nn and not i: style = "none"
    pool = r.randbytes(BUF * 3 // 4 * nb + 3000)
    t = base64.b64encode(pool)
    sep = b"\n"
    if i and r.random() < .5: sep = r.choice((b"\r\n", b" ", b"\"", b"!"))
    if style == "none": x = bytearray(t)
    elif style == "lines": x = bytearray(sep.join(t[j:j + 76] for j in range(0, len(t), 76)))
    else: x = bytearray(sep.join(wrapped(r, t, style)))
    what = r.randrange(9)
    d = r.randint(-6, 6)
    p = target + d
    if what == 0: x = x[:p]                            # ends there, maybe in a quantum
    elif what in (1, 2):                               # ends there, with proper padding
        x = x[:p]
        k = sum(ch in AL for ch in x[-2000:]) if False else len(bytes(x).translate(None, GARBAGE)) % 4
        gap = r.choice((b"", b"", b"\n", b"\n\n")) if not (nn and not i) else b""
        if k == 2: x += gap + b"=" + r.choice((b"", b"\n") if not (nn and not i) else (b"",)) + b"="
        elif k == 3: x += gap + b"="
        elif k == 1: x += b"A=" + gap + b"="
        if what == 2: x += r.choice((b"\n", b"\n\n\n", b"A", b"=", b"AAAA", b"\n" + b"A" * 5, b"\n" * 3000))
    elif what == 3: x[p] = r.choice((0, 10, 13, 32, 61, 45, 95, 34, 128, 255))
    elif what == 4: x[p:p] = r.choice((b"\n", b"\n\n", b"=", b"\"", b"\r\n", b"\n" * 7))
    elif what == 5: del x[p]
    elif what == 6: x[r.randrange(len(x))] = r.choice((0, 61, 45, 34, 255)); x = x[:len(x) - r.randint(0, 5)]
    elif what == 7: x = x[:p] + r.choice((b"\n", b"\n\n\n\n\n\n\n\n")) + x[p:]
    else: pass
    return i, nn, bytes(x)

def c19(c):
    build_inject(c)
    mains, others = ["native", "asan", "i686"], ["msan", "gccsan", "clang", "openmp", "aarch64", "armhf", "s390x"]
    clis = build_clis(c, mains + others)
    seen = set()
    def check(cli, i, n, text, r, plan=None):
        valid, data = dec_model(text, i, n)
        how = r.choice(("file", "arg")) if plan else r.choice(HOWS)
        a = dec_args(r, i, n)
        cli.expect(a, text, valid, data, how, plan, rng=r)
        c.stat("valid_texts" if valid else "invalid_texts")
        if b"\n" in text: c.stat("texts_with_newlines")
        with c.lock:
            if text: seen.add((cli.name, i, n, hash(text)))
        if r.random() < .002: c.add_sample(f"[{cli.name}] base64 {' '.join(a)}, {len(text)} bytes by {how} {plan or ''}: {'valid' if valid else 'invalid'}, starts with {text[:40]!r}")
    def small(cli, k):
        r = random.Random(c.seed * 1000003 + k * 17 + hash_name(cli.name))
        check(cli, *dec_case(r), r, f"rr:{r.randint(0, 99999)}" if k % 12 == 0 and not cli.prefix else None)
    def large(cli, k):
        r = random.Random(c.seed * 7919 + k)
        check(cli, *dec_big(c.seed, k), r, f"rr:{k}" if k % 25 == 0 and not cli.prefix else None)
    def fixed(cli, k, text, i, n):
        check(cli, i, n, text, random.Random(k))
    exh = exhaustive()
    tasks = []
    for name, cli in clis.items():
        m = name in mains
        q = 1 if c.thorough else 0
        ns = ((1500, 40000) if name == "native" else (500, 15000) if m else (50, 1500))[q]
        nl = ((150, 2500) if name == "native" else (50, 800) if m else (4, 60))[q]
        tasks += run_cases(c, cli, [(k,) for k in range(ns)], small)
        tasks += run_cases(c, cli, [(k,) for k in range(nl)], large)
        ex = exh if name == "native" or c.thorough and m else exh[c.seed % 11::11] if m else exh[c.seed % 80::80]
        tasks += run_cases(c, cli, [(k, *e) for k, e in enumerate(ex)], fixed)
    c.parallel(tasks)
    c.count(0, len(seen))
    return c.finish("runs of the utility's builds, output and status compared with a model: all 256 bytes at several places with each option, random texts with newlines or garbage everywhere, padding split by newlines, errors; texts around the size of the buffer; "
                    "input by file, pipe, argument, '-', from an offset, and with read calls cut at random; non-trivial: distinct (build, options, non-empty text)", ["the decoding model is right", "qemu-user is faithful"], need=dict(runs=1500, valid_texts=300, invalid_texts=300, texts_with_newlines=300))

def hash_name(s): return sum(ord(x) * 131 ** i for i, x in enumerate(s)) % 1000003

def exhaustive():
    out = []
    for b in range(256):
        for t in (b"QUJD%sREVG", b"QUJDRA%s==", b"QU%sJDREVG", b"QUJDRA=%s=", b"QUJDREU=%s", b"%sQUJD"):
            for i, n in ((False, False), (True, False), (False, True), (True, True)):
                if n and b % 3 and b not in (10, 13, 61): continue
                out.append((t.replace(b"%s", bytes([b])), i, n))
    import itertools
    for L in range(0, 6):
        for x in itertools.product(b"A=\n", repeat=L):
            out.append((bytes(x), False, False))
            if L < 5: out.append((bytes(x), True, False)); out.append((bytes(x), False, True))
    for L in (6, 7, 8, 9):      # paddings after a full quantum, newlines between
        for x in itertools.product(b"A=\n", repeat=L - 5): out.append((b"QUJDRE"[:5] + bytes(x), False, False)); out.append((b"QUJD\nRE" + bytes(x), False, False))
    for L in range(1, 5):
        for x in itertools.product(b"A=\"", repeat=L): out.append((bytes(x), True, False))
    return list(dict.fromkeys(out))

# ------------------------------------------------------------ C20
def c20(c):
    c.level = "fault_enumeration"
    build_inject(c)
    clis = build_clis(c, ["native", "i686", "asan", "emuwritev"] if not c.thorough else ["native", "i686", "asan", "clang", "openmp", "emuwritev"])
    R = random.Random(c.seed * 31337)
    pool = R.randbytes(4 * BUF)
    wrap = lambda t, n: b"".join(t[i:i + n] + b"\n" for i in range(0, len(t), n))
    # (name, arguments, input, must it succeed without faults, full output)
    sc = []
    def E(name, w, n):
        d = pool[:n]
        sc.append((name, [f"-w{w}"] if w is not None else [], d, True, enc_model(d, 76 if w is None else w)))
    def D(name, text, i=False, n=False):
        v, d = dec_model(text, i, n)
        sc.append((name, ["-d"] + (["-i"] if i else []) + (["-n"] if n else []), text, v, d))
    E("tiny", None, 3); E("tiny0", 0, 5); E("w3", 3, 40); E("w1", 1, 1500); E("w4", 4, 5000); E("w76", None, 90000); E("w0", 0, 2 * BUF + 100); E("w76big", None, BUF + 1000); E("wbig", 1500000, BUF * 2 + 5); E("empty", None, 0)
    t = base64.b64encode(pool[:2 * BUF])
    D("dec", t); D("decn", t[:400000], n=True); D("decw", wrap(t, 76)); D("decsmall", b"Zm9v\nYmFy\n"); D("deci", wrap(t[:4000], 7).replace(b"\n", b"!"), i=True)
    D("decbad", t[:BUF + 500] + b"!" + t[BUF + 500:]); D("dectrunc", t[:BUF + 501]); D("decempty", b"")
    seen = set()
    kinds = {}
    def fault(cli, s, plan, how="file", hard=True):
        name, args, data, ok0, want = s
        def verdict(log):
            # What was injected decides what must come of it.
            e = log["errors"]
            if e and hard: return (None if hard == "once" and ok0 else False), want
            return ok0, want
        x = cli.expect(args, data, verdict, want, how, plan)
        if x and x[3] and (x[3]["errors"] or x[3]["short"] or x[3]["eintr"]):
            with c.lock: seen.add((cli.name, name, how, plan))
            c.stat("runs_with_faults")
        if x and hash_name(plan) % 400 == 0: c.add_sample(f"[{cli.name}] {name}: {' '.join(args)} on {len(data)} bytes, plan {plan}: exit {x[0]}, {len(x[1])} bytes written of {len(want)}, {x[3]}")
    tasks = []
    counts = {}
    cli0 = clis["native"]
    def measure(s):
        for how in ("file", "arg"):
            x = cli0.expect(s[1], s[2], s[3], s[4], how, "")
            counts[s[0], how] = (x[3]["writes"], x[3]["reads"], x[3]["large_allocs"]) if x else (3, 3, 2)
    c.parallel([lambda s=s: measure(s) for s in sc])
    if getattr(c, "errors", None): return c.finish("(incomplete)")
    def pick(n, k):
        """1..n, all if few; else the ends and a sample"""
        return list(range(1, n + 1)) if n <= k else sorted({1, 2, 3, n, n - 1, n // 2} | {R.randint(1, n) for _ in range(k - 6)})
    for name, cli in clis.items():
        main = name == "native"
        cap = (24 if main else 8) if not c.thorough else (80 if main else 25)
        plans = []
        for s in sc:
            nw, nr, na = counts[s[0], "file"]
            size = len(s[4])
            big = len(s[2]) > 300000
            k0 = max(4, cap // 3) if big else cap
            for k in pick(nw + 1, k0):
                plans.append((s, f"w{k}:eintr", "file", False))
                for n in {1, 2, R.randint(1, 100), -1, -2, R.randint(1, max(2, size // max(1, nw)))}: plans.append((s, f"w{k}:short:{n}", "file", False))
                for e in R.sample((28, 5, 32, 27, 122, 9, 11), 2 if not c.thorough else 5): plans.append((s, f"w{k}+:err:{e}", "file", True))
                plans.append((s, f"w{k}:err:{R.choice((28, 5, 12))}", "file", "once"))
                plans.append((s, f"w{k}:short:{R.randint(1, 300)},w{k + 1}+:err:28", "file", True))
                plans.append((s, f"w{k}:eintr,w{k + 1}:eintr,w{k + 2}:short:{R.randint(1, 50)}", "file", False))
                plans.append((s, f"w{k}:short:{R.randint(1, 90)},w{k + 1}:eintr,w{k + 2}:short:1,w{k + 3}:eintr", "file", False))
            for how in ("file", "arg"):
                for k in pick(counts[s[0], how][1], k0): plans.append((s, f"r{k}+:err:{R.choice((5, 21, 9, 14, 116))}", how, True))
            for k in range(1, na + 2): plans.append((s, f"a{k}+", "file", True))
            plans.append((s, "c1:err:5", "file", True)); plans.append((s, "c1:err:28", "file", True))
            for _ in range(k0 * 2 if not big else k0): plans.append((s, f"wr:{R.randint(0, 10 ** 6)}" + (f",rr:{R.randint(0, 10 ** 6)}" if R.random() < .5 else ""), R.choice(("file", "arg")), False))
        # Every possible cut of one small vectored write, and pairs of cuts
        small = [s for s in sc if s[0] in ("w3", "tiny", "decsmall")]
        for s in small if main or c.thorough else small[:1]:
            for n in range(1, len(s[4])):
                plans.append((s, f"w1:short:{n}", "file", False))
                m = len(s[4]) - n
                for k in (range(1, m) if c.thorough else [R.randint(1, m)]): plans.append((s, f"w1:short:{n},w2:short:{k}", "file", False))
                plans.append((s, f"w1:short:{n},w2:eintr,w3:short:{R.randint(1, m)},w4:eintr", "file", False))
                plans.append((s, f"w1:short:{n},w2+:err:28", "file", True))
        # The first write in many scenarios, cut close to where vectors meet
        s = next(s for s in sc if s[0] == "w76")
        for n in sorted({a * 77 + b for a in (0, 1, 2, 511, 200) for b in (-1, 0, 1, 75, 76)}): 
            if n > 0: plans.append((s, f"w1:short:{n}", "file", False)); plans.append((s, f"w2:short:{n}", "file", False))
        if cli.name == "asan":
            plans = [p for p in plans if not p[1].startswith("a")]      # its allocator is another
            R.shuffle(plans); plans = plans[:(300 if not c.thorough else 1500)]
        elif not main and not c.thorough: R.shuffle(plans); plans = plans[:1200]
        plans = [p for p in dict.fromkeys((id(p[0]),) + p[1:] for p in plans)]
        byid = {id(s): s for s in sc}
        tasks += run_cases(c, cli, [(byid[p[0]],) + p[1:] for p in plans], fault)
    c.parallel(tasks)
    # Real faults, without the injector
    def real(cli):
        if cli.name == "asan": return
        def J(cond, key, msg, args, data=b""):
            c.stat("runs_with_real_faults"); c.count(1)
            if not cond: cli.viol(key, msg, args, data, "real fault")
        def sh(script, args, data, what, want, okfull=False, nonzero_only=False):
            out = cli.tmp(".out")
            rc, _, err, _ = cli.go(["-c", script, "sh", out, cli.exe] + list(args), data, timeout=60) if False else (None, None, None, None)
        d = pool[:300000]; want = enc_model(d, 76); t76 = want
        full = os.open("/dev/full", os.O_WRONLY)
        for args, data in (([], d), ([], b"a"), (["-w0"], d), (["-w1"], b"abc"), (["-d"], t76), (["-d"], b"Zg=="), (["-h"], b""), (["-w", "2000000"], d), (["-d", "-n"], b"Zm9v")):
            rc, _, err, _ = cli.go(args, data, out=full)
            J(rc == 1 and err, "dev-full", f"output to a full device: exits with {rc}, message {err[:80]!r}", args, data)
        os.close(full)
        def wrapper(script): return ["/bin/sh", "-c", script + '; exec "$@"', "sh"]
        for args, data in (([], d), (["-d"], t76), (["-w0"], d), (["-h"], b"")):
            fd = os.memfd_create("x")
            rc, so, err, _ = cli.go(args, data, wrapper=wrapper("exec >&-"))
            J(rc == 1 and err and not so, "closed-stdout", f"standard output closed: exits with {rc}", args, data)
            os.close(fd)
        for args in ([], ["-d"], ["-w0"], ["-d", "-i"]):
            rc, so, err, _ = cli.go(args, b"", wrapper=wrapper("exec <&-"))
            J(rc == 1 and err and not so, "closed-stdin", f"standard input closed: exits with {rc}", args)
            dfd = os.open(c.work, os.O_RDONLY)
            rc, so, err, _ = cli.go(args, b"", how="given", stdin=dfd)
            os.close(dfd)
            J(rc == 1 and err and not so, "directory-stdin", f"standard input is a directory: exits with {rc}", args)
            rc, so, err, _ = cli.go(args + [c.work], how="none")
            J(rc == 1 and err and not so, "directory", f"the file is a directory: exits with {rc}", args)
            rc, so, err, _ = cli.go(args + ["/proc/self/mem"], how="none")
            J(rc == 1 and err and not so, "unreadable", f"reading the file gives EIO: exits with {rc}", args)
        # A limit on the size of the output file: a short write, then EFBIG
        for args, data, w in (([], d, want), (["-w0"], d, enc_model(d, 0)), (["-w7"], d[:200000], enc_model(d[:200000], 7)), (["-d"], t76, d), ([], d[:37000], enc_model(d[:37000], 76))):
            path = cli.tmp(".out")
            fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
            rc, _, err, _ = cli.go(args, data, out=fd, wrapper=wrapper("trap '' XFSZ; ulimit -f 80"))
            os.close(fd)
            got = open(path, "rb").read(); os.unlink(path)
            small = len(w) <= 80 * 512
            J(w.startswith(got) and (rc == 1 and err if len(got) < len(w) else rc == 0), "file-size", f"output limited in size: exits with {rc}, {len(got)} of {len(w)} bytes written", args, data)
        # A pipe that nobody reads any more
        for sig in ("trap '' PIPE", ":"):
            for args, data, w in (([], d, want), (["-w0"], d, enc_model(d, 0)), (["-d"], t76, d)):
                rp, wp = os.pipe()
                os.close(rp)
                rc, _, err, _ = cli.go(args, data, out=wp, wrapper=wrapper(sig))
                os.close(wp)
                J(rc == 1 and err if sig != ":" else rc in (1, -13), "broken-pipe", f"broken pipe: exits with {rc}", args, data)
        # A slow reader, and stopping and continuing the writer all the time,
        # which makes the kernel cut or interrupt its writes; and a pipe that
        # does not block.
        for args, data, w, mode in (([], pool[:BUF * 2], enc_model(pool[:BUF * 2], 76), "stop"), (["-w0"], pool[:BUF * 2], enc_model(pool[:BUF * 2], 0), "stop"), (["-d"], enc_model(pool[:BUF * 2], 76), pool[:BUF * 2], "stop"),
                                    ([], d, want, "nonblock"), (["-d"], t76, d, "nonblock")):
            rp, wp = os.pipe()
            if mode == "nonblock": fcntl.fcntl(wp, fcntl.F_SETFL, os.O_NONBLOCK)
            fin = cli.memfd(data); ferr = os.memfd_create("e")
            p = subprocess.Popen(cli.prefix + [cli.exe] + args, stdin=fin, stdout=wp, stderr=ferr, start_new_session=True)
            os.close(wp); os.close(fin)
            got = []
            r = random.Random(5); k = 0
            while True:
                if mode == "stop" and k < 400:
                    k += 1
                    os.kill(p.pid, signal.SIGSTOP); os.kill(p.pid, signal.SIGCONT)
                x = os.read(rp, r.choice((1, 100, 4096, 30000)))
                if not x: break
                got.append(x)
            os.close(rp)
            rc = p.wait(60)
            err = os.pread(ferr, 10000, 0); os.close(ferr)
            got = b"".join(got)
            if mode == "stop": J(rc == 0 and got == w, "stopped", f"stopped and continued while it writes to a pipe: exits with {rc}, {len(got)} of {len(w)} bytes, {'a prefix' if w.startswith(got) else 'wrong'}", args, data)
            else: J(w.startswith(got) and (rc == 0 and got == w or rc == 1 and err), "nonblocking", f"output to a non-blocking pipe: exits with {rc}, {len(got)} of {len(w)} bytes", args, data)
    c.parallel([lambda x=x: real(x) for x in clis.values()])
    c.count(0, len(seen))
    return c.finish("a tracer that makes the utility's own write, writev, read, close and memory-mapping calls transfer less, be interrupted, or fail: every call of each scenario (or a sample of them, if there are many) in each way, every cut of small writes, random sequences; "
                    "real full devices, closed descriptors, directories, file size limits, broken and non-blocking pipes, stopped processes; status, message and output compared with the model; non-trivial: distinct (build, scenario, plan) in which a fault took place",
                    ["the tracer (src/inject.c) presents faults as Linux would"], extra=dict(scenarios=[f"{s[0]}: base64 {' '.join(s[1])} on {len(s[2])} bytes; {counts.get((s[0], 'file'))} writes, reads, large allocations" for s in sc]),
                    need=dict(runs_with_faults=500, transfers_cut_short=300, calls_interrupted=200, failures_injected=200, runs_with_real_faults=50))

# ------------------------------------------------------------ C21
def c21(c):
    clis = build_clis(c, ["native", "asan", "i686", "aarch64"] + (["clang", "s390x"] if c.thorough else []))
    seen = set()
    enc_in = random.Random(5).randbytes(211)
    T = base64.b64encode(random.Random(6).randbytes(60))
    dec_ins = [T, T[:40] + b"\n" + T[40:] + b"\n", T[:41] + b"!" + T[41:], T[:41] + b"!\n" + T[41:] + b"\"", b"Zg==\n", b"Zg"]
    # Names of files: whatever is in them, they are names
    ODD = [b"%s%n%s%n", b"%d %x %1000000d", b"a b", b"\xff\xfe\x80", b"new\nline", "😵\u200d💫.bin".encode(), b"~", b"*", b"=", b"a=b", b"x" * 240, b"--decode".ljust(9, b"."), b"'\"\\", b"\t\x1b[0m", b"0", b".x"]
    BADW = ["", "-1", "-76", "x", "5x", "x5", "0x10", "1e3", "1.5", "5 ", "--", "7,", "12a3", "-0x1", "٣", "5\n"]
    def opt(r):
        """An option in one of its spellings: (words, joinable letters, effect)"""
        k = r.randrange(5)
        if k == 0: return "d", r.choice((["-d"], ["--decode"]))
        if k == 1: return "i", r.choice((["-i"], ["--ignore-garbage"]))
        if k == 2: return "n", r.choice((["-n"], ["--no-strip-newlines"]))
        w = r.choice((0, 1, 2, 7, 64, 75, 76, 77, 100, 1000, 10 ** 6, 2 ** 31, 2 ** 40, r.randint(0, 300)))
        s = str(w) if r.random() < .8 else r.choice(("0", "00")) + str(w)
        return ("w", w), r.choice((["-w", s], ["-w" + s], ["--wrap", s], ["--wrap=" + s]))
    def good(cli, k):
        r = random.Random(c.seed * 999983 + k)
        words, d, i, n, w = [], False, False, False, 76
        for _ in range(r.choice((0, 1, 1, 2, 2, 3, 4, 6))):
            e, ws = opt(r)
            # join short flags: -di, -dw5, -nw 5
            if words and r.random() < .35 and re.fullmatch(r"-[din]+", words[-1]) and re.fullmatch(r"-[dinw].*", ws[0]): words[-1] += ws[0][1:]; words += ws[1:]
            else: words += ws
            if e == "d": d = True
            elif e == "i": i = True
            elif e == "n": n = True
            else: w = e[1]
        how = r.choice(("file", "dash", "arg", "pipe", "--dash", "--arg", "first", "dashed-name", "odd-name"))
        # find group boundaries, where a file name may stand: between options
        data = enc_in if not d else r.choice(dec_ins)
        args = list(words)
        if how.startswith("--"): args.append("--"); how = how[2:]
        path = None
        if how == "first":          # the file name before the options
            path = cli.tmp(); open(path, "wb").write(data)
            args = [path] + args; how = "none"
        elif how == "dashed-name":  # a file whose name looks like an option
            path = os.path.join(c.work, f"-d{cli.name}{k}"); open(path, "wb").write(data)
            args += ["--", os.path.basename(path)]; how = "none"
        elif how == "odd-name":
            dr = os.path.join(c.work, f"odd-{cli.name}{k}"); os.mkdir(dr)
            path = os.path.join(os.fsencode(dr), r.choice(ODD)); open(path, "wb").write(data)
            args.append(os.fsdecode(path)); how = "none"
        if d: ok, want = dec_model(data, i, n)
        else: ok, want = True, enc_model(data, w)
        cli.expect(args, data, ok, want, "none" if how == "none" else how, rng=r)
        if path:
            os.unlink(path)
            if isinstance(path, bytes): os.rmdir(os.path.dirname(path)); c.stat("uses_with_odd_file_names")
        c.stat("uses_with_good_options")
        with c.lock: seen.add((cli.name, tuple(words), how, d and data))
        if r.random() < .005: c.add_sample(f"[{cli.name}] base64 {' '.join(args)}: decode={d} ignore={i} nostrip={n} wrap={w}")
    def bad(cli, k):
        r = random.Random(c.seed * 777767 + k)
        pre = sum((opt(r)[1] for _ in range(r.choice((0, 0, 1, 2)))), [])
        post = sum((opt(r)[1] for _ in range(r.choice((0, 0, 1)))), [])
        f = cli.tmp(); open(f, "wb").write(b"Zm9v\n")
        kind = r.randrange(9)
        if kind == 0: x = ["-" + r.choice("abcefgjklmopqrstuvxyzABCDHINW0123456789?:")]; what = "unknown short option"
        elif kind == 1: x = ["--" + r.choice(("foo", "decoded", "wrapp", "Decode", "version", "ignore_garbage", "no-strip", "strip-newlines")) + r.choice(("", "=5"))]; what = "unknown long option"
        elif kind == 2: x = r.choice((["-w"], ["--wrap"], ["-dw"])); post = []; what = "missing width"
        elif kind in (3, 4, 5):
            b = r.choice(BADW)
            x = r.choice((["-w", b], ["--wrap", b], ["--wrap=" + b]) + (((["-w" + b]),) if b else ())); what = "bad width"
            if x == ["-w", "--"] : pass
        elif kind == 6: x = [f, f]; what = "more than one file"
        elif kind == 7: x = [os.path.join(c.work, r.choice(["no-such-file", "no/such/file"] + [os.fsdecode(b"no-" + o) for o in ODD]))]; what = "missing file"
        else: x = ["-di" + r.choice("zqx@%") + "n"]; what = "unknown among joined options"
        if kind == 1 and x[0].split("=")[0] == "--no-strip": x = ["--nostrip"]
        args = pre + x + post
        if r.random() < .3 and kind not in (2, 6, 7): args.append(f)
        elif kind == 6 and r.random() < .3: args = pre + [f, "-"] + post
        elif kind == 6 and r.random() < .3: args = pre + ["-", f, f]
        y = cli.expect(args, b"Zm9v\n", False, b"", "none" if kind == 7 else "file")
        os.unlink(f)
        c.stat("uses_with_bad_options")
        with c.lock: seen.add((cli.name, tuple(args[:len(pre) + 1]), what))
        if y and y[1]: cli.viol("bad-usage-output", f"{what}: writes {len(y[1])} bytes to standard output", args, b"", "file")
        if r.random() < .005: c.add_sample(f"[{cli.name}] base64 {' '.join(args)[:200]!r}: {what}, exits with {y and y[0]}")
    def helps(cli, k):
        r = random.Random(k)
        pre = sum((opt(r)[1] for _ in range(r.choice((0, 0, 1, 2)))), [])
        args = pre + r.choice((["-h"], ["--help"]))
        if pre and re.fullmatch(r"-[din]+", pre[-1]) and r.random() < .5: args = pre[:-1] + [pre[-1] + "h"]
        if r.random() < .3: args += sum((opt(r)[1] for _ in range(2)), [])
        rc, out, err, _ = cli.go(args, b"Zm9v\n")
        c.stat("uses_for_help"); c.count(1)
        if rc != 0: return cli.viol("help-status", f"exits with {rc}", args, b"", "file")
        for w in (b"Usage", b"-d", b"--decode", b"-h", b"--help", b"-i", b"--ignore-garbage", b"-n", b"--no-strip-newlines", b"-w", b"--wrap", b"76"):
            if w not in out: return cli.viol("help-text", f"the help text on standard output does not have '{w.decode()}'", args, b"", "file")
        if err: return cli.viol("help-stderr", "writes to standard error", args, b"", "file")
        with c.lock: seen.add((cli.name, "help", tuple(args)))
    tasks = []
    for name, cli in clis.items():
        m = 1 if name == "native" else 3 if not cli.prefix else 12
        t = 12 if c.thorough else 1
        tasks += run_cases(c, cli, [(k,) for k in range(1500 * t // m)], good)
        tasks += run_cases(c, cli, [(k,) for k in range(700 * t // m)], bad)
        tasks += run_cases(c, cli, [(k,) for k in range(60 * t // m)], helps)
    c.parallel(tasks)
    c.count(0, len(seen))
    return c.finish("random command lines made of options in all spellings, separate or joined, files before, between and after them, '-' and '--', with inputs that tell all settings apart; and command lines with one mistake; status, standard output and the "
                    "presence of a message compared with the model; non-trivial: distinct command lines", ["getopt_long works as documented; abbreviated long options, -w beyond the range of long, and white space or '+' before its number are not judged"], need=dict(uses_with_good_options=500, uses_with_odd_file_names=20, uses_with_bad_options=300))
