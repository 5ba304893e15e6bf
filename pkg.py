"""C22, the tables and their generators; C23, linking, installing, including;
C24, the documented ways to build, and the examples."""
import os, re
from vf import *

def c22(c):
    lib = os.path.join(REPO, "lib")
    TB = os.path.join(lib, "tables")
    def strict(e, what):
        if os.environ.get("VERIF_STRICT"): raise e
        c.note(f"{what} is left out: {str(e)[-300:]}")
    # 1. The tables in the library as it is built
    def inlib(n, root=None, tag=""):
        try: exe = c.driver(n, "tables.c", whole=True)
        except CheckError as e:
            if n == "native": raise
            return strict(e, f"build {n}")
        c.run(n, VARIANTS[n].get("run", []) + [exe, f"library, {n}"])
    names = ["native", "clang", "i686", "s390x", "aarch64", "armhf", "noasm", "gcc-O0", "uchar"]
    tasks = [lambda n=n: inlib(n) for n in names]
    # 2. The header files in the tree and what the generators write, little-
    # and big-endian
    def headers(dec, enc, what, flags=""):
        for le in (0, 1):
            exe = os.path.join(c.work, re.sub(r"\W", "_", what) + str(le))
            c.sh(["gcc", "-O1", "-w", "-std=gnu11", f'-DGEN_DEC="{dec}"', f'-DGEN_ENC="{enc}"', f"-DBASE64_LITTLE_ENDIAN={le}", os.path.join(SRC, "tables.c"), "-o", exe])
            c.run("gcc", [exe, what])
    def tree():
        if not (os.path.exists(f"{TB}/table_dec_32bit.h") and os.path.exists(f"{TB}/table_enc_12bit.h")): return strict(CheckError("no such files"), "the header files")
        headers(f"{TB}/table_dec_32bit.h", f"{TB}/table_enc_12bit.h", "header files in the tree")
    tasks.append(tree)
    def gen(name, cc, run=(), opts=()):
        try:
            d = os.path.join(c.work, "gen-" + name); os.makedirs(d)
            c.sh([cc] + list(opts) + ["-o", d + "/g", f"{TB}/table_generator.c"])
            e = dict(os.environ, UBSAN_OPTIONS="halt_on_error=1:exitcode=66", ASAN_OPTIONS="exitcode=66")
            p = subprocess.run(list(run) + [d + "/g"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=100)
            if p.returncode == 66 or b"runtime error" in p.stderr: return c.add_viol("generator-ub", f"table_generator.c built by {name}: {p.stderr[:300].decode('latin1')}", dict(cc=cc))
            if p.returncode: return c.add_viol("generator-status", f"table_generator.c built by {name} exits with {p.returncode}", dict(cc=cc))
            open(d + "/dec.h", "wb").write(p.stdout)
            q = subprocess.run(["python3", f"{TB}/table_enc_12bit.py"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
            if q.returncode: return c.add_viol("generator-status", f"table_enc_12bit.py exits with {q.returncode}", dict())
            open(d + "/enc.h", "wb").write(q.stdout)
        except CheckError as e: return strict(e, f"generator by {name}")
        c.stat("generator_runs", 2)
        try: headers(d + "/dec.h", d + "/enc.h", f"generators, {name}")
        except CheckError as e: c.add_viol("generator-output", f"the generated files do not compile: {str(e)[-300:]}", dict(cc=cc))
    for a in (("gcc", "gcc"), ("clang-san", "clang", (), ("-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")), ("i686", "i686-linux-gnu-gcc", (), ("-static",)), ("uchar", "gcc", (), ("-funsigned-char", "-O3")),
              ("s390x", "s390x-linux-gnu-gcc", ("qemu-s390x",), ("-static",)), ("aarch64", "aarch64-linux-gnu-gcc", ("qemu-aarch64",), ("-static",))):
        tasks.append(lambda a=a: gen(*a))
    # 3. The build with BASE64_REGENERATE_TABLES, and lib/tables/Makefile, in a copy
    def regen():
        d = os.path.join(c.work, "regen")
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "_build"))
        for f in ("table_dec_32bit.h", "table_enc_12bit.h"):
            open(f"{d}/lib/tables/{f}", "a").write("\n#error not regenerated\n")
            os.utime(f"{d}/lib/tables/{f}", (1, 1))
        try:
            c.sh(["cmake", "-S", d, "-B", d + "/_b", "-G", "Ninja", "-DBASE64_REGENERATE_TABLES=ON", "-DBASE64_BUILD_CLI=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"])
            c.sh(["ninja", "-C", d + "/_b", "base64"])
        except CheckError as e:
            if "not regenerated" in str(e): return c.add_viol("regenerate", "a build with BASE64_REGENERATE_TABLES=ON does not replace the tables", dict())
            return strict(e, "BASE64_REGENERATE_TABLES")
        headers(d + "/lib/tables/table_dec_32bit.h", d + "/lib/tables/table_enc_12bit.h", "regenerated by CMake")
        exe = c.driver("native", "tables.c", out="tables-regen", lib=f"{d}/_b/libbase64.a", whole=True)
        c.run("native", [exe, "library with regenerated tables"])
    def mk():
        d = os.path.join(c.work, "mktab")
        shutil.copytree(TB, d)
        try:
            c.sh(["make", "-C", d, "clean"]); c.sh(["make", "-C", d])
        except CheckError as e: return strict(e, "lib/tables/Makefile")
        headers(d + "/table_dec_32bit.h", d + "/table_enc_12bit.h", "lib/tables/Makefile")
    tasks += [regen, mk]
    c.parallel(tasks)
    # 4. And the library does use them: all groups of one word, by the plain codec
    t2 = []
    for n in ("native", "i686", "s390x"):
        for m in ("enc24", "dec24", "lang"):
            def go(n=n, m=m):
                try: exe = c.driver(n)
                except CheckError as e:
                    if n == "native": raise
                    return strict(e, n)
                c.drv(n, exe, m, 0, "PLAIN")
            t2.append(go)
    c.parallel(t2)
    return c.finish("every entry of the tables as they are in memory in the library's builds (little- and big-endian), in the header files of the tree under both settings, and in what the generators write when built and run in several ways (native, sanitized, 32-bit, "
                    "big-endian), compared with the alphabet; and calls of the plain codec that exercise them; non-trivial: table entries and distinct calls",
                    ["entries of invalid characters must have the bit that the decoder tests: the highest (little-endian), the lowest (big-endian)", "qemu-user is faithful"], need=dict(table_entries_compared=50000, generator_runs=6))

# ------------------------------------------------------------ C23
API = {"base64_encode", "base64_decode"} | {f"base64_stream_{d}code{x}" for d in ("en", "de") for x in ("", "_init")} | {"base64_stream_encode_final"}
def api_names(c):
    """The functions that the header declares: at least those that it always did"""
    s = c.sh(["gcc", "-E", "-P", "-I", os.path.join(REPO, "include"), "-include", "libbase64.h", "-x", "c", "/dev/null"]).stdout
    return API | set(re.findall(r"\b(base64_\w+)\s*\(", s))

def elf_symbols(c, f, dyn=False):
    """[(name, bind, type, defined)]"""
    p = c.sh(["readelf", "-W", "--dyn-syms" if dyn else "-s", f])
    out = []
    for l in p.stdout.split("\n"):
        w = l.split()
        if len(w) >= 8 and re.fullmatch(r"\d+:", w[0]): out.append((w[7].split("@")[0], w[4], w[3], w[6] != "UND", w[5]))
    return out

DECOY_SKIP = {"main", "_start", "_init", "_fini", "__bss_start", "_edata", "_end", "__data_start", "data_start"}
def make_decoys(c, d, files, api):
    """A C file that defines everything that the library defines, but the API, its own way."""
    fn, ob = set(), set()
    for f in files:
        for n, b, t, defd, vis in elf_symbols(c, f):
            if not defd or n in api or n in DECOY_SKIP or not re.fullmatch(r"[A-Za-z_]\w*", n) or n.startswith("__odr") or n.startswith("__asan"): continue
            if t == "FUNC": fn.add(n)
            elif t == "OBJECT": ob.add(n)
    # Names that such a library might use, and a program might too
    common = {"encode", "decode", "codec", "codecs", "table", "encode_table", "decode_table", "cpuid", "xgetbv", "get_flags", "state", "enc_loop", "dec_loop", "enc_head", "enc_tail", "dec_head", "dec_tail", "base64", "b64_encode", "b64_decode",
              "codec_choose", "codec_choose_x86", "codec_choose_arm", "base64_init", "base64_codec", "base64_state", "base64_stream_decode_plain", "base64_stream_encode_plain"}
    fn |= common - ob
    fn -= {"base64_state"}
    s = "#include <stdio.h>\n#include <string.h>\nstatic int hits;\n"
    s += "static void hit (const char *n) { if (hits++ < 5) printf(\"VIOL\\tdecoy-called\\tthe library calls the program's function %s\\n\", n); }\n"
    for n in sorted(fn): s += f"void *{n} (void) {{ hit(\"{n}\"); return 0; }}\n"
    for n in sorted(ob - fn): s += f"unsigned char {n}[32768] __attribute__((aligned(64))) = {{ [0 ... 32767] = 0x5A }};\n"
    s += "int decoys_ok (void) {\n\tunsigned i;\n"
    for n in sorted(ob - fn): s += f"\tfor (i = 0; i < 32768; i++) if ({n}[i] != 0x5A) {{ printf(\"VIOL\\tdecoy-changed\\tthe library changes the program's variable {n}\\n\"); hits++; break; }}\n"
    s += f"\t(void) i;\n\tprintf(\"STAT\\tdecoy_functions\\t{len(fn)}\\nSTAT\\tdecoy_variables\\t{len(ob - fn)}\\n\");\n\treturn hits == 0;\n}}\n"
    p = os.path.join(d, "decoys.c")
    open(p, "w").write(s)
    return p

def c23(c):
    from checks import makefile_tree, MAKE_FLAGS
    api = api_names(c)
    inc = os.path.join(REPO, "include")
    CONS = os.path.join(SRC, "consumer.c")
    def strict(e, what):
        if os.environ.get("VERIF_STRICT"): raise e
        c.note(f"{what} is left out: {str(e)[-300:]}")
    def exported(what, syms):
        got = {n for n, b, t, d, v in syms if d and b in ("GLOBAL", "WEAK", "UNIQUE", "LOOS+0") and v in ("DEFAULT", "PROTECTED")} - {"_init", "_fini", "_edata", "_end", "__bss_start", "_start"}
        c.count(len(got), len(got)); c.stat("symbol_tables_inspected"); c.stat("exported_symbols", len(got))
        if got != api:
            extra, missing = sorted(got - api), sorted(api - got)
            c.add_viol("exports", f"{what}: {'exports ' + ', '.join(extra[:6]) if extra else ''}{' and ' if extra and missing else ''}{'does not export ' + ', '.join(missing[:6]) if missing else ''}", dict(what=what, extra=extra, missing=missing))
    # 1. Shared libraries
    def shared(n):
        v = VARIANTS[n]
        try: b = c.variant(n, extra="-DBUILD_SHARED_LIBS=ON", tag="-shared")
        except CheckError as e:
            if n == "native": raise
            return strict(e, f"shared library {n}")
        so = next(os.path.realpath(os.path.join(dp, f)) for dp, _, fs in os.walk(b) for f in fs if f == "libbase64.so")
        exported(f"shared library ({n})", elf_symbols(c, so, True))
        if v.get("proc"): return
        st = c.variant(n)
        d = os.path.dirname(so)
        objs = [os.path.join(dp, f) for dp, _, fs in os.walk(b) for f in fs if f.endswith(".o")]
        dec = make_decoys(c, b, objs, api)
        cc = v["cc"]
        exe = os.path.join(b, "consumer")
        c.sh([cc, "-w", "-O1", "-DDECOYS", "-rdynamic", "-I", inc, CONS, dec, "-o", exe, f"-L{d}", "-lbase64", f"-Wl,-rpath,{d}"])
        c.run(n, [exe], who=f"shared {n} with decoys in the program")
        # The same names in a library that is loaded before
        c.sh([cc, "-w", "-O1", "-shared", "-fPIC", dec, "-o", os.path.join(b, "libdecoys.so")])
        exe2 = os.path.join(b, "consumer2")
        c.sh([cc, "-w", "-O1", "-I", inc, CONS, "-o", exe2, f"-L{d}", "-lbase64", f"-Wl,-rpath,{d}"])
        c.run(n, [exe2], env=dict(LD_PRELOAD=os.path.join(b, "libdecoys.so")), who=f"shared {n} with decoys preloaded")
        c.run(n, [exe2], env=dict(LD_BIND_NOW="1"), who=f"shared {n}")
    tasks = [lambda n=n: shared(n) for n in ("native", "clang", "gcc-O0", "openmp", "noasm", "aarch64", "i686")]
    # static flag is for executables only: fine for shared libraries of cross builds
    # 2. The Makefile's object
    def mk(tag, cc, flags, run, static, extra=()):
        try: o = makefile_tree(c, "c23-" + tag, cc, flags)
        except CheckError as e:
            if tag == "gcc": raise
            return strict(e, f"Makefile build {tag}")
        exported(f"Makefile object ({tag})", elf_symbols(c, o))
        root = os.path.dirname(os.path.dirname(o))
        objs = [os.path.join(dp, f) for dp, _, fs in os.walk(os.path.join(root, "lib")) for f in fs if f.endswith(".o") and os.path.join(dp, f) != o]
        dec = make_decoys(c, root, objs, api)
        exe = os.path.join(root, "consumer")
        c.sh([cc, "-w", "-O1", "-DDECOYS", "-DBASE64_STATIC_DEFINE", "-I", inc, CONS, dec, o, "-o", exe] + (["-static"] if static else []) + list(extra))
        c.run(tag, list(run) + [exe], who=f"Makefile object {tag} with decoys", env=dict(OMP_NUM_THREADS="4"))
        if not static and tag in ("gcc", "clang"):
            # The object in two shared libraries and the program at once
            c.sh([cc, "-w", "-O1", "-c", "-DDECOYS", "-I", inc, CONS, "-o", os.path.join(root, "cons.o")])
        # The Makefile's own program
        c.stat("makefile_objects")
    for a in (("gcc", "gcc", MAKE_FLAGS, (), False), ("clang", "clang", MAKE_FLAGS, (), False), ("gcc-plain", "gcc", "", (), False), ("gcc-avx2", "gcc", "AVX2_CFLAGS=-mavx2", (), False),
              ("gcc-openmp", "gcc", MAKE_FLAGS + " OPENMP=1", (), False, ("-fopenmp",)), ("i686", "i686-linux-gnu-gcc", MAKE_FLAGS, (), True), ("aarch64", "aarch64-linux-gnu-gcc", "NEON64_CFLAGS=-march=armv8-a", ("qemu-aarch64",), True),
              ("armhf", "arm-linux-gnueabihf-gcc", "NEON32_CFLAGS=-mfpu=neon CFLAGS=-mfpu=neon", ("qemu-arm",), True), ("s390x", "s390x-linux-gnu-gcc", "", ("qemu-s390x",), True)):
        tasks.append(lambda a=a: mk(*a))
    # 3. The header, in all dialects, shared and static
    def header(cc, std, mode):
        t = os.path.join(c.work, f"h-{cc}-{std}-{mode}".replace("+", "x"))
        src = t + (".cc" if "++" in cc else ".c")
        open(src, "w").write('#include <libbase64.h>\n#include <libbase64.h>\nint use (struct base64_state *s);\nint use (struct base64_state *s) { char o[64]; size_t n; base64_stream_encode_init(s, BASE64_FORCE_PLAIN);\n'
                             'base64_stream_encode(s, "abc", 3, o, &n); base64_stream_encode_final(s, o, &n); base64_encode("abc", 3, o, &n, 0); base64_stream_decode_init(s, 0);\n'
                             'return base64_stream_decode(s, "YWJj", 4, o, &n) + base64_decode("YWJj", 4, o, &n, 0); }\n')
        cmd = [cc, f"-std={std}", "-pedantic-errors", "-I", inc, "-c", src, "-o", t + ".o"] + (["-DBASE64_STATIC_DEFINE"] if mode == "static" else [])
        p = c.sh(cmd, ok=False)
        c.count(1, 1); c.stat("header_compilations")
        if p.returncode: return c.add_viol("header", f"the header does not compile with {' '.join(cmd[:6])} ({mode}): {p.stdout[:300]}", dict(cmd=cmd))
        und = {n for n, b, ty, d, v in elf_symbols(c, t + ".o") if not d and n}
        if not api <= und: c.add_viol("header-linkage", f"{cc} -std={std} ({mode}): a caller refers to {sorted(x for x in und if 'base64' in x)[:4]}, not to {sorted(api - und)[:4]}", dict(cmd=cmd))
    def headers():
        for cc in ("gcc", "clang"):
            for std in ("c99", "gnu99", "c11", "c17", "gnu17", "c2x"):
                for m in ("static", "shared"): header(cc, std, m)
        for cc in ("g++", "clang++"):
            for std in ("c++98", "c++11", "c++14", "c++17", "c++20", "gnu++20", "c++23"):
                for m in ("static", "shared"): header(cc, std, m)
        b = c.variant("native")
        for cc in ("g++", "clang++"):
            for d in ([], ["-DBASE64_STATIC_DEFINE"]):
                exe = os.path.join(c.work, "cxx-" + cc.replace("+", "x") + str(len(d)))
                c.sh([cc, "-w", "-x", "c++", "-I", inc] + d + [CONS, "-x", "none", os.path.join(b, "libbase64.a"), "-o", exe])
                c.run("native", [exe], who=f"{cc} program")
    tasks.append(headers)
    # 4. Installed packages, from the place where they are after being moved
    def package(tag, opts, langs, subdir=False):
        d = os.path.join(c.work, "pkg-" + tag); os.makedirs(d)
        if not subdir:
            try:
                c.sh(["cmake", "-S", REPO, "-B", d + "/b", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DBASE64_WERROR=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", f"-DCMAKE_INSTALL_PREFIX={d}/first"] + opts)
                c.sh(["ninja", "-C", d + "/b"]); c.sh(["cmake", "--install", d + "/b"])
            except CheckError as e:
                if tag == "static": raise
                return strict(e, f"package {tag}")
            os.rename(d + "/first", d + "/moved")
            shutil.rmtree(d + "/b")
        for lang in langs:
            p = f"{d}/c-{lang.replace(' ', '')}"; os.makedirs(p)
            src = "m.cc" if lang == "CXX" else "m.c"
            shutil.copy(CONS, f"{p}/{src}")
            how = f"add_subdirectory({REPO} b64)\nadd_executable(consumer {src})\ntarget_link_libraries(consumer PRIVATE base64)" if subdir else \
                  f"find_package(base64 0.5 REQUIRED)\nadd_executable(consumer {src})\ntarget_link_libraries(consumer PRIVATE aklomp::base64)"
            open(f"{p}/CMakeLists.txt", "w").write(f"cmake_minimum_required(VERSION 3.10)\nproject(consumer {lang})\n{how}\n")
            q = c.sh(["cmake", "-S", p, "-B", p + "/b", "-G", "Ninja", f"-DCMAKE_PREFIX_PATH={d}/moved", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"] + (opts if subdir else []), ok=False)
            r = None if q.returncode else c.sh(["ninja", "-C", p + "/b", "consumer"], ok=False)
            c.count(1, 1); c.stat("package_consumers_built")
            if q.returncode or r.returncode:
                c.add_viol("package", f"{tag}: a {lang} project cannot use {'the source directory' if subdir else 'the installed package'}: {(r or q).stdout[-300:]}".replace("\n", " "), dict(opts=opts, lang=lang)); continue
            exe = p + "/b/consumer"
            c.run("package", [exe], who=f"{tag} {lang} consumer", env=dict(OMP_NUM_THREADS="3"))
        if not subdir and "shared" not in tag:
            q = subprocess.run([d + "/moved/bin/base64"], input=b"foobar", stdout=subprocess.PIPE)
            if q.stdout != b"Zm9vYmFy\n": c.add_viol("package-cli", f"{tag}: the installed utility does not work", dict(opts=opts))
    for a in (("static", [], ["C", "CXX", "C CXX"]), ("shared", ["-DBUILD_SHARED_LIBS=ON"], ["C", "CXX"]), ("static-openmp", ["-DBASE64_WITH_OpenMP=ON"], ["C", "C CXX", "CXX"]), ("shared-openmp", ["-DBASE64_WITH_OpenMP=ON", "-DBUILD_SHARED_LIBS=ON"], ["C", "CXX"]),
              ("nosimd", [f"-DBASE64_WITH_{x}=OFF" for x in ALL[1:]], ["C"]), ("subdir", [], ["C", "C CXX"], True), ("subdir-shared", ["-DBUILD_SHARED_LIBS=ON"], ["C"], True)):
        tasks.append(lambda a=a: package(*a))
    c.parallel(tasks)
    return c.finish("symbol tables of shared libraries and Makefile objects in several builds; programs that define every name that the library defines, and others, as functions that report being called and variables that are watched, linked with it (and preloaded); "
                    "the header in all C and C++ dialects of both compilers; programs built against installed and moved packages, static, shared, with OpenMP, and against the source directory; their results compared; non-trivial: symbols, compilations and calls",
                    ["'documented names' are the functions declared in include/libbase64.h"], need=dict(symbol_tables_inspected=5, header_compilations=40, package_consumers_built=8, decoy_functions=50))

# ------------------------------------------------------------ C24
def c24(c):
    inc = os.path.join(REPO, "include")
    X = ["SSSE3", "SSE41", "SSE42", "AVX", "AVX2", "AVX512"]
    FL = dict(SSSE3="-mssse3", SSE41="-msse4.1", SSE42="-msse4.2", AVX="-mavx", AVX2="-mavx2", AVX512="-mavx512vl -mavx512vbmi")
    def strict(e, what):
        if os.environ.get("VERIF_STRICT"): raise e
        c.note(f"{what} is left out: {str(e)[-300:]}")
    def probe(what, cc, lib, have, omp, run=(), static=False, libs=()):
        """Does what was built have what was asked for?"""
        exe = os.path.join(c.work, "probe-" + re.sub(r"\W+", "_", what))
        c.sh([cc, "-w", "-O1", "-std=gnu11", "-DBASE64_STATIC_DEFINE", "-I", inc, os.path.join(SRC, "probe.c")] + list(lib) + ["-o", exe] + (["-static"] if static else []) + (["-fopenmp"] if omp else []) + list(libs))
        out, err, rc = c.run(what, list(run) + [exe], who=what, env=dict(OMP_NUM_THREADS="4", OMP_DYNAMIC="false", OMP_THREAD_LIMIT="64"))
        got = {l.split("\t")[1] for l in out.split("\n") if l.startswith("HAS")}
        if "END\t" not in out: return
        want = set(have) | {"PLAIN", "default"}
        if got != want: c.add_viol("codecs", f"{what}: the library includes {sorted(got)}, asked for was {sorted(want)}", dict(what=what))
        n = int(re.search(r"THREADS\t(\d+)", out).group(1))
        if not run:         # (qemu has threads of its own)
            if omp and n < 2: c.add_viol("openmp", f"{what}: asked for OpenMP, but long calls use no threads", dict(what=what))
            if not omp and n > 1: c.add_viol("openmp", f"{what}: did not ask for OpenMP, but threads are used", dict(what=what))
        c.stat("libraries_probed")
        c.add_sample(f"{what}: includes {' '.join(sorted(got))}; {n} threads")
    def make(what, env, have, cc="gcc", targets=("lib/libbase64.o",), omp=False, run=(), static=False, first=None, must=False):
        d = os.path.join(c.work, "mk-" + re.sub(r"\W+", "_", what))
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "_build", "*.o", "config.h"))
        e = {k: v for k, v in os.environ.items() if not k.endswith("CFLAGS") and k not in ("CC", "LDFLAGS", "OPENMP", "MAKEFLAGS")}
        ar = cc.replace("-gcc", "-") if "linux-gnu" in cc else ""
        def go(env, targets):
            p = subprocess.run(["make", "-C", d, "-j3", f"LD={ar}ld", f"OBJCOPY={ar}objcopy"] + list(targets), env=dict(e, CC=cc, LC_ALL="C.UTF-8", **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if p.returncode: raise CheckError(f"{what}: make fails: {p.stdout[-800:].decode('utf-8', 'replace')}")
        try:
            if first is not None: go(first, targets); go(first, ["clean"])
            go(env, targets)
        except CheckError as x:
            if must: raise
            return strict(x, what)
        probe(what, cc, [d + "/lib/libbase64.o"], have, omp, run, static)
        if "lib/libbase64.o" not in targets:
            q = subprocess.run(list(run) + [d + "/bin/base64"], input=b"foobar!", stdout=subprocess.PIPE, timeout=100)
            c.count(1, 1)
            if q.returncode or q.stdout != b"Zm9vYmFyIQ==\n": c.add_viol("cli", f"{what}: bin/base64 does not work", dict(what=what))
    def cmake(what, opts, have, cc="gcc", omp=False, run=(), static=False, proc=None, shared=False, must=False):
        d = os.path.join(c.work, "cm-" + re.sub(r"\W+", "_", what))
        try:
            c.sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", f"-DCMAKE_C_COMPILER={cc}", "-DCMAKE_BUILD_TYPE=Release", "-DBASE64_WERROR=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"] + list(opts)
                 + (["-DCMAKE_SYSTEM_NAME=Linux", f"-DCMAKE_SYSTEM_PROCESSOR={proc}", "-DCMAKE_EXE_LINKER_FLAGS=-static"] if proc else []))
            c.sh(["ninja", "-C", d, "-j3"])
        except CheckError as x:
            if must: raise
            return strict(x, what)
        f = next((os.path.join(dp, x) for dp, _, fs in os.walk(d) for x in fs if x == ("libbase64.so" if shared else "libbase64.a")), None)
        if not f: return c.add_viol("kind", f"{what}: no {'shared' if shared else 'static'} library is built", dict(what=what))
        probe(what, cc, [f"-L{os.path.dirname(f)}", "-lbase64", f"-Wl,-rpath,{os.path.dirname(f)}"] if shared else [f], have, omp, run, static)
        if "-DBASE64_BUILD_CLI=OFF" in opts: return
        b = next((os.path.join(dp, x) for dp, _, fs in os.walk(d) for x in fs if x == "base64"), None)
        q = b and subprocess.run(list(run) + [b], input=b"foobar!", stdout=subprocess.PIPE, timeout=100)
        c.count(1, 1)
        if not b or q.returncode or q.stdout != b"Zm9vYmFyIQ==\n": c.add_viol("cli", f"{what}: the utility is not built or does not work", dict(what=what))
    T = []
    def M(*a, **k): T.append(lambda: make(*a, **k))
    def C(*a, **k): T.append(lambda: cmake(*a, **k))
    # The Makefile: README's examples, each variable alone, others
    flags = lambda have: {h + "_CFLAGS": FL[h] for h in have}
    M("make lib/libbase64.o", {}, [], must=True)
    M("make, all codecs", flags(X), X, targets=())
    M("make, README's typical invocation", flags([x for x in X if x != "AVX512"]), [x for x in X if x != "AVX512"])
    for x in X: M(f"make with {x}_CFLAGS", flags([x]), [x], targets=() if x in ("AVX2", "SSSE3") else ("lib/libbase64.o",))
    M("make, clang", flags(X), X, cc="clang", targets=())
    M("make OPENMP=1", dict(OPENMP="1"), [], omp=True, targets=())
    M("make OPENMP=1 with SSSE3 and AVX2, after make clean", dict(flags(["SSSE3", "AVX2"]), OPENMP="1"), ["SSSE3", "AVX2"], omp=True, first=flags(["SSE41", "AVX512"]), targets=())
    M("make, CFLAGS=-O0", dict(flags(["AVX"]), CFLAGS="-O0"), ["AVX"])
    M("make, i686", flags(X), X, cc="i686-linux-gnu-gcc", static=True)
    A = dict(cc="arm-linux-gnueabihf-gcc", run=("qemu-arm",), static=True)
    M("make, ARM option 1", dict(CFLAGS="-march=armv7-a+fp"), [], **A)
    M("make, ARM option 2", dict(CFLAGS="-march=armv7-a+fp", NEON32_CFLAGS="-march=armv7-a -mfpu=neon"), ["NEON32"], **A)
    M("make, ARM option 3", dict(CFLAGS="-march=armv7-a -mfpu=neon", NEON32_CFLAGS="-mfpu=neon"), ["NEON32"], **A)
    M("make, AArch64 with a stub", dict(NEON64_CFLAGS=" "), ["NEON64"], cc="aarch64-linux-gnu-gcc", run=("qemu-aarch64",), static=True)
    M("make, AArch64 without NEON64", {}, [], cc="aarch64-linux-gnu-gcc", run=("qemu-aarch64",), static=True)
    M("make, s390x", {}, [], cc="s390x-linux-gnu-gcc", run=("qemu-s390x",), static=True)
    # CMake
    on = lambda have: [f"-DBASE64_WITH_{x}={'ON' if x in have else 'OFF'}" for x in X]
    C("cmake, defaults", [], X, must=True)
    C("cmake, no codecs", on([]), [])
    for x in X: C(f"cmake, only {x}", on([x]) + ["-DBASE64_BUILD_CLI=OFF"], [x])
    for x in X: C(f"cmake without {x}", [f"-DBASE64_WITH_{x}=OFF", "-DBASE64_BUILD_CLI=OFF"], [y for y in X if y != x])
    C("cmake, shared", ["-DBUILD_SHARED_LIBS=ON"], X, shared=True)
    C("cmake, shared, clang, some", ["-DBUILD_SHARED_LIBS=ON"] + on(["SSSE3", "AVX2"]), ["SSSE3", "AVX2"], shared=True, cc="clang")
    C("cmake, OpenMP", ["-DBASE64_WITH_OpenMP=ON"], X, omp=True)
    C("cmake, OpenMP off", ["-DBASE64_WITH_OpenMP=OFF", "-DCMAKE_C_FLAGS=-O1"], X)
    C("cmake, shared, OpenMP", ["-DBASE64_WITH_OpenMP=ON", "-DBUILD_SHARED_LIBS=ON"], X, omp=True, shared=True)
    C("cmake, NEON for x86 is ignored", ["-DBASE64_WITH_NEON32=ON", "-DBASE64_WITH_NEON64=ON"], X)
    C("cmake, Debug with tests", ["-DCMAKE_BUILD_TYPE=Debug", "-DBASE64_BUILD_TESTS=ON"], X)
    C("cmake, i686", [], X, cc="i686-linux-gnu-gcc", proc="i686", static=True)
    C("cmake, AArch64", [], ["NEON64"], cc="aarch64-linux-gnu-gcc", proc="aarch64", run=("qemu-aarch64",), static=True)
    C("cmake, AArch64 without NEON64", ["-DBASE64_WITH_NEON64=OFF"], [], cc="aarch64-linux-gnu-gcc", proc="aarch64", run=("qemu-aarch64",), static=True)
    C("cmake, ARM", [], [], proc="armv7l", **A)
    C("cmake, ARM with NEON32", ["-DBASE64_WITH_NEON32=ON"], ["NEON32"], proc="armv7l", **A)
    C("cmake, s390x", [], [], cc="s390x-linux-gnu-gcc", proc="s390x", run=("qemu-s390x",), static=True)
    # Other subsets: some, or (thorough) all by make and half by CMake
    import random
    R = random.Random(c.seed * 7 + 1)
    subs = [[x for k, x in enumerate(X) if n >> k & 1] for n in range(64)]
    for h in (subs if c.thorough else R.sample(subs, 5)): 
        omp = R.random() < .3
        M("make, codecs " + "+".join(h) + " OpenMP" * omp, dict(flags(h), **({"OPENMP": "1"} if omp else {})), h, omp=omp, **R.choice((dict(cc="gcc"), dict(cc="clang" if not omp else "gcc"), dict(cc="i686-linux-gnu-gcc", static=True) if not omp else {})))
    for h in (R.sample(subs, 32) if c.thorough else R.sample(subs, 3)): C("cmake, codecs " + "+".join(h), on(h) + ["-DBASE64_BUILD_CLI=OFF"] + R.choice(([], ["-DCMAKE_BUILD_TYPE=MinSizeRel"], ["-DCMAKE_BUILD_TYPE=Debug"])), h, cc=R.choice(("gcc", "clang")))
    # The examples in the documentation
    def examples():
        b = os.path.join(c.variant("native"), "libbase64.a")
        text = open(os.path.join(REPO, "README.md"), encoding="utf-8").read()
        progs = [x for x in re.findall(r"```c\n(.*?)```", text, re.S) if "main" in x]
        import base64, random
        R = random.Random(c.seed)
        for k, t in enumerate(progs):
            s = os.path.join(c.work, f"example{k}.c"); open(s, "w").write(t)
            exes = []
            for cc, o in (("gcc", ["-std=c99", "-O2"]), ("gcc", ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-O1"]), ("clang", ["-O2"])):
                exe = os.path.join(c.work, f"example{k}-{len(exes)}")
                p = c.sh([cc, "-w"] + o + ["-DBASE64_STATIC_DEFINE", "-I", inc, s, b, "-o", exe], ok=False)
                if p.returncode: c.add_viol("example", f"example {k + 1} of README.md does not compile: {p.stdout[:300]}", dict()); continue
                exes.append(exe)
            m = re.search(r'char src\[\] = "([^"\\]*)"', t)
            ins = [b""] if m else [b"", b"f", b"fo", b"foo"] + [R.randbytes(n) for n in (11999, 12000, 12001, 24000, 100000, R.randint(1, 200000))]
            for exe in exes:
                for d in ins:
                    want = base64.b64encode(m.group(1).encode() if m else d)
                    p = subprocess.run([exe], input=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
                    c.count(1, 1); c.stat("example_runs")
                    if p.returncode or p.stdout != want: c.add_viol("example", f"example {k + 1} of README.md, given {len(d)} bytes, exits with {p.returncode} and {len(p.stdout)} bytes of output, not the {len(want)} of the base64 text {p.stderr[:200]!r}", dict())
    T.append(examples)
    c.parallel(T)
    return c.finish("libraries built by make and CMake in the ways and with the switches that the documentation names (each codec alone, none, all, without each; OpenMP; shared; compilers; architectures), each probed by a program: which codecs can be forced, whether each works, "
                    "whether threads are used; the utility that comes with it; the examples of README.md, compiled and run; non-trivial: calls",
                    ["the makefile's variables start from a clean tree, as stale objects are not tracked"], need=dict(libraries_probed=20, example_runs=10))
