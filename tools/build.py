"""Builds the simulator for one target architecture from /repo's working tree.

Per library variant (word type x s-box x allocator path x compiler) the sources
named in /repo/src/Makefile.am are compiled, outside /repo, into
  p  plain: the shipped optimisation flags, environment calls redirected
  i  instrumented: -fsanitize=thread instrumentation, our own __tsan_* runtime
  t  twin: the plain object again, with its own copy of every static datum;
     the undisturbed reference the oracles compare with
and linked with the simulator into one static executable.
"""
import collections, concurrent.futures, fcntl, json, hashlib, os, re, shutil, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

API = ["dvbcsa_key_alloc", "dvbcsa_key_free", "dvbcsa_key_set", "dvbcsa_decrypt",
       "dvbcsa_encrypt", "dvbcsa_bs_key_alloc", "dvbcsa_bs_key_free",
       "dvbcsa_bs_key_set", "dvbcsa_bs_batch_size", "dvbcsa_bs_decrypt",
       "dvbcsa_bs_encrypt"]

# calls of the library that the simulator answers, in every flavour
SIM_CALLS = """malloc calloc realloc free posix_memalign aligned_alloc memalign valloc
 mmap munmap mmap64
 pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock
 pthread_mutex_timedlock pthread_mutex_unlock
 pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock
 pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock
 pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock
 pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait
 pthread_cond_signal pthread_cond_broadcast pthread_once
 sem_init sem_destroy sem_wait sem_trywait sem_post
 mtx_init mtx_destroy mtx_lock mtx_trylock mtx_unlock call_once
 sched_yield pthread_yield thrd_yield usleep sleep nanosleep clock_nanosleep
 time clock clock_gettime gettimeofday times getpid gettid pthread_self
 rand srand random srandom rand_r lrand48 drand48 srand48 mrand48 seed48 lcong48 initstate setstate
 arc4random arc4random_buf arc4random_uniform getentropy strdup strndup reallocarray pvalloc
 getrandom getenv secure_getenv
 fopen fopen64 open open64 openat openat64 __open_2 access euidaccess faccessat stat stat64 lstat
 sysconf get_nprocs get_nprocs_conf getuid geteuid isatty
 getrlimit gethostname uname getcwd program_invocation_name program_invocation_short_name __progname __progname_full
 read write poll select flock flockfile sem_timedwait pthread_setspecific
 getcpu sched_getcpu getppid vp_rdtsc vp_rdtscp vp_rdrand16 vp_rdrand32 vp_rdrand64
 __cpu_model __cpu_features2 __cpu_indicator_init getauxval pthread_atfork __register_atfork pthread_create pthread_join pthread_detach exit _exit _Exit quick_exit
 syscall fork vfork system popen posix_spawn posix_spawnp
 sched_getaffinity pthread_getaffinity_np getpriority sched_getscheduler getloadavg sysinfo getrusage gethostid malloc_usable_size
 mallopt malloc_trim mlock munlock mlockall munlockall
 timer_create timer_settime timer_delete timerfd_create
 atexit __cxa_atexit on_exit at_quick_exit""".split()
MEM_CALLS = ["memcpy", "memmove", "memset", "memcmp", "explicit_bzero", "bzero", "mempcpy"]   # instrumented flavour only
# externals that need no simulator answer
BENIGN = set("""__assert_fail abort __stack_chk_fail _GLOBAL_OFFSET_TABLE_ __errno_location
 __tls_get_addr memcpy memmove memset memcmp __memcpy_chk __memmove_chk __memset_chk __sigsetjmp""".split()) | {".TOC."}

ARCHES = {
    "x86": dict(cc="gcc", pre="", defs=["-DDVBCSA_ENDIAN_LITTLE=1", "-DSIZEOF_LONG=8"], run=[], cflags=[]),
    "a64": dict(cc="aarch64-linux-gnu-gcc", pre="aarch64-linux-gnu-",
                defs=["-DDVBCSA_ENDIAN_LITTLE=1", "-DSIZEOF_LONG=8"], run=["qemu-aarch64"], cflags=[]),
    "p64": dict(cc="powerpc64-linux-gnu-gcc", pre="powerpc64-linux-gnu-",
                defs=["-DDVBCSA_ENDIAN_BIG=1", "-DSIZEOF_LONG=8"], run=["qemu-ppc64"], cflags=[]),
    "p32": dict(cc="powerpc-linux-gnu-gcc", pre="powerpc-linux-gnu-",
                defs=["-DDVBCSA_ENDIAN_BIG=1", "-DSIZEOF_LONG=4"], run=["qemu-ppc"], cflags=[]),
}


def V(name, word, alt=0, flags=(), defs=("HAVE_MM_MALLOC", "HAVE_POSIX_MEMALIGN"), cc=None, extra=None):
    return dict(name=name, word=word, alt=alt, flags=list(flags), defs=list(defs), cc=cc, extra=extra or {})


PM = ("HAVE_POSIX_MEMALIGN",)
VARIANTS = {
    "x86": [
        V("u64", "UINT64"), V("u64a", "UINT64", 1), V("u32", "UINT32"), V("u32a", "UINT32", 1),
        V("mmx", "MMX", 0, ["-mmmx"]), V("mmxa", "MMX", 1, ["-mmmx"]),
        V("sse2", "SSE", 0, ["-msse", "-msse2"]), V("sse2a", "SSE", 1, ["-msse", "-msse2"]),
        V("ssse3", "SSSE3", 0, ["-mssse3"]), V("ssse3a", "SSSE3", 1, ["-mssse3"]),
        V("avx2", "AVX2", 0, ["-mavx2"]), V("avx2a", "AVX2", 1, ["-mavx2"]),
        V("cmmx", "MMX", 0, ["-mmmx"], cc="clang"), V("cu64", "UINT64", 0, cc="clang"),
        V("cavx2", "AVX2", 0, ["-mavx2"], cc="clang"), V("csse2", "SSE", 0, ["-msse", "-msse2"], cc="clang"),
        V("sse2pm", "SSE", 0, ["-msse", "-msse2"], PM), V("avx2pm", "AVX2", 0, ["-mavx2"], PM),
        V("u64pm", "UINT64", 0, [], PM), V("u64m", "UINT64", 0, [], ()),
        V("u64r", "UINT64", 0, [], extra={"dvbcsa_bs_transpose_stream.c": ["-D__i386__=1"]}),
    ],
    "a64": [V("neon", "NEON", 0, [], PM), V("neona", "NEON", 1, [], PM), V("au64", "UINT64", 0, [], PM),
            V("au32", "UINT32", 0, [], PM)],
    "p64": [V("pu64", "UINT64"), V("pu64a", "UINT64", 1), V("pu32", "UINT32"), V("pu32a", "UINT32", 1)],
    "p32": [V("qu32", "UINT32", 0, [], PM), V("qu64", "UINT64", 0, [], PM)],
}

HAVE = """STDC_HEADERS HAVE_ASSERT_H HAVE_DLFCN_H HAVE_INTTYPES_H HAVE_MALLOC_H HAVE_MEMORY_H HAVE_STDINT_H
 HAVE_STDIO_H HAVE_STDLIB_H HAVE_STRINGS_H HAVE_STRING_H HAVE_SYS_STAT_H HAVE_SYS_TYPES_H HAVE_UNISTD_H
 HAVE_GETTIMEOFDAY""".split()
SHIPPED = ["-Wall", "-D_XOPEN_SOURCE=600", "-O3", "-funroll-loops", "-fomit-frame-pointer", "-fno-tree-vectorize"]
INSTR = ["-D_XOPEN_SOURCE=600", "-U_FORTIFY_SOURCE", "-O2", "-fno-tree-vectorize", "-fsanitize=thread"]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def sources(word):
    """The library's sources, as /repo/src/Makefile.am lists them."""
    am = open(os.path.join(REPO, "src/Makefile.am")).read().replace("\\\n", " ")
    out, cond = [], []
    for line in am.split("\n"):
        m = re.match(r"if\s+(!?)(\w+)", line)
        if m:
            val = (m[2] == "TRANSPOSE_32") == (word == "UINT32") if m[2] == "TRANSPOSE_32" else True
            cond.append(val != bool(m[1]) if m[1] else val)
        elif re.match(r"else\b", line):
            cond[-1] = not cond[-1]
        elif re.match(r"endif\b", line):
            cond.pop()
        elif all(cond):
            m = re.match(r"libdvbcsa_la_SOURCES\s*\+?=\s*(.*)", line)
            if m:
                out += [f for f in m[1].split() if f.endswith(".c")]
    return out


def tree_hash(d, exts=None):
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(d)):
        dirs.sort()
        for f in sorted(files):
            if exts is None or f.endswith(exts):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def literals():
    """The numbers and texts the library's sources mention, and how often."""
    n, t = collections.Counter(), collections.Counter()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if not f.endswith((".c", ".h", ".inc")):
                continue
            x = open(os.path.join(root, f), errors="replace").read()
            x = re.sub(r"/\*.*?\*/|//[^\n]*", " ", x, flags=re.S)
            x = re.sub(r"^[ \t]*#[ \t]*(include|error|warning|pragma)\b[^\n]*", " ", x, flags=re.M)
            for q in re.findall(r'"((?:\\.|[^"\\\n])*)"', x):
                if q and re.fullmatch(r"[ -~]{1,40}", q) and "\\" not in q:
                    t[q] += 1
                w = re.findall(r"\\x([0-9a-fA-F]{1,2})|\\([0-7]{1,3})|(\\?.)", q)
                if 3 <= len(w) <= 16 and any(a or o for a, o, c in w):
                    w = [int(a, 16) if a else int(o, 8) & 255 if o else ord(c[-1]) for a, o, c in w]
                    n[int.from_bytes(bytes(w[:8]), "little")] += 1
            x = re.sub(r'"(?:\\.|[^"\\\n])*"', " ", x)
            for q in re.findall(r"\{([\s\w,]{7,120})\}", x):              # short sequences of bytes
                w = [int(i, 0) for i in re.findall(r"\b(0[xX][0-9a-fA-F]+|[1-9]\d*|0)\b", q)]
                if 3 <= len(w) <= 16 and max(w) < 256 and len(w) == len([i for i in q.split(",") if i.strip()]):
                    n[int.from_bytes(bytes(w[:8]), "little")] += 1
            for q in re.findall(r"'([^'\\])'", x):
                n[ord(q)] += 1
            num = r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])"
            val = lambda w: int(w, 16) if w[1:2] in "xX" else int(w, 8 if w[0] == "0" and re.fullmatch("[0-7]+", w) else 10)
            for q in re.findall(num, x):
                n[val(q) & (1 << 64) - 1] += 1
            for a, o, b in re.findall(r"(?=" + num + r"\s*\)?\s*(<<|\*|\+)\s*\(?\s*" + num + ")", x):
                a, b = val(a), val(b)
                n[(a << b % 64 if o == "<<" else a * b if o == "*" else a + b) & (1 << 64) - 1] += 1
    return n, t


def new_literals():
    """Those that are not in the sources the simulator was written against: what
    a change talks about is worth meeting.  Generation draws on them; on
    unchanged sources there are none."""
    base = json.load(open(os.path.join(VERIF, "sim/literals.json")))
    n, t = literals()
    nn = [k for k in sorted(n) if n[k] > base["n"].get(str(k), 0) and k > 1]
    tt = [k for k in sorted(t) if t[k] > base["t"].get(k, 0)]
    return ["i %d" % k for k in nn[:64]] + ["s %s" % k for k in tt[:64]]


def cpu_ok(v):
    if "-mavx2" in v["flags"]:
        try:
            return " avx2 " in open("/proc/cpuinfo").read().replace("\n", " ")
        except OSError:
            return True
    return True


def variant_flags(arch, v, flavour):
    a = ARCHES[arch]
    clang = v["cc"] == "clang"
    f = list(SHIPPED if flavour == "p" else INSTR)
    f += v["flags"] + ["-DDVBCSA_USE_" + v["word"]] + a["defs"]
    f += ["-D%s=1" % d for d in HAVE + v["defs"]]
    if v["alt"]:
        f.append("-DDVBCSA_USE_ALT_SBOX=1")
    if clang:
        f.append("-fno-strict-aliasing")
    else:
        f.append("-DHAVE_ATTRIBUTE_MAY_ALIAS=1")
    if arch == "x86":
        f += ["-fcf-protection=none", "-include", os.path.join(VERIF, "sim/hw.h")]
    f += ["-fno-pie", "-fno-stack-protector", "-w", "-fno-common", "-ffile-prefix-map=%s=/repo" % REPO]
    return f


def closure_text(src, seen=None):
    """Text of a source file and of everything it includes from /repo/src."""
    seen = set() if seen is None else seen
    p = os.path.normpath(os.path.join(REPO, "src", src))
    if p in seen or not os.path.exists(p):
        return ""
    seen.add(p)
    t = open(p, errors="replace").read()
    for inc in re.findall(r'#\s*include\s*[<"]([^>"]+)[>"]', t):
        for d in ("", os.path.dirname(src)):
            t += closure_text(os.path.join(d, inc), seen)
    if re.search(r'#\s*include\s+[^<"\s]', t):
        t += " ".join(VARIANT_MACROS)           # computed include: assume that everything matters
    return t


VARIANT_MACROS = ["HAVE_MM_MALLOC", "HAVE_POSIX_MEMALIGN", "DVBCSA_USE_ALT_SBOX"] + \
    ["DVBCSA_USE_" + w for w in ("UINT32", "UINT64", "MMX", "SSE", "SSSE3", "AVX2", "NEON", "ALTIVEC")]
_closures, _objs, _olock = {}, {}, threading.Lock()


def compile_source(arch, v, flavour, s, cc, flags, outdir):
    """One object file; build options whose macros the file never mentions share it."""
    key0 = (REPO, s)
    if key0 not in _closures:
        _closures[key0] = closure_text(s)
    text = _closures[key0]
    fl = [f for f in flags + v["extra"].get(s, []) if not any(f.startswith("-D" + m) for m in VARIANT_MACROS)
          or re.search(r"\b%s\b" % re.escape(f[2:].split("=")[0]), text)]
    key = (REPO, outdir, s, cc, tuple(fl))
    with _olock:
        fut = _objs.get(key)
        mine = fut is None
        if mine:
            fut = _objs[key] = concurrent.futures.Future()
            n = len(_objs)
    if mine:
        o = os.path.join(outdir, "o%d.o" % n)
        try:
            sh([cc] + fl + ["-I", outdir, "-I", REPO + "/src", "-c", os.path.join(REPO, "src", s), "-o", o])
            fut.set_result(o)
        except BaseException as e:
            fut.set_exception(e)
    return fut.result()


def compile_variant(arch, v, flavour, outdir):
    """-> (path of combined object with API renamed, list of unmodelled externals)"""
    a = ARCHES[arch]
    cc = v["cc"] or a["cc"]
    name = v["name"]
    d = os.path.join(outdir, "%s.%s" % (name, flavour))
    os.makedirs(d, exist_ok=True)
    flags = variant_flags(arch, v, flavour)
    objs = [compile_source(arch, v, flavour, s, cc, flags, outdir) for s in sources(v["word"])]
    comb = os.path.join(d, "comb.o")
    sh([a["pre"] + "ld", "-r", "-o", comb] + objs)
    res = {}
    unknown = set()
    for fl in ([flavour] if flavour == "i" else ["p", "t"]):
        pfx = fl + "_" + name + "_"
        simp = "twin_" if fl == "t" else "sim_"
        undef = [l.split()[-1] for l in sh([a["pre"] + "nm", "-u", comb]).splitlines() if l.strip()]
        redef = ["%s %s%s" % (s, pfx, s) for s in API]
        for u in undef:
            b = u.lstrip(".")
            dot = u[:len(u) - len(b)]
            if b in SIM_CALLS:
                redef.append("%s %s%s%s" % (u, dot, simp, b))
            elif b in MEM_CALLS:
                if fl == "i":
                    redef.append("%s %s%s%s" % (u, dot, simp, b))
            elif not b.startswith("__tsan_") and u not in BENIGN and not b.startswith("_rest") and not b.startswith("_save"):
                unknown.add(u)
        open(os.path.join(d, "redef." + fl), "w").write("\n".join(redef) + "\n")
        out = os.path.join(outdir, "%s.%s.o" % (name, fl))
        tmp = os.path.join(d, "tmp.%s.o" % fl)
        cmd = [a["pre"] + "objcopy", "--redefine-syms=" + os.path.join(d, "redef." + fl)]
        if True:
            # what the library would have run at start-up and exit is under the simulator's control
            for line in sh([a["pre"] + "readelf", "-S", "-W", comb]).splitlines():
                m = re.match(r"\s*\[\s*\d+\]\s+(\.(?:preinit|init|fini)_array|\.[cd]tors)(\.\d+)?\s", line)
                if m:
                    cmd += ["--rename-section", "%s=%s%s" % (m[1] + (m[2] or ""), {"t": "tw", "p": "pl", "i": "in"}[fl],
                                                             "dtor" if m[1] in (".fini_array", ".dtors") else "ctor")]
            for line in sh([a["pre"] + "readelf", "-S", "-W", comb]).splitlines():
                m = re.match(r"\s*\[\s*\d+\]\s+(\S+)\s+(PROGBITS|NOBITS)\s+\S+\s+\S+\s+(\S+)\s+\S+\s+(\w+)", line)
                if m and "W" in m[4] and "A" in m[4] and "T" not in m[4] and int(m[3], 16) \
                        and not m[1].startswith((".toc", ".got", ".opd", ".data.rel.ro", ".init_array", ".fini_array")):
                    cmd += ["--rename-section", "%s=%s" % (m[1], {"t": "tw", "p": "pl", "i": "in"}[fl] + ("bss" if m[2] == "NOBITS" else "data"))]
        sh(cmd + [comb, tmp])
        keep = []
        for s in API:
            keep += ["-G", pfx + s]
        sh([a["pre"] + "objcopy"] + keep + [tmp, out])
        res[fl] = out
    shutil.rmtree(d)
    return res, sorted(unknown)


def build(arch, jobs=8, quiet=True):
    """-> dict(bin=path, variants=[names], failed={name: error}, unknown={name: [externals]})"""
    os.makedirs(BUILD, exist_ok=True)
    vs = [v for v in VARIANTS[arch] if cpu_ok(v)]
    h = hashlib.sha256()
    h.update(tree_hash(os.path.join(REPO, "src"), (".c", ".h", ".inc", ".am")).encode())
    h.update(tree_hash(os.path.join(VERIF, "sim")).encode())
    h.update(open(os.path.abspath(__file__), "rb").read())
    h.update(repr([v["name"] for v in vs]).encode())
    out = os.path.join(BUILD, "%s-%s" % (arch, h.hexdigest()[:16]))
    lock = open(os.path.join(BUILD, arch + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    done = os.path.join(out, "done.json")
    if os.path.exists(done):
        return json.load(open(done))
    olds = sorted((e for e in os.listdir(BUILD) if e.startswith(arch + "-")),
                  key=lambda e: os.path.getmtime(os.path.join(BUILD, e)))
    for old in olds[:-3]:
        shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(os.path.join(out, "config.h"), "w").write("/* defines are on the command line */\n")
    a = ARCHES[arch]
    failed, unknown, objs = {}, {}, {}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        simobjs = []
        futs = {}
        for s in sorted(os.listdir(os.path.join(VERIF, "sim"))):
            if s.endswith(".c"):
                o = os.path.join(out, "sim_" + s[:-2] + ".o")
                simobjs.append(o)
                futs[ex.submit(sh, [a["cc"], "-std=gnu11", "-O2", "-g1", "-Wall", "-fno-pie", "-fno-stack-protector",
                                    "-fno-tree-vectorize", "-pthread", "-I", REPO + "/src", "-c", os.path.join(VERIF, "sim", s), "-o", o])] = s
        vf = {}
        for v in sorted(vs, key=lambda v: v["word"] not in ("AVX2", "SSE", "MMX")):
            for fl in ("p", "i"):
                vf[ex.submit(compile_variant, arch, v, fl, out)] = (v, fl)
        for f in futs:
            f.result()
        for f, (v, fl) in vf.items():
            try:
                res, unk = f.result()
                objs.setdefault(v["name"], {}).update(res)
                if unk:
                    unknown[v["name"]] = sorted(set(unknown.get(v["name"], []) + unk))
            except RuntimeError as e:
                failed[v["name"]] = str(e)
    good = [v for v in vs if v["name"] not in failed]
    gen = os.path.join(out, "libs.c")
    with open(gen, "w") as g:
        g.write('#include "%s/sim/lib.h"\n' % VERIF)
        for v in good:
            for fl in "pit":
                p = "%s_%s_" % (fl, v["name"])
                g.write("extern void *%sdvbcsa_key_alloc(void), *%sdvbcsa_bs_key_alloc(void);\n" % (p, p))
                g.write("extern void %sdvbcsa_key_free(void *), %sdvbcsa_bs_key_free(void *);\n" % (p, p))
                g.write("extern void %sdvbcsa_key_set(const unsigned char *, void *), %sdvbcsa_bs_key_set(const unsigned char *, void *);\n" % (p, p))
                g.write("extern void %sdvbcsa_decrypt(const void *, unsigned char *, unsigned), %sdvbcsa_encrypt(const void *, unsigned char *, unsigned);\n" % (p, p))
                g.write("extern void %sdvbcsa_bs_decrypt(const void *, const batch_t *, unsigned), %sdvbcsa_bs_encrypt(const void *, const batch_t *, unsigned);\n" % (p, p))
                g.write("extern unsigned %sdvbcsa_bs_batch_size(void);\n" % p)
        g.write("variant_t variants[] = {\n")
        for v in good:
            g.write('  { "%s", {' % v["name"])
            for fl in "pit":
                g.write("{ " + ", ".join("%s_%s_%s" % (fl, v["name"], s) for s in API) + " }, ")
            g.write("} },\n")
        g.write("};\nint n_variants = %d;\n" % len(good))
    go = os.path.join(out, "libs.o")
    sh([a["cc"], "-std=gnu11", "-O1", "-w", "-fno-pie", "-I", REPO + "/src", "-include", "stddef.h", "-c", gen, "-o", go])
    binp = os.path.join(out, "sim")
    sh([a["cc"], "-static", "-no-pie", "-pthread", "-o", binp] + simobjs + [go] +
       [objs[v["name"]][fl] for v in good for fl in "pit"] + ["-lm"])
    open(binp + ".dict", "w").write("".join(l + "\n" for l in new_literals()))
    try:
        subprocess.run(a["run"] + [binp, "cal"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
    except subprocess.TimeoutExpired:
        pass
    for f in os.listdir(out):
        if f.endswith(".o"):
            os.unlink(os.path.join(out, f))
    info = dict(arch=arch, bin=binp, run=a["run"], variants=[v["name"] for v in good], failed=failed, unknown=unknown)
    json.dump(info, open(done, "w"))
    return info


if __name__ == "__main__":
    import time
    t = time.time()
    if sys.argv[1:] == ["literals"]:         # the baseline, from the current tree
        n, t = literals()
        json.dump({"n": {str(k): n[k] for k in sorted(n)}, "t": {k: t[k] for k in sorted(t)}}, open(os.path.join(VERIF, "sim/literals.json"), "w"), indent=0)
        sys.exit()
    for ar in sys.argv[1:] or list(ARCHES):
        r = build(ar)
        print(json.dumps(r, indent=1), "%.1fs" % (time.time() - t))
