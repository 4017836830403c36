"""C10 (exactly the caller's bytes are read) and C11 (no misaligned access)."""
from vp import *
from variants import *

KASAN = ["-O2", "-fsanitize=kernel-address"]
GCC_OUT = ["--param", "asan-instrumentation-with-call-threshold=0", "--param", "asan-stack=0", "--param", "asan-globals=0"]
CLANG_OUT = ["-mllvm", "-asan-instrumentation-with-call-threshold=0", "-mllvm", "-asan-stack=0", "-mllvm", "-asan-globals=0"]
RENAME = ["memcpy=vp_memcpy", "memmove=vp_memmove", "memset=vp_memset", "memcmp=vp_memcmp"]


def exact(name, bits=64, ua=None, os_=0, cc="gcc", as_asan=False, **kw):
    """a native build in which every access of the library is reported to harness/asan_rt.c"""
    cf = KASAN + (GCC_OUT if cc == "gcc" else CLANG_OUT)
    defs = list(RENAME)
    if not as_asan:
        if cc != "gcc": raise ValueError("clang always looks like AddressSanitizer here")
        cf = cf + ["-U__SANITIZE_ADDRESS__"]
        defs.append("T1HA_USE_INDIRECT_FUNCTIONS=0")
    v = mac(name, bits, ua, os_, cc, cflags=cf, defs=defs, **kw)
    v.monitor = True
    return v


def heapwalk(c, name, flags, lib_defs, runner, cases, bits=64, cc="gcc"):
    """hash exactly-sized heap blocks under a memory checker"""
    v = Variant("heap-" + name, cc=cc, bits=bits, cflags=["-O1", "-g"] + flags, defs=lib_defs)
    r = c.lib_objects([v])[v.name]
    d = c.tmp("-heap"); os.makedirs(d)
    exe = os.path.join(d, "heapwalk")
    try:
        if isinstance(r, BuildError): raise r
        c.cc([cc, "-m%d" % bits, "-O1", "-g", "-w", "-I", HARN, "-I", REPO] + flags + ["-D" + x for x in lib_defs] + [HARN + "/heapwalk.c", "-o", exe] + r + ["-lm"], "heap harness")
    except BuildError as e:
        c.note("memory-checker stage '%s' could not be built and was left out: %s" % (name, str(e)[-300:].replace("\n", " | ")))
        return []
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=9", GLIBC_TUNABLES="")
    return [(name, runner + [exe, "seed=%d" % (c.seed * 101 + j), "cases=%d" % cases], env, c.pool.submit(run, runner + [exe, "seed=%d" % (c.seed * 101 + j), "cases=%d" % cases], 800, None, env)) for j in range(2)]


def heap_collect(c, futs):
    for name, cmd, env, f in futs:
        r = f.result()
        m = re.search(r"HEAPSTATS (\d+) (\d+) (.*)", r.out)
        if m:
            c.add(int(m.group(1)), int(m.group(2)), "heap-" + name, ["[%s] %s" % (name, m.group(3))])
        bad = re.findall(r"FAILCASE (.*)", r.out)
        if r.timeout: c.note("%s ran out of time: inconclusive" % name)
        elif bad:
            one = [x for x in cmd if not x.startswith(("seed=", "cases="))] + bad[0].split()
            if bad[0].startswith("selfcheck"): one = cmd
            rr = [run(one, 300, None, env) for _ in range(3)]
            if all(x.rc == 9 or "FAILCASE" in x.out or "ERROR: AddressSanitizer" in x.err for x in rr):
                log = rr[0].err
                head = [l for l in log.splitlines() if "ERROR: AddressSanitizer" in l or "Invalid read" in l or "Invalid write" in l or "uninitialised" in l]
                c.violation("heap", "%s reports an error for a valid call (%s): %s" % (name, bad[0], head[0].strip() if head else "see log"), {"checker": name, "case": bad[0], "cmd": one, "log": log[-2500:]})
            else: c.note("%s failed once and not again: %s" % (name, bad[0]))
        elif r.rc != 0 and not m:
            c.note("%s could not run here (status %d): %s" % (name, r.rc, r.err[-200:].replace("\n", " | ")))


def register(CHECKS):
    from c_huge import mid
    from checks import CASE_RULE, MODEL, CPU_A, spread

    def C10():
        c = Check("C10", CASE_RULE + " Oracle: byte-exact access monitoring. (a) the library cross-compiled with one-shot reads off runs in an emulator that checks every read of every instruction; (b) native gcc and clang "
                  "builds whose every load/store is reported with address and size to a monitor (outlined kernel-address instrumentation); (c) exactly-sized heap blocks under AddressSanitizer (gcc, clang) and valgrind.",
                  [CPU_A, "(b) sees accesses as the compiler's middle end emits them"])
        v = [exact("exact-gcc64-unaligned%s" % u, 64, u) for u in (0, 1, 2)] + [exact("exact-gcc32-unaligned%s" % u, 32, u) for u in (0, 2)] + [exact("exact-gcc64", 64)]
        v += [exact("exact-gcc64-asan", 64, None, None, as_asan=True), exact("exact-gcc32-asan-unaligned0", 32, 0, 1, as_asan=True), exact("exact-gcc64-asan-unaligned0", 64, 0, None, as_asan=True),
              exact("exact-clang64-asan", 64, None, None, CLANG, True), exact("exact-clang64-asan-unaligned0", 64, 0, 1, CLANG, True)]
        v += [exact("exact-generic64-unaligned1", 64, 1, include="generic.h"), exact("exact-generic32-unaligned0", 32, 0, include="generic.h")]
        for x in v:
            if x.include: x.defs.append("GENERIC_NO_INT128")
        v += [emu("mips-%s%s-oneshot0" % (t, "" if u is None else "-unaligned%d" % u), t, u, 0) for t in ("be32", "le32", "be64", "le64") for u in (None, 1, 2)]
        v += [emu("mips-%s-asan" % t, t, 2 if t == "le64" else None, 1, defs=["__SANITIZE_ADDRESS__=1"]) for t in ("be64", "le32", "le64")]
        names = c.build(v)
        hw = []
        n = c.n(15000)
        hw += heapwalk(c, "gcc-asan", ["-fsanitize=address"], [], [], n)
        hw += heapwalk(c, "gcc-asan-unaligned0", ["-fsanitize=address"], [UA % 0], [], n)
        hw += heapwalk(c, "clang-asan", ["-fsanitize=address"], [], [], n, cc=CLANG)
        vg = ["valgrind", "--error-exitcode=9", "--exit-on-first-error=no", "--leak-check=no", "--partial-loads-ok=no", "-q"]
        if shutil.which("valgrind"):
            hw += heapwalk(c, "valgrind", ["-gdwarf-4"], [OS % 0], vg, c.n(2500))
            hw += heapwalk(c, "valgrind-unaligned0", ["-gdwarf-4"], [OS % 0, UA % 0], vg, c.n(2500))
        spread(c, names, "exact", c.n(40000), ALL, grid=150, split=2)
        spread(c, [n for n in names if c.vars[n].kind == "emu"], "exact", c.n(60000), ALL)
        mid(c, ALL & ~AES & ~T0, 16, "safe", [mac("gcc64-oneshot0-O1", os=0, opt="-O1"), mac("gcc64-unaligned0-oneshot0", ua=0, os=0), mac("gcc32-oneshot0", 32, os=0), mac("gcc32-unaligned0-oneshot0", 32, ua=0, os=0)])
        heap_collect(c, hw)
        c.finish()

    def C11():
        c = Check("C11", CASE_RULE + " Oracle: builds with unaligned access declared unavailable (and, on the emulated targets, the default policy) run on an emulator that faults on any misaligned 2/4/8-byte access, "
                  "including MIPS32, and native builds whose typed accesses are checked by -fsanitize=alignment; results are compared with the model.", [MODEL, CPU_A, "the AES variants (x86 only, unaligned loads by design) are not part of this property"])
        v = [emu("mips-%s-%s-oneshot%s%s" % (t, "default" if u is None else "unaligned0", "d" if o is None else o, op), t, u, o, op)
             for t in ("be32", "le32", "be64", "le64") for u in (None, 0) for o in (None, 0) for op in (("-O2",) if u is None else ("-O1", "-O3"))]
        ub = ["-fsanitize=alignment", "-fsanitize-trap=alignment"]
        v += [emu("mips-be32-unaligned0-trap", "be32", 0, 1, "-O1", cflags=ub), emu("mips-le64-unaligned0-trap", "le64", 0, 0, "-O1", cflags=ub)]
        nat = []
        for o in (None, 0):
            nat.append(mac("clang64-unaligned0-os%s-ubsan" % o, 64, 0, o, CLANG, "-O1", cflags=ub, defs=["T1HA0_AESNI_AVAILABLE=0", "T1HA0_RUNTIME_SELECT=0"]))
            nat.append(mac("clang32-unaligned0-os%s-ubsan" % o, 32, 0, o, CLANG, "-O1", cflags=ub, defs=["T1HA0_AESNI_AVAILABLE=0", "T1HA0_RUNTIME_SELECT=0"]))
        nat.append(gen("generic64-unaligned0-ubsan", 64, 0, None, CLANG, opt="-O1", cflags=ub))
        names = c.build(v + nat)
        spread(c, names, "value", c.n(90000), ALL & ~AES, grid=140)
        spread(c, [n for n in names if c.vars[n].kind == "emu"], "value", c.n(90000), ALL & ~AES)
        spread(c, names, "hist", c.n(8000), STREAM, contexts=2)
        mid(c, ALL & ~AES & ~T0, 24, "model", [v for v in nat if "-osNone" in v.name or v.include])
        c.finish()

    CHECKS["C10"], CHECKS["C11"] = C10, C11
