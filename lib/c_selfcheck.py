"""C16: the self-checks against hash functions with injected faults."""
from vp import *
from variants import *

WEAK = ["t1ha1_le", "t1ha1_be", "t1ha2_atonce", "t1ha2_atonce128", "t1ha2_init", "t1ha2_update", "t1ha2_final", "t1ha0_32le", "t1ha0_32be",
        "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"]


def faulty_lib(c, name, cc, bits, opt, defs):
    d = c.tmp("-selfck"); os.makedirs(d)
    base = [cc, "-m%d" % bits, "-std=c11", "-DNDEBUG", "-D_DEFAULT_SOURCE", "-w", "-fPIC", "-fno-inline", opt] + ["-D" + x for x in defs]
    objs = []
    for f in sources():
        o = os.path.join(d, f + ".o")
        c.cc(base + aes_flags(f) + ["-c", os.path.join(REPO, "src", f), "-o", o], "compiling the library (%s)" % name)
        c.cc(["objcopy"] + sum([["-W", x] for x in WEAK], []) + [o], "objcopy")
        objs.append(o)
    st, rf = os.path.join(d, "st.o"), os.path.join(d, "ref.o")
    c.cc(base + ["-I", REPO, "-I", HARN, "-c", HARN + "/selfck_lib.c", "-o", st], "stand-ins")
    c.cc(["gcc", "-m%d" % bits, "-O2", "-w", "-fPIC", "-fvisibility=hidden", "-I", HARN, "-c", HARN + "/ref.c", "-o", rf], "model")
    so = os.path.join(d, "lib.so")
    c.cc([cc, "-m%d" % bits, "-shared", "-Wl,-Bsymbolic", "-o", so, st, rf] + objs, "linking (%s)" % name)
    hide_cpuid(so)
    return so


def register(CHECKS):
    def C16():
        c = Check("C16", "A case is one self-check call in a history: a generated machine (CPUID leaves, XCR0), a generated fault for each hash function (one vector changed by one bit or word, any set of vectors, "
                  "a constant, the values of another function, part of the length or of the seed lost, results shifted by some vectors, cleared bits; several functions at once; kept from the call before or new), and which "
                  "self-check is asked. In addition every self-check x function x published vector with a single fault is enumerated. The hash functions are stand-ins over the byte-wise model; the self-check code is the "
                  "library's. Oracle: -1 if a covered function misses a published value, 0 if every covered function gives them all, nothing else; AES variants are asked exactly where the machine has them. "
                  "Non-trivial: at least one function is wrong. (b) the self-checks of complete builds, natively and emulated, must all return 0.",
                  ["assertions off, as the library is normally built", "the 128-bit checks compare 64 bits, as documented by the property"])
        exes = {}
        for bits in (64, 32):
            e = c.tmp("-selfck%d" % bits)
            r = c.tmp("-ref.o")
            c.cc(["gcc", "-m%d" % bits, "-O2", "-w", "-I", HARN, "-c", HARN + "/ref.c", "-o", r], "model")
            c.cc(["gcc", "-m%d" % bits, "-O2", "-w", "-I", HARN, HARN + "/selfck.c", r, "-o", e, "-ldl"], "fault driver")
            exes[bits] = e
        P = ["T1HA_USE_INDIRECT_FUNCTIONS=0"]
        confs = [("gcc64", "gcc", 64, "-O2", P), ("gcc64-O3", "gcc", 64, "-O3", P), ("clang64", CLANG, 64, "-O2", P), ("gcc32", "gcc", 32, "-O2", P), ("clang32", CLANG, 32, "-O1", P),
                 ("gcc64-no-t1ha1", "gcc", 64, "-O2", P + ["T1HA1_DISABLED"]), ("gcc64-no-t1ha2", "gcc", 64, "-O2", P + ["T1HA2_DISABLED"]), ("gcc64-no-t1ha0", "gcc", 64, "-O2", P + ["T1HA0_DISABLED"]),
                 ("gcc64-only-t1ha0", "gcc", 64, "-O2", P + ["T1HA1_DISABLED", "T1HA2_DISABLED"]), ("gcc64-only-t1ha2", "gcc", 64, "-O2", P + ["T1HA1_DISABLED", "T1HA0_DISABLED"]),
                 ("gcc64-no-aes", "gcc", 64, "-O2", P + ["T1HA0_AESNI_AVAILABLE=0"]), ("gcc64-no-select", "gcc", 64, "-O2", P + ["T1HA0_RUNTIME_SELECT=0"]), ("gcc32-no-t1ha1", "gcc", 32, "-O2", P + ["T1HA1_DISABLED"])]
        libs = [(x, c.pool.submit(faulty_lib, c, *x)) for x in confs]
        dbg = mac("gcc64-assertions"); dbg.base = [x for x in dbg.base if x != "-DNDEBUG"]
        names = c.build([std64(), std32(), cl64(), cl32(), dbg, mac("gcc64-no-select", defs=["T1HA0_RUNTIME_SELECT=0"])] + emus())
        jobs = []
        for x, f in libs:
            try:
                so = f.result()
            except BuildError as e:
                c.violation("build", "configuration '%s' does not build" % x[0], {"conf": x, "log": str(e)}); continue
            cmd = [exes[x[2]], so, "seed=%d" % (c.seed * 131 + len(jobs)), "cases=%d" % c.n(40000)]
            jobs.append((x, cmd, c.pool.submit(run, cmd, 800)))
        from checks import spread
        spread(c, names, "self", 5, ALL)
        for x, cmd, f in jobs:
            r = f.result()
            m = re.search(r"SELFSTATS (\d+) (\d+) (\d+)", r.out)
            bad = re.findall(r"FAIL cfg=(\S+) (.*)", r.out)
            if r.timeout: c.note("%s: out of time" % x[0])
            elif bad:
                cfg, why = bad[-1]
                rr = [run(cmd[:2] + ["replay=" + cfg]) for _ in range(3)]
                if all(y.rc == 1 for y in rr):
                    c.violation("selfcheck", "%s [%s]" % (why, x[0]), {"build": x, "replay": cfg, "meaning": "machine: highest leaf, leaf 1 ecx, leaf 7 ebx, xcr0, noise; history seed, first and last operation, enumerated"})
                else: c.note("%s: not confirmed: %s" % (x[0], why))
            elif m: c.add(int(m.group(1)), int(m.group(2)), "faults-" + x[0], ["[%s] %s self-check calls on %s machines, %s with a wrong function" % (x[0], m.group(1), m.group(3), m.group(2))])
            else: c.note("%s could not run: status %d %s" % (x[0], r.rc, r.err[-200:]))
        c.finish()
    CHECKS["C16"] = C16
