"""C22: compilers, optimisation levels, link-time optimisation, inlining into callers, data of any type, undefined behaviour."""
import random
from vp import *
from variants import *
import callers

# functions of a source file (what a program that includes the file can call)
FILES = {"t1ha1": ["FN_T1LE", "FN_T1BE"], "t1ha2": ["FN_T2", "FN_T2X", "FN_S", "FN_SX"], "t1ha0": ["FN_T0LE", "FN_T0BE"], "t1ha0_ia32aes_noavx": ["FN_AN"], "t1ha0_ia32aes_avx": ["FN_AA"], "t1ha0_ia32aes_avx2": ["FN_A2"]}
NEED = {"t1ha0_ia32aes_noavx": ("aes",), "t1ha0_ia32aes_avx": ("aes", "avx"), "t1ha0_ia32aes_avx2": ("aes", "avx2")}


INLINE = {"gcc": ["--param=max-inline-insns-single=100000", "--param=max-inline-insns-auto=100000", "--param=inline-unit-growth=100000", "--param=large-function-growth=100000", "--param=large-unit-insns=1000000",
                  "--param=large-stack-frame-growth=100000", "-finline-functions"], CLANG: ["-mllvm", "-inline-threshold=1000000", "-mllvm", "-inlinehint-threshold=1000000"]}


def cpp(cc): return "g++" if cc == "gcc" else CLANGXX


def build_callers(c, j):
    d = c.tmp("-call"); os.makedirs(d)
    cc, bits, opt, defs, mode, f, lang = j["cc"], j["bits"], j["opt"], j["defs"], j["mode"], j["file"], j["lang"]
    m = ["-m%d" % bits]
    fns = FILES[f] if f else sum([v for k, v in FILES.items() if all(x in CPU for x in NEED.get(k, ()))], [])
    src, hashes = callers.generate(j["gseed"], j["count"], fns, "vp_callers", .85 if j.get("few") else .25)
    ext = ".cpp" if lang == "c++" else ".c"
    for n, t in (("callers" + ext, src), ("main.c", callers.MAIN)):
        open(os.path.join(d, n), "w").write(t)
    D = ["-D" + x for x in defs]
    lto = ["-flto"] if mode == "lto" else []
    com = m + [opt, "-w", "-I", HARN, "-I", REPO] + D
    cstd = ["-std=gnu++17"] if lang == "c++" else ["-std=gnu11"]
    # per-file flags of the Makefile; a program that includes a file needs them too
    inst = aes_flags(f + ".c") if f else []
    unity = ['-DUNITY="%s"' % os.path.join(REPO, "src", f + ".c"), "-DNDEBUG"] if mode == "unity" else []
    c.cc([cpp(cc) if lang == "c++" else cc] + com + j["cflags"] + cstd + lto + unity + (inst if unity else []) + ["-c", d + "/callers" + ext, "-o", d + "/callers.o"], "compiling generated callers")
    c.cc(["gcc"] + m + ["-O2", "-w", "-I", HARN, "-c", d + "/main.c", "-o", d + "/main.o"], "harness")
    c.cc(["gcc"] + m + ["-O3", "-w", "-I", HARN, "-c", HARN + "/ref.c", "-o", d + "/ref.o"], "model")
    objs = []
    for s in sources():
        if mode == "unity" and s == f + ".c": continue
        o = os.path.join(d, s[:-2] + ".o")
        c.cc([cc] + m + [opt, "-std=c11", "-D_DEFAULT_SOURCE", "-DNDEBUG", "-w", "-ffunction-sections", "-fPIC"] + j["cflags"] + lto + D + aes_flags(s) + ["-c", os.path.join(REPO, "src", s), "-o", o], "compiling the library")
        objs.append(o)
    link = (cpp(cc) if lang == "c++" else cc)
    c.cc([link] + m + [opt] + lto + j["cflags"] + [d + "/callers.o", d + "/main.o", d + "/ref.o"] + objs + ["-o", d + "/prog", "-lm"] + (["-fuse-ld=lld"] if lto and "clang" in cc else []), "linking")
    return d + "/prog", hashes


def register(CHECKS):
    def C22():
        from checks import spread, CASE_RULE, MODEL, CPU_A
        c = Check("C22", "(a) " + CASE_RULE + " The build variants are compilers x optimisation levels x instruction-set and aliasing options, sanitizers for undefined behaviour (a report is a failure), link-time optimisation. "
                  "(b) A case is a round of a generated C or C++ program: objects of random types (scalars of every size, floating point, pointers, vectors, arrays, nested structures; local, static, heap, by pointer), "
                  "stores through those types before and between hash calls on ranges of the object, contexts in memory of other types; the library source included in the caller, or linked with LTO, or separate. "
                  "Oracle: the byte-wise model on a byte-wise copy of what was stored. Non-trivial: distinct case (a), hash of an object that was stored into (b).",
                  [MODEL, CPU_A, "alignment and null-to-memcpy(0 bytes) reports of the sanitizer are excluded: the former is the documented unaligned-access option (C11 decides it), the latter is harmless on every compiler"])
        r = random.Random(c.seed * 7 + 1)
        native = ["-march=x86-64-v2"] + (["-march=x86-64-v3"] if "avx2" in CPU and "bmi2" in CPU else []) + (["-march=native"])
        V = [mac("gcc64%s" % o, opt=o) for o in ("-O0", "-O1", "-O2", "-O3", "-Os", "-Ofast", "-Og")] + [mac("clang64%s" % o, cc=CLANG, opt=o) for o in ("-O0", "-O1", "-O2", "-O3", "-Os", "-Ofast", "-Oz")]
        V += [mac("gcc32%s" % o, 32, opt=o) for o in ("-O0", "-O1", "-O2", "-Os")] + [mac("clang32%s" % o, 32, cc=CLANG, opt=o) for o in ("-O0", "-O1", "-O3", "-Os")]
        V += [mac("gcc64%s" % m, opt="-O3", cflags=[m]) for m in native] + [mac("clang64%s" % m, opt="-O3", cc=CLANG, cflags=[m]) for m in native]
        V += [mac("gcc64-lto", opt="-O3", cflags=["-flto"], ld=["-flto", "-O3"]), mac("clang64-lto", cc=CLANG, opt="-O3", cflags=["-flto"], ld=["-flto", "-O3", "-fuse-ld=lld"]), mac("gcc32-lto", 32, opt="-O2", cflags=["-flto"], ld=["-flto", "-O2"]),
              mac("gcc64-pic-static-ieee", opt="-O3", cflags=["-fno-strict-aliasing", "-fno-inline"]), mac("gcc64-x87", 32, opt="-O3", cflags=["-march=i586", "-fomit-frame-pointer"]),
              mac("gcc64-unroll", opt="-O3", cflags=["-funroll-all-loops", "-fipa-pta", "-fno-plt"]), mac("gcc64-ftrapv", opt="-O2", cflags=["-ftrapv"]), mac("gcc64-std17-noPIC", opt="-O2", cflags=["-std=gnu17", "-fno-pic", "-mcmodel=medium"], ld=["-no-pie"]),
              mac("clang64-vec", cc=CLANG, opt="-O3", cflags=["-fvectorize", "-fslp-vectorize", "-mllvm", "-inline-threshold=2000"]), mac("gcc64-fchar", opt="-O3", cflags=["-funsigned-char", "-fshort-enums", "-fpack-struct=16"]),
              mac("gcc64-stack-protector", opt="-O2", cflags=["-fstack-protector-all", "-D_FORTIFY_SOURCE=3", "-fcf-protection=full"]), mac("gcc64-ua0-O2", ua=0, opt="-O2"), mac("gcc64-ua0-os0-O3", ua=0, os=0, opt="-O3"), mac("clang64-ua1-O3", ua=1, cc=CLANG, opt="-O3")]
        su = ["-fsanitize=undefined", "-fno-sanitize=alignment,nonnull-attribute"]
        for nm, cc_, b, ua, os_ in (("gcc64-ubsan", "gcc", 64, None, None), ("clang64-ubsan", CLANG, 64, None, None), ("gcc32-ubsan", "gcc", 32, 0, None), ("clang64-ubsan-ua0", CLANG, 64, 0, 0), ("gcc64-ubsan-os0", "gcc", 64, 2, 0)):
            V.append(mac(nm, b, ua, os_, cc_, opt="-O1", cflags=su + (["-fsanitize-undefined-trap-on-error"] if cc_ == "gcc" else ["-fsanitize-trap=undefined"])))
        V += [emu("mips-be64%s" % o, "be64", opt=o) for o in ("-O0", "-O1", "-O3", "-Os")] + [emu("mips-le32%s" % o, "le32", opt=o) for o in ("-O0", "-O3")] + [emu("mips-be32-Os", "be32", opt="-Os"), emu("mips-le64-O3-ua2", "le64", 2, 0, "-O3")]
        names = c.build(V)
        # (b): a random covering design, every file with every mode and compiler
        jobs = []
        cfgs = [[], [UA % 0], [OS % 0], [UA % 0, OS % 0], [UA % 1]]
        files = [f for f in FILES if all(x in CPU for x in NEED.get(f, ())) and os.path.exists(os.path.join(REPO, "src", f + ".c"))]
        for f in files:
            for cc_ in ("gcc", CLANG):
                for bits in (64, 32):
                    for opt in (("-O2", "-O3") if bits == 64 else ("-O2",)):
                        jobs.append(dict(mode="unity", file=f, cc=cc_, bits=bits, opt=opt, defs=r.choice(cfgs), lang="c", cflags=[]))
        for cc_ in ("gcc", CLANG):
            for bits in (64, 32):
                for lang in ("c", "c++"):
                    jobs.append(dict(mode="lto", file=None, cc=cc_, bits=bits, opt=r.choice(["-O2", "-O3"]), defs=r.choice(cfgs), lang=lang, cflags=[]))
                    jobs.append(dict(mode="separate", file=None, cc=cc_, bits=bits, opt=r.choice(["-O1", "-O2", "-O3"]), defs=r.choice(cfgs), lang=lang, cflags=[]))
        for k in range(c.n(6, 150)):
            jobs.append(dict(mode="unity", file=r.choice(files), cc=r.choice(["gcc", CLANG]), bits=r.choice([64, 64, 32]), opt=r.choice(["-O1", "-O2", "-O3", "-Os"]), defs=r.choice(cfgs), lang="c",
                             cflags=r.choice([[], ["-march=x86-64-v2"] if False else [], ["-funroll-loops"], ["-fno-tree-vectorize"]])))
        # the whole hash is inlined into every caller, where the compiler knows the types, sizes and addresses of the data
        for f in files:
            for cc_ in ("gcc", CLANG):
                jobs.append(dict(mode="unity", file=f, cc=cc_, bits=r.choice([64, 64, 32]), opt=r.choice(["-O2", "-O3"]), defs=r.choice(cfgs[:2]), lang="c", cflags=INLINE[cc_], few=10))
        for i, j in enumerate(jobs):
            j.update(gseed=c.seed * 100003 + i, count=j.get("few") or (12 if not c.thorough else 30))
            if j["mode"] == "unity" and j["file"] == "t1ha0" : j["defs"] = j["defs"] + ["T1HA_USE_INDIRECT_FUNCTIONS=0"]

        def go(j):
            exe, hashes = build_callers(c, j)
            cmd = [exe, str(c.seed), str(60)]
            rr = run(cmd, 120)
            if rr.rc == 1:  # shrink: which program alone
                for k in range(j["count"]):
                    r1 = run(cmd + [str(k)], 120)
                    if r1.rc == 1: return cmd + [str(k)], r1, hashes
            return cmd, rr, hashes
        futs = [(j, c.pool.submit(go, j)) for j in jobs]
        spread(c, [n for n in names], "value", c.n(22000), ALL, grid=140)
        spread(c, [n for n in names], "hist", c.n(1500), STREAM, contexts=2)
        for j, f in futs:
            nm = "%s %s%d %s %s %s %s" % (j["mode"], "gcc" if j["cc"] == "gcc" else "clang", j["bits"], j["opt"], j["lang"], j["file"] or "all", " ".join(j["defs"]))
            try:
                cmd, rr, hashes = f.result()
            except BuildError as e:
                if j["mode"] == "unity" and "compiling generated callers" in str(e): c.note("including %s.c in a caller does not compile: %s" % (j["file"], str(e)[-300:]))
                else: c.violation("build", "%s does not build" % nm, {"job": j, "log": str(e)})
                continue
            if rr.rc == 0 and "CALLERSTATS" in rr.out: c.add(60 * hashes, 60 * hashes, "callers-" + j["mode"], ["[%s] %d programs, %d hashes per round, 60 rounds" % (nm, j["count"], hashes)] if r.random() < .06 else [])
            elif rr.timeout: c.note("%s: out of time" % nm)
            elif rr.rc == 3: c.note("%s: could not run" % nm)
            else:
                if run(cmd, 120).rc == rr.rc:
                    c.violation("callers", "%s: %s" % (nm, (re.findall(r"FAIL (.*)", rr.out) or ["the program dies with status %d" % rr.rc])[0]), {"job": j, "args": cmd[1:]})
                else: c.note("%s failed once: %s" % (nm, rr.out[-200:]))
        c.finish()
    CHECKS["C22"] = C22
