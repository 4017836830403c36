"""C07: which implementation t1ha0() is, on generated processors and operating systems, and from when on it can be called."""
from vp import *
from variants import *

STUBBED = ["t1ha1_le", "t1ha1_be", "t1ha2_atonce", "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"]


def emulated_lib(c, name, cc, bits, opt, defs):
    d = c.tmp("-disp"); os.makedirs(d)
    objs, jobs = [], []
    base = [cc, "-m%d" % bits, "-std=c11", "-DNDEBUG", "-D_DEFAULT_SOURCE", "-w", "-fPIC", opt] + ["-D" + x for x in defs]

    def one(f):
        o = os.path.join(d, f + ".o")
        c.cc(base + aes_flags(f) + ["-c", os.path.join(REPO, "src", f), "-o", o], "compiling the library (%s)" % name)
        c.cc(["objcopy"] + sum([["-W", x] for x in STUBBED], []) + [o], "objcopy")
        return o
    for f in sources():
        objs.append(one(f))
    st = os.path.join(d, "stub.o")
    c.cc(base + ["-I", REPO, "-c", HARN + "/dispatch_stub.c", "-o", st], "dispatch stub")
    so = os.path.join(d, "lib.so")
    c.cc([cc, "-m%d" % bits, "-shared", "-o", so, st] + objs, "linking (%s)" % name)
    hide_cpuid(so)
    return so


BMI = re.compile(r"^(andn|bextr|blsi|blsmsk|blsr|bzhi|mulx|pdep|pext|rorx|sarx|shlx|shrx|tzcnt|lzcnt|movbe|adcx|adox|rdrand|rdseed|sha\w+|gf2p8\w+)[lqw]?$")
POST_SSE2 = re.compile(r"^(aes\w+|pclmul\w*|pshufb|palignr|pabs[bwd]|phadd\w+|phsub\w+|psign\w|pmaddubsw|pmulhrsw|pmull[d]|pmuldq|p(min|max)(sb|uw|sd|ud)|p(insr|extr)[bdq]|pmov[sz]x\w+|pblend\w+|blend\w+|ptest|"
                       r"pcmpeqq|pcmpgtq|packusdw|mpsadbw|phminposuw|round\w+|dpp[sd]|insertps|extractps|movntdqa|crc32\w?|popcnt\w?|lddqu|movddup|movs[hl]dup|addsub\w+|haddp\w|hsubp\w|fisttp\w*)$")


def foreign(fn, mn, ops):
    """does the instruction need more than the processor the variant is chosen for?"""
    v = mn.startswith("v") and mn not in ("verr", "verw")
    evex = "%zmm" in ops or re.search(r"%[xy]mm(1[6-9]|2\d|3[01])|%k[0-7]|\{", ops) is not None
    vaes = mn.startswith(("vaes", "vpclmul")) and "%ymm" in ops
    if fn == "t1ha0_ia32aes_avx2": return evex or vaes
    if BMI.match(mn): return True
    if fn == "t1ha0_ia32aes_avx":
        return v and (evex or vaes or mn.startswith(("vpbroadcast", "vpgather", "vgather", "vpsllv", "vpsrlv", "vpsrav", "vinserti128", "vextracti128", "vperm2i128", "vpermd", "vpermq", "vpermps", "vpermpd", "vpblendd",
                                                          "vbroadcasti128", "vfmadd", "vfmsub", "vfnm", "vpmaskmov", "vcvtph", "vcvtps2ph")) or (mn.startswith(("vp", "vmovntdqa", "vmpsadbw")) and "%ymm" in ops and not mn.startswith(("vperm2f128", "vpermil", "vptest"))))
    if fn == "t1ha0_ia32aes_noavx": return v
    return v or POST_SSE2.match(mn) is not None


def register(CHECKS):
    def C07():
        c = Check("C07", "(a) A case is a processor and operating system: highest CPUID leaf, the AES, AVX, AVX2 and OSXSAVE bits (all 16 combinations x 8 leaves x 8 XCR0 values, then random), XCR0, all other feature bits "
                  "random; the library's own CPUID and XGETBV instructions are replaced by invalid ones and answered by a signal handler; a fresh process loads the library for each case. Oracle: the documented choice; "
                  "direct call, resolved address, pointer, second call and exported symbol must all be that implementation (tagged stand-ins tell noavx from avx). Non-trivial: AES reported. (b) programs "
                  "calling t1ha0 before all constructors, in constructors, in main and at exit on generated inputs. Oracle: same value everywhere, equal to the model of the variant for this CPU. "
                  "(c) every variant is single-stepped over generated inputs; no executed instruction may belong to an instruction-set extension that the processors it is chosen for need not have. "
                  "(d) value campaigns of t1ha0 in configured builds against the model.",
                  ["if the selection stops using CPUID instructions of its own (e.g. compiler-provided tests), (a) reports nothing and only (b) to (d) decide", "x86 only; the other targets' choice is checked by C14"])
        exes = {}
        for bits in (64, 32):
            e = c.tmp("-dispatch%d" % bits)
            c.cc(["gcc", "-m%d" % bits, "-O2", "-w", "-I", HARN, HARN + "/dispatch.c", "-o", e, "-ldl"], "dispatch harness")
            exes[bits] = e
        confs = [("gcc64-ifunc", "gcc", 64, "-O2", ["T1HA_USE_INDIRECT_FUNCTIONS=1"]), ("gcc64-pointer", "gcc", 64, "-O2", ["T1HA_USE_INDIRECT_FUNCTIONS=0"]), ("gcc64-default", "gcc", 64, "-O3", []),
                 ("gcc32-pointer", "gcc", 32, "-O2", ["T1HA_USE_INDIRECT_FUNCTIONS=0"]), ("clang64-pointer", CLANG, 64, "-O2", ["T1HA_USE_INDIRECT_FUNCTIONS=0"]), ("gcc32-default", "gcc", 32, "-O1", []),
                 ("gcc64-no-t1ha1", "gcc", 64, "-O1", ["T1HA1_DISABLED"]), ("gcc64-no-t1ha1-t1ha2", "gcc", 64, "-O0", ["T1HA1_DISABLED", "T1HA2_DISABLED", "T1HA_USE_INDIRECT_FUNCTIONS=0"]),
                 ("clang64-default", CLANG, 64, "-O3", [])]
        libs = [(x, c.pool.submit(emulated_lib, c, *x)) for x in confs]
        jobs = []
        for x, f in libs:
            try:
                so = f.result()
            except BuildError as e:
                if x[0] in ("gcc32-default",):
                    c.note("%s not built: %s" % (x[0], str(e)[-200:])); continue
                c.violation("build", "configuration '%s' does not build" % x[0], {"conf": x, "log": str(e)}); continue
            cmd = [exes[x[2]], so, "seed=%d" % (c.seed * 31 + len(jobs)), "cases=%d" % c.n(1500)]
            jobs.append((x, cmd, c.pool.submit(run, cmd, 800)))
        early = []
        for bits in (64, 32):
            for cc in ("gcc", CLANG):
                for mode, defs in (("static-pointer", ["T1HA_USE_INDIRECT_FUNCTIONS=0"]), ("static-default", []), ("shared-pointer", ["T1HA_USE_INDIRECT_FUNCTIONS=0"]), ("shared-default", []), ("archive-last", ["T1HA_USE_INDIRECT_FUNCTIONS=0"]),
                                   ("static-noselect", ["T1HA0_RUNTIME_SELECT=0"])):
                    early.append(("early-%s%d-%s" % (cc[-8:] if cc == "gcc" else "clang", bits, mode), cc, bits, mode, defs))

        def build_early(name, cc, bits, mode, defs):
            v = Variant(name, cc=cc, bits=bits, defs=defs, cflags=["-O2"] + (["-Dt1ha_EXPORTS"] if "shared" in mode else []))
            r = c.lib_objects_serial(v)
            d = c.tmp("-early"); os.makedirs(d)
            fl = [cc, "-m%d" % bits, "-O1", "-w", "-I", HARN, "-I", REPO] + ["-D" + x for x in defs]
            ref, ea, exe = d + "/ref.o", d + "/early.o", d + "/early"
            c.cc(fl + ["-c", HARN + "/ref.c", "-o", ref], "model"); c.cc(fl + (["-Dt1ha_IMPORTS"] if "shared" in mode else []) + ["-c", HARN + "/early.c", "-o", ea], "early-call program")
            if "shared" in mode:
                c.cc([cc, "-m%d" % bits, "-shared", "-o", d + "/libt1ha.so"] + r, "shared library")
                c.cc([cc, "-m%d" % bits, "-o", exe, ea, ref, "-L" + d, "-lt1ha", "-Wl,-rpath," + d, "-lm"], "linking")
            elif mode == "archive-last":
                c.cc(["ar", "rcs", d + "/libt1ha.a"] + r, "archive"); c.cc([cc, "-m%d" % bits, "-o", exe, ea, ref, d + "/libt1ha.a", "-lm"], "linking")
            else:
                c.cc([cc, "-m%d" % bits, "-o", exe, ea, ref] + r + ["-lm"], "linking")
            cmd = [exe, "seed=%d" % c.seed, "cases=300"]
            return cmd, run(cmd, 100)
        ej = [(e, c.pool.submit(build_early, *e)) for e in early]
        for e, f in ej:
            try:
                cmd, r = f.result()
            except BuildError as ex:
                if e[2] == 32 and "default" in e[3]: c.note("%s not built" % e[0]); continue
                c.violation("build", "%s does not build" % e[0], {"log": str(ex)}); continue
            m = re.search(r"EARLYSTATS (\d+) (\w+)", r.out)
            bad = re.findall(r"FAIL (.*)", r.out)
            if bad or r.rc:
                rr = run(cmd, 100)
                if rr.rc: c.violation("early", "%s: %s" % (e[0], bad[0] if bad else "the program died with status %d" % r.rc), {"build": e, "args": cmd[1:], "output": r.out + r.err})
                else: c.note("%s failed once" % e[0])
            elif m: c.add(int(m.group(1)) * 5, int(m.group(1)), e[0])
        from c_threads import preempt_exe

        def isa(v):
            exe = preempt_exe(c, v)
            r = run([exe, "isa", "seed=%d" % c.seed, "cases=%d" % c.n(700, 4000)], 800)
            if "ISASTATS" not in r.out: return r, {}, {}
            dis = run(["objdump", "-d", "--no-show-raw-insn", exe]).out
            base = min([int(x, 16) for x in re.findall(r"LOAD +off +0x0+ vaddr 0x([0-9a-f]+)", run(["objdump", "-p", exe]).out)] or [0])
            text = {int(a, 16) - base: t.split("#")[0].strip() for a, t in re.findall(r"(?m)^ +([0-9a-f]+):\t(.*)$", dis)}
            return r, {l.split()[1]: [int(x, 16) for x in l.split()[2:]] for l in r.out.splitlines() if l.startswith("ISA ")}, text
        isas = [(v, c.pool.submit(isa, v)) for v in (mac("isa-gcc64"), mac("isa-gcc32", 32), mac("isa-clang64", cc=CLANG, opt="-O2"), mac("isa-clang32", 32, cc=CLANG, opt="-O2"), mac("isa-gcc64-oneshot0", os=0, ua=0), mac("isa-gcc64-O1", opt="-O1"))]
        for v, f in isas:
            try:
                r, exe_fns, text = f.result()
            except BuildError as e:
                c.violation("build", "configuration '%s' does not build" % v.name, {"variant": v.spec(), "log": str(e)}); continue
            if not exe_fns: c.note("%s could not run: status %d %s" % (v.name, r.rc, r.err[-200:])); continue
            tot = 0
            for fn, addrs in exe_fns.items():
                bad = []
                for a in addrs:
                    t = text.get(a)
                    if not t: continue
                    w = t.split(None, 1)
                    while w and w[0] in ("rep", "repz", "repnz", "lock", "cs", "ds", "data16", "notrack", "bnd") and len(w) > 1: w = w[1].split(None, 1)
                    tot += 1
                    if fn != "t1ha0" and foreign(fn, w[0], w[1] if len(w) > 1 else ""): bad.append((a, t))
                if bad: c.violation("instructions", "%s executes '%s', which the processors it is chosen for need not have [%s]" % (fn, bad[0][1], v.name), {"variant": v.spec(), "instructions": [[hex(a), t] for a, t in bad[:20]], "args": ["isa", "seed=%d" % c.seed]})
            c.add(tot, tot, v.name, ["[%s] %d distinct executed instructions of %d functions classified" % (v.name, tot, len(exe_fns))])
        names = c.build([std64(), mac("gcc64-pointer", defs=["T1HA_USE_INDIRECT_FUNCTIONS=0"]), mac("gcc32-pointer", 32, defs=["T1HA_USE_INDIRECT_FUNCTIONS=0"]), mac("gcc64-select0", defs=["T1HA0_RUNTIME_SELECT=0"]),
                         mac("gcc64-aes0-select1", defs=["T1HA0_AESNI_AVAILABLE=0", "T1HA0_RUNTIME_SELECT=1"]), cl64(), std32()])
        from checks import spread
        spread(c, names, "value", c.n(120000), T0, grid=200)
        for x, cmd, f in jobs:
            r = f.result()
            m = re.search(r"DISPSTATS (\d+) (\d+) (\d+)", r.out)
            bad = re.findall(r"FAIL cfg=(\S+) (.*)", r.out)
            if r.timeout: c.note("%s: out of time" % x[0])
            elif bad:
                cfg, why = bad[-1]
                if all(run(cmd[:2] + ["cfg=" + cfg]).rc == 1 for _ in range(3)):
                    c.violation("dispatch", "%s: %s" % (x[0], why), {"build": x, "cfg": cfg, "meaning": "highest leaf, leaf 1 ecx, leaf 7 ebx, xcr0, noise, length, seed, order"})
                else: c.note("%s: not confirmed: %s" % (x[0], why))
            elif m:
                c.add(int(m.group(1)) * 5, int(m.group(2)), "dispatch-" + x[0], ["[%s] %s processors, %s with AES" % (x[0], m.group(1), m.group(2))])
                if int(m.group(3)): c.note("%s: %s cases in which the library executed no CPUID instruction of its own" % (x[0], m.group(3)))
            else: c.note("%s could not run: status %d %s" % (x[0], r.rc, r.err[-200:]))
        c.finish()
    CHECKS["C07"] = C07
