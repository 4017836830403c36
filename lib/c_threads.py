"""C15: calls that interrupt each other at generated instructions, and calls in threads."""
from vp import *
from variants import *


def preempt_exe(c, v, cflags=(), ld=()):
    """(in a pool task) the preempt program linked with the library as variant v builds it"""
    objs = c.lib_objects_serial(v)
    d = os.path.join(c.dir, "v_" + re.sub(r"\W", "_", v.name))
    fl = [v.cc, "-m%d" % v.bits, "-O1", "-g", "-w", "-I", HARN, "-I", REPO] + ["-D" + x for x in v.defs] + list(cflags)
    pre, ref, exe = d + "/preempt.o", d + "/ref_p.o", d + "/preempt"
    c.cc(fl + ["-c", HARN + "/preempt.c", "-o", pre], "interruption harness")
    c.cc(fl + ["-O2", "-c", HARN + "/ref.c", "-o", ref], "model")
    c.cc([v.cc, "-m%d" % v.bits, "-o", exe, pre, ref] + objs + list(v.ld) + list(ld) + ["-lm", "-lpthread"] + ["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign")], "linking (%s)" % v.name)
    return exe


def register(CHECKS):
    def C15():
        c = Check("C15", "(a) A case is a pair of generated calls (any hash function, whole streams, single updates and digests, t1ha0_resolve, self-checks; half of the pairs use the same function) with separate data: the "
                  "first is run with the processor's single-step flag set, and the second runs completely in the trap handler after every instruction (or every n-th) of the first. (b) the first calls of t1ha0 in a "
                  "process, before the constructors, interrupted after each single instruction by another t1ha0 or t1ha0_resolve call, each point in a fresh process. (c) threads of generated calls, natively and under "
                  "ThreadSanitizer. Oracle: the interrupted and every interrupting call return what they return alone (in (b) and (c) also what the model says); no data race is reported. Non-trivial: every "
                  "pair with at least one interruption inside the first call.",
                  ["ThreadSanitizer runs with one-shot reads off: reading (not using) bytes after the end of the data is no race by the library's contract", "x86 only"])
        P = ["T1HA_USE_INDIRECT_FUNCTIONS=0"]
        vs = [std64(), std32(), cl64(), mac("gcc64-unaligned0", ua=0), mac("gcc64-oneshot0", os=0), mac("gcc64-unaligned0-oneshot0", ua=0, os=0), mac("gcc32-unaligned0", 32, ua=0), mac("gcc64-pointer", defs=P),
              mac("gcc32-pointer", 32, defs=P), mac("gcc64-O0", opt="-O0"), cl32(), mac("clang64-pointer", cc=CLANG, opt="-O1", defs=P)]
        firsts = [mac("gcc64-first", defs=P), mac("gcc32-first", 32, defs=P), mac("clang64-first", cc=CLANG, opt="-O2", defs=P), mac("gcc64-first-O0", opt="-O0", defs=P), mac("clang32-first", 32, cc=CLANG, opt="-O2", defs=P)]
        ts = [mac("tsan-gcc64", os=0, cflags=["-O1", "-g", "-fsanitize=thread"], ld=["-fsanitize=thread"], defs=P), mac("tsan-clang64", cc=CLANG, os=0, ua=0, cflags=["-O1", "-g", "-fsanitize=thread"], ld=["-fsanitize=thread"], defs=P)]
        todo = []
        for v in vs:
            todo.append((v, "step", c.n(5000), c.pool.submit(preempt_exe, c, v)))
        for v in firsts:
            todo.append((v, "first", c.n(6, 60), c.pool.submit(preempt_exe, c, v)))
        for v in ts:
            todo.append((v, "thread", c.n(60000), c.pool.submit(preempt_exe, c, v, ["-fsanitize=thread"])))
        built = []
        for v, mode, n, f in todo:
            try:
                built.append((v, mode, n, f.result()))
            except BuildError as e:
                if mode == "thread": c.note("%s not built: %s" % (v.name, str(e)[-300:]))
                else: c.violation("build", "configuration '%s' does not build" % v.name, {"variant": v.spec(), "log": str(e)})
        runs = []
        env = dict(os.environ, TSAN_OPTIONS="exitcode=66 halt_on_error=0 report_thread_leaks=0", LC_ALL="C")

        def go(v, mode, n, exe, part):
            cmd = [exe, mode, "seed=%d" % (c.seed * 1009 + part * 101 + len(v.name)), "cases=%d" % n]
            return cmd, run(cmd, 900 if not c.thorough else 3600, env=env)
        for v, mode, n, exe in built:
            for part in range(1 if not c.thorough or mode != "step" else 4):
                runs.append((v, mode, c.pool.submit(go, v, mode, n, exe, part)))
        for v, mode, n, exe in built:
            if mode == "step" and v.name in ("gcc64", "gcc32", "gcc64-unaligned0", "clang64"):
                runs.append((v, "thread", c.pool.submit(go, v, "thread", c.n(300000), exe, 50)))
        for v, mode, n, exe in built:
            if v.name == "clang32" and mode == "step":
                r = run([exe, "step", "seed=1", "cases=400", "window=2"], 300)
                if r.rc == 1 and "t1ha0_resolve" in r.out:
                    c.known_finding("clang32-id-flag-window", "clang -m32: t1ha0_resolve() interrupted between the popf and pushf of clang's __get_cpuid_max (EFLAGS.ID test) by a handler that calls t1ha0_resolve() too misses AES-NI")
        for v, mode, f in runs:
            cmd, r = f.result()
            m = re.search(r"(?:STEP|FIRST|THREAD)STATS (\d+)(?: (\d+))?", r.out)
            bad = re.findall(r"FAIL case=(\S+) at=(\S+) (.*)", r.out)
            race = "WARNING: ThreadSanitizer" in r.err
            label = "%s/%s" % (v.name, mode)
            if r.timeout: c.note("%s: out of time" % label)
            elif bad and len(c.violations) >= 3: c.note("%s: fails too: %s" % (label, bad[0][2]))
            elif bad:
                case, at, why = bad[0]
                again = cmd if mode == "thread" else cmd + ["case=" + case, "at=" + at]
                if all(run(again, 900, env=env).rc == 1 for _ in range(1 if "no progress" in why or "no end" in why else 2)) or (mode == "thread"):
                    c.violation("interruption" if mode != "thread" else "threads", "%s [%s]" % (why, label), {"variant": v.spec(), "args": again[1:]})
                else: c.note("%s: not confirmed: %s" % (label, why))
            elif race:
                rep = r.err[r.err.index("WARNING: ThreadSanitizer"):][:3500]
                if ".c:" in rep and "/src/t1ha" in rep: c.violation("race", "ThreadSanitizer reports a race in the library [%s]" % label, {"variant": v.spec(), "args": cmd[1:], "report": rep})
                else: c.note("%s: sanitizer report without a library frame: %s" % (label, rep[:400]))
            elif m:
                k = int(m.group(1))
                c.add(int(m.group(2) or k), k, label, ["[%s] %d cases%s" % (label, k, ", %s interruption points" % m.group(2) if m.group(2) else "")])
            elif v.name.startswith("tsan"): c.note("%s could not run here: %s" % (label, r.err[-300:]))
            else:
                r2 = run(cmd, 900, env=env)
                if r2.rc == r.rc and r.rc not in (0, 3): c.violation("crash", "the process dies with status %d [%s]" % (r.rc, label), {"variant": v.spec(), "args": cmd[1:], "stderr": r.err[-800:]})
                else: c.note("%s could not run: status %d %s" % (label, r.rc, r.err[-200:]))
        c.finish()
    CHECKS["C15"] = C15
