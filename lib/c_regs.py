"""C23: what a call leaves of the caller's machine state."""
from vp import *
from variants import *


def regs_exe(c, v):
    """(in a pool task) the register harness linked with the library as variant v builds it"""
    objs = c.lib_objects_serial(v)
    d = os.path.join(c.dir, "v_" + re.sub(r"\W", "_", v.name))
    fl = ["gcc", "-m%d" % v.bits, "-O1", "-g", "-w", "-fno-pie", "-I", HARN, "-I", REPO] + ["-D" + x for x in v.defs]
    reg, ref, exe = d + "/regs.o", d + "/ref_r.o", d + "/regs"
    c.cc(fl + ["-c", HARN + "/regs.c", "-o", reg], "register harness")
    c.cc(fl + ["-c", HARN + "/ref.c", "-o", ref], "model")
    c.cc(["gcc", "-m%d" % v.bits, "-no-pie", "-o", exe, reg, ref] + objs + list(v.ld) + ["-lm"], "linking (%s)" % v.name)
    return exe


def register(CHECKS):
    def C23():
        c = Check("C23", "A case is one call of a generated public function (any hash, streaming call, t1ha0_resolve, self-check) with generated data, made twice: in the usual machine state and in a generated one (rounding "
                  "mode, precision, flush-to-zero, unmasked floating-point exceptions, arbitrary values in the callee-saved and vector registers, upper halves in use or not, errno). Oracle: callee-saved registers, "
                  "stack pointer, direction and alignment-check flags, x87/MMX tags, both control words and errno are as before; with the upper AVX halves clean before, they are clean after; no exception is "
                  "raised; the second call returns what the first returned. Non-trivial: every call in a generated state.",
                  ["x86 (the calling convention of the psABI) only", "floating-point status flags may be left set"])
        P = ["T1HA_USE_INDIRECT_FUNCTIONS=0"]
        vs = [std64(), std32(), cl64(), cl32(), mac("gcc64-unaligned0", ua=0), mac("gcc32-unaligned0", 32, ua=0), mac("gcc64-oneshot0", os=0), mac("gcc64-pointer", defs=P), mac("gcc32-pointer", 32, defs=P),
              mac("gcc64-O0", opt="-O0"), mac("gcc32-O0", 32, opt="-O0"), mac("gcc64-O1", opt="-O1"), mac("gcc32-O3", 32, opt="-O3"), mac("clang64-O0", cc=CLANG, opt="-O0"), mac("gcc32-oneshot0", 32, os=0),
              mac("gcc32-Os", 32, opt="-Os"), mac("gcc32-define", 32, defs=P + ["T1HA0_RUNTIME_SELECT=0"]), mac("gcc64-define", defs=P + ["T1HA0_RUNTIME_SELECT=0"])]
        todo = [(v, c.pool.submit(regs_exe, c, v)) for v in vs]
        runs = []
        for v, f in todo:
            try: exe = f.result()
            except BuildError as e:
                c.violation("build", "configuration '%s' does not build" % v.name, {"variant": v.spec(), "log": str(e)})
                continue
            for part in range(4 if c.thorough else 1):
                cmd = [exe, "seed=%d" % (c.seed * 1013 + part * 107 + len(v.name)), "cases=%d" % c.n(1500000)]
                runs.append((v, cmd, c.pool.submit(run, cmd, 900 if not c.thorough else 3600)))
        for v, cmd, f in runs:
            r = f.result()
            m = re.search(r"REGSTATS (\d+) (\d)", r.out)
            bad = re.findall(r"FAIL case=(\S+) (.*)", r.out)
            if r.timeout: c.note("%s: out of time" % v.name)
            elif bad:
                case, why = bad[0]
                again = cmd + ["case=" + case]
                if len(c.violations) >= 3: c.note("%s: fails too: %s" % (v.name, why))
                elif all(run(again, 300).rc == 1 for _ in range(2)): c.violation("state", "%s [%s]" % (why, v.name), {"variant": v.spec(), "args": again[1:]})
                elif run(cmd, 900).out == r.out: c.violation("state", "%s [%s]" % (why, v.name), {"variant": v.spec(), "args": cmd[1:]})
                else: c.note("%s: not confirmed: %s" % (v.name, why))
            elif m:
                k = int(m.group(1))
                c.add(2 * k, k, v.name, ["[%s] %d calls in generated machine states%s" % (v.name, k, "" if m.group(2) == "1" else ", use of the upper halves not observable on this CPU")])
            else:
                r2 = run(cmd, 900)
                if r2.rc == r.rc and r.rc not in (0, 3): c.violation("crash", "the process dies with status %d [%s]" % (r.rc, v.name), {"variant": v.spec(), "args": cmd[1:], "stderr": r.err[-800:]})
                else: c.note("%s could not run: status %d %s" % (v.name, r.rc, r.err[-200:]))
        c.finish()
    CHECKS["C23"] = C23
