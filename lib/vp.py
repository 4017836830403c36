"""Infrastructure of the checks: builds variants of /repo's current sources into a
scratch directory, runs generated-input campaigns in parallel, confirms failures by
replay, writes replay files and evidence."""
import atexit, concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
CLANG = "/usr/bin/clang-18" if os.path.exists("/usr/bin/clang-18") else "clang"
CLANGXX = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
JOBS = max(2, min(16, os.cpu_count() or 4))
FN = ["t1ha1_le", "t1ha1_be", "t1ha2_atonce", "t1ha2_atonce128", "t1ha2_stream", "t1ha2_stream128", "t1ha0_32le", "t1ha0_32be",
      "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2", "t1ha0"]
M = {n: 1 << i for i, n in enumerate(FN)}
ALL = (1 << len(FN)) - 1
T1 = M["t1ha1_le"] | M["t1ha1_be"]
T2 = M["t1ha2_atonce"] | M["t1ha2_atonce128"]
STREAM = M["t1ha2_stream"] | M["t1ha2_stream128"]
T0P = M["t1ha0_32le"] | M["t1ha0_32be"]
AES = M["t1ha0_ia32aes_noavx"] | M["t1ha0_ia32aes_avx"] | M["t1ha0_ia32aes_avx2"]
T0 = M["t1ha0"]
STABLE = ALL & ~T0

BASE = ["-O3", "-DNDEBUG", "-std=c11", "-D_DEFAULT_SOURCE", "-fno-stack-protector", "-w", "-ffunction-sections", "-fPIC"]


def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


CPU = cpu_flags()


def sources():
    """the library's own C sources: what the Makefile builds from src/ (all of src/*.c if it names none)"""
    have = sorted(os.path.basename(p) for p in glob.glob(REPO + "/src/*.c"))
    try:
        named = set(re.findall(r"src/([\w.-]+\.c)\b", open(REPO + "/Makefile", errors="replace").read()))
    except OSError:
        named = set()
    use = [f for f in have if f in named]
    return use or have


def aes_flags(name):
    """the instruction-set flags the Makefile gives to the AES variants"""
    if "aes" not in name:
        return []
    if "noavx" in name:
        return ["-mno-avx2", "-mno-avx", "-maes"]
    if "avx2" in name:
        return ["-mavx2", "-mavx", "-maes"]
    return ["-mno-avx2", "-mavx", "-maes"] if "avx" in name else ["-maes"]


class Variant:
    def __init__(self, name, cc="gcc", bits=64, cflags=(), defs=(), include=None, base=None, kind="native", ld=(), srcs=None, hdefs=(), target=None, monitor=False):
        self.name, self.cc, self.bits, self.kind, self.target, self.monitor = name, cc, bits, kind, target, monitor
        self.base = list(BASE if base is None else base)
        self.cflags, self.defs, self.include, self.ld, self.srcs, self.hdefs = list(cflags), list(defs), include, list(ld), srcs, list(hdefs)

    def spec(self):
        return dict(self.__dict__)

    @staticmethod
    def from_spec(d):
        v = Variant(d["name"])
        v.__dict__.update(d)
        return v


class Proc:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


_children = set()
_lock = threading.Lock()


def run(cmd, timeout=600, cwd=None, env=None, inp=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         cwd=cwd, env=env, start_new_session=True)
    with _lock:
        _children.add(p)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return Proc(p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return Proc(-999, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), True)
    finally:
        with _lock:
            _children.discard(p)


def _cleanup():
    for p in list(_children):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


def hide_cpuid(path):
    """makes every CPUID and XGETBV instruction of a linked library (its own and those of the compiler's run-time linked into it) an invalid one, which the harness then answers"""
    secs = [(int(a, 16), int(o, 16), int(n, 16)) for n, a, o in re.findall(r"(?m)^ *\d+ \S+ +([0-9a-f]+) +([0-9a-f]+) +[0-9a-f]+ +([0-9a-f]+) +2\*\*", run(["objdump", "-h", path]).out)]
    b, n = bytearray(open(path, "rb").read()), 0
    for addr, mn in re.findall(r"(?m)^ *([0-9a-f]+):\t *(cpuid|xgetbv)\b", run(["objdump", "-d", "--no-show-raw-insn", path]).out):
        x = int(addr, 16)
        for a, o, sz in secs:
            if a <= x < a + sz:
                f = o + x - a
                if mn == "cpuid" and b[f:f + 2] == b"\x0f\xa2": b[f + 1] = 0x0b; n += 1
                if mn == "xgetbv" and b[f:f + 3] == b"\x0f\x01\xd0": b[f + 1] = 0xff; n += 1
                break
    open(path, "wb").write(b)
    return n


class BuildError(Exception):
    pass


class Check:
    """one run of one property's check"""

    def __init__(self, prop, rule, assumptions=(), level="exploration"):
        self.prop, self.rule, self.assumptions, self.level = prop, rule, list(assumptions), level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir=os.environ.get("VP_TMP", "/tmp"))
        atexit.register(self._rm)
        atexit.register(_cleanup)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: (_cleanup(), self._rm(), os._exit(2)))
        self.outdir = os.path.join(VERIF, "out", prop)
        os.makedirs(self.outdir, exist_ok=True)
        for f in glob.glob(self.outdir + "/*"):
            try:
                os.remove(f)
            except OSError:
                pass
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.exes, self.vars = {}, {}
        self.eval = self.nontrivial = 0
        self.classes, self.samples, self.violations, self.notes, self.known = {}, [], [], [], []
        self.unlisted = []
        self.per = {}
        self.mul = 1.0 if not self.thorough else float(os.environ.get("VP_THOROUGH_FACTOR", "12"))
        self._tmpn = 0
        self._harn = {}
        self.dictfile = None

    def _rm(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def n(self, quick, thorough=None):
        """a case count for this tier"""
        return int(thorough if (self.thorough and thorough is not None) else quick * self.mul)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)
        print("note: " + s, flush=True)

    def tmp(self, suffix=""):
        with _lock:
            self._tmpn += 1
            return os.path.join(self.dir, "t%d%s" % (self._tmpn, suffix))

    # ------------------------------------------------------------- building
    def cc(self, cmd, what):
        r = run(cmd, 300)
        if r.rc:
            raise BuildError("%s: %s\n%s" % (what, " ".join(cmd), (r.err or r.out)[-3000:]))

    def _lib_cmds(self, v, d):
        if v.target == "llp64":
            return self._llp64_cmds(v, d)
        cmds, objs = [], []
        m = [] if v.target else ["-m%d" % v.bits]
        inc = ["-include", os.path.join(HARN, v.include)] if v.include else []
        for f in (v.srcs or sources()):
            o = os.path.join(d, f[:-2] + ".o")
            x = [] if ("-U__x86__" in v.cflags or v.target) else aes_flags(f)
            cmds.append([v.cc] + m + v.base + inc + v.cflags + ["-D" + x_ for x_ in v.defs] + x + ["-c", os.path.join(REPO, "src", f), "-o", o])
            objs.append(o)
        return cmds, objs

    def _llp64_cmds(self, v, d):
        """a 64-bit target whose long has 32 bits: Windows conventions in ELF objects, behind harness/win/shim.c"""
        cmds, objs = [], []
        D = ["-D" + x for x in v.defs]
        win = [v.cc, "-target", "x86_64-pc-windows-gnu-elf", "-nostdlibinc", "-isystem", HARN + "/win", "-isystem", HARN + "/guest/include", "-std=c11", "-w", "-DNDEBUG"]
        q = lambda l: " ".join("'%s'" % x for x in l)
        for f in (v.srcs or sources()):
            o = os.path.join(d, f[:-2] + ".o")
            cmds.append(["sh", "-c", "%s && objcopy --prefix-symbols=ll_ '%s'" % (q(win + v.cflags + D + aes_flags(f) + ["-c", os.path.join(REPO, "src", f), "-o", o]), o)])
            objs.append(o)
        o = os.path.join(d, "shim.o")
        cmds.append(["gcc", "-O1", "-w", "-I", REPO] + D + ["-c", HARN + "/win/shim.c", "-o", o])
        return cmds, objs + [o]

    def lib_objects(self, variants, pic_check=False):
        """compile the library for several variants at once -> {name: [objects] or BuildError}"""
        tasks, res = [], {}
        for v in variants:
            d = os.path.join(self.dir, "v_" + re.sub(r"\W", "_", v.name))
            os.makedirs(d, exist_ok=True)
            cmds, objs = self._lib_cmds(v, d)
            res[v.name] = objs
            for c in cmds:
                tasks.append((v, self.pool.submit(self.cc, c, "compiling the library (%s)" % v.name)))
        for v, t in tasks:
            try:
                t.result()
            except BuildError as e:
                if not isinstance(res[v.name], BuildError):
                    res[v.name] = e
        return res

    def lib_objects_serial(self, v):
        """the same for one variant, inside a pool task"""
        d = os.path.join(self.dir, "v_" + re.sub(r"\W", "_", v.name))
        os.makedirs(d, exist_ok=True)
        cmds, objs = self._lib_cmds(v, d)
        for x in cmds:
            self.cc(x, "compiling the library (%s)" % v.name)
        return objs

    def harness_obj(self, name, bits=64, opt="-O2", extra=(), cc="gcc"):
        key = (name, bits, opt, tuple(extra), cc)
        with _lock:
            f = self._harn.get(key)
            if f is None:
                o = os.path.join(self.dir, "h%d_%s.o" % (len(self._harn), name.replace(".", "_")))
                cmd = [cc, "-m%d" % bits, opt, "-g", "-w", "-I", HARN, "-I", REPO] + list(extra) + ["-c", os.path.join(HARN, name), "-o", o]
                f = self._harn[key] = self.pool.submit(lambda: (self.cc(cmd, "harness"), o)[1])
        return f

    def build(self, variants, strict=True):
        """build the engine for each variant. With strict a variant that does not build is a violation;
        otherwise it is noted and left out. Returns the names that were built."""
        variants = [v for v in variants if v.name not in self.exes]
        for v in variants:
            self.vars[v.name] = v
            if v.kind == "emu":
                continue
            self.harness_obj("engine.c", v.bits)
            self.harness_obj("ref.c", v.bits, "-O3")
        emu = [v for v in variants if v.kind == "emu"]
        nat = [v for v in variants if v.kind != "emu"]
        libs = self.lib_objects(nat)
        links = []
        for v in nat:
            if isinstance(libs[v.name], BuildError):
                links.append((v, None))
                continue
            links.append((v, self.pool.submit(self._link_native, v, libs[v.name])))
        if emu:
            import emu as E
            for v in emu:
                links.append((v, self.pool.submit(E.build, self, v)))
        ok = []
        for v, t in links:
            try:
                if t is None:
                    raise libs[v.name]
                self.exes[v.name] = t.result()
                ok.append(v.name)
            except BuildError as e:
                if strict:
                    self.violation("build", "configuration '%s' does not build" % v.name, {"variant": v.spec(), "log": str(e)}, confirmed=True)
                else:
                    self.note("variant '%s' could not be built and was left out: %s" % (v.name, str(e)[-400:].replace("\n", " | ")))
        return ok

    def _link_native(self, v, objs):
        d = os.path.join(self.dir, "v_" + re.sub(r"\W", "_", v.name))
        be = os.path.join(d, "be_native.o")
        inc = ["-include", os.path.join(HARN, v.include)] if v.include else []
        eng, ref = self.harness_obj("engine.c", v.bits), self.harness_obj("ref.c", v.bits, "-O3")
        self.cc([v.cc if v.include else "gcc", "-m%d" % v.bits, "-O1", "-g", "-w", "-I", HARN, "-I", REPO] + inc + ["-D" + x for x in v.defs + v.hdefs if not x.startswith("mem")] + (["-DMONITOR", "-U__SANITIZE_ADDRESS__"] if v.monitor else []) +
                ['-DVARIANT="%s"' % v.name, "-c", os.path.join(HARN, "be_native.c"), "-o", be], "harness backend (%s)" % v.name)
        exe = os.path.join(d, "eng")
        extra = []
        if v.monitor:
            extra = [os.path.join(d, "asan_rt.o")]
            self.cc(["gcc", "-m%d" % v.bits, "-O2", "-w", "-I", HARN, "-c", HARN + "/asan_rt.c", "-o", extra[0]], "access monitor")
        # engine and reference objects are waited for by whoever submitted them; they never depend on this task
        while not (eng.done() and ref.done()):
            time.sleep(0.01)
        self.cc([v.cc, "-m%d" % v.bits, "-o", exe, eng.result(), be, ref.result()] + extra + list(objs) + v.ld + ["-lm"], "linking (%s)" % v.name)
        return exe

    def mine_dict(self):
        """words a generator should try: integer literals of the sources and immediates of the default build"""
        if self.dictfile:
            return self.dictfile
        words = set()
        for f in glob.glob(REPO + "/src/*.[ch]") + [REPO + "/t1ha.h"]:
            if "selfcheck" in f:
                continue
            try:
                txt = open(f, errors="replace").read()
            except OSError:
                continue
            txt = re.sub(r"/\*.*?\*/", " ", txt, flags=re.S)
            for m in re.finditer(r"\b0[xX]([0-9a-fA-F']+)", txt):
                words.add(int(m.group(1).replace("'", ""), 16) & (2**64 - 1))
            for m in re.finditer(r"(?<![\w.])([1-9][0-9]*)(?![\w.])|(?<![\w.])([1-9][0-9]*)(?=[uUlL]+\b)", txt):
                words.add(int(m.group(1) or m.group(2)) & (2**64 - 1))
        try:
            d = os.path.join(self.dir, "dict")
            os.makedirs(d, exist_ok=True)
            v = Variant("default-for-dictionary")
            objs = self.lib_objects([v])[v.name]
            if not isinstance(objs, BuildError):
                for o in objs:
                    if "selfcheck" in o:
                        continue
                    for m in re.finditer(r"\$0x([0-9a-f]+)", run(["objdump", "-d", "--no-show-raw-insn", o]).out):
                        w = int(m.group(1), 16)
                        if w > 15:
                            words.add(w)
        except (OSError, BuildError):
            pass
        words = sorted(words)[:4000]
        self.dictfile = os.path.join(self.dir, "words.txt")
        with open(self.dictfile, "w") as f:
            f.write("\n".join("%x" % w for w in words))
        return self.dictfile

    # -------------------------------------------------------------- running
    def engine(self, jobs, timeout=None, minimum=1):
        """jobs: (variant, mode, {args}) -> runs them all, confirms failures, accumulates statistics"""
        timeout = timeout or (600 if not self.thorough else 3600)
        d = self.mine_dict()
        futs = []
        for i, (vn, mode, a) in enumerate(jobs):
            if vn not in self.exes:
                continue
            exe = self.exes[vn]
            args = dict(seed=(self.seed * 1000003 + i * 7919 + 17) & 0x7fffffffffff, prop=self.prop, out=self.outdir, variant=re.sub(r"\W", "_", vn), dict=d)
            args.update(a)
            cmd = (exe if isinstance(exe, list) else [exe])[:1] + [mode] + ["%s=%s" % kv for kv in args.items()] + (exe[1:] if isinstance(exe, list) else [])
            futs.append((vn, mode, cmd, self.pool.submit(run, cmd, timeout)))
        for vn, mode, cmd, f in futs:
            self._collect(vn, mode, cmd, f.result())

    def _collect(self, vn, mode, cmd, r):
        st = None
        for l in r.out.splitlines():
            if l.startswith("STATS "):
                try:
                    st = json.loads(l[6:])
                except ValueError:
                    pass
        if st:
            self.eval += st["eval"]
            self.nontrivial += st["nontrivial"]
            p = self.per.setdefault(vn + "/" + mode, {"evaluations": 0})
            p["evaluations"] += st["eval"]
            for k, c in st["classes"].items():
                self.classes[k] = self.classes.get(k, 0) + c
            for s in st["samples"]:
                if len(self.samples) < 14 and not any(x.startswith("[%s/%s]" % (vn, mode)) for x in self.samples):
                    self.samples.append("[%s/%s] %s" % (vn, mode, s))
        for l in r.out.splitlines():
            if l.startswith("KNOWN "): self.known_finding(*l[6:].split(" ", 1))
        fails = [l[5:].split(" ", 1) for l in r.out.splitlines() if l.startswith("FAIL ")]
        if r.timeout:
            self.note("%s/%s hit its time budget: inconclusive" % (vn, mode))
            return
        if r.rc == 0 and not fails:
            if not st:
                raise SystemExit("engine gave no statistics: " + " ".join(cmd) + "\n" + r.err[-2000:])
            return
        v = self.vars[vn].spec()
        if r.rc not in (0, 1) and not fails:
            if r.rc == 3:
                raise SystemExit("engine could not run: " + " ".join(cmd) + "\n" + r.err[-2000:])
            # the process died: reproduce before believing it
            r2 = run(cmd, 900)
            if r2.rc == r.rc:
                self.violation("crash", "the process died with status %d during %s on %s" % (r.rc, mode, vn), {"variant": v, "cmd": cmd[1:], "stderr": r.err[-800:]}, confirmed=True)
            else:
                self.note("%s/%s died once (status %d) and not again" % (vn, mode, r.rc))
            return
        for path, why in fails[:2]:
            ok = all(run([cmd[0], "replay", "file=" + path] + [c for c in cmd[2:] if c.startswith(("guest=", "dict=", "lax="))], 300).rc == 1 for _ in range(3))
            if not ok:
                r2 = run(cmd, 900)
                ok = any(l.startswith("FAIL ") for l in r2.out.splitlines())
                why += " (depends on the history of the run: replay by the whole campaign)"
            if ok:
                self.violation("case", "%s [%s]" % (why, vn), {"variant": v, "cmd": cmd[1:]}, confirmed=True, path=path)
            else:
                self.note("unconfirmed failure dropped: %s on %s" % (why, vn))

    # ------------------------------------------------------------ reporting
    def violation(self, kind, why, info, confirmed=True, path=None):
        if path is None:
            path = os.path.join(self.outdir, "violation-%d.json" % len(self.violations))
            with open(path, "w") as f:
                json.dump(dict(kind=kind, property=self.prop, why=why, **info), f, indent=1)
        else:
            with open(path, "a") as f:
                f.write("why %s\n" % why)
                f.write("variant %s\n" % json.dumps(info.get("variant")))
                f.write("campaign %s\n" % json.dumps(info.get("cmd")))
        self.violations.append((path, why))
        print("failure: %s" % why, flush=True)

    def add(self, evaluations, nontrivial, label=None, samples=()):
        self.eval += evaluations
        self.nontrivial += nontrivial
        if label:
            self.per.setdefault(label, {"evaluations": 0})["evaluations"] += evaluations
        for s in samples:
            if len(self.samples) < 16:
                self.samples.append(s)

    def known_finding(self, key, why, info=None):
        """a failure that is identified by `key`: listed in known-findings.txt -> reported as known, otherwise a violation"""
        try:
            listed = [l for l in open(os.path.join(VERIF, "known-findings.txt")) if l.startswith("known: property=%s key=%s " % (self.prop, key))]
        except OSError:
            listed = []
        if listed:
            if "%s: %s" % (key, why) not in self.known: self.known.append("%s: %s" % (key, why))
        elif not any(key == k for k in self.unlisted):
            self.unlisted.append(key)
            self.violation("finding", why, dict(info or {}, key=key))

    def finish(self):
        cov = {"evaluations": self.eval, "distinct_nontrivial": self.nontrivial, "rule": self.rule, "samples": self.samples[:16], "classes": self.classes,
               "per_variant": self.per}
        if self.notes:
            cov["notes"] = self.notes
        if self.known:
            cov["known_findings"] = self.known
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        print("%s %s: %d evaluations, %d distinct non-trivial, %.1f s" % (self.prop, self.tier, self.eval, self.nontrivial, ev["wall_s"]))
        if not self.violations and (self.eval == 0 or self.nontrivial == 0):
            print("nothing was explored", file=sys.stderr)
            sys.stdout.flush()
            self._rm()
            os._exit(2)
        for p, why in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        sys.stdout.flush()
        _cleanup()
        self._rm()
        os._exit(1 if self.violations else 0)
