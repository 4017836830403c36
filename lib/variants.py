import itertools, random
from vp import *
from emu import emu

UA, OS = "T1HA_SYS_UNALIGNED_ACCESS=%d", "T1HA_USE_FAST_ONESHOT_READ=%d"


def std64(): return Variant("gcc64")
def std32(): return Variant("gcc32", bits=32)
def cl64(opt="-O2"): return Variant("clang64", cc=CLANG, cflags=[opt])
def cl32(opt="-O2"): return Variant("clang32", cc=CLANG, bits=32, cflags=[opt])


def mac(name, bits=64, ua=None, os=None, cc="gcc", opt=None, **kw):
    d = []
    if ua is not None: d.append(UA % ua)
    if os is not None: d.append(OS % os)
    d += kw.pop("defs", [])
    return Variant(name, cc=cc, bits=bits, defs=d, cflags=([opt] if opt else []) + kw.pop("cflags", []), **kw)


def gen(name, bits=64, ua=None, os=None, cc="gcc", no128=True, **kw):
    """built as for an unknown architecture"""
    return mac(name, bits, ua, os, cc, include="generic.h", defs=(["GENERIC_NO_INT128"] if no128 else []) + kw.pop("defs", []), **kw)


def llp64(name, ua=None, os=None, opt="-O2", defs=()):
    """a 64-bit target on which long has 32 bits"""
    return mac(name, 64, ua, os, CLANG, opt, target="llp64", defs=["T1HA_USE_INDIRECT_FUNCTIONS=0"] + list(defs))


def tails():
    """native builds covering every reader of the last bytes"""
    return [std64(), std32(), mac("gcc64-unaligned0", ua=0), mac("gcc32-unaligned0", 32, ua=0), mac("gcc64-unaligned1-oneshot0", ua=1, os=0),
            mac("gcc64-unaligned0-oneshot0", ua=0, os=0), mac("gcc32-unaligned2-oneshot0", 32, ua=2, os=0), mac("gcc32-unaligned0-oneshot0", 32, ua=0, os=0),
            gen("generic64-unaligned2", ua=2), gen("generic32-unaligned1", 32, ua=1), gen("generic64-unaligned0-oneshot0", ua=0, os=0, cc=CLANG),
            cl64()]


def emus(full=False):
    """cross-compiled builds run by the emulator"""
    out = [emu("mips-be32", "be32"), emu("mips-be64", "be64"), emu("mips-le64-unaligned2", "le64", 2), emu("mips-be64-unaligned2-oneshot0", "be64", 2, 0)]
    if full:
        out += [emu("mips-le32", "le32"), emu("mips-le64", "le64")]
        for t in ("be32", "le32", "be64", "le64"):
            for ua in (0, 1, 2):
                for os_ in (0, 1):
                    if (t, ua, os_) != ("be64", 2, 0):
                        out.append(emu("mips-%s-unaligned%d-oneshot%d" % (t, ua, os_), t, ua, os_))
    return out


def debugs():
    """unoptimised builds and builds with the library's assertions on: on valid input none may fire"""
    A = ["-UNDEBUG"]
    return [mac("gcc64-O0-assert", opt="-O0", cflags=A), mac("clang64-O0", cc=CLANG, opt="-O0"), mac("gcc32-O0-unaligned0-assert", 32, ua=0, opt="-O0", cflags=A),
            mac("gcc64-unaligned1-oneshot0-assert", ua=1, os=0, opt="-O1", cflags=A), mac("clang32-assert", 32, cc=CLANG, opt="-O1", cflags=A), gen("generic64-unaligned0-assert", ua=0, opt="-O1", cflags=A),
            emu("mips-be64-oneshot0-assert", "be64", None, 0, "-O1", cflags=A), emu("mips-le32-assert", "le32", None, None, "-O1", cflags=A)]


# ---------------------------------------------------------------- configuration space
AXES = {
    "arch": ["gcc64", "gcc32", "clang64", "clang32", "generic64", "generic32", "be64", "be32", "le64", "le32"],
    "T1HA_SYS_UNALIGNED_ACCESS": [None, 0, 1, 2],
    "T1HA_USE_FAST_ONESHOT_READ": [None, 0, 1],
    "T1HA0_RUNTIME_SELECT": [None, 0, 1],
    "T1HA_USE_INDIRECT_FUNCTIONS": [None, 0, 1],
    "T1HA0_AESNI_AVAILABLE": [None, 0, 1],
    "T1HA0_USE_DEFINE": [None, 0, 1],
    "off": [0, 1, 2, 3, 4, 5, 6, 7],  # disabled families, bit i: t1ha<i>
    "opt": ["-O0", "-O1", "-O2", "-O3", "-Os"],
    "assert": [0, 1],
}
NAMES = list(AXES)
EMU_ARCH = ("be64", "be32", "le64", "le32")
# the toolchain cannot express these (no indirect functions for the target or in 32-bit position-independent programs)


def valid(cfg):
    a = cfg["arch"]
    if a in EMU_ARCH or a.startswith("generic"):
        if cfg["T1HA0_AESNI_AVAILABLE"] == 1: return False  # there is no AES-NI on these
    if cfg["T1HA_USE_INDIRECT_FUNCTIONS"] != 0 and a in EMU_ARCH and cfg["T1HA0_RUNTIME_SELECT"] == 1: return False  # MIPS has no indirect functions
    if cfg["T1HA_USE_INDIRECT_FUNCTIONS"] == 1 and a.endswith("32"): return False  # PIE with a text relocation against an indirect function
    return True


def config_variant(cfg, i=0):
    a = cfg["arch"]
    defs = ["%s=%d" % (k, cfg[k]) for k in NAMES if k.startswith("T1HA") and cfg[k] is not None]
    defs += ["T1HA%d_DISABLED" % k for k in range(3) if cfg["off"] >> k & 1]
    A = ["-UNDEBUG"] if cfg["assert"] else []
    name = "%s%s%s %s" % (a, cfg["opt"], " assert" if A else "", " ".join(x.replace("T1HA_", "").replace("T1HA0_", "t0_") for x in defs))
    if a in EMU_ARCH:
        return emu(name.strip(), a, None, None, cfg["opt"], defs, A)
    bits = 32 if a.endswith("32") else 64
    kw = dict(include="generic.h") if a.startswith("generic") else {}
    if a.startswith("generic"):
        defs.append("GENERIC_NO_INT128")
        kw["hdefs"] = []
    return Variant(name.strip(), cc=CLANG if a.startswith("clang") else "gcc", bits=bits, cflags=[cfg["opt"]] + A, defs=defs, **kw)


def covering(seed, axes, strength=2, extra=0, fixed=None, force=()):
    """a random covering array over the named axes (every valid pair/triple of values occurs), then `extra` uniform configurations"""
    r = random.Random(seed)
    base = {n: AXES[n][0] for n in NAMES}
    base["opt"] = "-O2"
    base.update(fixed or {})
    axes = [a for a in NAMES if a in axes]
    todo = set()
    combos = [c for c in itertools.combinations(axes, strength)]
    combos += [tuple(a for a in NAMES if a in f) for f in force]
    for c in combos:
        for vals in itertools.product(*[AXES[a] for a in c]):
            t = dict(base); t.update(zip(c, vals))
            if valid(t): todo.add((c, vals))
    out = []

    def rnd_cfg():
        while True:
            t = dict(base)
            for a in axes: t[a] = r.choice(AXES[a])
            if valid(t): return t
    tuples = sorted(todo, key=repr)
    while todo:
        best, bs = None, -1
        need = r.choice([x for x in tuples if x in todo])
        for _ in range(40):
            t = rnd_cfg()
            t.update(zip(*need))
            if not valid(t):
                continue
            sc = sum(1 for c in set(combos) if (c, tuple(t[a] for a in c)) in todo)
            if sc > bs: best, bs = t, sc
        if best is None:
            t = dict(base); t.update(zip(*need)); best = t
        out.append(best)
        for c in set(combos): todo.discard((c, tuple(best[a] for a in c)))
    for _ in range(extra): out.append(rnd_cfg())
    seen, res = set(), []
    for t in out:
        k = tuple(sorted(t.items(), key=lambda kv: kv[0]))
        if repr(k) not in seen: seen.add(repr(k)); res.append(t)
    return res
