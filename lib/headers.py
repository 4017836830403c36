"""C20: the header alone, in generated dialects, configurations and surroundings."""
import random
from vp import *

C_STD = ["c89", "c90", "iso9899:199409", "gnu89", "c99", "gnu99", "c11", "gnu11", "c17", "gnu17", "c2x", "gnu2x"]
CXX_STD = ["c++98", "c++03", "gnu++98", "c++11", "gnu++11", "c++14", "c++17", "gnu++17", "c++20", "gnu++20", "c++23"]
BEFORE = ["stdint.h", "stddef.h", "limits.h", "string.h", "stdlib.h", "endian.h", "sys/param.h", "inttypes.h", "sys/types.h", "immintrin.h", "cpuid.h", "math.h", "time.h"]
CXX_BEFORE = ["cstdint", "cstddef", "climits", "string", "vector", "algorithm", "map", "limits"]
FREE = ("stdint.h", "stddef.h", "limits.h")


def expect(h):
    """names the documentation promises for this configuration: (exported, internal)"""
    m = h["macros"]
    on = lambda n: not any(x == n or x.startswith(n + "=") for x in m)
    val = lambda n, d: next((int(x.split("=")[1]) for x in m if x.startswith(n + "=")), d)
    S = "t1ha_selfcheck__"
    ex, inn = {S + "all_enabled"}, set()
    if on("T1HA2_DISABLED"): ex |= {S + "t1ha2", S + "t1ha2_atonce", S + "t1ha2_atonce128", S + "t1ha2_stream", "t1ha2_atonce", "t1ha2_atonce128", "t1ha2_init", "t1ha2_update", "t1ha2_final"}
    if on("T1HA1_DISABLED"): ex |= {S + "t1ha1", S + "t1ha1_le", S + "t1ha1_be", "t1ha1_le", "t1ha1_be"}
    if on("T1HA0_DISABLED"):
        ex |= {S + "t1ha0", S + "t1ha0_32le", S + "t1ha0_32be", "t1ha0_32le", "t1ha0_32be"}
        aes = val("T1HA0_AESNI_AVAILABLE", 1)
        if aes:
            for v in ("noavx", "avx", "avx2"): ex.add(S + "t1ha0_ia32aes_" + v); inn.add("t1ha0_ia32aes_" + v)
        if val("T1HA0_RUNTIME_SELECT", aes):
            ex.add("t1ha0_resolve")
            ex.add("t1ha0" if val("T1HA_USE_INDIRECT_FUNCTIONS", int(h["bits"] == 64)) else "t1ha0_funcptr")
    return ex, inn


def gen_header(r, i):
    h = dict(id=i, lang=r.choice(["c", "c", "c++"]), cc=r.choice(["gcc", "clang"]), bits=r.choice([64, 64, 32]), macros=[], before=[], flags=[], twice=r.random() < .3, wrap=False)
    h["std"] = r.choice(C_STD if h["lang"] == "c" else CXX_STD)
    if r.random() < .5: h["macros"].append("T1HA0_RUNTIME_SELECT=%d" % r.choice([0, 0, 0, 1]))
    if r.random() < .4: h["macros"].append("T1HA0_AESNI_AVAILABLE=%d" % r.choice([0, 0, 1]))
    if r.random() < .4: h["macros"].append("T1HA_USE_INDIRECT_FUNCTIONS=%d" % r.choice([0, 0, 1]))
    if r.random() < .25: h["macros"].append("T1HA0_USE_DEFINE=%d" % r.choice([0, 1, 1]))
    if r.random() < .45: h["macros"] += r.sample(["T1HA0_DISABLED", "T1HA1_DISABLED", "T1HA2_DISABLED"], r.choice([1, 1, 2]))
    h["role"] = r.choice([None, "t1ha_IMPORTS", "t1ha_EXPORTS"])
    if h["role"]: h["macros"].append(h["role"])
    h["flags"] += r.choice([[], [], ["-ffreestanding"], ["-fvisibility=hidden"], ["-funsigned-char", "-fshort-enums"], ["-fPIC"], ["-march=native"], ["-fno-builtin", "-Os"]]) + ["-O%d" % r.randrange(4)]
    if "-ffreestanding" in h["flags"]: h["before"] = r.sample(FREE, r.randrange(3)) if h["lang"] == "c" else []
    else: h["before"] = r.sample(BEFORE + (CXX_BEFORE if h["lang"] == "c++" and h["bits"] == 64 else []), r.choice([0, 0, 1, 2, 4]))
    h["before"] = [x for x in h["before"] if not (x == "immintrin.h" and h["std"] in ("c89", "c90", "iso9899:199409", "c++98", "c++03"))]
    if h["lang"] == "c++" and "98" in h["std"] or h["std"] == "c++03": h["before"] = [x for x in h["before"] if x != "cstdint"]
    if h["lang"] == "c++": h["wrap"] = r.random() < .3 and (h["std"] in ("c++98", "c++03", "gnu++98") or "cstdint" in h["before"])
    return h


def source(h):
    ex, inn = expect(h)
    s = "".join("#include <%s>\n" % x for x in h["before"])
    inc = '#include "t1ha.h"\n'
    s += ('extern "C" {\n' + inc + "}\n" if h["wrap"] else inc) + (inc if h["twice"] else "")
    cc = 'extern "C" ' if h["lang"] == "c++" else "extern "
    s += cc + "void after_header(const void *);\n"
    s += ('extern "C" {\n' if h["lang"] == "c++" else "")
    for n, e in (("sizeof", "sizeof(t1ha_context_t)"), ("state", "offsetof(t1ha_context_t, buffer)"), ("partial", "offsetof(t1ha_context_t, partial)"), ("total", "offsetof(t1ha_context_t, total)"),
                 ("align", "offsetof(struct lay_s, x)"), ("version", "(T1HA_VERSION_MAJOR * 100 + T1HA_VERSION_MINOR * 10 + T1HA_VERSION_RELEASE)")):
        if n == "align": s += "struct lay_s { char c; t1ha_context_t x; };\n"
        s += "extern char lay_%s[%s]; char lay_%s[%s];\n" % (n, e, n, e)
    s += "uint64_t probe(const void *d, size_t n, uint64_t s, t1ha_context_t *c);\nuint64_t probe(const void *d, size_t n, uint64_t s, t1ha_context_t *c) {\n  uint64_t e = 0, v = 0;\n  (void)e; (void)c; (void)d; (void)n; (void)s;\n"
    for x in sorted(ex | inn):
        if x.startswith("t1ha_selfcheck"): s += "  v += (uint64_t)(unsigned)%s();\n" % x
        elif x == "t1ha2_atonce128": s += "  v += t1ha2_atonce128(&e, d, n, s) ^ e;\n"
        elif x == "t1ha2_init": s += "  t1ha2_init(c, s, v);\n"
        elif x == "t1ha2_update": s += "  t1ha2_update(c, d, n);\n"
        elif x == "t1ha2_final": s += "  v += t1ha2_final(c, 0) + t1ha2_final(c, &e) + e;\n"
        elif x == "t1ha0_resolve": s += "  { t1ha0_function_t f = t1ha0_resolve(); v += f(d, n, s); }\n"
        elif x == "t1ha0_funcptr": s += "  v += t1ha0_funcptr(d, n, s);\n"
        else: s += "  v += %s(d, n, s);\n" % x
    if "T1HA0_DISABLED" not in h["macros"]: s += "  v += t1ha0(d, n, v);\n"
    return s + "  after_header(d);\n  return v;\n}\n" + ("}\n" if h["lang"] == "c++" else "")


def command(h, src, obj):
    cxx = h["lang"] == "c++"
    cc = {"gcc": ["gcc", "g++"], "clang": ["clang", "clang++"]}[h["cc"]][cxx]
    return [cc, "-m%d" % h["bits"], "-x", h["lang"], "-std=" + h["std"], "-w", "-fno-common", "-I", REPO] + ["-D" + x for x in h["macros"]] + h["flags"] + ["-c", src, "-o", obj]


def check_header(c, h, d):
    """-> None or what is wrong"""
    src, obj = os.path.join(d, "h%d.src" % h["id"]), os.path.join(d, "h%d.o" % h["id"])
    with open(src, "w") as f: f.write(source(h))
    r = run(command(h, src, obj), 60)
    if r.rc or r.timeout:
        # is it the header, or what this compiler cannot do at all (a missing system header)?
        with open(src, "w") as f: f.write("".join("#include <%s>\n" % x for x in h["before"]) + "int x;\n")
        if run(command(h, src, obj), 60).rc: return "skip", "the surroundings do not compile", None
        return "bad", (re.findall(r"error: (.*)", r.err) or ["does not compile"])[0][:140], r.err[-3000:]
    ex, inn = expect(h)
    und, lay, vis = set(), {}, {}
    for l in run(["readelf", "-sW", obj], 60).out.splitlines():
        w = l.split()
        if len(w) < 8: continue
        n = w[-1]
        if w[6] == "UND" and w[4] in ("GLOBAL", "WEAK"): und.add(n); vis[n] = w[5]
        elif n.startswith("lay_"): lay[n[4:]] = int(w[2], 0)
    und = {n for n in und if "t1ha" in n or n == "after_header"} # not what compilers add
    want = ex | inn | {"after_header"}
    if und != want: return "bad", "refers to %s instead of %s" % (", ".join(sorted(und - want)) or "nothing more", ", ".join(sorted(want - und)) or "nothing more"), ""
    if vis["after_header"] != "DEFAULT" and "-fvisibility=hidden" not in h["flags"]: return "bad", "what a program declares after the header is no longer visible", ""
    if h["role"]:
        hid = sorted(n for n in ex if vis[n] != "DEFAULT")
        if hid: return "bad", "%s is not bound to the shared library" % ", ".join(hid), ""
    return "ok", lay, None


def headers(c):
    r = random.Random(c.seed * 131 + 20)
    d = c.tmp("-headers"); os.makedirs(d)
    H = [gen_header(r, i) for i in range(c.n(500, 12000))]
    seen, lays = set(), {}
    for h, f in [(h, c.pool.submit(check_header, c, h, d)) for h in H]:
        nm_ = "%s -m%d -std=%s %s%s%s" % (h["cc"], h["bits"], h["std"], " ".join(h["macros"] + h["flags"]), " after " + ",".join(h["before"]) if h["before"] else "", " in extern \"C\"" if h["wrap"] else "")
        st, what, log = f.result()
        if st == "skip": c.note("%s: %s" % (nm_, what)); continue
        if st == "bad":
            h2 = shrink(c, h, d)
            c.violation("header", "t1ha.h with %s: %s" % (nm_, what), {"header": h2, "first": h, "source": source(h2), "command": command(h2, "FILE", "OUT"), "log": log})
            continue
        c.add(1, 0 if nm_ in seen else 1, "header", ["header: " + nm_] if r.random() < .006 else [])
        seen.add(nm_)
        lays.setdefault((h["bits"], tuple(sorted(what.items()))), nm_)
    for b in (64, 32):
        l = [(lay, n) for (bb, lay), n in lays.items() if bb == b]
        if len(l) > 1: c.violation("layout", "t1ha_context_t or the version differ between dialects: %s" % "; ".join("%s with %s" % (dict(x), n) for x, n in l[:2]), {"layouts": [str(x) for x in l]})


def shrink(c, h, d):
    """drops what does not matter"""
    h = dict(h, id=10 ** 6 + h["id"])
    again = True
    while again:
        again = False
        for k in ("macros", "before", "flags"):
            for x in list(h[k]):
                t = dict(h); t[k] = [y for y in h[k] if y != x]
                if k == "macros" and x == h["role"]: t["role"] = None
                if t["wrap"] and x == "cstdint": continue
                if check_header(c, t, d)[0] == "bad": h, again = t, True; break
        for k in ("twice", "wrap"):
            if h[k] and check_header(c, dict(h, **{k: False}), d)[0] == "bad": h = dict(h, **{k: False}); again = True
    return h
