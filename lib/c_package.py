"""C20: the library as the provided build files build it, used by generated consumers."""
import random
from vp import *
from variants import *
from headers import headers

STD_C = ["c89", "gnu89", "gnu99", "c99", "c11", "gnu17", "c2x"]
STD_CXX = ["c++98", "gnu++98", "c++11", "c++14", "c++17", "gnu++20", "c++23"]
MACROS = [[], [], ["T1HA_USE_INDIRECT_FUNCTIONS=0"], ["T1HA0_RUNTIME_SELECT=0"], ["T1HA0_AESNI_AVAILABLE=0"], ["T1HA_USE_FAST_ONESHOT_READ=0"], ["T1HA_SYS_UNALIGNED_ACCESS=0"], ["T1HA0_DISABLED"], ["T1HA1_DISABLED"],
          ["T1HA2_DISABLED"], ["T1HA_USE_INDIRECT_FUNCTIONS=0", "T1HA_USE_FAST_ONESHOT_READ=0"], ["T1HA0_RUNTIME_SELECT=0", "T1HA0_USE_DEFINE=1"]]


def envir():
    return {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MFLAGS", "CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "CC", "CXX", "TARGET_ARCH", "T1HA_EXTRA_CFLAGS", "LD_PRELOAD", "LD_LIBRARY_PATH", "DESTDIR")}


def cc_of(p): return "gcc" if p["cc"] == "gcc" else CLANG


def make_package(c, p):
    """builds one package -> {"a": path or None, "so": path or None, "src": directory}"""
    d = c.tmp("-pkg")
    os.makedirs(d)
    for f in ("Makefile", "meson.build", "t1ha.h", "src"):
        s = os.path.join(REPO, f)
        if os.path.isdir(s): shutil.copytree(s, os.path.join(d, f))
        elif os.path.exists(s): shutil.copy(s, d)
    m = ["-m32"] if p["bits"] == 32 else []
    D = ["-D" + x for x in p["macros"]]
    if p["by"] == "make":
        args = ["CC=" + cc_of(p)]
        if p.get("cflags"): args.append("CFLAGS=" + " ".join(m + D + p["cflags"]))
        elif m + D: args.append("T1HA_EXTRA_CFLAGS=" + " ".join(m + D))
        r = run(["make", "-C", d, "-j4"] + args + ["libt1ha.a", "libt1ha.so"], 300, env=envir())
        if r.rc: raise BuildError("make %s libt1ha.a libt1ha.so: %s" % (" ".join(args), (r.err + r.out)[-3000:]))
        return {"a": d + "/libt1ha.a", "so": d + "/libt1ha.so", "src": d}
    b = d + "/bld"
    e = envir()
    e["CC"] = " ".join([cc_of(p)] + m)
    r = run(["meson", "setup", b, d, "--buildtype=" + p["buildtype"]] + p["mopts"] + (["-Dc_args=" + repr(D)] if D else []), 300, env=e)
    if r.rc: raise BuildError("meson setup: " + (r.err + r.out)[-3000:])
    r = run(["ninja", "-C", b], 300, env=e)
    if r.rc: raise BuildError("ninja: " + (r.err + r.out)[-3000:])
    return {"a": b + "/libt1ha.a", "so": None, "src": d}


def pname(p): return "%s %s%d %s %s" % (p["by"], p["cc"], p["bits"], " ".join(p["macros"]), " ".join(p.get("cflags") or p.get("mopts", [])) + p.get("buildtype", ""))


def nm(path, *a):
    r = run(["nm"] + list(a) + [path], 60)
    return [l.split() for l in r.out.splitlines() if l.strip()]


def declared(c, p, pk, lang):
    """names the header declares as functions or data, and whether an object compiled as part of the library binds them as exported"""
    d = c.tmp("-decl"); os.makedirs(d)
    m = ["-m%d" % p["bits"]]
    D = ["-D" + x for x in p["macros"]] + ["-Dt1ha_EXPORTS", "-fvisibility=hidden"]
    cmd = [cc_of(p)] + m + D + ["-w", "-I", pk["src"]] + (["-x", "c++", "-std=c++11"] if lang == "c++" else ["-std=gnu11"])
    r = run(cmd + ["-E", "-P", "-include", pk["src"] + "/t1ha.h", "-x", "c++" if lang == "c++" else "c", "/dev/null"], 60)
    if r.rc: raise BuildError("the header does not preprocess: " + r.err[-1000:])
    text = re.sub(r"\{[^{}]*\}", " ; ", re.sub(r"\{[^{}]*\}", " ; ", r.out))
    names = set()
    for st in text.split(";"):
        if "typedef" in st or "static" in st: continue
        for x in re.findall(r"\b(t1ha\w+)\s*\(", st) + re.findall(r"\(\s*\*\s*(t1ha\w+)\s*\)", st): names.add(x)
    names = sorted(names)
    src = os.path.join(d, "probe." + ("cpp" if lang == "c++" else "c"))
    with open(src, "w") as f:
        f.write('#include "t1ha.h"\n' + ('extern "C" ' if lang == "c++" else "") + "void probe(const void **p);\nvoid probe(const void **p) {\n")
        for i, n in enumerate(names): f.write("  p[%d] = (const void *)&%s;\n" % (i, n))
        f.write("}\n")
    o = os.path.join(d, "probe.o")
    c.cc(cmd + ["-fPIC", "-O1", "-c", src, "-o", o], "a program that takes the address of everything the header declares")
    ex, hid = set(), set()
    for l in run(["readelf", "-sW", o], 60).out.splitlines():
        w = l.split()
        if len(w) >= 8 and w[6] == "UND" and w[-1] in names: (ex if w[5] == "DEFAULT" else hid).add(w[-1])
    return ex, hid, names


def consumer(c, p, pk, k, refs):
    """builds and runs one generated consumer -> (command, result)"""
    d = c.tmp("-con"); os.makedirs(d)
    m = ["-m%d" % p["bits"]]
    cxx = k["lang"] == "c++"
    cc_ = ("g++" if k["cc"] == "gcc" else CLANGXX) if cxx else ("gcc" if k["cc"] == "gcc" else CLANG)
    kind = k["kind"]
    D = ["-D" + x for x in p["macros"]] + ["-DUSE=%d" % k["use"]] + ["-DCPU_%s=%d" % (n.upper(), n in CPU) for n in ("aes", "avx", "avx2")] + k["defs"]
    if kind == "shared": D += ["-Dt1ha_IMPORTS", "-DEXPORTED"]
    if kind == "dl": D += ["-DDL"]
    if kind == "plugin": D += ["-DPLUGIN"]
    if not pk["selfcheck"] and kind == "static" or kind == "plugin" and not pk["selfcheck"]: D.append("-DNO_SELFCHECK")
    pic = {"pie": ["-fPIE"], "nopie": ["-fno-pie"], "pic": ["-fPIC"], "static": ["-fno-pie"], "staticpie": ["-fPIE"]}["pic" if kind == "plugin" else k["link"]]
    std = ["-x", "c++", "-std=" + k["std"]] if cxx else ["-std=" + k["std"]]
    o = d + "/consumer.o"
    c.cc([cc_] + m + [k["opt"], "-w", "-I", pk["src"], "-I", HARN] + D + pic + k["cflags"] + std + ["-c", HARN + "/consumer.c", "-o", o], "compiling a consumer")
    ld = {"pie": ["-pie"], "nopie": ["-no-pie"], "pic": ["-pie"], "static": ["-static"], "staticpie": ["-static-pie"]}[k["link"]] if kind != "plugin" else ["-shared", "-Wl,-z,defs"]
    if k["bind"]: ld += ["-Wl,-z," + k["bind"]]
    ld += k["ldflags"]
    objs = [o, refs[p["bits"]]]
    if kind in ("static", "plugin"): objs.append(pk["a"])
    elif kind == "shared": objs += [pk["so"], "-Wl,-rpath," + os.path.dirname(pk["so"])]
    elif kind == "intree":
        for s in sources():
            so = os.path.join(d, s[:-2] + ".o")
            c.cc([("gcc" if k["cc"] == "gcc" else CLANG)] + m + [k["opt"], "-DNDEBUG", "-w"] + ["-D" + x for x in p["macros"]] + pic + k["cflags"] + aes_flags(s) + ["-c", os.path.join(pk["src"], "src", s), "-o", so], "compiling the sources in the consumer's tree")
            objs.append(so)
    exe = d + "/prog"
    c.cc([cc_] + m + [x for x in k["cflags"] if x.startswith("-fsan")] + ld + objs + ["-o", exe, "-lm", "-lpthread", "-ldl"], "linking a consumer (%s)" % kind)
    e = envir()
    if k["env"] == "now": e["LD_BIND_NOW"] = "1"
    if k["env"] == "preload" and pk["so"]: e["LD_PRELOAD"] = pk["so"]
    e["ASAN_OPTIONS"] = "detect_leaks=0"
    args = [str(c.seed * 1000 + k["id"]), str(k["rounds"]), pk["so"] or "-", str(k["flags"]), (k["second"] or "-")]
    cmd = [exe] + args
    if kind == "plugin":
        host = d + "/host"
        c.cc(["gcc"] + m + [HARN + "/plughost.c", "-o", host, "-ldl", "-lpthread"], "plug-in host")
        cmd = [host] + args + [exe]
    return cmd, e, run(cmd, 200, env=e)


def gen_consumer(r, p, pk, i):
    kinds = ["static", "static", "plugin", "intree"] + (["shared", "shared", "shared", "dl", "dl"] if pk["so"] else [])
    k = dict(id=i, kind=kinds[i % len(kinds)] if i < 2 * len(kinds) else r.choice(kinds), lang=r.choice(["c", "c++"]), cc=r.choice(["gcc", "clang"]), opt=r.choice(["-O0", "-O1", "-O2", "-O3"]), flags=r.randrange(64), defs=[], cflags=[], ldflags=[], second=None)
    k["std"] = r.choice(STD_CXX if k["lang"] == "c++" else STD_C)
    k["use"] = r.choice([0x3ffff, 0x3ffff, 1 << r.randrange(18) | 1 << r.randrange(18), r.getrandbits(18) | 1 << r.randrange(6), r.getrandbits(18) & r.getrandbits(18) | 1 << r.randrange(6)])
    k["link"] = r.choice(["pie", "pie", "nopie", "pic"] + (["static", "staticpie"] if k["kind"] == "static" else []))
    k["bind"] = r.choice([None, "now", "lazy"]) if "static" not in k["link"] else None
    k["env"] = r.choice([None, None, "now", "preload"]) if "static" not in k["link"] and k["kind"] != "plugin" else None
    if r.random() < .3: k["defs"].append("-DHEADER_FIRST")
    elif k["lang"] == "c++" and r.random() < .4: k["defs"].append("-DEXTERN_C")
    x = r.random()
    if x < .15 and "static" not in k["link"]: k["cflags"] = ["-fvisibility=hidden"]
    elif x < .3: k["cflags"] = ["-fstack-protector-all"] if k["cc"] == "gcc" and "static" not in k["link"] and k["kind"] != "intree" else ["-fno-plt"]
    elif x < .42 and k["kind"] not in ("plugin", "intree") and k["link"] in ("pie", "pic") and k["env"] != "preload": k["cflags"] = ["-fsanitize=address"]
    elif x < .5 and p["bits"] == 64: k["cflags"] = ["-march=native"]
    elif x < .6: k["cflags"] = ["-ffunction-sections", "-fdata-sections"]; k["ldflags"] = ["-Wl,--gc-sections"]
    if k["kind"] in ("static", "intree") and "static" not in k["link"] and r.random() < .3: k["ldflags"] = k["ldflags"] + ["-rdynamic"]
    if pk["so"] and "static" not in k["link"] and k["cflags"] != ["-fsanitize=address"] and r.random() < .7: k["second"] = pk["so"]
    # the sanitizer cannot live in a second namespace, nor with a different namespace for libpthread
    if k["cflags"] == ["-fsanitize=address"]: k["flags"] &= ~7
    # indirect functions are resolved before a 32-bit program is relocated
    return k


def kname(k): return "%s %s %s -std=%s %s %s use=%x %s%s%s" % (k["kind"], k["cc"], k["opt"], k["std"], k["link"], k["bind"] or "", k["use"], " ".join(k["cflags"] + k["ldflags"] + k["defs"]), " env=" + k["env"] if k["env"] else "", " +second copy" if k["second"] else "")


def register(CHECKS):
    def C20():
        from checks import MODEL, CPU_A
        c = Check("C20", "A case is one hash or stream of generated bytes in one generated consumer: a package (Makefile or meson; gcc or clang; 64 or 32 bits; tuning macros; flags) times a consumer (C or C++ dialect, compiler, options, PIE or not, "
                  "binding, subset of the API it refers to; linked with the static library, with the shared one, with the sources, as a plug-in that carries the static one, or loading the shared one with dlopen/dlmopen at a random moment, repeatedly, "
                  "handing contexts from one copy of the library to another; calls from a constructor before main). Oracles: the byte-wise model; the consumer links and starts; canaries around the consumer's context; "
                  "a matrix of dialect, compiler, macros, surroundings and roles for the header alone (it compiles, refers to exactly the C names the documentation promises, leaves later declarations as they were); one layout and one choice for t1ha0 everywhere; dynamic symbols == what the header declares exported. Non-trivial: a case that called the library.",
                  [MODEL, CPU_A, "a consumer uses the tuning macros the library was built with, and t1ha_IMPORTS with the shared library, as the header requires", "Visual Studio and Qt Creator projects cannot be built here"])
        headers(c)
        r = random.Random(c.seed * 31 + 20)
        P = [dict(by="make", cc="gcc", bits=64, macros=[]), dict(by="make", cc="clang", bits=64, macros=[]), dict(by="make", cc="gcc", bits=32, macros=[]), dict(by="make", cc="gcc", bits=64, macros=["T1HA_USE_INDIRECT_FUNCTIONS=0"]),
             dict(by="meson", cc="gcc", bits=64, macros=[], buildtype="release", mopts=["-Db_ndebug=true"]), dict(by="meson", cc="clang", bits=64, macros=[], buildtype="debugoptimized", mopts=[])]
        P += [dict(by="make", cc="gcc", bits=64, macros=[x]) for x in ("T1HA0_DISABLED", "T1HA1_DISABLED", "T1HA2_DISABLED")]
        P += [dict(by="make", cc="gcc", bits=32, macros=["T1HA0_RUNTIME_SELECT=0"]), dict(by="make", cc="clang", bits=64, macros=["T1HA0_AESNI_AVAILABLE=0", "T1HA1_DISABLED"])]
        for i in range(c.n(3, 60)):
            p = dict(by=r.choice(["make", "make", "meson"]), cc=r.choice(["gcc", "clang"]), bits=r.choice([64, 64, 32]), macros=r.choice(MACROS))
            if p["by"] == "make": p["cflags"] = r.choice([None, ["-std=gnu11", "-O2", "-DNDEBUG"], ["-std=c99", "-Os", "-DNDEBUG", "-D_DEFAULT_SOURCE"], ["-std=c11", "-O1", "-D_DEFAULT_SOURCE", "-g"], ["-O0", "-fno-stack-protector"]])
            else: p.update(buildtype=r.choice(["debug", "release", "debugoptimized", "minsize", "plain"]), mopts=r.choice([[], ["-Db_ndebug=true"], ["-Db_staticpic=false"], ["-Ddefault_library=both"]]))
            P.append(p)
        refs, ni = {}, (["-DREF_AESNI", "-maes", "-msse4.1"] if "aes" in CPU else [])
        for b in (64, 32):
            refs[b] = os.path.join(c.dir, "ref%d.o" % b)
            c.cc(["gcc", "-m%d" % b, "-O3", "-w", "-fPIC", "-I", HARN] + ni + ["-c", HARN + "/ref.c", "-o", refs[b]], "model")
        futs = [(p, c.pool.submit(make_package, c, p)) for p in P]
        runs, layouts, impls, sym_cases, no_sc = [], {}, {}, 0, False
        for pi, (p, f) in enumerate(futs):
            try: pk = f.result()
            except BuildError as e:
                c.violation("build", "%s: the library does not build" % pname(p), {"package": p, "log": str(e)}); continue
            have = {w[-1] for w in nm(pk["a"], "-g", "--defined-only")}
            if not have: c.violation("build", "%s: the static library is missing or empty" % pname(p), {"package": p}); continue
            pk["selfcheck"] = "t1ha_selfcheck__all_enabled" in have
            if p["by"] == "meson" and not pk["selfcheck"]: no_sc = True
            decl = {}
            for lang in ("c", "c++"):
                try: decl[lang] = declared(c, p, pk, lang)
                except BuildError as e: c.violation("header", "%s: %s" % (pname(p), str(e)[:200]), {"package": p, "log": str(e)})
            if len(decl) == 2 and decl["c"] != decl["c++"]: c.violation("header", "%s: the header declares different interfaces to C and C++: %s" % (pname(p), sorted(set(decl["c"][0]) ^ set(decl["c++"][0]))), {"package": p})
            if "c" in decl:
                ex, hid, names = decl["c"]
                sym_cases += len(names)
                missing = sorted(n for n in names if n not in have and not (n.startswith("t1ha_selfcheck") and not pk["selfcheck"] and p["by"] == "meson"))
                if missing: c.violation("symbols", "%s: the static library lacks %s" % (pname(p), ", ".join(missing)), {"package": p})
                if pk["so"]:
                    dyn = {w[-1].split("@")[0] for w in nm(pk["so"], "-D", "--defined-only")}
                    dyn = {n for n in dyn if n not in ("_init", "_fini", "_edata", "_end", "__bss_start", "__end__", "_bss_end__", "__bss_end__")}
                    if dyn != ex: c.violation("symbols", "%s: the shared library exports %s but the header declares %s" % (pname(p), ", ".join(sorted(dyn - ex)) or "nothing more", ", ".join(sorted(ex - dyn)) or "nothing more"), {"package": p})
            for i in range(c.n(12 if pi > 5 or p["by"] == "meson" else 40, 60)):
                k = gen_consumer(r, p, pk, i)
                k["rounds"] = c.n(4000, 30000)
                runs.append((p, pk, k, c.pool.submit(consumer, c, p, pk, k, refs)))
        c.add(sym_cases, sym_cases, "symbols")
        for p, pk, k, f in runs:
            nm_ = "%s | %s" % (pname(p), kname(k))
            try: cmd, env, rr = f.result()
            except BuildError as e:
                if "static" in k["link"] and re.search(r"cannot find|-lasan|unable to find library", str(e)): c.note("no static run-time libraries: %s" % nm_); continue
                c.violation("build", "%s: %s" % (nm_, str(e).split("\n")[0][:120]), {"package": p, "consumer": k, "log": str(e)}); continue
            if rr.timeout: c.note("%s: out of time" % nm_); continue
            if rr.rc == 3: c.note("%s: could not run" % nm_); continue
            dn = re.search(r"DONE (\d+)", rr.out)
            if rr.rc or not dn:
                if run(cmd, 200, env=env).rc == rr.rc: c.violation("consumer", "%s: %s" % (nm_, (re.findall(r"FAIL (.*)", rr.out) or ["the program dies with status %d" % rr.rc])[0]), {"package": p, "consumer": k, "args": cmd[1:], "stderr": rr.err[-1500:]})
                else: c.note("%s failed once: %s" % (nm_, rr.out[-200:]))
                continue
            n = int(dn.group(1))
            c.add(k["rounds"], n, k["kind"], ["[%s] %d calls" % (nm_, n)] if r.random() < .08 else [])
            lay = re.search(r"LAYOUT (.*)", rr.out).group(1)
            layouts.setdefault((p["bits"], lay), nm_)
            im = int(re.search(r"IMPL (-?\d+)", rr.out).group(1))
            if im >= 0: impls.setdefault((p["bits"], tuple(x for x in p["macros"] if x.startswith("T1HA0") or "DISABLED" in x)), {}).setdefault(im, nm_)
        for b in (64, 32):
            l = [(lay, n) for (bb, lay), n in layouts.items() if bb == b]
            if len(l) > 1: c.violation("layout", "t1ha_context_t differs between consumers (size, alignment, offsets): %s" % "; ".join("%s in %s" % x for x in l[:3]), {"layouts": l})
        for key, v in impls.items():
            if len(v) > 1: c.violation("impl", "t1ha0 is %s" % "; ".join("%s in %s" % (FN[i], n) for i, n in v.items()), {"key": list(map(str, key))})
        if no_sc: c.known_finding("meson-no-selfcheck", "the library meson.build builds lacks the t1ha_selfcheck__*() functions that the header declares", {})
        c.finish()
    CHECKS["C20"] = C20
