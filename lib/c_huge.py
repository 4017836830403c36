"""C19: inputs of gigabytes, and streams whose totals pass 32-bit counters of bytes, bits and blocks."""
import random
from vp import *
from variants import *

G = 1 << 30
PER = {64: 4097 * 4096, 32: 257 * 4096}


def huge_exe(c, v):
    objs = c.lib_objects_serial(v)
    d = os.path.join(c.dir, "v_" + re.sub(r"\W", "_", v.name))
    inc = ["-include", os.path.join(HARN, v.include)] if v.include else []
    fl = ["-m%d" % v.bits, "-w", "-I", HARN, "-I", REPO]
    ni = ["-DREF_AESNI"] if "aes" in CPU else []
    c.cc([v.cc] + fl + ["-O1"] + inc + ["-D" + x for x in v.defs] + ni + (["-D__AVX2_OK__"] if "avx2" in CPU else []) + ["-c", HARN + "/huge.c", "-o", d + "/huge.o"], "huge-input harness")
    c.cc(["gcc"] + fl + ["-O3"] + ni + (["-maes", "-msse4.1"] if ni else []) + ["-c", HARN + "/ref.c", "-o", d + "/ref_h.o"], "model")
    # 32-bit: keep the middle of the address space free
    c.cc([v.cc, "-m%d" % v.bits] + (["-no-pie"] if v.bits == 32 else []) + ["-o", d + "/huge", d + "/huge.o", d + "/ref_h.o"] + objs + list(v.ld) + ["-lm"], "linking (%s)" % v.name)
    return d + "/huge"


def near(r, x): return x + r.choice([0, 1, -1, 31, 32, 33, -31, -32, 7, 8, 16, 17, 64, 100, r.randrange(-200, 200)])


def length(r, bits, top):
    """a length past a boundary of a 31-bit, 32-bit or larger counter"""
    if bits == 32: return max(0, min(top, r.choice([near(r, 1 << 31), r.randrange(1 << 31, top), r.randrange(1 << 31, top), near(r, top - 300), near(r, 3 << 30)])))
    return max(0, min(top, r.choice([near(r, 1 << 31), near(r, 1 << 32), near(r, 1 << 32), (1 << 32) + r.randrange(1, 40), r.randrange(1 << 31, 1 << 32), r.randrange(1 << 32, top), near(r, top - 300)])))


def stream_cuts(r, bits, total, top):
    """total cut into pieces between one byte and more than a 32-bit counter holds"""
    out, left = [], total
    k = r.random()
    if k < .3 and top > (1 << 32) + 8192:  # a piece of a multiple of 2^32 bytes and few more, after some bytes
        out = [(r.randrange(64), r.randrange(1, 70)), (r.randrange(0, 4096), (1 << 32) + r.randrange(0, 70))]
        if r.random() < .5: out.append((r.randrange(64), r.randrange(1, 200)))
        return out
    elif k < .45 and top > (1 << 31) + 8192:
        out = [(r.randrange(64), r.randrange(1, 70)), (r.randrange(0, 4096), (1 << 31) + r.randrange(-40, 70))]
        left = max(0, total - sum(n for _, n in out))
    while left:
        k = r.random()
        if k < .35: n = length(r, bits, top) if left > 1 << 31 else left
        elif k < .5: n = r.randrange(1, 70)
        elif k < .8: n = r.randrange(1, max(2, left // 2 + 1))
        else: n = r.choice([32, 64, 1 << 20, 4096 + 3, 1 << 29, (1 << 29) + 5])
        n = min(n, left, top)
        if len(out) > 300: n = min(left, top)
        out.append((r.randrange(0, top - n + 1) if r.random() < .8 else 0, n))
        left -= n
    if r.random() < .3: out.insert(r.randrange(len(out) + 1), (0, 0))
    return out


def line(case):
    fn, x, y, junk, cuts = case
    return "%d %d %d %d %s" % (fn, x, y, junk, ",".join("%d:%d" % p for p in cuts))


def seeds(r): return r.choice([0, 1, (1 << 64) - 1, r.getrandbits(64), r.getrandbits(64), r.getrandbits(32)])


def campaign(c, todo, floor, mode="model"):
    """runs (variant, program, region size, cases); floor: from which length on a case counts as non-trivial"""
    def go(v, exe, top, cases, timeout=None):
        return run([exe, str(top), str(PER[v.bits]), str(c.seed), mode], timeout or (700 if not c.thorough else 7200), inp=("\n".join(line(x) for x in cases) + "\n").encode())
    futs = [(t, c.pool.submit(go, *t)) for t in todo]
    seen = set()
    for (v, exe, top, cases), f in futs:
        rr = f.result()
        if rr.rc == 4: c.note("%s: no address space for %d bytes" % (v.name, top)); continue
        if rr.rc == 3: raise SystemExit("harness could not run: " + rr.err[-500:])
        if rr.timeout: c.note("%s %s: out of time" % (v.name, FN[cases[0][0]])); continue
        ok = [int(x) for x in re.findall(r"^OK (\d+)", rr.out, re.M)]
        for i in ok:
            tot = sum(n for _, n in cases[i][4])
            nt = tot >= floor(cases[i][0]) and line(cases[i]) not in seen
            seen.add(line(cases[i]))
            c.add(1, int(nt), FN[cases[i][0]] + ("-m%d" % v.bits), ["[%s] %s(%d bytes%s)" % (v.name, FN[cases[i][0]], tot, " in %d updates" % len(cases[i][4]) if cases[i][0] in (4, 5) else ", offset %d" % cases[i][4][0][0])] if len(c.samples) < 10 else [])
        fails = re.findall(r"^FAIL (\d+) (.*)", rr.out, re.M)
        if not fails and rr.rc != 0: fails = [(str(len(ok)), "the process dies with status %d" % rr.rc)]
        for i, why in fails[:1]:
            case = cases[min(int(i), len(cases) - 1)]

            def bad(cs):
                t = max([o + n for o, n in cs[4]] + [4096])
                q = go(v, exe, max(t, 4096), [cs], 300)
                return "FAIL" in q.out or (q.rc not in (0, 3, 4) and not q.timeout)
            q = go(v, exe, top, [case], 300)
            if not ("FAIL" in q.out or q.rc not in (0, 3, 4)):
                c.note("%s: not confirmed: %s" % (v.name, why)); continue
            t_end = time.time() + (60 if not c.thorough else 600)
            cur = case
            # shrink: simple seeds, offset 0, fewer and rounder pieces
            def tries(cs):
                f_, x, y, j, cu = cs
                if x or y or j: yield (f_, 0, 0, 0, cu)
                if mode != "cut" and any(o for o, _ in cu): yield (f_, x, y, j, [(0, n) for _, n in cu])
                for k in range(min(len(cu), 12) if mode != "cut" else 0):
                    if len(cu) > 1: yield (f_, x, y, j, cu[:k] + cu[k + 1:])
                if mode == "cut" and len(cu) > 1: yield (f_, x, y, j, cu[1:]); yield (f_, x, y, j, cu[:-1])
                for k in range(min(len(cu), 12)) if mode != "cut" else (len(cu) - 1,):
                    for n in (32, 33, 1 << 29, 1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, cu[k][1] // 2):
                        if n < cu[k][1]: yield (f_, x, y, j, cu[:k] + [(0, n)] + cu[k + 1:])
            moved = True
            while moved and time.time() < t_end and not c.violations:
                moved = False
                for cs in tries(cur):
                    if time.time() > t_end: break
                    if bad(cs): cur, moved = cs, True; break
            c.violation("huge", "%s [%s]; smallest failing case found: %s" % (why, v.name, line(cur)), {"variant": v.spec(), "cases": [line(cur)], "original": line(case), "mode": mode, "region": max([o + n for o, n in cur[4]] + [4096])})


def mid(c, fns, per_fn=24, mode="model", vs=None, most=None, magn=range(14, 31)):
    """lengths from 2^14 to 2^31, every magnitude: above the campaigns of the engine, below those of C19"""
    r = random.Random(c.seed * 5 + 3)
    vs = vs or [std64(), std32(), mac("gcc64-unaligned0", ua=0), gen("generic32-unaligned1", 32, ua=1)]
    built = []
    for v in vs: v.name += "-long" if not most else "-huge"
    for v, f in [(v, c.pool.submit(huge_exe, c, v)) for v in vs]:
        try: built.append((v, f.result()))
        except BuildError as e: c.violation("build", "configuration '%s' does not build" % v.name, {"variant": v.spec(), "log": str(e)})
    todo = []
    for v, exe in built:
        for f in range(11 if mode == "model" else 12):
            if not (fns >> f & 1) or (f in (8, 9, 10) and ("aes" not in CPU or v.include)) or (f == 10 and "avx2" not in CPU): continue
            top, cases = most or ((1 << 31) - 4096 if v.bits == 64 else 1 << 30), []
            for i in range(int(per_fn * c.mul ** .5)):
                k = magn[i % len(magn)] if i < len(magn) or most else r.choice(range(14, 28))
                n = min(top, (1 << k) + r.choice([0, 1, -1, r.randrange(1 << k), r.randrange(1 << k), 31, 33, 17, 1 << (k - 1)]))
                if mode == "cut":
                    at, left, cuts = r.choice([0, r.randrange(64), top - n]), n, []
                    at = min(at, top - n)
                    while left:
                        q = min(left, r.choice([r.randrange(1, 70), r.randrange(1, 70), r.randrange(1, left + 1), r.randrange(1, left + 1), (1 << r.randrange(5, 29)) + r.choice([0, 0, 1, -1, 31])]) if len(cuts) < 200 else left)
                        cuts.append((at, q)); at += q; left -= q
                    if r.random() < .3: cuts.insert(r.randrange(1, len(cuts) + 1), (cuts[-1][0], 0))
                elif f in (4, 5): cuts = stream_cuts(r, v.bits, n, top) if i & 1 else [(r.randrange(0, 64), min(n, top - 64))]
                else: cuts = [(r.choice([0, top - n, r.randrange(0, min(64, top - n) + 1), r.randrange(0, top - n + 1)]), n)]
                cases.append((f, seeds(r), seeds(r), r.randrange(256), cuts))
            todo.append((v, exe, top, cases))
    campaign(c, todo, lambda f: 1 << 14, mode)


def register(CHECKS):
    def C19():
        c = Check("C19", "A case is (function, length between 2^31 and 2^37, offset, seed(s), for streams the cut into updates of 0 bytes to more than 2^32 bytes with totals past 2^29, 2^32 and more) on one build variant; the bytes are "
                  "a random file mapped over and over with a period that is no power of two, its end followed by an inaccessible page. Oracle: the byte-wise model, which counts with 64 bits everywhere. Non-trivial: a length of at "
                  "least 2^31, a stream total of at least 2^29, distinct.",
                  ["the model is the published function (it reproduces the published vectors at start-up; for speed its AES rounds are the processor's here)", CPU_A_],)
        vs = [std64(), std32(), cl64(), mac("gcc64-unaligned0", ua=0), mac("gcc64-oneshot0", os=0), gen("generic64-unaligned1", ua=1), mac("gcc32-unaligned0", 32, ua=0), cl32(), mac("gcc64-O1-unaligned0-oneshot0", ua=0, os=0, opt="-O1"),
              gen("generic32-unaligned2", 32, ua=2), mac("gcc64-O2", opt="-O2", ua=1), llp64("llp64"), llp64("llp64-unaligned0-oneshot0", 0, 0)]
        built = []
        for v, f in [(v, c.pool.submit(huge_exe, c, v)) for v in vs]:
            try: built.append((v, f.result()))
            except BuildError as e: c.violation("build", "configuration '%s' does not build" % v.name, {"variant": v.spec(), "log": str(e)})
        r = random.Random(c.seed)
        todo = []
        fns = list(range(11))
        for vi, (v, exe) in enumerate(built):
            generic = bool(v.include)
            mine = [f for f in fns if not (generic and f in (8, 9, 10)) and not (f in (8, 9, 10) and "aes" not in CPU)]
            if v.bits == 64:
                top = (4 * G + G // 2) if not c.thorough else 9 * G
                full = vi < 2
                for f in mine:
                    k = (3 if f in (4, 5) else 2) if not c.thorough else 8
                    cases = []
                    for i in range(k):
                        if f in (4, 5) and i == 2: cuts = [(r.randrange(64), r.randrange(1, 32)), (r.randrange(4096), (1 << 32) + r.choice([0, 1, r.randrange(70), r.randrange(70)])), (0, r.randrange(90))]
                        elif f in (4, 5): cuts = stream_cuts(r, 64, r.choice([near(r, 1 << 29), near(r, 1 << 32), near(r, (1 << 32) + (1 << 29)), r.randrange(1 << 32, 5 << 30), r.randrange(1 << 29, 1 << 32)]), top)
                        else:
                            n = length(r, 64, top) if i else near(r, (1 << 32) + r.choice([0, 0, 40, 1 << 20]))
                            n = min(n, top)
                            cuts = [(r.choice([0, top - n, r.randrange(0, min(64, top - n) + 1), r.randrange(0, top - n + 1)]), n)]
                        cases.append((f, seeds(r), seeds(r), r.randrange(256), cuts))
                    todo.append((v, exe, top, cases))
            else:
                top = 3 * G + G // 4
                for f in mine:
                    cases = []
                    for i in range(2 if not c.thorough else 8):
                        if f in (4, 5): cuts = stream_cuts(r, 32, r.choice([near(r, 1 << 29), near(r, 1 << 31), near(r, 1 << 32), near(r, 1 << 32), r.randrange(1 << 32, 5 << 30)]), top)
                        else:
                            n = length(r, 32, top)
                            cuts = [(r.choice([0, top - n, r.randrange(0, min(64, top - n) + 1), r.randrange(0, top - n + 1)]), n)]
                        cases.append((f, seeds(r), seeds(r), r.randrange(256), cuts))
                    todo.append((v, exe, top, cases))
        # counters of 16- and 32-byte blocks, and of 64- and 128-byte ones, past 2^32 (the last by the thorough tier)
        for v, exe in built[:1] if not c.thorough else [b for b in built if b[0].bits == 64][:3]:
            for f in fns:
                if f >= 8 and "aes" not in CPU: continue
                blk = {0: 32, 1: 32, 2: 32, 3: 32, 4: 32, 5: 32, 6: 16, 7: 16, 8: 16, 9: 16, 10: 16}[f]
                if c.thorough and f >= 8: blk = 128
                n = (blk << 32) + r.randrange(0, 4000)
                if f in (4, 5):
                    top = 9 * G
                    cuts = [(r.randrange(64), 8 * G + r.randrange(G)) for _ in range(n // (8 * G) + 1)]
                else: top, cuts = n + 64, [(r.randrange(0, 64), n)]
                todo.insert(0, (v, exe, top, [(f, seeds(r), seeds(r), r.randrange(256), cuts)]))
        campaign(c, todo, lambda f: 1 << 29 if f in (4, 5) else 1 << 31)
        c.finish()
    CHECKS["C19"] = C19


CPU_A_ = "native runs use this sandbox's x86 CPU; 32-bit runs have about 3 GiB of address space, larger totals are reached by streams"
