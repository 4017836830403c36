"""Coverage-guided (libFuzzer, value profile) differential stage."""
import os, re, shutil
from vp import *


def fuzz(c, mask, runs, jobs=None, max_len=1100, name="fuzz"):
    if "aes" not in CPU: mask &= ~AES
    if "avx2" not in CPU: mask &= ~M["t1ha0_ia32aes_avx2"]
    if "avx" not in CPU: mask &= ~M["t1ha0_ia32aes_avx"]
    mask &= ~T0
    if not mask: return
    v = Variant("libfuzzer", cc=CLANG, cflags=["-O1", "-fsanitize=fuzzer-no-link", "-fno-builtin"])
    c.vars[v.name] = v
    r = c.lib_objects([v])[v.name]
    d = c.tmp("-fuzz"); os.makedirs(d)
    try:
        if isinstance(r, BuildError): raise r
        ref, fz = os.path.join(d, "ref.o"), os.path.join(d, "fuzz.o")
        c.cc([CLANG, "-O2", "-w", "-I", HARN, "-c", HARN + "/ref.c", "-o", ref], "fuzz model")
        c.cc([CLANG, "-O1", "-w", "-I", HARN, "-I", REPO, "-DFUZZ_MASK=%d" % mask, "-c", HARN + "/fuzz.c", "-o", fz], "fuzz target")
        exe = os.path.join(d, "fuzz")
        c.cc([CLANG, "-fsanitize=fuzzer", "-o", exe, fz, ref] + r, "fuzz link")
    except BuildError as e:
        c.note("the fuzzing stage could not be built and was left out: " + str(e)[-300:])
        return
    words = [int(w, 16) for w in open(c.mine_dict()).read().split()]
    with open(d + "/dict", "w") as f:
        for i, w in enumerate(words[:1500]):
            for nb in ([8] if w >> 32 else [4, 8]) if w >> 16 else [2, 4]:
                f.write('"%s"\n' % "".join("\\x%02x" % (w >> (8 * k) & 255) for k in range(nb)))
    jobs = jobs or JOBS
    futs = []
    for j in range(jobs):
        cd = os.path.join(d, "corpus%d" % j); os.makedirs(cd)
        if j & 1:  # half of the campaigns start from small valid inputs, half from nothing
            for k, n in enumerate((0, 1, 7, 8, 31, 32, 33, 64, 127, 128, 129, 200, 256, 300)):
                with open(cd + "/s%d" % k, "wb") as f:
                    f.write(bytes([k, k * 7 & 255, k]) + bytes(range(8)) + bytes(range(8)) + bytes((i * 37 + k) & 255 for i in range(n)))
        art = os.path.join(d, "art%d-" % j)
        cmd = [exe, "-runs=%d" % runs, "-seed=%d" % ((c.seed * 131 + j * 7 + 1) & 0x7fffffff or 1), "-use_value_profile=1", "-max_len=%d" % max_len, "-len_control=20",
               "-dict=" + d + "/dict", "-artifact_prefix=" + art, "-print_final_stats=0", "-verbosity=0", "-timeout=120", "-rss_limit_mb=3000", cd]
        futs.append((j, cmd, art, c.pool.submit(run, cmd, 500 if not c.thorough else 7000)))
    for j, cmd, art, f in futs:
        r = f.result()
        ex = re.findall(r"FUZZSTATS (\d+) (\d+)", r.out)
        if r.timeout:
            c.note("fuzzing job %d hit its time budget: inconclusive" % j)
        arts = [p for p in glob.glob(art + "*")]
        if ex:
            c.add(int(ex[-1][0]), int(ex[-1][1]), "libfuzzer")
        if arts and r.rc:
            oks = [run([exe, arts[0]], 120) for _ in range(3)]
            if all(o.rc for o in oks):
                dst = os.path.join(c.outdir, "fuzz-%d.bin" % j)
                sm = run([exe, "-minimize_crash=1", "-runs=20000", "-exact_artifact_path=" + dst, "-max_total_time=20", "-verbosity=0", arts[0]], 60)
                if not os.path.exists(dst): shutil.copy(arts[0], dst)
                mm = [l for l in oks[0].out.splitlines() if l.startswith("MISMATCH")]
                why = mm[0] if mm else "crash: " + (oks[0].err.strip().splitlines() or [""])[-1]
                c.violations.append((dst, why))
                print("failure (fuzzing): " + why)
                return
            c.note("a fuzzing crash did not reproduce")
