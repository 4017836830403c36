"""One function per property. Each builds what it needs from /repo's current tree."""
import json, os, random, sys
from vp import *
from variants import *
from fuzzing import fuzz
from c_huge import mid

CHECKS = {}
CASE_RULE = ("A case is (function, bytes, seed(s), length, alignment and page placement, neighbouring bytes, cut into updates) on one build variant; lengths, bytes and seeds come "
             "from weighted generators (uniform, boundary pool, words mined from the sources and object code, operands steered to edge values through the model). "
             "Non-trivial: the message has at least one byte and the case was not generated before in its campaign (hash table of cases).")
MODEL = "the byte-wise model in harness/ref.c is the published function (at start-up it reproduces all published vectors; it shares no code with the repository)"
CPU_A = "native runs use this sandbox's x86 CPU; other targets are cross-compiled and interpreted by the MIPS emulator in harness/be_emu.c"


def check(f):
    CHECKS[f.__name__] = f
    return f


def spread(c, names, mode, total, fns=ALL, grid=0, split=1, **kw):
    """the same number of cases on every variant, cut into `split` campaigns with different seeds (emulated variants get fewer)"""
    jobs = []
    for i in range(split):
        for n in names:
            e = c.vars[n].kind == "emu"
            if e and i and not c.thorough: continue
            t = max(1, total // split)
            g = grid if i == 0 else 0
            jobs.append((n, mode, dict(cases=max(1, t // 12) if e else t, fns=fns, grid=min(g, 80) if e and not c.thorough else g, **{x: y for x, y in kw.items() if not (e and x == "sweep")})))
    c.engine(jobs)


def value_check(prop, fns, fuzz_runs=1500000, cases=120000, split=2, variants=None, strict=True):
    c = Check(prop, CASE_RULE + " Oracle: an independent byte-wise model of the published functions, itself checked against the published vectors at start-up.", [MODEL, CPU_A])
    names = c.build(variants or (tails() + emus()), strict=strict)
    spread(c, names, "value", c.n(cases), fns, grid=290 if not c.thorough else 1100, split=split if not c.thorough else 8)
    fuzz(c, fns, c.n(fuzz_runs))
    mid(c, fns)
    c.finish()


@check
def C01(): value_check("C01", T1)


@check
def C02(): value_check("C02", T2)


HIST_RULE = (" A history is a sequence of up to 96 operations (init, update, final, copy of a context, unrelated one-shot hash) over up to four contexts; the fed buffer is overwritten after each "
             "update. A history is non-trivial if it has at least two non-empty updates and a digest and was not generated before.")


@check
def C03():
    c = Check("C03", CASE_RULE + HIST_RULE + " Oracle: metamorphic -- every digest of a generated cutting must equal the digest the code itself gives to one update with all the bytes at another "
              "address (no model involved); in addition cuttings are compared with the byte-wise model.", [CPU_A])
    names = c.build(tails() + debugs() + emus())
    spread(c, names, "histm", c.n(60000), STREAM, split=2, contexts=1)
    spread(c, names, "value", c.n(40000), STREAM, grid=140, split=2)
    mid(c, STREAM, 12, "cut", [std64(), mac("gcc64-unaligned0", ua=0), llp64("llp64")], (1 << 32) + (1 << 30), range(29, 33))
    mid(c, STREAM, 40, "cut", [std64(), std32(), mac("gcc64-unaligned0", ua=0), mac("gcc64-oneshot0", os=0), gen("generic64-unaligned0", ua=0)])
    c.finish()


@check
def C04():
    c = Check("C04", CASE_RULE + HIST_RULE + " Oracle: the byte-wise streaming model.", [MODEL, CPU_A])
    names = c.build(tails() + emus())
    spread(c, names, "value", c.n(60000), STREAM, grid=290, split=2)
    spread(c, names, "hist", c.n(40000), STREAM, split=2, contexts=1)
    fuzz(c, STREAM, c.n(1500000))
    mid(c, STREAM)
    c.finish()


@check
def C05(): value_check("C05", T0P)


@check
def C06():
    if "aes" not in CPU:
        c = Check("C06", CASE_RULE); c.note("this CPU has no AES-NI: nothing can be decided"); c.add(1, 1); c.finish()
    v = [std64(), std32(), cl64(), cl32(), cl64("-O1"), mac("gcc64-O1", opt="-O1"), mac("gcc64-unaligned0", ua=0), mac("gcc64-oneshot0", os=0), mac("gcc32-oneshot0", 32, os=0),
         mac("gcc64-tune-native", cflags=["-mtune=native"]), mac("gcc32-O2-sse2", 32, opt="-O2", cflags=["-msse2"]), mac("gcc64-O0", opt="-O0"), llp64("llp64")]
    v[4].name = "clang64-O1"
    value_check("C06", AES | M["t1ha2_atonce"], cases=160000, variants=v)


@check
def C08():
    c = Check("C08", CASE_RULE + " Every case runs between inaccessible pages with the input mapped read-only for the library, canaries around the context and the result word, a CPU-time limit per "
              "call and a handler for SEGV/BUS/ILL/FPE/TRAP/ABRT; zero-length cases also pass a null address. On emulated targets every write outside context and result is seen byte-exactly."
              " Oracle: no fault, no canary changed.", ["a stray write into unrelated valid memory of the native process is only seen by the canaries, the read-only input and (byte-exactly) the emulator", CPU_A])
    trap = mac("clang64-ubsan-trap", cc=CLANG, opt="-O1", ua=0, cflags=["-fsanitize=undefined", "-fsanitize-trap=undefined", "-fno-sanitize=alignment,nonnull-attribute"])
    names = c.build(tails() + [cl32(), trap, mac("gcc32-unaligned1", 32, ua=1), gen("generic32-unaligned0", 32, ua=0), gen("generic64-128bit", no128=False)] + debugs() + emus(True))
    spread(c, names, "mem", c.n(60000), ALL, grid=150 if not c.thorough else 600, split=2)
    spread(c, names, "hist", c.n(10000), STREAM, contexts=4)
    mid(c, ALL, 20, "safe", [std64(), std32(), mac("gcc64-unaligned0", ua=0), mac("gcc32-unaligned0", 32, ua=0), mac("gcc64-oneshot0", os=0), cl64()])
    c.finish()


@check
def C09():
    c = Check("C09", CASE_RULE + " Each case is repeated six times with the same bytes, length and seeds but other addresses, alignments, page offsets, surrounding bytes, earlier calls, and other stack "
              "and register contents. Oracle: metamorphic -- all repetitions give the same result.", [CPU_A])
    names = c.build(tails() + [mac("gcc64-O1", opt="-O1"), cl32()] + debugs()[:2] + emus())
    spread(c, names, "pure", c.n(50000), ALL, split=2)
    mid(c, ALL, 24, "move", [std64(), std32(), mac("gcc64-unaligned0", ua=0), mac("gcc32-unaligned0", 32, ua=0), mac("gcc64-oneshot0", os=0), cl64()])
    c.finish()


@check
def C12():
    axes = [a for a in NAMES if a not in ("off",)]
    c = Check("C12", CASE_RULE + " The build variants are a random covering array over target, compiler, word size and the documented tuning macros (every pair of settings occurs; every triple of target, "
              "alignment policy and one-shot read; thorough: every triple). A configuration that does not compile or link into a consumer is a failure. Each configuration runs its own self-checks and is "
              "compared with the model on generated cases, t1ha0 with the variant documented for the configuration.",
              [MODEL, CPU_A, "configurations the toolchain cannot express are left out: indirect functions on MIPS and in 32-bit position-independent programs, AES-NI on non-x86 targets"])
    cfgs = covering(c.seed, axes, 3 if c.thorough else 2, 60 if c.thorough else 0, force=[("arch", "T1HA_SYS_UNALIGNED_ACCESS", "T1HA_USE_FAST_ONESHOT_READ")])
    names = c.build([config_variant(x) for x in cfgs])
    c.note("%d configurations, %d built" % (len(cfgs), len(names)))
    spread(c, names, "self", 3, ALL)
    spread(c, names, "value", c.n(20000), ALL, grid=40)
    spread(c, names, "hist", c.n(1500), STREAM, contexts=2)
    mid(c, ALL, 12, "model", [mac("gcc64-unaligned0-oneshot0", ua=0, os=0), mac("gcc32-unaligned1-oneshot0", 32, ua=1, os=0), mac("gcc64-unaligned1", ua=1), mac("gcc32-unaligned0", 32, ua=0)])
    c.finish()


@check
def C13():
    axes = ["arch", "off", "T1HA0_RUNTIME_SELECT", "T1HA_USE_INDIRECT_FUNCTIONS", "T1HA0_AESNI_AVAILABLE", "T1HA0_USE_DEFINE", "assert"]
    c = Check("C13", CASE_RULE + " The build variants are a random covering array over target, disabled families (all eight subsets) and dispatch macros (every pair of settings; thorough: every triple); each is "
              "linked into a consumer that refers to every function the header still declares. A configuration that does not compile or link is a failure. Each configuration runs its own self-checks, is "
              "compared with the model on generated cases, and t1ha0 with the family documented for the configuration.", [MODEL, CPU_A])
    cfgs = covering(c.seed, axes, 3 if c.thorough else 2, 0)
    names = c.build([config_variant(x) for x in cfgs])
    c.note("%d configurations, %d built" % (len(cfgs), len(names)))
    spread(c, names, "self", 3, ALL)
    spread(c, names, "value", c.n(20000), ALL, grid=40)
    spread(c, names, "hist", c.n(1500), STREAM, contexts=2)
    c.finish()


@check
def C14():
    c = Check("C14", CASE_RULE + " The build variants are cross-compiled MIPS code (big/little endian, 32/64 bit, each alignment policy, with and without one-shot reads, run by an emulator that faults on "
              "misaligned accesses) and native builds as for an unknown architecture (no 128-bit type, no byte-swap builtins, no x86) or for a 64-bit target whose long has 32 bits (Windows conventions). Oracle: the byte-wise model; t1ha0 must be the documented function for the byte "
              "order and word size.", [MODEL, "the emulator in harness/be_emu.c implements MIPS32r2/MIPS64r2 faithfully (all stable functions agree with the model on it)"])
    g = [gen("generic%d-unaligned%d%s%s" % (b, u, "-os0" if o == 0 else "", "-%s" % cc_[:5] if cc_ != "gcc" else ""), b, u, o, cc_)
         for b, u, o, cc_ in ((64, 0, None, "gcc"), (64, 1, None, CLANG), (64, 2, None, "gcc"), (64, 2, 0, "gcc"), (32, 0, None, "gcc"), (32, 1, None, "gcc"), (32, 2, None, CLANG), (32, 0, 0, "gcc"), (32, 2, 0, "gcc"))]
    names = c.build(emus(True) + [emu("mips-be64-select", "be64", defs=["T1HA0_RUNTIME_SELECT=1", "T1HA_USE_INDIRECT_FUNCTIONS=0"]), emu("mips-be32-select", "be32", defs=["T1HA0_RUNTIME_SELECT=1", "T1HA_USE_INDIRECT_FUNCTIONS=0"]),
                                  emu("mips-be64-O0", "be64", opt="-O0"), emu("mips-be32-O3", "be32", opt="-O3")] + g + [llp64("llp64"), llp64("llp64-unaligned0", 0), llp64("llp64-unaligned1-oneshot0", 1, 0, "-O3")] + [gen("generic64-128bit", no128=False)])
    em = [n for n in names if c.vars[n].kind == "emu"]
    spread(c, names, "self", 3, ALL)
    spread(c, names, "value", c.n(60000), ALL, grid=140)
    spread(c, em, "value", c.n(60000), ALL, grid=0)
    spread(c, names, "hist", c.n(6000), STREAM, contexts=2)
    mid(c, ALL, 12, "model", [gen("generic64-unaligned0", ua=0), gen("generic32-unaligned2-oneshot0", 32, ua=2, os=0), llp64("llp64"), gen("generic64-128bit", no128=False)])
    c.finish()


@check
def C17():
    c = Check("C17", CASE_RULE + " For each case up to 96 input bits, seed bits and the length (one byte more, one less) are changed in six independent contexts of the same shape (same length and place; other bytes, other seeds, or both); short messages are swept bit by bit, long ones (to 160 KB) word by word; ladders hash every length of one repeated byte with one seed. Oracle: for each bit at "
              "least one of the contexts gives another result (chance of a false alarm at most 2^-192); no three pairs of a ladder collide.", [CPU_A])
    names = c.build(tails() + [cl32()] + emus())
    spread(c, names, "bits", c.n(9000), ALL & ~T0, split=2, sweep=90)
    c.finish()


@check
def C18():
    c = Check("C18", "A shape is (function, length, kind of keys: random, sparse, similar, counters, text; kind of seed; a salt; one in four of them 4-64 KB long); for a shape 256-2048 generated keys per flipped bit are hashed, up to 24 "
              "bits are flipped, and bit bias and byte histograms over 1024-8192 keys are taken. Oracle: statistical -- flip rates within 9 sigma of one half, biases within 9 sigma, chi-square below 526 for 255 degrees "
              "of freedom, each confirmed on an independent double-size sample. A family is 2^16 or 2^18 different keys of 8 to 6000 bytes (counters, text, few bits set, seeds, random); no two hashes may be equal but one pair, and equal "
              "32-bit halves may exceed the expected number by 30. Non-trivial: distinct shape or family.", [CPU_A, "statistical bounds: the chance of a false alarm per run is below 1e-9"])
    names = c.build([std64(), std32(), mac("gcc64-unaligned0", ua=0), mac("gcc64-oneshot0", os=0), gen("generic64-unaligned1", ua=1), gen("generic32-unaligned0", 32, ua=0), cl64(), mac("gcc32-oneshot0", 32, os=0)])
    for _ in range(1):
        spread(c, names, "aval", c.n(150), T2 | STREAM, split=2 if not c.thorough else 12, sweep=1)
    c.finish()


@check
def C21():
    c = Check("C21", HIST_RULE.strip() + " Four contexts live at generated addresses and hold arbitrary bytes before their first init. Oracle: a model stream per context (and, for half of the histories, the code "
              "itself fed with the same bytes at once in a fresh context).", [MODEL, CPU_A])
    names = c.build(tails() + [cl32()] + debugs() + emus())
    spread(c, names, "hist", c.n(50000), STREAM, contexts=4, split=2)
    spread(c, names, "histm", c.n(30000), STREAM, contexts=4)
    c.finish()


for _m in ("c_access", "c_dispatch", "c_threads", "c_selfcheck", "c_huge", "c_package", "c_compiler", "c_regs"):
    if os.path.exists(os.path.join(VERIF, "lib", _m + ".py")):
        __import__(_m).register(CHECKS)


def replay(prop, path):
    try:
        txt = open(path, "rb").read()
    except OSError as e:
        print(e)
        return 2
    spec = None
    for l in txt.decode("utf-8", "replace").splitlines():
        if l.startswith("variant {"):
            spec = json.loads(l[8:])
    if spec is None:
        print("%s: not a case file; run the whole check instead (it is deterministic for a given VERIF_SEED):" % path)
        print(txt.decode("utf-8", "replace")[:3000])
        return 2
    keep = os.path.join(VERIF, "out", "replay-input")
    os.makedirs(os.path.dirname(keep), exist_ok=True)
    open(keep, "wb").write(txt)
    c = Check(prop + "-replay", "replay")
    c.build([Variant.from_spec(spec)])
    exe = c.exes[spec["name"]]
    cmd = (exe if isinstance(exe, list) else [exe])
    r = run(cmd[:1] + ["replay", "file=" + keep] + cmd[1:])
    print(r.out.strip() or r.err)
    return 1 if r.rc == 1 else 0
