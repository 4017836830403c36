"""Cross-compiles the library to MIPS (32/64 bit, big/little endian) for the emulator backend."""
import glob, os, shutil
from vp import *

TARGETS = {"be32": ("mips-unknown-elf", "mips32r2"), "le32": ("mipsel-unknown-elf", "mips32r2"), "be64": ("mips64-unknown-elf", "mips64r2"), "le64": ("mips64el-unknown-elf", "mips64r2")}


def lld():
    for p in ("/usr/bin/ld.lld-18", "/usr/lib/llvm-18/bin/ld.lld"):
        if os.path.exists(p):
            return p
    return shutil.which("ld.lld") or "ld.lld"


def emu(name, target, ua=None, os_=None, opt="-O2", defs=(), cflags=()):
    d = []
    if ua is not None: d.append("T1HA_SYS_UNALIGNED_ACCESS=%d" % ua)
    if os_ is not None: d.append("T1HA_USE_FAST_ONESHOT_READ=%d" % os_)
    return Variant(name, cc=CLANG, kind="emu", target=target, defs=d + list(defs), cflags=list(cflags), base=[opt])


def build(c, v):
    triple, march = TARGETS[v.target]
    d = os.path.join(c.dir, "v_" + re.sub(r"\W", "_", v.name))
    os.makedirs(d, exist_ok=True)
    base = [CLANG, "-target", triple, "-march=" + march, "-msoft-float", "-mno-abicalls", "-fno-pic", "-G0", "-std=c11", "-w", "-DNDEBUG", "-nostdlibinc",
            "-isystem", HARN + "/guest/include", "-idirafter", "/usr/include", "-idirafter", "/usr/include/x86_64-linux-gnu", "-fno-stack-protector", "-fno-asynchronous-unwind-tables"]
    base += v.base + v.cflags + ["-D" + x for x in v.defs]
    if march == "mips64r2":
        base += ["-mabi=64"]
    objs = []
    for f in sources():
        if "ia32aes" in f:
            continue
        o = os.path.join(d, f[:-2] + ".o")
        c.cc(base + ["-c", os.path.join(REPO, "src", f), "-o", o], "cross-compiling the library (%s)" % v.name)
        objs.append(o)
    for f, x in (("guest.c", []), ("rt.c", ["-fno-builtin", "-fno-sanitize=all"])):
        o = os.path.join(d, f[:-2] + ".guest.o")
        c.cc(base + x + ["-I", REPO, "-c", HARN + "/guest/" + f, "-o", o], "guest harness (%s)" % v.name)
        objs.append(o)
    elf = os.path.join(d, "guest.elf")
    c.cc([lld(), "-static", "-e", "g_main", "--image-base=0x10000000", "-o", elf] + objs, "linking the guest (%s)" % v.name)
    # a target which says that misaligned access is fine gets hardware on which it is
    lax = any(x.split("=")[0] == "T1HA_SYS_UNALIGNED_ACCESS" and x.split("=")[1] != "0" for x in v.defs if "=" in x)
    return [emu_engine(c), "guest=" + elf] + (["lax=1"] if lax else [])


def emu_engine(c):
    import concurrent.futures as cf
    with _l:
        if not hasattr(c, "_emu_exe"):
            exe = os.path.join(c.dir, "emu_engine")
            c.cc(["gcc", "-O2", "-g", "-w", "-I", HARN, "-o", exe] + [HARN + "/" + f for f in ("engine.c", "be_emu.c", "ref.c")] + ["-lm"], "emulator")
            c._emu_exe = exe
        return c._emu_exe


import threading
_l = threading.Lock()
