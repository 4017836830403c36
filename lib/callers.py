"""Generates C (and C++) functions that store data through various types just before and between hash calls, and
compares every digest with the model on a byte-wise copy of what was stored."""
import random

SCALARS = [("uint8_t", 1), ("int8_t", 1), ("char", 1), ("int16_t", 2), ("uint16_t", 2), ("int32_t", 4), ("uint32_t", 4), ("int64_t", 8), ("uint64_t", 8), ("float", 4), ("double", 8), ("long", 0), ("unsigned long long", 8),
           ("void *", 0), ("wchar_t", 4), ("enum en", 4)]


def value(t, r):
    if t in ("float", "double"): return "(%s)(int)rnd(r)" % t
    if t == "void *": return "(void *)(uintptr_t)rnd(r)"
    if t == "enum en": return "(enum en)(rnd(r) & 3)"
    return "(%s)rnd(r)" % t


PRELUDE = r'''
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif
#include "ref.h"
#ifdef __cplusplus
}
#endif
#include "util.h"
#ifdef UNITY
#include UNITY
#else
#include "t1ha.h"
#endif
#ifdef __cplusplus
extern "C" {
#endif
enum en { E0, E1, E2, E3 };
typedef uint32_t v4u __attribute__((vector_size(16)));
typedef uint64_t v2u __attribute__((vector_size(16)));
#define NORES 16
extern char vp_why[400];
#define EXPECT(cs) for (int i_ = 0; i_ < nk; i_++) { uint64_t hi_ = 0, w_ = ref_call(kf[i_], kf[i_], E[i_] + ko[i_], kl[i_], ks[i_], ks2[i_], &hi_, NULL); \
  if (w_ != kr[i_] || ((kf[i_] == FN_T2X || kf[i_] == FN_SX) && hi_ != kh[i_])) { snprintf(vp_why, sizeof vp_why, "program %d, hash number %d: %s of %u bytes at offset %u gives %016llx instead of %016llx", \
     cs, i_, fn_name[kf[i_]], (unsigned)kl[i_], (unsigned)ko[i_], (unsigned long long)kr[i_], (unsigned long long)w_); return 1; } }
'''


class Prog:
    def __init__(self, rnd, n, fns):
        self.r, self.n, self.fns, self.decl, self.body = rnd, n, fns, [], []

    def fields(self, depth=0):
        r, out = self.r, []
        for i in range(r.randint(1, 7)):
            if depth == 0 and r.random() < .18:
                out.append(("f%d" % i, self.fields(1), r.choice([0, 0, 2, 3])))
            elif r.random() < .1:
                out.append(("f%d" % i, r.choice(["v4u", "v2u"]), 0))
            else:
                out.append(("f%d" % i, r.choice(SCALARS)[0], r.choice([0, 0, 0, 1, 2, 3, 5, 8, 17])))
        return out

    def struct(self, fs, pack=False):
        s = "struct {"
        for n, t, a in fs:
            s += (self.struct(t) if isinstance(t, list) else t) + " " + n + ("[%d]" % a if a else "") + "; "
        return s + "}"

    def leaves(self, fs, pre=""):
        for n, t, a in fs:
            if isinstance(t, list):
                for k in range(a or 1): yield from self.leaves(t, pre + n + ("[%d]" % k if a else "") + ".")
            else: yield pre + n, t, a

    def gen(self):
        r, n = self.r, self.n
        fs = self.fields()
        T = "T%d" % n
        L = list(self.leaves(fs))
        kind = r.choice(["local", "local", "static", "heap", "heap", "param"])
        o = [PRE_FN % dict(n=n, T=T, noinline="")]
        o[0] = "typedef %s %s;\n" % (self.struct(fs), T)
        if kind == "static": o.append("static %s g%d;\n" % (T, n))
        ops, nk = [], 0
        acc = {"local": "o.", "static": "g%d." % n, "heap": "p->", "param": "p->"}[kind]
        base = {"local": "(&o)", "static": "(&g%d)" % n, "heap": "p", "param": "p"}[kind]
        streams = any(f in ("FN_S", "FN_SX") for f in self.fns)

        def store():
            nm, t, a = r.choice(L)
            m = r.randint(0, 3)
            if t in ("v4u", "v2u"):
                ops.append("{ %s v = {%s}; %s%s = v; memcpy(e + offsetof(%s, %s), &v, sizeof v); }" % (t, ", ".join("(%s)rnd(r)" % ("uint32_t" if t == "v4u" else "uint64_t") for _ in range(4 if t == "v4u" else 2)), acc, nm, T, nm))
            elif a:
                if m == 0: ops.append("for (int i = 0; i < %d; i++) { %s v = %s; %s%s[i] = v; memcpy(e + offsetof(%s, %s) + (size_t)i * sizeof v, &v, sizeof v); }" % (a, t, value(t, r), acc, nm, T, nm))
                elif m == 1: ops.append("{ %s v = %s; %s *q = %s%s + %d; *q = v; memcpy(e + offsetof(%s, %s) + %d * sizeof v, &v, sizeof v); }" % (t, value(t, r), t, acc, nm, a - 1, T, nm, a - 1))
                else:
                    k = r.randrange(a)
                    ops.append("{ %s v = %s; %s%s[%d] = v; memcpy(e + offsetof(%s, %s) + %d * sizeof v, &v, sizeof v); }" % (t, value(t, r), acc, nm, k, T, nm, k))
            else:
                ops.append("{ %s v = %s; %s; memcpy(e + offsetof(%s, %s), &v, sizeof v); }" % (t, value(t, r), "%s%s = v" % (acc, nm) if m else "%s *q = &%s%s; *q = v" % (t, acc, nm), T, nm))

        def hash_():
            nonlocal nk
            f = r.choice(self.fns)
            off, ln = "0", "sizeof(%s)" % T
            if r.random() < .5:
                ops.append("x = below(r, sizeof(%s)); y = below(r, sizeof(%s) - x + 1);" % (T, T))
                off, ln = "x", "y"
            elif r.random() < .6:
                nm, t, a = r.choice(L)
                off, ln = "offsetof(%s, %s)" % (T, nm), "sizeof %s%s" % (acc, nm)
            seed = r.choice(["0", "rnd(r)", "rnd(r)", "(uint64_t)below(r, 100)"])
            k = nk
            nk += 1
            pre = "kf[%d] = %s; ko[%d] = %s; kl[%d] = %s; ks[%d] = ks2[%d] = %s; " % (k, f, k, off, k, ln, k, k, seed)
            d = "(const char *)%s + ko[%d]" % (base, k)
            if off == "0" and r.random() < .5: d = base
            call = {"FN_T1LE": "t1ha1_le", "FN_T1BE": "t1ha1_be", "FN_T2": "t1ha2_atonce", "FN_T0LE": "t1ha0_32le", "FN_T0BE": "t1ha0_32be", "FN_AN": "t1ha0_ia32aes_noavx", "FN_AA": "t1ha0_ia32aes_avx", "FN_A2": "t1ha0_ia32aes_avx2"}.get(f)
            if call: ops.append(pre + "kr[%d] = %s(%s, kl[%d], ks[%d]); memcpy(E[%d], e, sizeof e);" % (k, call, d, k, k, k))
            elif f == "FN_T2X":
                ops.append(pre + "kr[%d] = t1ha2_atonce128(&kh[%d], %s, kl[%d], ks[%d]); memcpy(E[%d], e, sizeof e);" % (k, k, d, k, k, k))
            else:  # a stream whose context lives where the program says; the middle may be stored into between the updates
                cut = r.choice(["0", "kl[%d]" % k, "below(r, kl[%d] + 1)" % k, "kl[%d] / 2" % k])
                ctx = r.choice(["t1ha_context_t c_", "static t1ha_context_t c_", "t1ha_context_t *hc_ = (t1ha_context_t *)scratch"])
                cr = "hc_" if "*" in ctx else "&c_"
                dirty = "{ double *z = (double *)scratch; for (int i = 0; i < 12; i++) z[i] = (double)(int)rnd(r); sink += z[rnd(r) % 12]; }" if "*" in ctx and r.random() < .7 else ""
                late = "{ uint16_t *z = (uint16_t *)scratch; for (int i = 0; i < 40; i++) z[i] = (uint16_t)rnd(r); sink += z[rnd(r) % 40]; }" if dirty else ""
                ops.append(pre + "ks2[%d] = rnd(r); { %s; %s size_t c1 = %s; t1ha2_init(%s, ks[%d], ks2[%d]); t1ha2_update(%s, %s, c1); t1ha2_update(%s, (const char *)%s + ko[%d] + c1, kl[%d] - c1); "
                           "kr[%d] = t1ha2_final(%s, %s); %s } memcpy(E[%d], e, sizeof e);" % (k, ctx, dirty, cut, cr, k, k, cr, d, cr, base, k, k, k, cr, "&kh[%d]" % k if f == "FN_SX" else "NULL", late, k))

        nops = r.randint(3, 12)
        for _ in range(r.randint(0, 2)): store()
        for i in range(nops):
            if nk < 9 and (r.random() < .4 or i == nops - 1): hash_()
            elif r.random() < .1: ops.append("{ %s t = *%s; *%s = t; }" % (T, base, base))
            elif r.random() < .08: ops.append("{ %s t; memset(&t, %d, sizeof t); *%s = t; memset(e, %d, sizeof e); }" % (T, 0, base, 0))
            else: store()
        if not nk: hash_()
        o.append("static %s int prog%d(rng_t *r%s) {\n" % (r.choice(["", "", "__attribute__((noinline))"]), n, ", %s *p" % T if kind == "param" else ""))
        o.append("  static uint8_t E[%d][sizeof(%s)]; uint8_t e[sizeof(%s)]; uint64_t kr[%d], kh[%d], ks[%d], ks2[%d]; size_t ko[%d], kl[%d], x = 0, y = 0; int kf[%d], nk = %d; double sink = 0;\n" % (nk, T, T, nk, nk, nk, nk, nk, nk, nk, nk))
        o.append("  void *scratch = aligned_alloc(64, 256); memset(scratch, 0, 256); (void)x; (void)y;\n")
        if kind == "local": o.append("  %s o;\n" % T)
        if kind == "heap": o.append("  %s *p = (%s *)aligned_alloc(64, (sizeof(%s) + 127) & ~(size_t)63);\n" % (T, T, T))
        o.append("  memset(%s, 0, sizeof(%s)); memset(e, 0, sizeof e);\n" % (base, T))
        o += ["  " + x + "\n" for x in ops]
        o.append("  EXPECT(%d)\n  vp_sink += sink; free(scratch);%s\n  return 0;\n}\n" % (n, " free(p);" if kind == "heap" else ""))
        call = "prog%d(r)" % n
        if kind == "param":
            o.append("static int wrap%d(rng_t *r) { %s *p = (%s *)aligned_alloc(64, (sizeof(%s) + 127) & ~(size_t)63); int b = prog%d(r, p); free(p); return b; }\n" % (n, T, T, T, n))
            call = "wrap%d(r)" % n
        return "".join(o), call, nk


class Arr(Prog):
    """an array of one type: elements are stored, hashed (whole elements, constant sizes) and overwritten at once, where the compiler sees everything"""
    def gen(self):
        r, n = self.r, self.n
        t = r.choice(["double", "double", "float", "int16_t", "uint32_t", "void *", "int64_t", "long", "unsigned long long", "v2u", "v4u", "int32_t", "uint8_t"])
        cnt = r.choice([1, 2, 3, 3, 4, 5, 6, 8, 12])
        if t in ("float", "uint32_t", "int32_t"): cnt = r.choice([cnt, 2 * cnt])
        if t in ("int16_t",): cnt = 4 * r.randint(1, 12)
        if t == "uint8_t": cnt = 8 * r.randint(1, 8)
        kind = r.choice(["local", "local", "heap", "param"])
        o, nk, ops = [], 0, []

        def fill(track=True):
            for i in range(cnt):
                v = "(%s){%s}" % (t, ", ".join("(%s)rnd(r)" % ("uint32_t" if t == "v4u" else "uint64_t") for _ in range(4 if t == "v4u" else 2))) if t in ("v4u", "v2u") else value(t, r)
                ops.append("{ const %s v = %s; q[%d] = v;%s }" % (t, v, i, " memcpy(e + %d * sizeof(%s), &v, sizeof v);" % (i, t) if track else ""))

        def clear():
            m = r.randint(0, 2)
            if m == 0: ops.append("for (int i = 0; i < %d; i++) { %s v; memset(&v, 0, sizeof v); q[i] = v; }" % (cnt, t))
            elif m == 1: fill(False)
            else: ops.append("{ %s v; memset(&v, 255, sizeof v); for (int i = 0; i < %d; i++) q[i] = v; }" % (t, cnt))
        for _ in range(r.randint(1, 2)):
            f = r.choice(self.fns)
            fill()
            a = r.choice([0, 0, 0, r.randrange(cnt)])
            ln = r.choice([cnt - a, cnt - a, r.randint(1, cnt - a)])
            k = nk; nk += 1
            seed = r.choice(["0", "rnd(r)"])
            ops.append("kf[%d] = %s; ko[%d] = %d * sizeof(%s); kl[%d] = %d * sizeof(%s); ks[%d] = ks2[%d] = %s;" % (k, f, k, a, t, k, ln, t, k, k, seed))
            d, L = "q + %d" % a, "%d * sizeof(%s)" % (ln, t)
            call = {"FN_T1LE": "t1ha1_le", "FN_T1BE": "t1ha1_be", "FN_T2": "t1ha2_atonce", "FN_T0LE": "t1ha0_32le", "FN_T0BE": "t1ha0_32be", "FN_AN": "t1ha0_ia32aes_noavx", "FN_AA": "t1ha0_ia32aes_avx", "FN_A2": "t1ha0_ia32aes_avx2"}.get(f)
            if call: ops.append("kr[%d] = %s(%s, %s, ks[%d]);" % (k, call, d, L, k))
            elif f == "FN_T2X": ops.append("kr[%d] = t1ha2_atonce128(&kh[%d], %s, %s, ks[%d]);" % (k, k, d, L, k))
            else:
                cut = r.choice([0, 0, r.randint(0, ln), r.randint(0, ln)])
                up = "t1ha2_update(&c_, %s, %d * sizeof(%s)); " % (d, cut, t) if cut else ""
                if cut and r.random() < .5:  # the part that was fed is overwritten before the next one
                    up += "{ %s v; memset(&v, 0x55, sizeof v); for (int i = %d; i < %d; i++) q[i] = v; } " % (t, a, a + cut)
                ops.append("ks2[%d] = rnd(r); { t1ha_context_t c_; t1ha2_init(&c_, ks[%d], ks2[%d]); %st1ha2_update(&c_, %s + %d, %d * sizeof(%s));" % (k, k, k, up, d, cut, ln - cut, t))
                if r.random() < .6: clear()
                ops.append("kr[%d] = t1ha2_final(&c_, %s); }" % (k, "&kh[%d]" % k if f == "FN_SX" else "NULL"))
            clear()
            ops.append("memcpy(E[%d], e, sizeof e);" % k)
        sz = "%d * sizeof(%s)" % (cnt, t)
        o.append("static __attribute__((noinline)) int prog%d(rng_t *r%s) {\n" % (n, ", %s *q" % t if kind == "param" else ""))
        o.append("  static uint8_t E[%d][%s]; uint8_t e[%s]; uint64_t kr[%d], kh[%d], ks[%d], ks2[%d]; size_t ko[%d], kl[%d]; int kf[%d], nk = %d; double sink = 0;\n" % (nk, sz, sz, nk, nk, nk, nk, nk, nk, nk, nk))
        if kind == "local": o.append("  %s q[%d];\n" % (t, cnt))
        if kind == "heap": o.append("  %s *q = (%s *)aligned_alloc(64, (%s + 127) & ~(size_t)63);\n" % (t, t, sz))
        if kind == "param": o.append("  q = (%s *)__builtin_assume_aligned(q, 16);\n" % t)
        o.append("  memset(e, 0, sizeof e);\n")
        o += ["  " + x + "\n" for x in ops]
        o.append("  { double z[%d]; memcpy(z, q, %s); sink += z[0] != z[0]; }\n" % (cnt * 2 + 1, sz))
        o.append("  EXPECT(%d)\n  vp_sink += sink;%s\n  return 0;\n}\n" % (n, " free(q);" if kind == "heap" else ""))
        call = "prog%d(r)" % n
        if kind == "param":
            o.append("static int wrap%d(rng_t *r) { %s *p = (%s *)aligned_alloc(64, (%s + 127) & ~(size_t)63); int b = prog%d(r, p); free(p); return b; }\n" % (n, t, t, sz, n))
            call = "wrap%d(r)" % n
        return "".join(o), call, nk


PRE_FN = "%(n)d %(T)s %(noinline)s"


def generate(seed, count, fns, name, arrays=.25):
    """-> (source text, hashes per round). `name` is the extern function to define"""
    r = random.Random(seed)
    out, calls, hashes = [PRELUDE, "extern volatile double vp_sink;\n"], [], 0
    for i in range(count):
        t, call, nk = (Arr if r.random() < arrays else Prog)(r, i, fns).gen()
        out.append(t); calls.append(call); hashes += nk
    out.append("int %s(uint64_t seed, long rounds, int only);\nint %s(uint64_t seed, long rounds, int only) {\n  for (long i = 0; i < rounds; i++) {\n" % (name, name))
    for i, x in enumerate(calls):
        out.append("    if (only < 0 || only == %d) { rng_t q = {mix64_(seed * 1000 + (uint64_t)i * 64 + %d)}, *r = &q; if (%s) return 1; }\n" % (i, i, x))
    out.append("  }\n  return 0;\n}\n#ifdef __cplusplus\n}\n#endif\n")
    return "".join(out), hashes


MAIN = r'''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
#include "ref.h"
uint64_t *dict; size_t dict_n; volatile double vp_sink; char vp_why[400];
int vp_callers(uint64_t seed, long rounds, int only);
int main(int argc, char **argv) {
  if (ref_selftest()) return 3;
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 0) : 1; long rounds = argc > 2 ? atol(argv[2]) : 10; int only = argc > 3 ? atoi(argv[3]) : -1;
  if (vp_callers(seed, rounds, only)) { printf("FAIL %s\n", vp_why); return 1; }
  printf("CALLERSTATS %ld\n", rounds);
  return 0;
}
'''
