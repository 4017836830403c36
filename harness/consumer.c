/* C20: a program that uses the library through its header. Compiled as C (gnu89 and later) and C++ (98 and later), linked with
 * every packaging. -DUSE=mask picks the functions the program refers to, -DDL takes them from dlopen(), -DEXPORTED leaves out
 * what the header does not declare as exported.
 * argv: seed rounds libpath|- flags second-libpath|-   (a second copy of the library, loaded while the program runs) */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#ifdef HEADER_FIRST
#include "t1ha.h"
#endif
#include <dlfcn.h>
#include <pthread.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
#include "ref.h"
#include "util.h"
#ifdef __cplusplus
}
#endif
#ifdef EXTERN_C
extern "C" {
#endif
#include "t1ha.h"
#ifdef EXTERN_C
}
#endif
#include "t1ha.h" /* twice */

#define U(n) ((USE >> n) & 1)
#if defined(T1HA1_DISABLED)
#define HAS1 0
#else
#define HAS1 1
#endif
#if defined(T1HA2_DISABLED)
#define HAS2 0
#else
#define HAS2 1
#endif
#if defined(T1HA0_DISABLED)
#define HAS0 0
#define HASA 0
#else
#define HAS0 1
#define HASA T1HA0_AESNI_AVAILABLE
#endif
#if HAS0 && T1HA0_RUNTIME_SELECT
#define HASR 1
#else
#define HASR 0
#endif
#ifdef EXPORTED
#define LOCAL 0
#else
#define LOCAL 1
#endif

uint64_t *dict;
size_t dict_n;
typedef uint64_t (*hash_f)(const void *, size_t, uint64_t);
typedef int (*check_f)(void);
static struct api {
  hash_f t1le, t1be, t2, t0, t0le, t0be, an, aa, a2, resolved;
  uint64_t (*t2x)(uint64_t *, const void *, size_t, uint64_t);
  void (*init)(t1ha_context_t *, uint64_t, uint64_t);
  void (*update)(t1ha_context_t *, const void *, size_t);
  uint64_t (*final)(t1ha_context_t *, uint64_t *);
  check_f sc[16];
} A, B;
static int haveB, impl = -1, nsc;
static char why[600];

#ifdef DL
#define DIRECT(n) 0
#else
#define DIRECT(n) U(n)
#endif

#if !defined(DL)
/* addresses in static storage: relocated at start-up */
#if DIRECT(0) && HAS1
static hash_f const st_t1le = t1ha1_le;
#endif
#if DIRECT(5) && HAS0 && HASR && T1HA_USE_INDIRECT_FUNCTIONS
static hash_f const st_t0 = t1ha0;
#endif
static void linked(struct api *a) {
  memset(a, 0, sizeof *a);
#if U(0) && HAS1
  a->t1le = st_t1le;
#endif
#if U(1) && HAS1
  a->t1be = t1ha1_be;
#endif
#if U(2) && HAS2
  a->t2 = t1ha2_atonce;
#endif
#if U(3) && HAS2
  a->t2x = t1ha2_atonce128;
#endif
#if U(4) && HAS2
  a->init = t1ha2_init; a->update = t1ha2_update; a->final = t1ha2_final;
#endif
#if U(5) && HAS0
#if HASR && T1HA_USE_INDIRECT_FUNCTIONS
  a->t0 = st_t0;
#else
  a->t0 = t1ha0;
#endif
#if HASR
  a->resolved = t1ha0_resolve();
#endif
#endif
#if U(6) && HAS0 && LOCAL
  a->t0le = t1ha0_32le;
#endif
#if U(7) && HAS0 && LOCAL
  a->t0be = t1ha0_32be;
#endif
#if U(8) && HASA && LOCAL
  a->an = t1ha0_ia32aes_noavx;
#endif
#if U(9) && HASA && LOCAL
  a->aa = t1ha0_ia32aes_avx;
#endif
#if U(10) && HASA && LOCAL
  a->a2 = t1ha0_ia32aes_avx2;
#endif
#ifndef NO_SELFCHECK
#if U(11)
  a->sc[nsc++] = t1ha_selfcheck__all_enabled;
#endif
#if U(12) && HAS2
  a->sc[nsc++] = t1ha_selfcheck__t1ha2_atonce; a->sc[nsc++] = t1ha_selfcheck__t1ha2_atonce128; a->sc[nsc++] = t1ha_selfcheck__t1ha2_stream;
#endif
#if U(13) && HAS2
  a->sc[nsc++] = t1ha_selfcheck__t1ha2;
#endif
#if U(14) && HAS1
  a->sc[nsc++] = t1ha_selfcheck__t1ha1_le; a->sc[nsc++] = t1ha_selfcheck__t1ha1_be; a->sc[nsc++] = t1ha_selfcheck__t1ha1;
#endif
#if U(15) && HAS0
  a->sc[nsc++] = t1ha_selfcheck__t1ha0_32le; a->sc[nsc++] = t1ha_selfcheck__t1ha0_32be;
#endif
#if U(16) && HAS0
  a->sc[nsc++] = t1ha_selfcheck__t1ha0;
#endif
#if U(17) && HASA
  if (CPU_AES) a->sc[nsc++] = t1ha_selfcheck__t1ha0_ia32aes_noavx;
  if (CPU_AVX) a->sc[nsc++] = t1ha_selfcheck__t1ha0_ia32aes_avx;
  if (CPU_AVX2) a->sc[nsc++] = t1ha_selfcheck__t1ha0_ia32aes_avx2;
#endif
#endif
}
#endif

/* function and data pointers without a diagnostic in any dialect */
#define SYM(field, name) do { void *s_ = dlsym(h, name); if (!s_) { snprintf(why, sizeof why, "%s of %s: not found", name, path); return 1; } memcpy(&a->field, &s_, sizeof s_); } while (0)
static int loaded(struct api *a, const char *path, unsigned fl, void **handle) {
  void *h;
  static const int modes[4] = {RTLD_NOW | RTLD_LOCAL, RTLD_LAZY | RTLD_LOCAL, RTLD_NOW | RTLD_GLOBAL, RTLD_LAZY | RTLD_LOCAL | RTLD_DEEPBIND};
  memset(a, 0, sizeof *a);
  h = fl & 4 ? dlmopen(LM_ID_NEWLM, path, modes[fl & 1]) : dlopen(path, modes[fl & 3]);
  if (!h) { snprintf(why, sizeof why, "dlopen: %s", dlerror()); return 1; }
#if HAS1
  SYM(t1le, "t1ha1_le"); SYM(t1be, "t1ha1_be");
#endif
#if HAS2
  SYM(t2, "t1ha2_atonce"); SYM(t2x, "t1ha2_atonce128"); SYM(init, "t1ha2_init"); SYM(update, "t1ha2_update"); SYM(final, "t1ha2_final");
#endif
#if HASR
#if T1HA_USE_INDIRECT_FUNCTIONS
  SYM(t0, "t1ha0");
#else
  { hash_f **q; void *s = dlsym(h, "t1ha0_funcptr"); q = (hash_f **)&s; if (!s) { snprintf(why, sizeof why, "t1ha0_funcptr: not found"); return 1; } a->t0 = **q; }
#endif
  { hash_f (*f)(void); void *s = dlsym(h, "t1ha0_resolve"); if (!s) { snprintf(why, sizeof why, "t1ha0_resolve: not found"); return 1; } memcpy(&f, &s, sizeof f); a->resolved = f(); }
#endif
#ifdef DL
  if (a == &A) {
#if HAS2
    SYM(sc[nsc], "t1ha_selfcheck__t1ha2_stream"); nsc++; SYM(sc[nsc], "t1ha_selfcheck__t1ha2"); nsc++;
#endif
#if HAS1
    SYM(sc[nsc], "t1ha_selfcheck__t1ha1"); nsc++;
#endif
    SYM(sc[nsc], "t1ha_selfcheck__all_enabled"); nsc++;
  }
#endif
  *handle = h;
  return 0;
}

static unsigned char buf[70000];
#define CANARY 64
static t1ha_context_t *contexts[4];
static unsigned char *raw[4];
static int in_lib(const struct api *a, rng_t *r, const struct api **use) { *use = haveB && B.init && (!a->init || (rnd(r) & 1)) ? &B : a; return 0; }
static uint64_t acc;

/* one generated case; 1 = wrong */
static int one(rng_t *r, const struct api *a0) {
  static const int order[12] = {FN_T1LE, FN_T1BE, FN_T2, FN_T2X, FN_S, FN_SX, FN_T0LE, FN_T0BE, FN_AN, FN_AA, FN_A2, FN_T0};
  int fn = order[below(r, 12)], i, k;
  size_t len = (size_t)(below(r, 3) ? below(r, 300) : below(r, 20) ? below(r, 4000) : below(r, sizeof buf - 64)), off = (size_t)below(r, 64), j;
  uint64_t seed = below(r, 4) ? rnd(r) : pool(r), seed2 = rnd(r), got = 0, hi = 0, want, whi = 0;
  const struct api *a = a0;
  const unsigned char *p = buf + off;
  hash_f f = NULL;
  for (j = 0; j < len; j += 8) { uint64_t v = rnd(r); if (j + 8 <= sizeof buf - off) memcpy(buf + off + j, &v, 8); }
  if (haveB && (rnd(r) & 3) == 0) a = &B;
  switch (fn) {
  case FN_T1LE: f = a->t1le; break;
  case FN_T1BE: f = a->t1be; break;
  case FN_T2: f = a->t2; break;
  case FN_T0LE: f = a->t0le; break;
  case FN_T0BE: f = a->t0be; break;
  case FN_AN: f = CPU_AES ? a->an : NULL; break;
  case FN_AA: f = CPU_AVX ? a->aa : NULL; break;
  case FN_A2: f = CPU_AVX2 ? a->a2 : NULL; break;
  case FN_T0: f = a->resolved && (rnd(r) & 1) ? a->resolved : a->t0; break;
  case FN_T2X:
    if (!a->t2x) return -1;
#if DIRECT(3) && HAS2
    if (a == &A && (rnd(r) & 1)) got = t1ha2_atonce128(&hi, p, len, seed);
    else
#endif
    got = a->t2x(&hi, p, len, seed);
    break;
  default: {
    size_t done = 0;
    if (!a->init) return -1;
    k = (int)below(r, 4);
    for (i = 0; i < 2 * CANARY; i++) (raw[k] + (i < CANARY ? 0 : sizeof(t1ha_context_t)))[i] = (unsigned char)(i * 7 + 1);
    in_lib(a0, r, &a);
    a->init(contexts[k], seed, seed2);
    while (done < len) {
      size_t n = below(r, 3) ? (size_t)below(r, 70) : (size_t)below(r, len + 1);
      if (n > len - done) n = len - done;
      in_lib(a0, r, &a);
      a->update(contexts[k], p + done, n);
      done += n;
    }
    in_lib(a0, r, &a);
    got = a->final(contexts[k], fn == FN_SX ? &hi : NULL);
    for (i = 0; i < 2 * CANARY; i++)
      if ((raw[k] + (i < CANARY ? 0 : sizeof(t1ha_context_t)))[i] != (unsigned char)(i * 7 + 1)) { snprintf(why, sizeof why, "memory outside the consumer's t1ha_context_t (%u bytes) was written", (unsigned)sizeof(t1ha_context_t)); return 1; }
  }
  }
  if (fn != FN_T2X && fn != FN_S && fn != FN_SX) {
    if (!f) return -1;
#if DIRECT(5) && HAS0
    if (fn == FN_T0 && a == &A && (rnd(r) & 1)) got = t1ha0(p, len, seed);
    else
#endif
#if DIRECT(2) && HAS2
    if (fn == FN_T2 && a == &A && (rnd(r) & 1)) got = t1ha2_atonce(p, len, seed);
    else
#endif
#if DIRECT(1) && HAS1
    if (fn == FN_T1BE && a == &A && (rnd(r) & 1)) got = t1ha1_be(p, len, seed);
    else
#endif
    got = f(p, len, seed);
  }
  if (fn == FN_T0) { /* whichever documented variant: the same in every package */
    static const int cand[5] = {FN_T0LE, FN_AN, FN_A2, FN_T1LE, FN_T2};
    if (impl < 0) {
      unsigned char m[200];
      for (i = 0; i < 200; i++) m[i] = (unsigned char)(i * i + 3);
      for (k = 0; k < 5; k++) if (ref_call(cand[k], cand[k], m, 200, 77, 0, &whi, NULL) == f(m, 200, 77)) impl = cand[k];
      if (impl < 0) { snprintf(why, sizeof why, "t1ha0 is none of the documented variants"); return 1; }
    }
  }
  want = ref_call(fn, impl < 0 ? FN_T0LE : impl, p, len, seed, seed2, &whi, NULL);
  if (got != want || ((fn == FN_T2X || fn == FN_SX) && hi != whi)) {
    snprintf(why, sizeof why, "%s of %lu bytes at offset %lu, seed %llx: %016llx instead of %016llx", fn_name[fn], (unsigned long)len, (unsigned long)off, (unsigned long long)seed, (unsigned long long)got, (unsigned long long)want);
    return 1;
  }
  acc = acc * 31 + got + hi;
  return 0;
}

#ifndef DL
static int early_bad;
static void __attribute__((constructor)) early(void) {
  rng_t r = {99};
  int i;
  linked(&A);
  for (i = 0; i < 4; i++) { if (posix_memalign((void **)&raw[i], 4096, 8192)) return; memset(raw[i], 0, 8192); raw[i] += 128 - CANARY; contexts[i] = (t1ha_context_t *)(void *)(raw[i] + CANARY); }
  for (i = 0; i < 200 && !early_bad; i++) early_bad = one(&r, &A) > 0;
}
#endif

struct ld { const char *path; unsigned fl; void *h; struct api *a; int rc; };
static void *loader(void *p) { struct ld *l = (struct ld *)p; l->rc = loaded(l->a, l->path, l->fl, &l->h); return NULL; }

#ifdef PLUGIN
#ifdef __cplusplus
extern "C"
#endif
__attribute__((visibility("default"))) int plugin_main(int argc, char **argv);
#define main plugin_main
#endif
int main(int argc, char **argv) {
  rng_t r;
  long rounds, i, n = 0;
  unsigned fl;
  int s, rc;
  if (argc < 6 || ref_selftest()) return 3;
  r.s = strtoull(argv[1], 0, 0);
  rounds = atol(argv[2]);
  fl = (unsigned)atoi(argv[4]);
  printf("LAYOUT %u %u %u %u %u %u %u\n", (unsigned)sizeof(t1ha_context_t), (unsigned)__alignof__(t1ha_context_t), (unsigned)offsetof(t1ha_context_t, state), (unsigned)offsetof(t1ha_context_t, buffer),
         (unsigned)offsetof(t1ha_context_t, partial), (unsigned)offsetof(t1ha_context_t, total), (unsigned)sizeof(t1ha_state256_t));
#ifdef DL
  for (i = 0; i < 4; i++) { if (posix_memalign((void **)&raw[i], 4096, 8192)) return 3; memset(raw[i], 0, 8192); raw[i] += 128 - CANARY; contexts[i] = (t1ha_context_t *)(void *)(raw[i] + CANARY); }
  {
    struct ld l; pthread_t t;
    memset(&l, 0, sizeof l);
    l.path = argv[3]; l.fl = fl & 7; l.a = &A;
    if (fl & 8) { if (pthread_create(&t, NULL, loader, &l)) return 3; pthread_join(t, NULL); } else loader(&l);
    if (l.rc) { printf("FAIL %s\n", why); return 1; }
  }
#else
  if (early_bad) { printf("FAIL before main(): %s\n", why); return 1; }
#endif
  for (s = 0; s < nsc; s++) { rc = A.sc[s](); if (rc) { printf("FAIL self-check %d returns %d\n", s, rc); return 1; } }
  {
    struct ld l; pthread_t t;
    memset(&l, 0, sizeof l);
    for (i = 0; i < rounds; i++) {
      if (strcmp(argv[5], "-") && below(&r, 200) == 0) {
        if (l.h) { haveB = 0; dlclose(l.h); l.h = NULL; }
        l.path = argv[5]; l.fl = fl >> 4 & 3; l.a = &B;
        if (rnd(&r) & 1) { if (pthread_create(&t, NULL, loader, &l)) return 3; pthread_join(t, NULL); } else loader(&l);
        if (l.rc) { printf("FAIL %s\n", why); return 1; }
        haveB = 1;
      }
      rc = one(&r, &A);
      if (rc > 0) { printf("FAIL case %ld: %s\n", i, why); return 1; }
      n += rc == 0;
    }
  }
  printf("IMPL %d\nDONE %ld %016llx\n", impl, n, (unsigned long long)acc);
  return 0;
}
