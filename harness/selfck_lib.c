/* Linked with the library's objects, whose hash functions are made weak: these stand-ins win. They compute the
 * published values with the model and can be told to misbehave; the self-checks must notice exactly that. */
#include "ref.h"
#include "t1ha.h"
#include "vectors.h"
#include <string.h>
#define EXPORT __attribute__((visibility("default")))
enum { K_NONE, K_ONE, K_SET, K_CONST, K_AS, K_LEN, K_SEED, K_SHIFT, K_ALL, K_MASKED };
typedef struct { int kind; unsigned k, arg; uint64_t x; uint32_t set[3]; } fault_t;
EXPORT fault_t sc_fault[FN_COUNT];
EXPORT unsigned long sc_called[FN_COUNT];
EXPORT unsigned char sc_seen[FN_COUNT][81];
EXPORT int sc_trap; /* functions that must not be called (bits) */
EXPORT int sc_trapped;
EXPORT int sc_dirty;
static const uint64_t *table(int fn) {
  switch (fn) {
  case FN_T1LE: return VEC_64le; case FN_T1BE: return VEC_64be; case FN_T2: return VEC_2atonce; case FN_T2X: return VEC_2atonce128;
  case FN_S: return VEC_2stream; case FN_SX: return VEC_2stream128; case FN_T0LE: return VEC_32le; case FN_T0BE: return VEC_32be;
  case FN_AN: case FN_AA: return VEC_ia32aes_a; case FN_A2: return VEC_ia32aes_b;
  }
  return 0;
}
static const uint8_t pat[64] = {0, 1, 2, 3, 4, 5, 6, 7, 0xFF, 0x7F, 0x3F, 0x1F, 0xF, 8, 16, 32, 64, 0x80, 0xFE, 0xFC, 0xF8, 0xF0, 0xE0, 0xC0, 0xFD, 0xFB, 0xF7, 0xEF, 0xDF, 0xBF, 0x55, 0xAA, 11,
    17, 19, 23, 29, 37, 42, 43, 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x'};
static uint8_t lng[512];
static void vec(int k, const uint8_t **d, unsigned *n, uint64_t *s) {
  if (k == 0) { *d = pat; *n = 0; *s = 0; }
  else if (k == 1) { *d = pat; *n = 0; *s = ~0ull; }
  else if (k == 2) { *d = pat; *n = 64; *s = 0; }
  else if (k < 66) { *d = pat; *n = (unsigned)k - 2; *s = 1ull << (k - 3); }
  else if (k < 73) { int i = k - 65; *d = pat + i; *n = 64 - (unsigned)i; *s = ~0ull << i; }
  else { int i = k - 73; if (!lng[1]) for (int j = 0; j < 512; j++) lng[j] = (uint8_t)j; *d = lng + i; *n = 128 + (unsigned)i * 17; *s = ~0ull << 7; }
}
static int which(const void *data, uint64_t len, uint64_t s, uint64_t s2) {
  if (s != s2) return -1;
  for (int k = 0; k < 81; k++) {
    const uint8_t *d; unsigned n; uint64_t q;
    vec(k, &d, &n, &q);
    if (n == len && q == s && (!n || !memcmp(d, data, n))) return k;
  }
  return -1;
}
static uint64_t behave(int fn, const void *data, uint64_t len, uint64_t s, uint64_t s2, uint64_t *hi) {
  const fault_t *f = &sc_fault[fn];
  int wide = fn == FN_T2X || fn == FN_SX;
  uint64_t h = 0, r, n = len, a = s, b = s2;
  int g = fn;
  if (f->kind == K_AS) g = (int)f->arg;
  if (f->kind == K_LEN) n = f->arg == 0 ? len & ~7ull : f->arg == 1 ? (len ? len - 1 : 0) : f->arg == 2 ? len & 255 & ~128ull : len & ~31ull;
  if (f->kind == K_SEED) { if (f->arg == 0) a = b = 0; else if (f->arg == 1) { a = (uint32_t)a; b = (uint32_t)b; } else { a >>= 1; b >>= 1; } }
  r = ref_call(g, g, data, n, a, b, &h, 0);
  int k = which(data, len, s, s2);
  switch (f->kind) {
  case K_ONE: if (k == (int)f->k) r ^= f->x; break;
  case K_SET: if (k >= 0 && f->set[k >> 5] >> (k & 31) & 1) r ^= f->x; break;
  case K_CONST: r = f->x; break;
  case K_SHIFT: if (k >= 0) r = table(fn)[(k + (int)f->arg) % 81]; break;
  case K_ALL: r ^= f->x; break;
  case K_MASKED: r &= ~f->x; break;
  }
  if (wide && hi) *hi = h;
  return r;
}
static uint64_t entry(int fn, const void *data, uint64_t len, uint64_t s, uint64_t s2, uint64_t *hi) {
  sc_called[fn]++;
  if (sc_trap >> fn & 1) sc_trapped |= 1 << fn;
  int k = which(data, len, s, s2);
  if (k >= 0) sc_seen[fn][k] = 1;
  return behave(fn, data, len, s, s2, hi);
}
/* is the function, as it behaves now, wrong for a published vector? */
EXPORT int sc_wrong(int fn) {
  for (int k = 0; k < 81; k++) {
    const uint8_t *d; unsigned n; uint64_t q, hi;
    vec(k, &d, &n, &q);
    if (behave(fn, d, n, q, q, &hi) != table(fn)[k]) return 1 + k;
  }
  return 0;
}
#define STAND(name, fn) uint64_t name(const void *d, size_t n, uint64_t s) { return entry(fn, d, n, s, s, 0); }
#ifndef T1HA1_DISABLED
STAND(t1ha1_le, FN_T1LE)
STAND(t1ha1_be, FN_T1BE)
#endif
#ifndef T1HA0_DISABLED
#if !T1HA0_RUNTIME_SELECT || !defined(KEEP_T0_32)
STAND(t1ha0_32le, FN_T0LE)
STAND(t1ha0_32be, FN_T0BE)
#endif
#if T1HA0_AESNI_AVAILABLE
STAND(t1ha0_ia32aes_noavx, FN_AN)
STAND(t1ha0_ia32aes_avx, FN_AA)
STAND(t1ha0_ia32aes_avx2, FN_A2)
#endif
#endif
#ifndef T1HA2_DISABLED
STAND(t1ha2_atonce, FN_T2)
uint64_t t1ha2_atonce128(uint64_t *__restrict x, const void *__restrict d, size_t n, uint64_t s) { return entry(FN_T2X, d, n, s, s, x); }
static struct slot { t1ha_context_t *c; uint64_t x, y, n; uint8_t b[1024]; } slots[16];
static unsigned turn;
static struct slot *slot_of(t1ha_context_t *c) {
  for (int i = 0; i < 16; i++) if (slots[i].c == c) return &slots[i];
  return 0;
}
void t1ha2_init(t1ha_context_t *c, uint64_t x, uint64_t y) {
  struct slot *s = slot_of(c);
  if (!s) s = &slots[turn++ & 15];
  memset(c, 0xA5, sizeof *c);
  s->c = c; s->x = x; s->y = y; s->n = 0;
}
void t1ha2_update(t1ha_context_t *__restrict c, const void *__restrict d, size_t n) {
  struct slot *s = slot_of(c);
  if (!s || s->n + n > sizeof s->b) { sc_dirty = 1; return; }
  if (n) memcpy(s->b + s->n, d, n);
  s->n += n;
}
uint64_t t1ha2_final(t1ha_context_t *__restrict c, uint64_t *__restrict x) {
  struct slot *s = slot_of(c);
  if (!s) { sc_dirty = 1; return 0; }
  return entry(x ? FN_SX : FN_S, s->b, s->n, s->x, s->y, x);
}
#endif
#define B(f) (1 << (f))
#define C1 (B(FN_T1LE) | B(FN_T1BE))
#define C2 (B(FN_T2) | B(FN_T2X) | B(FN_S) | B(FN_SX))
#define CAES (1 << 30) /* the AES variants the processor has */
#if (UINTPTR_MAX > 0xffffFFFFul) && !defined(T1HA1_DISABLED)
#define FALLBACK B(FN_T1LE)
#elif (UINTPTR_MAX > 0xffffFFFFul) && !defined(T1HA2_DISABLED)
#define FALLBACK B(FN_T2)
#else
#define FALLBACK 0
#endif
#define C0 (B(FN_T0LE) | B(FN_T0BE) | FALLBACK | CAES)
/* must: functions the check has to cover; may: functions it may cover as well */
typedef struct { const char *name; int (*f)(void); int must, may; } check_t;
EXPORT const check_t sc_checks[] = {
#ifndef T1HA2_DISABLED
    {"t1ha2_atonce", t1ha_selfcheck__t1ha2_atonce, B(FN_T2), 0},
    {"t1ha2_atonce128", t1ha_selfcheck__t1ha2_atonce128, B(FN_T2X), 0},
    {"t1ha2_stream", t1ha_selfcheck__t1ha2_stream, B(FN_S) | B(FN_SX), 0},
    {"t1ha2", t1ha_selfcheck__t1ha2, C2, 0},
#endif
#ifndef T1HA1_DISABLED
    {"t1ha1_le", t1ha_selfcheck__t1ha1_le, B(FN_T1LE), 0},
    {"t1ha1_be", t1ha_selfcheck__t1ha1_be, B(FN_T1BE), 0},
    {"t1ha1", t1ha_selfcheck__t1ha1, C1, 0},
#endif
#ifndef T1HA0_DISABLED
    {"t1ha0_32le", t1ha_selfcheck__t1ha0_32le, B(FN_T0LE), 0},
    {"t1ha0_32be", t1ha_selfcheck__t1ha0_32be, B(FN_T0BE), 0},
    {"t1ha0", t1ha_selfcheck__t1ha0, C0, FALLBACK ? C1 | C2 : 0},
#if T1HA0_AESNI_AVAILABLE
    {"t1ha0_ia32aes_noavx", t1ha_selfcheck__t1ha0_ia32aes_noavx, B(FN_AN), 0},
    {"t1ha0_ia32aes_avx", t1ha_selfcheck__t1ha0_ia32aes_avx, B(FN_AA), 0},
    {"t1ha0_ia32aes_avx2", t1ha_selfcheck__t1ha0_ia32aes_avx2, B(FN_A2), 0},
#endif
#endif
    {"all_enabled", t1ha_selfcheck__all_enabled, 0
#ifndef T1HA2_DISABLED
     | C2
#endif
#ifndef T1HA1_DISABLED
     | C1
#endif
#ifndef T1HA0_DISABLED
     | C0
#endif
     , 0},
    {0, 0, 0, 0}};
EXPORT int sc_has_aes(void) {
#if !defined(T1HA0_DISABLED) && T1HA0_AESNI_AVAILABLE
  return 1;
#else
  return 0;
#endif
}
EXPORT int sc_present(void) { /* functions this configuration has */
  int m = 0;
#ifndef T1HA2_DISABLED
  m |= C2;
#endif
#ifndef T1HA1_DISABLED
  m |= C1;
#endif
#ifndef T1HA0_DISABLED
  m |= B(FN_T0LE) | B(FN_T0BE);
#if T1HA0_AESNI_AVAILABLE
  m |= B(FN_AN) | B(FN_AA) | B(FN_A2);
#endif
#endif
  return m;
}
