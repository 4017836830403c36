/* Hashes exactly-sized heap blocks, to be run under AddressSanitizer or valgrind.
 *   heapwalk seed=N cases=N [fn=.. len=.. off=.. s=..]   prints FAILCASE for the offending case */
#include "util.h"
#include "t1ha.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <valgrind/memcheck.h>
uint64_t *dict; size_t dict_n;
static int fn; static size_t len, off; static uint64_t sd; static long idx;
static int in_selfcheck;
static void tell(void) { if (in_selfcheck) puts("FAILCASE selfcheck"); else printf("FAILCASE fn=%d len=%zu off=%zu s=%llu\n", fn, len, off, (unsigned long long)sd); fflush(stdout); }
void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static volatile uint64_t sink;
static int has(int f) {
#if T1HA0_AESNI_AVAILABLE
  if (f == 9) return __builtin_cpu_supports("aes") != 0;
  if (f == 10) return __builtin_cpu_supports("aes") && __builtin_cpu_supports("avx");
  if (f == 11) return __builtin_cpu_supports("aes") && __builtin_cpu_supports("avx2");
#endif
  return f < 9;
}
static void go(void) {
  uint8_t *raw = malloc(len + off ? len + off : 1), *p = raw + off;
  rng_t r = {sd};
  rnd_fill(&r, raw, len + off);
  uint64_t *hi = malloc(8), v = 0;
  if (len == 0 && (sd & 1)) p = NULL;
  switch (fn) {
  case 0: v = t1ha1_le(p, len, sd); break;
  case 1: v = t1ha1_be(p, len, sd); break;
  case 2: v = t1ha2_atonce(p, len, sd); break;
  case 3: v = t1ha2_atonce128(hi, p, len, sd); v ^= *hi; break;
  case 4: case 5: {
    t1ha_context_t *c = malloc(sizeof *c);
    size_t a = 0;
    t1ha2_init(c, sd, sd * 3);
    while (a < len) { /* each piece in a block of its own */
      size_t n = 1 + (size_t)below(&r, chance(&r, 2) ? 40 : len);
      if (n > len - a) n = len - a;
      uint8_t *q = malloc(n);
      memcpy(q, p + a, n);
      t1ha2_update(c, q, n);
      free(q);
      a += n;
    }
    v = t1ha2_final(c, fn == 5 ? hi : NULL);
    if (fn == 5) v ^= *hi;
    free(c);
    break; }
  case 6: v = t1ha0_32le(p, len, sd); break;
  case 7: v = t1ha0_32be(p, len, sd); break;
  case 8: v = t1ha0(p, len, sd); break;
#if T1HA0_AESNI_AVAILABLE
  case 9: v = t1ha0_ia32aes_noavx(p, len, sd); break;
  case 10: v = t1ha0_ia32aes_avx(p, len, sd); break;
  case 11: v = t1ha0_ia32aes_avx2(p, len, sd); break;
#endif
  }
  sink ^= v;
  if (v == 0x123456789) puts("!"); /* the result must be defined */
  free(hi); free(raw);
  if (VALGRIND_COUNT_ERRORS) { tell(); exit(9); }
}
int main(int argc, char **argv) {
  uint64_t seed = 1; long cases = 1000; int one = 0;
  __builtin_cpu_init();
  for (int i = 1; i < argc; i++) {
    char *v = strchr(argv[i], '='); if (!v) continue;
    *v++ = 0;
    if (!strcmp(argv[i], "seed")) seed = strtoull(v, 0, 0);
    else if (!strcmp(argv[i], "cases")) cases = atol(v);
    else if (!strcmp(argv[i], "fn")) fn = atoi(v), one = 1;
    else if (!strcmp(argv[i], "len")) len = strtoul(v, 0, 0);
    else if (!strcmp(argv[i], "off")) off = strtoul(v, 0, 0);
    else if (!strcmp(argv[i], "s")) sd = strtoull(v, 0, 0);
  }
  if (__asan_set_death_callback) __asan_set_death_callback(tell);
  if (one) { go(); puts("OK"); return 0; }
  in_selfcheck = 1;
  if (t1ha_selfcheck__all_enabled() || VALGRIND_COUNT_ERRORS) { tell(); return 9; }
  in_selfcheck = 0;
  rng_t r = {mix64_(seed * 77 + 5)};
  long nt = 0;
  for (idx = 0; idx < cases; idx++) {
    do fn = (int)below(&r, 12); while (!has(fn));
    len = idx < 12 * 70 ? (size_t)(idx / 12) : chance(&r, 6) ? (size_t)below(&r, 5000) : (size_t)below(&r, 200);
    if (idx < 12 * 70 && has((int)(idx % 12))) fn = (int)(idx % 12);
    off = (size_t)below(&r, 9); sd = rnd(&r);
    nt += len > 0;
    go();
  }
  printf("HEAPSTATS %ld %ld last: fn=%d len=%zu off=%zu seed=%llx\n", cases, nt, fn, len, off, (unsigned long long)sd);
  return 0;
}
