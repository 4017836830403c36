/* Coverage-guided differential fuzzing: the library (instrumented) against the model.
 * Input layout: fn, placement, cut, seed[8], seed2[8], message. */
#include "ref.h"
#include "t1ha.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#ifndef FUZZ_MASK
#define FUZZ_MASK 0xfff
#endif
static int list[FN_COUNT], n_list, seen_nontrivial;
static unsigned long n_exec, n_nontriv;
static void stats(void) { fprintf(stdout, "FUZZSTATS %lu %lu\n", n_exec, n_nontriv); fflush(stdout); }
__attribute__((constructor)) static void prep(void) {
  for (int i = 0; i < FN_T0; i++) if (FUZZ_MASK >> i & 1) list[n_list++] = i;
}
int LLVMFuzzerInitialize(int *argc, char ***argv) { (void)argc; (void)argv; if (ref_selftest()) { fprintf(stderr, "bad model\n"); _exit(3); } atexit(stats); return 0; }
int LLVMFuzzerTestOneInput(const uint8_t *in, size_t n) {
  static uint8_t arena[1 << 17] __attribute__((aligned(4096)));
  if (n < 3) return 0;
  int fn = list[in[0] % n_list];
  unsigned place = in[1], cut = in[2];
  uint64_t seed = 0, seed2 = 0, lo = 0, hi = 0, rlo, rhi = 0;
  in += 3; n -= 3;
  size_t k = n < 8 ? n : 8;
  memcpy(&seed, in, k); in += k; n -= k;
  if (fn == FN_S || fn == FN_SX) { k = n < 8 ? n : 8; memcpy(&seed2, in, k); in += k; n -= k; }
  if (n > sizeof arena - 16384) n = sizeof arena - 16384;
  uint8_t *d = arena + 4096;
  if (place & 16) d += 4096 - (n & 4095); /* the end meets a page boundary */
  d += (int)(place & 15) - (place & 32 ? 8 : 0);
  memset(arena + 4096 - 32, place & 64 ? 0xff : 0, 64);
  memset(d + n, place & 128 ? 0xff : 0, 16);
  memcpy(d, in, n);
  n_exec++;
  if (n > 0) { /* count distinct ones (a bit table of hashes; collisions only lower the count) */
    static uint8_t seen[1 << 25];
    uint64_t h = seed * 0x9E3779B97F4A7C15ull + seed2 * 0xD6E8FEB86659FD93ull + (unsigned)fn * 977 + place * 31 + cut * 1021 + n;
    for (size_t i = 0; i < n; i++) h = (h ^ in[i]) * 0x100000001b3ull;
    h ^= h >> 31; h *= 0x94d049bb133111ebull; h >>= 64 - 28;
    if (!(seen[h >> 3] >> (h & 7) & 1)) { seen[h >> 3] |= (uint8_t)(1u << (h & 7)); n_nontriv++; }
  }
  switch (fn) {
#ifndef T1HA1_DISABLED
  case FN_T1LE: lo = t1ha1_le(d, n, seed); break;
  case FN_T1BE: lo = t1ha1_be(d, n, seed); break;
#endif
  case FN_T2: lo = t1ha2_atonce(d, n, seed); break;
  case FN_T2X: lo = t1ha2_atonce128(&hi, d, n, seed); break;
  case FN_S: case FN_SX: {
    t1ha_context_t c;
    memset(&c, place, sizeof c);
    t1ha2_init(&c, seed, seed2);
    size_t pos = 0, step = 1 + cut % 97;
    if (cut & 128) { size_t h = n < step ? n : step; t1ha2_update(&c, d, h); t1ha2_update(&c, d + h, n - h); }
    else while (pos < n) { size_t h = n - pos < step ? n - pos : step; t1ha2_update(&c, d + pos, h); pos += h; }
    lo = t1ha2_final(&c, fn == FN_SX ? &hi : NULL);
    break; }
  case FN_T0LE: lo = t1ha0_32le(d, n, seed); break;
  case FN_T0BE: lo = t1ha0_32be(d, n, seed); break;
  case FN_AN: lo = t1ha0_ia32aes_noavx(d, n, seed); break;
  case FN_AA: lo = t1ha0_ia32aes_avx(d, n, seed); break;
  case FN_A2: lo = t1ha0_ia32aes_avx2(d, n, seed); break;
  default: return 0;
  }
  rlo = ref_call(fn, fn, d, n, seed, seed2, &rhi, NULL);
  if (fn != FN_SX && fn != FN_T2X) rhi = hi;
  if (lo != rlo || hi != rhi) {
    printf("MISMATCH %s len=%zu seed=%016llx seed2=%016llx got %016llx:%016llx expected %016llx:%016llx cut=%u place=%u\n", fn_name[fn], n, (unsigned long long)seed,
           (unsigned long long)seed2, (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)rlo, (unsigned long long)rhi, cut, place);
    fflush(stdout);
    abort();
  }
  return 0;
}
