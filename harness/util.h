/* PRNG, value pools, counters: every random choice of a run comes from here */
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct { uint64_t s; } rng_t;
static __inline uint64_t mix64_(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static __inline uint64_t rnd(rng_t *r) { return mix64_(r->s += 0x9e3779b97f4a7c15ull); }
static __inline uint64_t below(rng_t *r, uint64_t n) { return n ? (rnd(r) >> 11) % n : 0; }
static __inline int chance(rng_t *r, unsigned n) { return below(r, n) == 0; }
static __inline void rnd_fill(rng_t *r, uint8_t *p, size_t n) {
  for (; n >= 8; n -= 8, p += 8) { uint64_t v = rnd(r); memcpy(p, &v, 8); }
  if (n) { uint64_t v = rnd(r); memcpy(p, &v, n); }
}

#define BASE_POOL_N 48
static const uint64_t base_pool[] = {
    0, 1, 2, 3, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xfffffffeull, 0xffffffffull,
    0x100000000ull, 0x100000001ull, 0x1ffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull,
    0xffffffff00000000ull, 0xffffffff00000001ull, 0xfffffffeffffffffull, 0xfffffffffffffffeull, 0xffffffffffffffffull,
    0x0101010101010101ull, 0x8080808080808080ull, 0x7f7f7f7f7f7f7f7full, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull,
    0x0000ffff0000ffffull, 0xffff0000ffff0000ull, 0x00ff00ff00ff00ffull, 0x2020202020202020ull, 0x3030303030303030ull,
    0xEC99BF0D8372CAABull, 0x82434FE90EDCEF39ull, 0xD4F06DB99D67BE4Bull, 0xBD9CACC22C6E9571ull, 0x9C06FAF4D023E3ABull,
    0xC060724A8424F345ull, 0xCB5AF53AE3AAAC31ull, 0x92D78269CA9B4735ull, 0xdeadbeefdeadbeefull, 0xdeadbeefull, 42, 0x1234567890abcdefull};
#define BASE_N (sizeof base_pool / sizeof *base_pool)
extern uint64_t *dict;
extern size_t dict_n;
static __inline uint64_t pool(rng_t *r) {
  switch (below(r, 8)) {
  case 0: case 1: case 2: return base_pool[below(r, BASE_N)];
  case 3: case 4: if (dict_n) return dict[below(r, dict_n)]; /* fall through */
  case 5: return 1ull << below(r, 64);
  case 6: return base_pool[below(r, BASE_N)] + below(r, 5) - 2;
  default: return dict_n ? ~dict[below(r, dict_n)] : ~0ull << below(r, 64);
  }
}
