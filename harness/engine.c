/* Generated-input search: generators, oracles, shrinking, replay.
 *   engine MODE key=value ...       modes: value mem pure stream bits aval exact replay selftest
 * Prints FAIL lines (with the path of the minimal reproduction) and one STATS line. */
#include "backend.h"
#include "util.h"
#include <stdarg.h>

uint64_t *dict;
size_t dict_n;

#define MAXLEN (REG_B_PAGES * PG)
#define MAXSPLIT 40

typedef struct {
  int fn;
  uint64_t seed, seed2;
  uint32_t len;
  int reg;
  uint32_t off;
  int wplace; /* 0: result against the guard, context at page start; 1: the other way round */
  uint64_t nbr; /* what surrounds the data */
  uint32_t nsplit, split[MAXSPLIT];
  uint8_t data[MAXLEN];
} kase;
static void kcopy(kase *d, const kase *s) { memcpy(d, s, offsetof(kase, data) + s->len); }

static struct {
  const char *mode, *prop, *out, *variant;
  uint64_t seed;
  long cases;
  unsigned fnmask;
  long maxlen;
  int grid, maxfail;
  long sweep;
} opt = {.mode = "", .prop = "C00", .out = ".", .variant = "", .cases = 1000, .fnmask = ~0u, .maxlen = 160000, .grid = 1, .maxfail = 1};

/*------------------------------------------------------------------ counters */
static uint64_t n_eval, n_nontrivial, n_fail, cls[32];
static const char *cls_name[32] = {"len=0", "len 1-32", "len 33-127", "len 128-4096", "len>4096", "misaligned", "ends at guard page",
                                   "starts at guard page", "crosses a page", "crafted operands", "pool words", "special seed", "stream >1 chunk"};
static uint8_t *bloom;
#define BLOOM_BITS 27
static int bloom_new(uint64_t h) {
  h = mix64_(h) >> (64 - BLOOM_BITS);
  if (bloom[h >> 3] >> (h & 7) & 1) return 0;
  bloom[h >> 3] |= (uint8_t)(1u << (h & 7));
  return 1;
}
static uint64_t kase_hash(const kase *k) {
  uint64_t h = 0x1234 + (uint64_t)k->fn;
  h = mix64_(h ^ k->seed); h = mix64_(h + k->seed2 * 3); h = mix64_(h + k->len + ((uint64_t)k->off << 32) + ((uint64_t)k->reg << 60));
  for (uint32_t i = 0; i < k->nsplit; i++) h = mix64_(h + k->split[i]);
  uint32_t i = 0;
  for (; i + 8 <= k->len; i += 8) { uint64_t v; memcpy(&v, k->data + i, 8); h = (h ^ v) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; }
  for (; i < k->len; i++) h = (h ^ k->data[i]) * 0x100000001b3ull;
  return h;
}
static void account(const kase *k, int crafted, int pooled) {
  n_eval++;
  cls[k->len == 0 ? 0 : k->len <= 32 ? 1 : k->len < 128 ? 2 : k->len <= 4096 ? 3 : 4]++;
  if (k->off & 7) cls[5]++;
  if (k->off + k->len == reg_size[k->reg]) cls[6]++;
  if (k->off == 0) cls[7]++;
  if (k->len && k->off / PG != (k->off + k->len - 1) / PG) cls[8]++;
  if (crafted) cls[9]++;
  if (pooled) cls[10]++;
  if (k->seed == 0 || k->seed + 1 == 0 || (k->seed & (k->seed - 1)) == 0) cls[11]++;
  if (k->nsplit > 1) cls[12]++;
  if (k->len >= 1 && bloom_new(kase_hash(k))) n_nontrivial++;
}
static char samples[6][220];
static unsigned n_samples;
static void sample(const kase *k) {
  if (k->len == 0 || (n_samples >= 6)) return;
  char *s = samples[n_samples++];
  int n = snprintf(s, 220, "%s len=%u seed=%016llx region=%d off=%u data=", fn_name[k->fn], k->len, (unsigned long long)k->seed, k->reg, k->off);
  for (uint32_t i = 0; i < k->len && i < 16; i++) n += snprintf(s + n, (size_t)(220 - n), "%02x", k->data[i]);
  snprintf(s + n, (size_t)(220 - n), "%s", k->len > 16 ? "..." : "");
}

/*---------------------------------------------------------------- generators */
static uint64_t pick_edge(craft_t *c, uint64_t state, uint64_t inv) {
  rng_t r = {c->rng ^ 0x5bd1e995};
  c->rng = rnd(&r);
  static const uint64_t edge[] = {0, 1, ~0ull, 1ull << 32, 0xffffffffull, 0xffffffff00000000ull, 1ull << 63, 0x7fffffffffffffffull, 0x1ffffffffull, 0x80000000ull};
  uint64_t e = chance(&r, 4) ? pool(&r) : edge[below(&r, 10)];
  switch (below(&r, 6)) {
  case 4: { /* the 32-bit parts of the product nearly carry, or carry just so */
    uint64_t p = inv, hi = rnd(&r) >> 32, pl, ph;
    for (int i = 0; i < 6; i++) p *= 2 - inv * p;
    pl = p & 0xffffffff; ph = p >> 32;
    if (chance(&r, 2)) hi |= 0xffff0000;
    switch (below(&r, 4)) {
    case 0: return hi << 32;
    case 1: return hi;
    default: { /* hi*pl + lo*ph just below or above 2^64 */
      uint64_t lo = ph ? (0 - (below(&r, 3) << 32) - hi * pl) / ph + below(&r, 3) : hi;
      return hi << 32 | (lo & 0xffffffff);
    } }
  }
  case 0: return inv * (state ^ e);         /* the state word becomes e */
  case 1: return inv * e;                   /* the product becomes e */
  default: return e;                        /* the operand becomes e */
  }
}
static uint32_t gen_len(rng_t *r) {
  uint64_t v;
  switch (below(r, 20)) {
  case 0: case 1: case 2: case 3: case 4: case 5: case 6: v = below(r, 97); break;
  case 7: case 8: case 9: case 10: v = below(r, 601); break;
  case 11: case 12: { static const unsigned m[] = {8, 16, 32, 64, 128, 256}; unsigned q = m[below(r, 6)]; v = q * below(r, 1 + 2048 / q) + below(r, 7) - 3; break; }
  case 13: v = 1 + below(r, 40); break;
  case 14: case 15: v = chance(r, 4) ? below(r, 4200) : below(r, 1400); break;
  case 16: v = (1ull << below(r, 13)) + below(r, 5) - 2; break;
  case 17: v = dict_n ? dict[below(r, dict_n)] + below(r, 5) - 2 : below(r, 300); if (v > 4096 && !chance(r, 8)) v = below(r, 256); break;
  case 18: if (chance(r, 12)) { v = below(r, 1ull << (9 + below(r, 8))); break; } /* fall through */
  default: v = below(r, 260);
  }
  if (v > (uint64_t)opt.maxlen) v = below(r, 200);
  return (uint32_t)v;
}
static uint64_t gen_seed(rng_t *r, const kase *k) {
  switch (below(r, 10)) {
  case 0: case 1: case 2: case 3: return rnd(r);
  case 4: return pool(r);
  case 5: return base_pool[below(r, BASE_N)];
  case 6: return k->len + below(r, 3) - 1;
  case 7: { uint64_t v = 0; if (k->len >= 8) memcpy(&v, k->data + 8 * below(r, k->len / 8), 8); return chance(r, 2) ? v : ~v; }
  case 8: return rnd(r) & 0xffffffff;
  default: return rnd(r) << 32;
  }
}
/* the second seed: equal, related to the first in part, or anything */
static uint64_t gen_seed2(rng_t *r, const kase *k, uint64_t x) {
  uint64_t y = gen_seed(r, k);
  switch (below(r, 14)) {
  case 0: case 1: case 2: case 3: return x;
  case 4: return (x & 0xffffffff00000000ull) | (y & 0xffffffff);
  case 5: return (y & 0xffffffff00000000ull) | (x & 0xffffffff);
  case 6: switch (below(r, 6)) {
    case 0: return ~x;
    case 1: return x ^ 1ull << below(r, 64);
    case 2: return x + below(r, 5) - 2;
    case 3: return __builtin_bswap64(x);
    case 4: return x << 32 | x >> 32;
    default: return -x;
    }
  default: return y;
  }
}
static int g_crafted, g_pooled;
static void gen_data(rng_t *r, kase *k) {
  uint8_t *d = k->data;
  uint32_t n = k->len;
  g_crafted = g_pooled = 0;
  unsigned kind = (unsigned)below(r, 16);
  if (kind <= 5) rnd_fill(r, d, n);
  else if (kind == 6) memset(d, chance(r, 2) ? (chance(r, 2) ? 0 : 0xff) : (int)below(r, 256), n);
  else if (kind <= 8) { /* words from the pool */
    g_pooled = 1;
    uint64_t w = pool(r);
    int same = chance(r, 3);
    for (uint32_t i = 0; i < n; i += 8) {
      if (!same) w = chance(r, 6) ? k->seed : chance(r, 8) ? k->len : chance(r, 3) ? w : pool(r);
      uint64_t v = chance(r, 3) && !same ? __builtin_bswap64(w) : w;
      memcpy(d + i, &v, n - i < 8 ? n - i : 8);
    }
  } else if (kind <= 10) { /* random with a few pool words, aligned to the start or to the end */
    g_pooled = 1;
    rnd_fill(r, d, n);
    for (int i = 0; n && i < 3; i++) {
      unsigned sz = chance(r, 3) ? 4 : chance(r, 3) ? 2 : 8;
      uint64_t v = pool(r);
      if (chance(r, 3)) v = __builtin_bswap64(v) >> (64 - 8 * sz);
      if (n < sz) break;
      uint32_t pos = chance(r, 2) ? sz * (uint32_t)below(r, n / sz) : chance(r, 2) ? n - sz : (uint32_t)below(r, n - sz + 1);
      memcpy(d + pos, &v, sz);
    }
  } else if (kind == 11) { /* sparse */
    memset(d, chance(r, 2) ? 0 : 0xff, n);
    for (int i = 0; n && i < 1 + (int)below(r, 4); i++) d[below(r, n)] ^= (uint8_t)(1u << below(r, 8));
  } else if (kind == 12) { /* periodic */
    uint32_t per = 1u << below(r, 8);
    uint8_t blk[128];
    rnd_fill(r, blk, sizeof blk);
    for (uint32_t i = 0; i < n; i++) d[i] = blk[i % per];
  } else if (kind == 13) { for (uint32_t i = 0; i < n; i++) d[i] = (uint8_t)(32 + below(r, 95)); }
  else if (kind == 14) { uint8_t s = (uint8_t)rnd(r); for (uint32_t i = 0; i < n; i++) d[i] = (uint8_t)(s + i); }
  else { /* random bytes from a small alphabet */
    uint8_t al[4]; rnd_fill(r, al, 4);
    for (uint32_t i = 0; i < n; i++) d[i] = al[below(r, 4)];
  }
}
static void gen_place(rng_t *r, kase *k) {
  k->wplace = (int)below(r, 2);
  k->nbr = rnd(r);
  if (k->len <= PG && chance(r, 4)) { /* the single page */
    k->reg = REG_A;
    uint32_t room = PG - k->len;
    uint32_t o = (uint32_t)below(r, 64);
    if (o > room) o = room;
    k->off = chance(r, 2) ? o : room - o;
    return;
  }
  k->reg = REG_B;
  uint32_t room = MAXLEN - k->len;
  switch (below(r, 5)) {
  case 0: k->off = room; break;
  case 1: k->off = (uint32_t)below(r, 70); break;
  case 2: { /* near a page boundary */
    uint32_t b = PG * (1 + (uint32_t)below(r, 4));
    k->off = b - (k->len ? (uint32_t)below(r, (k->len < 40 ? k->len : 40) + 1) : 0);
    break; }
  case 3: { uint32_t b = PG * (1 + (uint32_t)below(r, 4)); k->off = b + (uint32_t)below(r, 17); break; }
  default: k->off = (uint32_t)below(r, room < 9000 ? room + 1 : 9000);
  }
  if (k->off > room) k->off = room;
}
static void gen_splits(rng_t *r, kase *k) {
  k->nsplit = 0;
  uint32_t left = k->len, style = (uint32_t)below(r, 6);
  while (k->nsplit < MAXSPLIT - 1 && left) {
    uint32_t c;
    switch (style) {
    case 0: c = left; break;
    case 1: c = 1 + (uint32_t)below(r, 40); break;
    case 2: c = (uint32_t)below(r, 4) ? 32 : (uint32_t)below(r, 65); break;
    case 3: c = (uint32_t)below(r, 9); break;
    case 4: c = 1 + (uint32_t)below(r, left); break;
    default: c = 8 * (uint32_t)below(r, 17);
    }
    if (c > left) c = left;
    k->split[k->nsplit++] = c;
    left -= c;
  }
  if (left || k->nsplit == 0) k->split[k->nsplit++] = left;
}

static unsigned fn_list[FN_COUNT], fn_n;
static int is_stream(int fn) { return fn == FN_S || fn == FN_SX; }
static int has_hi(int fn) { return fn == FN_SX || fn == FN_T2X; }

static void gen_case(rng_t *r, kase *k) {
  k->fn = (int)fn_list[below(r, fn_n)];
  k->len = gen_len(r);
  k->seed = gen_seed(r, k);
  gen_data(r, k);
  if (chance(r, 4)) k->seed = gen_seed(r, k);
  k->seed2 = is_stream(k->fn) ? gen_seed2(r, k, k->seed) : 0;
  if (k->len >= 4 && chance(r, 3)) {
    craft_t c = {.pick = pick_edge, .armed = 1, .prob = 1 + (unsigned)below(r, 3), .rng = rnd(r)};
    uint64_t hi;
    ref_call(k->fn, be_t0_impl(), k->data, k->len, k->seed, k->seed2, &hi, &c);
    g_crafted = 1;
  }
  gen_place(r, k);
  k->nsplit = 0;
  if (is_stream(k->fn)) gen_splits(r, k);
}

/*-------------------------------------------------------------------- running */
static void surround(const kase *k) {
  uint8_t *base = reg_rw[k->reg];
  rng_t r = {k->nbr};
  uint8_t g[40];
  uint32_t lo = k->off < 40 ? k->off : 40;
  size_t room = reg_size[k->reg] - k->off - k->len;
  uint32_t hi = room < 40 ? (uint32_t)room : 40;
  switch (k->nbr & 3) {
  case 0: memset(g, 0, sizeof g); break;
  case 1: memset(g, 0xff, sizeof g); break;
  default: rnd_fill(&r, g, sizeof g);
  }
  memcpy(base + k->off - lo, g, lo);
  memcpy(base + k->off + k->len, g + 40 - hi, hi);
  memcpy(base + k->off, k->data, k->len);
}
typedef struct { uint64_t lo, hi; call_info ci; } result;
static char why[400];
static const char *sayf(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(why, sizeof why, fmt, ap); va_end(ap);
  return why;
}
static gptr gp(int reg, size_t off) { gptr p = {reg, off, 0}; return p; }
static const gptr GNULL = {0, 0, 1};

/* canaries in the writable region: everything outside the listed windows must stay as painted */
#define CAN 64
static uint8_t canary(size_t i) { return (uint8_t)(0xA5 ^ i * 7); }
static void paint(size_t lo, size_t hi) { if (hi > reg_size[REG_W]) hi = reg_size[REG_W]; for (size_t i = lo; i < hi; i++) reg_rw[REG_W][i] = canary(i); }
static long scan(size_t lo, size_t hi) {
  if (hi > reg_size[REG_W]) hi = reg_size[REG_W];
  for (size_t i = lo; i < hi; i++) if (reg_rw[REG_W][i] != canary(i)) return (long)i;
  return -1;
}
static size_t w_ctx(const kase *k) { return k->wplace ? reg_size[REG_W] - be_ctx_size() : 0; }
static size_t w_hi(const kase *k) { return k->wplace ? 2 * PG - 8 - 16 * (k->nbr >> 8 & 7) : reg_size[REG_W] - 8; }

static uint64_t guest_load64(size_t off) { /* results are stored in the target's byte order */
  uint64_t v;

  memcpy(&v, reg_rw[REG_W] + off, 8);
  return be_big_endian() ? __builtin_bswap64(v) : v;
}

/* returns NULL or what went wrong in terms of memory behaviour */
static const char *run(const kase *k, result *o) {
  size_t hw = w_hi(k), cw = w_ctx(k), cs = be_ctx_size();
  surround(k);
  be_view((unsigned)(k->nbr >> 40));
  o->hi = 0;
  int hi = has_hi(k->fn), st = is_stream(k->fn);
  if (hi) paint(hw - CAN, hw + 8 + CAN);
  gptr d = gp(k->reg, k->off);
  if (k->len == 0 && (k->nbr >> 16 & 3) == 0) d = GNULL;
  if (!st) {
    if (k->fn == FN_T2X) o->lo = be_hashx(gp(REG_W, hw), d, k->len, k->seed, &o->ci);
    else o->lo = be_hash(k->fn, d, k->len, k->seed, &o->ci);
    if (o->ci.fault) return sayf("fault: %s", o->ci.why);
  } else {
    rng_t r = {k->nbr};
    paint(cw > CAN ? cw - CAN : 0, cw + cs + CAN);
    if (k->nbr & 4) rnd_fill(&r, reg_rw[REG_W] + cw, cs); /* contexts may hold anything before init */
    be_s_init(gp(REG_W, cw), k->seed, k->seed2, &o->ci);
    if (o->ci.fault) return sayf("fault in init: %s", o->ci.why);
    uint32_t pos = 0;
    for (uint32_t i = 0; i < k->nsplit; i++) {
      be_s_update(gp(REG_W, cw), d.null ? d : gp(k->reg, k->off + pos), k->split[i], &o->ci);
      if (o->ci.fault) return sayf("fault in update #%u: %s", i, o->ci.why);
      pos += k->split[i];
    }
    o->lo = be_s_final(gp(REG_W, cw), hi ? gp(REG_W, hw) : GNULL, &o->ci);
    if (o->ci.fault) return sayf("fault in final: %s", o->ci.why);
    long x = scan(cw > CAN ? cw - CAN : 0, cw);
    if (x < 0) x = scan(cw + cs, cw + cs + CAN);
    if (x >= 0) return sayf("write outside the context (at %+ld from its start, size %zu)", x - (long)cw, cs);
  }
  if (hi) {
    long x = scan(hw - CAN, hw);
    if (x < 0) x = scan(hw + 8, hw + 8 + CAN);
    if (x >= 0) return sayf("write outside the 8-byte result (at %+ld)", x - (long)hw);
    o->hi = guest_load64(hw);
  }
  return NULL;
}

static const char *check_value(const kase *k) {
  result o;
  uint64_t rhi = 0, rlo = ref_call(k->fn, be_t0_impl(), k->data, k->len, k->seed, k->seed2, &rhi, NULL);
  const char *e = run(k, &o);
  if (e) return e;
  if (o.lo != rlo) return sayf("%s: got %016llx, the published function gives %016llx", fn_name[k->fn], (unsigned long long)o.lo, (unsigned long long)rlo);
  if (has_hi(k->fn) && o.hi != rhi) return sayf("%s: high part %016llx, the published function gives %016llx", fn_name[k->fn], (unsigned long long)o.hi, (unsigned long long)rhi);
  return NULL;
}
static const char *check_mem(const kase *k) { result o; return run(k, &o); }

static void fit(kase *k);
static const char *check_pure(const kase *k0) { /* same bytes, length, seed; everything else varies */
  static kase k, other;
  result a, b;
  const char *e = run(k0, &a);
  if (e) return NULL; /* faults are C08's business */
  rng_t r = {k0->nbr ^ 0x77};
  kcopy(&k, k0);
  for (int i = 0; i < 9; i++) {
    if (i >= 6) { /* the same place, where something nearly the same was hashed just before */
      k.reg = k0->reg; k.off = k0->off; k.wplace = k0->wplace; k.nbr = k0->nbr;
      kcopy(&other, k0);
      uint32_t n = other.len;
      switch (below(&r, 8)) {
      case 0: if (n) other.data[below(&r, n)] ^= (uint8_t)(1 + below(&r, 255)); break;
      case 1: if (n) other.data[n - 1] ^= (uint8_t)(1 + below(&r, 255)); break;
      case 2: if (n > 16) rnd_fill(&r, other.data + 8, n - 16); break;
      case 3: if (n > 64) rnd_fill(&r, other.data + 32, n - 64); break;
      case 4: rnd_fill(&r, other.data, n); break;
      case 5: other.seed ^= chance(&r, 2) ? 1ull << below(&r, 64) : rnd(&r); break;
      case 6: if (n) { uint32_t m = (uint32_t)below(&r, n); other.len = m; fit(&other); } break;
      default: if (is_stream(other.fn)) other.seed2 ^= 1ull << below(&r, 64); else if (n) other.data[0] ^= 1; break;
      }
      if (run(&other, &b)) return NULL;
    } else gen_place(&r, &k);
    if (i == 0) { k.reg = k0->reg; k.off = k0->off; k.wplace = k0->wplace; } /* only the surroundings differ */
    if (i == 3 && k0->len <= 600) { k.reg = REG_B; k.off = (k0->off & 63) + 2 * PG + 64 + (uint32_t)below(&r, 8); }
    if ((i & 1) && i < 6) { /* an unrelated call in between */
      other.fn = (int)fn_list[below(&r, fn_n)];
      other.len = (uint32_t)below(&r, 200); other.seed = rnd(&r); other.seed2 = rnd(&r); other.nbr = rnd(&r);
      rnd_fill(&r, other.data, other.len); other.reg = REG_B; other.off = (uint32_t)below(&r, 8000); other.wplace = (int)below(&r, 2);
      other.nsplit = 1; other.split[0] = other.len;
      if (run(&other, &b)) return NULL;
    }
    if (run(&k, &b)) return NULL;
    if (a.lo != b.lo || a.hi != b.hi)
      return sayf("%s: %016llx:%016llx at region %d offset %u, but %016llx:%016llx at region %d offset %u (surroundings %llx)", fn_name[k.fn], (unsigned long long)a.hi,
                  (unsigned long long)a.lo, k0->reg, k0->off, (unsigned long long)b.hi, (unsigned long long)b.lo, k.reg, k.off, (unsigned long long)k.nbr);
  }
  return NULL;
}
static const char *check_exact(const kase *k) {
  result o;
  be_monitor(1);
  const char *e = run(k, &o);
  be_monitor(0);
  return e;
}

static const char *check_self(const kase *k) {
  char w[120];
  (void)k;
  return be_selfcheck_all_of(w, sizeof w) ? sayf("%s", w) : NULL;
}

/*--------------------------------------------------------------- stream modes */
/* histories over several contexts; ops are decoded from a flat list so that they shrink */
enum { OP_INIT, OP_UPDATE, OP_FINAL, OP_COPY, OP_NOISE, OP_N };
#define NCTX 4
#define MAXOPS 96
typedef struct { int op, c, c2; uint64_t x, y; uint32_t len, off; int want, dirt; uint64_t fill; } sop;
typedef struct { uint32_t n; sop op[MAXOPS]; } hist;
static size_t ctx_at(int c) { return ((be_ctx_size() + 63) & ~(size_t)63) * (size_t)c + 256; }
static void op_bytes(const sop *s, uint8_t *buf) {
  rng_t r = {s->fill};
  switch (s->fill & 7) {
  case 0: memset(buf, 0, s->len); break;
  case 1: memset(buf, 0xff, s->len); break;
  case 2: for (uint32_t i = 0; i < s->len; i++) buf[i] = (uint8_t)(i + (s->fill >> 8)); break;
  default: rnd_fill(&r, buf, s->len);
  }
}
/* what a context holds before it is initialised is nobody's business */
static void soil(const sop *s, int c) {
  uint8_t *p = reg_rw[REG_W] + ctx_at(c);
  size_t n = be_ctx_size();
  rng_t r = {s->fill ^ 0x50};
  call_info ci;
  switch (s->dirt & 15) {
  case 1: memset(p, 0, n); break;
  case 2: memset(p, 0xff, n); break;
  case 3: rnd_fill(&r, p, n); break;
  case 4: if (s->c2 != c) memcpy(p, reg_rw[REG_W] + ctx_at(s->c2), n); break;
  case 5: case 6: case 7: case 8: case 9: /* looks like a fresh context, but for one or several words */
    be_s_init(gp(REG_W, ctx_at(c)), s->x, s->y, &ci);
    if (s->dirt == 9) be_s_update(gp(REG_W, ctx_at(c)), gp(REG_B, s->off), 1 + s->off % 40, &ci);
    for (int i = 5; i <= s->dirt; i++) { uint64_t v = s->dirt & 1 ? rnd(&r) : 0; memcpy(p + 8 * below(&r, n / 8), &v, 8); if (s->dirt == 9) break; }
    break;
  case 10: /* all zero but one word, or one byte everywhere */
    if (chance(&r, 2)) { memset(p, 0, n); uint64_t v = chance(&r, 2) ? s->x : rnd(&r); memcpy(p + 8 * below(&r, n / 8), &v, 8); }
    else memset(p, (int)below(&r, 256), n);
    break;
  default: break; /* as it was left */
  }
}
static char hlog[200];
static const char *check_hist_(const hist *h, int metam) {
  static ref_stream_t m[NCTX];
  static int live[NCTX]; /* 0: garbage, 1: usable, 2: finalised */
  static uint8_t buf[MAXLEN];
  static uint8_t all[NCTX][1 << 17];
  static uint32_t alln[NCTX];
  static uint64_t sx[NCTX], sy[NCTX];
  call_info ci;
  memset(live, 0, sizeof live);
  rng_t r = {h->n * 977};
  be_view((unsigned)(h->op[0].fill >> 40));
  for (int c = 0; c < NCTX; c++) rnd_fill(&r, reg_rw[REG_W] + ctx_at(c), be_ctx_size());
  for (uint32_t i = 0; i < h->n; i++) {
    const sop *s = &h->op[i];
    int c = s->c;
    ci.fault = 0;
    switch (s->op) {
    case OP_INIT:
      soil(s, c);
      be_s_init(gp(REG_W, ctx_at(c)), s->x, s->y, &ci);
      ref_s_init(&m[c], s->x, s->y);
      live[c] = 1; alln[c] = 0; sx[c] = s->x; sy[c] = s->y;
      break;
    case OP_UPDATE:
      if (live[c] != 1) break; /* precondition of the API */
      if (alln[c] + s->len > sizeof all[0]) break;
      op_bytes(s, buf);
      memcpy(reg_rw[REG_B] + s->off, buf, s->len);
      be_s_update(gp(REG_W, ctx_at(c)), s->len == 0 && (s->off & 1) ? GNULL : gp(REG_B, s->off), s->len, &ci);
      /* the caller may reuse its buffer at once */
      memset(reg_rw[REG_B] + s->off, 0x3c, s->len);
      ref_s_update(&m[c], buf, s->len);
      memcpy(all[c] + alln[c], buf, s->len); alln[c] += s->len;
      break;
    case OP_COPY:
      if (s->c2 == c) break;
      memcpy(reg_rw[REG_W] + ctx_at(s->c2), reg_rw[REG_W] + ctx_at(c), be_ctx_size());
      live[s->c2] = live[c]; m[s->c2] = m[c]; alln[s->c2] = alln[c]; sx[s->c2] = sx[c]; sy[s->c2] = sy[c];
      memcpy(all[s->c2], all[c], alln[c]);
      break;
    case OP_NOISE: { /* unrelated one-shot hashing in between */
      call_info cj;
      static const int nf[] = {FN_T1LE, FN_T2, FN_T0LE, FN_T1BE};
      int f = nf[s->x & 3];
      if (!be_has(f)) break;
      op_bytes(s, reg_rw[REG_B] + s->off);
      be_hash(f, gp(REG_B, s->off), s->len, s->x, &cj);
      break; }
    case OP_FINAL: {
      if (live[c] != 1) break;
      size_t hw = reg_size[REG_W] - 8;
      memset(reg_rw[REG_W] + hw, 0x55, 8);
      uint64_t hi = 0, rhi = 0, lo;
      lo = be_s_final(gp(REG_W, ctx_at(c)), s->want ? gp(REG_W, hw) : GNULL, &ci);
      if (ci.fault) break;
      live[c] = 2;
      uint64_t rlo;
      if (s->want) hi = guest_load64(hw);
      if (!metam) rlo = ref_s_final(&m[c], s->want ? &rhi : NULL);
      else { /* metamorphic: one init, one update with everything, one final -- on the code itself */
        size_t fresh = ctx_at(NCTX);
        uint32_t o2 = (alln[c] * 7u) & 15;
        memcpy(reg_rw[REG_B] + o2, all[c], alln[c]);
        be_s_init(gp(REG_W, fresh), sx[c], sy[c], &ci);
        if (!ci.fault) be_s_update(gp(REG_W, fresh), gp(REG_B, o2), alln[c], &ci);
        if (!ci.fault) rlo = be_s_final(gp(REG_W, fresh), s->want ? gp(REG_W, hw) : GNULL, &ci); else rlo = 0;
        if (!ci.fault && s->want) rhi = guest_load64(hw);
      }
      if (ci.fault) break;
      if (lo != rlo || (s->want && hi != rhi)) {
        snprintf(hlog, sizeof hlog, "step %u: final(ctx %d, %s) over %u bytes gives %016llx:%016llx, %s %016llx:%016llx", i, c, s->want ? "128-bit" : "64-bit", alln[c],
                 (unsigned long long)hi, (unsigned long long)lo, metam ? "the same bytes in one update give" : "expected", (unsigned long long)rhi, (unsigned long long)rlo);
        return hlog;
      }
      break; }
    }
    if (ci.fault) { snprintf(hlog, sizeof hlog, "step %u: %s", i, ci.why); return hlog; }
  }
  return NULL;
}
static int hist_metam;
static const char *check_hist(const hist *h) { return check_hist_(h, hist_metam); }
static uint32_t gen_chunk(rng_t *r) {
  switch (below(r, 12)) {
  case 0: return 0;
  case 1: case 2: return (uint32_t)below(r, 9);
  case 3: return 32;
  case 4: return 31 + (uint32_t)below(r, 3);
  case 5: return 32 * (uint32_t)below(r, 6);
  case 6: return 64 * (uint32_t)below(r, 4) + (uint32_t)below(r, 3) - 1 * (uint32_t)0;
  case 7: return chance(r, 10) ? (uint32_t)below(r, 9000) : (uint32_t)below(r, 300);
  case 8: { uint64_t v = dict_n ? dict[below(r, dict_n)] : 24; return v < 3000 ? (uint32_t)v : 24; }
  default: return (uint32_t)below(r, 70);
  }
}
static void gen_hist(rng_t *r, hist *h, int contexts) {
  h->n = 3 + (uint32_t)below(r, chance(r, 4) ? MAXOPS - 4 : 14);
  int lv[NCTX] = {0};
  uint32_t fillto[NCTX] = {0}; /* partial bytes as the generator believes */
  static kase dummy;
  dummy.len = 0;
  for (uint32_t i = 0; i < h->n; i++) {
    sop *s = &h->op[i];
    memset(s, 0, sizeof *s);
    s->c = (int)below(r, (uint64_t)contexts);
    s->c2 = (int)below(r, (uint64_t)contexts);
    s->off = (uint32_t)below(r, 4200);
    s->fill = rnd(r);
    s->want = (int)below(r, 2);
    dummy.len = 0;
    s->x = gen_seed(r, &dummy); s->y = gen_seed2(r, &dummy, s->x);
    if (chance(r, 5)) s->x = s->y = chance(r, 2) ? 0 : ~0ull;
    s->dirt = chance(r, 2) ? (int)below(r, 11) : 0;
    if (i && chance(r, 4)) { const sop *p = &h->op[below(r, i)]; s->x = p->x; if (chance(r, 2)) s->y = p->y; } /* seeds of before */
    unsigned q = (unsigned)below(r, 16);
    if (lv[s->c] != 1) s->op = q < 13 ? OP_INIT : contexts > 1 ? OP_COPY : OP_INIT;
    else if (q < 9) s->op = OP_UPDATE;
    else if (q < 12) s->op = OP_FINAL;
    else if (q < 13) s->op = OP_INIT;
    else if (q < 15) s->op = contexts > 1 ? OP_COPY : OP_UPDATE;
    else s->op = OP_NOISE;
    s->len = gen_chunk(r);
    if (s->op == OP_UPDATE && chance(r, 3)) { /* aim at the block boundary */
      uint32_t left = 32 - fillto[s->c] % 32;
      s->len = left + 32 * (uint32_t)below(r, 3) + (uint32_t)below(r, 3) - (left ? 1 : 0);
    }
    if (s->op == OP_INIT) { lv[s->c] = 1; fillto[s->c] = 0; }
    if (s->op == OP_UPDATE) fillto[s->c] += s->len;
    if (s->op == OP_FINAL) lv[s->c] = 2;
    if (s->op == OP_COPY) { lv[s->c2] = lv[s->c]; fillto[s->c2] = fillto[s->c]; }
  }
  /* finish every open context, so that nothing goes unobserved */
  for (int c = 0; c < contexts && h->n < MAXOPS; c++)
    if (lv[c] == 1) { sop *s = &h->op[h->n++]; memset(s, 0, sizeof *s); s->op = OP_FINAL; s->c = c; s->want = (int)below(r, 2); }
}
static uint64_t hist_hash(const hist *h) {
  uint64_t v = h->n;
  for (uint32_t i = 0; i < h->n; i++) { const sop *s = &h->op[i]; v = mix64_(v + (uint64_t)s->op * 31 + (uint64_t)s->c * 7 + (uint64_t)s->c2 + s->len * 1000ull + (uint64_t)s->want * 13); v = mix64_(v ^ s->x ^ s->fill ^ (uint64_t)s->dirt << 50); }
  return v;
}
static const char *const opn[] = {"init", "update", "final", "copy", "noise"};
static void hist_print(FILE *f, const hist *h) {
  for (uint32_t i = 0; i < h->n; i++) {
    const sop *s = &h->op[i];
    fprintf(f, "op %s c=%d c2=%d x=%llx y=%llx len=%u off=%u want=%d fill=%llx dirt=%d\n", opn[s->op], s->c, s->c2, (unsigned long long)s->x, (unsigned long long)s->y, s->len, s->off, s->want,
            (unsigned long long)s->fill, s->dirt);
  }
}

/*------------------------------------------------------------------- shrinking */
typedef const char *(*checker)(const kase *);
static checker cur_check;
static long shrink_budget;
static int bad(const kase *k) { if (shrink_budget-- <= 0) return 0; return cur_check(k) != NULL; }
static void fit(kase *k) {
  if (k->off + k->len > reg_size[k->reg]) k->off = (uint32_t)(reg_size[k->reg] - k->len);
  if (is_stream(k->fn)) {
    uint32_t s = 0, i;
    for (i = 0; i < k->nsplit; i++) { if (s + k->split[i] >= k->len) { k->split[i] = k->len - s; s = k->len; i++; break; } s += k->split[i]; }
    k->nsplit = i ? i : 1;
    if (s < k->len) k->split[k->nsplit - 1] += k->len - s;
    if (k->nsplit == 1) k->split[0] = k->len;
  }
}
static void shrink(kase *k) {
  static kase t;
  int progress = 1;
  shrink_budget = 4000;
  while (progress && shrink_budget > 0) {
    progress = 0;
#define TRY(stmt) do { kcopy(&t, k); stmt; fit(&t); if (bad(&t)) { kcopy(k, &t); progress = 1; } } while (0)
    static const uint32_t cut[] = {1u << 16, 1u << 15, 1u << 14, 1u << 13, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1};
    for (unsigned i = 0; i < sizeof cut / sizeof *cut; i++)
      while (k->len >= cut[i]) {
        uint32_t n0 = k->len;
        int at_end = k->off + k->len == reg_size[k->reg];
        TRY(t.len -= cut[i]; if (at_end) t.off += cut[i]);
        if (k->len == n0) TRY(t.len -= cut[i]; memmove(t.data, t.data + cut[i], t.len); if (at_end) t.off += cut[i]);
        if (k->len == n0) break;
      }
    for (uint32_t blk = k->len ? k->len : 1; blk; blk /= 2)
      for (uint32_t p = 0; p < k->len; p += blk) {
        uint32_t n = k->len - p < blk ? k->len - p : blk, nz = 0;
        for (uint32_t i = 0; i < n; i++) nz |= k->data[p + i];
        if (nz) { uint64_t s0 = (uint64_t)progress; TRY(memset(t.data + p, 0, n)); (void)s0; }
        if (shrink_budget <= 0) break;
      }
    if (k->seed) { TRY(t.seed = 0); if (k->seed > 1) TRY(t.seed = 1); }
    for (int b = 0; b < 64 && k->seed; b++) if (k->seed >> b & 1) TRY(t.seed &= ~(1ull << b));
    if (k->seed2) { TRY(t.seed2 = 0); }
    for (int b = 0; b < 64 && k->seed2; b++) if (k->seed2 >> b & 1) TRY(t.seed2 &= ~(1ull << b));
    if (k->reg != REG_B || k->off != PG / 2) { TRY(t.reg = REG_B; t.off = PG / 2); }
    if (k->off != PG / 2 && k->off) { TRY(t.reg = REG_B; t.off = 0); }
    if (k->nbr) TRY(t.nbr = 0);
    for (uint32_t i = 0; is_stream(k->fn) && i + 1 < k->nsplit; i++)
      TRY(t.split[i] += t.split[i + 1]; memmove(t.split + i + 1, t.split + i + 2, (t.nsplit - i - 2) * sizeof *t.split); t.nsplit--);
  }
}
static void shrink_hist(hist *h) {
  static hist t;
  int progress = 1;
  long budget = 6000;
#define TRYH(stmt) do { t = *h; stmt; if (budget-- > 0 && check_hist(&t)) { *h = t; progress = 1; } } while (0)
  while (progress && budget > 0) {
    progress = 0;
    for (uint32_t blk = h->n / 2; blk; blk /= 2)
      for (uint32_t i = 0; i + blk <= h->n;) {
        uint32_t n0 = h->n;
        TRYH(memmove(t.op + i, t.op + i + blk, (t.n - i - blk) * sizeof *t.op); t.n -= blk);
        if (h->n == n0) i += blk;
      }
    for (uint32_t i = 0; i < h->n; i++) {
      static const uint32_t cut[] = {4096, 1024, 256, 64, 32, 16, 8, 4, 2, 1};
      for (unsigned j = 0; j < 10; j++) while (h->op[i].len >= cut[j]) { uint32_t l0 = h->op[i].len; TRYH(t.op[i].len -= cut[j]); if (h->op[i].len == l0) break; }
      if (h->op[i].fill) TRYH(t.op[i].fill = 0);
      if (h->op[i].x) TRYH(t.op[i].x = 0);
      if (h->op[i].y) TRYH(t.op[i].y = 0);
      if (h->op[i].off) TRYH(t.op[i].off = 0);
      if (h->op[i].want) TRYH(t.op[i].want = 0);
      if (h->op[i].dirt) TRYH(t.op[i].dirt = 0);
      if (h->op[i].c) TRYH(t.op[i].c = 0);
    }
  }
}

/*-------------------------------------------------------------------- replay */
static void write_case(FILE *f, const kase *k) {
  fprintf(f, "fn %s\nlen %u\nseed %llx\nseed2 %llx\nregion %d\noff %u\nwplace %d\nnbr %llx\n", fn_name[k->fn], k->len, (unsigned long long)k->seed, (unsigned long long)k->seed2, k->reg,
          k->off, k->wplace, (unsigned long long)k->nbr);
  fprintf(f, "splits");
  for (uint32_t i = 0; i < k->nsplit; i++) fprintf(f, " %u", k->split[i]);
  fprintf(f, "\ndata ");
  for (uint32_t i = 0; i < k->len; i++) fprintf(f, "%02x", k->data[i]);
  fprintf(f, "\n");
}
static FILE *open_replay(char *path, size_t n, const char *msg) {
  snprintf(path, n, "%s/replay-%s-%s-%llu-%llu.txt", opt.out, opt.mode, opt.variant, (unsigned long long)opt.seed, (unsigned long long)n_fail);
  FILE *f = fopen(path, "w");
  if (!f) { perror(path); exit(3); }
  fprintf(f, "engine %s\nvariant %s\nbackend %s\nwhy %s\nmode %s\n", "native", opt.variant, be_describe(), msg, opt.mode);
  return f;
}
static int stop;
static void report(kase *k, checker chk) {
  static kase best;
  char msg[400], path[600];
  cur_check = chk;
  kcopy(&best, k);
  for (int i = 0; i < 3; i++) if (!chk(k)) { fprintf(stderr, "unstable failure ignored: %s\n", why); return; }
  shrink(&best);
  const char *e = chk(&best);
  if (!e) { kcopy(&best, k); e = chk(&best); }
  snprintf(msg, sizeof msg, "%s", e ? e : "?");
  FILE *f = open_replay(path, sizeof path, msg);
  write_case(f, &best);
  fclose(f);
  printf("FAIL %s %s\n", path, msg);
  fflush(stdout);
  if (++n_fail >= (uint64_t)opt.maxfail) stop = 1;
}
static void report_hist(hist *h) {
  char msg[400], path[600];
  static hist best;
  best = *h;
  for (int i = 0; i < 3; i++) if (!check_hist(h)) return;
  shrink_hist(&best);
  const char *e = check_hist(&best);
  if (!e) { best = *h; e = check_hist(&best); }
  snprintf(msg, sizeof msg, "%s", e ? e : "?");
  FILE *f = open_replay(path, sizeof path, msg);
  hist_print(f, &best);
  fclose(f);
  printf("FAIL %s %s\n", path, msg);
  fflush(stdout);
  if (++n_fail >= (uint64_t)opt.maxfail) stop = 1;
}

/*---------------------------------------------------------------------- modes */
static kase K;
static void one(checker chk) {
  account(&K, g_crafted, g_pooled);
  if ((n_eval & 0xfff) == 0x111) sample(&K);
  if (chk(&K)) report(&K, chk);
}
static void grid(checker chk, uint32_t maxlen, uint32_t aligns, rng_t *r) {
  /* every length x alignment x page placement for every function, fresh random bytes */
  for (unsigned f = 0; f < fn_n && !stop; f++)
    for (uint32_t len = 0; len <= maxlen && !stop; len++)
      for (uint32_t al = 0; al < aligns * 3 && !stop; al++) {
        K.fn = (int)fn_list[f]; K.len = len; K.seed = rnd(r); K.seed2 = is_stream(K.fn) ? rnd(r) : 0; K.nbr = rnd(r); K.wplace = (int)(al & 1);
        rnd_fill(r, K.data, len);
        g_crafted = g_pooled = 0;
        uint32_t a = al / 3;
        switch (al % 3) {
        case 0: K.reg = REG_A; if (len + a > PG) continue; K.off = a; break;
        case 1: K.reg = REG_A; if (len + a > PG) continue; K.off = PG - len - a; break;
        default: K.reg = REG_B; K.off = 3 * PG - (len + 1) / 2 - a;
        }
        K.nsplit = 0;
        if (is_stream(K.fn)) gen_splits(r, &K);
        one(chk);
      }
}

static void mode_hist(rng_t *r, int contexts) {
  static hist h;
  for (long i = 0; i < opt.cases && !stop; i++) {
    gen_hist(r, &h, contexts);
    n_eval++;
    unsigned ups = 0, fin = 0, cp = 0;
    for (uint32_t j = 0; j < h.n; j++) { ups += h.op[j].op == OP_UPDATE && h.op[j].len; fin += h.op[j].op == OP_FINAL; cp += h.op[j].op == OP_COPY; }
    if (ups >= 2 && fin && bloom_new(hist_hash(&h))) n_nontrivial++;
    cls[12] += ups >= 2; cls[13] += cp > 0; cls[14] += fin > 1;
    if (n_samples < 3 && i % 7 == 3) {
      char *s = samples[n_samples++];
      int n = 0;
      for (uint32_t j = 0; j < h.n && n < 190; j++) n += snprintf(s + n, (size_t)(220 - n), "%s%d(%u) ", opn[h.op[j].op], h.op[j].c, h.op[j].op == OP_UPDATE ? h.op[j].len : 0);
    }
    if (check_hist(&h)) report_hist(&h);
  }
}

/* every bit of message, seed and length matters: a bit is dead in a context class
 * if flipping it never changes the result in several independent contexts */
static const char *flip(const kase *k0, uint32_t bit, result *o) {
  static kase k;
  kcopy(&k, k0);
  if (bit < 64) k.seed ^= 1ull << bit;
  else if (is_stream(k.fn) && bit < 128) k.seed2 ^= 1ull << (bit - 64);
  else { bit -= is_stream(k.fn) ? 128 : 64; k.data[bit / 8] ^= (uint8_t)(1u << (bit & 7)); }
  return run(&k, o);
}
static uint32_t nbits(const kase *k) { return (is_stream(k->fn) ? 128u : 64u) + 8 * k->len; }
static uint32_t bits_bit; /* replayed as seed2-independent field through nbr */
static const char *check_bits(const kase *k0) { /* contexts of the same shape: the bytes, the seed, or both vary */
  static kase k;
  uint32_t bit = bits_bit;
  if (bit >= nbits(k0) + 2) return NULL;
  rng_t r = {k0->seed ^ k0->len};
  int changed = 0, kind = (int)(k0->nbr >> 5) % 4;
  if (kind == 1 && k0->len == 0) kind = 0;
  for (int i = 0; i < 6 && !changed; i++) {
    result a, b;
    kcopy(&k, k0);
    if (i && kind == 1) for (uint32_t j = 0; j < k.len; j++) k.data[j] = (uint8_t)rnd(&r);         /* for this seed */
    else if (i && kind == 2) k.seed = rnd(&r), k.seed2 = rnd(&r);                                   /* for these bytes */
    else if (i) {
      if (i & 1) k.seed ^= rnd(&r) << 16;
      for (uint32_t j = 0; j < k.len; j++) if (i > 2) k.data[j] ^= (uint8_t)rnd(&r);
      if (i == 2 && k.len) k.data[below(&r, k.len)] ^= 0x10;
    }
    if (run(&k, &a)) return NULL;
    if (bit < nbits(&k)) { if (flip(&k, bit, &b)) return NULL; }
    else { /* the length: one more / one less zero byte at the end */
      if (bit == nbits(&k)) { if (k.len + 1 >= MAXLEN || k.off + k.len + 1 > reg_size[k.reg]) return NULL; k.data[k.len++] = 0; }
      else { if (k.len == 0) return NULL; k.len--; }
      if (is_stream(k.fn)) { k.nsplit = 1; k.split[0] = k.len; }
      if (run(&k, &b)) return NULL;
    }
    changed = a.lo != b.lo;
    if (has_hi(k.fn) && a.hi == b.hi) changed = 0;
  }
  if (changed) return NULL;
  return sayf("%s (len %u): changing %s %u never changes the result (6 contexts%s)", fn_name[k0->fn], k0->len, bit < 64 ? "seed bit" : bit < nbits(k0) ? "input bit" : "the length, variant",
              bit < 64 ? bit : bit < nbits(k0) ? bit - (is_stream(k0->fn) ? 128 : 64) : bit - nbits(k0), kind == 1 ? " with this seed" : kind == 2 ? " with these bytes" : "");
}
static void try_bit(uint32_t bit) {
  bits_bit = bit;
  cls[15]++;
  const char *e = check_bits(&K);
  if (!e || !(e = check_bits(&K))) return;
  char path[600];
  FILE *f = open_replay(path, sizeof path, why);
  fprintf(f, "bit %u\n", bits_bit);
  write_case(f, &K);
  fclose(f);
  printf("FAIL %s %s\n", path, why);
  n_fail++; stop = 1;
}
/* flips every bit (or one bit in every word) of this very case; what changes nothing is looked at more closely */
static void sweep(rng_t *r, int words) {
  static kase k;
  result a, b;
  uint32_t base = is_stream(K.fn) ? 128 : 64, nb = nbits(&K);
  kcopy(&k, &K);
  if (run(&k, &a)) return;
  for (uint32_t t = 0; t < nb && !stop; t += t >= base && words ? 64 : 1) {
    uint32_t bit = t;
    if (t < base) { if (t < 64) k.seed ^= 1ull << t; else k.seed2 ^= 1ull << (t - 64); }
    else {
      if (words) { bit = t + (uint32_t)below(r, 64); if (bit >= nb) bit = nb - 1; }
      k.data[(bit - base) / 8] ^= (uint8_t)(1u << (bit & 7));
    }
    const char *e = run(&k, &b);
    cls[15]++;
    if (t < base) { if (t < 64) k.seed ^= 1ull << t; else k.seed2 ^= 1ull << (t - 64); }
    else k.data[(bit - base) / 8] ^= (uint8_t)(1u << (bit & 7));
    if (e) return;
    if (a.lo == b.lo || (has_hi(K.fn) && a.hi == b.hi)) try_bit(bit);
  }
}
/* messages that differ in nothing but their length: one byte repeated, one seed, every length.
 * Three or more pairs that collide are no accident (a pair collides by chance at most about once in 2^32). */
static const char *check_ladder(int fn, uint64_t seed, uint64_t seed2, unsigned fill, uint32_t maxlen) {
  static kase k;
  static result v[1100];
  uint32_t pairs = 0, x = 0, y = 0;
  if (maxlen > 1099) maxlen = 1099;
  memset(&k, 0, offsetof(kase, data));
  memset(k.data, (int)fill, maxlen);
  k.fn = fn; k.seed = seed; k.seed2 = seed2; k.reg = REG_B; k.off = 64;
  for (uint32_t n = 0; n <= maxlen; n++) {
    k.len = n; k.nsplit = 1; k.split[0] = n;
    if (run(&k, &v[n])) return NULL;
    for (uint32_t j = 0; j < n; j++) if (v[j].lo == v[n].lo && (!has_hi(fn) || v[j].hi == v[n].hi)) { if (!pairs++) x = j, y = n; }
  }
  n_eval += maxlen + 1;
  if (pairs < 3) return NULL;
  return sayf("%s: of the messages of 0..%u bytes 0x%02x with seed %llx %u pairs have the same hash, e.g. %u and %u bytes", fn_name[fn], maxlen, fill, (unsigned long long)seed, pairs, x, y);
}
static void ladder(rng_t *r) {
  int fn = (int)fn_list[below(r, fn_n)];
  unsigned fill = chance(r, 3) ? (unsigned)below(r, 256) : chance(r, 4) ? 0xff : 0;
  uint64_t s = chance(r, 2) ? 0 : chance(r, 2) ? pool(r) : rnd(r), t = !is_stream(fn) || chance(r, 2) ? 0 : rnd(r);
  uint32_t n = chance(r, 6) ? 1024 : 40 + (uint32_t)below(r, 260);
  cls[19]++;
  const char *e = check_ladder(fn, s, t, fill, n);
  if (!e) return;
  while (n > 2) { /* the shortest ladder that still shows it */
    uint32_t m = n - 1;
    if (!check_ladder(fn, s, t, fill, m)) break;
    n = m;
  }
  e = check_ladder(fn, s, t, fill, n);
  char path[600];
  FILE *f = open_replay(path, sizeof path, why);
  fprintf(f, "ladder %s %llx %llx %u %u\n", fn_name[fn], (unsigned long long)s, (unsigned long long)t, fill, n);
  fclose(f);
  printf("FAIL %s %s\n", path, e ? e : why);
  n_fail++; stop = 1;
}
static void mode_bits(rng_t *r) {
  for (long i = 0; i < opt.cases && !stop; i++) {
    if (i % 40 == 3) { ladder(r); continue; }
    gen_case(r, &K);
    int far = opt.sweep && i % opt.sweep == 7;
    if (far) { /* a long one: a word at a time */
      uint32_t n = chance(r, 2) ? 2000 + (uint32_t)below(r, 30000) : chance(r, 2) ? 65536 + (uint32_t)below(r, 20000) : (uint32_t)below(r, MAXLEN - 64);
      K.reg = REG_B;
      if (K.off > 64) K.off &= 63;
      rng_t d = {rnd(r)};
      rnd_fill(&d, K.data, n);
      if (chance(r, 4)) memset(K.data, 0, n);
      K.len = n; K.nsplit = 1; K.split[0] = n;
      if (is_stream(K.fn) && chance(r, 2)) { K.nsplit = 2; K.split[0] = (uint32_t)below(r, n); K.split[1] = n - K.split[0]; }
    } else if (K.len > 1500) K.len %= 1500;
    fit(&K);
    if (K.off + K.len + 1 > reg_size[K.reg] && K.off) K.off--;
    account(&K, g_crafted, g_pooled);
    if (i % 97 == 1) sample(&K);
    if (far) { sweep(r, 1); cls[17]++; continue; }
    uint32_t nb = nbits(&K) + 2, tries = nb < 96 ? nb : 96;
    if (opt.sweep && (nb < 700 || chance(r, 8))) { sweep(r, nb > 4000); cls[18]++; try_bit(nb - 1); try_bit(nb - 2); continue; }
    for (uint32_t t = 0; t < tries && !stop; t++)
      try_bit(tries == nb ? t : (t < 64 && chance(r, 3)) ? t : chance(r, 12) ? nb - 1 - (uint32_t)below(r, 2) : chance(r, 4) ? nb - 3 - (uint32_t)below(r, 64) : (uint32_t)below(r, nb));
  }
}

/* avalanche: over a shape (function, length, kind of bytes, kind of seed) flipping any single
 * input or seed bit must flip every output bit with probability about one half */
typedef struct { int fn; uint32_t len; int dkind, skind; uint64_t salt; uint32_t samples; } shape;
static void shape_case(const shape *s, uint32_t i, kase *k) {
  rng_t r = {s->salt ^ mix64_(i * 2654435761u + 1)};
  memset(k, 0, offsetof(kase, data));
  k->fn = s->fn; k->len = s->len; k->reg = REG_B; k->off = (uint32_t)below(&r, 64) + 64; k->nbr = 8;
  rng_t fixed = {s->salt};
  switch (s->dkind) {
  case 0: rnd_fill(&r, k->data, k->len); break;
  case 1: memset(k->data, 0, k->len); for (int j = 0; k->len && j < 3; j++) k->data[below(&r, k->len)] = (uint8_t)rnd(&r); break;
  case 2: rnd_fill(&fixed, k->data, k->len); for (int j = 0; k->len && j < 4; j++) k->data[below(&r, k->len)] = (uint8_t)rnd(&r); break; /* similar keys */
  case 3: for (uint32_t j = 0; j < k->len; j++) k->data[j] = (uint8_t)(j < 8 ? i >> (8 * (j & 3)) : 0); break;               /* counters */
  default: for (uint32_t j = 0; j < k->len; j++) k->data[j] = (uint8_t)('a' + below(&r, 26));
  }
  switch (s->skind) {
  case 0: k->seed = rnd(&r); break;
  case 1: k->seed = 0; break;
  case 2: k->seed = i; break;
  default: k->seed = s->salt;
  }
  k->seed2 = s->skind == 1 ? 0 : rnd(&r);
  k->nsplit = 1; k->split[0] = k->len;
}
static const char *check_shape(const shape *s) {
  static kase k;
  static uint32_t cnt[128], anyflip;
  int out = has_hi(s->fn) ? 128 : 64;
  /* 1: for sampled bits, flip rate of every output bit */
  static uint32_t tot[128];
  memset(tot, 0, sizeof tot);
  uint32_t nb;
  { kase *t = &k; shape_case(s, 0, t); nb = nbits(t); }
  uint32_t nbit = nb < 24 ? nb : 24;
  uint64_t pairs = 0;
  for (uint32_t b = 0; b < nbit; b++) {
    rng_t r = {s->salt + b};
    uint32_t bit = b < 4 ? (uint32_t)below(&r, 64) : nb > 64 && b < 14 ? 64 + (uint32_t)below(&r, nb - 64) : nb - 1 - (uint32_t)below(&r, nb < 80 ? nb : 80);
    memset(cnt, 0, sizeof cnt);
    anyflip = 0;
    for (uint32_t i = 0; i < s->samples; i++) {
      result x, y;
      shape_case(s, i, &k);
      if (run(&k, &x)) return NULL;
      if (flip(&k, bit, &y)) return NULL;
      uint64_t d = x.lo ^ y.lo, e = x.hi ^ y.hi;
      for (int j = 0; j < 64; j++) { cnt[j] += d >> j & 1; if (out == 128) cnt[64 + j] += e >> j & 1; }
      anyflip += d || e;
      n_eval++;
    }
    pairs += s->samples;
    /* deviation bound: 9 sigma of a fair coin (false alarm about 2e-19 per output bit) */
    for (int j = 0; j < out; j++) {
      tot[j] += cnt[j];
      double dev = (double)cnt[j] - s->samples / 2.0;
      if (dev * dev > 81.0 * s->samples / 4.0)
        return sayf("%s len %u: flipping %s bit %u changes output bit %d in %u of %u cases (expected about half; data kind %d, seed kind %d)", fn_name[s->fn], s->len,
                    bit < 64 ? "seed" : "input", bit < 64 ? bit : bit - (is_stream(s->fn) ? 128 : 64), j, cnt[j], s->samples, s->dkind, s->skind);
    }
  }
  for (int j = 0; j < out; j++) {
    double dev = (double)tot[j] - (double)pairs / 2.0;
    if (dev * dev > 100.0 * (double)pairs / 4.0) return sayf("%s len %u: output bit %d flips in %u of %llu single-bit changes", fn_name[s->fn], s->len, j, tot[j], (unsigned long long)pairs);
  }
  /* 2: no output bit is constant / biased and buckets of both halves are balanced */
  static uint32_t one_cnt[128], lob[256], hib[256];
  memset(one_cnt, 0, sizeof one_cnt); memset(lob, 0, sizeof lob); memset(hib, 0, sizeof hib);
  uint32_t n = s->samples * 4;
  uint64_t prev = 0; uint32_t distinct = 0;
  for (uint32_t i = 0; i < n; i++) {
    result x;
    shape_case(s, i, &k);
    if (run(&k, &x)) return NULL;
    for (int j = 0; j < 64; j++) { one_cnt[j] += x.lo >> j & 1; one_cnt[64 + j] += x.hi >> j & 1; }
    lob[x.lo & 255]++; hib[x.lo >> 56]++;
    distinct += x.lo != prev; prev = x.lo;
    n_eval++;
  }
  int varied = (s->dkind == 0 && s->len >= 4) || s->skind == 0 || s->skind == 2 || (s->dkind == 3 && s->len >= 4) || (s->dkind == 4 && s->len >= 8);
  if (!varied) return NULL;
  for (int j = 0; j < out; j++) {
    double dev = (double)one_cnt[j] - n / 2.0;
    if (dev * dev > 81.0 * n / 4.0) return sayf("%s len %u: output bit %d is one in %u of %u hashes (data kind %d, seed kind %d)", fn_name[s->fn], s->len, j, one_cnt[j], n, s->dkind, s->skind);
  }
  double c1 = 0, c2 = 0, ex = n / 256.0;
  for (int j = 0; j < 256; j++) { c1 += (lob[j] - ex) * (lob[j] - ex) / ex; c2 += (hib[j] - ex) * (hib[j] - ex) / ex; }
  /* chi-square with 255 degrees of freedom: mean 255, sigma 22.6; 255 + 12 sigma */
  if (c1 > 526 || c2 > 526) return sayf("%s len %u: %s byte of the hashes is not uniform (chi-square %.0f for 255 degrees of freedom, n=%u)", fn_name[s->fn], s->len, c1 > c2 ? "low" : "high", c1 > c2 ? c1 : c2, n);
  return NULL;
}
/* collisions: 2^17 different keys of one family (all counters, all keys with few bits set, numbers as text,
 * cyclic shifts, seeds) must have different hashes, and hardly more equal halves than random numbers */
typedef struct { int fn; uint32_t len; int kind; uint64_t salt; uint32_t n; } family;
static int cmp64(const void *a, const void *b) { uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b; return x < y ? -1 : x > y; }
static const char *fam_name[] = {"little-endian counters", "big-endian counters", "numbers as text", "two or three bits set", "one word varying", "counting seeds", "seeds with two or three bits set", "random keys", "counters in both halves"};
static uint32_t idx[1 << 18];
static const uint64_t *sort_by;
static int cmp_idx(const void *a, const void *b) { uint64_t x = sort_by[*(const uint32_t *)a], y = sort_by[*(const uint32_t *)b]; return x < y ? -1 : x > y; }
/* known finding: with two zero seeds a stream of zeros but for bit 0 of the third word of a block has the digest of one with bit 0
 * of the fourth word instead, as long as all before is zero or does not touch the two words c and d of the state */
static int zero_pair(const uint16_t *a, const uint16_t *b) {
  uint16_t d[6];
  uint32_t n = 0;
  for (int i = 0; i < 6; i++) {
    uint16_t x = i < 3 ? a[i] : b[i - 3];
    uint32_t j = 0;
    while (j < n && d[j] != x) j++;
    if (j < n) d[j] = d[--n]; else d[n++] = x;
  }
  if (n != 2 && n != 4 && n != 6) return 0;
  for (uint32_t i = 0; i < n; i++) for (uint32_t j = i + 1; j < n; j++) if (d[j] < d[i]) { uint16_t t = d[i]; d[i] = d[j]; d[j] = t; }
  for (uint32_t i = 0; i < n; i += 2) if (d[i] % 256 != 128 || d[i + 1] != d[i] + 64) return 0; /* several such changes at once */
  return 1;
}
static void known_zero_pair(int fn) {
  static kase k;
  result a, b;
  memset(&k, 0, offsetof(kase, data) + 40);
  k.fn = fn; k.len = 32; k.reg = REG_B; k.off = 64; k.nbr = 8; k.nsplit = 1; k.split[0] = 32;
  k.data[16] = 1;
  if (run(&k, &a)) return;
  k.data[16] = 0; k.data[24] = 1;
  if (run(&k, &b)) return;
  n_eval += 2;
  if (a.lo == b.lo && a.hi == b.hi) printf("KNOWN stream-zero-seeds with two zero seeds the streams of 32 zero bytes with a 1 at byte 16 and with a 1 at byte 24 have the same 64- and 128-bit digests\n");
}
static const char *check_family(const family *s) {
  static kase k;
  static uint64_t v[1 << 18], w[1 << 18], h[1 << 18];
  static uint16_t set[1 << 18][3];
  rng_t r = {s->salt};
  memset(&k, 0, offsetof(kase, data));
  k.fn = s->fn; k.len = s->len; k.reg = REG_B; k.off = 64 + (uint32_t)below(&r, 64); k.nbr = 8; k.nsplit = 1; k.split[0] = k.len;
  if (chance(&r, 2)) memset(k.data, chance(&r, 2) ? 0 : (int)below(&r, 256), k.len); else rnd_fill(&r, k.data, k.len);
  if (s->kind == 3) memset(k.data, 0, k.len);
  if (chance(&r, 2)) k.seed = rnd(&r), k.seed2 = rnd(&r);
  uint64_t sx = k.seed;
  uint32_t room = k.len < 8 ? 0 : k.len - 8, pos = room ? chance(&r, 3) ? room : (uint32_t)below(&r, room + 1) : 0, b[3] = {0, 1, 0}, nb = s->kind == 6 ? 64 : 8 * k.len, three = 0, hi = (uint32_t)has_hi(k.fn), n = 0;
  uint64_t word;
  for (uint32_t i = 0; i < s->n; i++) {
    result x;
    char t[32];
    uint64_t m = 0;
    switch (s->kind) {
    case 0: word = i; memcpy(k.data + pos, &word, k.len < 8 ? k.len : 8); break;
    case 1: word = __builtin_bswap64(i); memcpy(k.data + pos, &word, 8); break;
    case 2: snprintf(t, sizeof t, "%08u", i); memcpy(k.data + pos, t, 8); break;
    case 4: word = mix64_(i); memcpy(k.data + pos, &word, 8); break;
    case 5: k.seed = sx + i; break;
    case 7: for (uint32_t j = 0; j < k.len; j += 8) { word = rnd(&r); memcpy(k.data + j, &word, k.len - j < 8 ? k.len - j : 8); } break;
    case 8: { uint32_t c = i; memcpy(k.data + pos, &c, 4); c ^= (uint32_t)s->salt; memcpy(k.data + pos + 4, &c, 4); break; }
    default: /* all pairs, then all triples of bits */
      if (!three) { if (b[1] >= nb) { b[0]++; b[1] = b[0] + 1; } if (b[1] >= nb) { three = 1; b[0] = 0; b[1] = 1; b[2] = 2; } }
      if (three) {
        if (b[2] >= nb) { b[1]++; b[2] = b[1] + 1; }
        if (b[2] >= nb) { b[0]++; b[1] = b[0] + 1; b[2] = b[1] + 1; }
        if (b[2] >= nb) { i = s->n; continue; }
      }
      if (s->kind == 6) { m = 1ull << b[0] | 1ull << b[1]; if (three) m |= 1ull << b[2]; k.seed = sx ^ m; }
      else for (uint32_t j = 0; j < 2 + three; j++) k.data[b[j] / 8] |= (uint8_t)(1u << (b[j] & 7));
    }
    if (run(&k, &x)) return NULL;
    if (s->kind == 3) for (uint32_t j = 0; j < 3; j++) set[n][j] = (uint16_t)(j < 2 + three ? b[j] : 0xffff);
    v[n] = x.lo; w[n] = x.hi; n++;
    if (s->kind == 3) for (uint32_t j = 0; j < 2 + three; j++) k.data[b[j] / 8] = 0;
    if (s->kind == 3 || s->kind == 6) b[three ? 2 : 1]++;
  }
  n_eval += n;
  double pairs = (double)n * n / 2, e32 = pairs / 4294967296.0;
  for (int half = 0; half < (hi ? 2 : 1); half++) {
    uint64_t *a = half ? w : v;
    uint32_t same[3] = {0, 0, 0};
    for (int part = 0; part < 3; part++) {
      for (uint32_t i = 0; i < n; i++) h[i] = part == 0 ? a[i] : part == 1 ? a[i] & 0xffffffff : a[i] >> 32;
      qsort(h, n, 8, cmp64);
      for (uint32_t i = 1; i < n; i++) same[part] += h[i] == h[i - 1];
    }
    if (same[0] >= 2 && s->kind == 3 && is_stream(k.fn) && !(k.seed | k.seed2)) { /* not the pairs of the known finding */
      for (uint32_t i = 0; i < n; i++) idx[i] = i;
      sort_by = a;
      qsort(idx, n, sizeof *idx, cmp_idx);
      uint32_t m = 0;
      for (uint32_t i = 1; i < n; i++) if (a[idx[i]] == a[idx[i - 1]]) m += zero_pair(set[idx[i]], set[idx[i - 1]]);
      for (int part = 0; part < 3; part++) same[part] -= m;
    }
    if (same[0] >= 2) return sayf("%s len %u: %u equal %s among the hashes of %u different keys (%s)", fn_name[k.fn], k.len, same[0], hi ? half ? "high halves" : "low halves" : "results", n, fam_name[s->kind]);
    for (int part = 1; part < 3; part++) /* expected about e32 (2 for 2^17 keys); 30 more has a chance below 1e-30 */
      if (same[part] > 30 + 3 * e32) return sayf("%s len %u: %u equal %s 32 bits among the %s of %u different keys, about %.0f expected (%s)", fn_name[k.fn], k.len, same[part], part == 1 ? "low" : "high", half ? "high halves" : "results", n, e32, fam_name[s->kind]);
  }
  return NULL;
}
static void collide(rng_t *r) {
  family f;
  f.fn = (int)fn_list[below(r, fn_n)];
  f.kind = (int)below(r, 9);
  f.len = chance(r, 3) ? 8 + (uint32_t)below(r, 25) : 8 + gen_len(r) % 200;
  if (chance(r, 4)) f.len += (uint32_t)below(r, chance(r, 4) ? 6000 : 2000);
  f.salt = rnd(r);
  f.n = chance(r, 2) ? 1 << 18 : 1 << 16;
  cls[20]++;
  if (bloom_new(f.salt ^ mix64_((uint64_t)f.len << 8 ^ (uint64_t)f.kind << 40 ^ (uint64_t)f.fn << 50))) n_nontrivial++;
  if (n_samples < 6) snprintf(samples[n_samples++], 220, "family %s len=%u of %u %s", fn_name[f.fn], f.len, f.n, fam_name[f.kind]);
  const char *e = check_family(&f);
  if (!e) return;
  for (int i = 0; i < 12 && f.n > 1024; i++) { f.n /= 2; if (!check_family(&f)) { f.n *= 2; break; } }
  char first[400], path[600];
  e = check_family(&f);
  snprintf(first, sizeof first, "%s", e ? e : why);
  FILE *o = open_replay(path, sizeof path, first);
  fprintf(o, "family %s %u %d %llx %u\n", fn_name[f.fn], f.len, f.kind, (unsigned long long)f.salt, f.n);
  fclose(o);
  printf("FAIL %s %s\n", path, first);
  n_fail++; stop = 1;
}
static void mode_aval(rng_t *r) {
  for (unsigned i = 0; i < fn_n; i++) if (is_stream((int)fn_list[i])) known_zero_pair((int)fn_list[i]);
  for (long i = 0; i < opt.cases && !stop; i++) {
    if (i % 3 == 2) { collide(r); continue; }
    shape s;
    s.fn = (int)fn_list[below(r, fn_n)];
    s.len = gen_len(r);
    int far = opt.sweep && i % 4 == 1; /* long keys: whole blocks, pages and nearly so */
    if (far) {
      static const uint32_t step[] = {1, 32, 64, 256, 4096};
      uint32_t st = step[below(r, 5)];
      s.len = 4096 + (uint32_t)below(r, chance(r, 3) ? 60000 : 12000);
      s.len -= s.len % st;
      if (chance(r, 5)) s.len += (uint32_t)below(r, 9);
    } else if (s.len > 3000) s.len %= 3000;
    s.dkind = (int)below(r, 5); s.skind = (int)below(r, 4);
    s.salt = chance(r, 3) ? pool(r) : rnd(r);
    s.samples = far ? s.len > 20000 ? 256 : 512 : s.len > 400 ? 1024 : 2048;
    if (s.skind && (s.len < 4 || s.dkind != 0)) s.dkind = s.len < 4 ? 0 : s.dkind; /* nothing */
    if (s.skind != 0 && s.len < 4) s.skind = 0; /* too few distinct messages for statistics */
    if (s.len < 16 && s.dkind != 0 && s.skind != 0 && s.skind != 2) s.dkind = 0;
    /* kinds with little entropy per message would repeat the same pair: keep the seed random there */
    if ((s.dkind == 1 || s.dkind == 2) && s.skind != 0) s.skind = s.len >= 64 ? s.skind : 0;
    if (s.dkind == 0 && s.len < 8) s.skind = 0;
    if (s.dkind == 4 && s.len < 16) s.skind = 0;
    if (bloom_new(mix64_((uint64_t)s.len * 64 + (uint64_t)s.fn * 4096 * 64 + (uint64_t)s.dkind * 8 + (uint64_t)s.skind) ^ s.salt)) n_nontrivial++;
    cls[16]++;
    if (n_samples < 5 && i % 11 == 2) snprintf(samples[n_samples++], 220, "shape %s len=%u data-kind=%d seed-kind=%d samples=%u", fn_name[s.fn], s.len, s.dkind, s.skind, s.samples);
    const char *e = check_shape(&s);
    if (e) {
      shape s2 = s; /* confirm on an independent sample of the same shape */
      s2.samples *= 2;
      char first[400];
      snprintf(first, sizeof first, "%s", e);
      if (!check_shape(&s2)) { fprintf(stderr, "not confirmed: %s\n", first); continue; }
      char path[600];
      FILE *f = open_replay(path, sizeof path, first);
      fprintf(f, "shape %s %u %d %d %llx %u\n", fn_name[s.fn], s.len, s.dkind, s.skind, (unsigned long long)s.salt, s2.samples);
      fclose(f);
      printf("FAIL %s %s\n", path, first);
      n_fail++; stop = 1;
    }
  }
}

static int fn_by_name(const char *s) { for (int i = 0; i < FN_COUNT; i++) if (!strcmp(s, fn_name[i])) return i; return -1; }
static checker checker_for(const char *mode) {
  if (!strcmp(mode, "value")) return check_value;
  if (!strcmp(mode, "mem")) return check_mem;
  if (!strcmp(mode, "pure")) return check_pure;
  if (!strcmp(mode, "exact")) return check_exact;
  if (!strcmp(mode, "bits")) return check_bits;
  if (!strcmp(mode, "self")) return check_self;
  return NULL;
}
static int replay(const char *path) {
  FILE *f = fopen(path, "r");
  static char line[MAXLEN * 2 + 4096], mode[40];
  static hist h;
  shape sh; int have_shape = 0, lf = -1;
  family fa; int have_family = 0;
  unsigned lfill = 0, lmax = 0; unsigned long long ls = 0, lt = 0;
  if (!f) { perror(path); return 3; }
  K.nsplit = 0; K.len = 0;
  while (fgets(line, sizeof line, f)) {
    char key[32]; int n = 0;
    if (sscanf(line, "%31s %n", key, &n) < 1) continue;
    char *v = line + n;
    v[strcspn(v, "\n")] = 0;
    if (!strcmp(key, "mode")) snprintf(mode, sizeof mode, "%s", v);
    else if (!strcmp(key, "fn")) K.fn = fn_by_name(v);
    else if (!strcmp(key, "len")) K.len = (uint32_t)strtoul(v, 0, 10);
    else if (!strcmp(key, "seed")) K.seed = strtoull(v, 0, 16);
    else if (!strcmp(key, "seed2")) K.seed2 = strtoull(v, 0, 16);
    else if (!strcmp(key, "region")) K.reg = atoi(v);
    else if (!strcmp(key, "off")) K.off = (uint32_t)strtoul(v, 0, 10);
    else if (!strcmp(key, "wplace")) K.wplace = atoi(v);
    else if (!strcmp(key, "nbr")) K.nbr = strtoull(v, 0, 16);
    else if (!strcmp(key, "bit")) bits_bit = (uint32_t)strtoul(v, 0, 10);
    else if (!strcmp(key, "splits")) { char *e; while (K.nsplit < MAXSPLIT) { unsigned long x = strtoul(v, &e, 10); if (e == v) break; K.split[K.nsplit++] = (uint32_t)x; v = e; } }
    else if (!strcmp(key, "data")) { for (uint32_t i = 0; i < K.len; i++) { unsigned x; if (sscanf(v + 2 * i, "%2x", &x) != 1) break; K.data[i] = (uint8_t)x; } }
    else if (!strcmp(key, "family")) { char nm[64]; unsigned long long salt; if (sscanf(v, "%63s %u %d %llx %u", nm, &fa.len, &fa.kind, &salt, &fa.n) == 5) { fa.fn = fn_by_name(nm); fa.salt = salt; have_family = 1; } }
    else if (!strcmp(key, "ladder")) { char nm[64]; if (sscanf(v, "%63s %llx %llx %u %u", nm, &ls, &lt, &lfill, &lmax) == 5) lf = fn_by_name(nm); }
    else if (!strcmp(key, "shape")) { char nm[64]; unsigned long long salt; if (sscanf(v, "%63s %u %d %d %llx %u", nm, &sh.len, &sh.dkind, &sh.skind, &salt, &sh.samples) == 6) { sh.fn = fn_by_name(nm); sh.salt = salt; have_shape = 1; } }
    else if (!strcmp(key, "op") && h.n < MAXOPS) {
      sop *s = &h.op[h.n];
      char nm[16]; unsigned long long x, y, fl;
      memset(s, 0, sizeof *s);
      if (sscanf(v, "%15s c=%d c2=%d x=%llx y=%llx len=%u off=%u want=%d fill=%llx dirt=%d", nm, &s->c, &s->c2, &x, &y, &s->len, &s->off, &s->want, &fl, &s->dirt) >= 9) {
        for (int i = 0; i < OP_N; i++) if (!strcmp(nm, opn[i])) s->op = i;
        s->x = x; s->y = y; s->fill = fl; h.n++;
      }
    }
  }
  fclose(f);
  const char *e = NULL;
  opt.mode = mode;
  if (!strcmp(mode, "hist") || !strcmp(mode, "histm")) { hist_metam = !strcmp(mode, "histm"); e = check_hist(&h); }
  else if (lf >= 0) e = check_ladder(lf, ls, lt, lfill, lmax);
  else if (have_family) e = check_family(&fa);
  else if (have_shape) e = check_shape(&sh);
  else if (checker_for(mode)) e = checker_for(mode)(&K);
  else { fprintf(stderr, "unknown mode '%s'\n", mode); return 3; }
  if (e) printf("REPRODUCED %s\n", e); else printf("NOT-REPRODUCED\n");
  return e ? 1 : 0;
}

int main(int argc, char **argv) {
  const char *replay_path = NULL;
  int contexts = 4;
  if (argc < 2) return 3;
  opt.mode = argv[1];
  for (int i = 2; i < argc; i++) {
    char *v = strchr(argv[i], '=');
    if (!v) continue;
    *v++ = 0;
    if (!strcmp(argv[i], "seed")) opt.seed = strtoull(v, 0, 0);
    else if (!strcmp(argv[i], "cases")) opt.cases = atol(v);
    else if (!strcmp(argv[i], "fns")) opt.fnmask = (unsigned)strtoul(v, 0, 0);
    else if (!strcmp(argv[i], "out")) opt.out = v;
    else if (!strcmp(argv[i], "prop")) opt.prop = v;
    else if (!strcmp(argv[i], "variant")) opt.variant = v;
    else if (!strcmp(argv[i], "maxlen")) opt.maxlen = atol(v);
    else if (!strcmp(argv[i], "grid")) opt.grid = atoi(v);
    else if (!strcmp(argv[i], "sweep")) opt.sweep = atol(v);
    else if (!strcmp(argv[i], "contexts")) contexts = atoi(v);
    else if (!strcmp(argv[i], "file")) replay_path = v;
    else if (!strcmp(argv[i], "dict")) {
      FILE *f = fopen(v, "r");
      unsigned long long x;
      if (f) { dict = malloc(sizeof *dict * 4096); while (dict_n < 4096 && fscanf(f, "%llx", &x) == 1) dict[dict_n++] = x; fclose(f); }
    }
    v[-1] = '=';
  }
  if (ref_selftest()) { fprintf(stderr, "the reference model does not reproduce the published vectors\n"); return 3; }
  bloom = calloc(1, 1u << (BLOOM_BITS - 3));
  if (be_init(argc, argv)) return 3;
  be_limit_stack();
  for (unsigned i = 0; i < FN_COUNT; i++) if ((opt.fnmask >> i & 1) && be_has((int)i)) fn_list[fn_n++] = i;
  if (replay_path) return replay(replay_path);
  rng_t r = {mix64_(opt.seed * 0x9E3779B97F4A7C15ull + 12345)};
  if (!fn_n) { printf("STATS {\"eval\":0,\"nontrivial\":0,\"fail\":0,\"classes\":{},\"samples\":[]}\n"); return 0; }
  checker chk = checker_for(opt.mode);
  if (!strcmp(opt.mode, "hist")) mode_hist(&r, contexts);
  else if (!strcmp(opt.mode, "histm")) { hist_metam = 1; mode_hist(&r, contexts); }
  else if (!strcmp(opt.mode, "bits")) mode_bits(&r);
  else if (!strcmp(opt.mode, "aval")) mode_aval(&r);
  else if (!strcmp(opt.mode, "self")) {
    K.fn = (int)fn_list[0]; K.len = 1; K.data[0] = 1; K.reg = REG_B; K.off = 64;
    for (long i = 0; i < opt.cases && !stop; i++) { K.nbr = rnd(&r); K.seed = rnd(&r); one(chk); }
  } else if (chk) {
    if (opt.grid > 0) grid(chk, (uint32_t)opt.grid, 17, &r);
    for (long i = 0; i < opt.cases && !stop; i++) { gen_case(&r, &K); one(chk); }
  } else { fprintf(stderr, "unknown mode %s\n", opt.mode); return 3; }
  printf("STATS {\"eval\":%llu,\"nontrivial\":%llu,\"fail\":%llu,\"classes\":{", (unsigned long long)n_eval, (unsigned long long)n_nontrivial, (unsigned long long)n_fail);
  cls_name[13] = "history with copies"; cls_name[14] = "history with >1 digest"; cls_name[15] = "bits flipped"; cls_name[16] = "shapes"; cls_name[17] = "long messages swept word by word"; cls_name[18] = "messages swept bit by bit"; cls_name[19] = "ladders of lengths"; cls_name[20] = "families of 2^14 or 2^17 keys";
  int first = 1;
  for (int i = 0; i < 32; i++) if (cls_name[i] && cls[i]) { printf("%s\"%s\":%llu", first ? "" : ",", cls_name[i], (unsigned long long)cls[i]); first = 0; }
  printf("},\"samples\":[");
  for (unsigned i = 0; i < n_samples; i++) printf("%s\"%s\"", i ? "," : "", samples[i]);
  printf("]}\n");
  return n_fail ? 1 : 0;
}
