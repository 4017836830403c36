#include "ref.h"
#include <string.h>

const char *const fn_name[FN_COUNT] = {
    "t1ha1_le", "t1ha1_be", "t1ha2_atonce", "t1ha2_atonce128", "t1ha2_stream", "t1ha2_stream128",
    "t1ha0_32le", "t1ha0_32be", "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2", "t1ha0"};

typedef uint64_t u64;
typedef uint32_t u32;

static const u64 P[7] = {0xEC99BF0D8372CAABull, 0x82434FE90EDCEF39ull, 0xD4F06DB99D67BE4Bull, 0xBD9CACC22C6E9571ull,
                         0x9C06FAF4D023E3ABull, 0xC060724A8424F345ull, 0xCB5AF53AE3AAAC31ull};
static const u32 Q[7] = {0x92D78269u, 0xCA9B4735u, 0xA4ABA1C3u, 0xF6499843u, 0x86F0FD61u, 0xCA2DA6FBu, 0xC4BB3575u};

static u64 ror(u64 v, unsigned s) { return s ? (v >> s) | (v << (64 - s)) : v; }
static u32 ror32(u32 v, unsigned s) { return (v >> s) | (v << (32 - s)); }

/* schoolbook 64x64->128 on 32-bit limbs, no compiler-provided wide type */
static void mul128(u64 a, u64 b, u64 *lo, u64 *hi) {
  u64 a0 = (u32)a, a1 = a >> 32, b0 = (u32)b, b1 = b >> 32;
  u64 t0 = a0 * b0, t1 = a1 * b0, t2 = a0 * b1, t3 = a1 * b1;
  u64 mid = (t0 >> 32) + (u32)t1 + (u32)t2;
  *lo = (mid << 32) | (u32)t0;
  *hi = t3 + (t1 >> 32) + (t2 >> 32) + (mid >> 32);
}
static u64 mux(u64 v, u64 p) { u64 l, h; mul128(v, p, &l, &h); return l ^ h; }

static u64 inv64(u64 p) { u64 x = p; for (int i = 0; i < 6; i++) x *= 2 - p * x; return x; }

static inline u64 ldle(const uint8_t *p, unsigned n) { u64 r = 0; for (unsigned i = n; i--;) r = (r << 8) | p[i]; return r; }
static u64 ldbe(const uint8_t *p, unsigned n) { u64 r = 0; for (unsigned i = 0; i < n; i++) r = (r << 8) | p[i]; return r; }
static u64 ld(const uint8_t *p, unsigned n, int be) { return be ? ldbe(p, n) : ldle(p, n); }
static void st(const uint8_t *cp, unsigned n, int be, u64 v) {
  uint8_t *p = (uint8_t *)(uintptr_t)cp; /* crafting owns the buffer */
  for (unsigned i = 0; i < n; i++) p[be ? n - 1 - i : i] = (uint8_t)(v >> (8 * i));
}
static int crafting(craft_t *c) {
  if (!c || !c->armed) return 0;
  c->rng = c->rng * 6364136223846793005ull + 1442695040888963407ull;
  return (c->rng >> 33) % c->prob == 0;
}

/*--------------------------------------------------------------------- t1ha1 */
u64 ref_t1(const uint8_t *p, u64 len, u64 seed, int be, craft_t *k) {
  u64 a = seed, b = len, n = len;
  if (n > 32) {
    u64 c = ror(len, 17) + seed, d = len ^ ror(seed, 17);
    for (; n >= 32; n -= 32, p += 32) {
      u64 w0 = ld(p, 8, be), w1 = ld(p + 8, 8, be), w2 = ld(p + 16, 8, be), w3 = ld(p + 24, 8, be);
      if (crafting(k)) { w2 = k->pick(k, b, inv64(P[0])) - (w1 ^ ror(w3 + c, 17)); st(p + 16, 8, be, w2); }
      if (crafting(k)) { w0 = (k->pick(k, a, inv64(P[1])) - w3) ^ ror(w2 + d, 17); st(p, 8, be, w0); }
      u64 d02 = w0 ^ ror(w2 + d, 17), c13 = w1 ^ ror(w3 + c, 17);
      d -= b ^ ror(w1, 31);
      c += a ^ ror(w0, 41);
      b ^= P[0] * (c13 + w2);
      a ^= P[1] * (d02 + w3);
    }
    a ^= P[6] * (ror(c, 17) + d);
    b ^= P[5] * (c + ror(d, 17));
  }
  for (unsigned words = (unsigned)((n + 7) / 8); words; words--) {
    unsigned take = words > 1 ? 8 : (unsigned)n;
    u64 w = ld(p, take, be);
    if (take == 8 && crafting(k)) { w = k->pick(k, 0, inv64(P[words])); st(p, 8, be, w); }
    if (words & 1) a += mux(w, P[words]); else b += mux(w, P[words]);
    p += take; n -= take;
  }
  u64 m = (a ^ b) * P[0];
  return mux(ror(a + b, 17), P[4]) + (m ^ ror(m, 41));
}

/*--------------------------------------------------------------------- t1ha2 */
static void mixup(u64 *a, u64 *b, u64 v, u64 p) { u64 l, h; mul128(*b + v, p, &l, &h); *a ^= l; *b += h; }
static u64 fin64(u64 a, u64 b) { return mux(((a + ror(b, 41)) * P[0]) ^ ((ror(a, 23) + b) * P[6]), P[5]); }

typedef struct { u64 a, b, c, d; } st4;
static void t2_cd(st4 *s, u64 x, u64 y) { s->c = ror(y, 23) + ~x; s->d = ~y + ror(x, 19); }
static inline __attribute__((always_inline)) void t2_block(st4 *s, const uint8_t *p, craft_t *k) {
  u64 w0 = ldle(p, 8), w1 = ldle(p + 8, 8), w2 = ldle(p + 16, 8), w3 = ldle(p + 24, 8);
  if (crafting(k)) { w2 = k->pick(k, s->b, inv64(P[6])) - (w1 + ror(w3 + s->c, 19)); st(p + 16, 8, 0, w2); }
  if (crafting(k)) { w0 = k->pick(k, s->a, inv64(P[5])) - w3 - ror(w2 + s->d, 56); st(p, 8, 0, w0); }
  u64 d02 = w0 + ror(w2 + s->d, 56), c13 = w1 + ror(w3 + s->c, 19);
  s->d ^= s->b + ror(w1, 38);
  s->c ^= s->a + ror(w0, 57);
  s->b ^= P[6] * (c13 + w2);
  s->a ^= P[5] * (d02 + w3);
}
static void t2_squash(st4 *s) {
  s->a ^= P[6] * (s->c + ror(s->d, 23));
  s->b ^= P[5] * (ror(s->c, 19) + s->d);
}
static u64 tailw(const uint8_t *p, unsigned take, craft_t *k, u64 base, u64 tgt, u64 prime) {
  if (take == 8 && crafting(k)) st(p, 8, 0, k->pick(k, tgt, inv64(prime)) - base);
  return ldle(p, take);
}
static u64 t2_tail64(u64 a, u64 b, const uint8_t *p, unsigned n, craft_t *k) {
  for (unsigned words = (n + 7) / 8; words; words--) {
    unsigned take = words > 1 ? 8 : n;
    if (words & 1) mixup(&b, &a, tailw(p, take, k, a, b, P[words]), P[words]);
    else mixup(&a, &b, tailw(p, take, k, b, a, P[words]), P[words]);
    p += take; n -= take;
  }
  return fin64(a, b);
}
static u64 t2_tail128(st4 s, const uint8_t *p, unsigned n, u64 *hi, craft_t *k) {
  u64 *v[4] = {&s.a, &s.b, &s.c, &s.d};
  for (unsigned words = (n + 7) / 8; words; words--) {
    unsigned take = words > 1 ? 8 : n;
    unsigned i = 4 - words; /* 4:a,d  3:b,a  2:c,b  1:d,c */
    u64 *x = v[i], *y = v[(i + 3) & 3];
    mixup(x, y, tailw(p, take, k, *y, *x, P[words]), P[words]);
    p += take; n -= take;
  }
  mixup(&s.a, &s.b, ror(s.c, 41) ^ s.d, P[0]);
  mixup(&s.b, &s.c, ror(s.d, 23) ^ s.a, P[6]);
  mixup(&s.c, &s.d, ror(s.a, 19) ^ s.b, P[5]);
  mixup(&s.d, &s.a, ror(s.b, 31) ^ s.c, P[4]);
  *hi = s.c + s.d;
  return s.a ^ s.b;
}
u64 ref_t2(const uint8_t *p, u64 len, u64 seed, craft_t *k) {
  st4 s = {seed, len, 0, 0};
  u64 n = len;
  if (n > 32) {
    t2_cd(&s, seed, len);
    for (; n >= 32; n -= 32, p += 32) t2_block(&s, p, k);
    t2_squash(&s);
  }
  return t2_tail64(s.a, s.b, p, (unsigned)n, k);
}
u64 ref_t2x(const uint8_t *p, u64 len, u64 seed, u64 *hi, craft_t *k) {
  st4 s = {seed, len, 0, 0};
  u64 n = len;
  t2_cd(&s, seed, len);
  if (n > 32)
    for (; n >= 32; n -= 32, p += 32) t2_block(&s, p, k);
  return t2_tail128(s, p, (unsigned)n, hi, k);
}

/*----------------------------------------------------------------- streaming */
void ref_s_init(ref_stream_t *s, u64 x, u64 y) {
  st4 q = {x, y, 0, 0};
  t2_cd(&q, x, y);
  s->a = q.a; s->b = q.b; s->c = q.c; s->d = q.d;
  s->total = 0; s->fill = 0;
}
static void s_bytes(ref_stream_t *s, const uint8_t *p, u64 len) {
  while (len) {
    if (len > 1 << 20 && !s->fill) { /* the same, many blocks at once */
      st4 q = {s->a, s->b, s->c, s->d};
      for (; len >= 32; len -= 32, p += 32) t2_block(&q, p, NULL);
      s->a = q.a; s->b = q.b; s->c = q.c; s->d = q.d;
    }
    unsigned room = 32 - s->fill, n = len < room ? (unsigned)len : room;
    memcpy(s->buf + s->fill, p, n);
    s->fill += n; p += n; len -= n;
    if (s->fill == 32) {
      st4 q = {s->a, s->b, s->c, s->d};
      t2_block(&q, s->buf, NULL);
      s->a = q.a; s->b = q.b; s->c = q.c; s->d = q.d;
      s->fill = 0;
    }
  }
}
void ref_s_update(ref_stream_t *s, const uint8_t *p, u64 len) { s->total += len; s_bytes(s, p, len); }
u64 ref_s_final(const ref_stream_t *in, u64 *hi) {
  ref_stream_t s = *in;
  uint8_t bits[8];
  u64 v = (s.total * 8) ^ 0x8000000000000000ull;
  for (int i = 0; i < 8; i++) bits[i] = (uint8_t)(v >> (8 * i));
  s_bytes(&s, bits, 8);
  st4 q = {s.a, s.b, s.c, s.d};
  if (hi) return t2_tail128(q, s.buf, s.fill, hi, NULL);
  t2_squash(&q);
  return t2_tail64(q.a, q.b, s.buf, s.fill, NULL);
}
u64 ref_stream(const uint8_t *p, u64 len, u64 x, u64 y, u64 *hi, craft_t *k) {
  ref_stream_t s;
  ref_s_init(&s, x, y);
  if (k && k->armed) {
    st4 q = {s.a, s.b, s.c, s.d};
    for (u64 i = 0; i + 32 <= len; i += 32) t2_block(&q, p + i, k);
  }
  ref_s_update(&s, p, len);
  return ref_s_final(&s, hi);
}

/*--------------------------------------------------------------------- t1ha0 */
static void mixup32(u32 *a, u32 *b, u32 v, u32 p) { u64 l = (u64)(u32)(*b + v) * p; *a ^= (u32)l; *b += (u32)(l >> 32); }
static u32 pick32(craft_t *k, u64 s, u64 i) { return (u32)k->pick(k, s, i); }
u64 ref_t0(const uint8_t *p, u64 len, u64 seed, int be, craft_t *k) {
  u32 a = ror32((u32)len, 17) + (u32)seed, b = (u32)len ^ (u32)(seed >> 32);
  u64 n = len;
  if (n > 16) {
    u32 c = ~a, d = ror32(b, 5);
    for (; n >= 16; n -= 16, p += 16) {
      u32 w0 = (u32)ld(p, 4, be), w1 = (u32)ld(p + 4, 4, be), w2 = (u32)ld(p + 8, 4, be), w3 = (u32)ld(p + 12, 4, be);
      if (crafting(k)) { w0 = (pick32(k, 0, inv64(Q[1])) - w3) ^ ror32(w2 + c, 11); st(p, 4, be, w0); }
      if (crafting(k)) { w1 = (pick32(k, 0, inv64(Q[0])) ^ w2) - ror32(w3 + d, 17); st(p + 4, 4, be, w1); }
      u32 d13 = w1 + ror32(w3 + d, 17), c02 = w0 ^ ror32(w2 + c, 11);
      d ^= ror32(a + w0, 3);
      c ^= ror32(b + w1, 7);
      b = Q[1] * (c02 + w3);
      a = Q[0] * (d13 ^ w2);
    }
    c += a;
    d += b;
    a ^= Q[6] * (ror32(c, 16) + d);
    b ^= Q[5] * (c + ror32(d, 16));
  }
  for (unsigned words = (unsigned)((n + 3) / 4); words; words--) {
    unsigned take = words > 1 ? 4 : (unsigned)n;
    u32 *x = words & 1 ? &b : &a, *y = words & 1 ? &a : &b;
    if (take == 4 && crafting(k)) st(p, 4, be, (u32)(pick32(k, *x, inv64(Q[words])) - *y));
    mixup32(x, y, (u32)ld(p, take, be), Q[words]);
    p += take; n -= take;
  }
  u64 l = ((u64)a << 32) | (u32)(b ^ ror32(a, 13));
  l *= P[0]; l ^= l >> 41;
  l *= P[4]; l ^= l >> 47;
  return l * P[6];
}

/*----------------------------------------------------------------------- AES */
static uint8_t SB[256], IS[256], M2[256], M3[256], M9[256], MB[256], MD[256], ME[256];
static int aes_ready;
static uint8_t gm(uint8_t a, uint8_t b) { uint8_t r = 0; for (; b; b >>= 1) { if (b & 1) r ^= a; a = (uint8_t)((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); } return r; }
static void aes_prep(void) {
  if (aes_ready) return;
  for (int i = 0; i < 256; i++) {
    uint8_t inv = 0;
    for (int j = 1; i && j < 256; j++) if (gm((uint8_t)i, (uint8_t)j) == 1) { inv = (uint8_t)j; break; }
    uint8_t s = 0x63;
    for (int r = 0; r < 5; r++) s ^= (uint8_t)((inv << r) | (inv >> (8 - r)));
    SB[i] = s;
  }
  for (int i = 0; i < 256; i++) {
    IS[SB[i]] = (uint8_t)i;
    M2[i] = gm((uint8_t)i, 2); M3[i] = gm((uint8_t)i, 3); M9[i] = gm((uint8_t)i, 9);
    MB[i] = gm((uint8_t)i, 11); MD[i] = gm((uint8_t)i, 13); ME[i] = gm((uint8_t)i, 14);
  }
  aes_ready = 1;
}
typedef struct { uint8_t b[16]; } blk;
#ifdef REF_AESNI /* the same operations by the processor, for inputs of gigabytes (the start-up vectors check these too) */
#include <immintrin.h>
#define blk __m128i
#define enc _mm_aesenc_si128
#define dec _mm_aesdec_si128
#define add2 _mm_add_epi64
#define sub2 _mm_sub_epi64
#define xor2 _mm_xor_si128
static inline u64 lane(blk v, int i) { u64 q[2]; memcpy(q, &v, 16); return q[i]; }
static inline blk mk(u64 hi, u64 lo) { return _mm_set_epi64x((long long)hi, (long long)lo); }
static inline blk ldb(const uint8_t *p) { return _mm_loadu_si128((const __m128i *)p); }
#else
static blk enc(blk s, blk k) {
  blk t, r;
  for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) t.b[4 * c + i] = SB[s.b[4 * ((c + i) & 3) + i]];
  for (int c = 0; c < 4; c++) {
    const uint8_t *x = t.b + 4 * c;
    for (int i = 0; i < 4; i++)
      r.b[4 * c + i] = (uint8_t)(M2[x[i]] ^ M3[x[(i + 1) & 3]] ^ x[(i + 2) & 3] ^ x[(i + 3) & 3] ^ k.b[4 * c + i]);
  }
  return r;
}
static blk dec(blk s, blk k) { /* equivalent inverse round, key xored last (as AESDEC does) */
  blk t, r;
  for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) t.b[4 * c + i] = IS[s.b[4 * ((c - i) & 3) + i]];
  for (int c = 0; c < 4; c++) {
    const uint8_t *x = t.b + 4 * c;
    for (int i = 0; i < 4; i++)
      r.b[4 * c + i] = (uint8_t)(ME[x[i]] ^ MB[x[(i + 1) & 3]] ^ MD[x[(i + 2) & 3]] ^ M9[x[(i + 3) & 3]] ^ k.b[4 * c + i]);
  }
  return r;
}
static u64 lane(blk v, int i) { return ldle(v.b + 8 * i, 8); }
static blk mk(u64 hi, u64 lo) { blk r; for (int i = 0; i < 8; i++) { r.b[i] = (uint8_t)(lo >> (8 * i)); r.b[8 + i] = (uint8_t)(hi >> (8 * i)); } return r; }
static blk add2(blk x, blk y) { return mk(lane(x, 1) + lane(y, 1), lane(x, 0) + lane(y, 0)); }
static blk sub2(blk x, blk y) { return mk(lane(x, 1) - lane(y, 1), lane(x, 0) - lane(y, 0)); }
static blk xor2(blk x, blk y) { return mk(lane(x, 1) ^ lane(y, 1), lane(x, 0) ^ lane(y, 0)); }
static blk ldb(const uint8_t *p) { blk r; memcpy(r.b, p, 16); return r; }
#endif

static void pair(blk *x, blk *y, const uint8_t *p) {
  blk v0 = add2(*y, ldb(p)), v1 = sub2(*x, ldb(p + 16));
  *x = dec(*x, v0);
  *y = dec(*y, v1);
}
u64 ref_aes_a(const uint8_t *p, u64 len, u64 seed, craft_t *k) {
  aes_prep();
  if (len <= 32) { return t2_tail64(seed, len, p, (unsigned)len, k); }
  blk x = mk(seed, len), y = enc(x, mk(P[5], P[6]));
  u64 n = len;
  for (; n >= 128; n -= 128, p += 128) {
    blk v[8];
    for (int i = 0; i < 8; i++) v[i] = ldb(p + 16 * i);
    blk v0y = enc(v[0], y), v2x6 = enc(v[2], xor2(x, v[6]));
    blk m = xor2(enc(v[4], v[5]), add2(v[6], v[7]));
    blk u = dec(sub2(v[7], v0y), v[1]);
    blk w = enc(v2x6, v[3]);
    blk nx = enc(m, add2(x, y));
    y = enc(w, xor2(u, v[5]));
    x = nx;
  }
  if (n & 64) { pair(&x, &y, p); pair(&x, &y, p + 32); p += 64; }
  if (n & 32) { pair(&x, &y, p); p += 32; }
  if (n & 16) { y = add2(x, y); x = dec(x, ldb(p)); p += 16; }
  x = add2(dec(x, enc(y, x)), y);
  return t2_tail64(lane(x, 0), lane(x, 1), p, (unsigned)(n & 15), k);
}
u64 ref_aes_b(const uint8_t *p, u64 len, u64 seed, craft_t *k) {
  aes_prep();
  if (len <= 32) { return t2_tail64(seed, len, p, (unsigned)len, k); }
  blk x = mk(seed, len), y = enc(x, mk(P[0], P[1]));
  u64 n = len / 16;
  if (n & 1) { x = add2(x, ldb(p)); y = enc(x, y); p += 16; n--; }
  blk salt = y;
  for (; n >= 8; n -= 8) {
    blk t = enc(ldb(p), salt);
    for (int i = 1; i < 8; i++) t = dec(t, ldb(p + 16 * i));
    p += 128;
    salt = add2(salt, mk(P[5], P[6]));
    t = enc(x, t);
    x = add2(y, x);
    y = t;
  }
  for (; n; n -= 2, p += 32) pair(&x, &y, p);
  x = add2(dec(x, enc(y, x)), y);
  return t2_tail64(lane(x, 0), lane(x, 1), p, (unsigned)(len & 15), k);
}

u64 ref_call(int fn, int impl, const uint8_t *p, u64 len, u64 seed, u64 seed2, u64 *hi, craft_t *c) {
  if (fn == FN_T0) fn = impl;
  switch (fn) {
  case FN_T1LE: return ref_t1(p, len, seed, 0, c);
  case FN_T1BE: return ref_t1(p, len, seed, 1, c);
  case FN_T2: return ref_t2(p, len, seed, c);
  case FN_T2X: return ref_t2x(p, len, seed, hi, c);
  case FN_S: return ref_stream(p, len, seed, seed2, NULL, c);
  case FN_SX: return ref_stream(p, len, seed, seed2, hi, c);
  case FN_T0LE: return ref_t0(p, len, seed, 0, c);
  case FN_T0BE: return ref_t0(p, len, seed, 1, c);
  case FN_AN: case FN_AA: return ref_aes_a(p, len, seed, c);
  case FN_A2: return ref_aes_b(p, len, seed, c);
  }
  return 0;
}

/*----------------------------------------------- the published known answers */
#include "vectors.h"
static const uint8_t PAT[64] = {0, 1, 2, 3, 4, 5, 6, 7, 0xFF, 0x7F, 0x3F, 0x1F, 0xF, 8, 16, 32, 64, 0x80, 0xFE, 0xFC, 0xF8, 0xF0,
    0xE0, 0xC0, 0xFD, 0xFB, 0xF7, 0xEF, 0xDF, 0xBF, 0x55, 0xAA, 11, 17, 19, 23, 29, 37, 42, 43, 'a', 'b', 'c', 'd',
    'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x'};
static int vec(int fn, const u64 *v) {
  static uint8_t lng[512];
  u64 hi, seed = 1;
  int n = 0, bad = 0;
  for (int i = 0; i < 512; i++) lng[i] = (uint8_t)i;
#define T(p, l, s) bad += ref_call(fn, 0, p, l, s, s, &hi, NULL) != v[n++]
  T(PAT, 0, 0); T(PAT, 0, ~0ull); T(PAT, 64, 0);
  for (int i = 1; i < 64; i++, seed <<= 1) T(PAT, i, seed);
  seed = ~0ull;
  for (int i = 1; i <= 7; i++) { seed <<= 1; T(PAT + i, 64 - i, seed); }
  for (int i = 0; i <= 7; i++) T(lng + i, 128 + i * 17, seed);
  return bad || n != 81;
}
const u64 *ref_vectors(int fn) {
  switch (fn) {
  case FN_T1LE: return VEC_64le; case FN_T1BE: return VEC_64be;
  case FN_T2: return VEC_2atonce; case FN_T2X: return VEC_2atonce128;
  case FN_S: return VEC_2stream; case FN_SX: return VEC_2stream128;
  case FN_T0LE: return VEC_32le; case FN_T0BE: return VEC_32be;
  case FN_AN: case FN_AA: return VEC_ia32aes_a; case FN_A2: return VEC_ia32aes_b;
  }
  return 0;
}
int ref_selftest(void) {
  int bad = 0;
  for (int fn = 0; fn < FN_T0; fn++) bad |= vec(fn, ref_vectors(fn)) << fn;
  return bad;
}
