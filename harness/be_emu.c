/* Backend: the library cross-compiled to MIPS (32/64 bit, big/little endian) and interpreted.
 * Every access is checked: alignment, mapped range, permission, and (when monitoring) that
 * reads stay inside the caller's buffer. */
#define _GNU_SOURCE
#include "backend.h"
#include <elf.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

const size_t reg_size[REG_COUNT] = {REG_A_PAGES * PG, REG_B_PAGES * PG, REG_W_PAGES * PG};
uint8_t *reg_rw[REG_COUNT];

typedef uint64_t u64;
typedef uint32_t u32;
typedef int32_t s32;
typedef int64_t s64;

typedef struct { u64 base, size; uint8_t *host; int kind; } seg; /* kind: 0 image, 1 stack, 2+ regions */
#define NSEG 5
static seg segs[NSEG];
static u64 reg_base[REG_COUNT] = {0x20000000, 0x28000000, 0x30000000};
#define STACK_BASE 0x38000000ull
#define STACK_SIZE 0x40000u
static int is64, big;
static u64 a_cmd, a_main, a_gp;
static int monitoring, lax; /* lax: the target tolerates misaligned accesses */
/* windows of the current call */
static struct { u64 lo, hi; } w_data, w_ctx, w_out;

static u64 R[32], HI, LO, PC, NPC;
static char fault_why[160];
static int fault_sig;
static u64 n_insn;

#define FAULT(sig, ...) do { snprintf(fault_why, sizeof fault_why, __VA_ARGS__); fault_sig = sig; return 0; } while (0)

static void where(u64 a, char *o, size_t n) {
  for (int r = 0; r < REG_COUNT; r++)
    if (a + PG >= reg_base[r] && a < reg_base[r] + reg_size[r] + PG) { snprintf(o, n, "region %d offset %ld (size %zu)", r, (long)(a - reg_base[r]), reg_size[r]); return; }
  snprintf(o, n, "address %llx", (unsigned long long)a);
}
static uint8_t *xlate(u64 a, unsigned n, int wr) {
  char w[80];
  for (int i = 0; i < NSEG; i++) {
    seg *s = &segs[i];
    if (a - s->base < s->size && a - s->base + n <= s->size) {
      if (i >= 2) {
        if (wr) {
          if (!((a >= w_ctx.lo && a + n <= w_ctx.hi) || (a >= w_out.lo && a + n <= w_out.hi))) {
            where(a, w, sizeof w);
            FAULT(11, "stray write of %u bytes at %s", n, w);
          }
        } else if (monitoring) {
          if (!((a >= w_data.lo && a + n <= w_data.hi) || (a >= w_ctx.lo && a + n <= w_ctx.hi))) {
            where(a, w, sizeof w);
            FAULT(11, "read of %u bytes outside the caller's buffer: %s, buffer is [%ld,%ld)", n, w, (long)(w_data.lo - reg_base[REG_B]), (long)(w_data.hi - reg_base[REG_B]));
          }
        }
      }
      return s->host + (a - s->base);
    }
  }
  where(a, w, sizeof w);
  FAULT(11, "%s of %u bytes at unmapped %s", wr ? "write" : "read", n, w);
}
static inline u64 amask(u64 a) { return is64 ? a : (u32)a; }
static int ldn(u64 a, unsigned n, u64 *v) {
  a = amask(a);
  if (!lax && (a & (n - 1))) { char w[80]; where(a, w, sizeof w); FAULT(10, "misaligned %u-byte read at %s", n, w); }
  uint8_t *p = xlate(a, n, 0);
  if (!p) return 0;
  u64 r = 0;
  if (big) for (unsigned i = 0; i < n; i++) r = r << 8 | p[i];
  else for (unsigned i = n; i--;) r = r << 8 | p[i];
  *v = r;
  return 1;
}
static int stn(u64 a, unsigned n, u64 v) {
  a = amask(a);
  if (!lax && (a & (n - 1))) { char w[80]; where(a, w, sizeof w); FAULT(10, "misaligned %u-byte write at %s", n, w); }
  uint8_t *p = xlate(a, n, 1);
  if (!p) return 0;
  for (unsigned i = 0; i < n; i++) p[big ? n - 1 - i : i] = (uint8_t)(v >> (8 * i));
  return 1;
}
/* LWL/LWR/LDL/LDR and stores: move the part of the word that lies in the aligned cell */
static int ld_part(u64 a, unsigned n, int left, u64 old, u64 *out) {
  a = amask(a);
  u64 mask = n == 8 ? ~0ull : 0xffffffffull, cell = a & ~(u64)(n - 1), v = old & mask;
  unsigned b = (unsigned)(a & (n - 1));
  /* number of bytes touched and their place in the register */
  unsigned pos = big ? b : n - 1 - b; /* distance from the most significant byte of the cell */
  if (left) { /* bytes from a to the end (big) / start (little) of the cell go to the top of the register */
    unsigned cnt = n - pos;
    u64 lo = big ? a : cell;
    uint8_t *p = xlate(lo, cnt, 0);
    if (!p) return 0;
    for (unsigned i = 0; i < cnt; i++) { /* i-th most significant */
      uint8_t x = big ? p[i] : p[cnt - 1 - i];
      unsigned sh = 8 * (n - 1 - i);
      v = (v & ~(0xffull << sh)) | (u64)x << sh;
    }
  } else {
    unsigned cnt = pos + 1;
    u64 lo = big ? cell : a;
    uint8_t *p = xlate(lo, cnt, 0);
    if (!p) return 0;
    for (unsigned i = 0; i < cnt; i++) { /* i-th least significant */
      uint8_t x = big ? p[cnt - 1 - i] : p[i];
      unsigned sh = 8 * i;
      v = (v & ~(0xffull << sh)) | (u64)x << sh;
    }
  }
  *out = v & mask;
  return 1;
}
static int st_part(u64 a, unsigned n, int left, u64 v) {
  a = amask(a);
  u64 cell = a & ~(u64)(n - 1);
  unsigned b = (unsigned)(a & (n - 1));
  unsigned pos = big ? b : n - 1 - b;
  if (left) {
    unsigned cnt = n - pos;
    u64 lo = big ? a : cell;
    uint8_t *p = xlate(lo, cnt, 1);
    if (!p) return 0;
    for (unsigned i = 0; i < cnt; i++) p[big ? i : cnt - 1 - i] = (uint8_t)(v >> (8 * (n - 1 - i)));
  } else {
    unsigned cnt = pos + 1;
    u64 lo = big ? cell : a;
    uint8_t *p = xlate(lo, cnt, 1);
    if (!p) return 0;
    for (unsigned i = 0; i < cnt; i++) p[big ? cnt - 1 - i : i] = (uint8_t)(v >> (8 * i));
  }
  return 1;
}
static inline u64 sx32(u64 v) { return (u64)(s64)(s32)(u32)v; }
static u32 *icache; /* host-order instruction words of the image */

static int step(void) {
  u64 pc = PC;
  if (pc - segs[0].base >= segs[0].size || (pc & 3)) FAULT(11, "jump to %llx", (unsigned long long)pc);
  u32 w = icache[(pc - segs[0].base) >> 2];
  u64 next = NPC + 4;
  PC = NPC;
  unsigned op = w >> 26, rs = w >> 21 & 31, rt = w >> 16 & 31, rd = w >> 11 & 31, sa = w >> 6 & 31, fn = w & 63;
  s64 imm = (int16_t)w;
  u64 uimm = w & 0xffff, v;
#define SET(r, x) do { u64 x_ = (x); if (r) R[r] = x_; } while (0)
#define BR(c) do { if (c) next = pc + 4 + ((u64)imm << 2); } while (0)
#define BRL(c) do { if (c) next = pc + 4 + ((u64)imm << 2); else { PC = NPC + 4; NPC = PC + 4; return 1; } } while (0)
  switch (op) {
  case 0:
    switch (fn) {
    case 0: SET(rd, sx32((u32)R[rt] << sa)); break;
    case 2: SET(rd, sx32(rs & 1 ? ((u32)R[rt] >> sa | (sa ? (u32)R[rt] << (32 - sa) : 0)) : (u32)R[rt] >> sa)); break;
    case 3: SET(rd, sx32((u64)((s32)R[rt] >> sa))); break;
    case 4: SET(rd, sx32((u32)R[rt] << (R[rs] & 31))); break;
    case 6: { unsigned s = R[rs] & 31; SET(rd, sx32(sa & 1 ? ((u32)R[rt] >> s | (s ? (u32)R[rt] << (32 - s) : 0)) : (u32)R[rt] >> s)); break; }
    case 7: SET(rd, sx32((u64)((s32)R[rt] >> (R[rs] & 31)))); break;
    case 8: next = R[rs]; break;
    case 9: { u64 t = R[rs]; SET(rd, is64 ? pc + 8 : sx32(pc + 8)); next = t; break; }
    case 10: if (R[rt] == 0) SET(rd, R[rs]); break;
    case 11: if (R[rt] != 0) SET(rd, R[rs]); break;
    case 12: FAULT(31, "syscall");
    case 13: FAULT(5, "trap instruction (undefined behaviour check or abort)");
    case 15: break; /* sync */
    case 16: SET(rd, HI); break;
    case 17: HI = R[rs]; break;
    case 18: SET(rd, LO); break;
    case 19: LO = R[rs]; break;
    case 20: SET(rd, R[rt] << (R[rs] & 63)); break;
    case 22: { unsigned s = R[rs] & 63; SET(rd, sa & 1 ? (R[rt] >> s | (s ? R[rt] << (64 - s) : 0)) : R[rt] >> s); break; }
    case 23: SET(rd, (u64)((s64)R[rt] >> (R[rs] & 63))); break;
    case 24: { s64 p = (s64)(s32)R[rs] * (s32)R[rt]; LO = sx32((u64)p); HI = sx32((u64)p >> 32); break; }
    case 25: { u64 p = (u64)(u32)R[rs] * (u32)R[rt]; LO = sx32(p); HI = sx32(p >> 32); break; }
    case 26: if ((s32)R[rt] && !((s32)R[rs] == INT32_MIN && (s32)R[rt] == -1)) { LO = sx32((u64)((s32)R[rs] / (s32)R[rt])); HI = sx32((u64)((s32)R[rs] % (s32)R[rt])); } break;
    case 27: if ((u32)R[rt]) { LO = sx32((u32)R[rs] / (u32)R[rt]); HI = sx32((u32)R[rs] % (u32)R[rt]); } break;
    case 28: { __int128 p = (__int128)(s64)R[rs] * (s64)R[rt]; LO = (u64)p; HI = (u64)(p >> 64); break; }
    case 29: { unsigned __int128 p = (unsigned __int128)R[rs] * R[rt]; LO = (u64)p; HI = (u64)(p >> 64); break; }
    case 30: if (R[rt] && !((s64)R[rs] == INT64_MIN && (s64)R[rt] == -1)) { LO = (u64)((s64)R[rs] / (s64)R[rt]); HI = (u64)((s64)R[rs] % (s64)R[rt]); } break;
    case 31: if (R[rt]) { LO = R[rs] / R[rt]; HI = R[rs] % R[rt]; } break;
    case 32: case 33: SET(rd, sx32(R[rs] + R[rt])); break;
    case 34: case 35: SET(rd, sx32(R[rs] - R[rt])); break;
    case 36: SET(rd, R[rs] & R[rt]); break;
    case 37: SET(rd, R[rs] | R[rt]); break;
    case 38: SET(rd, R[rs] ^ R[rt]); break;
    case 39: SET(rd, ~(R[rs] | R[rt])); break;
    case 42: SET(rd, (s64)R[rs] < (s64)R[rt]); break;
    case 43: SET(rd, R[rs] < R[rt]); break;
    case 44: case 45: SET(rd, R[rs] + R[rt]); break;
    case 46: case 47: SET(rd, R[rs] - R[rt]); break;
    case 52: if (R[rs] == R[rt]) FAULT(5, "conditional trap"); break;
    case 54: if (R[rs] != R[rt]) FAULT(5, "conditional trap"); break;
    case 56: SET(rd, R[rt] << sa); break;
    case 58: SET(rd, rs & 1 ? (R[rt] >> sa | (sa ? R[rt] << (64 - sa) : 0)) : R[rt] >> sa); break;
    case 59: SET(rd, (u64)((s64)R[rt] >> sa)); break;
    case 60: SET(rd, R[rt] << (sa + 32)); break;
    case 62: { unsigned s = sa + 32; SET(rd, rs & 1 ? (R[rt] >> s | R[rt] << (64 - s)) : R[rt] >> s); break; }
    case 63: SET(rd, (u64)((s64)R[rt] >> (sa + 32))); break;
    default: FAULT(4, "unknown instruction %08x at %llx", w, (unsigned long long)pc);
    }
    break;
  case 1:
    switch (rt) {
    case 0: BR((s64)R[rs] < 0); break;
    case 1: BR((s64)R[rs] >= 0); break;
    case 2: BRL((s64)R[rs] < 0); break;
    case 3: BRL((s64)R[rs] >= 0); break;
    case 16: { int t = (s64)R[rs] < 0; SET(31, pc + 8); BR(t); break; }
    case 17: { int t = (s64)R[rs] >= 0; SET(31, pc + 8); BR(t); break; }
    default: FAULT(4, "unknown instruction %08x at %llx", w, (unsigned long long)pc);
    }
    break;
  case 2: next = ((pc + 4) & ~0xfffffffull) | (u64)(w & 0x3ffffff) << 2; break;
  case 3: SET(31, pc + 8); next = ((pc + 4) & ~0xfffffffull) | (u64)(w & 0x3ffffff) << 2; break;
  case 4: BR(R[rs] == R[rt]); break;
  case 5: BR(R[rs] != R[rt]); break;
  case 6: BR((s64)R[rs] <= 0); break;
  case 7: BR((s64)R[rs] > 0); break;
  case 8: case 9: SET(rt, sx32(R[rs] + (u64)imm)); break;
  case 10: SET(rt, (s64)R[rs] < imm); break;
  case 11: SET(rt, R[rs] < (u64)imm); break;
  case 12: SET(rt, R[rs] & uimm); break;
  case 13: SET(rt, R[rs] | uimm); break;
  case 14: SET(rt, R[rs] ^ uimm); break;
  case 15: SET(rt, sx32(uimm << 16)); break;
  case 20: BRL(R[rs] == R[rt]); break;
  case 21: BRL(R[rs] != R[rt]); break;
  case 22: BRL((s64)R[rs] <= 0); break;
  case 23: BRL((s64)R[rs] > 0); break;
  case 24: case 25: SET(rt, R[rs] + (u64)imm); break;
  case 26: if (!ld_part(R[rs] + (u64)imm, 8, 1, R[rt], &v)) return 0; SET(rt, v); break;
  case 27: if (!ld_part(R[rs] + (u64)imm, 8, 0, R[rt], &v)) return 0; SET(rt, v); break;
  case 28: /* SPECIAL2 */
    switch (fn) {
    case 0: { s64 p = (s64)((u64)(u32)HI << 32 | (u32)LO) + (s64)(s32)R[rs] * (s32)R[rt]; LO = sx32((u64)p); HI = sx32((u64)p >> 32); break; }
    case 1: { u64 p = ((u64)(u32)HI << 32 | (u32)LO) + (u64)(u32)R[rs] * (u32)R[rt]; LO = sx32(p); HI = sx32(p >> 32); break; }
    case 2: SET(rd, sx32((u32)R[rs] * (u32)R[rt])); break;
    case 4: { s64 p = (s64)((u64)(u32)HI << 32 | (u32)LO) - (s64)(s32)R[rs] * (s32)R[rt]; LO = sx32((u64)p); HI = sx32((u64)p >> 32); break; }
    case 5: { u64 p = ((u64)(u32)HI << 32 | (u32)LO) - (u64)(u32)R[rs] * (u32)R[rt]; LO = sx32(p); HI = sx32(p >> 32); break; }
    case 32: SET(rd, (u32)R[rs] ? (u64)__builtin_clz((u32)R[rs]) : 32); break;
    case 33: SET(rd, ~(u32)R[rs] ? (u64)__builtin_clz(~(u32)R[rs]) : 32); break;
    case 36: SET(rd, R[rs] ? (u64)__builtin_clzll(R[rs]) : 64); break;
    case 37: SET(rd, ~R[rs] ? (u64)__builtin_clzll(~R[rs]) : 64); break;
    default: FAULT(4, "unknown instruction %08x at %llx", w, (unsigned long long)pc);
    }
    break;
  case 31: /* SPECIAL3 */
    switch (fn) {
    case 0: SET(rt, sx32((u32)R[rs] >> sa & (rd == 31 ? ~0u : (1u << (rd + 1)) - 1))); break;
    case 1: case 2: case 3: { /* dextm dextu dext */
      unsigned pos = fn == 2 ? sa + 32 : sa, size = fn == 1 ? rd + 33 : rd + 1;
      SET(rt, R[rs] >> pos & (size == 64 ? ~0ull : (1ull << size) - 1)); break; }
    case 4: { unsigned size = rd - sa + 1; u32 m = (size == 32 ? ~0u : (1u << size) - 1) << sa; SET(rt, sx32(((u32)R[rt] & ~m) | ((u32)R[rs] << sa & m))); break; }
    case 5: case 6: case 7: { /* dinsm dinsu dins */
      unsigned pos = fn == 6 ? sa + 32 : sa, msb = fn == 7 ? rd : rd + 32, size = msb - pos + 1;
      u64 m = (size == 64 ? ~0ull : (1ull << size) - 1) << pos;
      SET(rt, (R[rt] & ~m) | (R[rs] << pos & m)); break; }
    case 32: /* BSHFL */
      switch (sa) {
      case 2: { u32 x = (u32)R[rt]; SET(rd, sx32((x & 0xff00ff) << 8 | (x >> 8 & 0xff00ff))); break; }
      case 16: SET(rd, (u64)(s64)(int8_t)R[rt]); break;
      case 24: SET(rd, (u64)(s64)(int16_t)R[rt]); break;
      default: FAULT(4, "unknown instruction %08x at %llx", w, (unsigned long long)pc);
      }
      break;
    case 36: /* DBSHFL */
      switch (sa) {
      case 2: { u64 x = R[rt]; SET(rd, (x & 0xff00ff00ff00ffull) << 8 | (x >> 8 & 0xff00ff00ff00ffull)); break; }
      case 5: { u64 x = R[rt]; SET(rd, x << 48 | (x & 0xffff0000ull) << 16 | (x >> 16 & 0xffff0000ull) | x >> 48); break; }
      default: FAULT(4, "unknown instruction %08x at %llx", w, (unsigned long long)pc);
      }
      break;
    default: FAULT(4, "unknown instruction %08x at %llx", w, (unsigned long long)pc);
    }
    break;
  case 32: if (!ldn(R[rs] + (u64)imm, 1, &v)) return 0; SET(rt, (u64)(s64)(int8_t)v); break;
  case 33: if (!ldn(R[rs] + (u64)imm, 2, &v)) return 0; SET(rt, (u64)(s64)(int16_t)v); break;
  case 34: if (!ld_part(R[rs] + (u64)imm, 4, 1, R[rt], &v)) return 0; SET(rt, sx32(v)); break;
  case 35: if (!ldn(R[rs] + (u64)imm, 4, &v)) return 0; SET(rt, sx32(v)); break;
  case 36: if (!ldn(R[rs] + (u64)imm, 1, &v)) return 0; SET(rt, v); break;
  case 37: if (!ldn(R[rs] + (u64)imm, 2, &v)) return 0; SET(rt, v); break;
  case 38: if (!ld_part(R[rs] + (u64)imm, 4, 0, R[rt], &v)) return 0; SET(rt, sx32(v)); break;
  case 39: if (!ldn(R[rs] + (u64)imm, 4, &v)) return 0; SET(rt, v); break;
  case 40: if (!stn(R[rs] + (u64)imm, 1, R[rt])) return 0; break;
  case 41: if (!stn(R[rs] + (u64)imm, 2, R[rt])) return 0; break;
  case 42: if (!st_part(R[rs] + (u64)imm, 4, 1, R[rt])) return 0; break;
  case 43: if (!stn(R[rs] + (u64)imm, 4, R[rt])) return 0; break;
  case 44: if (!st_part(R[rs] + (u64)imm, 8, 1, R[rt])) return 0; break;
  case 45: if (!st_part(R[rs] + (u64)imm, 8, 0, R[rt])) return 0; break;
  case 46: if (!st_part(R[rs] + (u64)imm, 4, 0, R[rt])) return 0; break;
  case 51: break; /* pref: never faults */
  case 55: if (!ldn(R[rs] + (u64)imm, 8, &v)) return 0; SET(rt, v); break;
  case 63: if (!stn(R[rs] + (u64)imm, 8, R[rt])) return 0; break;
  default: FAULT(4, "unknown instruction %08x at %llx", w, (unsigned long long)pc);
  }
  NPC = amask(next);
  return 1;
}
#define RET_ADDR 0x7ffffff0ull
static void put64(u64 a, u64 v) {
  uint8_t *p = segs[0].host + (a - segs[0].base);
  for (unsigned i = 0; i < 8; i++) p[big ? 7 - i : i] = (uint8_t)(v >> (8 * i));
}
static u64 get64(u64 a) {
  uint8_t *p = segs[0].host + (a - segs[0].base);
  u64 r = 0;
  for (unsigned i = 0; i < 8; i++) r |= (u64)p[big ? 7 - i : i] << (8 * i);
  return r;
}
static u64 gcall(u64 op, u64 a, u64 b, u64 c, u64 d, call_info *ci) {
  u64 v[5] = {op, a, b, c, d};
  for (int i = 0; i < 5; i++) put64(a_cmd + 8u * (unsigned)i, v[i]);
  put64(a_cmd + 40, 0xdeadbeefcafef00dull);
  static u64 calls;
  u64 stale = ++calls * 0x9e3779b97f4a7c15ull; /* stale register and stack contents */
  for (int i = 1; i < 32; i++) { stale ^= stale << 13; stale ^= stale >> 7; stale ^= stale << 17; R[i] = is64 ? stale : sx32((u32)stale); }
  HI = LO = sx32((u32)stale);
  R[29] = STACK_BASE + STACK_SIZE - 256;
  for (u32 i = 0; i < 1024; i += 8) { stale ^= stale << 13; stale ^= stale >> 7; stale ^= stale << 17; memcpy(segs[1].host + STACK_SIZE - 256 - 1024 + i, &stale, 8); }
  R[28] = a_gp;
  R[25] = a_main; R[31] = RET_ADDR;
  PC = a_main; NPC = PC + 4;
  fault_sig = 0;
  ci->fault = 0;
  u64 limit = 4000000 + 3000 * (op <= FN_T0 ? b : op == 21 ? c : 1000000);
  u64 n = 0;
  while (PC != RET_ADDR) {
    if (!step()) { ci->fault = fault_sig ? fault_sig : 11; snprintf(ci->why, sizeof ci->why, "%s", fault_why); return 0; }
    if (++n > limit) { ci->fault = 26; snprintf(ci->why, sizeof ci->why, "no return after %llu instructions", (unsigned long long)n); return 0; }
  }
  n_insn += n;
  return get64(a_cmd + 40);
}
static const char *desc = "emu";
static unsigned have;
static int t0impl;
static size_t ctx_size, ctx_align;

static int load(const char *path) {
  FILE *f = fopen(path, "rb");
  if (!f) { perror(path); return 1; }
  static uint8_t file[8 << 20];
  size_t n = fread(file, 1, sizeof file, f);
  fclose(f);
  if (n < 64 || memcmp(file, ELFMAG, 4)) return 1;
  is64 = file[EI_CLASS] == ELFCLASS64;
  big = file[EI_DATA] == ELFDATA2MSB;
#define G(off, sz) ({ u64 r_ = 0; for (unsigned i_ = 0; i_ < (sz); i_++) r_ |= (u64)file[(off) + (big ? (sz) - 1 - i_ : i_)] << (8 * i_); r_; })
  u64 phoff = is64 ? G(32, 8) : G(28, 4), shoff = is64 ? G(40, 8) : G(32, 4);
  unsigned phsz = (unsigned)(is64 ? G(54, 2) : G(42, 2)), phn = (unsigned)(is64 ? G(56, 2) : G(44, 2));
  unsigned shsz = (unsigned)(is64 ? G(58, 2) : G(46, 2)), shn = (unsigned)(is64 ? G(60, 2) : G(48, 2));
  u64 lo = ~0ull, hi = 0;
  for (int pass = 0; pass < 2; pass++) {
    for (unsigned i = 0; i < phn; i++) {
      u64 h = phoff + i * phsz;
      if (G(h, 4) != PT_LOAD) continue;
      u64 off = is64 ? G(h + 8, 8) : G(h + 4, 4), va = is64 ? G(h + 16, 8) : G(h + 8, 4);
      u64 fsz = is64 ? G(h + 32, 8) : G(h + 16, 4), msz = is64 ? G(h + 40, 8) : G(h + 20, 4);
      if (!pass) { if (va < lo) lo = va; if (va + msz > hi) hi = va + msz; }
      else memcpy(segs[0].host + (va - segs[0].base), file + off, fsz);
    }
    if (!pass) {
      lo &= ~0xfffull; hi = (hi + 0xfff) & ~0xfffull;
      segs[0].base = lo; segs[0].size = hi - lo; segs[0].host = calloc(1, hi - lo); segs[0].kind = 0;
    }
  }
  for (unsigned i = 0; i < shn; i++) {
    u64 h = shoff + i * shsz;
    if (G(h + 4, 4) != SHT_SYMTAB) continue;
    u64 off = is64 ? G(h + 24, 8) : G(h + 16, 4), size = is64 ? G(h + 32, 8) : G(h + 20, 4);
    u64 link = is64 ? G(h + 40, 4) : G(h + 24, 4), esz = is64 ? 24 : 16;
    u64 sh2 = shoff + link * shsz, stroff = is64 ? G(sh2 + 24, 8) : G(sh2 + 16, 4);
    for (u64 s = off; s < off + size; s += esz) {
      const char *nm = (const char *)file + stroff + G(s, 4);
      u64 val = is64 ? G(s + 8, 8) : G(s + 4, 4);
      if (!strcmp(nm, "g_cmd")) a_cmd = val;
      if (!strcmp(nm, "g_main")) a_main = val;
      if (!strcmp(nm, "_gp")) a_gp = val;
    }
  }
  icache = malloc(segs[0].size);
  for (u64 i = 0; i < segs[0].size; i += 4) {
    const uint8_t *p = segs[0].host + i;
    icache[i / 4] = big ? (u32)p[0] << 24 | (u32)p[1] << 16 | (u32)p[2] << 8 | p[3] : (u32)p[3] << 24 | (u32)p[2] << 16 | (u32)p[1] << 8 | p[0];
  }
  return !a_cmd || !a_main;
}
const char *be_describe(void) { return desc; }
int be_ptr64(void) { return is64; }
int be_big_endian(void) { return big; }
int be_init(int argc, char **argv) {
  const char *path = NULL;
  for (int i = 1; i < argc; i++) if (!strncmp(argv[i], "guest=", 6)) path = argv[i] + 6; else if (!strcmp(argv[i], "lax=1")) lax = 1;
  if (!path || load(path)) { fprintf(stderr, "cannot load guest %s\n", path ? path : "(none)"); return 1; }
  segs[1] = (seg){STACK_BASE, STACK_SIZE, calloc(1, STACK_SIZE), 1};
  for (int r = 0; r < REG_COUNT; r++) { reg_rw[r] = calloc(1, reg_size[r]); segs[2 + r] = (seg){reg_base[r], reg_size[r], reg_rw[r], 2 + r}; }
  call_info ci;
  ctx_size = (size_t)gcall(30, 0, 0, 0, 0, &ci);
  if (ci.fault) { fprintf(stderr, "guest does not run: %s\n", ci.why); return 1; }
  ctx_align = (size_t)gcall(31, 0, 0, 0, 0, &ci);
  have = (unsigned)gcall(33, 0, 0, 0, 0, &ci);
  t0impl = (int)gcall(34, 0, 0, 0, 0, &ci);
  return ci.fault != 0;
}
int be_has(int fn) { return have >> fn & 1; }
int be_t0_impl(void) { return t0impl; }
size_t be_ctx_size(void) { return ctx_size; }
size_t be_ctx_align(void) { return ctx_align; }
void be_view(unsigned v) {
  static const u64 at[][2][REG_COUNT] = {
      {{0x20000000, 0x28000000, 0x30000000}, {0x20000000, 0x28000000, 0x30000000}},
      {{0x11000, 0x80000000u - 2 * PG, 0x14000}, {0x11000, 0x80000000u - 2 * PG, 0x14000}},
      {{0x90000000u - PG, 0xfffff000u - REG_B_PAGES * PG, 0xA0000000u}, {0x200000000ull - PG, 0x100000000ull - 2 * PG, 0x300000000ull}},
      {{0x7ffff000u, 0x20000, 0xfffe0000u}, {0x90000000u, 0x8000000000ull - 2 * PG, 0x80001000u}}};
  for (int r = 0; r < REG_COUNT; r++) if (at[v % 4][is64][r] < segs[0].base + segs[0].size && at[v % 4][is64][r] + reg_size[r] > segs[0].base) { fprintf(stderr, "region over the image\n"); exit(3); }
  for (int r = 0; r < REG_COUNT; r++) segs[2 + r].base = reg_base[r] = at[v % 4][is64][r];
}
void be_limit_stack(void) {}
static u64 ga(gptr p) { return p.null ? 0 : reg_base[p.reg] + p.off; }
static void win(gptr data, u64 len, gptr ctx, gptr out) {
  w_data.lo = ga(data); w_data.hi = w_data.lo + len;
  w_ctx.lo = ga(ctx); w_ctx.hi = ctx.null ? w_ctx.lo : w_ctx.lo + ctx_size;
  w_out.lo = ga(out); w_out.hi = out.null ? w_out.lo : w_out.lo + 8;
}
static const gptr NUL = {0, 0, 1};
u64 be_hash(int fn, gptr data, u64 len, u64 seed, call_info *ci) { win(data, len, NUL, NUL); return gcall((u64)fn, ga(data), len, seed, 0, ci); }
u64 be_hashx(gptr hi, gptr data, u64 len, u64 seed, call_info *ci) { win(data, len, NUL, hi); return gcall(FN_T2X, ga(data), len, seed, ga(hi), ci); }
void be_s_init(gptr ctx, u64 x, u64 y, call_info *ci) { win(NUL, 0, ctx, NUL); gcall(20, ga(ctx), x, y, 0, ci); }
void be_s_update(gptr ctx, gptr data, u64 len, call_info *ci) { win(data, len, ctx, NUL); gcall(21, ga(ctx), ga(data), len, 0, ci); }
u64 be_s_final(gptr ctx, gptr hi, call_info *ci) { win(NUL, 0, ctx, hi); return gcall(22, ga(ctx), ga(hi), 0, 0, ci); }
int be_selfcheck_all_of(char *why, size_t n) {
  call_info ci;
  u64 r = gcall(32, 0, 0, 0, 0, &ci);
  if (ci.fault) { snprintf(why, n, "fault in a self-check: %s", ci.why); return 1; }
  if (r) { snprintf(why, n, "self-check number %d failed", (int)r); return 1; }
  return 0;
}
int be_can_monitor(void) { return 1; }
void be_monitor(int on) { monitoring = on; }
