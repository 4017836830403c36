/* Independent byte-wise models of the published t1ha functions.
 * Nothing here includes or copies code of the repository under test. */
#pragma once
#include <stddef.h>
#include <stdint.h>

/* function ids, shared by every engine */
enum {
  FN_T1LE, FN_T1BE,
  FN_T2, FN_T2X,        /* atonce, atonce128 */
  FN_S, FN_SX,          /* stream 64, stream 128 (split list in the case) */
  FN_T0LE, FN_T0BE,
  FN_AN, FN_AA, FN_A2,  /* ia32aes noavx / avx / avx2 */
  FN_T0,                /* the dispatching t1ha0() */
  FN_COUNT
};
extern const char *const fn_name[FN_COUNT];

/* "crafting": while the model walks over the message it may rewrite words of
 * the message so that an internal operand takes a chosen value */
typedef struct craft {
  uint64_t (*pick)(struct craft *, uint64_t state, uint64_t inv_prime);
  int armed;       /* 0 = plain evaluation */
  unsigned prob;   /* 1/prob of steps are crafted */
  uint64_t rng;
} craft_t;

uint64_t ref_t1(const uint8_t *p, uint64_t len, uint64_t seed, int be, craft_t *c);
uint64_t ref_t2(const uint8_t *p, uint64_t len, uint64_t seed, craft_t *c);
uint64_t ref_t2x(const uint8_t *p, uint64_t len, uint64_t seed, uint64_t *hi, craft_t *c);
uint64_t ref_t0(const uint8_t *p, uint64_t len, uint64_t seed, int be, craft_t *c);
uint64_t ref_aes_a(const uint8_t *p, uint64_t len, uint64_t seed, craft_t *c);
uint64_t ref_aes_b(const uint8_t *p, uint64_t len, uint64_t seed, craft_t *c);

/* streaming: model keeps state + the tail of the byte stream */
typedef struct {
  uint64_t a, b, c, d, total;
  uint8_t buf[32];
  unsigned fill;
} ref_stream_t;
void ref_s_init(ref_stream_t *s, uint64_t x, uint64_t y);
void ref_s_update(ref_stream_t *s, const uint8_t *p, uint64_t len);
uint64_t ref_s_final(const ref_stream_t *s, uint64_t *hi /* or NULL */);
uint64_t ref_stream(const uint8_t *p, uint64_t len, uint64_t x, uint64_t y, uint64_t *hi, craft_t *c);

/* any function by id; hi is set for the 128-bit ones. impl_t0: what FN_T0 means */
uint64_t ref_call(int fn, int impl_t0, const uint8_t *p, uint64_t len, uint64_t seed, uint64_t seed2, uint64_t *hi, craft_t *c);
int ref_selftest(void);
