/* The code under test, seen through function calls on guarded memory.
 * Two backends: be_native.c (linked with objects built from /repo) and
 * be_emu.c (the same sources cross-compiled to MIPS, run by an emulator). */
#pragma once
#include "ref.h"
#include <stddef.h>
#include <stdint.h>

#define PG 4096u
#define REG_A_PAGES 1u  /* region 0: one page between guards */
#define REG_B_PAGES 40u /* region 1: big region between guards */
#define REG_W_PAGES 4u  /* region 2: writable, for contexts and results */
enum { REG_A, REG_B, REG_W, REG_COUNT };

/* memory as the harness sees it (always writable for the harness) */
extern uint8_t *reg_rw[REG_COUNT];
extern const size_t reg_size[REG_COUNT];
/* a guest pointer: region + offset, or null */
typedef struct { int reg; size_t off; int null; } gptr;

typedef struct {
  int fault;          /* 0 none, else signal-like code */
  char why[160];
  uint64_t t[2];      /* reserved */
} call_info;

const char *be_describe(void);
int be_init(int argc, char **argv);
int be_has(int fn);           /* is this function available (and runnable here)? */
int be_t0_impl(void);         /* which function t1ha0() must be on this machine */
int be_ptr64(void);           /* 64-bit target? */
size_t be_ctx_size(void);
size_t be_ctx_align(void);

uint64_t be_hash(int fn, gptr data, uint64_t len, uint64_t seed, call_info *ci);
uint64_t be_hashx(gptr hi, gptr data, uint64_t len, uint64_t seed, call_info *ci);
void be_s_init(gptr ctx, uint64_t x, uint64_t y, call_info *ci);
void be_s_update(gptr ctx, gptr data, uint64_t len, call_info *ci);
uint64_t be_s_final(gptr ctx, gptr hi, call_info *ci);
int be_big_endian(void);
/* calls every self-check function declared for this configuration; nonzero and a reason if one does not return 0 */
int be_selfcheck_all_of(char *why, size_t n);

/* where the regions lie from now on: low, across 2 GiB, across 4 GiB, high, ... (any number; views beyond what the machine has repeat) */
void be_view(unsigned v);

/* from now on the stack ends 48 KB below: callers may be threads and signal handlers with little of it */
void be_limit_stack(void);

/* byte-exact access monitoring (emulator only): while on, every read outside
 * the listed windows (and the guest stack / constants) is reported as a fault */
int be_can_monitor(void);
void be_monitor(int on);
