#define _GNU_SOURCE
#include "backend.h"
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include "t1ha.h"

#ifndef VARIANT
#define VARIANT "native"
#endif

const size_t reg_size[REG_COUNT] = {REG_A_PAGES * PG, REG_B_PAGES * PG, REG_W_PAGES * PG};
uint8_t *reg_rw[REG_COUNT];
static uint8_t *reg_lib[REG_COUNT]; /* the library's view: one of these */
#define NVIEW 5
static uint8_t *views[NVIEW][REG_COUNT];
static unsigned nview;
/* bases of the regions; region B has a power of two between its second and third page */
#ifdef __x86_64__
static const uintptr_t place[NVIEW][REG_COUNT] = {{0},
    {0x11000, 0x80000000u - 2 * PG, 0x14000},
    {0x200000000ull - PG, 0x100000000ull - 2 * PG, 0x300000000ull - 2 * PG},
    {0x90000000u, 0x400000000000ull - 2 * PG, 0x80000000000ull - PG},
    {0x10000000000ull, 0x20000, 0x7f000000u}};
#else
static const uintptr_t place[NVIEW][REG_COUNT] = {{0}, {0x11000, 0x80000000u - 2 * PG, 0x14000}, {0x90000000u - PG, 0xC0000000u - 2 * PG, 0xA0000000u - 2 * PG}, {0x7fff0000u, 0x20000, 0xB0000000u}, {0xD0000000u, 0x40000000u - 2 * PG, 0x80010000u}};
#endif

static sigjmp_buf jb;
static volatile sig_atomic_t in_call;
static volatile unsigned long call_no, last_tick_call;
static volatile int ticks;
static void *fault_addr;

static void on_sig(int sig, siginfo_t *si, void *uc) {
  (void)uc;
  if (sig == SIGVTALRM) {
    if (!in_call) return;
    if (last_tick_call != call_no) { last_tick_call = call_no; ticks = 0; return; }
    if (++ticks < 3) return; /* >= 15 s of CPU time inside one call: a hang */
    siglongjmp(jb, sig);
  }
  if (!in_call) { signal(sig, SIG_DFL); raise(sig); return; }
  fault_addr = si->si_addr;
  siglongjmp(jb, sig);
}

#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
static uint8_t *map_guarded(int fd, off_t off, size_t size, int prot, uintptr_t at) {
  uint8_t *p = MAP_FAILED;
  if (at) {
    p = mmap((void *)(at - PG), size + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != MAP_FAILED && p != (uint8_t *)(at - PG)) munmap(p, size + 2 * PG), p = MAP_FAILED;
  }
  if (p == MAP_FAILED) p = mmap(NULL, size + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  if (mmap(p + PG, size, prot, MAP_SHARED | MAP_FIXED, fd, off) == MAP_FAILED) { perror("mmap"); exit(3); }
  return p + PG;
}

/* exact monitoring of the accesses of instrumented library objects (asan_rt.c) */
struct mon_window { uintptr_t lo, hi; } mon_data, mon_ctx, mon_out;
int mon_on;
char mon_why[160];
uint8_t *mon_base[REG_COUNT];

const char *be_describe(void) { return VARIANT; }
int be_ptr64(void) { return sizeof(void *) == 8; }

void be_view(unsigned v) { for (int r = 0; r < REG_COUNT; r++) mon_base[r] = reg_lib[r] = views[v % NVIEW][r]; }
void be_limit_stack(void) {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
  FILE *f = fopen("/proc/self/maps", "r");
  char line[512];
  unsigned long lo, hi, sp = (unsigned long)(uintptr_t)__builtin_frame_address(0);
  while (f && fgets(line, sizeof line, f))
    if (sscanf(line, "%lx-%lx", &lo, &hi) == 2 && lo <= sp && sp < hi) {
      unsigned long end = (sp - (48u << 10)) & ~(unsigned long)(PG - 1);
      if (end > lo) mprotect((void *)(uintptr_t)lo, end - lo, PROT_NONE);
      struct rlimit rl;
      if (!getrlimit(RLIMIT_STACK, &rl)) { rl.rlim_cur = hi - lo; setrlimit(RLIMIT_STACK, &rl); }
      break;
    }
  if (f) fclose(f);
#endif
}
int be_init(int argc, char **argv) {
  (void)argc; (void)argv;
  int fd = (int)syscall(SYS_memfd_create, "arena", 0);
  if (fd < 0) { perror("memfd"); exit(3); }
  size_t tot = reg_size[0] + reg_size[1] + reg_size[2];
  if (ftruncate(fd, (off_t)tot)) { perror("ftruncate"); exit(3); }
  off_t off = 0;
  for (int r = 0; r < REG_COUNT; r++) {
    reg_rw[r] = map_guarded(fd, off, reg_size[r], PROT_READ | PROT_WRITE, 0);
    for (nview = 0; nview < NVIEW; nview++) views[nview][r] = map_guarded(fd, off, reg_size[r], r == REG_W ? PROT_READ | PROT_WRITE : PROT_READ, place[nview][r]);
    off += (off_t)reg_size[r];
  }
  close(fd);
  be_view(0);
  static char alt[1 << 16];
  stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
  sigaltstack(&ss, NULL);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_sig;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT, SIGVTALRM};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
  struct itimerval it = {{5, 0}, {5, 0}};
  setitimer(ITIMER_VIRTUAL, &it, NULL);
  return 0;
}

#ifdef MONITOR
static const gptr NUL = {0, 0, 1};
static void setw(struct mon_window *w, gptr p, uint64_t n) { w->lo = p.null ? 0 : (uintptr_t)reg_lib[p.reg] + p.off; w->hi = p.null ? 0 : w->lo + (uintptr_t)n; }
#define WIN(d, n, c, o) (setw(&mon_data, d, n), setw(&mon_ctx, c, be_ctx_size()), setw(&mon_out, o, 8), mon_why[0] = 0)
#else
#define WIN(d, n, c, o) (void)0
#endif
static uint8_t *lp(gptr p) { return p.null ? NULL : reg_lib[p.reg] + p.off; }

/* stale contents of the stack and of the caller-saved registers, different for every call */
static __attribute__((noinline, noclone)) void pollute(unsigned long n) {
  volatile uint64_t junk[320];
  uint64_t x = (n + 1) * 0x9e3779b97f4a7c15ull;
  if (n % 5 == 0) x = 0; else if (n % 5 == 1) x = ~0ull;
  for (unsigned i = 0; i < 320; i++) { if (n % 5 > 1) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; } junk[i] = x; }
#ifdef __x86_64__
  __asm__ volatile("movq %0,%%xmm0; movq %0,%%xmm1; movq %0,%%xmm2; movq %0,%%xmm3; movq %0,%%xmm4; movq %0,%%xmm5; movq %0,%%xmm6; movq %0,%%xmm7; punpcklqdq %%xmm0,%%xmm0; punpcklqdq %%xmm1,%%xmm1;"
                   "mov %0,%%rcx; mov %0,%%r8; mov %0,%%r9; mov %0,%%r10; mov %0,%%r11; mov %0,%%rdi; mov %0,%%rsi; add %0,%%r10" ::"a"(x)
                   : "rcx", "rdi", "rsi", "r8", "r9", "r10", "r11", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "cc", "memory");
#else
  __asm__ volatile("mov %0,%%ecx; add %0,%%ecx" ::"a"((uint32_t)x) : "ecx", "cc", "memory");
#endif
}

#define GUARDED(ci, stmt)                                                                        \
  do {                                                                                           \
    int sig_;                                                                                    \
    call_no++;                                                                                   \
    pollute(call_no);                                                                            \
    (ci)->fault = 0;                                                                             \
    if ((sig_ = sigsetjmp(jb, 0)) == 0) {                                                        \
      in_call = 1;                                                                               \
      stmt;                                                                                      \
      in_call = 0;                                                                               \
    } else {                                                                                     \
      in_call = 0;                                                                               \
      (ci)->fault = sig_;                                                                        \
      describe(ci);                                                                              \
    }                                                                                            \
  } while (0)

static void describe(call_info *ci) {
  if (ci->fault == SIGTRAP && mon_why[0]) { snprintf(ci->why, sizeof ci->why, "%s", mon_why); return; }
  int n = snprintf(ci->why, sizeof ci->why, "signal %d (%s)", ci->fault, strsignal(ci->fault));
  if (ci->fault == SIGVTALRM) { snprintf(ci->why, sizeof ci->why, "no return after 15 s of CPU time in one call"); return; }
  for (int r = 0; r < REG_COUNT; r++) {
    long d = (long)((uint8_t *)fault_addr - reg_lib[r]);
    if (d >= -(long)PG && d < (long)(reg_size[r] + PG))
      snprintf(ci->why + n, sizeof ci->why - (size_t)n, " at region %d offset %ld (size %zu)", r, d, reg_size[r]);
  }
}

typedef uint64_t (*hash_fn)(const void *, size_t, uint64_t);
#ifndef T1HA0_DISABLED
static uint64_t call_t0(const void *d, size_t n, uint64_t s) { return t1ha0(d, n, s); }
#endif
static hash_fn fns[FN_COUNT] = {
#ifndef T1HA1_DISABLED
    [FN_T1LE] = t1ha1_le, [FN_T1BE] = t1ha1_be,
#endif
#ifndef T1HA2_DISABLED
    [FN_T2] = t1ha2_atonce,
#endif
#ifndef T1HA0_DISABLED
#ifndef SHARED_LIB
    [FN_T0LE] = t1ha0_32le, [FN_T0BE] = t1ha0_32be,
#if T1HA0_AESNI_AVAILABLE
    [FN_AN] = t1ha0_ia32aes_noavx, [FN_AA] = t1ha0_ia32aes_avx, [FN_A2] = t1ha0_ia32aes_avx2,
#endif
#endif
    [FN_T0] = call_t0,
#endif
};
static int host_aes(void) { __builtin_cpu_init(); return __builtin_cpu_supports("aes") != 0; }
static int host_avx(void) { return __builtin_cpu_supports("avx") != 0; }
static int host_avx2(void) { return __builtin_cpu_supports("avx2") != 0; }

int be_has(int fn) {
#ifndef T1HA2_DISABLED
  if (fn == FN_T2X || fn == FN_S || fn == FN_SX) return 1;
#endif
  if (fn == FN_AN && !host_aes()) return 0;
  if (fn == FN_AA && !(host_aes() && host_avx())) return 0;
  if (fn == FN_A2 && !(host_aes() && host_avx2())) return 0;
  return fns[fn] != 0;
}
int be_t0_impl(void) {
#if !defined(T1HA0_DISABLED)
#if T1HA0_RUNTIME_SELECT && T1HA0_AESNI_AVAILABLE
  if (host_aes()) return host_avx() ? (host_avx2() ? FN_A2 : FN_AA) : FN_AN;
#endif
#endif
  if (sizeof(void *) == 8) {
#ifndef T1HA1_DISABLED
    return FN_T1LE;
#elif !defined(T1HA2_DISABLED)
    return FN_T2;
#endif
  }
  return FN_T0LE;
}
uint64_t be_hash(int fn, gptr data, uint64_t len, uint64_t seed, call_info *ci) {
  volatile uint64_t r = 0;
  hash_fn f = fns[fn];
  const void *d = lp(data);
  WIN(data, len, NUL, NUL);
  GUARDED(ci, r = f(d, (size_t)len, seed));
  return r;
}
#ifndef T1HA2_DISABLED
size_t be_ctx_size(void) { return sizeof(t1ha_context_t); }
size_t be_ctx_align(void) { return __alignof__(t1ha_context_t); }
uint64_t be_hashx(gptr hi, gptr data, uint64_t len, uint64_t seed, call_info *ci) {
  volatile uint64_t r = 0;
  WIN(data, len, NUL, hi);
  GUARDED(ci, r = t1ha2_atonce128((uint64_t *)(void *)lp(hi), lp(data), (size_t)len, seed));
  return r;
}
void be_s_init(gptr ctx, uint64_t x, uint64_t y, call_info *ci) { WIN(NUL, 0, ctx, NUL); GUARDED(ci, t1ha2_init((t1ha_context_t *)(void *)lp(ctx), x, y)); }
void be_s_update(gptr ctx, gptr data, uint64_t len, call_info *ci) {
  WIN(data, len, ctx, NUL);
  GUARDED(ci, t1ha2_update((t1ha_context_t *)(void *)lp(ctx), lp(data), (size_t)len));
}
uint64_t be_s_final(gptr ctx, gptr hi, call_info *ci) {
  volatile uint64_t r = 0;
  WIN(NUL, 0, ctx, hi);
  GUARDED(ci, r = t1ha2_final((t1ha_context_t *)(void *)lp(ctx), (uint64_t *)(void *)lp(hi)));
  return r;
}
#else
size_t be_ctx_size(void) { return 32; }
size_t be_ctx_align(void) { return 32; }
uint64_t be_hashx(gptr hi, gptr data, uint64_t len, uint64_t seed, call_info *ci) { (void)hi; (void)data; (void)len; (void)seed; (void)ci; abort(); }
void be_s_init(gptr ctx, uint64_t x, uint64_t y, call_info *ci) { (void)ctx; (void)x; (void)y; (void)ci; abort(); }
void be_s_update(gptr ctx, gptr data, uint64_t len, call_info *ci) { (void)ctx; (void)data; (void)len; (void)ci; abort(); }
uint64_t be_s_final(gptr ctx, gptr hi, call_info *ci) { (void)ctx; (void)hi; (void)ci; abort(); }
#endif
#define SC(f) do { int r_ = f(); if (r_) { snprintf(why, n, #f "() returned %d", r_); return 1; } } while (0)
int be_selfcheck_all_of(char *why, size_t n) {
  SC(t1ha_selfcheck__all_enabled);
#ifndef T1HA2_DISABLED
  SC(t1ha_selfcheck__t1ha2_atonce); SC(t1ha_selfcheck__t1ha2_atonce128); SC(t1ha_selfcheck__t1ha2_stream); SC(t1ha_selfcheck__t1ha2);
#endif
#ifndef T1HA1_DISABLED
  SC(t1ha_selfcheck__t1ha1_le); SC(t1ha_selfcheck__t1ha1_be); SC(t1ha_selfcheck__t1ha1);
#endif
#ifndef T1HA0_DISABLED
  SC(t1ha_selfcheck__t1ha0_32le); SC(t1ha_selfcheck__t1ha0_32be); SC(t1ha_selfcheck__t1ha0);
#if T1HA0_AESNI_AVAILABLE
  if (host_aes()) SC(t1ha_selfcheck__t1ha0_ia32aes_noavx);
  if (host_aes() && host_avx()) SC(t1ha_selfcheck__t1ha0_ia32aes_avx);
  if (host_aes() && host_avx2()) SC(t1ha_selfcheck__t1ha0_ia32aes_avx2);
#endif
#endif
  return 0;
}
#ifdef MONITOR
int be_can_monitor(void) { return 1; }
void be_monitor(int on) { mon_on = on; }
#else
int be_can_monitor(void) { return 0; }
void be_monitor(int on) { (void)on; }
#endif
int be_big_endian(void);
int be_big_endian(void) { return 0; }
