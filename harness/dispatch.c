/* Loads the library with its CPUID and XGETBV instructions replaced by invalid ones, plays generated processors and
 * operating systems to it, and looks which implementation t1ha0() is.
 *   dispatch LIB.so seed=N cases=N [cfg=...] */
#define _GNU_SOURCE
#include "util.h"
#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
uint64_t *dict; size_t dict_n;
typedef struct { uint32_t max, ecx1, ebx7, xcr0, noise; } machine;
static machine M;
typedef struct { volatile int done, cpuids, badx, order; uint64_t v[5], tag[11], want32; int fallback; } shared;
static shared *S;
#ifdef __x86_64__
#define RAX REG_RAX
#define RBX REG_RBX
#define RCX REG_RCX
#define RDX REG_RDX
#define RIP REG_RIP
#else
#define RAX REG_EAX
#define RBX REG_EBX
#define RCX REG_ECX
#define RDX REG_EDX
#define RIP REG_EIP
#endif
static void on_ill(int sig, siginfo_t *si, void *p) {
  ucontext_t *u = p;
  greg_t *g = u->uc_mcontext.gregs;
  const uint8_t *i = (const uint8_t *)g[RIP];
  (void)si;
  if (i[0] == 0x0f && i[1] == 0x0b) { /* was CPUID */
    uint32_t leaf = (uint32_t)g[RAX], sub = (uint32_t)g[RCX], a = 0, b = 0, c = 0, d = 0;
    rng_t r = {M.noise + leaf * 77u + sub};
    S->cpuids++;
    if (leaf == 0) { a = M.max; b = 0x756e6547; c = 0x6c65746e; d = 0x49656e69; }
    else if (leaf >= 0x80000000u) { a = leaf == 0x80000000u ? 0x80000008u : (uint32_t)rnd(&r); b = (uint32_t)rnd(&r); c = (uint32_t)rnd(&r); d = (uint32_t)rnd(&r); }
    else if (leaf > M.max) { a = (uint32_t)rnd(&r); b = (uint32_t)rnd(&r); c = (uint32_t)rnd(&r); d = (uint32_t)rnd(&r); } /* whatever the highest leaf holds */
    else if (leaf == 1) { a = 0x906ea; b = (uint32_t)rnd(&r); c = M.ecx1; d = (uint32_t)rnd(&r) | 0x07000001u; }
    else if (leaf == 7) { if (sub == 0) { a = 0; b = M.ebx7; c = (uint32_t)rnd(&r); d = (uint32_t)rnd(&r); } }
    else { a = (uint32_t)rnd(&r); b = (uint32_t)rnd(&r); c = (uint32_t)rnd(&r); d = (uint32_t)rnd(&r); }
    g[RAX] = a; g[RBX] = b; g[RCX] = c; g[RDX] = d;
    g[RIP] += 2;
    return;
  }
  if (i[0] == 0x0f && i[1] == 0xff && i[2] == 0xd0) { /* was XGETBV */
    if (!(M.ecx1 >> 27 & 1) || M.max < 1) { S->badx = 1; }
    g[RAX] = (uint32_t)g[RCX] == 0 ? M.xcr0 : 0; g[RDX] = 0;
    g[RIP] += 3;
    return;
  }
  signal(sig, SIG_DFL);
}
typedef uint64_t (*fn)(const void *, size_t, uint64_t);
static const char *lib;
static uint8_t data[300];
static size_t len;
static uint64_t seed;
static int order;
static void child(void) {
  struct sigaction sa = {.sa_sigaction = on_ill, .sa_flags = SA_SIGINFO | SA_NODEFER};
  sigaction(SIGILL, &sa, NULL);
  void *h = dlopen(lib, order & 1 ? RTLD_NOW : RTLD_LAZY);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
  fn f[3] = {(fn)dlsym(h, "vp_direct"), (fn)dlsym(h, "vp_resolved"), (fn)dlsym(h, "vp_pointer")};
  fn g32 = (fn)dlsym(h, "vp_32le");
  uint64_t (*tg)(int, const void *, size_t, uint64_t) = (uint64_t (*)(int, const void *, size_t, uint64_t))dlsym(h, "vp_tagged");
  int (*fb)(void) = (int (*)(void))dlsym(h, "vp_fallback");
  for (int i = 0; i < 3; i++) { int j = (i + order) % 3; S->v[j] = f[j](data, len, seed); }
  S->v[3] = f[order % 3](data, len, seed);
  fn t0 = (fn)dlsym(h, "t1ha0"); /* exported only with indirect functions */
  S->v[4] = t0 ? t0(data, len, seed) : S->v[0];
  for (int i = 0; i < 11; i++) S->tag[i] = tg(i, data, len, seed);
  S->want32 = g32(data, len, seed);
  S->fallback = fb();
  S->done = 1;
  _exit(0);
}
static const char *const nm[] = {"t1ha1_le", "t1ha1_be", "t1ha2_atonce", "?", "?", "?", "t1ha0_32le", "?", "ia32aes_noavx", "ia32aes_avx", "ia32aes_avx2", "something else"};
static char why[300];
static int which(uint64_t v) {
  for (int i = 0; i < 11; i++) if (S->tag[i] == v) return i;
  return v == S->want32 ? 6 : 11;
}
/* 0 fine, 1 violation, 2 the selection did not ask the (emulated) processor, 3 cannot run */
static int once(void) {
  memset((void *)S, 0, sizeof *S);
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) child();
  int st;
  waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
  if (!S->done) { snprintf(why, sizeof why, "the process died (status %x) while t1ha0 was being dispatched", st); return S->cpuids ? 1 : 1; }
  if (!S->cpuids) return 2;
  if (S->badx) { snprintf(why, sizeof why, "XGETBV executed although the OS has not enabled it (#UD on a real processor)"); return 1; }
  int aes = M.max >= 1 && M.ecx1 >> 25 & 1, os = M.max >= 1 && (M.ecx1 >> 27 & 1) && (M.xcr0 & 6) == 6;
  int avx = os && M.ecx1 >> 28 & 1, avx2 = avx && M.max >= 7 && M.ebx7 >> 5 & 1;
  int want = aes ? avx ? avx2 ? 10 : 9 : 8 : S->fallback;
  static const char *const how[] = {"t1ha0() called directly", "t1ha0_resolve()", "t1ha0 through a pointer", "a second call", "the exported t1ha0"};
  for (int i = 0; i < 5; i++) {
    int got = which(S->v[i]);
    if (got != want) {
      snprintf(why, sizeof why, "%s is %s, expected %s (AES %d, AVX reported %d, OSXSAVE %d, XCR0 %x, AVX2 reported %d, highest leaf %u)", how[i], nm[got], nm[want], aes, M.ecx1 >> 28 & 1, M.ecx1 >> 27 & 1, M.xcr0,
               M.ebx7 >> 5 & 1, M.max);
      return 1;
    }
  }
  return 0;
}
int main(int argc, char **argv) {
  uint64_t sd = 1; long cases = 100; const char *cfg = NULL;
  lib = argv[1];
  for (int i = 2; i < argc; i++) {
    char *v = strchr(argv[i], '='); if (!v) continue;
    *v++ = 0;
    if (!strcmp(argv[i], "seed")) sd = strtoull(v, 0, 0);
    else if (!strcmp(argv[i], "cases")) cases = atol(v);
    else if (!strcmp(argv[i], "cfg")) cfg = v;
  }
  S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  rng_t r = {mix64_(sd)};
  unsigned long long ls; unsigned ll, oo;
  if (cfg) {
    if (sscanf(cfg, "%x,%x,%x,%x,%x,%u,%llx,%u", &M.max, &M.ecx1, &M.ebx7, &M.xcr0, &M.noise, &ll, &ls, &oo) != 8) return 3;
    len = ll > sizeof data ? sizeof data : ll; seed = ls; order = (int)oo;
    rng_t q = {ls}; rnd_fill(&q, data, sizeof data);
    int x = once();
    printf("%s %s\n", x == 1 ? "FAIL" : "OK", x == 1 ? why : "");
    return x;
  }
  static const uint32_t leaves[] = {0, 1, 2, 6, 7, 13, 22, 5}, x0[] = {0, 1, 2, 3, 4, 5, 6, 7};
  long n = 0, blind = 0, nt = 0;
  long grid = 8 * 8 * 16;
  for (long i = 0; i < grid + cases; i++) {
    long k = i;
    M.noise = (uint32_t)rnd(&r);
    int clean = chance(&r, 3);
    M.ecx1 = clean ? 0 : (uint32_t)rnd(&r); M.ebx7 = clean ? 0 : (uint32_t)rnd(&r);
    M.xcr0 = chance(&r, 2) ? 0 : (uint32_t)rnd(&r);
    if (k >= grid) { k = (long)below(&r, (uint64_t)grid); }
    unsigned f = (unsigned)(k & 15);
    M.ecx1 = (M.ecx1 & ~(1u << 25 | 1u << 27 | 1u << 28)) | (f & 1) << 25 | (f >> 1 & 1) << 27 | (f >> 2 & 1) << 28;
    M.ebx7 = (M.ebx7 & ~32u) | (f >> 3 & 1) << 5;
    if (clean && chance(&r, 2)) M.ebx7 = ~(uint32_t)32 | (f >> 3 & 1) << 5;
    M.max = leaves[k >> 4 & 7];
    M.xcr0 = (M.xcr0 & ~7u) | x0[k >> 7 & 7];
    if (i >= grid && chance(&r, 4)) M.max = (uint32_t)below(&r, 40);
    len = (size_t)below(&r, sizeof data); if (len < 4) len += 17; seed = rnd(&r); order = (int)below(&r, 12);
    rng_t q = {seed}; rnd_fill(&q, data, sizeof data);
    int x = once();
    if (x == 3) return 3;
    if (x == 2) { blind++; if (blind > 20) break; continue; }
    n++;
    nt += M.ecx1 >> 25 & 1;
    if (x == 1) {
      printf("FAIL cfg=%x,%x,%x,%x,%x,%u,%llx,%u %s\n", M.max, M.ecx1, M.ebx7, M.xcr0, M.noise, (unsigned)len, (unsigned long long)seed, (unsigned)order, why);
      machine m0 = M; /* shrink: fewest feature bits, no noise */
#define T(stmt) do { machine t = M; stmt; if (once() != 1) M = t; } while (0)
      for (int b = 0; b < 32; b++) { T(M.ecx1 &= ~(1u << b)); T(M.ebx7 &= ~(1u << b)); T(M.xcr0 &= ~(1u << b)); }
      T(M.noise = 0);
      (void)m0;
      once();
      printf("FAIL cfg=%x,%x,%x,%x,%x,%u,%llx,%u %s\n", M.max, M.ecx1, M.ebx7, M.xcr0, M.noise, (unsigned)len, (unsigned long long)seed, (unsigned)order, why);
      return 1;
    }
  }
  printf("DISPSTATS %ld %ld %ld\n", n, nt, blind);
  return 0;
}
