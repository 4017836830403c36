/* Injects faults into the hash functions and looks whether the self-checks notice exactly them.
 *   selfck LIB.so seed=N cases=N [replay=machine,seed,from,to] */
#define _GNU_SOURCE
#include "cpuplay.h"
#include "ref.h"
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
uint64_t *dict; size_t dict_n;
enum { K_NONE, K_ONE, K_SET, K_CONST, K_AS, K_LEN, K_SEED, K_SHIFT, K_ALL, K_MASKED };
typedef struct { int kind; unsigned k, arg; uint64_t x; uint32_t set[3]; } fault_t;
typedef struct { const char *name; int (*f)(void); int must, may; } check_t;
typedef struct { volatile int done, op; int bad, wrongs, ops, nt; char why[400]; unsigned char seen[FN_COUNT][81]; } shared;
static shared *S;
static const char *lib;
static void *h;
static void *sym(const char *n) { void *p = dlsym(h, n); if (!p) { fprintf(stderr, "%s\n", dlerror()); _exit(3); } return p; }
static uint64_t mask_word(rng_t *r) {
  switch (below(r, 5)) { case 0: return 1ull << below(r, 64); case 1: return 1ull << 63; case 2: return rnd(r) << 32; case 3: return (uint32_t)rnd(r) | 1; default: return rnd(r) | 1; }
}
static const char *const kn[] = {"none", "one vector", "several vectors", "constant", "behaves as another function", "loses part of the length", "loses part of the seed", "values shifted", "all results changed", "result bits cleared"};
/* runs operations 0..to of history `seed`; only those >= from are carried out */
static void child(uint64_t seed, int from, int to, int enumerate) {
  cp_install();
  h = dlopen(lib, seed & 1 ? RTLD_NOW : RTLD_LAZY);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
  fault_t *F = sym("sc_fault");
  const check_t *C = sym("sc_checks");
  unsigned long *called = sym("sc_called");
  int *trap = sym("sc_trap"), *trapped = sym("sc_trapped"), *dirty = sym("sc_dirty");
  unsigned char (*seen)[81] = sym("sc_seen");
  int (*wrong)(int) = (int (*)(int))sym("sc_wrong");
  int present = ((int (*)(void))sym("sc_present"))(), hasaes = ((int (*)(void))sym("sc_has_aes"))();
  int nc = 0;
  while (C[nc].name) nc++;
  int aes = cp_aes(), avx = aes && cp_avx(), avx2 = aes && cp_avx2();
  if (hasaes) { /* does the library ask the processor through its own CPUID? */
    int before = cp_count;
    for (int i = 0; i < nc; i++) if (!strcmp(C[i].name, "t1ha0")) { int rc = C[i].f(); (void)rc; }
    if (cp_count == before && !before) { __builtin_cpu_init(); aes = __builtin_cpu_supports("aes") != 0; avx = aes && __builtin_cpu_supports("avx"); avx2 = avx && __builtin_cpu_supports("avx2"); }
  }
  int usable = (aes ? 1 << FN_AN : 0) | (avx ? 1 << FN_AA : 0) | (avx2 ? 1 << FN_A2 : 0);
  int aesmask = 1 << FN_AN | 1 << FN_AA | 1 << FN_A2;
  S->op = -1;
  memset(F, 0, sizeof *F * FN_COUNT);
  for (int op = 0; op <= to; op++) {
    rng_t r = {mix64_(seed * 4096 + (uint64_t)op)};
    const check_t *c;
    if (enumerate) { /* every check x every function x every vector, one at a time */
      long e = (long)(seed >> 8) + op;
      c = &C[e % nc];
      e /= nc;
      memset(F, 0, sizeof *F * FN_COUNT);
      int fn = (int)(e % 11); e /= 11;
      F[fn] = (fault_t){.kind = K_ONE, .k = (unsigned)(e % 81), .x = mask_word(&r)};
    } else {
      c = &C[below(&r, (uint64_t)nc)];
      if (chance(&r, 3)) { for (int q = 0; q < nc; q++) if (!strcmp(C[q].name, chance(&r, 2) ? "all_enabled" : "t1ha0")) c = &C[q]; }
      if (!chance(&r, 6)) memset(F, 0, sizeof *F * FN_COUNT);
      int n = (int)below(&r, 4);
      if (n == 3) n = (int)below(&r, 12);
      while (n-- > 0) {
        fault_t *f = &F[below(&r, 11)];
        memset(f, 0, sizeof *f);
        f->kind = (int)below(&r, 10);
        if (chance(&r, 3)) f->kind = K_ONE;
        f->k = (unsigned)below(&r, 81); f->x = mask_word(&r);
        f->arg = f->kind == K_AS ? (unsigned)below(&r, 11) : f->kind == K_SHIFT ? 1 + (unsigned)below(&r, 80) : (unsigned)below(&r, 4);
        if (f->kind == K_SET) for (int i = 0; i < 3; i++) f->set[i] = chance(&r, 2) ? 0 : (uint32_t)(rnd(&r) & (chance(&r, 2) ? rnd(&r) : ~0ull));
        if (f->kind == K_CONST && chance(&r, 3)) f->x = chance(&r, 2) ? 0 : ~0ull;
      }
    }
    if (op < from) continue;
    int must = c->must & (1 << 30) ? (c->must & ~(1 << 30)) | (hasaes ? usable : 0) : c->must;
    int w = 0;
    for (int fn = 0; fn < 11; fn++) if (present >> fn & 1 && wrong(fn)) w |= 1 << fn;
    *trap = (c->must >> 30 & 1) ? aesmask & ~usable : 0; *trapped = 0; *dirty = 0;
    (void)called;
    S->op = op;
    int rc = c->f();
    S->ops++;
    S->nt += w != 0;
    char fb[200] = "";
    for (int fn = 0; fn < 11; fn++) if (F[fn].kind && w >> fn & 1 && strlen(fb) < 120) snprintf(fb + strlen(fb), 80, "; %s: %s%s%.0d", fn_name[fn], kn[F[fn].kind], "", 0), F[fn].kind == K_ONE ? (void)snprintf(fb + strlen(fb), 40, " (number %u, xor %llx)", F[fn].k, (unsigned long long)F[fn].x) : (void)0;
#define BAD(...) do { snprintf(S->why, sizeof S->why, __VA_ARGS__); S->bad = 1; _exit(0); } while (0)
    if (*trapped) BAD("t1ha_selfcheck__%s() runs an AES variant the processor cannot execute", c->name);
    if (rc != 0 && rc != -1) BAD("t1ha_selfcheck__%s() returned %d%s", c->name, rc, fb);
    if (rc == 0 && (w & must)) BAD("t1ha_selfcheck__%s() returned 0 although a covered function is wrong%s", c->name, fb);
    if (rc != 0 && !(w & (must | c->may))) BAD("t1ha_selfcheck__%s() returned -1 although everything it covers is right%s", c->name, fb);
    if (*dirty) BAD("t1ha_selfcheck__%s() used a stream context it had not initialised", c->name);
  }
  (void)seen;
  memcpy(S->seen, seen, sizeof S->seen);
  S->done = 1;
  _exit(0);
}
static int once(uint64_t seed, int from, int to, int en) {
  memset(S, 0, sizeof *S);
  fflush(stdout);
  pid_t p = fork();
  if (!p) { alarm(100); child(seed, from, to, en); }
  int st;
  waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
  if (S->bad) return 1;
  if (!S->done) { snprintf(S->why, sizeof S->why, "a self-check crashed (status %x, operation %d)", st, S->op); return 1; }
  return 0;
}
int main(int argc, char **argv) {
  uint64_t sd = 1; long cases = 100; const char *rp = NULL;
  lib = argv[1];
  for (int i = 2; i < argc; i++) {
    char *v = strchr(argv[i], '='); if (!v) continue;
    *v++ = 0;
    if (!strcmp(argv[i], "seed")) sd = strtoull(v, 0, 0); else if (!strcmp(argv[i], "cases")) cases = atol(v); else if (!strcmp(argv[i], "replay")) rp = v;
  }
  if (ref_selftest()) return 3;
  S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (rp) {
    unsigned long long s; int a, b, e;
    if (sscanf(rp, "%x,%x,%x,%x,%x,%llx,%d,%d,%d", &M.max, &M.ecx1, &M.ebx7, &M.xcr0, &M.noise, &s, &a, &b, &e) != 9) return 3;
    int x = once(s, a, b, e);
    printf("%s %s\n", x == 1 ? "FAIL" : "OK", S->why);
    return x;
  }
  rng_t r = {mix64_(sd)};
  long ops = 0, nt = 0, enumsteps = 14L * 11 * 81, machines = 0;
  for (long i = 0; ops < cases || i * 512 < enumsteps; i++) {
    int en = i * 512 < enumsteps;
    M = (machine){.noise = (uint32_t)rnd(&r)};
    static const uint32_t leaves[] = {0, 1, 7, 13, 22};
    int full = en || chance(&r, 2);
    M.max = full ? 13 : leaves[below(&r, 5)];
    M.ecx1 = (uint32_t)rnd(&r); M.ebx7 = (uint32_t)rnd(&r); M.xcr0 = (uint32_t)rnd(&r);
    if (full) { M.ecx1 |= 1u << 25 | 1u << 27 | 1u << 28; M.ebx7 |= 32; M.xcr0 |= 7; }
    uint64_t hs = en ? (uint64_t)(i * 512) << 8 | 1 : rnd(&r) >> 8;
    int last = en ? 511 : (int)below(&r, 60);
    int x = once(hs, 0, last, en);
    if (x == 3) return 3;
    ops += S->ops; nt += S->nt; machines++;
    if (x == 1) {
      int op = S->op, from = 0;
      char why[400];
      snprintf(why, sizeof why, "%s", S->why);
      if (op >= 0) {
        if (once(hs, op, op, en) == 1) { from = op; snprintf(why, sizeof why, "%s", S->why); }
        machine t = M;
#define T(stmt) do { machine o = M; stmt; if (once(hs, from, op, en) != 1) M = o; } while (0)
        for (int b = 0; b < 32; b++) { T(M.ecx1 &= ~(1u << b)); T(M.ebx7 &= ~(1u << b)); T(M.xcr0 &= ~(1u << b)); }
        T(M.noise = 0);
        (void)t;
      } else op = last;
      printf("FAIL cfg=%x,%x,%x,%x,%x,%llx,%d,%d,%d %s\n", M.max, M.ecx1, M.ebx7, M.xcr0, M.noise, (unsigned long long)hs, from, op, en, why);
      return 1;
    }
  }
  printf("SELFSTATS %ld %ld %ld\n", ops, nt, machines);
  return 0;
}
