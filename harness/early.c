/* Calls t1ha0() from every phase of a process: before and in constructors, in main, at exit.
 *   early seed=N cases=N [only=i]  prints FAIL i=.. when a phase gives another value than main */
#include "ref.h"
#include "util.h"
#include "t1ha.h"
#include <stdlib.h>
#include <string.h>
uint64_t *dict; size_t dict_n;
#define MAXC 400
static int ncases; static uint64_t the_seed;
static uint64_t got[5][MAXC];
static unsigned ran;
static void params(int argc, char **argv) {
  ncases = 64; the_seed = 1;
  for (int i = 1; i < argc; i++) { if (!strncmp(argv[i], "seed=", 5)) the_seed = strtoull(argv[i] + 5, 0, 0); if (!strncmp(argv[i], "cases=", 6)) ncases = atoi(argv[i] + 6); }
  if (ncases > MAXC) ncases = MAXC;
}
static uint8_t data[600]; static size_t len; static uint64_t sd;
static void gen(int i) {
  rng_t r = {mix64_(the_seed * 1000 + (uint64_t)i)};
  len = (size_t)below(&r, chance(&r, 2) ? 70 : sizeof data); sd = rnd(&r);
  rnd_fill(&r, data, sizeof data);
}
static void phase(int p) {
  ran |= 1u << p;
  for (int i = 0; i < ncases; i++) { gen(i); got[p][i] = (p + i) & 1 ? t1ha0(data, len, sd) :
#if T1HA0_RUNTIME_SELECT
    (i & 2) ? t1ha0_resolve()(data, len, sd) :
#endif
    t1ha0(data, len, sd); }
}
static void pre(int argc, char **argv, char **envp) { (void)envp; params(argc, argv); phase(0); }
__attribute__((section(".preinit_array"), used)) static void (*const pre_p)(int, char **, char **) = pre;
__attribute__((constructor(101))) static void c1(int argc, char **argv, char **envp) { (void)envp; params(argc, argv); phase(1); }
__attribute__((constructor)) static void c2(void) { phase(2); }
static int failures;
static const char *const pn[] = {"before all constructors", "in a first constructor", "in a constructor", "in main", "at exit"};
static void compare(int p) {
  for (int i = 0; i < ncases && !failures; i++)
    if (got[p][i] != got[3][i]) { gen(i); printf("FAIL i=%d t1ha0 called %s gives %016llx, in main %016llx (length %zu)\n", i, pn[p], (unsigned long long)got[p][i], (unsigned long long)got[3][i], len); failures++; }
}
__attribute__((destructor)) static void fini(void) { phase(4); compare(4); fflush(stdout); if (failures) _Exit(1); }
static int impl(void) {
  __builtin_cpu_init();
#if T1HA0_RUNTIME_SELECT && T1HA0_AESNI_AVAILABLE
  if (__builtin_cpu_supports("aes")) return __builtin_cpu_supports("avx") ? __builtin_cpu_supports("avx2") ? FN_A2 : FN_AA : FN_AN;
#endif
  return sizeof(void *) == 8 ? FN_T1LE : FN_T0LE;
}
int main(int argc, char **argv) {
  params(argc, argv);
  phase(3);
  for (int i = 0; i < ncases && !failures; i++) {
    gen(i);
    uint64_t hi, w = ref_call(impl(), impl(), data, len, sd, 0, &hi, NULL);
    if (got[3][i] != w) { printf("FAIL i=%d t1ha0 is not %s (length %zu: %016llx instead of %016llx)\n", i, fn_name[impl()], len, (unsigned long long)got[3][i], (unsigned long long)w); failures++; }
  }
  for (int p = 0; p < 3; p++) if (ran >> p & 1) compare(p);
  printf("EARLYSTATS %d %x\n", ncases, ran);
  return failures != 0;
}
