/* Interrupts hash calls at generated instructions (EFLAGS.TF) with other hash calls, runs them in threads,
 * and lists the instructions a function executes.
 *   preempt step seed=N cases=N | thread seed=N cases=N threads=N | first seed=N cases=N | isa seed=N cases=N
 *   prints FAIL case=... and returns 1 */
#define _GNU_SOURCE
#include "ref.h"
#include "util.h"
#include "t1ha.h"
#include <pthread.h>
#include <signal.h>
#include <stddef.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
uint64_t *dict; size_t dict_n;
#ifdef __x86_64__
#define IP REG_RIP
#else
#define IP REG_EIP
#endif
enum { OP_HASH, OP_STREAM, OP_UPDATE, OP_FINAL, OP_RESOLVE, OP_SELF };
#define MAXLEN 20032
typedef struct {
  int op, fn;
  size_t len, off, cut[4];
  uint64_t seed, seed2;
  uint8_t *data; /* MAXLEN + 64 bytes */
#ifndef T1HA2_DISABLED
  t1ha_context_t ctx, ctx0;
#endif
  int self;
  uint64_t want, hi;
} call_t;
typedef uint64_t (*hash_fn)(const void *, size_t, uint64_t);
static uint64_t t0(const void *d, size_t n, uint64_t s) { return t1ha0(d, n, s); }
static hash_fn fns[FN_COUNT];
static void table(void) {
#ifndef T1HA1_DISABLED
  fns[FN_T1LE] = t1ha1_le; fns[FN_T1BE] = t1ha1_be;
#endif
#ifndef T1HA2_DISABLED
  fns[FN_T2] = t1ha2_atonce;
#endif
  fns[FN_T0LE] = t1ha0_32le; fns[FN_T0BE] = t1ha0_32be; fns[FN_T0] = t0;
#if T1HA0_AESNI_AVAILABLE
  __builtin_cpu_init();
  if (__builtin_cpu_supports("aes")) { fns[FN_AN] = t1ha0_ia32aes_noavx;
    if (__builtin_cpu_supports("avx")) { fns[FN_AA] = t1ha0_ia32aes_avx; if (__builtin_cpu_supports("avx2")) fns[FN_A2] = t1ha0_ia32aes_avx2; } }
#endif
}
typedef int (*self_fn)(void);
static const self_fn selfs[] = {t1ha_selfcheck__t1ha0_32le, t1ha_selfcheck__t1ha0_32be,
#ifndef T1HA1_DISABLED
  t1ha_selfcheck__t1ha1_le, t1ha_selfcheck__t1ha1_be,
#endif
#ifndef T1HA2_DISABLED
  t1ha_selfcheck__t1ha2_atonce, t1ha_selfcheck__t1ha2_atonce128, t1ha_selfcheck__t1ha2_stream,
#endif
#if T1HA0_AESNI_AVAILABLE
  t1ha_selfcheck__t1ha0,
#endif
};
#define NSELF (sizeof selfs / sizeof *selfs)
static __attribute__((noinline)) uint64_t go(call_t *c) {
  const uint8_t *d = c->data + c->off;
  switch (c->op) {
  case OP_HASH:
#ifndef T1HA2_DISABLED
    if (c->fn == FN_T2X) { uint64_t r = t1ha2_atonce128(&c->hi, d, c->len, c->seed); return r ^ c->hi * 3; }
#endif
    return fns[c->fn](d, c->len, c->seed);
#ifndef T1HA2_DISABLED
  case OP_STREAM: {
    t1ha_context_t *x = &c->ctx;
    size_t p = 0;
    t1ha2_init(x, c->seed, c->seed2);
    for (int i = 0; i < 4; i++) { t1ha2_update(x, d + p, c->cut[i]); p += c->cut[i]; }
    t1ha2_update(x, d + p, c->len - p);
    uint64_t r = t1ha2_final(x, c->fn == FN_SX ? &c->hi : 0);
    return c->fn == FN_SX ? r ^ c->hi * 3 : r;
  }
  case OP_UPDATE: case OP_FINAL: {
    c->ctx = c->ctx0;
    if (c->op == OP_UPDATE) t1ha2_update(&c->ctx, d, c->len);
    else { uint64_t r = t1ha2_final(&c->ctx, c->fn == FN_SX ? &c->hi : 0); return c->fn == FN_SX ? r ^ c->hi * 3 : r; }
    return 0;
  }
#endif
#if T1HA0_RUNTIME_SELECT
  case OP_RESOLVE: return (uint64_t)(uintptr_t)t1ha0_resolve();
#endif
  case OP_SELF: return (uint64_t)(int64_t)selfs[c->self]();
  }
  return 0;
}
/* what is left of an update is looked at through the digest, outside the interrupted part */
static uint64_t after(call_t *c, uint64_t r) {
#ifndef T1HA2_DISABLED
  if (c->op == OP_UPDATE) { t1ha_context_t k = c->ctx; uint64_t h; uint64_t v = t1ha2_final(&k, &h); return v ^ h * 3; }
#endif
  (void)c;
  return r;
}
static int want_long;
static size_t gen_len(rng_t *r) {
  if (want_long || chance(r, 60)) return 640 + below(r, chance(r, 3) ? 2000 : MAXLEN - 640);
  switch (below(r, 6)) { case 0: return below(r, 9); case 1: return below(r, 34); case 2: return below(r, 640); case 3: return 128 + below(r, 70); default: return below(r, 150); }
}
static void gen(call_t *c, rng_t *r, int fam, int light) {
  uint8_t *keep = c->data;
  memset(c, 0, sizeof *c);
  c->data = keep;
  c->off = below(r, 64);
  c->len = gen_len(r);
  rnd_fill(r, keep, c->len + 128);
  c->seed = chance(r, 3) ? pool(r) : rnd(r); c->seed2 = rnd(r);
  int k = fam >= 0 ? fam : (int)below(r, 18);
  c->op = OP_HASH; c->fn = k;
  if (k == 12 || k == 4 || k == 5) { c->op = OP_STREAM; c->fn = k == 5 || chance(r, 2) ? FN_SX : FN_S; }
  if (k == 13) c->op = OP_UPDATE;
  if (k == 14) { c->op = OP_FINAL; c->fn = chance(r, 2) ? FN_SX : FN_S; }
  if (k == 15) c->op = OP_RESOLVE;
  if (k == 16) c->op = OP_SELF;
  if (k >= 17) { c->op = OP_HASH; c->fn = FN_T0; }
#if !T1HA0_RUNTIME_SELECT
  if (c->op == OP_RESOLVE) { c->op = OP_HASH; c->fn = FN_T0; }
#endif
#ifdef T1HA2_DISABLED
  if (c->op == OP_STREAM || c->op == OP_UPDATE || c->op == OP_FINAL || c->fn == FN_T2X) { c->op = OP_HASH; c->fn = FN_T0LE; }
#endif
  if (c->op == OP_SELF && light) { c->op = OP_HASH; c->fn = FN_T0; }
  if (c->op == OP_SELF) c->self = (int)below(r, NSELF);
  if (c->op == OP_HASH && c->fn != FN_T2X && !fns[c->fn]) c->fn = FN_T0LE;
#ifndef T1HA2_DISABLED
  if (c->op == OP_STREAM) { size_t left = c->len; for (int i = 0; i < 4; i++) { c->cut[i] = below(r, chance(r, 2) ? left + 1 : left < 33 ? left + 1 : 33); left -= c->cut[i]; } }
  if (c->op == OP_UPDATE || c->op == OP_FINAL) {
    uint8_t pre[100]; size_t n = below(r, 100);
    rnd_fill(r, pre, n);
    t1ha2_init(&c->ctx0, c->seed, c->seed2);
    t1ha2_update(&c->ctx0, pre, n);
  }
#endif
}
static const char *opname(const call_t *c) {
  static const char *const n[] = {"", "stream ", "t1ha2_update", "t1ha2_final ", "t1ha0_resolve", "selfcheck"};
  static char b[4][64]; static int t;
  char *o = b[t++ & 3];
  snprintf(o, 64, "%s%s", n[c->op], c->op <= OP_STREAM || c->op == OP_FINAL ? fn_name[c->fn] : "");
  return o;
}
/*-------------------------------------------- what must not be entered twice */
static volatile int busy, b_reenter, stepping;
/* the allocator is not safe to enter from a signal handler that interrupts it (linked with --wrap) */
#define ENTER() const int st_ = stepping; if (st_) { if (busy) b_reenter = 1; busy++; }
#define LEAVE() if (st_) busy--
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void **, size_t, size_t);
void *__wrap_malloc(size_t n) { ENTER(); void *p = __real_malloc(n); LEAVE(); return p; }
void *__wrap_calloc(size_t a, size_t n) { ENTER(); void *p = __real_calloc(a, n); LEAVE(); return p; }
void *__wrap_realloc(void *o, size_t n) { ENTER(); void *p = __real_realloc(o, n); LEAVE(); return p; }
void *__wrap_aligned_alloc(size_t a, size_t n) { ENTER(); void *p = __real_aligned_alloc(a, n); LEAVE(); return p; }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { ENTER(); int r = __real_posix_memalign(p, a, n); LEAVE(); return r; }
void __wrap_free(void *p) { ENTER(); __real_free(p); LEAVE(); }
/*--------------------------------------------------------------- single steps */
static volatile int b_bad, phase_;
static volatile long step_no, run_at, run_every;
static call_t *volatile B_;
static uintptr_t *visited; static size_t nvis; static int record;
static uint64_t b_got;
static int window; /* 0: never inside the compiler's EFLAGS.ID test, 2: only there */
static void on_trap(int sig, siginfo_t *si, void *p) {
  ucontext_t *u = p;
  (void)sig; (void)si;
  if (!stepping) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100L; return; }
  step_no++;
  if (record) {
    uintptr_t ip = (uintptr_t)u->uc_mcontext.gregs[IP], h = (ip * 0x9e3779b1u >> 7) & 65535;
    while (visited[h] && visited[h] != ip) h = (h + 1) & 65535;
    if (!visited[h] && nvis < 60000) { visited[h] = ip; nvis++; }
  }
  const uint8_t *ip_ = (const uint8_t *)u->uc_mcontext.gregs[IP];
  int id_window = sizeof(void *) == 4 && ip_[0] == 0x9c && ip_[-1] == 0x9d; /* popf; HERE; pushf: see known-findings.txt */
  if (id_window ? !window : window == 2) return;
  if (B_ && (run_every ? (step_no + phase_) % run_every == 0 : step_no == run_at)) {
    b_reenter = 0;
    uint64_t r = after(B_, go(B_));
    if (r != B_->want && !b_bad) { b_bad = 1; b_got = r; run_at = step_no; }
    else if (b_reenter && !b_bad) { b_bad = 2; run_at = step_no; }
  }
}
static volatile long beat; static long beat_seen, still; static volatile long now_case, beat_threads;
static void on_alarm(int s) {
  (void)s;
  long b = beat + step_no + beat_threads;
  if (b != beat_seen) { beat_seen = b; still = 0; }
  else if (++still == 3) {
    char m[200]; int n = snprintf(m, sizeof m, "FAIL case=%ld at=%ld no progress for 30 seconds: the interrupting call waits for the call it interrupts\n", now_case, step_no);
    if (write(1, m, (size_t)n) != n) _exit(1);
    _exit(1);
  }
  alarm(10);
}
static void watchdog(void) { struct sigaction sa = {.sa_handler = on_alarm, .sa_flags = SA_NODEFER | SA_RESTART}; sigaction(SIGALRM, &sa, NULL); alarm(10); }
static uint64_t stepped(call_t *a) {
  uint64_t r;
  step_no = 0; b_bad = 0;
  stepping = 1;
#ifdef __x86_64__
  __asm__ volatile("lea -256(%%rsp),%%rsp; pushfq; orl $0x100,(%%rsp); popfq; lea 256(%%rsp),%%rsp" ::: "cc", "memory");
#else
  __asm__ volatile("pushfl; orl $0x100,(%%esp); popfl" ::: "cc", "memory");
#endif
  r = go(a);
  stepping = 0; /* the next trap switches the flag off */
#ifdef __x86_64__
  __asm__ volatile("lea -256(%%rsp),%%rsp; pushfq; andl $~0x100,(%%rsp); popfq; lea 256(%%rsp),%%rsp" ::: "cc", "memory");
#else
  __asm__ volatile("pushfl; andl $~0x100,(%%esp); popfl" ::: "cc", "memory");
#endif
  return r;
}
static call_t *new_call(void) {
  call_t *c = aligned_alloc(64, (sizeof(call_t) + 63) & ~(size_t)63);
  memset(c, 0, sizeof *c);
  c->data = aligned_alloc(64, MAXLEN + 128);
  return c;
}
static int one_step(uint64_t cs, call_t *a, call_t *b, long *steps, int verbose, long only) {
  rng_t r = {mix64_(cs)};
  int same = chance(&r, 2);
  gen(a, &r, -1, 1);
  int fam = -1;
  if (same) fam = a->op == OP_HASH ? a->fn : a->op == OP_STREAM ? 12 : a->op == OP_UPDATE ? (chance(&r, 2) ? 13 : 12) : a->op == OP_FINAL ? 14 : 15;
  want_long = a->len > 640 && chance(&r, 2);
  gen(b, &r, fam, 0);
  want_long = 0;
  a->want = after(a, go(a));
  b->want = after(b, go(b));
  B_ = b;
  phase_ = (int)below(&r, 1000);
  run_every = b->op == OP_SELF ? 97 : chance(&r, 3) ? 1 + (long)below(&r, 20) : 1; run_at = 0;
  if (a->len + b->len > 2000) run_every = 1 + (long)below(&r, 1 + (a->len + b->len) / 40);
  if (only >= 0) { run_every = 0; run_at = only; }
  uint64_t got = after(a, stepped(a));
  *steps += step_no;
  B_ = 0;
  if (b_bad || got != a->want) {
    if (verbose && b_bad == 2) printf("%s (length %zu) enters the allocator while it interrupts %s (length %zu) inside the allocator", opname(b), b->len, opname(a), a->len);
    else if (verbose) printf("%s (length %zu, seed %llx) gives %016llx instead of %016llx when %s (length %zu) interrupts %s (length %zu)%s\n", opname(b_bad ? b : a), b_bad ? b->len : a->len,
                        (unsigned long long)(b_bad ? b->seed : a->seed), (unsigned long long)(b_bad ? b_got : got), (unsigned long long)(b_bad ? b->want : a->want), opname(b), b->len, opname(a), a->len,
                        only >= 0 ? "" : " (at several instructions)");
    return 1;
  }
  return 0;
}
/*------------------------------------------------------------------- threads */
typedef struct { uint64_t seed; long cases; int t; uint8_t *shared; int bad; char why[300]; } thr;
static pthread_barrier_t bar;
static void *thread_main(void *p) {
  thr *t = p;
  rng_t r = {mix64_(t->seed)};
  enum { N = 24 };
  static call_t *c_[64][N];
  call_t **c = c_[t->t];
  for (int i = 0; i < N; i++) {
    c[i] = new_call();
    gen(c[i], &r, -1, 0);
    if (chance(&r, 2) && c[i]->op <= OP_STREAM) { free(c[i]->data); c[i]->data = t->shared; } /* the same bytes in all threads */
  }
  if (t->t == 0 || 1) for (int i = 0; i < N; i++) c[i]->want = 0;
  for (int i = 0; i < N; i++) {
    call_t *x = c[i];
    uint64_t hi = 0;
    const uint8_t *d = x->data + x->off;
    if (x->op == OP_HASH && x->fn != FN_T0) { x->want = ref_call(x->fn, 0, d, x->len, x->seed, 0, &hi, 0); if (x->fn == FN_T2X) x->want ^= hi * 3; }
    else if (x->op == OP_STREAM) { x->want = ref_call(x->fn, 0, d, x->len, x->seed, x->seed2, &hi, 0); if (x->fn == FN_SX) x->want ^= hi * 3; }
    else x->want = after(x, go(x));
  }
  pthread_barrier_wait(&bar);
  for (long k = 0; k < t->cases && !t->bad; k++) {
    call_t *x = c[below(&r, N)];
    if (x->op == OP_SELF && !chance(&r, 20)) continue;
    uint64_t g = after(x, go(x));
    if (g != x->want) { t->bad = 1; snprintf(t->why, sizeof t->why, "%s (length %zu, seed %llx) gives %016llx instead of %016llx while other threads hash", opname(x), x->len, (unsigned long long)x->seed, (unsigned long long)g, (unsigned long long)x->want); }
  }
  return 0;
}
/*------------------------------------------- interrupting the very first call */
static int impl(void) {
  __builtin_cpu_init();
#if T1HA0_RUNTIME_SELECT && T1HA0_AESNI_AVAILABLE
  if (__builtin_cpu_supports("aes")) return __builtin_cpu_supports("avx") ? __builtin_cpu_supports("avx2") ? FN_A2 : FN_AA : FN_AN;
#endif
  return sizeof(void *) == 8 ? FN_T1LE : FN_T0LE;
}
static int is_first;
static uint64_t the_seed = 1; static long ncases = 100; static long rp_case = -1, rp_step = -1;
static int nthreads = 8;
static void params(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    if (!strncmp(argv[i], "seed=", 5)) the_seed = strtoull(argv[i] + 5, 0, 0);
    if (!strncmp(argv[i], "cases=", 6)) ncases = atol(argv[i] + 6);
    if (!strncmp(argv[i], "threads=", 8)) nthreads = atoi(argv[i] + 8);
    if (!strncmp(argv[i], "window=", 7)) window = atoi(argv[i] + 7);
    if (!strncmp(argv[i], "case=", 5)) rp_case = atol(argv[i] + 5);
    if (!strncmp(argv[i], "at=", 3)) rp_step = atol(argv[i] + 3);
  }
}
typedef struct { volatile long steps; volatile int bad, done; char why[300]; } fshared;
static void sig_install(void) {
  struct sigaction sa = {.sa_sigaction = on_trap, .sa_flags = SA_SIGINFO | SA_NODEFER};
  sigaction(SIGTRAP, &sa, NULL);
}
static int first_one(fshared *S, call_t *a, call_t *b, uint64_t cs, long at) {
  S->steps = 0; S->bad = S->done = 0;
  pid_t p = fork();
  if (!p) {
    sig_install();
    alarm(30);
    B_ = b; run_every = 0; run_at = at;
    uint64_t g = stepped(a);
    S->steps = step_no;
    B_ = 0;
    uint64_t g2 = go(a);
    int bad = b_bad || g != a->want || g2 != a->want;
    if (bad) {
      const char *who = b_bad ? "the interrupting" : g != a->want ? "the interrupted" : "a later";
      S->bad = 1;
      uint64_t gg = b_bad ? b_got : g != a->want ? g : g2, w = b_bad ? b->want : a->want;
      if (b_bad == 2) snprintf(S->why, sizeof S->why, "the first call of t1ha0() is interrupted inside the allocator (instruction %ld) by another, which enters the allocator too", at);
      else snprintf(S->why, sizeof S->why, "the first call of t1ha0() is interrupted at instruction %ld by another %s: %s call gives %016llx instead of %016llx", at, b->op == OP_RESOLVE ? "call of t1ha0_resolve()" : "call of t1ha0()", who, (unsigned long long)gg, (unsigned long long)w);
    }
    S->done = 1;
    _exit(0);
  }
  int st;
  waitpid(p, &st, 0);
  if (!S->done && WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { snprintf(S->why, sizeof S->why, "no end after 30 seconds when the first call of t1ha0() is interrupted at instruction %ld by another", at); return 1; }
  if (!S->done) { snprintf(S->why, sizeof S->why, "the process dies (status %x) when the first call of t1ha0() is interrupted at instruction %ld", st, at); return 1; }
  (void)cs;
  return S->bad;
}
static void do_first(void) {
  table();
  fshared *S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  call_t *a = new_call(), *b = new_call();
  long n = 0, steps = 0;
  for (long i = 0; i < ncases; i++) {
    if (rp_case >= 0) i = rp_case;
    rng_t r = {mix64_(the_seed * 100003 + (uint64_t)i)};
    uint64_t hi;
    int im = impl();
    gen(a, &r, FN_T0, 1); gen(b, &r, FN_T0, 1);
#if T1HA0_RUNTIME_SELECT
    if (chance(&r, 4)) { a->op = OP_RESOLVE; a->want = (uint64_t)(uintptr_t)fns[im]; } else
#endif
    a->want = ref_call(im, im, a->data + a->off, a->len, a->seed, 0, &hi, 0);
#if T1HA0_RUNTIME_SELECT
    if (chance(&r, 4)) { b->op = OP_RESOLVE; b->want = (uint64_t)(uintptr_t)fns[im]; } else
#endif
    b->want = ref_call(im, im, b->data + b->off, b->len, b->seed, 0, &hi, 0);
    int bad = 0;
    if (rp_case >= 0) bad = first_one(S, a, b, 0, rp_step);
    else {
      bad = first_one(S, a, b, 0, -1);
      long total = S->steps;
      for (long s = 1; s <= total && s < 600 && !bad; s++) { bad = first_one(S, a, b, 0, s); n++; steps++; if (bad) rp_step = s; }
    }
    if (bad) { printf("FAIL case=%ld at=%ld %s\n", i, rp_step, S->why); fflush(stdout); _Exit(1); }
    if (rp_case >= 0) break;
  }
  printf("FIRSTSTATS %ld\n", n);
  fflush(stdout);
  _Exit(0);
}
static void pre(int argc, char **argv, char **envp) {
  (void)envp;
  if (argc > 1 && !strcmp(argv[1], "first")) { params(argc, argv); do_first(); }
}
__attribute__((section(".preinit_array"), used)) static void (*const pre_p)(int, char **, char **) = pre;
extern char __executable_start[], etext[];
int main(int argc, char **argv) {
  params(argc, argv);
  (void)is_first;
  if (ref_selftest()) return 3;
  table();
  call_t *a = new_call(), *b = new_call();
  const char *mode = argc > 1 ? argv[1] : "step";
  if (!strcmp(mode, "step")) {
    sig_install();
    long steps = 0, n = 0, dummy = 0;
    watchdog();
    for (long i = 0; i < ncases; i++) {
      if (rp_case >= 0) i = rp_case;
      now_case = i; beat++;
      uint64_t cs = the_seed * 1000003 + (uint64_t)i;
      int bad = one_step(cs, a, b, &steps, 0, rp_step);
      n++;
      if (bad) { /* shrink: a single interruption point */
        long total = step_no, at = rp_step;
        for (long s = 1; s <= total && rp_step < 0; s++, beat++) if (one_step(cs, a, b, &dummy, 0, s)) { at = s; break; }
        printf("FAIL case=%ld at=%ld ", i, at);
        one_step(cs, a, b, &dummy, 1, at);
        printf("\n");
        return 1;
      }
      if (rp_case >= 0) break;
    }
    printf("STEPSTATS %ld %ld\n", n, steps);
    return 0;
  }
  if (!strcmp(mode, "thread")) {
    static thr t[64]; pthread_t id[64];
    uint8_t *shared = aligned_alloc(64, MAXLEN + 128);
    rng_t r = {mix64_(the_seed + 5)};
    /* every thread's gen() fills the data it owns; the shared bytes are written once, before any thread starts */
    rnd_fill(&r, shared, MAXLEN + 128);
    pthread_barrier_init(&bar, 0, (unsigned)nthreads);
    for (int i = 0; i < nthreads; i++) { t[i] = (thr){.seed = the_seed * 64 + (uint64_t)i, .cases = ncases, .t = i, .shared = shared}; pthread_create(&id[i], 0, thread_main, &t[i]); }
    int bad = 0;
    for (int i = 0; i < nthreads; i++) pthread_join(id[i], 0);
    for (int i = 0; i < nthreads; i++) if (t[i].bad && !bad++) printf("FAIL case=0 at=0 %s\n", t[i].why);
    if (!bad) printf("THREADSTATS %ld\n", ncases * nthreads);
    return bad != 0;
  }
  if (!strcmp(mode, "isa")) {
    sig_install();
    record = 1;
    visited = calloc(65536, sizeof *visited);
    long total = 0;
    for (int fn = 0; fn < FN_COUNT; fn++) {
      memset(visited, 0, 65536 * sizeof *visited); nvis = 0;
      rng_t r = {mix64_(the_seed * 77 + (uint64_t)fn)};
      for (long i = 0; i < ncases; i++) {
        gen(a, &r, fn, 1);
        if (i < 300) a->len = (size_t)i;
        if (a->op == OP_STREAM) memset(a->cut, 0, sizeof a->cut), a->cut[0] = below(&r, a->len + 1), a->cut[1] = below(&r, a->len - a->cut[0] + 1);
        if (a->op == OP_HASH && a->fn != fn) continue;
        stepped(a);
        total++;
      }
      printf("ISA %s", fn_name[fn]);
      for (size_t i = 0; i < 65536; i++) if (visited[i] >= (uintptr_t)__executable_start && visited[i] < (uintptr_t)etext) printf(" %lx", (unsigned long)(visited[i] - (uintptr_t)__executable_start));
      printf("\n");
    }
    printf("ISASTATS %ld\n", total);
    return 0;
  }
  return 3;
}
