/* C23: what a call leaves of the caller's machine state. Every call goes through a trampoline that fills the registers a
 * callee must keep, the SSE and x87 control words and the vector registers with generated values, and looks at them afterwards.
 *   regs seed=N cases=N [case=N]      prints FAIL case=... and returns 1. Link with -no-pie. */
#define _GNU_SOURCE
#include "ref.h"
#include "util.h"
#include "t1ha.h"
#include <cpuid.h>
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stddef.h>
#include <sys/mman.h>
#include <unistd.h>
uint64_t *dict; size_t dict_n;
#ifdef __x86_64__
#define NKEEP 6
#define FLEN 208
static const char *const keep_name[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
#else
#define NKEEP 4
#define FLEN 96
static const char *const keep_name[] = {"ebx", "esi", "edi", "ebp"};
#endif
typedef struct { /* the trampoline knows the offsets */
  uintptr_t fn, arg[6], in[NKEEP], out[NKEEP], sp_in, sp_out, flags, ret[2];
  uint32_t mxcsr, cw, avx /* 0 none, 1 halves clean, 2 halves in use */, xinuse;
} frame;
_Static_assert(sizeof(frame) == FLEN, "trampoline");
frame F_ __attribute__((aligned(64)));
uint8_t vec_in[16 * 32] __attribute__((aligned(64))), fx_out[512] __attribute__((aligned(64)));
uintptr_t keep_sp;
void tramp(void);
#ifdef __x86_64__
__asm__(".text\n.globl tramp\n.type tramp,@function\ntramp:\n"
        "push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\nsub $40,%rsp\nstmxcsr 16(%rsp)\nfnstcw 24(%rsp)\n"
        "lea F_(%rip),%r10\nmov %rsp,keep_sp(%rip)\nlea vec_in(%rip),%r11\n"
        "cmpl $0,200(%r10)\nje 1f\n"
        "vmovups (%r11),%ymm0\nvmovups 32(%r11),%ymm1\nvmovups 64(%r11),%ymm2\nvmovups 96(%r11),%ymm3\nvmovups 128(%r11),%ymm4\nvmovups 160(%r11),%ymm5\nvmovups 192(%r11),%ymm6\nvmovups 224(%r11),%ymm7\n"
        "vmovups 256(%r11),%ymm8\nvmovups 288(%r11),%ymm9\nvmovups 320(%r11),%ymm10\nvmovups 352(%r11),%ymm11\nvmovups 384(%r11),%ymm12\nvmovups 416(%r11),%ymm13\nvmovups 448(%r11),%ymm14\nvmovups 480(%r11),%ymm15\n"
        "cmpl $2,200(%r10)\nje 2f\nvzeroupper\njmp 2f\n"
        "1:\nmovups (%r11),%xmm0\nmovups 32(%r11),%xmm1\nmovups 64(%r11),%xmm2\nmovups 96(%r11),%xmm3\nmovups 128(%r11),%xmm4\nmovups 160(%r11),%xmm5\nmovups 192(%r11),%xmm6\nmovups 224(%r11),%xmm7\n"
        "2:\nldmxcsr 192(%r10)\nfldcw 196(%r10)\n"
        "mov 8(%r10),%rdi\nmov 16(%r10),%rsi\nmov 24(%r10),%rdx\nmov 32(%r10),%rcx\n"
        "mov 56(%r10),%rbx\nmov 64(%r10),%rbp\nmov 72(%r10),%r12\nmov 80(%r10),%r13\nmov 88(%r10),%r14\nmov 96(%r10),%r15\n"
        "mov %rsp,152(%r10)\nmov (%r10),%r10\nmov $0x5a5a5a5a,%eax\ncall *%r10\n"
        "lea F_(%rip),%r10\nmov %rsp,160(%r10)\nmov keep_sp(%rip),%rsp\n"
        "mov %rax,176(%r10)\nmov %rbx,104(%r10)\nmov %rbp,112(%r10)\nmov %r12,120(%r10)\nmov %r13,128(%r10)\nmov %r14,136(%r10)\nmov %r15,144(%r10)\n"
        "pushfq\npopq 168(%r10)\ncld\nfxsave fx_out(%rip)\n"
        "cmpl $0,200(%r10)\nje 3f\ncmpl $0,204(%r10)\nje 4f\nmov $1,%ecx\nxgetbv\nmov %eax,204(%r10)\n4:\nvzeroupper\n"
        "3:\nfninit\nldmxcsr 16(%rsp)\nfldcw 24(%rsp)\nadd $40,%rsp\npop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n.size tramp,.-tramp\n");
#else
__asm__(".text\n.globl tramp\n.type tramp,@function\ntramp:\n"
        "push %ebx\npush %ebp\npush %esi\npush %edi\nsub $60,%esp\nstmxcsr 32(%esp)\nfnstcw 36(%esp)\n" /* 16-byte aligned here */
        "mov $F_,%edx\nmov %esp,keep_sp\nmov $vec_in,%ecx\n"
        "cmpl $0,88(%edx)\nje 1f\n"
        "vmovups (%ecx),%ymm0\nvmovups 32(%ecx),%ymm1\nvmovups 64(%ecx),%ymm2\nvmovups 96(%ecx),%ymm3\nvmovups 128(%ecx),%ymm4\nvmovups 160(%ecx),%ymm5\nvmovups 192(%ecx),%ymm6\nvmovups 224(%ecx),%ymm7\n"
        "cmpl $2,88(%edx)\nje 2f\nvzeroupper\njmp 2f\n"
        "1:\nmovups (%ecx),%xmm0\nmovups 32(%ecx),%xmm1\nmovups 64(%ecx),%xmm2\nmovups 96(%ecx),%xmm3\nmovups 128(%ecx),%xmm4\nmovups 160(%ecx),%xmm5\nmovups 192(%ecx),%xmm6\nmovups 224(%ecx),%xmm7\n"
        "2:\nldmxcsr 80(%edx)\nfldcw 84(%edx)\n"
        "mov 4(%edx),%eax\nmov %eax,(%esp)\nmov 8(%edx),%eax\nmov %eax,4(%esp)\nmov 12(%edx),%eax\nmov %eax,8(%esp)\nmov 16(%edx),%eax\nmov %eax,12(%esp)\nmov 20(%edx),%eax\nmov %eax,16(%esp)\nmov 24(%edx),%eax\nmov %eax,20(%esp)\n"
        "mov 28(%edx),%ebx\nmov 32(%edx),%esi\nmov 36(%edx),%edi\nmov 40(%edx),%ebp\n"
        "mov %esp,60(%edx)\nmov (%edx),%edx\nmov $0x5a5a5a5a,%eax\ncall *%edx\n"
        "mov %eax,F_+72\nmov %edx,F_+76\nmov $F_,%edx\nmov %esp,64(%edx)\nmov keep_sp,%esp\n"
        "mov %ebx,44(%edx)\nmov %esi,48(%edx)\nmov %edi,52(%edx)\nmov %ebp,56(%edx)\n"
        "pushf\npopl 68(%edx)\ncld\nfxsave fx_out\n"
        "cmpl $0,88(%edx)\nje 3f\ncmpl $0,92(%edx)\nje 4f\nmov $1,%ecx\nxgetbv\nmov $F_,%edx\nmov %eax,92(%edx)\n4:\nvzeroupper\n"
        "3:\nfninit\nldmxcsr 32(%esp)\nfldcw 36(%esp)\nadd $60,%esp\npop %edi\npop %esi\npop %ebp\npop %ebx\nret\n.size tramp,.-tramp\n");
#endif
__asm__(".section .note.GNU-stack,\"\",@progbits\n.text\n");

typedef struct { const char *name; void *fn; int kind; /* 0 (data,len,seed) 1 atonce128 2 init 3 update 4 final 5 final with word 6 no arguments */ } fn_t;
static uint64_t t0(const void *d, size_t n, uint64_t s) { return t1ha0(d, n, s); }
static fn_t fns[64];
static int nfns;
static void add(const char *n, void *f, int k) { fns[nfns++] = (fn_t){n, f, k}; }
static int has_avx, has_xinuse;
static void table(void) {
  __builtin_cpu_init();
  has_avx = __builtin_cpu_supports("avx");
  unsigned a, b, c, d;
  if (has_avx && __get_cpuid_count(13, 1, &a, &b, &c, &d)) has_xinuse = a >> 2 & 1;
  add("t1ha0", (void *)t0, 0);
  add("t1ha0_32le", (void *)t1ha0_32le, 0); add("t1ha0_32be", (void *)t1ha0_32be, 0);
#ifndef T1HA1_DISABLED
  add("t1ha1_le", (void *)t1ha1_le, 0); add("t1ha1_be", (void *)t1ha1_be, 0);
#endif
#ifndef T1HA2_DISABLED
  for (int i = 0; i < 2; i++) {
  add("t1ha2_atonce", (void *)t1ha2_atonce, 0); add("t1ha2_atonce128", (void *)t1ha2_atonce128, 1);
  add("t1ha2_update", (void *)t1ha2_update, 3); add("t1ha2_final", (void *)t1ha2_final, 4); add("t1ha2_final", (void *)t1ha2_final, 5);
  }
  add("t1ha2_init", (void *)t1ha2_init, 2);
#endif
#if T1HA0_AESNI_AVAILABLE
  for (int i = 0; i < 2; i++)
  if (__builtin_cpu_supports("aes")) { add("t1ha0_ia32aes_noavx", (void *)t1ha0_ia32aes_noavx, 0);
    if (has_avx) { add("t1ha0_ia32aes_avx", (void *)t1ha0_ia32aes_avx, 0); if (__builtin_cpu_supports("avx2")) add("t1ha0_ia32aes_avx2", (void *)t1ha0_ia32aes_avx2, 0); } }
#endif
#if T1HA0_RUNTIME_SELECT
  add("t1ha0_resolve", (void *)t1ha0_resolve, 6);
#endif
  add("t1ha_selfcheck__all_enabled", (void *)t1ha_selfcheck__all_enabled, 7);
}
static sigjmp_buf jb;
static void on_sig(int s) { siglongjmp(jb, s); }
static uint8_t *data;
#define ROOM (1u << 19)
#define MAXLEN 9000
#ifndef T1HA2_DISABLED
static t1ha_context_t ctx;
#endif
static uint64_t word_;
static char why[500];
static size_t gen_len(rng_t *r) {
  switch (below(r, 7)) { case 0: return below(r, 9); case 1: return below(r, 34); case 2: return 256 + below(r, 600); case 3: return 128 + below(r, 70); case 4: return chance(r, 300) ? below(r, ROOM - 64) : chance(r, 6) ? below(r, MAXLEN) : below(r, 400); default: return below(r, 150); }
}
static void put64(uintptr_t **a, uint64_t v) { *(*a)++ = (uintptr_t)v; if (sizeof(uintptr_t) == 4) *(*a)++ = (uintptr_t)(v >> 32); }
/* what the call gave, context included */
static uint64_t outcome(const fn_t *f) {
  uint64_t v = F_.ret[0];
  if (sizeof(uintptr_t) == 4) v = (uint32_t)v | (uint64_t)F_.ret[1] << 32;
  if (f->kind == 6) v = (uintptr_t)F_.ret[0];
  if (f->kind == 7) v = (uint32_t)F_.ret[0];
#ifndef T1HA2_DISABLED
  if (f->kind == 2 || f->kind == 3) { t1ha_context_t c = ctx; uint64_t h, l = t1ha2_final(&c, &h); v = l ^ h * 3; }
#endif
  if (f->kind == 1 || f->kind == 5) v ^= word_ * 3;
  return v;
}
static int one(uint64_t cs, int verbose) {
  rng_t r = {mix64_(cs)};
  const fn_t *f = &fns[below(&r, (uint64_t)nfns)];
  if (f->kind == 7 && !chance(&r, 50)) f = &fns[below(&r, (uint64_t)nfns - 1)];
  size_t len = gen_len(&r), off = below(&r, 64);
  uint8_t *d = chance(&r, 3) ? data + ROOM - len : data + off;
  rnd_fill(&r, d, len);
  uint64_t seed = rnd(&r), seed2 = rnd(&r), want = 0, got;
#ifndef T1HA2_DISABLED
  t1ha_context_t ctx0;
  { uint8_t pre[80]; size_t n = below(&r, 80); rnd_fill(&r, pre, n); t1ha2_init(&ctx0, seed, seed2); t1ha2_update(&ctx0, pre, n); }
#endif
  static const uint32_t pc[] = {0, 2, 3};
  uint32_t mx = 0, cw = 0, avx = 0;
  for (int pass = 0; pass < 2; pass++) { /* once in the usual environment, once in a generated one */
    memset(&F_, 0, sizeof F_);
    uintptr_t *a = F_.arg;
    F_.fn = (uintptr_t)f->fn;
    switch (f->kind) {
    case 1: *a++ = (uintptr_t)&word_; /* fall through */
    case 0: *a++ = (uintptr_t)d; *a++ = len; put64(&a, seed); break;
#ifndef T1HA2_DISABLED
    case 2: *a++ = (uintptr_t)&ctx; put64(&a, seed); put64(&a, seed2); break;
    case 3: *a++ = (uintptr_t)&ctx; *a++ = (uintptr_t)d; *a++ = len; break;
    case 4: *a++ = (uintptr_t)&ctx; *a++ = 0; break;
    case 5: *a++ = (uintptr_t)&ctx; *a++ = (uintptr_t)&word_; break;
#endif
    }
#ifndef T1HA2_DISABLED
    ctx = ctx0;
#endif
    word_ = 0;
    rnd_fill(&r, vec_in, sizeof vec_in);
    for (int i = 0; i < NKEEP; i++) F_.in[i] = (uintptr_t)(chance(&r, 4) ? pool(&r) : rnd(&r));
    mx = 0x1f80; cw = 0x37f; avx = has_avx ? 1 : 0;
    int err = 0;
    if (pass) {
      mx = (uint32_t)below(&r, 4) << 13 | (uint32_t)below(&r, 2) << 15 | (uint32_t)below(&r, 2) << 6 | (chance(&r, 2) ? 0x1f80 : (uint32_t)below(&r, 64) << 7);
      cw = 0x40 | (uint32_t)below(&r, 4) << 10 | pc[below(&r, 3)] << 8 | (chance(&r, 2) ? 0x3f : (uint32_t)below(&r, 64));
      if (has_avx) avx = (uint32_t)below(&r, 3);
      err = chance(&r, 2) ? (int)below(&r, 200) : ERANGE;
    }
    F_.mxcsr = mx; F_.cw = cw; F_.avx = avx; F_.xinuse = (uint32_t)has_xinuse;
    int sig = sigsetjmp(jb, 1);
    if (sig) {
      __asm__ volatile("fninit\nldmxcsr %0" ::"m"((const uint32_t){0x1f80}));
      snprintf(why, sizeof why, "%s (length %zu) raises signal %d with MXCSR %04x and x87 control word %03x", f->name, len, sig, mx, cw);
      return 1;
    }
    errno = err;
    tramp();
    int err2 = errno;
    got = outcome(f);
    uint16_t fcw, fsw; uint32_t omx;
    memcpy(&fcw, fx_out, 2); memcpy(&fsw, fx_out + 2, 2); memcpy(&omx, fx_out + 24, 4);
    const char *e = NULL;
    for (int i = 0; i < NKEEP; i++) if (F_.in[i] != F_.out[i]) { snprintf(why, sizeof why, "%s (length %zu) returns with another value in the register %s", f->name, len, keep_name[i]); return 1; }
    if (F_.sp_in != F_.sp_out) e = "with another stack pointer";
    else if (F_.flags & 0x400) e = "with the direction flag set";
    else if (F_.flags & 0x40000) e = "with the alignment-check flag set";
    else if (fx_out[4] != 0 || (fsw >> 11 & 7) != 0) e = "with the x87/MMX registers in use: the caller's next floating-point operations fail";
    else if (fcw != cw) e = "with another x87 control word";
    else if ((omx & 0xffc0) != (mx & 0xffc0)) e = "with another MXCSR (rounding or exception masks)";
    else if (err2 != err) e = "with errno changed";
    else if (avx == 1 && has_xinuse && F_.xinuse & 4) e = "with the upper halves of the AVX registers in use";
    else if (pass && got != want) e = "with another result than in the usual floating-point environment and register contents";
    if (e) {
      snprintf(why, sizeof why, "%s (length %zu, seed %llx) returns %s (MXCSR %04x, x87 control word %03x, upper halves %u)", f->name, len, (unsigned long long)seed, e, mx, cw, avx);
      return 1;
    }
    want = got;
  }
  if (verbose) printf("%s %zu ok\n", f->name, len);
  return 0;
}
int main(int argc, char **argv) {
  uint64_t seed = 1; long cases = 1000, rp = -1;
  for (int i = 1; i < argc; i++) {
    if (!strncmp(argv[i], "seed=", 5)) seed = strtoull(argv[i] + 5, 0, 0);
    if (!strncmp(argv[i], "cases=", 6)) cases = atol(argv[i] + 6);
    if (!strncmp(argv[i], "case=", 5)) rp = atol(argv[i] + 5);
  }
  table();
  data = mmap(NULL, ROOM + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (data == MAP_FAILED || mprotect(data + ROOM, 4096, PROT_NONE)) return 3;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_sig; sa.sa_flags = SA_NODEFER;
  sigaction(SIGFPE, &sa, NULL); sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL);
  for (long i = rp >= 0 ? rp : 0; i < cases; i++) {
    if (one(seed * 1000003 + (uint64_t)i, rp >= 0)) {
      /* simplest case with the same complaint is the one with the least index: reported as it is */
      printf("FAIL case=%ld %s\n", i, why);
      return 1;
    }
    if (rp >= 0) break;
  }
  printf("REGSTATS %ld %d\n", cases, has_xinuse);
  return 0;
}
