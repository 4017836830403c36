/* answers the library's CPUID and XGETBV instructions (made invalid at build time) for a generated machine */
#pragma once
#include "util.h"
#include <signal.h>
#include <ucontext.h>
typedef struct { uint32_t max, ecx1, ebx7, xcr0, noise; } machine;
static machine M;
static volatile int cp_count, cp_badx;
#ifdef __x86_64__
#define CP_A REG_RAX
#define CP_B REG_RBX
#define CP_C REG_RCX
#define CP_D REG_RDX
#define CP_I REG_RIP
#else
#define CP_A REG_EAX
#define CP_B REG_EBX
#define CP_C REG_ECX
#define CP_D REG_EDX
#define CP_I REG_EIP
#endif
static void cp_on_ill(int sig, siginfo_t *si, void *p) {
  ucontext_t *u = p;
  greg_t *g = u->uc_mcontext.gregs;
  const uint8_t *i = (const uint8_t *)g[CP_I];
  (void)si;
  if (i[0] == 0x0f && i[1] == 0x0b) { /* was CPUID */
    uint32_t leaf = (uint32_t)g[CP_A], sub = (uint32_t)g[CP_C], a = 0, b = 0, c = 0, d = 0;
    rng_t r = {M.noise + leaf * 77u + sub};
    cp_count++;
    if (leaf == 0) { a = M.max; b = 0x756e6547; c = 0x6c65746e; d = 0x49656e69; }
    else if (leaf >= 0x80000000u) { a = leaf == 0x80000000u ? 0x80000008u : (uint32_t)rnd(&r); b = (uint32_t)rnd(&r); c = (uint32_t)rnd(&r); d = (uint32_t)rnd(&r); }
    else if (leaf > M.max) { a = (uint32_t)rnd(&r); b = (uint32_t)rnd(&r); c = (uint32_t)rnd(&r); d = (uint32_t)rnd(&r); } /* whatever the highest leaf holds */
    else if (leaf == 1) { a = 0x906ea; b = (uint32_t)rnd(&r); c = M.ecx1; d = (uint32_t)rnd(&r) | 0x07000001u; }
    else if (leaf == 7) { if (sub == 0) { a = 0; b = M.ebx7; c = (uint32_t)rnd(&r); d = (uint32_t)rnd(&r); } }
    else { a = (uint32_t)rnd(&r); b = (uint32_t)rnd(&r); c = (uint32_t)rnd(&r); d = (uint32_t)rnd(&r); }
    g[CP_A] = a; g[CP_B] = b; g[CP_C] = c; g[CP_D] = d;
    g[CP_I] += 2;
    return;
  }
  if (i[0] == 0x0f && i[1] == 0xff && i[2] == 0xd0) { /* was XGETBV */
    if (!(M.ecx1 >> 27 & 1) || M.max < 1) cp_badx = 1;
    g[CP_A] = (uint32_t)g[CP_C] == 0 ? M.xcr0 : 0; g[CP_D] = 0;
    g[CP_I] += 3;
    return;
  }
  signal(sig, SIG_DFL);
}
static void cp_install(void) {
  struct sigaction sa = {.sa_sigaction = cp_on_ill, .sa_flags = SA_SIGINFO | SA_NODEFER};
  sigaction(SIGILL, &sa, NULL);
}
static int cp_aes(void) { return M.max >= 1 && M.ecx1 >> 25 & 1; }
static int cp_avx(void) { return M.max >= 1 && (M.ecx1 >> 27 & 1) && (M.xcr0 & 6) == 6 && M.ecx1 >> 28 & 1; }
static int cp_avx2(void) { return cp_avx() && M.max >= 7 && M.ebx7 >> 5 & 1; }
