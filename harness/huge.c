/* C19: hashes of inputs of gigabytes. The address range is one file mapped over and over, so it costs no memory.
 * stdin: one case per line "fn seed seed2 junk off:len[,off:len...]"; argv: region size, period, seed, mode
 * (model: against the model; cut: stream against one update of everything; move: against the same bytes elsewhere; safe: faults and stray writes only). Lines "OK i" / "FAIL i ..." out.
 * "GUARD": the end of the region is followed by an inaccessible page. */
#define _GNU_SOURCE
#include "ref.h"
#include "util.h"
#include "t1ha.h"
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
uint64_t *dict;
size_t dict_n;
static sigjmp_buf jb;
static void on_sig(int s) { siglongjmp(jb, s); }
static struct { uint8_t lo[64]; t1ha_context_t ctx; uint8_t hi[64]; } C;
static struct { uint8_t lo[64]; uint64_t v; uint8_t hi[64]; } X;
typedef struct { uint64_t off, len; } cut_t;
static cut_t cuts[5000];
static int ncuts;
/* one case with its bytes at base + offset; no more than calls of the library */
static int call(int fn, const uint8_t *p, uint64_t x, uint64_t y, int junk, int whole, uint64_t *got) {
  const uint8_t *d = p + cuts[0].off;
  uint64_t len = cuts[0].len;
  switch (fn) {
#define F(id, f) case id: *got = f(d, (size_t)len, x); return 1;
    F(FN_T1LE, t1ha1_le) F(FN_T1BE, t1ha1_be) F(FN_T2, t1ha2_atonce) F(FN_T0LE, t1ha0_32le) F(FN_T0BE, t1ha0_32be) F(FN_T0, t1ha0)
#if T1HA0_AESNI_AVAILABLE
    F(FN_AN, t1ha0_ia32aes_noavx) F(FN_AA, t1ha0_ia32aes_avx)
#ifdef __AVX2_OK__
    F(FN_A2, t1ha0_ia32aes_avx2)
#endif
#endif
  case FN_T2X: *got = t1ha2_atonce128(&X.v, d, (size_t)len, x); return 1;
  case FN_S: case FN_SX:
    memset(&C.ctx, junk, sizeof C.ctx);
    t1ha2_init(&C.ctx, x, y);
    if (whole) {
      for (int i = 1; i < ncuts; i++) len += cuts[i].len;
      t1ha2_update(&C.ctx, d, (size_t)len);
    } else
      for (int i = 0; i < ncuts; i++) t1ha2_update(&C.ctx, p + cuts[i].off, (size_t)cuts[i].len);
    *got = t1ha2_final(&C.ctx, fn == FN_SX ? &X.v : NULL);
    return 1;
  }
  return 0;
}

int main(int argc, char **argv) {
  int bad = ref_selftest();
#ifndef REF_AESNI
  bad &= 0xff;
#endif
  if (bad) { fprintf(stderr, "model broken\n"); return 3; }
  uint64_t size = strtoull(argv[1], 0, 0), per = strtoull(argv[2], 0, 0), seed = strtoull(argv[3], 0, 0);
  const char *mode = argc > 4 ? argv[4] : "model";
  int fd = (int)syscall(SYS_memfd_create, "pattern", 0);
  if (fd < 0 || ftruncate(fd, (off_t)per)) return 3;
  uint8_t *w = mmap(NULL, per, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (w == MAP_FAILED) return 3;
  rng_t r = {seed};
  rnd_fill(&r, w, per);
  munmap(w, per);
  size = (size + 4095) & ~4095ull;
  uint8_t *p = mmap(NULL, size + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { printf("NOSPACE\n"); return 4; }
  p += 4096;
  /* whole periods end at the end of the region */
  uint64_t at = size;
  while (at) {
    uint64_t n = at < per ? at : per;
    at -= n;
    if (mmap(p + at, n, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { printf("NOSPACE\n"); return 4; }
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_sig;
  sa.sa_flags = SA_NODEFER;
  sigaction(SIGSEGV, &sa, NULL);
  sigaction(SIGBUS, &sa, NULL);
  sigaction(SIGILL, &sa, NULL);
  sigaction(SIGTRAP, &sa, NULL);
  sigaction(SIGFPE, &sa, NULL);
  sigaction(SIGABRT, &sa, NULL);
  static char line[1 << 16];
  for (int i = 0; fgets(line, sizeof line, stdin); i++) {
    char *s = line;
    int fn = (int)strtol(s, &s, 0);
    uint64_t x = strtoull(s, &s, 0), y = strtoull(s, &s, 0), junk = strtoull(s, &s, 0), got = 0, ghi = 0, want, whi = 0, total = 0;
    int sig = sigsetjmp(jb, 1);
    if (sig) { printf("FAIL %d %s: signal %d\n", i, fn_name[fn], sig); fflush(stdout); continue; }
    ncuts = 0;
    do {
      cuts[ncuts].off = strtoull(s + (*s == ','), &s, 0);
      cuts[ncuts].len = strtoull(s + 1, &s, 0);
      total += cuts[ncuts].len;
    } while (++ncuts < 4999 && *s == ',');
    memset(&C, 0x5c, sizeof C); memset(&X, 0x5c, sizeof X);
    X.v = 0;
    if (!call(fn, p, x, y, (int)junk, 0, &got)) { printf("SKIP %d\n", i); fflush(stdout); continue; }
    ghi = X.v;
    for (int k = 0; k < 64; k++) if (C.lo[k] != 0x5c || C.hi[k] != 0x5c || X.lo[k] != 0x5c || X.hi[k] != 0x5c) sig = -1;
    if (sig) { printf("FAIL %d %s: bytes beside the context or the result word are changed\n", i, fn_name[fn]); fflush(stdout); continue; }
    const char *what = "of";
    want = got; whi = ghi;
    if (!strcmp(mode, "cut")) { call(fn, p, x, y, (int)~junk, 1, &want); whi = X.v; what = "that one update of all bytes gives, of"; }
    else if (!strcmp(mode, "move")) {
      uint64_t end = 0;
      for (int k = 0; k < ncuts; k++) if (cuts[k].off + cuts[k].len > end) end = cuts[k].off + cuts[k].len;
      what = "as at another address, of";
      uint64_t rem = size % per; /* from there on the region is periodic */
      if (rem + end + per <= size) {
        uint64_t a, ah;
        call(fn, p + rem, x, y, (int)junk, 0, &a); ah = X.v;
        call(fn, p + rem + per, x, y, (int)~junk, 0, &want); whi = X.v;
        if (a != want || (ah != whi && (fn == FN_T2X || fn == FN_SX))) got = a, ghi = ah;
        else want = got, whi = ghi;
      }
      if (want == got && whi == ghi && end <= (64u << 20)) {
        uint8_t *m = mmap(NULL, end + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m != MAP_FAILED) {
          uint64_t sh = 1 + mix64_(x ^ total) % 63;
          memset(m, (int)junk, sh); memset(m + sh + end, (int)junk, 64);
          memcpy(m + sh, p, end);
          if (junk & 1) { cut_t k = cuts[0]; cuts[0].off = 0; cuts[0].len = end / 2; for (int g = 0; g < FN_COUNT; g++) if (g != FN_S && g != FN_SX && (g < FN_T0 || g == fn)) call(g, m + sh, ~x, y, 0, 0, &want); cuts[0] = k; }
          call(fn, m + sh, x, y, 0, 0, &want); whi = X.v;
          munmap(m, end + 8192);
        }
      }
    } else if (!strcmp(mode, "model")) {
      whi = 0;
      if (fn == FN_T2X) want = ref_t2x(p + cuts[0].off, cuts[0].len, x, &whi, NULL);
      else if (fn == FN_S || fn == FN_SX) {
        ref_stream_t m;
        ref_s_init(&m, x, y);
        for (int k = 0; k < ncuts; k++) ref_s_update(&m, p + cuts[k].off, cuts[k].len);
        want = ref_s_final(&m, fn == FN_SX ? &whi : NULL);
      } else want = ref_call(fn, fn, p + cuts[0].off, cuts[0].len, x, y, &whi, NULL);
    }
    if (got != want || (ghi != whi && (fn == FN_T2X || fn == FN_SX)))
      printf("FAIL %d %s gives %016llx:%016llx instead %s %016llx:%016llx\n", i, fn_name[fn], (unsigned long long)ghi, (unsigned long long)got, what, (unsigned long long)whi, (unsigned long long)want);
    else printf("OK %d\n", i);
    fflush(stdout);
  }
  return 0;
}
