/* Runtime for library objects compiled with -fsanitize=kernel-address and outlined checks:
 * every load and store of the library comes here with its exact address and size. */
#define _GNU_SOURCE
#include "backend.h"
#include <signal.h>
#include <stdio.h>
#include <string.h>

extern uint8_t *mon_base[REG_COUNT]; /* where the library sees the regions */
struct mon_window { uintptr_t lo, hi; };
extern struct mon_window mon_data, mon_ctx, mon_out;
extern int mon_on;
extern char mon_why[160];
unsigned long mon_accesses;

static void bad(const char *what, uintptr_t a, size_t n) {
  for (int r = 0; r < REG_COUNT; r++)
    if (a + PG >= (uintptr_t)mon_base[r] && a < (uintptr_t)mon_base[r] + reg_size[r] + PG)
      snprintf(mon_why, sizeof mon_why, "%s of %zu bytes at region %d offset %ld; the buffer is [%ld,%ld)", what, n, r, (long)(a - (uintptr_t)mon_base[r]),
               (long)(mon_data.lo - (uintptr_t)mon_base[r]), (long)(mon_data.hi - (uintptr_t)mon_base[r]));
  raise(SIGTRAP);
}
static inline int in(struct mon_window w, uintptr_t a, size_t n) { return a >= w.lo && a + n <= w.hi; }
static inline int ours(uintptr_t a, size_t n) {
  for (int r = 0; r < REG_COUNT; r++) if (a + n + PG > (uintptr_t)mon_base[r] && a < (uintptr_t)mon_base[r] + reg_size[r] + PG) return 1;
  return 0;
}
static void rd(uintptr_t a, size_t n) {
  mon_accesses++;
  if (!mon_on || !n || !ours(a, n) || in(mon_data, a, n) || in(mon_ctx, a, n)) return;
  bad("read outside the caller's buffer", a, n);
}
static void wr(uintptr_t a, size_t n) {
  mon_accesses++;
  if (!mon_on || !n || !ours(a, n) || in(mon_out, a, n) || in(mon_ctx, a, n)) return;
  bad("stray write", a, n);
}
#define ACC(n) void __asan_load##n##_noabort(uintptr_t a); void __asan_load##n##_noabort(uintptr_t a) { rd(a, n); } \
  void __asan_store##n##_noabort(uintptr_t a); void __asan_store##n##_noabort(uintptr_t a) { wr(a, n); } \
  void __asan_report_load##n##_noabort(uintptr_t a); void __asan_report_load##n##_noabort(uintptr_t a) { (void)a; } \
  void __asan_report_store##n##_noabort(uintptr_t a); void __asan_report_store##n##_noabort(uintptr_t a) { (void)a; }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { rd(a, n); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { wr(a, n); }
void __asan_handle_no_return(void) {}
void *vp_memcpy(void *d, const void *s, size_t n) { rd((uintptr_t)s, n); wr((uintptr_t)d, n); return memcpy(d, s, n); }
void *vp_memmove(void *d, const void *s, size_t n) { rd((uintptr_t)s, n); wr((uintptr_t)d, n); return memmove(d, s, n); }
void *vp_memset(void *d, int c, size_t n) { wr((uintptr_t)d, n); return memset(d, c, n); }
int vp_memcmp(const void *a, const void *b, size_t n) { rd((uintptr_t)a, n); rd((uintptr_t)b, n); return memcmp(a, b, n); }
void *__asan_memcpy(void *d, const void *s, size_t n) { return vp_memcpy(d, s, n); }
void *__asan_memmove(void *d, const void *s, size_t n) { return vp_memmove(d, s, n); }
void *__asan_memset(void *d, int c, size_t n) { return vp_memset(d, c, n); }
void __asan_register_globals(void *g, size_t n) { (void)g; (void)n; }
void __asan_unregister_globals(void *g, size_t n) { (void)g; (void)n; }
void __asan_init(void) {}
void __asan_version_mismatch_check_v8(void) {}
