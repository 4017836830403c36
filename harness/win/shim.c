/* The library compiled for a 64-bit target whose `long` has 32 bits (Windows conventions, ELF objects, all symbols
 * prefixed with ll_) behind its usual interface. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "t1ha.h"
#define MS __attribute__((ms_abi))
#define HASH(n) MS uint64_t ll_##n(const void *, size_t, uint64_t); uint64_t n(const void *d, size_t l, uint64_t s) { return ll_##n(d, l, s); }
MS void *ll_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
MS void *ll_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
MS void *ll_memset(void *d, int c, size_t n) { return memset(d, c, n); }
MS int ll_memcmp(const void *d, const void *s, size_t n) { return memcmp(d, s, n); }
#ifndef T1HA1_DISABLED
HASH(t1ha1_le)
HASH(t1ha1_be)
#endif
#ifndef T1HA2_DISABLED
HASH(t1ha2_atonce)
MS uint64_t ll_t1ha2_atonce128(uint64_t *, const void *, size_t, uint64_t);
uint64_t t1ha2_atonce128(uint64_t *__restrict x, const void *__restrict d, size_t l, uint64_t s) { return ll_t1ha2_atonce128(x, d, l, s); }
MS void ll_t1ha2_init(t1ha_context_t *, uint64_t, uint64_t);
void t1ha2_init(t1ha_context_t *c, uint64_t x, uint64_t y) { ll_t1ha2_init(c, x, y); }
MS void ll_t1ha2_update(t1ha_context_t *, const void *, size_t);
void t1ha2_update(t1ha_context_t *__restrict c, const void *__restrict d, size_t l) { ll_t1ha2_update(c, d, l); }
MS uint64_t ll_t1ha2_final(t1ha_context_t *, uint64_t *);
uint64_t t1ha2_final(t1ha_context_t *__restrict c, uint64_t *__restrict x) { return ll_t1ha2_final(c, x); }
#endif
#ifndef T1HA0_DISABLED
HASH(t1ha0_32le)
HASH(t1ha0_32be)
#if T1HA0_AESNI_AVAILABLE
HASH(t1ha0_ia32aes_noavx)
HASH(t1ha0_ia32aes_avx)
HASH(t1ha0_ia32aes_avx2)
#endif
#if T1HA0_RUNTIME_SELECT
MS extern uint64_t (*ll_t1ha0_funcptr)(const void *, size_t, uint64_t);
typedef MS uint64_t (*llf)(const void *, size_t, uint64_t);
MS llf ll_t1ha0_resolve(void);
static uint64_t via(const void *d, size_t l, uint64_t s) { return ((llf)ll_t1ha0_funcptr)(d, l, s); }
static uint64_t resolved(const void *d, size_t l, uint64_t s) { return ll_t1ha0_resolve()(d, l, s); }
uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t) = via;
t1ha0_function_t t1ha0_resolve(void) {
  llf f = ll_t1ha0_resolve();
#if T1HA0_AESNI_AVAILABLE
  if (f == ll_t1ha0_ia32aes_noavx) return t1ha0_ia32aes_noavx;
  if (f == ll_t1ha0_ia32aes_avx) return t1ha0_ia32aes_avx;
  if (f == ll_t1ha0_ia32aes_avx2) return t1ha0_ia32aes_avx2;
#endif
  return resolved;
}
#endif
#endif
#define CHECKF(n) MS int ll_##n(void); int n(void) { return ll_##n(); }
CHECKF(t1ha_selfcheck__all_enabled)
#ifndef T1HA2_DISABLED
CHECKF(t1ha_selfcheck__t1ha2_atonce)
CHECKF(t1ha_selfcheck__t1ha2_atonce128)
CHECKF(t1ha_selfcheck__t1ha2_stream)
CHECKF(t1ha_selfcheck__t1ha2)
#endif
#ifndef T1HA1_DISABLED
CHECKF(t1ha_selfcheck__t1ha1_le)
CHECKF(t1ha_selfcheck__t1ha1_be)
CHECKF(t1ha_selfcheck__t1ha1)
#endif
#ifndef T1HA0_DISABLED
CHECKF(t1ha_selfcheck__t1ha0_32le)
CHECKF(t1ha_selfcheck__t1ha0_32be)
CHECKF(t1ha_selfcheck__t1ha0)
#if T1HA0_AESNI_AVAILABLE
CHECKF(t1ha_selfcheck__t1ha0_ia32aes_noavx)
CHECKF(t1ha_selfcheck__t1ha0_ia32aes_avx)
CHECKF(t1ha_selfcheck__t1ha0_ia32aes_avx2)
#endif
#endif
