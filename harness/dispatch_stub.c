/* Part of the library under dispatch test: tagged stand-ins for the implementations (they win over the
 * library's own, which are made weak) and access to every way of calling t1ha0(). */
#include "t1ha.h"
#include <stddef.h>
#define EXPORT __attribute__((visibility("default")))
static uint64_t tagged(int tag, const void *data, size_t len, uint64_t seed) {
  const unsigned char *p = data;
  uint64_t h = 0x9e3779b97f4a7c15ull * (uint64_t)(tag + 1) ^ seed;
  for (size_t i = 0; i < len; i++) h = (h ^ p[i]) * 0x100000001b3ull;
  return h ^ len << 40;
}
#define STAND(name, tag) uint64_t name(const void *d, size_t n, uint64_t s) { return tagged(tag, d, n, s); }
#ifndef T1HA1_DISABLED
STAND(t1ha1_le, 0)
STAND(t1ha1_be, 1)
#endif
#ifndef T1HA2_DISABLED
STAND(t1ha2_atonce, 2)
#endif
STAND(t1ha0_ia32aes_noavx, 8)
STAND(t1ha0_ia32aes_avx, 9)
STAND(t1ha0_ia32aes_avx2, 10)
EXPORT uint64_t vp_tagged(int tag, const void *d, size_t n, uint64_t s) { return tagged(tag, d, n, s); }
EXPORT uint64_t vp_direct(const void *d, size_t n, uint64_t s) { return t1ha0(d, n, s); }
EXPORT uint64_t vp_resolved(const void *d, size_t n, uint64_t s) { return t1ha0_resolve()(d, n, s); }
EXPORT uint64_t vp_pointer(const void *d, size_t n, uint64_t s) {
#if T1HA_USE_INDIRECT_FUNCTIONS
  uint64_t (*volatile f)(const void *, size_t, uint64_t) = t1ha0;
  return f(d, n, s);
#else
  return t1ha0_funcptr(d, n, s);
#endif
}
EXPORT int vp_fallback(void) {
#if (UINTPTR_MAX > 0xffffFFFFul) && !defined(T1HA1_DISABLED)
  return 0;
#elif (UINTPTR_MAX > 0xffffFFFFul) && !defined(T1HA2_DISABLED)
  return 2;
#else
  return 6;
#endif
}
EXPORT uint64_t vp_32le(const void *d, size_t n, uint64_t s) { return t1ha0_32le(d, n, s); }
