/* runs inside the emulated machine: one library call per request */
#include "t1ha.h"
#include <stddef.h>
#include <stdint.h>
struct { uint64_t op, a, b, c, d, r; } g_cmd;
#define PTR(x) ((void *)(uintptr_t)(x))
enum { FN_T1LE, FN_T1BE, FN_T2, FN_T2X, FN_S, FN_SX, FN_T0LE, FN_T0BE, FN_AN, FN_AA, FN_A2, FN_T0 };
void g_main(void);
void g_main(void) {
  uint64_t op = g_cmd.op, a = g_cmd.a, b = g_cmd.b, c = g_cmd.c, d = g_cmd.d, r = 0;
  switch (op) {
#ifndef T1HA1_DISABLED
  case FN_T1LE: r = t1ha1_le(PTR(a), (size_t)b, c); break;
  case FN_T1BE: r = t1ha1_be(PTR(a), (size_t)b, c); break;
#endif
#ifndef T1HA2_DISABLED
  case FN_T2: r = t1ha2_atonce(PTR(a), (size_t)b, c); break;
  case FN_T2X: r = t1ha2_atonce128(PTR(d), PTR(a), (size_t)b, c); break;
  case 20: t1ha2_init(PTR(a), b, c); break;
  case 21: t1ha2_update(PTR(a), PTR(b), (size_t)c); break;
  case 22: r = t1ha2_final(PTR(a), PTR(b)); break;
  case 30: r = sizeof(t1ha_context_t); break;
  case 31: r = __alignof__(t1ha_context_t); break;
#else
  case 30: case 31: r = 32; break;
#endif
#ifndef T1HA0_DISABLED
  case FN_T0LE: r = t1ha0_32le(PTR(a), (size_t)b, c); break;
  case FN_T0BE: r = t1ha0_32be(PTR(a), (size_t)b, c); break;
  case FN_T0: r = t1ha0(PTR(a), (size_t)b, c); break;
#endif
  case 32:
#define SC(i, f) if (!r && f()) r = i
    SC(1, t1ha_selfcheck__all_enabled);
#ifndef T1HA2_DISABLED
    SC(2, t1ha_selfcheck__t1ha2_atonce); SC(3, t1ha_selfcheck__t1ha2_atonce128); SC(4, t1ha_selfcheck__t1ha2_stream); SC(5, t1ha_selfcheck__t1ha2);
#endif
#ifndef T1HA1_DISABLED
    SC(6, t1ha_selfcheck__t1ha1_le); SC(7, t1ha_selfcheck__t1ha1_be); SC(8, t1ha_selfcheck__t1ha1);
#endif
#ifndef T1HA0_DISABLED
    SC(9, t1ha_selfcheck__t1ha0_32le); SC(10, t1ha_selfcheck__t1ha0_32be); SC(11, t1ha_selfcheck__t1ha0);
#endif
    break;
  case 33: { /* which functions exist */
    r = 0;
#ifndef T1HA1_DISABLED
    r |= 1u << FN_T1LE | 1u << FN_T1BE;
#endif
#ifndef T1HA2_DISABLED
    r |= 1u << FN_T2 | 1u << FN_T2X | 1u << FN_S | 1u << FN_SX;
#endif
#ifndef T1HA0_DISABLED
    r |= 1u << FN_T0LE | 1u << FN_T0BE | 1u << FN_T0;
#endif
    break; }
  case 34: /* what t1ha0() is documented to be here */
#if UINTPTR_MAX > 0xffffFFFFul && !defined(T1HA1_DISABLED)
    r = __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__ ? FN_T1BE : FN_T1LE;
#elif UINTPTR_MAX > 0xffffFFFFul && !defined(T1HA2_DISABLED)
    r = FN_T2;
#else
    r = __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__ ? FN_T0BE : FN_T0LE;
#endif
    break;
#if !defined(T1HA0_DISABLED) && T1HA0_RUNTIME_SELECT
  case 35: r = t1ha0_resolve()(PTR(a), (size_t)b, c); break;
#endif
  }
  g_cmd.r = r;
}
