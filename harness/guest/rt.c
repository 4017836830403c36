/* the C library of the guest */
#include <stddef.h>
#include <stdint.h>
void *memcpy(void *d, const void *s, size_t n) {
  volatile uint8_t *p = d; const volatile uint8_t *q = s;
  while (n--) *p++ = *q++;
  return d;
}
void *memmove(void *d, const void *s, size_t n) {
  volatile uint8_t *p = d; const volatile uint8_t *q = s;
  if (p < q) while (n--) *p++ = *q++;
  else while (n--) p[n] = q[n];
  return d;
}
void *memset(void *d, int c, size_t n) {
  volatile uint8_t *p = d;
  while (n--) *p++ = (uint8_t)c;
  return d;
}
int memcmp(const void *a, const void *b, size_t n) {
  const volatile uint8_t *p = a, *q = b;
  for (; n--; p++, q++) { int x = *p, y = *q; if (x != y) return x - y; }
  return 0;
}
size_t strlen(const char *s) { size_t n = 0; while (((const volatile char *)s)[n]) n++; return n; }
void abort(void) { __builtin_trap(); }
