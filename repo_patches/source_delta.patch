From abd7845a14f1b20002d5ac772923b5dc983a24e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 1/9] fix: call existing fetch32_be_unaligned() in
 tail64_be_unaligned()

The function fetch32_be() is not defined anywhere, therefore t1ha could not
be built for big-endian platforms with efficient unaligned access, i.e. with
T1HA_SYS_UNALIGNED_ACCESS=2 and without the oneshot read.
---
 src/t1ha_bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 93b6b51..5c2eb0c 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -935,7 +935,7 @@ tail64_be_unaligned(const void *v, size_t tail) {
   case 3:
     return (uint32_t)fetch16_be_unaligned(p) << 8 | p[2];
   case 4:
-    return fetch32_be(p);
+    return fetch32_be_unaligned(p);
   case 5:
     return (uint64_t)fetch32_be_unaligned(p) << 8 | p[4];
   case 6:
-- 
2.43.0


From 01e34d90538994874759bae10acc8c13c014dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 2/9] fix: make t1ha0() callable before the library's
 constructor has run

Without IFUNC the t1ha0_funcptr was NULL until t1ha0_init() is called, so
t1ha0() crashed if used by a constructor which was executed earlier. Point it
statically to the resolving proxy, as it was already done for compilers
without __attribute__((__constructor__)).
---
 src/t1ha0.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 635f19d..41a9a14 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -438,14 +438,6 @@ __asm("\t.globl\tt1ha0\n\t.type\tt1ha0, "
       "%gnu_indirect_function\n\t.set\tt1ha0,t1ha0_resolve");
 #endif /* __has_attribute(__ifunc__) */
 
-#elif __GNUC_PREREQ(4, 0) || __has_attribute(__constructor__)
-
-uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t);
-
-static __cold void __attribute__((__constructor__)) t1ha0_init(void) {
-  t1ha0_funcptr = t1ha0_resolve();
-}
-
 #else /* T1HA_USE_INDIRECT_FUNCTIONS */
 
 static __cold uint64_t t1ha0_proxy(const void *data, size_t len,
@@ -456,6 +448,12 @@ static __cold uint64_t t1ha0_proxy(const void *data, size_t len,
 
 uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t) = t1ha0_proxy;
 
+#if __GNUC_PREREQ(4, 0) || __has_attribute(__constructor__)
+static __cold void __attribute__((__constructor__)) t1ha0_init(void) {
+  t1ha0_funcptr = t1ha0_resolve();
+}
+#endif /* __constructor__ */
+
 #endif /* !T1HA_USE_INDIRECT_FUNCTIONS */
 #endif /* T1HA0_RUNTIME_SELECT */
 
-- 
2.43.0


From b546337a05789fb3093c06b708909070db3cc9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 3/9] fix: check that the OS enabled the YMM state before
 choosing AVX code for t1ha0

The CPUID bits tell only that the CPU supports AVX and that XGETBV is usable.
When YMM state is not enabled in XCR0 (e.g. AVX is turned off by kernel or
hypervisor) any AVX instruction raises #UD, i.e. t1ha0() dies by SIGILL.
---
 src/t1ha0.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 41a9a14..ada8a6f 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -369,6 +369,13 @@ __cold uint64_t t1ha_ia32cpu_features(void) {
     if (cpuid_max >= 7)
       __cpuid_count(7, 0, eax, extended, ecx, edx);
   }
+  if (features & UINT32_C(0x08000000) /* OSXSAVE */) {
+    uint32_t xcr0;
+    __asm__ __volatile__("xgetbv" : "=a"(xcr0), "=d"(edx) : "c"(0));
+    if ((xcr0 & 6) != 6)
+      /* The state of XMM and/or YMM registers is not enabled by the OS. */
+      features &= ~UINT32_C(0x10000000) /* AVX */;
+  }
 #elif defined(_MSC_VER)
   int info[4];
   __cpuid(info, 0);
@@ -381,6 +388,9 @@ __cold uint64_t t1ha_ia32cpu_features(void) {
       extended = info[1];
     }
   }
+  if ((features & UINT32_C(0x08000000) /* OSXSAVE */) && (_xgetbv(0) & 6) != 6)
+    /* The state of XMM and/or YMM registers is not enabled by the OS. */
+    features &= ~UINT32_C(0x10000000) /* AVX */;
 #endif
   return features | (uint64_t)extended << 32;
 }
-- 
2.43.0


From c8158511f9e9d5a464408473047b7d9e7d137285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 4/9] fix: read input data through may_alias types

The input of any type was read through pointers to uint16/32/64_t, which is a
violation of the strict aliasing rules. Therefore when t1ha functions were
inlined into a caller (link-time optimization, single translation unit builds)
compilers moved the caller's writes behind the reads by a hash function and
the result was calculated from uninitialized memory.
---
 src/t1ha_bits.h | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 5c2eb0c..fcc2eab 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -401,14 +401,29 @@ static __always_inline uint16_t bswap16(uint16_t v) { return v << 8 | v >> 8; }
 #endif
 #endif /* bswap16 */
 
+/* Input data could have an arbitrary type, so it must be read through types
+ * which are excluded from the type-based aliasing analysis. Otherwise compiler
+ * may reorder such reads with the preceding writes when t1ha-functions are
+ * inlined into a caller, e.g. by the link-time optimization. */
+#if defined(__GNUC__) || __has_attribute(__may_alias__)
+#define T1HA_MAY_ALIAS __attribute__((__may_alias__))
+#else
+#define T1HA_MAY_ALIAS
+#endif
+typedef uint16_t T1HA_MAY_ALIAS t1ha_alias16_t;
+typedef uint32_t T1HA_MAY_ALIAS t1ha_alias32_t;
+typedef uint64_t T1HA_MAY_ALIAS t1ha_alias64_t;
+
 #if defined(__ia32__) ||                                                       \
     T1HA_SYS_UNALIGNED_ACCESS == T1HA_UNALIGNED_ACCESS__EFFICIENT
 /* The __builtin_assume_aligned() leads gcc/clang to load values into the
  * registers, even when it is possible to directly use an operand from memory.
  * This can lead to a shortage of registers and a significant slowdown.
  * Therefore avoid unnecessary use of  __builtin_assume_aligned() for x86. */
-#define read_unaligned(ptr, bits) (*(const uint##bits##_t *__restrict)(ptr))
-#define read_aligned(ptr, bits) (*(const uint##bits##_t *__restrict)(ptr))
+#define read_unaligned(ptr, bits)                                              \
+  (*(const t1ha_alias##bits##_t *__restrict)(ptr))
+#define read_aligned(ptr, bits)                                                \
+  (*(const t1ha_alias##bits##_t *__restrict)(ptr))
 #endif /* __ia32__ */
 
 #ifndef read_unaligned
@@ -418,7 +433,7 @@ typedef struct {
   uint16_t unaligned_16;
   uint32_t unaligned_32;
   uint64_t unaligned_64;
-} __attribute__((__packed__)) t1ha_unaligned_proxy;
+} __attribute__((__packed__)) T1HA_MAY_ALIAS t1ha_unaligned_proxy;
 #define read_unaligned(ptr, bits)                                              \
   (((const t1ha_unaligned_proxy *)((const uint8_t *)(ptr)-offsetof(            \
         t1ha_unaligned_proxy, unaligned_##bits)))                              \
@@ -447,28 +462,29 @@ typedef struct {
 #ifndef read_aligned
 #if __GNUC_PREREQ(4, 8) || __has_builtin(__builtin_assume_aligned)
 #define read_aligned(ptr, bits)                                                \
-  (*(const uint##bits##_t *)__builtin_assume_aligned(ptr, ALIGNMENT_##bits))
+  (*(const t1ha_alias##bits##_t *)__builtin_assume_aligned(                    \
+      ptr, ALIGNMENT_##bits))
 #elif (__GNUC_PREREQ(3, 3) || __has_attribute(__aligned__)) &&                 \
     !defined(__clang__)
 #define read_aligned(ptr, bits)                                                \
-  (*(const uint##bits##_t                                                      \
+  (*(const t1ha_alias##bits##_t                                                \
      __attribute__((__aligned__(ALIGNMENT_##bits))) *)(ptr))
 #elif __has_attribute(__assume_aligned__)
 
 static __always_inline const
-    uint16_t *__attribute__((__assume_aligned__(ALIGNMENT_16)))
+    t1ha_alias16_t *__attribute__((__assume_aligned__(ALIGNMENT_16)))
     cast_aligned_16(const void *ptr) {
-  return (const uint16_t *)ptr;
+  return (const t1ha_alias16_t *)ptr;
 }
 static __always_inline const
-    uint32_t *__attribute__((__assume_aligned__(ALIGNMENT_32)))
+    t1ha_alias32_t *__attribute__((__assume_aligned__(ALIGNMENT_32)))
     cast_aligned_32(const void *ptr) {
-  return (const uint32_t *)ptr;
+  return (const t1ha_alias32_t *)ptr;
 }
 static __always_inline const
-    uint64_t *__attribute__((__assume_aligned__(ALIGNMENT_64)))
+    t1ha_alias64_t *__attribute__((__assume_aligned__(ALIGNMENT_64)))
     cast_aligned_64(const void *ptr) {
-  return (const uint64_t *)ptr;
+  return (const t1ha_alias64_t *)ptr;
 }
 
 #define read_aligned(ptr, bits) (*cast_aligned_##bits(ptr))
@@ -477,7 +493,7 @@ static __always_inline const
 #define read_aligned(ptr, bits)                                                \
   (*(const __declspec(align(ALIGNMENT_##bits)) uint##bits##_t *)(ptr))
 #else
-#define read_aligned(ptr, bits) (*(const uint##bits##_t *)(ptr))
+#define read_aligned(ptr, bits) (*(const t1ha_alias##bits##_t *)(ptr))
 #endif
 #endif /* read_aligned */
 
-- 
2.43.0


From 65b692eaebbd765887ff028782cff11c77fd86ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 5/9] fix: don't read beyond the page end by aligned 64-bit
 oneshot on 32-bit platforms

---
 src/t1ha_bits.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index fcc2eab..70e86fb 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -620,8 +620,11 @@ fetch64_le_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_le_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
-  /* We can perform a 'oneshot' read, which is little bit faster. */
+#if T1HA_USE_FAST_ONESHOT_READ && ALIGNMENT_64 >= 8 &&                         \
+    !defined(__SANITIZE_ADDRESS__)
+  /* We can perform a 'oneshot' read, which is little bit faster.
+   * But if the data is aligned to 4 bytes only (i.e. 32-bit platforms), then
+   * such read could cross the boundary of an accessible memory page. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_le_aligned(p) & ((~UINT64_C(0)) >> shift);
 #else
@@ -863,8 +866,11 @@ fetch64_be_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_be_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
-  /* We can perform a 'oneshot' read, which is little bit faster. */
+#if T1HA_USE_FAST_ONESHOT_READ && ALIGNMENT_64 >= 8 &&                         \
+    !defined(__SANITIZE_ADDRESS__)
+  /* We can perform a 'oneshot' read, which is little bit faster.
+   * But if the data is aligned to 4 bytes only (i.e. 32-bit platforms), then
+   * such read could cross the boundary of an accessible memory page. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_be_aligned(p) >> shift;
 #else
-- 
2.43.0


From 56f4a5fe854e7120313d8ec4ca0ace656a56e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 6/9] fix: don't require 8-byte alignment for input data on
 32-bit platforms

---
 src/t1ha_bits.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 70e86fb..560c86f 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -412,7 +412,14 @@ static __always_inline uint16_t bswap16(uint16_t v) { return v << 8 | v >> 8; }
 #endif
 typedef uint16_t T1HA_MAY_ALIAS t1ha_alias16_t;
 typedef uint32_t T1HA_MAY_ALIAS t1ha_alias32_t;
+#if defined(__GNUC__) || __has_attribute(__aligned__)
+/* On 32-bit platforms the 'aligned' data is aligned to 4 bytes only, but some
+ * ABIs (SPARC, ARM EABI, etc) require more for uint64_t. */
+typedef uint64_t T1HA_MAY_ALIAS __attribute__((__aligned__(ALIGNMENT_64)))
+t1ha_alias64_t;
+#else
 typedef uint64_t T1HA_MAY_ALIAS t1ha_alias64_t;
+#endif
 
 #if defined(__ia32__) ||                                                       \
     T1HA_SYS_UNALIGNED_ACCESS == T1HA_UNALIGNED_ACCESS__EFFICIENT
-- 
2.43.0


From fee437f8a498f92be470c91d050f541e51b24348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 7/9] fix: update the state through may_alias type in mixup64()

With link-time optimization GCC gives t1ha_state256_t a type-based alias set
which doesn't cover 'uint64_t *' when the type is seen by both C and C++ code.
Therefore t1ha2_final() which was linked into a C++ program by -flto has lost
the stores of mixup64() and returned a wrong hash.
---
 src/t1ha_bits.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 560c86f..bd5a7e1 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -1129,9 +1129,12 @@ static __maybe_unused __always_inline uint64_t final64(uint64_t a, uint64_t b) {
   return mux64(x ^ y, prime_5);
 }
 
-static __maybe_unused __always_inline void mixup64(uint64_t *__restrict a,
-                                                   uint64_t *__restrict b,
-                                                   uint64_t v, uint64_t prime) {
+/* The words of t1ha_context_t are updated here through the may_alias type,
+ * since with a link-time optimization GCC assumes that stores through a plain
+ * `uint64_t *` can't change a t1ha_state256_t which is also known to C++ code. */
+static __maybe_unused __always_inline void
+mixup64(t1ha_alias64_t *__restrict a, t1ha_alias64_t *__restrict b, uint64_t v,
+        uint64_t prime) {
   uint64_t h;
   *a ^= mul_64x64_128(*b + v, prime, &h);
   *b += h;
-- 
2.43.0


From 93e61eeda5843bf4233453d2328e722aecc717b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 8/9] fix: export t1ha0_32le() and t1ha0_32be(), the header's
 t1ha0() calls them

Without run-time selection t1ha0() is an inline function of t1ha.h that calls
t1ha0_32le() or t1ha0_32be() on 32-bit platforms. These were not exported from
the shared library, so its users could not link a call of t1ha0().
---
 t1ha.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t1ha.h b/t1ha.h
index 498f0dd..8ea3b46 100644
--- a/t1ha.h
+++ b/t1ha.h
@@ -585,9 +585,9 @@ T1HA_API uint64_t t1ha1_be(const void *data, size_t length, uint64_t seed);
 #ifndef T1HA0_DISABLED
 
 /* The little-endian variant for 32-bit CPU. */
-uint64_t t1ha0_32le(const void *data, size_t length, uint64_t seed);
+T1HA_API uint64_t t1ha0_32le(const void *data, size_t length, uint64_t seed);
 /* The big-endian variant for 32-bit CPU. */
-uint64_t t1ha0_32be(const void *data, size_t length, uint64_t seed);
+T1HA_API uint64_t t1ha0_32be(const void *data, size_t length, uint64_t seed);
 
 /* Define T1HA0_AESNI_AVAILABLE to 0 for disable AES-NI support. */
 #ifndef T1HA0_AESNI_AVAILABLE
-- 
2.43.0


From 3378fd20a2347ae71772f11542b980446151a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 9/9] fix: t1ha0_ia32aes_avx2: length mask was 32 bits wide
 where long is (Win64), inputs of 4 GiB and more were hashed in part

---
 src/t1ha0_ia32aes_b.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha0_ia32aes_b.h b/src/t1ha0_ia32aes_b.h
index f8759dd..3411e5b 100644
--- a/src/t1ha0_ia32aes_b.h
+++ b/src/t1ha0_ia32aes_b.h
@@ -56,7 +56,7 @@ uint64_t T1HA_IA32AES_NAME(const void *data, size_t len, uint64_t seed) {
 
     const __m128i *v = (const __m128i *)data;
     const __m128i *const detent =
-        (const __m128i *)((const uint8_t *)data + (len & ~15ul));
+        (const __m128i *)((const uint8_t *)data + (len & ~(size_t)15));
     data = detent;
 
     if (len & 16) {
-- 
2.43.0

