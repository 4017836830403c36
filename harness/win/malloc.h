#define _mm_malloc vp_mm_malloc /* no allocation here */
#define _mm_free vp_mm_free
