// Stand-in for the ARM header: the two operations the NEON code path uses, as GCC vector operations.
#pragma once
typedef float float32x4_t __attribute__ ((vector_size (16), may_alias));
static inline __attribute__ ((always_inline)) float32x4_t vmulq_f32 (float32x4_t a, float32x4_t b) { return a * b; }
static inline __attribute__ ((always_inline)) float32x4_t vaddq_f32 (float32x4_t a, float32x4_t b) { return a + b; }
