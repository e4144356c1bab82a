/* Stand-in for <arm_neon.h> (no AArch64 machine here).  Under __CPROVER the
 * intrinsics are only declared, their lane-wise meaning is in engine/intrin.py;
 * otherwise they are executable definitions after the Arm C Language Extensions,
 * with which the NEON translation units run on this machine (native/). */
#pragma once
#include <stdint.h>
#ifdef __CPROVER
typedef unsigned char vcg_q __attribute__((vector_size(16)));
typedef unsigned char vcg_d __attribute__((vector_size(8)));
#define Q8 vcg_q
#define Q16 vcg_q
#define D8 vcg_d
typedef vcg_q __Uint8x16_t, __Uint16x8_t, __Uint32x4_t, __Uint64x2_t;
typedef vcg_d __Uint8x8_t, __Uint16x4_t, __Uint32x2_t, __Uint64x1_t;
#define BODY(e) ;
#define STMT(e) ;
#else
typedef uint8_t __Uint8x16_t __attribute__((vector_size(16)));
typedef uint16_t __Uint16x8_t __attribute__((vector_size(16)));
typedef uint32_t __Uint32x4_t __attribute__((vector_size(16)));
typedef uint64_t __Uint64x2_t __attribute__((vector_size(16)));
typedef uint8_t __Uint8x8_t __attribute__((vector_size(8)));
typedef uint16_t __Uint16x4_t __attribute__((vector_size(8)));
typedef uint32_t __Uint32x2_t __attribute__((vector_size(8)));
typedef uint64_t __Uint64x1_t __attribute__((vector_size(8)));
#define Q8 __Uint8x16_t
#define Q16 __Uint16x8_t
#define D8 __Uint8x8_t
#define BODY(e) { return e; }
#define STMT(e) { e; }
#endif
typedef __Uint8x16_t uint8x16_t, int8x16_t;
typedef __Uint16x8_t uint16x8_t;
typedef __Uint32x4_t uint32x4_t;
typedef __Uint64x2_t uint64x2_t;
typedef __Uint8x8_t uint8x8_t;
#ifdef __CPROVER
#define FN extern
#else
#define FN static inline __attribute__((unused))
static inline Q8 vx_ld(const uint8_t *p) { Q8 r; __builtin_memcpy(&r, p, 16); return r; }
static inline Q8 vx_tbl(Q8 a, Q8 b) { Q8 r; for (int i = 0; i < 16; i++) r[i] = b[i] < 16 ? a[b[i]] : 0; return r; }
static inline Q8 vx_zip(Q8 a, Q8 b, int o) { Q8 r; for (int i = 0; i < 8; i++) { r[2 * i] = a[o + i]; r[2 * i + 1] = b[o + i]; } return r; }
static inline Q16 vx_movl(D8 a) { Q16 r; for (int i = 0; i < 8; i++) r[i] = a[i]; return r; }
static inline D8 vx_half(Q8 a, int o) { D8 r; for (int i = 0; i < 8; i++) r[i] = a[o + i]; return r; }
#endif
FN Q8 vld1q_u8(const uint8_t *p) BODY(vx_ld(p))
FN void vst1q_u8(uint8_t *p, Q8 a) STMT(__builtin_memcpy(p, &a, 16))
FN Q8 vaddq_u8(Q8 a, Q8 b) BODY(a + b)
FN Q8 vsubq_u8(Q8 a, Q8 b) BODY(a - b)
FN Q16 vaddq_u16(Q16 a, Q16 b) BODY(a + b)
FN Q16 vsubq_u16(Q16 a, Q16 b) BODY(a - b)
FN Q16 vmulq_u16(Q16 a, Q16 b) BODY(a * b)
FN Q16 vshrq_n_u16(Q16 a, int n) BODY(a >> n)
FN Q16 vshlq_n_u16(Q16 a, int n) BODY(a << n)
FN Q8 vshrq_n_u8(Q8 a, int n) BODY(a >> n)
FN Q8 vandq_u8(Q8 a, Q8 b) BODY(a & b)
FN Q8 vorrq_u8(Q8 a, Q8 b) BODY(a | b)
FN Q8 veorq_u8(Q8 a, Q8 b) BODY(a ^ b)
FN Q8 vdupq_n_u8(uint8_t n) BODY((Q8){0} + n)
FN Q16 vdupq_n_u16(uint16_t n) BODY((Q16){0} + n)
FN Q8 vzip1q_u8(Q8 a, Q8 b) BODY(vx_zip(a, b, 0))
FN Q8 vzip2q_u8(Q8 a, Q8 b) BODY(vx_zip(a, b, 8))
FN Q16 vmovl_u8(D8 a) BODY(vx_movl(a))
FN D8 vget_low_u8(Q8 a) BODY(vx_half(a, 0))
FN D8 vget_high_u8(Q8 a) BODY(vx_half(a, 8))
FN Q8 vqtbl1q_s8(Q8 a, Q8 b) BODY(vx_tbl(a, b))
FN Q8 vqtbl1q_u8(Q8 a, Q8 b) BODY(vx_tbl(a, b))
#undef FN
#undef BODY
#undef STMT
#undef Q8
#undef Q16
#undef D8
