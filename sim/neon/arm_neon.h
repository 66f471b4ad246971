/* The Arm Advanced SIMD intrinsics for integers, stated lane by lane after Arm's definitions (ACLE), so that the NEON sources run in the
 * simulator on any processor. Generated by gen_neon.py. Anything not listed here does not compile, and is never silently approximated. */
#ifndef LSIM_ARM_NEON_H
#define LSIM_ARM_NEON_H
#include <stdint.h>
#include <string.h>
#define LSIM_NEON static inline __attribute__((always_inline, unused))

typedef int8_t int8x8_t __attribute__((vector_size(8)));
typedef int16_t int16x4_t __attribute__((vector_size(8)));
typedef int32_t int32x2_t __attribute__((vector_size(8)));
typedef int64_t int64x1_t __attribute__((vector_size(8)));
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef uint16_t uint16x4_t __attribute__((vector_size(8)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef uint64_t uint64x1_t __attribute__((vector_size(8)));
typedef int8_t int8x16_t __attribute__((vector_size(16)));
typedef int16_t int16x8_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef int64_t int64x2_t __attribute__((vector_size(16)));
typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef uint16_t uint16x8_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
typedef struct { int8x8_t val[2]; } int8x8x2_t;
typedef struct { int8x8_t val[3]; } int8x8x3_t;
typedef struct { int8x8_t val[4]; } int8x8x4_t;
typedef struct { int16x4_t val[2]; } int16x4x2_t;
typedef struct { int16x4_t val[3]; } int16x4x3_t;
typedef struct { int16x4_t val[4]; } int16x4x4_t;
typedef struct { int32x2_t val[2]; } int32x2x2_t;
typedef struct { int32x2_t val[3]; } int32x2x3_t;
typedef struct { int32x2_t val[4]; } int32x2x4_t;
typedef struct { int64x1_t val[2]; } int64x1x2_t;
typedef struct { int64x1_t val[3]; } int64x1x3_t;
typedef struct { int64x1_t val[4]; } int64x1x4_t;
typedef struct { uint8x8_t val[2]; } uint8x8x2_t;
typedef struct { uint8x8_t val[3]; } uint8x8x3_t;
typedef struct { uint8x8_t val[4]; } uint8x8x4_t;
typedef struct { uint16x4_t val[2]; } uint16x4x2_t;
typedef struct { uint16x4_t val[3]; } uint16x4x3_t;
typedef struct { uint16x4_t val[4]; } uint16x4x4_t;
typedef struct { uint32x2_t val[2]; } uint32x2x2_t;
typedef struct { uint32x2_t val[3]; } uint32x2x3_t;
typedef struct { uint32x2_t val[4]; } uint32x2x4_t;
typedef struct { uint64x1_t val[2]; } uint64x1x2_t;
typedef struct { uint64x1_t val[3]; } uint64x1x3_t;
typedef struct { uint64x1_t val[4]; } uint64x1x4_t;
typedef struct { int8x16_t val[2]; } int8x16x2_t;
typedef struct { int8x16_t val[3]; } int8x16x3_t;
typedef struct { int8x16_t val[4]; } int8x16x4_t;
typedef struct { int16x8_t val[2]; } int16x8x2_t;
typedef struct { int16x8_t val[3]; } int16x8x3_t;
typedef struct { int16x8_t val[4]; } int16x8x4_t;
typedef struct { int32x4_t val[2]; } int32x4x2_t;
typedef struct { int32x4_t val[3]; } int32x4x3_t;
typedef struct { int32x4_t val[4]; } int32x4x4_t;
typedef struct { int64x2_t val[2]; } int64x2x2_t;
typedef struct { int64x2_t val[3]; } int64x2x3_t;
typedef struct { int64x2_t val[4]; } int64x2x4_t;
typedef struct { uint8x16_t val[2]; } uint8x16x2_t;
typedef struct { uint8x16_t val[3]; } uint8x16x3_t;
typedef struct { uint8x16_t val[4]; } uint8x16x4_t;
typedef struct { uint16x8_t val[2]; } uint16x8x2_t;
typedef struct { uint16x8_t val[3]; } uint16x8x3_t;
typedef struct { uint16x8_t val[4]; } uint16x8x4_t;
typedef struct { uint32x4_t val[2]; } uint32x4x2_t;
typedef struct { uint32x4_t val[3]; } uint32x4x3_t;
typedef struct { uint32x4_t val[4]; } uint32x4x4_t;
typedef struct { uint64x2_t val[2]; } uint64x2x2_t;
typedef struct { uint64x2_t val[3]; } uint64x2x3_t;
typedef struct { uint64x2_t val[4]; } uint64x2x4_t;
/* names gcc for Arm predefines */
typedef int8x8_t __Int8x8_t;
typedef int16x4_t __Int16x4_t;
typedef int32x2_t __Int32x2_t;
typedef int64x1_t __Int64x1_t;
typedef uint8x8_t __Uint8x8_t;
typedef uint16x4_t __Uint16x4_t;
typedef uint32x2_t __Uint32x2_t;
typedef uint64x1_t __Uint64x1_t;
typedef int8x16_t __Int8x16_t;
typedef int16x8_t __Int16x8_t;
typedef int32x4_t __Int32x4_t;
typedef int64x2_t __Int64x2_t;
typedef uint8x16_t __Uint8x16_t;
typedef uint16x8_t __Uint16x8_t;
typedef uint32x4_t __Uint32x4_t;
typedef uint64x2_t __Uint64x2_t;
LSIM_NEON int8x8_t vld1_s8(const int8_t *p) { int8x8_t r; memcpy(&r, p, 8); return r; }
LSIM_NEON void vst1_s8(int8_t *p, int8x8_t a) { memcpy(p, &a, 8); }
LSIM_NEON int8x8_t vld1_dup_s8(const int8_t *p) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = *p; return r; }
LSIM_NEON int8x8_t vld1_lane_s8(const int8_t *p, int8x8_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1_lane_s8(int8_t *p, int8x8_t a, const int k) { *p = a[k]; }
LSIM_NEON int8x8x2_t vld1_s8_x2(const int8_t *p) { int8x8x2_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1_s8_x2(int8_t *p, int8x8x2_t a) { memcpy(p, &a, 16); }
LSIM_NEON int8x8x2_t vld2_s8(const int8_t *p) { int8x8x2_t r; for (int i = 0; i < 8; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2_s8(int8_t *p, int8x8x2_t a) { for (int i = 0; i < 8; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON int8x8x3_t vld1_s8_x3(const int8_t *p) { int8x8x3_t r; memcpy(&r, p, 24); return r; }
LSIM_NEON void vst1_s8_x3(int8_t *p, int8x8x3_t a) { memcpy(p, &a, 24); }
LSIM_NEON int8x8x3_t vld3_s8(const int8_t *p) { int8x8x3_t r; for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3_s8(int8_t *p, int8x8x3_t a) { for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON int8x8x4_t vld1_s8_x4(const int8_t *p) { int8x8x4_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1_s8_x4(int8_t *p, int8x8x4_t a) { memcpy(p, &a, 32); }
LSIM_NEON int8x8x4_t vld4_s8(const int8_t *p) { int8x8x4_t r; for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4_s8(int8_t *p, int8x8x4_t a) { for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON int8x8_t vadd_s8(int8x8_t a, int8x8_t b) { return (int8x8_t)((uint8x8_t)a + (uint8x8_t)b); }
LSIM_NEON int8x8_t vsub_s8(int8x8_t a, int8x8_t b) { return (int8x8_t)((uint8x8_t)a - (uint8x8_t)b); }
LSIM_NEON int8x8_t vand_s8(int8x8_t a, int8x8_t b) { return (int8x8_t)((uint8x8_t)a & (uint8x8_t)b); }
LSIM_NEON int8x8_t vorr_s8(int8x8_t a, int8x8_t b) { return (int8x8_t)((uint8x8_t)a | (uint8x8_t)b); }
LSIM_NEON int8x8_t veor_s8(int8x8_t a, int8x8_t b) { return (int8x8_t)((uint8x8_t)a ^ (uint8x8_t)b); }
LSIM_NEON int8x8_t vbic_s8(int8x8_t a, int8x8_t b) { return a & ~b; }
LSIM_NEON int8x8_t vorn_s8(int8x8_t a, int8x8_t b) { return a | ~b; }
LSIM_NEON int8x8_t vmvn_s8(int8x8_t a) { return ~a; }
LSIM_NEON int8x8_t vdup_n_s8(int8_t v) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = v; return r; }
LSIM_NEON int8x8_t vmov_n_s8(int8_t v) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = v; return r; }
LSIM_NEON int8_t vget_lane_s8(int8x8_t a, const int k) { return a[k]; }
LSIM_NEON int8x8_t vset_lane_s8(int8_t v, int8x8_t a, const int k) { a[k] = v; return a; }
LSIM_NEON int8x8_t vdup_lane_s8(int8x8_t a, const int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[k]; return r; }
LSIM_NEON int8x8_t vdup_laneq_s8(int8x16_t a, const int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[k]; return r; }
LSIM_NEON int8x8_t vext_s8(int8x8_t a, int8x8_t b, const int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = i + k < 8 ? a[i + k] : b[i + k - 8]; return r; }
LSIM_NEON int8x8_t vbsl_s8(uint8x8_t m, int8x8_t a, int8x8_t b) { return (int8x8_t)((m & (uint8x8_t)a) | (~m & (uint8x8_t)b)); }
LSIM_NEON int8x8_t vzip1_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON int8x8_t vzip2_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[4 + i]; r[2 * i + 1] = b[4 + i]; } return r; }
LSIM_NEON int8x8_t vuzp1_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i]; r[4 + i] = b[2 * i]; } return r; }
LSIM_NEON int8x8_t vuzp2_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i + 1]; r[4 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON int8x8_t vtrn1_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON int8x8_t vtrn2_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON int8x8x2_t vzip_s8(int8x8_t a, int8x8_t b) { int8x8x2_t r; r.val[0] = vzip1_s8(a, b); r.val[1] = vzip2_s8(a, b); return r; }
LSIM_NEON int8x8x2_t vuzp_s8(int8x8_t a, int8x8_t b) { int8x8x2_t r; r.val[0] = vuzp1_s8(a, b); r.val[1] = vuzp2_s8(a, b); return r; }
LSIM_NEON int8x8x2_t vtrn_s8(int8x8_t a, int8x8_t b) { int8x8x2_t r; r.val[0] = vtrn1_s8(a, b); r.val[1] = vtrn2_s8(a, b); return r; }
LSIM_NEON uint8x8_t vceq_s8(int8x8_t a, int8x8_t b) { return (uint8x8_t)(a == b); }
LSIM_NEON uint8x8_t vceqz_s8(int8x8_t a) { return (uint8x8_t)(a == (int8x8_t){0}); }
LSIM_NEON uint8x8_t vcgt_s8(int8x8_t a, int8x8_t b) { return (uint8x8_t)(a > b); }
LSIM_NEON uint8x8_t vcgtz_s8(int8x8_t a) { return (uint8x8_t)(a > (int8x8_t){0}); }
LSIM_NEON uint8x8_t vcge_s8(int8x8_t a, int8x8_t b) { return (uint8x8_t)(a >= b); }
LSIM_NEON uint8x8_t vcgez_s8(int8x8_t a) { return (uint8x8_t)(a >= (int8x8_t){0}); }
LSIM_NEON uint8x8_t vclt_s8(int8x8_t a, int8x8_t b) { return (uint8x8_t)(a < b); }
LSIM_NEON uint8x8_t vcltz_s8(int8x8_t a) { return (uint8x8_t)(a < (int8x8_t){0}); }
LSIM_NEON uint8x8_t vcle_s8(int8x8_t a, int8x8_t b) { return (uint8x8_t)(a <= b); }
LSIM_NEON uint8x8_t vclez_s8(int8x8_t a) { return (uint8x8_t)(a <= (int8x8_t){0}); }
LSIM_NEON uint8x8_t vtst_s8(int8x8_t a, int8x8_t b) { return (uint8x8_t)((a & b) != (int8x8_t){0}); }
LSIM_NEON int8x8_t vmin_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
LSIM_NEON int8x8_t vmax_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
LSIM_NEON int8x8_t vmul_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
LSIM_NEON int8x8_t vmla_s8(int8x8_t a, int8x8_t b, int8x8_t c) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON int8x8_t vmls_s8(int8x8_t a, int8x8_t b, int8x8_t c) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON int8x8_t vabd_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON int8x8_t vaba_s8(int8x8_t c, int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(c[i] + (a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])); return r; }
LSIM_NEON int8x8_t vhadd_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
LSIM_NEON int8x8_t vrhadd_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
LSIM_NEON int8x8_t vhsub_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(((int64_t)a[i] - b[i]) >> 1); return r; }
LSIM_NEON int8x8_t vqadd_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int64_t x = (int64_t)a[i] + b[i]; (int8_t)(x < -((int64_t)1 << 7) ? -((int64_t)1 << 7) : x > ((int64_t)1 << 7) - 1 ? ((int64_t)1 << 7) - 1 : x); }); return r; }
LSIM_NEON int8x8_t vqsub_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int64_t x = (int64_t)a[i] - b[i]; (int8_t)(x < -((int64_t)1 << 7) ? -((int64_t)1 << 7) : x > ((int64_t)1 << 7) - 1 ? ((int64_t)1 << 7) - 1 : x); }); return r; }
LSIM_NEON int8_t vaddv_s8(int8x8_t a) { uint64_t r = 0; for (int i = 0; i < 8; i++) r += (uint64_t)a[i]; return (int8_t)r; }
LSIM_NEON int8_t vmaxv_s8(int8x8_t a) { int8_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] > r ? a[i] : r; return r; }
LSIM_NEON int8_t vminv_s8(int8x8_t a) { int8_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] < r ? a[i] : r; return r; }
LSIM_NEON int16_t vaddlv_s8(int8x8_t a) { int16_t r = 0; for (int i = 0; i < 8; i++) r += a[i]; return r; }
LSIM_NEON int16x4_t vpaddl_s8(int8x8_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON int16x4_t vpadal_s8(int16x4_t c, int8x8_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = c[i] + (int16_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON int8x8_t vpadd_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[i] = (int8_t)((uint64_t)a[2 * i] + (uint64_t)a[2 * i + 1]); r[4 + i] = (int8_t)((uint64_t)b[2 * i] + (uint64_t)b[2 * i + 1]); } return r; }
LSIM_NEON int8x8_t vpmax_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i] > a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[4 + i] = b[2 * i] > b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON int8x8_t vpmin_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i] < a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[4 + i] = b[2 * i] < b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON int8x8_t vclz_s8(int8x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] ? __builtin_clzll((unsigned long long)(uint8_t)a[i]) - 56 : 8; return r; }
LSIM_NEON int8x8_t vcnt_s8(int8x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = __builtin_popcount((uint8_t)a[i]); return r; }
LSIM_NEON int8x8_t vrbit_s8(int8x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) { unsigned v = (uint8_t)a[i], o = 0; for (int k = 0; k < 8; k++) o |= (v >> k & 1) << (7 - k); r[i] = (int8_t)o; } return r; }
LSIM_NEON int8x8_t vrev16_s8(int8x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 1]; return r; }
LSIM_NEON int8x8_t vrev32_s8(int8x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 3]; return r; }
LSIM_NEON int8x8_t vrev64_s8(int8x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 7]; return r; }
LSIM_NEON int8x8_t vneg_s8(int8x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(0 - (uint64_t)a[i]); return r; }
LSIM_NEON int8x8_t vabs_s8(int8x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(a[i] < 0 ? 0 - (uint64_t)a[i] : (uint64_t)a[i]); return r; }
LSIM_NEON int8x8_t vshr_n_s8(int8x8_t a, const int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(k >= 8 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k)); return r; }
LSIM_NEON int8x8_t vsra_n_s8(int8x8_t c, int8x8_t a, const int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)((uint64_t)c[i] + (uint64_t)(int8_t)(k >= 8 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); return r; }
LSIM_NEON int8x8_t vrshr_n_s8(int8x8_t a, const int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(((int8_t)(k >= 8 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON int8x8_t vshl_n_s8(int8x8_t a, const int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON int8x8_t vsli_n_s8(int8x8_t a, int8x8_t b, const int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON int8x8_t vsri_n_s8(int8x8_t a, int8x8_t b, const int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(({ uint64_t m = k >= 8 ? 0 : (uint8_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 8 ? 0 : (uint64_t)((uint8_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON int8x8_t vshl_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (int8_t)(s >= 8 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(int8_t)(k >= 8 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); }); return r; }
LSIM_NEON int16x4_t vld1_s16(const int16_t *p) { int16x4_t r; memcpy(&r, p, 8); return r; }
LSIM_NEON void vst1_s16(int16_t *p, int16x4_t a) { memcpy(p, &a, 8); }
LSIM_NEON int16x4_t vld1_dup_s16(const int16_t *p) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = *p; return r; }
LSIM_NEON int16x4_t vld1_lane_s16(const int16_t *p, int16x4_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1_lane_s16(int16_t *p, int16x4_t a, const int k) { *p = a[k]; }
LSIM_NEON int16x4x2_t vld1_s16_x2(const int16_t *p) { int16x4x2_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1_s16_x2(int16_t *p, int16x4x2_t a) { memcpy(p, &a, 16); }
LSIM_NEON int16x4x2_t vld2_s16(const int16_t *p) { int16x4x2_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2_s16(int16_t *p, int16x4x2_t a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON int16x4x3_t vld1_s16_x3(const int16_t *p) { int16x4x3_t r; memcpy(&r, p, 24); return r; }
LSIM_NEON void vst1_s16_x3(int16_t *p, int16x4x3_t a) { memcpy(p, &a, 24); }
LSIM_NEON int16x4x3_t vld3_s16(const int16_t *p) { int16x4x3_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3_s16(int16_t *p, int16x4x3_t a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON int16x4x4_t vld1_s16_x4(const int16_t *p) { int16x4x4_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1_s16_x4(int16_t *p, int16x4x4_t a) { memcpy(p, &a, 32); }
LSIM_NEON int16x4x4_t vld4_s16(const int16_t *p) { int16x4x4_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4_s16(int16_t *p, int16x4x4_t a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON int16x4_t vadd_s16(int16x4_t a, int16x4_t b) { return (int16x4_t)((uint16x4_t)a + (uint16x4_t)b); }
LSIM_NEON int16x4_t vsub_s16(int16x4_t a, int16x4_t b) { return (int16x4_t)((uint16x4_t)a - (uint16x4_t)b); }
LSIM_NEON int16x4_t vand_s16(int16x4_t a, int16x4_t b) { return (int16x4_t)((uint16x4_t)a & (uint16x4_t)b); }
LSIM_NEON int16x4_t vorr_s16(int16x4_t a, int16x4_t b) { return (int16x4_t)((uint16x4_t)a | (uint16x4_t)b); }
LSIM_NEON int16x4_t veor_s16(int16x4_t a, int16x4_t b) { return (int16x4_t)((uint16x4_t)a ^ (uint16x4_t)b); }
LSIM_NEON int16x4_t vbic_s16(int16x4_t a, int16x4_t b) { return a & ~b; }
LSIM_NEON int16x4_t vorn_s16(int16x4_t a, int16x4_t b) { return a | ~b; }
LSIM_NEON int16x4_t vmvn_s16(int16x4_t a) { return ~a; }
LSIM_NEON int16x4_t vdup_n_s16(int16_t v) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = v; return r; }
LSIM_NEON int16x4_t vmov_n_s16(int16_t v) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = v; return r; }
LSIM_NEON int16_t vget_lane_s16(int16x4_t a, const int k) { return a[k]; }
LSIM_NEON int16x4_t vset_lane_s16(int16_t v, int16x4_t a, const int k) { a[k] = v; return a; }
LSIM_NEON int16x4_t vdup_lane_s16(int16x4_t a, const int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[k]; return r; }
LSIM_NEON int16x4_t vdup_laneq_s16(int16x8_t a, const int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[k]; return r; }
LSIM_NEON int16x4_t vext_s16(int16x4_t a, int16x4_t b, const int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = i + k < 4 ? a[i + k] : b[i + k - 4]; return r; }
LSIM_NEON int16x4_t vbsl_s16(uint16x4_t m, int16x4_t a, int16x4_t b) { return (int16x4_t)((m & (uint16x4_t)a) | (~m & (uint16x4_t)b)); }
LSIM_NEON int16x4_t vzip1_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON int16x4_t vzip2_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[2 + i]; r[2 * i + 1] = b[2 + i]; } return r; }
LSIM_NEON int16x4_t vuzp1_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i]; r[2 + i] = b[2 * i]; } return r; }
LSIM_NEON int16x4_t vuzp2_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i + 1]; r[2 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON int16x4_t vtrn1_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON int16x4_t vtrn2_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON int16x4x2_t vzip_s16(int16x4_t a, int16x4_t b) { int16x4x2_t r; r.val[0] = vzip1_s16(a, b); r.val[1] = vzip2_s16(a, b); return r; }
LSIM_NEON int16x4x2_t vuzp_s16(int16x4_t a, int16x4_t b) { int16x4x2_t r; r.val[0] = vuzp1_s16(a, b); r.val[1] = vuzp2_s16(a, b); return r; }
LSIM_NEON int16x4x2_t vtrn_s16(int16x4_t a, int16x4_t b) { int16x4x2_t r; r.val[0] = vtrn1_s16(a, b); r.val[1] = vtrn2_s16(a, b); return r; }
LSIM_NEON uint16x4_t vceq_s16(int16x4_t a, int16x4_t b) { return (uint16x4_t)(a == b); }
LSIM_NEON uint16x4_t vceqz_s16(int16x4_t a) { return (uint16x4_t)(a == (int16x4_t){0}); }
LSIM_NEON uint16x4_t vcgt_s16(int16x4_t a, int16x4_t b) { return (uint16x4_t)(a > b); }
LSIM_NEON uint16x4_t vcgtz_s16(int16x4_t a) { return (uint16x4_t)(a > (int16x4_t){0}); }
LSIM_NEON uint16x4_t vcge_s16(int16x4_t a, int16x4_t b) { return (uint16x4_t)(a >= b); }
LSIM_NEON uint16x4_t vcgez_s16(int16x4_t a) { return (uint16x4_t)(a >= (int16x4_t){0}); }
LSIM_NEON uint16x4_t vclt_s16(int16x4_t a, int16x4_t b) { return (uint16x4_t)(a < b); }
LSIM_NEON uint16x4_t vcltz_s16(int16x4_t a) { return (uint16x4_t)(a < (int16x4_t){0}); }
LSIM_NEON uint16x4_t vcle_s16(int16x4_t a, int16x4_t b) { return (uint16x4_t)(a <= b); }
LSIM_NEON uint16x4_t vclez_s16(int16x4_t a) { return (uint16x4_t)(a <= (int16x4_t){0}); }
LSIM_NEON uint16x4_t vtst_s16(int16x4_t a, int16x4_t b) { return (uint16x4_t)((a & b) != (int16x4_t){0}); }
LSIM_NEON int16x4_t vmin_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
LSIM_NEON int16x4_t vmax_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
LSIM_NEON int16x4_t vmul_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
LSIM_NEON int16x4_t vmla_s16(int16x4_t a, int16x4_t b, int16x4_t c) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON int16x4_t vmls_s16(int16x4_t a, int16x4_t b, int16x4_t c) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON int16x4_t vmul_n_s16(int16x4_t a, int16_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((uint64_t)a[i] * (uint64_t)b); return r; }
LSIM_NEON int16x4_t vmla_n_s16(int16x4_t a, int16x4_t b, int16_t c) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON int16x4_t vmls_n_s16(int16x4_t a, int16x4_t b, int16_t c) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON int16x4_t vabd_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON int16x4_t vaba_s16(int16x4_t c, int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(c[i] + (a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])); return r; }
LSIM_NEON int16x4_t vhadd_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
LSIM_NEON int16x4_t vrhadd_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
LSIM_NEON int16x4_t vhsub_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(((int64_t)a[i] - b[i]) >> 1); return r; }
LSIM_NEON int16x4_t vqadd_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int64_t x = (int64_t)a[i] + b[i]; (int16_t)(x < -((int64_t)1 << 15) ? -((int64_t)1 << 15) : x > ((int64_t)1 << 15) - 1 ? ((int64_t)1 << 15) - 1 : x); }); return r; }
LSIM_NEON int16x4_t vqsub_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int64_t x = (int64_t)a[i] - b[i]; (int16_t)(x < -((int64_t)1 << 15) ? -((int64_t)1 << 15) : x > ((int64_t)1 << 15) - 1 ? ((int64_t)1 << 15) - 1 : x); }); return r; }
LSIM_NEON int16_t vaddv_s16(int16x4_t a) { uint64_t r = 0; for (int i = 0; i < 4; i++) r += (uint64_t)a[i]; return (int16_t)r; }
LSIM_NEON int16_t vmaxv_s16(int16x4_t a) { int16_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] > r ? a[i] : r; return r; }
LSIM_NEON int16_t vminv_s16(int16x4_t a) { int16_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] < r ? a[i] : r; return r; }
LSIM_NEON int32_t vaddlv_s16(int16x4_t a) { int32_t r = 0; for (int i = 0; i < 4; i++) r += a[i]; return r; }
LSIM_NEON int32x2_t vpaddl_s16(int16x4_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON int32x2_t vpadal_s16(int32x2_t c, int16x4_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = c[i] + (int32_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON int16x4_t vpadd_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[i] = (int16_t)((uint64_t)a[2 * i] + (uint64_t)a[2 * i + 1]); r[2 + i] = (int16_t)((uint64_t)b[2 * i] + (uint64_t)b[2 * i + 1]); } return r; }
LSIM_NEON int16x4_t vpmax_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i] > a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[2 + i] = b[2 * i] > b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON int16x4_t vpmin_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i] < a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[2 + i] = b[2 * i] < b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON int16x4_t vclz_s16(int16x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] ? __builtin_clzll((unsigned long long)(uint16_t)a[i]) - 48 : 16; return r; }
LSIM_NEON int16x4_t vrev32_s16(int16x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 1]; return r; }
LSIM_NEON int16x4_t vrev64_s16(int16x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 3]; return r; }
LSIM_NEON int16x4_t vneg_s16(int16x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(0 - (uint64_t)a[i]); return r; }
LSIM_NEON int16x4_t vabs_s16(int16x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(a[i] < 0 ? 0 - (uint64_t)a[i] : (uint64_t)a[i]); return r; }
LSIM_NEON int16x4_t vshr_n_s16(int16x4_t a, const int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(k >= 16 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k)); return r; }
LSIM_NEON int16x4_t vsra_n_s16(int16x4_t c, int16x4_t a, const int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((uint64_t)c[i] + (uint64_t)(int16_t)(k >= 16 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); return r; }
LSIM_NEON int16x4_t vrshr_n_s16(int16x4_t a, const int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(((int16_t)(k >= 16 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON int16x4_t vshl_n_s16(int16x4_t a, const int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON int16x4_t vsli_n_s16(int16x4_t a, int16x4_t b, const int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON int16x4_t vsri_n_s16(int16x4_t a, int16x4_t b, const int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(({ uint64_t m = k >= 16 ? 0 : (uint16_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 16 ? 0 : (uint64_t)((uint16_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON int16x4_t vshl_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (int16_t)(s >= 16 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(int16_t)(k >= 16 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); }); return r; }
LSIM_NEON int32x2_t vld1_s32(const int32_t *p) { int32x2_t r; memcpy(&r, p, 8); return r; }
LSIM_NEON void vst1_s32(int32_t *p, int32x2_t a) { memcpy(p, &a, 8); }
LSIM_NEON int32x2_t vld1_dup_s32(const int32_t *p) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = *p; return r; }
LSIM_NEON int32x2_t vld1_lane_s32(const int32_t *p, int32x2_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1_lane_s32(int32_t *p, int32x2_t a, const int k) { *p = a[k]; }
LSIM_NEON int32x2x2_t vld1_s32_x2(const int32_t *p) { int32x2x2_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1_s32_x2(int32_t *p, int32x2x2_t a) { memcpy(p, &a, 16); }
LSIM_NEON int32x2x2_t vld2_s32(const int32_t *p) { int32x2x2_t r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2_s32(int32_t *p, int32x2x2_t a) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON int32x2x3_t vld1_s32_x3(const int32_t *p) { int32x2x3_t r; memcpy(&r, p, 24); return r; }
LSIM_NEON void vst1_s32_x3(int32_t *p, int32x2x3_t a) { memcpy(p, &a, 24); }
LSIM_NEON int32x2x3_t vld3_s32(const int32_t *p) { int32x2x3_t r; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3_s32(int32_t *p, int32x2x3_t a) { for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON int32x2x4_t vld1_s32_x4(const int32_t *p) { int32x2x4_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1_s32_x4(int32_t *p, int32x2x4_t a) { memcpy(p, &a, 32); }
LSIM_NEON int32x2x4_t vld4_s32(const int32_t *p) { int32x2x4_t r; for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4_s32(int32_t *p, int32x2x4_t a) { for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON int32x2_t vadd_s32(int32x2_t a, int32x2_t b) { return (int32x2_t)((uint32x2_t)a + (uint32x2_t)b); }
LSIM_NEON int32x2_t vsub_s32(int32x2_t a, int32x2_t b) { return (int32x2_t)((uint32x2_t)a - (uint32x2_t)b); }
LSIM_NEON int32x2_t vand_s32(int32x2_t a, int32x2_t b) { return (int32x2_t)((uint32x2_t)a & (uint32x2_t)b); }
LSIM_NEON int32x2_t vorr_s32(int32x2_t a, int32x2_t b) { return (int32x2_t)((uint32x2_t)a | (uint32x2_t)b); }
LSIM_NEON int32x2_t veor_s32(int32x2_t a, int32x2_t b) { return (int32x2_t)((uint32x2_t)a ^ (uint32x2_t)b); }
LSIM_NEON int32x2_t vbic_s32(int32x2_t a, int32x2_t b) { return a & ~b; }
LSIM_NEON int32x2_t vorn_s32(int32x2_t a, int32x2_t b) { return a | ~b; }
LSIM_NEON int32x2_t vmvn_s32(int32x2_t a) { return ~a; }
LSIM_NEON int32x2_t vdup_n_s32(int32_t v) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = v; return r; }
LSIM_NEON int32x2_t vmov_n_s32(int32_t v) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = v; return r; }
LSIM_NEON int32_t vget_lane_s32(int32x2_t a, const int k) { return a[k]; }
LSIM_NEON int32x2_t vset_lane_s32(int32_t v, int32x2_t a, const int k) { a[k] = v; return a; }
LSIM_NEON int32x2_t vdup_lane_s32(int32x2_t a, const int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[k]; return r; }
LSIM_NEON int32x2_t vdup_laneq_s32(int32x4_t a, const int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[k]; return r; }
LSIM_NEON int32x2_t vext_s32(int32x2_t a, int32x2_t b, const int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = i + k < 2 ? a[i + k] : b[i + k - 2]; return r; }
LSIM_NEON int32x2_t vbsl_s32(uint32x2_t m, int32x2_t a, int32x2_t b) { return (int32x2_t)((m & (uint32x2_t)a) | (~m & (uint32x2_t)b)); }
LSIM_NEON int32x2_t vzip1_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON int32x2_t vzip2_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[1 + i]; r[2 * i + 1] = b[1 + i]; } return r; }
LSIM_NEON int32x2_t vuzp1_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2 * i]; r[1 + i] = b[2 * i]; } return r; }
LSIM_NEON int32x2_t vuzp2_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2 * i + 1]; r[1 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON int32x2_t vtrn1_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON int32x2_t vtrn2_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON int32x2x2_t vzip_s32(int32x2_t a, int32x2_t b) { int32x2x2_t r; r.val[0] = vzip1_s32(a, b); r.val[1] = vzip2_s32(a, b); return r; }
LSIM_NEON int32x2x2_t vuzp_s32(int32x2_t a, int32x2_t b) { int32x2x2_t r; r.val[0] = vuzp1_s32(a, b); r.val[1] = vuzp2_s32(a, b); return r; }
LSIM_NEON int32x2x2_t vtrn_s32(int32x2_t a, int32x2_t b) { int32x2x2_t r; r.val[0] = vtrn1_s32(a, b); r.val[1] = vtrn2_s32(a, b); return r; }
LSIM_NEON uint32x2_t vceq_s32(int32x2_t a, int32x2_t b) { return (uint32x2_t)(a == b); }
LSIM_NEON uint32x2_t vceqz_s32(int32x2_t a) { return (uint32x2_t)(a == (int32x2_t){0}); }
LSIM_NEON uint32x2_t vcgt_s32(int32x2_t a, int32x2_t b) { return (uint32x2_t)(a > b); }
LSIM_NEON uint32x2_t vcgtz_s32(int32x2_t a) { return (uint32x2_t)(a > (int32x2_t){0}); }
LSIM_NEON uint32x2_t vcge_s32(int32x2_t a, int32x2_t b) { return (uint32x2_t)(a >= b); }
LSIM_NEON uint32x2_t vcgez_s32(int32x2_t a) { return (uint32x2_t)(a >= (int32x2_t){0}); }
LSIM_NEON uint32x2_t vclt_s32(int32x2_t a, int32x2_t b) { return (uint32x2_t)(a < b); }
LSIM_NEON uint32x2_t vcltz_s32(int32x2_t a) { return (uint32x2_t)(a < (int32x2_t){0}); }
LSIM_NEON uint32x2_t vcle_s32(int32x2_t a, int32x2_t b) { return (uint32x2_t)(a <= b); }
LSIM_NEON uint32x2_t vclez_s32(int32x2_t a) { return (uint32x2_t)(a <= (int32x2_t){0}); }
LSIM_NEON uint32x2_t vtst_s32(int32x2_t a, int32x2_t b) { return (uint32x2_t)((a & b) != (int32x2_t){0}); }
LSIM_NEON int32x2_t vmin_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
LSIM_NEON int32x2_t vmax_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
LSIM_NEON int32x2_t vmul_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
LSIM_NEON int32x2_t vmla_s32(int32x2_t a, int32x2_t b, int32x2_t c) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON int32x2_t vmls_s32(int32x2_t a, int32x2_t b, int32x2_t c) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON int32x2_t vmul_n_s32(int32x2_t a, int32_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint64_t)a[i] * (uint64_t)b); return r; }
LSIM_NEON int32x2_t vmla_n_s32(int32x2_t a, int32x2_t b, int32_t c) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON int32x2_t vmls_n_s32(int32x2_t a, int32x2_t b, int32_t c) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON int32x2_t vabd_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON int32x2_t vaba_s32(int32x2_t c, int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(c[i] + (a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])); return r; }
LSIM_NEON int32x2_t vhadd_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
LSIM_NEON int32x2_t vrhadd_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
LSIM_NEON int32x2_t vhsub_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(((int64_t)a[i] - b[i]) >> 1); return r; }
LSIM_NEON int32x2_t vqadd_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = ({ int64_t x = (int64_t)a[i] + b[i]; (int32_t)(x < -((int64_t)1 << 31) ? -((int64_t)1 << 31) : x > ((int64_t)1 << 31) - 1 ? ((int64_t)1 << 31) - 1 : x); }); return r; }
LSIM_NEON int32x2_t vqsub_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = ({ int64_t x = (int64_t)a[i] - b[i]; (int32_t)(x < -((int64_t)1 << 31) ? -((int64_t)1 << 31) : x > ((int64_t)1 << 31) - 1 ? ((int64_t)1 << 31) - 1 : x); }); return r; }
LSIM_NEON int32_t vaddv_s32(int32x2_t a) { uint64_t r = 0; for (int i = 0; i < 2; i++) r += (uint64_t)a[i]; return (int32_t)r; }
LSIM_NEON int32_t vmaxv_s32(int32x2_t a) { int32_t r = a[0]; for (int i = 1; i < 2; i++) r = a[i] > r ? a[i] : r; return r; }
LSIM_NEON int32_t vminv_s32(int32x2_t a) { int32_t r = a[0]; for (int i = 1; i < 2; i++) r = a[i] < r ? a[i] : r; return r; }
LSIM_NEON int64_t vaddlv_s32(int32x2_t a) { int64_t r = 0; for (int i = 0; i < 2; i++) r += a[i]; return r; }
LSIM_NEON int64x1_t vpaddl_s32(int32x2_t a) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON int64x1_t vpadal_s32(int64x1_t c, int32x2_t a) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = c[i] + (int64_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON int32x2_t vpadd_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[i] = (int32_t)((uint64_t)a[2 * i] + (uint64_t)a[2 * i + 1]); r[1 + i] = (int32_t)((uint64_t)b[2 * i] + (uint64_t)b[2 * i + 1]); } return r; }
LSIM_NEON int32x2_t vpmax_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2 * i] > a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[1 + i] = b[2 * i] > b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON int32x2_t vpmin_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2 * i] < a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[1 + i] = b[2 * i] < b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON int32x2_t vclz_s32(int32x2_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] ? __builtin_clzll((unsigned long long)(uint32_t)a[i]) - 32 : 32; return r; }
LSIM_NEON int32x2_t vrev64_s32(int32x2_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i ^ 1]; return r; }
LSIM_NEON int32x2_t vneg_s32(int32x2_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(0 - (uint64_t)a[i]); return r; }
LSIM_NEON int32x2_t vabs_s32(int32x2_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(a[i] < 0 ? 0 - (uint64_t)a[i] : (uint64_t)a[i]); return r; }
LSIM_NEON int32x2_t vshr_n_s32(int32x2_t a, const int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(k >= 32 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k)); return r; }
LSIM_NEON int32x2_t vsra_n_s32(int32x2_t c, int32x2_t a, const int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint64_t)c[i] + (uint64_t)(int32_t)(k >= 32 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); return r; }
LSIM_NEON int32x2_t vrshr_n_s32(int32x2_t a, const int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(((int32_t)(k >= 32 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON int32x2_t vshl_n_s32(int32x2_t a, const int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON int32x2_t vsli_n_s32(int32x2_t a, int32x2_t b, const int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON int32x2_t vsri_n_s32(int32x2_t a, int32x2_t b, const int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(({ uint64_t m = k >= 32 ? 0 : (uint32_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 32 ? 0 : (uint64_t)((uint32_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON int32x2_t vshl_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (int32_t)(s >= 32 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(int32_t)(k >= 32 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); }); return r; }
LSIM_NEON int64x1_t vld1_s64(const int64_t *p) { int64x1_t r; memcpy(&r, p, 8); return r; }
LSIM_NEON void vst1_s64(int64_t *p, int64x1_t a) { memcpy(p, &a, 8); }
LSIM_NEON int64x1_t vld1_dup_s64(const int64_t *p) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = *p; return r; }
LSIM_NEON int64x1_t vld1_lane_s64(const int64_t *p, int64x1_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1_lane_s64(int64_t *p, int64x1_t a, const int k) { *p = a[k]; }
LSIM_NEON int64x1x2_t vld1_s64_x2(const int64_t *p) { int64x1x2_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1_s64_x2(int64_t *p, int64x1x2_t a) { memcpy(p, &a, 16); }
LSIM_NEON int64x1x2_t vld2_s64(const int64_t *p) { int64x1x2_t r; for (int i = 0; i < 1; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2_s64(int64_t *p, int64x1x2_t a) { for (int i = 0; i < 1; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON int64x1x3_t vld1_s64_x3(const int64_t *p) { int64x1x3_t r; memcpy(&r, p, 24); return r; }
LSIM_NEON void vst1_s64_x3(int64_t *p, int64x1x3_t a) { memcpy(p, &a, 24); }
LSIM_NEON int64x1x3_t vld3_s64(const int64_t *p) { int64x1x3_t r; for (int i = 0; i < 1; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3_s64(int64_t *p, int64x1x3_t a) { for (int i = 0; i < 1; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON int64x1x4_t vld1_s64_x4(const int64_t *p) { int64x1x4_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1_s64_x4(int64_t *p, int64x1x4_t a) { memcpy(p, &a, 32); }
LSIM_NEON int64x1x4_t vld4_s64(const int64_t *p) { int64x1x4_t r; for (int i = 0; i < 1; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4_s64(int64_t *p, int64x1x4_t a) { for (int i = 0; i < 1; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON int64x1_t vadd_s64(int64x1_t a, int64x1_t b) { return (int64x1_t)((uint64x1_t)a + (uint64x1_t)b); }
LSIM_NEON int64x1_t vsub_s64(int64x1_t a, int64x1_t b) { return (int64x1_t)((uint64x1_t)a - (uint64x1_t)b); }
LSIM_NEON int64x1_t vand_s64(int64x1_t a, int64x1_t b) { return (int64x1_t)((uint64x1_t)a & (uint64x1_t)b); }
LSIM_NEON int64x1_t vorr_s64(int64x1_t a, int64x1_t b) { return (int64x1_t)((uint64x1_t)a | (uint64x1_t)b); }
LSIM_NEON int64x1_t veor_s64(int64x1_t a, int64x1_t b) { return (int64x1_t)((uint64x1_t)a ^ (uint64x1_t)b); }
LSIM_NEON int64x1_t vbic_s64(int64x1_t a, int64x1_t b) { return a & ~b; }
LSIM_NEON int64x1_t vorn_s64(int64x1_t a, int64x1_t b) { return a | ~b; }
LSIM_NEON int64x1_t vdup_n_s64(int64_t v) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = v; return r; }
LSIM_NEON int64x1_t vmov_n_s64(int64_t v) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = v; return r; }
LSIM_NEON int64_t vget_lane_s64(int64x1_t a, const int k) { return a[k]; }
LSIM_NEON int64x1_t vset_lane_s64(int64_t v, int64x1_t a, const int k) { a[k] = v; return a; }
LSIM_NEON int64x1_t vdup_lane_s64(int64x1_t a, const int k) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[k]; return r; }
LSIM_NEON int64x1_t vdup_laneq_s64(int64x2_t a, const int k) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[k]; return r; }
LSIM_NEON int64x1_t vext_s64(int64x1_t a, int64x1_t b, const int k) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = i + k < 1 ? a[i + k] : b[i + k - 1]; return r; }
LSIM_NEON int64x1_t vbsl_s64(uint64x1_t m, int64x1_t a, int64x1_t b) { return (int64x1_t)((m & (uint64x1_t)a) | (~m & (uint64x1_t)b)); }
LSIM_NEON uint64x1_t vceq_s64(int64x1_t a, int64x1_t b) { return (uint64x1_t)(a == b); }
LSIM_NEON uint64x1_t vceqz_s64(int64x1_t a) { return (uint64x1_t)(a == (int64x1_t){0}); }
LSIM_NEON uint64x1_t vcgt_s64(int64x1_t a, int64x1_t b) { return (uint64x1_t)(a > b); }
LSIM_NEON uint64x1_t vcgtz_s64(int64x1_t a) { return (uint64x1_t)(a > (int64x1_t){0}); }
LSIM_NEON uint64x1_t vcge_s64(int64x1_t a, int64x1_t b) { return (uint64x1_t)(a >= b); }
LSIM_NEON uint64x1_t vcgez_s64(int64x1_t a) { return (uint64x1_t)(a >= (int64x1_t){0}); }
LSIM_NEON uint64x1_t vclt_s64(int64x1_t a, int64x1_t b) { return (uint64x1_t)(a < b); }
LSIM_NEON uint64x1_t vcltz_s64(int64x1_t a) { return (uint64x1_t)(a < (int64x1_t){0}); }
LSIM_NEON uint64x1_t vcle_s64(int64x1_t a, int64x1_t b) { return (uint64x1_t)(a <= b); }
LSIM_NEON uint64x1_t vclez_s64(int64x1_t a) { return (uint64x1_t)(a <= (int64x1_t){0}); }
LSIM_NEON uint64x1_t vtst_s64(int64x1_t a, int64x1_t b) { return (uint64x1_t)((a & b) != (int64x1_t){0}); }
LSIM_NEON int64x1_t vneg_s64(int64x1_t a) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)(0 - (uint64_t)a[i]); return r; }
LSIM_NEON int64x1_t vabs_s64(int64x1_t a) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)(a[i] < 0 ? 0 - (uint64_t)a[i] : (uint64_t)a[i]); return r; }
LSIM_NEON int64x1_t vshr_n_s64(int64x1_t a, const int k) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)(k >= 64 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k)); return r; }
LSIM_NEON int64x1_t vsra_n_s64(int64x1_t c, int64x1_t a, const int k) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)((uint64_t)c[i] + (uint64_t)(int64_t)(k >= 64 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); return r; }
LSIM_NEON int64x1_t vrshr_n_s64(int64x1_t a, const int k) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)(((int64_t)(k >= 64 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON int64x1_t vshl_n_s64(int64x1_t a, const int k) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON int64x1_t vsli_n_s64(int64x1_t a, int64x1_t b, const int k) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON int64x1_t vsri_n_s64(int64x1_t a, int64x1_t b, const int k) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)(({ uint64_t m = k >= 64 ? 0 : (uint64_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 64 ? 0 : (uint64_t)((uint64_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON int64x1_t vshl_s64(int64x1_t a, int64x1_t b) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (int64_t)(s >= 64 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(int64_t)(k >= 64 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); }); return r; }
LSIM_NEON uint8x8_t vld1_u8(const uint8_t *p) { uint8x8_t r; memcpy(&r, p, 8); return r; }
LSIM_NEON void vst1_u8(uint8_t *p, uint8x8_t a) { memcpy(p, &a, 8); }
LSIM_NEON uint8x8_t vld1_dup_u8(const uint8_t *p) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = *p; return r; }
LSIM_NEON uint8x8_t vld1_lane_u8(const uint8_t *p, uint8x8_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1_lane_u8(uint8_t *p, uint8x8_t a, const int k) { *p = a[k]; }
LSIM_NEON uint8x8x2_t vld1_u8_x2(const uint8_t *p) { uint8x8x2_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1_u8_x2(uint8_t *p, uint8x8x2_t a) { memcpy(p, &a, 16); }
LSIM_NEON uint8x8x2_t vld2_u8(const uint8_t *p) { uint8x8x2_t r; for (int i = 0; i < 8; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2_u8(uint8_t *p, uint8x8x2_t a) { for (int i = 0; i < 8; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON uint8x8x3_t vld1_u8_x3(const uint8_t *p) { uint8x8x3_t r; memcpy(&r, p, 24); return r; }
LSIM_NEON void vst1_u8_x3(uint8_t *p, uint8x8x3_t a) { memcpy(p, &a, 24); }
LSIM_NEON uint8x8x3_t vld3_u8(const uint8_t *p) { uint8x8x3_t r; for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3_u8(uint8_t *p, uint8x8x3_t a) { for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON uint8x8x4_t vld1_u8_x4(const uint8_t *p) { uint8x8x4_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1_u8_x4(uint8_t *p, uint8x8x4_t a) { memcpy(p, &a, 32); }
LSIM_NEON uint8x8x4_t vld4_u8(const uint8_t *p) { uint8x8x4_t r; for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4_u8(uint8_t *p, uint8x8x4_t a) { for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON uint8x8_t vadd_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8_t)((uint8x8_t)a + (uint8x8_t)b); }
LSIM_NEON uint8x8_t vsub_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8_t)((uint8x8_t)a - (uint8x8_t)b); }
LSIM_NEON uint8x8_t vand_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8_t)((uint8x8_t)a & (uint8x8_t)b); }
LSIM_NEON uint8x8_t vorr_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8_t)((uint8x8_t)a | (uint8x8_t)b); }
LSIM_NEON uint8x8_t veor_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8_t)((uint8x8_t)a ^ (uint8x8_t)b); }
LSIM_NEON uint8x8_t vbic_u8(uint8x8_t a, uint8x8_t b) { return a & ~b; }
LSIM_NEON uint8x8_t vorn_u8(uint8x8_t a, uint8x8_t b) { return a | ~b; }
LSIM_NEON uint8x8_t vmvn_u8(uint8x8_t a) { return ~a; }
LSIM_NEON uint8x8_t vdup_n_u8(uint8_t v) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = v; return r; }
LSIM_NEON uint8x8_t vmov_n_u8(uint8_t v) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = v; return r; }
LSIM_NEON uint8_t vget_lane_u8(uint8x8_t a, const int k) { return a[k]; }
LSIM_NEON uint8x8_t vset_lane_u8(uint8_t v, uint8x8_t a, const int k) { a[k] = v; return a; }
LSIM_NEON uint8x8_t vdup_lane_u8(uint8x8_t a, const int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[k]; return r; }
LSIM_NEON uint8x8_t vdup_laneq_u8(uint8x16_t a, const int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[k]; return r; }
LSIM_NEON uint8x8_t vext_u8(uint8x8_t a, uint8x8_t b, const int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = i + k < 8 ? a[i + k] : b[i + k - 8]; return r; }
LSIM_NEON uint8x8_t vbsl_u8(uint8x8_t m, uint8x8_t a, uint8x8_t b) { return (uint8x8_t)((m & (uint8x8_t)a) | (~m & (uint8x8_t)b)); }
LSIM_NEON uint8x8_t vzip1_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON uint8x8_t vzip2_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[4 + i]; r[2 * i + 1] = b[4 + i]; } return r; }
LSIM_NEON uint8x8_t vuzp1_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i]; r[4 + i] = b[2 * i]; } return r; }
LSIM_NEON uint8x8_t vuzp2_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i + 1]; r[4 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON uint8x8_t vtrn1_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON uint8x8_t vtrn2_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON uint8x8x2_t vzip_u8(uint8x8_t a, uint8x8_t b) { uint8x8x2_t r; r.val[0] = vzip1_u8(a, b); r.val[1] = vzip2_u8(a, b); return r; }
LSIM_NEON uint8x8x2_t vuzp_u8(uint8x8_t a, uint8x8_t b) { uint8x8x2_t r; r.val[0] = vuzp1_u8(a, b); r.val[1] = vuzp2_u8(a, b); return r; }
LSIM_NEON uint8x8x2_t vtrn_u8(uint8x8_t a, uint8x8_t b) { uint8x8x2_t r; r.val[0] = vtrn1_u8(a, b); r.val[1] = vtrn2_u8(a, b); return r; }
LSIM_NEON uint8x8_t vceq_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8_t)(a == b); }
LSIM_NEON uint8x8_t vceqz_u8(uint8x8_t a) { return (uint8x8_t)(a == (uint8x8_t){0}); }
LSIM_NEON uint8x8_t vcgt_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8_t)(a > b); }
LSIM_NEON uint8x8_t vcge_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8_t)(a >= b); }
LSIM_NEON uint8x8_t vclt_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8_t)(a < b); }
LSIM_NEON uint8x8_t vcle_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8_t)(a <= b); }
LSIM_NEON uint8x8_t vtst_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8_t)((a & b) != (uint8x8_t){0}); }
LSIM_NEON uint8x8_t vmin_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
LSIM_NEON uint8x8_t vmax_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
LSIM_NEON uint8x8_t vmul_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
LSIM_NEON uint8x8_t vmla_u8(uint8x8_t a, uint8x8_t b, uint8x8_t c) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON uint8x8_t vmls_u8(uint8x8_t a, uint8x8_t b, uint8x8_t c) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON uint8x8_t vabd_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON uint8x8_t vaba_u8(uint8x8_t c, uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(c[i] + (a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])); return r; }
LSIM_NEON uint8x8_t vhadd_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
LSIM_NEON uint8x8_t vrhadd_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
LSIM_NEON uint8x8_t vhsub_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(((int64_t)a[i] - b[i]) >> 1); return r; }
LSIM_NEON uint8x8_t vqadd_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int64_t x = (int64_t)a[i] + b[i]; (uint8_t)(x < 0 ? 0 : x > ((int64_t)1 << 8) - 1 ? ((int64_t)1 << 8) - 1 : x); }); return r; }
LSIM_NEON uint8x8_t vqsub_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int64_t x = (int64_t)a[i] - b[i]; (uint8_t)(x < 0 ? 0 : x > ((int64_t)1 << 8) - 1 ? ((int64_t)1 << 8) - 1 : x); }); return r; }
LSIM_NEON uint8_t vaddv_u8(uint8x8_t a) { uint64_t r = 0; for (int i = 0; i < 8; i++) r += (uint64_t)a[i]; return (uint8_t)r; }
LSIM_NEON uint8_t vmaxv_u8(uint8x8_t a) { uint8_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] > r ? a[i] : r; return r; }
LSIM_NEON uint8_t vminv_u8(uint8x8_t a) { uint8_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] < r ? a[i] : r; return r; }
LSIM_NEON uint16_t vaddlv_u8(uint8x8_t a) { uint16_t r = 0; for (int i = 0; i < 8; i++) r += a[i]; return r; }
LSIM_NEON uint16x4_t vpaddl_u8(uint8x8_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON uint16x4_t vpadal_u8(uint16x4_t c, uint8x8_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = c[i] + (uint16_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON uint8x8_t vpadd_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[i] = (uint8_t)((uint64_t)a[2 * i] + (uint64_t)a[2 * i + 1]); r[4 + i] = (uint8_t)((uint64_t)b[2 * i] + (uint64_t)b[2 * i + 1]); } return r; }
LSIM_NEON uint8x8_t vpmax_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i] > a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[4 + i] = b[2 * i] > b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON uint8x8_t vpmin_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i] < a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[4 + i] = b[2 * i] < b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON uint8x8_t vclz_u8(uint8x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] ? __builtin_clzll((unsigned long long)(uint8_t)a[i]) - 56 : 8; return r; }
LSIM_NEON uint8x8_t vcnt_u8(uint8x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = __builtin_popcount((uint8_t)a[i]); return r; }
LSIM_NEON uint8x8_t vrbit_u8(uint8x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) { unsigned v = (uint8_t)a[i], o = 0; for (int k = 0; k < 8; k++) o |= (v >> k & 1) << (7 - k); r[i] = (uint8_t)o; } return r; }
LSIM_NEON uint8x8_t vrev16_u8(uint8x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 1]; return r; }
LSIM_NEON uint8x8_t vrev32_u8(uint8x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 3]; return r; }
LSIM_NEON uint8x8_t vrev64_u8(uint8x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 7]; return r; }
LSIM_NEON uint8x8_t vshr_n_u8(uint8x8_t a, const int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(k >= 8 ? (0) : (a[i] >> k)); return r; }
LSIM_NEON uint8x8_t vsra_n_u8(uint8x8_t c, uint8x8_t a, const int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)((uint64_t)c[i] + (uint64_t)(uint8_t)(k >= 8 ? (0) : (a[i] >> k))); return r; }
LSIM_NEON uint8x8_t vrshr_n_u8(uint8x8_t a, const int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(((uint8_t)(k >= 8 ? (0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON uint8x8_t vshl_n_u8(uint8x8_t a, const int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON uint8x8_t vsli_n_u8(uint8x8_t a, uint8x8_t b, const int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON uint8x8_t vsri_n_u8(uint8x8_t a, uint8x8_t b, const int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(({ uint64_t m = k >= 8 ? 0 : (uint8_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 8 ? 0 : (uint64_t)((uint8_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON uint8x8_t vshl_u8(uint8x8_t a, int8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (uint8_t)(s >= 8 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(uint8_t)(k >= 8 ? (0) : (a[i] >> k))); }); return r; }
LSIM_NEON uint16x4_t vld1_u16(const uint16_t *p) { uint16x4_t r; memcpy(&r, p, 8); return r; }
LSIM_NEON void vst1_u16(uint16_t *p, uint16x4_t a) { memcpy(p, &a, 8); }
LSIM_NEON uint16x4_t vld1_dup_u16(const uint16_t *p) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = *p; return r; }
LSIM_NEON uint16x4_t vld1_lane_u16(const uint16_t *p, uint16x4_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1_lane_u16(uint16_t *p, uint16x4_t a, const int k) { *p = a[k]; }
LSIM_NEON uint16x4x2_t vld1_u16_x2(const uint16_t *p) { uint16x4x2_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1_u16_x2(uint16_t *p, uint16x4x2_t a) { memcpy(p, &a, 16); }
LSIM_NEON uint16x4x2_t vld2_u16(const uint16_t *p) { uint16x4x2_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2_u16(uint16_t *p, uint16x4x2_t a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON uint16x4x3_t vld1_u16_x3(const uint16_t *p) { uint16x4x3_t r; memcpy(&r, p, 24); return r; }
LSIM_NEON void vst1_u16_x3(uint16_t *p, uint16x4x3_t a) { memcpy(p, &a, 24); }
LSIM_NEON uint16x4x3_t vld3_u16(const uint16_t *p) { uint16x4x3_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3_u16(uint16_t *p, uint16x4x3_t a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON uint16x4x4_t vld1_u16_x4(const uint16_t *p) { uint16x4x4_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1_u16_x4(uint16_t *p, uint16x4x4_t a) { memcpy(p, &a, 32); }
LSIM_NEON uint16x4x4_t vld4_u16(const uint16_t *p) { uint16x4x4_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4_u16(uint16_t *p, uint16x4x4_t a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON uint16x4_t vadd_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4_t)((uint16x4_t)a + (uint16x4_t)b); }
LSIM_NEON uint16x4_t vsub_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4_t)((uint16x4_t)a - (uint16x4_t)b); }
LSIM_NEON uint16x4_t vand_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4_t)((uint16x4_t)a & (uint16x4_t)b); }
LSIM_NEON uint16x4_t vorr_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4_t)((uint16x4_t)a | (uint16x4_t)b); }
LSIM_NEON uint16x4_t veor_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4_t)((uint16x4_t)a ^ (uint16x4_t)b); }
LSIM_NEON uint16x4_t vbic_u16(uint16x4_t a, uint16x4_t b) { return a & ~b; }
LSIM_NEON uint16x4_t vorn_u16(uint16x4_t a, uint16x4_t b) { return a | ~b; }
LSIM_NEON uint16x4_t vmvn_u16(uint16x4_t a) { return ~a; }
LSIM_NEON uint16x4_t vdup_n_u16(uint16_t v) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = v; return r; }
LSIM_NEON uint16x4_t vmov_n_u16(uint16_t v) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = v; return r; }
LSIM_NEON uint16_t vget_lane_u16(uint16x4_t a, const int k) { return a[k]; }
LSIM_NEON uint16x4_t vset_lane_u16(uint16_t v, uint16x4_t a, const int k) { a[k] = v; return a; }
LSIM_NEON uint16x4_t vdup_lane_u16(uint16x4_t a, const int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[k]; return r; }
LSIM_NEON uint16x4_t vdup_laneq_u16(uint16x8_t a, const int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[k]; return r; }
LSIM_NEON uint16x4_t vext_u16(uint16x4_t a, uint16x4_t b, const int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = i + k < 4 ? a[i + k] : b[i + k - 4]; return r; }
LSIM_NEON uint16x4_t vbsl_u16(uint16x4_t m, uint16x4_t a, uint16x4_t b) { return (uint16x4_t)((m & (uint16x4_t)a) | (~m & (uint16x4_t)b)); }
LSIM_NEON uint16x4_t vzip1_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON uint16x4_t vzip2_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[2 + i]; r[2 * i + 1] = b[2 + i]; } return r; }
LSIM_NEON uint16x4_t vuzp1_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i]; r[2 + i] = b[2 * i]; } return r; }
LSIM_NEON uint16x4_t vuzp2_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i + 1]; r[2 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON uint16x4_t vtrn1_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON uint16x4_t vtrn2_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON uint16x4x2_t vzip_u16(uint16x4_t a, uint16x4_t b) { uint16x4x2_t r; r.val[0] = vzip1_u16(a, b); r.val[1] = vzip2_u16(a, b); return r; }
LSIM_NEON uint16x4x2_t vuzp_u16(uint16x4_t a, uint16x4_t b) { uint16x4x2_t r; r.val[0] = vuzp1_u16(a, b); r.val[1] = vuzp2_u16(a, b); return r; }
LSIM_NEON uint16x4x2_t vtrn_u16(uint16x4_t a, uint16x4_t b) { uint16x4x2_t r; r.val[0] = vtrn1_u16(a, b); r.val[1] = vtrn2_u16(a, b); return r; }
LSIM_NEON uint16x4_t vceq_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4_t)(a == b); }
LSIM_NEON uint16x4_t vceqz_u16(uint16x4_t a) { return (uint16x4_t)(a == (uint16x4_t){0}); }
LSIM_NEON uint16x4_t vcgt_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4_t)(a > b); }
LSIM_NEON uint16x4_t vcge_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4_t)(a >= b); }
LSIM_NEON uint16x4_t vclt_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4_t)(a < b); }
LSIM_NEON uint16x4_t vcle_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4_t)(a <= b); }
LSIM_NEON uint16x4_t vtst_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4_t)((a & b) != (uint16x4_t){0}); }
LSIM_NEON uint16x4_t vmin_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
LSIM_NEON uint16x4_t vmax_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
LSIM_NEON uint16x4_t vmul_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
LSIM_NEON uint16x4_t vmla_u16(uint16x4_t a, uint16x4_t b, uint16x4_t c) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON uint16x4_t vmls_u16(uint16x4_t a, uint16x4_t b, uint16x4_t c) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON uint16x4_t vmul_n_u16(uint16x4_t a, uint16_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((uint64_t)a[i] * (uint64_t)b); return r; }
LSIM_NEON uint16x4_t vmla_n_u16(uint16x4_t a, uint16x4_t b, uint16_t c) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON uint16x4_t vmls_n_u16(uint16x4_t a, uint16x4_t b, uint16_t c) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON uint16x4_t vabd_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON uint16x4_t vaba_u16(uint16x4_t c, uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(c[i] + (a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])); return r; }
LSIM_NEON uint16x4_t vhadd_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
LSIM_NEON uint16x4_t vrhadd_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
LSIM_NEON uint16x4_t vhsub_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(((int64_t)a[i] - b[i]) >> 1); return r; }
LSIM_NEON uint16x4_t vqadd_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int64_t x = (int64_t)a[i] + b[i]; (uint16_t)(x < 0 ? 0 : x > ((int64_t)1 << 16) - 1 ? ((int64_t)1 << 16) - 1 : x); }); return r; }
LSIM_NEON uint16x4_t vqsub_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int64_t x = (int64_t)a[i] - b[i]; (uint16_t)(x < 0 ? 0 : x > ((int64_t)1 << 16) - 1 ? ((int64_t)1 << 16) - 1 : x); }); return r; }
LSIM_NEON uint16_t vaddv_u16(uint16x4_t a) { uint64_t r = 0; for (int i = 0; i < 4; i++) r += (uint64_t)a[i]; return (uint16_t)r; }
LSIM_NEON uint16_t vmaxv_u16(uint16x4_t a) { uint16_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] > r ? a[i] : r; return r; }
LSIM_NEON uint16_t vminv_u16(uint16x4_t a) { uint16_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] < r ? a[i] : r; return r; }
LSIM_NEON uint32_t vaddlv_u16(uint16x4_t a) { uint32_t r = 0; for (int i = 0; i < 4; i++) r += a[i]; return r; }
LSIM_NEON uint32x2_t vpaddl_u16(uint16x4_t a) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON uint32x2_t vpadal_u16(uint32x2_t c, uint16x4_t a) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = c[i] + (uint32_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON uint16x4_t vpadd_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[i] = (uint16_t)((uint64_t)a[2 * i] + (uint64_t)a[2 * i + 1]); r[2 + i] = (uint16_t)((uint64_t)b[2 * i] + (uint64_t)b[2 * i + 1]); } return r; }
LSIM_NEON uint16x4_t vpmax_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i] > a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[2 + i] = b[2 * i] > b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON uint16x4_t vpmin_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i] < a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[2 + i] = b[2 * i] < b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON uint16x4_t vclz_u16(uint16x4_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] ? __builtin_clzll((unsigned long long)(uint16_t)a[i]) - 48 : 16; return r; }
LSIM_NEON uint16x4_t vrev32_u16(uint16x4_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 1]; return r; }
LSIM_NEON uint16x4_t vrev64_u16(uint16x4_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 3]; return r; }
LSIM_NEON uint16x4_t vshr_n_u16(uint16x4_t a, const int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(k >= 16 ? (0) : (a[i] >> k)); return r; }
LSIM_NEON uint16x4_t vsra_n_u16(uint16x4_t c, uint16x4_t a, const int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((uint64_t)c[i] + (uint64_t)(uint16_t)(k >= 16 ? (0) : (a[i] >> k))); return r; }
LSIM_NEON uint16x4_t vrshr_n_u16(uint16x4_t a, const int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(((uint16_t)(k >= 16 ? (0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON uint16x4_t vshl_n_u16(uint16x4_t a, const int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON uint16x4_t vsli_n_u16(uint16x4_t a, uint16x4_t b, const int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON uint16x4_t vsri_n_u16(uint16x4_t a, uint16x4_t b, const int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(({ uint64_t m = k >= 16 ? 0 : (uint16_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 16 ? 0 : (uint64_t)((uint16_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON uint16x4_t vshl_u16(uint16x4_t a, int16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (uint16_t)(s >= 16 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(uint16_t)(k >= 16 ? (0) : (a[i] >> k))); }); return r; }
LSIM_NEON uint32x2_t vld1_u32(const uint32_t *p) { uint32x2_t r; memcpy(&r, p, 8); return r; }
LSIM_NEON void vst1_u32(uint32_t *p, uint32x2_t a) { memcpy(p, &a, 8); }
LSIM_NEON uint32x2_t vld1_dup_u32(const uint32_t *p) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = *p; return r; }
LSIM_NEON uint32x2_t vld1_lane_u32(const uint32_t *p, uint32x2_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1_lane_u32(uint32_t *p, uint32x2_t a, const int k) { *p = a[k]; }
LSIM_NEON uint32x2x2_t vld1_u32_x2(const uint32_t *p) { uint32x2x2_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1_u32_x2(uint32_t *p, uint32x2x2_t a) { memcpy(p, &a, 16); }
LSIM_NEON uint32x2x2_t vld2_u32(const uint32_t *p) { uint32x2x2_t r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2_u32(uint32_t *p, uint32x2x2_t a) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON uint32x2x3_t vld1_u32_x3(const uint32_t *p) { uint32x2x3_t r; memcpy(&r, p, 24); return r; }
LSIM_NEON void vst1_u32_x3(uint32_t *p, uint32x2x3_t a) { memcpy(p, &a, 24); }
LSIM_NEON uint32x2x3_t vld3_u32(const uint32_t *p) { uint32x2x3_t r; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3_u32(uint32_t *p, uint32x2x3_t a) { for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON uint32x2x4_t vld1_u32_x4(const uint32_t *p) { uint32x2x4_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1_u32_x4(uint32_t *p, uint32x2x4_t a) { memcpy(p, &a, 32); }
LSIM_NEON uint32x2x4_t vld4_u32(const uint32_t *p) { uint32x2x4_t r; for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4_u32(uint32_t *p, uint32x2x4_t a) { for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON uint32x2_t vadd_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2_t)((uint32x2_t)a + (uint32x2_t)b); }
LSIM_NEON uint32x2_t vsub_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2_t)((uint32x2_t)a - (uint32x2_t)b); }
LSIM_NEON uint32x2_t vand_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2_t)((uint32x2_t)a & (uint32x2_t)b); }
LSIM_NEON uint32x2_t vorr_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2_t)((uint32x2_t)a | (uint32x2_t)b); }
LSIM_NEON uint32x2_t veor_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2_t)((uint32x2_t)a ^ (uint32x2_t)b); }
LSIM_NEON uint32x2_t vbic_u32(uint32x2_t a, uint32x2_t b) { return a & ~b; }
LSIM_NEON uint32x2_t vorn_u32(uint32x2_t a, uint32x2_t b) { return a | ~b; }
LSIM_NEON uint32x2_t vmvn_u32(uint32x2_t a) { return ~a; }
LSIM_NEON uint32x2_t vdup_n_u32(uint32_t v) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = v; return r; }
LSIM_NEON uint32x2_t vmov_n_u32(uint32_t v) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = v; return r; }
LSIM_NEON uint32_t vget_lane_u32(uint32x2_t a, const int k) { return a[k]; }
LSIM_NEON uint32x2_t vset_lane_u32(uint32_t v, uint32x2_t a, const int k) { a[k] = v; return a; }
LSIM_NEON uint32x2_t vdup_lane_u32(uint32x2_t a, const int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[k]; return r; }
LSIM_NEON uint32x2_t vdup_laneq_u32(uint32x4_t a, const int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[k]; return r; }
LSIM_NEON uint32x2_t vext_u32(uint32x2_t a, uint32x2_t b, const int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = i + k < 2 ? a[i + k] : b[i + k - 2]; return r; }
LSIM_NEON uint32x2_t vbsl_u32(uint32x2_t m, uint32x2_t a, uint32x2_t b) { return (uint32x2_t)((m & (uint32x2_t)a) | (~m & (uint32x2_t)b)); }
LSIM_NEON uint32x2_t vzip1_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON uint32x2_t vzip2_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[1 + i]; r[2 * i + 1] = b[1 + i]; } return r; }
LSIM_NEON uint32x2_t vuzp1_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2 * i]; r[1 + i] = b[2 * i]; } return r; }
LSIM_NEON uint32x2_t vuzp2_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2 * i + 1]; r[1 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON uint32x2_t vtrn1_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON uint32x2_t vtrn2_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON uint32x2x2_t vzip_u32(uint32x2_t a, uint32x2_t b) { uint32x2x2_t r; r.val[0] = vzip1_u32(a, b); r.val[1] = vzip2_u32(a, b); return r; }
LSIM_NEON uint32x2x2_t vuzp_u32(uint32x2_t a, uint32x2_t b) { uint32x2x2_t r; r.val[0] = vuzp1_u32(a, b); r.val[1] = vuzp2_u32(a, b); return r; }
LSIM_NEON uint32x2x2_t vtrn_u32(uint32x2_t a, uint32x2_t b) { uint32x2x2_t r; r.val[0] = vtrn1_u32(a, b); r.val[1] = vtrn2_u32(a, b); return r; }
LSIM_NEON uint32x2_t vceq_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2_t)(a == b); }
LSIM_NEON uint32x2_t vceqz_u32(uint32x2_t a) { return (uint32x2_t)(a == (uint32x2_t){0}); }
LSIM_NEON uint32x2_t vcgt_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2_t)(a > b); }
LSIM_NEON uint32x2_t vcge_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2_t)(a >= b); }
LSIM_NEON uint32x2_t vclt_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2_t)(a < b); }
LSIM_NEON uint32x2_t vcle_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2_t)(a <= b); }
LSIM_NEON uint32x2_t vtst_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2_t)((a & b) != (uint32x2_t){0}); }
LSIM_NEON uint32x2_t vmin_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
LSIM_NEON uint32x2_t vmax_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
LSIM_NEON uint32x2_t vmul_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
LSIM_NEON uint32x2_t vmla_u32(uint32x2_t a, uint32x2_t b, uint32x2_t c) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON uint32x2_t vmls_u32(uint32x2_t a, uint32x2_t b, uint32x2_t c) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON uint32x2_t vmul_n_u32(uint32x2_t a, uint32_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint64_t)a[i] * (uint64_t)b); return r; }
LSIM_NEON uint32x2_t vmla_n_u32(uint32x2_t a, uint32x2_t b, uint32_t c) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON uint32x2_t vmls_n_u32(uint32x2_t a, uint32x2_t b, uint32_t c) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON uint32x2_t vabd_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON uint32x2_t vaba_u32(uint32x2_t c, uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(c[i] + (a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])); return r; }
LSIM_NEON uint32x2_t vhadd_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
LSIM_NEON uint32x2_t vrhadd_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
LSIM_NEON uint32x2_t vhsub_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(((int64_t)a[i] - b[i]) >> 1); return r; }
LSIM_NEON uint32x2_t vqadd_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = ({ int64_t x = (int64_t)a[i] + b[i]; (uint32_t)(x < 0 ? 0 : x > ((int64_t)1 << 32) - 1 ? ((int64_t)1 << 32) - 1 : x); }); return r; }
LSIM_NEON uint32x2_t vqsub_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = ({ int64_t x = (int64_t)a[i] - b[i]; (uint32_t)(x < 0 ? 0 : x > ((int64_t)1 << 32) - 1 ? ((int64_t)1 << 32) - 1 : x); }); return r; }
LSIM_NEON uint32_t vaddv_u32(uint32x2_t a) { uint64_t r = 0; for (int i = 0; i < 2; i++) r += (uint64_t)a[i]; return (uint32_t)r; }
LSIM_NEON uint32_t vmaxv_u32(uint32x2_t a) { uint32_t r = a[0]; for (int i = 1; i < 2; i++) r = a[i] > r ? a[i] : r; return r; }
LSIM_NEON uint32_t vminv_u32(uint32x2_t a) { uint32_t r = a[0]; for (int i = 1; i < 2; i++) r = a[i] < r ? a[i] : r; return r; }
LSIM_NEON uint64_t vaddlv_u32(uint32x2_t a) { uint64_t r = 0; for (int i = 0; i < 2; i++) r += a[i]; return r; }
LSIM_NEON uint64x1_t vpaddl_u32(uint32x2_t a) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = (uint64_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON uint64x1_t vpadal_u32(uint64x1_t c, uint32x2_t a) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = c[i] + (uint64_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON uint32x2_t vpadd_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[i] = (uint32_t)((uint64_t)a[2 * i] + (uint64_t)a[2 * i + 1]); r[1 + i] = (uint32_t)((uint64_t)b[2 * i] + (uint64_t)b[2 * i + 1]); } return r; }
LSIM_NEON uint32x2_t vpmax_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2 * i] > a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[1 + i] = b[2 * i] > b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON uint32x2_t vpmin_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2 * i] < a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[1 + i] = b[2 * i] < b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON uint32x2_t vclz_u32(uint32x2_t a) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] ? __builtin_clzll((unsigned long long)(uint32_t)a[i]) - 32 : 32; return r; }
LSIM_NEON uint32x2_t vrev64_u32(uint32x2_t a) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i ^ 1]; return r; }
LSIM_NEON uint32x2_t vshr_n_u32(uint32x2_t a, const int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(k >= 32 ? (0) : (a[i] >> k)); return r; }
LSIM_NEON uint32x2_t vsra_n_u32(uint32x2_t c, uint32x2_t a, const int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint64_t)c[i] + (uint64_t)(uint32_t)(k >= 32 ? (0) : (a[i] >> k))); return r; }
LSIM_NEON uint32x2_t vrshr_n_u32(uint32x2_t a, const int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(((uint32_t)(k >= 32 ? (0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON uint32x2_t vshl_n_u32(uint32x2_t a, const int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON uint32x2_t vsli_n_u32(uint32x2_t a, uint32x2_t b, const int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON uint32x2_t vsri_n_u32(uint32x2_t a, uint32x2_t b, const int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(({ uint64_t m = k >= 32 ? 0 : (uint32_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 32 ? 0 : (uint64_t)((uint32_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON uint32x2_t vshl_u32(uint32x2_t a, int32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (uint32_t)(s >= 32 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(uint32_t)(k >= 32 ? (0) : (a[i] >> k))); }); return r; }
LSIM_NEON uint64x1_t vld1_u64(const uint64_t *p) { uint64x1_t r; memcpy(&r, p, 8); return r; }
LSIM_NEON void vst1_u64(uint64_t *p, uint64x1_t a) { memcpy(p, &a, 8); }
LSIM_NEON uint64x1_t vld1_dup_u64(const uint64_t *p) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = *p; return r; }
LSIM_NEON uint64x1_t vld1_lane_u64(const uint64_t *p, uint64x1_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1_lane_u64(uint64_t *p, uint64x1_t a, const int k) { *p = a[k]; }
LSIM_NEON uint64x1x2_t vld1_u64_x2(const uint64_t *p) { uint64x1x2_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1_u64_x2(uint64_t *p, uint64x1x2_t a) { memcpy(p, &a, 16); }
LSIM_NEON uint64x1x2_t vld2_u64(const uint64_t *p) { uint64x1x2_t r; for (int i = 0; i < 1; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2_u64(uint64_t *p, uint64x1x2_t a) { for (int i = 0; i < 1; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON uint64x1x3_t vld1_u64_x3(const uint64_t *p) { uint64x1x3_t r; memcpy(&r, p, 24); return r; }
LSIM_NEON void vst1_u64_x3(uint64_t *p, uint64x1x3_t a) { memcpy(p, &a, 24); }
LSIM_NEON uint64x1x3_t vld3_u64(const uint64_t *p) { uint64x1x3_t r; for (int i = 0; i < 1; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3_u64(uint64_t *p, uint64x1x3_t a) { for (int i = 0; i < 1; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON uint64x1x4_t vld1_u64_x4(const uint64_t *p) { uint64x1x4_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1_u64_x4(uint64_t *p, uint64x1x4_t a) { memcpy(p, &a, 32); }
LSIM_NEON uint64x1x4_t vld4_u64(const uint64_t *p) { uint64x1x4_t r; for (int i = 0; i < 1; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4_u64(uint64_t *p, uint64x1x4_t a) { for (int i = 0; i < 1; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON uint64x1_t vadd_u64(uint64x1_t a, uint64x1_t b) { return (uint64x1_t)((uint64x1_t)a + (uint64x1_t)b); }
LSIM_NEON uint64x1_t vsub_u64(uint64x1_t a, uint64x1_t b) { return (uint64x1_t)((uint64x1_t)a - (uint64x1_t)b); }
LSIM_NEON uint64x1_t vand_u64(uint64x1_t a, uint64x1_t b) { return (uint64x1_t)((uint64x1_t)a & (uint64x1_t)b); }
LSIM_NEON uint64x1_t vorr_u64(uint64x1_t a, uint64x1_t b) { return (uint64x1_t)((uint64x1_t)a | (uint64x1_t)b); }
LSIM_NEON uint64x1_t veor_u64(uint64x1_t a, uint64x1_t b) { return (uint64x1_t)((uint64x1_t)a ^ (uint64x1_t)b); }
LSIM_NEON uint64x1_t vbic_u64(uint64x1_t a, uint64x1_t b) { return a & ~b; }
LSIM_NEON uint64x1_t vorn_u64(uint64x1_t a, uint64x1_t b) { return a | ~b; }
LSIM_NEON uint64x1_t vdup_n_u64(uint64_t v) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = v; return r; }
LSIM_NEON uint64x1_t vmov_n_u64(uint64_t v) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = v; return r; }
LSIM_NEON uint64_t vget_lane_u64(uint64x1_t a, const int k) { return a[k]; }
LSIM_NEON uint64x1_t vset_lane_u64(uint64_t v, uint64x1_t a, const int k) { a[k] = v; return a; }
LSIM_NEON uint64x1_t vdup_lane_u64(uint64x1_t a, const int k) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[k]; return r; }
LSIM_NEON uint64x1_t vdup_laneq_u64(uint64x2_t a, const int k) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[k]; return r; }
LSIM_NEON uint64x1_t vext_u64(uint64x1_t a, uint64x1_t b, const int k) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = i + k < 1 ? a[i + k] : b[i + k - 1]; return r; }
LSIM_NEON uint64x1_t vbsl_u64(uint64x1_t m, uint64x1_t a, uint64x1_t b) { return (uint64x1_t)((m & (uint64x1_t)a) | (~m & (uint64x1_t)b)); }
LSIM_NEON uint64x1_t vceq_u64(uint64x1_t a, uint64x1_t b) { return (uint64x1_t)(a == b); }
LSIM_NEON uint64x1_t vceqz_u64(uint64x1_t a) { return (uint64x1_t)(a == (uint64x1_t){0}); }
LSIM_NEON uint64x1_t vcgt_u64(uint64x1_t a, uint64x1_t b) { return (uint64x1_t)(a > b); }
LSIM_NEON uint64x1_t vcge_u64(uint64x1_t a, uint64x1_t b) { return (uint64x1_t)(a >= b); }
LSIM_NEON uint64x1_t vclt_u64(uint64x1_t a, uint64x1_t b) { return (uint64x1_t)(a < b); }
LSIM_NEON uint64x1_t vcle_u64(uint64x1_t a, uint64x1_t b) { return (uint64x1_t)(a <= b); }
LSIM_NEON uint64x1_t vtst_u64(uint64x1_t a, uint64x1_t b) { return (uint64x1_t)((a & b) != (uint64x1_t){0}); }
LSIM_NEON uint64x1_t vshr_n_u64(uint64x1_t a, const int k) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = (uint64_t)(k >= 64 ? (0) : (a[i] >> k)); return r; }
LSIM_NEON uint64x1_t vsra_n_u64(uint64x1_t c, uint64x1_t a, const int k) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = (uint64_t)((uint64_t)c[i] + (uint64_t)(uint64_t)(k >= 64 ? (0) : (a[i] >> k))); return r; }
LSIM_NEON uint64x1_t vrshr_n_u64(uint64x1_t a, const int k) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = (uint64_t)(((uint64_t)(k >= 64 ? (0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON uint64x1_t vshl_n_u64(uint64x1_t a, const int k) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = (uint64_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON uint64x1_t vsli_n_u64(uint64x1_t a, uint64x1_t b, const int k) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = (uint64_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON uint64x1_t vsri_n_u64(uint64x1_t a, uint64x1_t b, const int k) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = (uint64_t)(({ uint64_t m = k >= 64 ? 0 : (uint64_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 64 ? 0 : (uint64_t)((uint64_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON uint64x1_t vshl_u64(uint64x1_t a, int64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (uint64_t)(s >= 64 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(uint64_t)(k >= 64 ? (0) : (a[i] >> k))); }); return r; }
LSIM_NEON int8x8_t vreinterpret_s8_s16(int16x4_t a) { return (int8x8_t)a; }
LSIM_NEON int8x8_t vreinterpret_s8_s32(int32x2_t a) { return (int8x8_t)a; }
LSIM_NEON int8x8_t vreinterpret_s8_s64(int64x1_t a) { return (int8x8_t)a; }
LSIM_NEON int8x8_t vreinterpret_s8_u8(uint8x8_t a) { return (int8x8_t)a; }
LSIM_NEON int8x8_t vreinterpret_s8_u16(uint16x4_t a) { return (int8x8_t)a; }
LSIM_NEON int8x8_t vreinterpret_s8_u32(uint32x2_t a) { return (int8x8_t)a; }
LSIM_NEON int8x8_t vreinterpret_s8_u64(uint64x1_t a) { return (int8x8_t)a; }
LSIM_NEON int16x4_t vreinterpret_s16_s8(int8x8_t a) { return (int16x4_t)a; }
LSIM_NEON int16x4_t vreinterpret_s16_s32(int32x2_t a) { return (int16x4_t)a; }
LSIM_NEON int16x4_t vreinterpret_s16_s64(int64x1_t a) { return (int16x4_t)a; }
LSIM_NEON int16x4_t vreinterpret_s16_u8(uint8x8_t a) { return (int16x4_t)a; }
LSIM_NEON int16x4_t vreinterpret_s16_u16(uint16x4_t a) { return (int16x4_t)a; }
LSIM_NEON int16x4_t vreinterpret_s16_u32(uint32x2_t a) { return (int16x4_t)a; }
LSIM_NEON int16x4_t vreinterpret_s16_u64(uint64x1_t a) { return (int16x4_t)a; }
LSIM_NEON int32x2_t vreinterpret_s32_s8(int8x8_t a) { return (int32x2_t)a; }
LSIM_NEON int32x2_t vreinterpret_s32_s16(int16x4_t a) { return (int32x2_t)a; }
LSIM_NEON int32x2_t vreinterpret_s32_s64(int64x1_t a) { return (int32x2_t)a; }
LSIM_NEON int32x2_t vreinterpret_s32_u8(uint8x8_t a) { return (int32x2_t)a; }
LSIM_NEON int32x2_t vreinterpret_s32_u16(uint16x4_t a) { return (int32x2_t)a; }
LSIM_NEON int32x2_t vreinterpret_s32_u32(uint32x2_t a) { return (int32x2_t)a; }
LSIM_NEON int32x2_t vreinterpret_s32_u64(uint64x1_t a) { return (int32x2_t)a; }
LSIM_NEON int64x1_t vreinterpret_s64_s8(int8x8_t a) { return (int64x1_t)a; }
LSIM_NEON int64x1_t vreinterpret_s64_s16(int16x4_t a) { return (int64x1_t)a; }
LSIM_NEON int64x1_t vreinterpret_s64_s32(int32x2_t a) { return (int64x1_t)a; }
LSIM_NEON int64x1_t vreinterpret_s64_u8(uint8x8_t a) { return (int64x1_t)a; }
LSIM_NEON int64x1_t vreinterpret_s64_u16(uint16x4_t a) { return (int64x1_t)a; }
LSIM_NEON int64x1_t vreinterpret_s64_u32(uint32x2_t a) { return (int64x1_t)a; }
LSIM_NEON int64x1_t vreinterpret_s64_u64(uint64x1_t a) { return (int64x1_t)a; }
LSIM_NEON uint8x8_t vreinterpret_u8_s8(int8x8_t a) { return (uint8x8_t)a; }
LSIM_NEON uint8x8_t vreinterpret_u8_s16(int16x4_t a) { return (uint8x8_t)a; }
LSIM_NEON uint8x8_t vreinterpret_u8_s32(int32x2_t a) { return (uint8x8_t)a; }
LSIM_NEON uint8x8_t vreinterpret_u8_s64(int64x1_t a) { return (uint8x8_t)a; }
LSIM_NEON uint8x8_t vreinterpret_u8_u16(uint16x4_t a) { return (uint8x8_t)a; }
LSIM_NEON uint8x8_t vreinterpret_u8_u32(uint32x2_t a) { return (uint8x8_t)a; }
LSIM_NEON uint8x8_t vreinterpret_u8_u64(uint64x1_t a) { return (uint8x8_t)a; }
LSIM_NEON uint16x4_t vreinterpret_u16_s8(int8x8_t a) { return (uint16x4_t)a; }
LSIM_NEON uint16x4_t vreinterpret_u16_s16(int16x4_t a) { return (uint16x4_t)a; }
LSIM_NEON uint16x4_t vreinterpret_u16_s32(int32x2_t a) { return (uint16x4_t)a; }
LSIM_NEON uint16x4_t vreinterpret_u16_s64(int64x1_t a) { return (uint16x4_t)a; }
LSIM_NEON uint16x4_t vreinterpret_u16_u8(uint8x8_t a) { return (uint16x4_t)a; }
LSIM_NEON uint16x4_t vreinterpret_u16_u32(uint32x2_t a) { return (uint16x4_t)a; }
LSIM_NEON uint16x4_t vreinterpret_u16_u64(uint64x1_t a) { return (uint16x4_t)a; }
LSIM_NEON uint32x2_t vreinterpret_u32_s8(int8x8_t a) { return (uint32x2_t)a; }
LSIM_NEON uint32x2_t vreinterpret_u32_s16(int16x4_t a) { return (uint32x2_t)a; }
LSIM_NEON uint32x2_t vreinterpret_u32_s32(int32x2_t a) { return (uint32x2_t)a; }
LSIM_NEON uint32x2_t vreinterpret_u32_s64(int64x1_t a) { return (uint32x2_t)a; }
LSIM_NEON uint32x2_t vreinterpret_u32_u8(uint8x8_t a) { return (uint32x2_t)a; }
LSIM_NEON uint32x2_t vreinterpret_u32_u16(uint16x4_t a) { return (uint32x2_t)a; }
LSIM_NEON uint32x2_t vreinterpret_u32_u64(uint64x1_t a) { return (uint32x2_t)a; }
LSIM_NEON uint64x1_t vreinterpret_u64_s8(int8x8_t a) { return (uint64x1_t)a; }
LSIM_NEON uint64x1_t vreinterpret_u64_s16(int16x4_t a) { return (uint64x1_t)a; }
LSIM_NEON uint64x1_t vreinterpret_u64_s32(int32x2_t a) { return (uint64x1_t)a; }
LSIM_NEON uint64x1_t vreinterpret_u64_s64(int64x1_t a) { return (uint64x1_t)a; }
LSIM_NEON uint64x1_t vreinterpret_u64_u8(uint8x8_t a) { return (uint64x1_t)a; }
LSIM_NEON uint64x1_t vreinterpret_u64_u16(uint16x4_t a) { return (uint64x1_t)a; }
LSIM_NEON uint64x1_t vreinterpret_u64_u32(uint32x2_t a) { return (uint64x1_t)a; }
LSIM_NEON int8x16_t vld1q_s8(const int8_t *p) { int8x16_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1q_s8(int8_t *p, int8x16_t a) { memcpy(p, &a, 16); }
LSIM_NEON int8x16_t vld1q_dup_s8(const int8_t *p) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = *p; return r; }
LSIM_NEON int8x16_t vld1q_lane_s8(const int8_t *p, int8x16_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1q_lane_s8(int8_t *p, int8x16_t a, const int k) { *p = a[k]; }
LSIM_NEON int8x16x2_t vld1q_s8_x2(const int8_t *p) { int8x16x2_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1q_s8_x2(int8_t *p, int8x16x2_t a) { memcpy(p, &a, 32); }
LSIM_NEON int8x16x2_t vld2q_s8(const int8_t *p) { int8x16x2_t r; for (int i = 0; i < 16; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2q_s8(int8_t *p, int8x16x2_t a) { for (int i = 0; i < 16; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON int8x16x3_t vld1q_s8_x3(const int8_t *p) { int8x16x3_t r; memcpy(&r, p, 48); return r; }
LSIM_NEON void vst1q_s8_x3(int8_t *p, int8x16x3_t a) { memcpy(p, &a, 48); }
LSIM_NEON int8x16x3_t vld3q_s8(const int8_t *p) { int8x16x3_t r; for (int i = 0; i < 16; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3q_s8(int8_t *p, int8x16x3_t a) { for (int i = 0; i < 16; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON int8x16x4_t vld1q_s8_x4(const int8_t *p) { int8x16x4_t r; memcpy(&r, p, 64); return r; }
LSIM_NEON void vst1q_s8_x4(int8_t *p, int8x16x4_t a) { memcpy(p, &a, 64); }
LSIM_NEON int8x16x4_t vld4q_s8(const int8_t *p) { int8x16x4_t r; for (int i = 0; i < 16; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4q_s8(int8_t *p, int8x16x4_t a) { for (int i = 0; i < 16; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON int8x16_t vaddq_s8(int8x16_t a, int8x16_t b) { return (int8x16_t)((uint8x16_t)a + (uint8x16_t)b); }
LSIM_NEON int8x16_t vsubq_s8(int8x16_t a, int8x16_t b) { return (int8x16_t)((uint8x16_t)a - (uint8x16_t)b); }
LSIM_NEON int8x16_t vandq_s8(int8x16_t a, int8x16_t b) { return (int8x16_t)((uint8x16_t)a & (uint8x16_t)b); }
LSIM_NEON int8x16_t vorrq_s8(int8x16_t a, int8x16_t b) { return (int8x16_t)((uint8x16_t)a | (uint8x16_t)b); }
LSIM_NEON int8x16_t veorq_s8(int8x16_t a, int8x16_t b) { return (int8x16_t)((uint8x16_t)a ^ (uint8x16_t)b); }
LSIM_NEON int8x16_t vbicq_s8(int8x16_t a, int8x16_t b) { return a & ~b; }
LSIM_NEON int8x16_t vornq_s8(int8x16_t a, int8x16_t b) { return a | ~b; }
LSIM_NEON int8x16_t vmvnq_s8(int8x16_t a) { return ~a; }
LSIM_NEON int8x16_t vdupq_n_s8(int8_t v) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = v; return r; }
LSIM_NEON int8x16_t vmovq_n_s8(int8_t v) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = v; return r; }
LSIM_NEON int8_t vgetq_lane_s8(int8x16_t a, const int k) { return a[k]; }
LSIM_NEON int8x16_t vsetq_lane_s8(int8_t v, int8x16_t a, const int k) { a[k] = v; return a; }
LSIM_NEON int8x16_t vdupq_lane_s8(int8x8_t a, const int k) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[k]; return r; }
LSIM_NEON int8x16_t vdupq_laneq_s8(int8x16_t a, const int k) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[k]; return r; }
LSIM_NEON int8x16_t vextq_s8(int8x16_t a, int8x16_t b, const int k) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = i + k < 16 ? a[i + k] : b[i + k - 16]; return r; }
LSIM_NEON int8x16_t vbslq_s8(uint8x16_t m, int8x16_t a, int8x16_t b) { return (int8x16_t)((m & (uint8x16_t)a) | (~m & (uint8x16_t)b)); }
LSIM_NEON int8x16_t vzip1q_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON int8x16_t vzip2q_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[2 * i] = a[8 + i]; r[2 * i + 1] = b[8 + i]; } return r; }
LSIM_NEON int8x16_t vuzp1q_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[2 * i]; r[8 + i] = b[2 * i]; } return r; }
LSIM_NEON int8x16_t vuzp2q_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[2 * i + 1]; r[8 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON int8x16_t vtrn1q_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON int8x16_t vtrn2q_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON int8x16x2_t vzipq_s8(int8x16_t a, int8x16_t b) { int8x16x2_t r; r.val[0] = vzip1q_s8(a, b); r.val[1] = vzip2q_s8(a, b); return r; }
LSIM_NEON int8x16x2_t vuzpq_s8(int8x16_t a, int8x16_t b) { int8x16x2_t r; r.val[0] = vuzp1q_s8(a, b); r.val[1] = vuzp2q_s8(a, b); return r; }
LSIM_NEON int8x16x2_t vtrnq_s8(int8x16_t a, int8x16_t b) { int8x16x2_t r; r.val[0] = vtrn1q_s8(a, b); r.val[1] = vtrn2q_s8(a, b); return r; }
LSIM_NEON uint8x16_t vceqq_s8(int8x16_t a, int8x16_t b) { return (uint8x16_t)(a == b); }
LSIM_NEON uint8x16_t vceqzq_s8(int8x16_t a) { return (uint8x16_t)(a == (int8x16_t){0}); }
LSIM_NEON uint8x16_t vcgtq_s8(int8x16_t a, int8x16_t b) { return (uint8x16_t)(a > b); }
LSIM_NEON uint8x16_t vcgtzq_s8(int8x16_t a) { return (uint8x16_t)(a > (int8x16_t){0}); }
LSIM_NEON uint8x16_t vcgeq_s8(int8x16_t a, int8x16_t b) { return (uint8x16_t)(a >= b); }
LSIM_NEON uint8x16_t vcgezq_s8(int8x16_t a) { return (uint8x16_t)(a >= (int8x16_t){0}); }
LSIM_NEON uint8x16_t vcltq_s8(int8x16_t a, int8x16_t b) { return (uint8x16_t)(a < b); }
LSIM_NEON uint8x16_t vcltzq_s8(int8x16_t a) { return (uint8x16_t)(a < (int8x16_t){0}); }
LSIM_NEON uint8x16_t vcleq_s8(int8x16_t a, int8x16_t b) { return (uint8x16_t)(a <= b); }
LSIM_NEON uint8x16_t vclezq_s8(int8x16_t a) { return (uint8x16_t)(a <= (int8x16_t){0}); }
LSIM_NEON uint8x16_t vtstq_s8(int8x16_t a, int8x16_t b) { return (uint8x16_t)((a & b) != (int8x16_t){0}); }
LSIM_NEON int8x16_t vminq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
LSIM_NEON int8x16_t vmaxq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
LSIM_NEON int8x16_t vmulq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
LSIM_NEON int8x16_t vmlaq_s8(int8x16_t a, int8x16_t b, int8x16_t c) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON int8x16_t vmlsq_s8(int8x16_t a, int8x16_t b, int8x16_t c) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON int8x16_t vabdq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON int8x16_t vabaq_s8(int8x16_t c, int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(c[i] + (a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])); return r; }
LSIM_NEON int8x16_t vhaddq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
LSIM_NEON int8x16_t vrhaddq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
LSIM_NEON int8x16_t vhsubq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(((int64_t)a[i] - b[i]) >> 1); return r; }
LSIM_NEON int8x16_t vqaddq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = ({ int64_t x = (int64_t)a[i] + b[i]; (int8_t)(x < -((int64_t)1 << 7) ? -((int64_t)1 << 7) : x > ((int64_t)1 << 7) - 1 ? ((int64_t)1 << 7) - 1 : x); }); return r; }
LSIM_NEON int8x16_t vqsubq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = ({ int64_t x = (int64_t)a[i] - b[i]; (int8_t)(x < -((int64_t)1 << 7) ? -((int64_t)1 << 7) : x > ((int64_t)1 << 7) - 1 ? ((int64_t)1 << 7) - 1 : x); }); return r; }
LSIM_NEON int8_t vaddvq_s8(int8x16_t a) { uint64_t r = 0; for (int i = 0; i < 16; i++) r += (uint64_t)a[i]; return (int8_t)r; }
LSIM_NEON int8_t vmaxvq_s8(int8x16_t a) { int8_t r = a[0]; for (int i = 1; i < 16; i++) r = a[i] > r ? a[i] : r; return r; }
LSIM_NEON int8_t vminvq_s8(int8x16_t a) { int8_t r = a[0]; for (int i = 1; i < 16; i++) r = a[i] < r ? a[i] : r; return r; }
LSIM_NEON int16_t vaddlvq_s8(int8x16_t a) { int16_t r = 0; for (int i = 0; i < 16; i++) r += a[i]; return r; }
LSIM_NEON int16x8_t vpaddlq_s8(int8x16_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON int16x8_t vpadalq_s8(int16x8_t c, int8x16_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = c[i] + (int16_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON int8x16_t vpaddq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[i] = (int8_t)((uint64_t)a[2 * i] + (uint64_t)a[2 * i + 1]); r[8 + i] = (int8_t)((uint64_t)b[2 * i] + (uint64_t)b[2 * i + 1]); } return r; }
LSIM_NEON int8x16_t vpmaxq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[2 * i] > a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[8 + i] = b[2 * i] > b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON int8x16_t vpminq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[2 * i] < a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[8 + i] = b[2 * i] < b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON int8x16_t vclzq_s8(int8x16_t a) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] ? __builtin_clzll((unsigned long long)(uint8_t)a[i]) - 56 : 8; return r; }
LSIM_NEON int8x16_t vcntq_s8(int8x16_t a) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = __builtin_popcount((uint8_t)a[i]); return r; }
LSIM_NEON int8x16_t vrbitq_s8(int8x16_t a) { int8x16_t r; for (int i = 0; i < 16; i++) { unsigned v = (uint8_t)a[i], o = 0; for (int k = 0; k < 8; k++) o |= (v >> k & 1) << (7 - k); r[i] = (int8_t)o; } return r; }
LSIM_NEON int8x16_t vrev16q_s8(int8x16_t a) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i ^ 1]; return r; }
LSIM_NEON int8x16_t vrev32q_s8(int8x16_t a) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i ^ 3]; return r; }
LSIM_NEON int8x16_t vrev64q_s8(int8x16_t a) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i ^ 7]; return r; }
LSIM_NEON int8x16_t vnegq_s8(int8x16_t a) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(0 - (uint64_t)a[i]); return r; }
LSIM_NEON int8x16_t vabsq_s8(int8x16_t a) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(a[i] < 0 ? 0 - (uint64_t)a[i] : (uint64_t)a[i]); return r; }
LSIM_NEON int8x16_t vshrq_n_s8(int8x16_t a, const int k) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(k >= 8 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k)); return r; }
LSIM_NEON int8x16_t vsraq_n_s8(int8x16_t c, int8x16_t a, const int k) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)((uint64_t)c[i] + (uint64_t)(int8_t)(k >= 8 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); return r; }
LSIM_NEON int8x16_t vrshrq_n_s8(int8x16_t a, const int k) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(((int8_t)(k >= 8 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON int8x16_t vshlq_n_s8(int8x16_t a, const int k) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON int8x16_t vsliq_n_s8(int8x16_t a, int8x16_t b, const int k) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON int8x16_t vsriq_n_s8(int8x16_t a, int8x16_t b, const int k) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(({ uint64_t m = k >= 8 ? 0 : (uint8_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 8 ? 0 : (uint64_t)((uint8_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON int8x16_t vshlq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (int8_t)(s >= 8 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(int8_t)(k >= 8 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); }); return r; }
LSIM_NEON int16x8_t vld1q_s16(const int16_t *p) { int16x8_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1q_s16(int16_t *p, int16x8_t a) { memcpy(p, &a, 16); }
LSIM_NEON int16x8_t vld1q_dup_s16(const int16_t *p) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = *p; return r; }
LSIM_NEON int16x8_t vld1q_lane_s16(const int16_t *p, int16x8_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1q_lane_s16(int16_t *p, int16x8_t a, const int k) { *p = a[k]; }
LSIM_NEON int16x8x2_t vld1q_s16_x2(const int16_t *p) { int16x8x2_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1q_s16_x2(int16_t *p, int16x8x2_t a) { memcpy(p, &a, 32); }
LSIM_NEON int16x8x2_t vld2q_s16(const int16_t *p) { int16x8x2_t r; for (int i = 0; i < 8; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2q_s16(int16_t *p, int16x8x2_t a) { for (int i = 0; i < 8; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON int16x8x3_t vld1q_s16_x3(const int16_t *p) { int16x8x3_t r; memcpy(&r, p, 48); return r; }
LSIM_NEON void vst1q_s16_x3(int16_t *p, int16x8x3_t a) { memcpy(p, &a, 48); }
LSIM_NEON int16x8x3_t vld3q_s16(const int16_t *p) { int16x8x3_t r; for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3q_s16(int16_t *p, int16x8x3_t a) { for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON int16x8x4_t vld1q_s16_x4(const int16_t *p) { int16x8x4_t r; memcpy(&r, p, 64); return r; }
LSIM_NEON void vst1q_s16_x4(int16_t *p, int16x8x4_t a) { memcpy(p, &a, 64); }
LSIM_NEON int16x8x4_t vld4q_s16(const int16_t *p) { int16x8x4_t r; for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4q_s16(int16_t *p, int16x8x4_t a) { for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON int16x8_t vaddq_s16(int16x8_t a, int16x8_t b) { return (int16x8_t)((uint16x8_t)a + (uint16x8_t)b); }
LSIM_NEON int16x8_t vsubq_s16(int16x8_t a, int16x8_t b) { return (int16x8_t)((uint16x8_t)a - (uint16x8_t)b); }
LSIM_NEON int16x8_t vandq_s16(int16x8_t a, int16x8_t b) { return (int16x8_t)((uint16x8_t)a & (uint16x8_t)b); }
LSIM_NEON int16x8_t vorrq_s16(int16x8_t a, int16x8_t b) { return (int16x8_t)((uint16x8_t)a | (uint16x8_t)b); }
LSIM_NEON int16x8_t veorq_s16(int16x8_t a, int16x8_t b) { return (int16x8_t)((uint16x8_t)a ^ (uint16x8_t)b); }
LSIM_NEON int16x8_t vbicq_s16(int16x8_t a, int16x8_t b) { return a & ~b; }
LSIM_NEON int16x8_t vornq_s16(int16x8_t a, int16x8_t b) { return a | ~b; }
LSIM_NEON int16x8_t vmvnq_s16(int16x8_t a) { return ~a; }
LSIM_NEON int16x8_t vdupq_n_s16(int16_t v) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = v; return r; }
LSIM_NEON int16x8_t vmovq_n_s16(int16_t v) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = v; return r; }
LSIM_NEON int16_t vgetq_lane_s16(int16x8_t a, const int k) { return a[k]; }
LSIM_NEON int16x8_t vsetq_lane_s16(int16_t v, int16x8_t a, const int k) { a[k] = v; return a; }
LSIM_NEON int16x8_t vdupq_lane_s16(int16x4_t a, const int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[k]; return r; }
LSIM_NEON int16x8_t vdupq_laneq_s16(int16x8_t a, const int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[k]; return r; }
LSIM_NEON int16x8_t vextq_s16(int16x8_t a, int16x8_t b, const int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = i + k < 8 ? a[i + k] : b[i + k - 8]; return r; }
LSIM_NEON int16x8_t vbslq_s16(uint16x8_t m, int16x8_t a, int16x8_t b) { return (int16x8_t)((m & (uint16x8_t)a) | (~m & (uint16x8_t)b)); }
LSIM_NEON int16x8_t vzip1q_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON int16x8_t vzip2q_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[4 + i]; r[2 * i + 1] = b[4 + i]; } return r; }
LSIM_NEON int16x8_t vuzp1q_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i]; r[4 + i] = b[2 * i]; } return r; }
LSIM_NEON int16x8_t vuzp2q_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i + 1]; r[4 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON int16x8_t vtrn1q_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON int16x8_t vtrn2q_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON int16x8x2_t vzipq_s16(int16x8_t a, int16x8_t b) { int16x8x2_t r; r.val[0] = vzip1q_s16(a, b); r.val[1] = vzip2q_s16(a, b); return r; }
LSIM_NEON int16x8x2_t vuzpq_s16(int16x8_t a, int16x8_t b) { int16x8x2_t r; r.val[0] = vuzp1q_s16(a, b); r.val[1] = vuzp2q_s16(a, b); return r; }
LSIM_NEON int16x8x2_t vtrnq_s16(int16x8_t a, int16x8_t b) { int16x8x2_t r; r.val[0] = vtrn1q_s16(a, b); r.val[1] = vtrn2q_s16(a, b); return r; }
LSIM_NEON uint16x8_t vceqq_s16(int16x8_t a, int16x8_t b) { return (uint16x8_t)(a == b); }
LSIM_NEON uint16x8_t vceqzq_s16(int16x8_t a) { return (uint16x8_t)(a == (int16x8_t){0}); }
LSIM_NEON uint16x8_t vcgtq_s16(int16x8_t a, int16x8_t b) { return (uint16x8_t)(a > b); }
LSIM_NEON uint16x8_t vcgtzq_s16(int16x8_t a) { return (uint16x8_t)(a > (int16x8_t){0}); }
LSIM_NEON uint16x8_t vcgeq_s16(int16x8_t a, int16x8_t b) { return (uint16x8_t)(a >= b); }
LSIM_NEON uint16x8_t vcgezq_s16(int16x8_t a) { return (uint16x8_t)(a >= (int16x8_t){0}); }
LSIM_NEON uint16x8_t vcltq_s16(int16x8_t a, int16x8_t b) { return (uint16x8_t)(a < b); }
LSIM_NEON uint16x8_t vcltzq_s16(int16x8_t a) { return (uint16x8_t)(a < (int16x8_t){0}); }
LSIM_NEON uint16x8_t vcleq_s16(int16x8_t a, int16x8_t b) { return (uint16x8_t)(a <= b); }
LSIM_NEON uint16x8_t vclezq_s16(int16x8_t a) { return (uint16x8_t)(a <= (int16x8_t){0}); }
LSIM_NEON uint16x8_t vtstq_s16(int16x8_t a, int16x8_t b) { return (uint16x8_t)((a & b) != (int16x8_t){0}); }
LSIM_NEON int16x8_t vminq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
LSIM_NEON int16x8_t vmaxq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
LSIM_NEON int16x8_t vmulq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
LSIM_NEON int16x8_t vmlaq_s16(int16x8_t a, int16x8_t b, int16x8_t c) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON int16x8_t vmlsq_s16(int16x8_t a, int16x8_t b, int16x8_t c) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON int16x8_t vmulq_n_s16(int16x8_t a, int16_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)a[i] * (uint64_t)b); return r; }
LSIM_NEON int16x8_t vmlaq_n_s16(int16x8_t a, int16x8_t b, int16_t c) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON int16x8_t vmlsq_n_s16(int16x8_t a, int16x8_t b, int16_t c) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON int16x8_t vabdq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON int16x8_t vabaq_s16(int16x8_t c, int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(c[i] + (a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])); return r; }
LSIM_NEON int16x8_t vhaddq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
LSIM_NEON int16x8_t vrhaddq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
LSIM_NEON int16x8_t vhsubq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(((int64_t)a[i] - b[i]) >> 1); return r; }
LSIM_NEON int16x8_t vqaddq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int64_t x = (int64_t)a[i] + b[i]; (int16_t)(x < -((int64_t)1 << 15) ? -((int64_t)1 << 15) : x > ((int64_t)1 << 15) - 1 ? ((int64_t)1 << 15) - 1 : x); }); return r; }
LSIM_NEON int16x8_t vqsubq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int64_t x = (int64_t)a[i] - b[i]; (int16_t)(x < -((int64_t)1 << 15) ? -((int64_t)1 << 15) : x > ((int64_t)1 << 15) - 1 ? ((int64_t)1 << 15) - 1 : x); }); return r; }
LSIM_NEON int16_t vaddvq_s16(int16x8_t a) { uint64_t r = 0; for (int i = 0; i < 8; i++) r += (uint64_t)a[i]; return (int16_t)r; }
LSIM_NEON int16_t vmaxvq_s16(int16x8_t a) { int16_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] > r ? a[i] : r; return r; }
LSIM_NEON int16_t vminvq_s16(int16x8_t a) { int16_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] < r ? a[i] : r; return r; }
LSIM_NEON int32_t vaddlvq_s16(int16x8_t a) { int32_t r = 0; for (int i = 0; i < 8; i++) r += a[i]; return r; }
LSIM_NEON int32x4_t vpaddlq_s16(int16x8_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON int32x4_t vpadalq_s16(int32x4_t c, int16x8_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = c[i] + (int32_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON int16x8_t vpaddq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[i] = (int16_t)((uint64_t)a[2 * i] + (uint64_t)a[2 * i + 1]); r[4 + i] = (int16_t)((uint64_t)b[2 * i] + (uint64_t)b[2 * i + 1]); } return r; }
LSIM_NEON int16x8_t vpmaxq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i] > a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[4 + i] = b[2 * i] > b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON int16x8_t vpminq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i] < a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[4 + i] = b[2 * i] < b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON int16x8_t vclzq_s16(int16x8_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] ? __builtin_clzll((unsigned long long)(uint16_t)a[i]) - 48 : 16; return r; }
LSIM_NEON int16x8_t vrev32q_s16(int16x8_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 1]; return r; }
LSIM_NEON int16x8_t vrev64q_s16(int16x8_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 3]; return r; }
LSIM_NEON int16x8_t vnegq_s16(int16x8_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(0 - (uint64_t)a[i]); return r; }
LSIM_NEON int16x8_t vabsq_s16(int16x8_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(a[i] < 0 ? 0 - (uint64_t)a[i] : (uint64_t)a[i]); return r; }
LSIM_NEON int16x8_t vshrq_n_s16(int16x8_t a, const int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(k >= 16 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k)); return r; }
LSIM_NEON int16x8_t vsraq_n_s16(int16x8_t c, int16x8_t a, const int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)c[i] + (uint64_t)(int16_t)(k >= 16 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); return r; }
LSIM_NEON int16x8_t vrshrq_n_s16(int16x8_t a, const int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(((int16_t)(k >= 16 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON int16x8_t vshlq_n_s16(int16x8_t a, const int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON int16x8_t vsliq_n_s16(int16x8_t a, int16x8_t b, const int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON int16x8_t vsriq_n_s16(int16x8_t a, int16x8_t b, const int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(({ uint64_t m = k >= 16 ? 0 : (uint16_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 16 ? 0 : (uint64_t)((uint16_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON int16x8_t vshlq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (int16_t)(s >= 16 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(int16_t)(k >= 16 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); }); return r; }
LSIM_NEON int32x4_t vld1q_s32(const int32_t *p) { int32x4_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1q_s32(int32_t *p, int32x4_t a) { memcpy(p, &a, 16); }
LSIM_NEON int32x4_t vld1q_dup_s32(const int32_t *p) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = *p; return r; }
LSIM_NEON int32x4_t vld1q_lane_s32(const int32_t *p, int32x4_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1q_lane_s32(int32_t *p, int32x4_t a, const int k) { *p = a[k]; }
LSIM_NEON int32x4x2_t vld1q_s32_x2(const int32_t *p) { int32x4x2_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1q_s32_x2(int32_t *p, int32x4x2_t a) { memcpy(p, &a, 32); }
LSIM_NEON int32x4x2_t vld2q_s32(const int32_t *p) { int32x4x2_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2q_s32(int32_t *p, int32x4x2_t a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON int32x4x3_t vld1q_s32_x3(const int32_t *p) { int32x4x3_t r; memcpy(&r, p, 48); return r; }
LSIM_NEON void vst1q_s32_x3(int32_t *p, int32x4x3_t a) { memcpy(p, &a, 48); }
LSIM_NEON int32x4x3_t vld3q_s32(const int32_t *p) { int32x4x3_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3q_s32(int32_t *p, int32x4x3_t a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON int32x4x4_t vld1q_s32_x4(const int32_t *p) { int32x4x4_t r; memcpy(&r, p, 64); return r; }
LSIM_NEON void vst1q_s32_x4(int32_t *p, int32x4x4_t a) { memcpy(p, &a, 64); }
LSIM_NEON int32x4x4_t vld4q_s32(const int32_t *p) { int32x4x4_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4q_s32(int32_t *p, int32x4x4_t a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON int32x4_t vaddq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a + (uint32x4_t)b); }
LSIM_NEON int32x4_t vsubq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a - (uint32x4_t)b); }
LSIM_NEON int32x4_t vandq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a & (uint32x4_t)b); }
LSIM_NEON int32x4_t vorrq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a | (uint32x4_t)b); }
LSIM_NEON int32x4_t veorq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a ^ (uint32x4_t)b); }
LSIM_NEON int32x4_t vbicq_s32(int32x4_t a, int32x4_t b) { return a & ~b; }
LSIM_NEON int32x4_t vornq_s32(int32x4_t a, int32x4_t b) { return a | ~b; }
LSIM_NEON int32x4_t vmvnq_s32(int32x4_t a) { return ~a; }
LSIM_NEON int32x4_t vdupq_n_s32(int32_t v) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = v; return r; }
LSIM_NEON int32x4_t vmovq_n_s32(int32_t v) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = v; return r; }
LSIM_NEON int32_t vgetq_lane_s32(int32x4_t a, const int k) { return a[k]; }
LSIM_NEON int32x4_t vsetq_lane_s32(int32_t v, int32x4_t a, const int k) { a[k] = v; return a; }
LSIM_NEON int32x4_t vdupq_lane_s32(int32x2_t a, const int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[k]; return r; }
LSIM_NEON int32x4_t vdupq_laneq_s32(int32x4_t a, const int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[k]; return r; }
LSIM_NEON int32x4_t vextq_s32(int32x4_t a, int32x4_t b, const int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = i + k < 4 ? a[i + k] : b[i + k - 4]; return r; }
LSIM_NEON int32x4_t vbslq_s32(uint32x4_t m, int32x4_t a, int32x4_t b) { return (int32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
LSIM_NEON int32x4_t vzip1q_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON int32x4_t vzip2q_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[2 + i]; r[2 * i + 1] = b[2 + i]; } return r; }
LSIM_NEON int32x4_t vuzp1q_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i]; r[2 + i] = b[2 * i]; } return r; }
LSIM_NEON int32x4_t vuzp2q_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i + 1]; r[2 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON int32x4_t vtrn1q_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON int32x4_t vtrn2q_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON int32x4x2_t vzipq_s32(int32x4_t a, int32x4_t b) { int32x4x2_t r; r.val[0] = vzip1q_s32(a, b); r.val[1] = vzip2q_s32(a, b); return r; }
LSIM_NEON int32x4x2_t vuzpq_s32(int32x4_t a, int32x4_t b) { int32x4x2_t r; r.val[0] = vuzp1q_s32(a, b); r.val[1] = vuzp2q_s32(a, b); return r; }
LSIM_NEON int32x4x2_t vtrnq_s32(int32x4_t a, int32x4_t b) { int32x4x2_t r; r.val[0] = vtrn1q_s32(a, b); r.val[1] = vtrn2q_s32(a, b); return r; }
LSIM_NEON uint32x4_t vceqq_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a == b); }
LSIM_NEON uint32x4_t vceqzq_s32(int32x4_t a) { return (uint32x4_t)(a == (int32x4_t){0}); }
LSIM_NEON uint32x4_t vcgtq_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a > b); }
LSIM_NEON uint32x4_t vcgtzq_s32(int32x4_t a) { return (uint32x4_t)(a > (int32x4_t){0}); }
LSIM_NEON uint32x4_t vcgeq_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a >= b); }
LSIM_NEON uint32x4_t vcgezq_s32(int32x4_t a) { return (uint32x4_t)(a >= (int32x4_t){0}); }
LSIM_NEON uint32x4_t vcltq_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a < b); }
LSIM_NEON uint32x4_t vcltzq_s32(int32x4_t a) { return (uint32x4_t)(a < (int32x4_t){0}); }
LSIM_NEON uint32x4_t vcleq_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a <= b); }
LSIM_NEON uint32x4_t vclezq_s32(int32x4_t a) { return (uint32x4_t)(a <= (int32x4_t){0}); }
LSIM_NEON uint32x4_t vtstq_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)((a & b) != (int32x4_t){0}); }
LSIM_NEON int32x4_t vminq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
LSIM_NEON int32x4_t vmaxq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
LSIM_NEON int32x4_t vmulq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
LSIM_NEON int32x4_t vmlaq_s32(int32x4_t a, int32x4_t b, int32x4_t c) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON int32x4_t vmlsq_s32(int32x4_t a, int32x4_t b, int32x4_t c) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON int32x4_t vmulq_n_s32(int32x4_t a, int32_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)a[i] * (uint64_t)b); return r; }
LSIM_NEON int32x4_t vmlaq_n_s32(int32x4_t a, int32x4_t b, int32_t c) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON int32x4_t vmlsq_n_s32(int32x4_t a, int32x4_t b, int32_t c) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON int32x4_t vabdq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON int32x4_t vabaq_s32(int32x4_t c, int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(c[i] + (a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])); return r; }
LSIM_NEON int32x4_t vhaddq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
LSIM_NEON int32x4_t vrhaddq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
LSIM_NEON int32x4_t vhsubq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(((int64_t)a[i] - b[i]) >> 1); return r; }
LSIM_NEON int32x4_t vqaddq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int64_t x = (int64_t)a[i] + b[i]; (int32_t)(x < -((int64_t)1 << 31) ? -((int64_t)1 << 31) : x > ((int64_t)1 << 31) - 1 ? ((int64_t)1 << 31) - 1 : x); }); return r; }
LSIM_NEON int32x4_t vqsubq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int64_t x = (int64_t)a[i] - b[i]; (int32_t)(x < -((int64_t)1 << 31) ? -((int64_t)1 << 31) : x > ((int64_t)1 << 31) - 1 ? ((int64_t)1 << 31) - 1 : x); }); return r; }
LSIM_NEON int32_t vaddvq_s32(int32x4_t a) { uint64_t r = 0; for (int i = 0; i < 4; i++) r += (uint64_t)a[i]; return (int32_t)r; }
LSIM_NEON int32_t vmaxvq_s32(int32x4_t a) { int32_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] > r ? a[i] : r; return r; }
LSIM_NEON int32_t vminvq_s32(int32x4_t a) { int32_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] < r ? a[i] : r; return r; }
LSIM_NEON int64_t vaddlvq_s32(int32x4_t a) { int64_t r = 0; for (int i = 0; i < 4; i++) r += a[i]; return r; }
LSIM_NEON int64x2_t vpaddlq_s32(int32x4_t a) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON int64x2_t vpadalq_s32(int64x2_t c, int32x4_t a) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = c[i] + (int64_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON int32x4_t vpaddq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[i] = (int32_t)((uint64_t)a[2 * i] + (uint64_t)a[2 * i + 1]); r[2 + i] = (int32_t)((uint64_t)b[2 * i] + (uint64_t)b[2 * i + 1]); } return r; }
LSIM_NEON int32x4_t vpmaxq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i] > a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[2 + i] = b[2 * i] > b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON int32x4_t vpminq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i] < a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[2 + i] = b[2 * i] < b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON int32x4_t vclzq_s32(int32x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] ? __builtin_clzll((unsigned long long)(uint32_t)a[i]) - 32 : 32; return r; }
LSIM_NEON int32x4_t vrev64q_s32(int32x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 1]; return r; }
LSIM_NEON int32x4_t vnegq_s32(int32x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(0 - (uint64_t)a[i]); return r; }
LSIM_NEON int32x4_t vabsq_s32(int32x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(a[i] < 0 ? 0 - (uint64_t)a[i] : (uint64_t)a[i]); return r; }
LSIM_NEON int32x4_t vshrq_n_s32(int32x4_t a, const int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(k >= 32 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k)); return r; }
LSIM_NEON int32x4_t vsraq_n_s32(int32x4_t c, int32x4_t a, const int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)c[i] + (uint64_t)(int32_t)(k >= 32 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); return r; }
LSIM_NEON int32x4_t vrshrq_n_s32(int32x4_t a, const int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(((int32_t)(k >= 32 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON int32x4_t vshlq_n_s32(int32x4_t a, const int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON int32x4_t vsliq_n_s32(int32x4_t a, int32x4_t b, const int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON int32x4_t vsriq_n_s32(int32x4_t a, int32x4_t b, const int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(({ uint64_t m = k >= 32 ? 0 : (uint32_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 32 ? 0 : (uint64_t)((uint32_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON int32x4_t vshlq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (int32_t)(s >= 32 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(int32_t)(k >= 32 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); }); return r; }
LSIM_NEON int64x2_t vld1q_s64(const int64_t *p) { int64x2_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1q_s64(int64_t *p, int64x2_t a) { memcpy(p, &a, 16); }
LSIM_NEON int64x2_t vld1q_dup_s64(const int64_t *p) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = *p; return r; }
LSIM_NEON int64x2_t vld1q_lane_s64(const int64_t *p, int64x2_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1q_lane_s64(int64_t *p, int64x2_t a, const int k) { *p = a[k]; }
LSIM_NEON int64x2x2_t vld1q_s64_x2(const int64_t *p) { int64x2x2_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1q_s64_x2(int64_t *p, int64x2x2_t a) { memcpy(p, &a, 32); }
LSIM_NEON int64x2x2_t vld2q_s64(const int64_t *p) { int64x2x2_t r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2q_s64(int64_t *p, int64x2x2_t a) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON int64x2x3_t vld1q_s64_x3(const int64_t *p) { int64x2x3_t r; memcpy(&r, p, 48); return r; }
LSIM_NEON void vst1q_s64_x3(int64_t *p, int64x2x3_t a) { memcpy(p, &a, 48); }
LSIM_NEON int64x2x3_t vld3q_s64(const int64_t *p) { int64x2x3_t r; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3q_s64(int64_t *p, int64x2x3_t a) { for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON int64x2x4_t vld1q_s64_x4(const int64_t *p) { int64x2x4_t r; memcpy(&r, p, 64); return r; }
LSIM_NEON void vst1q_s64_x4(int64_t *p, int64x2x4_t a) { memcpy(p, &a, 64); }
LSIM_NEON int64x2x4_t vld4q_s64(const int64_t *p) { int64x2x4_t r; for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4q_s64(int64_t *p, int64x2x4_t a) { for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON int64x2_t vaddq_s64(int64x2_t a, int64x2_t b) { return (int64x2_t)((uint64x2_t)a + (uint64x2_t)b); }
LSIM_NEON int64x2_t vsubq_s64(int64x2_t a, int64x2_t b) { return (int64x2_t)((uint64x2_t)a - (uint64x2_t)b); }
LSIM_NEON int64x2_t vandq_s64(int64x2_t a, int64x2_t b) { return (int64x2_t)((uint64x2_t)a & (uint64x2_t)b); }
LSIM_NEON int64x2_t vorrq_s64(int64x2_t a, int64x2_t b) { return (int64x2_t)((uint64x2_t)a | (uint64x2_t)b); }
LSIM_NEON int64x2_t veorq_s64(int64x2_t a, int64x2_t b) { return (int64x2_t)((uint64x2_t)a ^ (uint64x2_t)b); }
LSIM_NEON int64x2_t vbicq_s64(int64x2_t a, int64x2_t b) { return a & ~b; }
LSIM_NEON int64x2_t vornq_s64(int64x2_t a, int64x2_t b) { return a | ~b; }
LSIM_NEON int64x2_t vdupq_n_s64(int64_t v) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = v; return r; }
LSIM_NEON int64x2_t vmovq_n_s64(int64_t v) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = v; return r; }
LSIM_NEON int64_t vgetq_lane_s64(int64x2_t a, const int k) { return a[k]; }
LSIM_NEON int64x2_t vsetq_lane_s64(int64_t v, int64x2_t a, const int k) { a[k] = v; return a; }
LSIM_NEON int64x2_t vdupq_lane_s64(int64x1_t a, const int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[k]; return r; }
LSIM_NEON int64x2_t vdupq_laneq_s64(int64x2_t a, const int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[k]; return r; }
LSIM_NEON int64x2_t vextq_s64(int64x2_t a, int64x2_t b, const int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = i + k < 2 ? a[i + k] : b[i + k - 2]; return r; }
LSIM_NEON int64x2_t vbslq_s64(uint64x2_t m, int64x2_t a, int64x2_t b) { return (int64x2_t)((m & (uint64x2_t)a) | (~m & (uint64x2_t)b)); }
LSIM_NEON int64x2_t vzip1q_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON int64x2_t vzip2q_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[1 + i]; r[2 * i + 1] = b[1 + i]; } return r; }
LSIM_NEON int64x2_t vuzp1q_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2 * i]; r[1 + i] = b[2 * i]; } return r; }
LSIM_NEON int64x2_t vuzp2q_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2 * i + 1]; r[1 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON int64x2_t vtrn1q_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON int64x2_t vtrn2q_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON uint64x2_t vceqq_s64(int64x2_t a, int64x2_t b) { return (uint64x2_t)(a == b); }
LSIM_NEON uint64x2_t vceqzq_s64(int64x2_t a) { return (uint64x2_t)(a == (int64x2_t){0}); }
LSIM_NEON uint64x2_t vcgtq_s64(int64x2_t a, int64x2_t b) { return (uint64x2_t)(a > b); }
LSIM_NEON uint64x2_t vcgtzq_s64(int64x2_t a) { return (uint64x2_t)(a > (int64x2_t){0}); }
LSIM_NEON uint64x2_t vcgeq_s64(int64x2_t a, int64x2_t b) { return (uint64x2_t)(a >= b); }
LSIM_NEON uint64x2_t vcgezq_s64(int64x2_t a) { return (uint64x2_t)(a >= (int64x2_t){0}); }
LSIM_NEON uint64x2_t vcltq_s64(int64x2_t a, int64x2_t b) { return (uint64x2_t)(a < b); }
LSIM_NEON uint64x2_t vcltzq_s64(int64x2_t a) { return (uint64x2_t)(a < (int64x2_t){0}); }
LSIM_NEON uint64x2_t vcleq_s64(int64x2_t a, int64x2_t b) { return (uint64x2_t)(a <= b); }
LSIM_NEON uint64x2_t vclezq_s64(int64x2_t a) { return (uint64x2_t)(a <= (int64x2_t){0}); }
LSIM_NEON uint64x2_t vtstq_s64(int64x2_t a, int64x2_t b) { return (uint64x2_t)((a & b) != (int64x2_t){0}); }
LSIM_NEON int64_t vaddvq_s64(int64x2_t a) { uint64_t r = 0; for (int i = 0; i < 2; i++) r += (uint64_t)a[i]; return (int64_t)r; }
LSIM_NEON int64x2_t vpaddq_s64(int64x2_t a, int64x2_t b) { int64x2_t r; r[0] = a[0] + a[1]; r[1] = b[0] + b[1]; return r; }
LSIM_NEON int64x2_t vnegq_s64(int64x2_t a) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)(0 - (uint64_t)a[i]); return r; }
LSIM_NEON int64x2_t vabsq_s64(int64x2_t a) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)(a[i] < 0 ? 0 - (uint64_t)a[i] : (uint64_t)a[i]); return r; }
LSIM_NEON int64x2_t vshrq_n_s64(int64x2_t a, const int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)(k >= 64 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k)); return r; }
LSIM_NEON int64x2_t vsraq_n_s64(int64x2_t c, int64x2_t a, const int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)c[i] + (uint64_t)(int64_t)(k >= 64 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); return r; }
LSIM_NEON int64x2_t vrshrq_n_s64(int64x2_t a, const int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)(((int64_t)(k >= 64 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON int64x2_t vshlq_n_s64(int64x2_t a, const int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON int64x2_t vsliq_n_s64(int64x2_t a, int64x2_t b, const int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON int64x2_t vsriq_n_s64(int64x2_t a, int64x2_t b, const int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)(({ uint64_t m = k >= 64 ? 0 : (uint64_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 64 ? 0 : (uint64_t)((uint64_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON int64x2_t vshlq_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (int64_t)(s >= 64 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(int64_t)(k >= 64 ? (a[i] < 0 ? -1 : 0) : (a[i] >> k))); }); return r; }
LSIM_NEON uint8x16_t vld1q_u8(const uint8_t *p) { uint8x16_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1q_u8(uint8_t *p, uint8x16_t a) { memcpy(p, &a, 16); }
LSIM_NEON uint8x16_t vld1q_dup_u8(const uint8_t *p) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = *p; return r; }
LSIM_NEON uint8x16_t vld1q_lane_u8(const uint8_t *p, uint8x16_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1q_lane_u8(uint8_t *p, uint8x16_t a, const int k) { *p = a[k]; }
LSIM_NEON uint8x16x2_t vld1q_u8_x2(const uint8_t *p) { uint8x16x2_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1q_u8_x2(uint8_t *p, uint8x16x2_t a) { memcpy(p, &a, 32); }
LSIM_NEON uint8x16x2_t vld2q_u8(const uint8_t *p) { uint8x16x2_t r; for (int i = 0; i < 16; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2q_u8(uint8_t *p, uint8x16x2_t a) { for (int i = 0; i < 16; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON uint8x16x3_t vld1q_u8_x3(const uint8_t *p) { uint8x16x3_t r; memcpy(&r, p, 48); return r; }
LSIM_NEON void vst1q_u8_x3(uint8_t *p, uint8x16x3_t a) { memcpy(p, &a, 48); }
LSIM_NEON uint8x16x3_t vld3q_u8(const uint8_t *p) { uint8x16x3_t r; for (int i = 0; i < 16; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3q_u8(uint8_t *p, uint8x16x3_t a) { for (int i = 0; i < 16; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON uint8x16x4_t vld1q_u8_x4(const uint8_t *p) { uint8x16x4_t r; memcpy(&r, p, 64); return r; }
LSIM_NEON void vst1q_u8_x4(uint8_t *p, uint8x16x4_t a) { memcpy(p, &a, 64); }
LSIM_NEON uint8x16x4_t vld4q_u8(const uint8_t *p) { uint8x16x4_t r; for (int i = 0; i < 16; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4q_u8(uint8_t *p, uint8x16x4_t a) { for (int i = 0; i < 16; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON uint8x16_t vaddq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16_t)((uint8x16_t)a + (uint8x16_t)b); }
LSIM_NEON uint8x16_t vsubq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16_t)((uint8x16_t)a - (uint8x16_t)b); }
LSIM_NEON uint8x16_t vandq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16_t)((uint8x16_t)a & (uint8x16_t)b); }
LSIM_NEON uint8x16_t vorrq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16_t)((uint8x16_t)a | (uint8x16_t)b); }
LSIM_NEON uint8x16_t veorq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16_t)((uint8x16_t)a ^ (uint8x16_t)b); }
LSIM_NEON uint8x16_t vbicq_u8(uint8x16_t a, uint8x16_t b) { return a & ~b; }
LSIM_NEON uint8x16_t vornq_u8(uint8x16_t a, uint8x16_t b) { return a | ~b; }
LSIM_NEON uint8x16_t vmvnq_u8(uint8x16_t a) { return ~a; }
LSIM_NEON uint8x16_t vdupq_n_u8(uint8_t v) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = v; return r; }
LSIM_NEON uint8x16_t vmovq_n_u8(uint8_t v) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = v; return r; }
LSIM_NEON uint8_t vgetq_lane_u8(uint8x16_t a, const int k) { return a[k]; }
LSIM_NEON uint8x16_t vsetq_lane_u8(uint8_t v, uint8x16_t a, const int k) { a[k] = v; return a; }
LSIM_NEON uint8x16_t vdupq_lane_u8(uint8x8_t a, const int k) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[k]; return r; }
LSIM_NEON uint8x16_t vdupq_laneq_u8(uint8x16_t a, const int k) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[k]; return r; }
LSIM_NEON uint8x16_t vextq_u8(uint8x16_t a, uint8x16_t b, const int k) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = i + k < 16 ? a[i + k] : b[i + k - 16]; return r; }
LSIM_NEON uint8x16_t vbslq_u8(uint8x16_t m, uint8x16_t a, uint8x16_t b) { return (uint8x16_t)((m & (uint8x16_t)a) | (~m & (uint8x16_t)b)); }
LSIM_NEON uint8x16_t vzip1q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON uint8x16_t vzip2q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[2 * i] = a[8 + i]; r[2 * i + 1] = b[8 + i]; } return r; }
LSIM_NEON uint8x16_t vuzp1q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[2 * i]; r[8 + i] = b[2 * i]; } return r; }
LSIM_NEON uint8x16_t vuzp2q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[2 * i + 1]; r[8 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON uint8x16_t vtrn1q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON uint8x16_t vtrn2q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON uint8x16x2_t vzipq_u8(uint8x16_t a, uint8x16_t b) { uint8x16x2_t r; r.val[0] = vzip1q_u8(a, b); r.val[1] = vzip2q_u8(a, b); return r; }
LSIM_NEON uint8x16x2_t vuzpq_u8(uint8x16_t a, uint8x16_t b) { uint8x16x2_t r; r.val[0] = vuzp1q_u8(a, b); r.val[1] = vuzp2q_u8(a, b); return r; }
LSIM_NEON uint8x16x2_t vtrnq_u8(uint8x16_t a, uint8x16_t b) { uint8x16x2_t r; r.val[0] = vtrn1q_u8(a, b); r.val[1] = vtrn2q_u8(a, b); return r; }
LSIM_NEON uint8x16_t vceqq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16_t)(a == b); }
LSIM_NEON uint8x16_t vceqzq_u8(uint8x16_t a) { return (uint8x16_t)(a == (uint8x16_t){0}); }
LSIM_NEON uint8x16_t vcgtq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16_t)(a > b); }
LSIM_NEON uint8x16_t vcgeq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16_t)(a >= b); }
LSIM_NEON uint8x16_t vcltq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16_t)(a < b); }
LSIM_NEON uint8x16_t vcleq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16_t)(a <= b); }
LSIM_NEON uint8x16_t vtstq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16_t)((a & b) != (uint8x16_t){0}); }
LSIM_NEON uint8x16_t vminq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
LSIM_NEON uint8x16_t vmaxq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
LSIM_NEON uint8x16_t vmulq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
LSIM_NEON uint8x16_t vmlaq_u8(uint8x16_t a, uint8x16_t b, uint8x16_t c) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON uint8x16_t vmlsq_u8(uint8x16_t a, uint8x16_t b, uint8x16_t c) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON uint8x16_t vabdq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON uint8x16_t vabaq_u8(uint8x16_t c, uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)(c[i] + (a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])); return r; }
LSIM_NEON uint8x16_t vhaddq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
LSIM_NEON uint8x16_t vrhaddq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
LSIM_NEON uint8x16_t vhsubq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)(((int64_t)a[i] - b[i]) >> 1); return r; }
LSIM_NEON uint8x16_t vqaddq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = ({ int64_t x = (int64_t)a[i] + b[i]; (uint8_t)(x < 0 ? 0 : x > ((int64_t)1 << 8) - 1 ? ((int64_t)1 << 8) - 1 : x); }); return r; }
LSIM_NEON uint8x16_t vqsubq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = ({ int64_t x = (int64_t)a[i] - b[i]; (uint8_t)(x < 0 ? 0 : x > ((int64_t)1 << 8) - 1 ? ((int64_t)1 << 8) - 1 : x); }); return r; }
LSIM_NEON uint8_t vaddvq_u8(uint8x16_t a) { uint64_t r = 0; for (int i = 0; i < 16; i++) r += (uint64_t)a[i]; return (uint8_t)r; }
LSIM_NEON uint8_t vmaxvq_u8(uint8x16_t a) { uint8_t r = a[0]; for (int i = 1; i < 16; i++) r = a[i] > r ? a[i] : r; return r; }
LSIM_NEON uint8_t vminvq_u8(uint8x16_t a) { uint8_t r = a[0]; for (int i = 1; i < 16; i++) r = a[i] < r ? a[i] : r; return r; }
LSIM_NEON uint16_t vaddlvq_u8(uint8x16_t a) { uint16_t r = 0; for (int i = 0; i < 16; i++) r += a[i]; return r; }
LSIM_NEON uint16x8_t vpaddlq_u8(uint8x16_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON uint16x8_t vpadalq_u8(uint16x8_t c, uint8x16_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = c[i] + (uint16_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON uint8x16_t vpaddq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[i] = (uint8_t)((uint64_t)a[2 * i] + (uint64_t)a[2 * i + 1]); r[8 + i] = (uint8_t)((uint64_t)b[2 * i] + (uint64_t)b[2 * i + 1]); } return r; }
LSIM_NEON uint8x16_t vpmaxq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[2 * i] > a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[8 + i] = b[2 * i] > b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON uint8x16_t vpminq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[2 * i] < a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[8 + i] = b[2 * i] < b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON uint8x16_t vclzq_u8(uint8x16_t a) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] ? __builtin_clzll((unsigned long long)(uint8_t)a[i]) - 56 : 8; return r; }
LSIM_NEON uint8x16_t vcntq_u8(uint8x16_t a) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = __builtin_popcount((uint8_t)a[i]); return r; }
LSIM_NEON uint8x16_t vrbitq_u8(uint8x16_t a) { uint8x16_t r; for (int i = 0; i < 16; i++) { unsigned v = (uint8_t)a[i], o = 0; for (int k = 0; k < 8; k++) o |= (v >> k & 1) << (7 - k); r[i] = (uint8_t)o; } return r; }
LSIM_NEON uint8x16_t vrev16q_u8(uint8x16_t a) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i ^ 1]; return r; }
LSIM_NEON uint8x16_t vrev32q_u8(uint8x16_t a) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i ^ 3]; return r; }
LSIM_NEON uint8x16_t vrev64q_u8(uint8x16_t a) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i ^ 7]; return r; }
LSIM_NEON uint8x16_t vshrq_n_u8(uint8x16_t a, const int k) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)(k >= 8 ? (0) : (a[i] >> k)); return r; }
LSIM_NEON uint8x16_t vsraq_n_u8(uint8x16_t c, uint8x16_t a, const int k) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)((uint64_t)c[i] + (uint64_t)(uint8_t)(k >= 8 ? (0) : (a[i] >> k))); return r; }
LSIM_NEON uint8x16_t vrshrq_n_u8(uint8x16_t a, const int k) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)(((uint8_t)(k >= 8 ? (0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON uint8x16_t vshlq_n_u8(uint8x16_t a, const int k) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON uint8x16_t vsliq_n_u8(uint8x16_t a, uint8x16_t b, const int k) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON uint8x16_t vsriq_n_u8(uint8x16_t a, uint8x16_t b, const int k) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)(({ uint64_t m = k >= 8 ? 0 : (uint8_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 8 ? 0 : (uint64_t)((uint8_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON uint8x16_t vshlq_u8(uint8x16_t a, int8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (uint8_t)(s >= 8 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(uint8_t)(k >= 8 ? (0) : (a[i] >> k))); }); return r; }
LSIM_NEON uint16x8_t vld1q_u16(const uint16_t *p) { uint16x8_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1q_u16(uint16_t *p, uint16x8_t a) { memcpy(p, &a, 16); }
LSIM_NEON uint16x8_t vld1q_dup_u16(const uint16_t *p) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = *p; return r; }
LSIM_NEON uint16x8_t vld1q_lane_u16(const uint16_t *p, uint16x8_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1q_lane_u16(uint16_t *p, uint16x8_t a, const int k) { *p = a[k]; }
LSIM_NEON uint16x8x2_t vld1q_u16_x2(const uint16_t *p) { uint16x8x2_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1q_u16_x2(uint16_t *p, uint16x8x2_t a) { memcpy(p, &a, 32); }
LSIM_NEON uint16x8x2_t vld2q_u16(const uint16_t *p) { uint16x8x2_t r; for (int i = 0; i < 8; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2q_u16(uint16_t *p, uint16x8x2_t a) { for (int i = 0; i < 8; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON uint16x8x3_t vld1q_u16_x3(const uint16_t *p) { uint16x8x3_t r; memcpy(&r, p, 48); return r; }
LSIM_NEON void vst1q_u16_x3(uint16_t *p, uint16x8x3_t a) { memcpy(p, &a, 48); }
LSIM_NEON uint16x8x3_t vld3q_u16(const uint16_t *p) { uint16x8x3_t r; for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3q_u16(uint16_t *p, uint16x8x3_t a) { for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON uint16x8x4_t vld1q_u16_x4(const uint16_t *p) { uint16x8x4_t r; memcpy(&r, p, 64); return r; }
LSIM_NEON void vst1q_u16_x4(uint16_t *p, uint16x8x4_t a) { memcpy(p, &a, 64); }
LSIM_NEON uint16x8x4_t vld4q_u16(const uint16_t *p) { uint16x8x4_t r; for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4q_u16(uint16_t *p, uint16x8x4_t a) { for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON uint16x8_t vaddq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8_t)((uint16x8_t)a + (uint16x8_t)b); }
LSIM_NEON uint16x8_t vsubq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8_t)((uint16x8_t)a - (uint16x8_t)b); }
LSIM_NEON uint16x8_t vandq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8_t)((uint16x8_t)a & (uint16x8_t)b); }
LSIM_NEON uint16x8_t vorrq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8_t)((uint16x8_t)a | (uint16x8_t)b); }
LSIM_NEON uint16x8_t veorq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8_t)((uint16x8_t)a ^ (uint16x8_t)b); }
LSIM_NEON uint16x8_t vbicq_u16(uint16x8_t a, uint16x8_t b) { return a & ~b; }
LSIM_NEON uint16x8_t vornq_u16(uint16x8_t a, uint16x8_t b) { return a | ~b; }
LSIM_NEON uint16x8_t vmvnq_u16(uint16x8_t a) { return ~a; }
LSIM_NEON uint16x8_t vdupq_n_u16(uint16_t v) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = v; return r; }
LSIM_NEON uint16x8_t vmovq_n_u16(uint16_t v) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = v; return r; }
LSIM_NEON uint16_t vgetq_lane_u16(uint16x8_t a, const int k) { return a[k]; }
LSIM_NEON uint16x8_t vsetq_lane_u16(uint16_t v, uint16x8_t a, const int k) { a[k] = v; return a; }
LSIM_NEON uint16x8_t vdupq_lane_u16(uint16x4_t a, const int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[k]; return r; }
LSIM_NEON uint16x8_t vdupq_laneq_u16(uint16x8_t a, const int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[k]; return r; }
LSIM_NEON uint16x8_t vextq_u16(uint16x8_t a, uint16x8_t b, const int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = i + k < 8 ? a[i + k] : b[i + k - 8]; return r; }
LSIM_NEON uint16x8_t vbslq_u16(uint16x8_t m, uint16x8_t a, uint16x8_t b) { return (uint16x8_t)((m & (uint16x8_t)a) | (~m & (uint16x8_t)b)); }
LSIM_NEON uint16x8_t vzip1q_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON uint16x8_t vzip2q_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[4 + i]; r[2 * i + 1] = b[4 + i]; } return r; }
LSIM_NEON uint16x8_t vuzp1q_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i]; r[4 + i] = b[2 * i]; } return r; }
LSIM_NEON uint16x8_t vuzp2q_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i + 1]; r[4 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON uint16x8_t vtrn1q_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON uint16x8_t vtrn2q_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON uint16x8x2_t vzipq_u16(uint16x8_t a, uint16x8_t b) { uint16x8x2_t r; r.val[0] = vzip1q_u16(a, b); r.val[1] = vzip2q_u16(a, b); return r; }
LSIM_NEON uint16x8x2_t vuzpq_u16(uint16x8_t a, uint16x8_t b) { uint16x8x2_t r; r.val[0] = vuzp1q_u16(a, b); r.val[1] = vuzp2q_u16(a, b); return r; }
LSIM_NEON uint16x8x2_t vtrnq_u16(uint16x8_t a, uint16x8_t b) { uint16x8x2_t r; r.val[0] = vtrn1q_u16(a, b); r.val[1] = vtrn2q_u16(a, b); return r; }
LSIM_NEON uint16x8_t vceqq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8_t)(a == b); }
LSIM_NEON uint16x8_t vceqzq_u16(uint16x8_t a) { return (uint16x8_t)(a == (uint16x8_t){0}); }
LSIM_NEON uint16x8_t vcgtq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8_t)(a > b); }
LSIM_NEON uint16x8_t vcgeq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8_t)(a >= b); }
LSIM_NEON uint16x8_t vcltq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8_t)(a < b); }
LSIM_NEON uint16x8_t vcleq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8_t)(a <= b); }
LSIM_NEON uint16x8_t vtstq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8_t)((a & b) != (uint16x8_t){0}); }
LSIM_NEON uint16x8_t vminq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
LSIM_NEON uint16x8_t vmaxq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
LSIM_NEON uint16x8_t vmulq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
LSIM_NEON uint16x8_t vmlaq_u16(uint16x8_t a, uint16x8_t b, uint16x8_t c) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON uint16x8_t vmlsq_u16(uint16x8_t a, uint16x8_t b, uint16x8_t c) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON uint16x8_t vmulq_n_u16(uint16x8_t a, uint16_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)a[i] * (uint64_t)b); return r; }
LSIM_NEON uint16x8_t vmlaq_n_u16(uint16x8_t a, uint16x8_t b, uint16_t c) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON uint16x8_t vmlsq_n_u16(uint16x8_t a, uint16x8_t b, uint16_t c) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON uint16x8_t vabdq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON uint16x8_t vabaq_u16(uint16x8_t c, uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)(c[i] + (a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])); return r; }
LSIM_NEON uint16x8_t vhaddq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
LSIM_NEON uint16x8_t vrhaddq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
LSIM_NEON uint16x8_t vhsubq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)(((int64_t)a[i] - b[i]) >> 1); return r; }
LSIM_NEON uint16x8_t vqaddq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int64_t x = (int64_t)a[i] + b[i]; (uint16_t)(x < 0 ? 0 : x > ((int64_t)1 << 16) - 1 ? ((int64_t)1 << 16) - 1 : x); }); return r; }
LSIM_NEON uint16x8_t vqsubq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int64_t x = (int64_t)a[i] - b[i]; (uint16_t)(x < 0 ? 0 : x > ((int64_t)1 << 16) - 1 ? ((int64_t)1 << 16) - 1 : x); }); return r; }
LSIM_NEON uint16_t vaddvq_u16(uint16x8_t a) { uint64_t r = 0; for (int i = 0; i < 8; i++) r += (uint64_t)a[i]; return (uint16_t)r; }
LSIM_NEON uint16_t vmaxvq_u16(uint16x8_t a) { uint16_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] > r ? a[i] : r; return r; }
LSIM_NEON uint16_t vminvq_u16(uint16x8_t a) { uint16_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] < r ? a[i] : r; return r; }
LSIM_NEON uint32_t vaddlvq_u16(uint16x8_t a) { uint32_t r = 0; for (int i = 0; i < 8; i++) r += a[i]; return r; }
LSIM_NEON uint32x4_t vpaddlq_u16(uint16x8_t a) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON uint32x4_t vpadalq_u16(uint32x4_t c, uint16x8_t a) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = c[i] + (uint32_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON uint16x8_t vpaddq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[i] = (uint16_t)((uint64_t)a[2 * i] + (uint64_t)a[2 * i + 1]); r[4 + i] = (uint16_t)((uint64_t)b[2 * i] + (uint64_t)b[2 * i + 1]); } return r; }
LSIM_NEON uint16x8_t vpmaxq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i] > a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[4 + i] = b[2 * i] > b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON uint16x8_t vpminq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2 * i] < a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[4 + i] = b[2 * i] < b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON uint16x8_t vclzq_u16(uint16x8_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] ? __builtin_clzll((unsigned long long)(uint16_t)a[i]) - 48 : 16; return r; }
LSIM_NEON uint16x8_t vrev32q_u16(uint16x8_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 1]; return r; }
LSIM_NEON uint16x8_t vrev64q_u16(uint16x8_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 3]; return r; }
LSIM_NEON uint16x8_t vshrq_n_u16(uint16x8_t a, const int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)(k >= 16 ? (0) : (a[i] >> k)); return r; }
LSIM_NEON uint16x8_t vsraq_n_u16(uint16x8_t c, uint16x8_t a, const int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)c[i] + (uint64_t)(uint16_t)(k >= 16 ? (0) : (a[i] >> k))); return r; }
LSIM_NEON uint16x8_t vrshrq_n_u16(uint16x8_t a, const int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)(((uint16_t)(k >= 16 ? (0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON uint16x8_t vshlq_n_u16(uint16x8_t a, const int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON uint16x8_t vsliq_n_u16(uint16x8_t a, uint16x8_t b, const int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON uint16x8_t vsriq_n_u16(uint16x8_t a, uint16x8_t b, const int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)(({ uint64_t m = k >= 16 ? 0 : (uint16_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 16 ? 0 : (uint64_t)((uint16_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON uint16x8_t vshlq_u16(uint16x8_t a, int16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (uint16_t)(s >= 16 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(uint16_t)(k >= 16 ? (0) : (a[i] >> k))); }); return r; }
LSIM_NEON uint32x4_t vld1q_u32(const uint32_t *p) { uint32x4_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1q_u32(uint32_t *p, uint32x4_t a) { memcpy(p, &a, 16); }
LSIM_NEON uint32x4_t vld1q_dup_u32(const uint32_t *p) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = *p; return r; }
LSIM_NEON uint32x4_t vld1q_lane_u32(const uint32_t *p, uint32x4_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1q_lane_u32(uint32_t *p, uint32x4_t a, const int k) { *p = a[k]; }
LSIM_NEON uint32x4x2_t vld1q_u32_x2(const uint32_t *p) { uint32x4x2_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1q_u32_x2(uint32_t *p, uint32x4x2_t a) { memcpy(p, &a, 32); }
LSIM_NEON uint32x4x2_t vld2q_u32(const uint32_t *p) { uint32x4x2_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2q_u32(uint32_t *p, uint32x4x2_t a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON uint32x4x3_t vld1q_u32_x3(const uint32_t *p) { uint32x4x3_t r; memcpy(&r, p, 48); return r; }
LSIM_NEON void vst1q_u32_x3(uint32_t *p, uint32x4x3_t a) { memcpy(p, &a, 48); }
LSIM_NEON uint32x4x3_t vld3q_u32(const uint32_t *p) { uint32x4x3_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3q_u32(uint32_t *p, uint32x4x3_t a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON uint32x4x4_t vld1q_u32_x4(const uint32_t *p) { uint32x4x4_t r; memcpy(&r, p, 64); return r; }
LSIM_NEON void vst1q_u32_x4(uint32_t *p, uint32x4x4_t a) { memcpy(p, &a, 64); }
LSIM_NEON uint32x4x4_t vld4q_u32(const uint32_t *p) { uint32x4x4_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4q_u32(uint32_t *p, uint32x4x4_t a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON uint32x4_t vaddq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)((uint32x4_t)a + (uint32x4_t)b); }
LSIM_NEON uint32x4_t vsubq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)((uint32x4_t)a - (uint32x4_t)b); }
LSIM_NEON uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)((uint32x4_t)a & (uint32x4_t)b); }
LSIM_NEON uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)((uint32x4_t)a | (uint32x4_t)b); }
LSIM_NEON uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)((uint32x4_t)a ^ (uint32x4_t)b); }
LSIM_NEON uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) { return a & ~b; }
LSIM_NEON uint32x4_t vornq_u32(uint32x4_t a, uint32x4_t b) { return a | ~b; }
LSIM_NEON uint32x4_t vmvnq_u32(uint32x4_t a) { return ~a; }
LSIM_NEON uint32x4_t vdupq_n_u32(uint32_t v) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = v; return r; }
LSIM_NEON uint32x4_t vmovq_n_u32(uint32_t v) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = v; return r; }
LSIM_NEON uint32_t vgetq_lane_u32(uint32x4_t a, const int k) { return a[k]; }
LSIM_NEON uint32x4_t vsetq_lane_u32(uint32_t v, uint32x4_t a, const int k) { a[k] = v; return a; }
LSIM_NEON uint32x4_t vdupq_lane_u32(uint32x2_t a, const int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[k]; return r; }
LSIM_NEON uint32x4_t vdupq_laneq_u32(uint32x4_t a, const int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[k]; return r; }
LSIM_NEON uint32x4_t vextq_u32(uint32x4_t a, uint32x4_t b, const int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = i + k < 4 ? a[i + k] : b[i + k - 4]; return r; }
LSIM_NEON uint32x4_t vbslq_u32(uint32x4_t m, uint32x4_t a, uint32x4_t b) { return (uint32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
LSIM_NEON uint32x4_t vzip1q_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON uint32x4_t vzip2q_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[2 + i]; r[2 * i + 1] = b[2 + i]; } return r; }
LSIM_NEON uint32x4_t vuzp1q_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i]; r[2 + i] = b[2 * i]; } return r; }
LSIM_NEON uint32x4_t vuzp2q_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i + 1]; r[2 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON uint32x4_t vtrn1q_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON uint32x4_t vtrn2q_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON uint32x4x2_t vzipq_u32(uint32x4_t a, uint32x4_t b) { uint32x4x2_t r; r.val[0] = vzip1q_u32(a, b); r.val[1] = vzip2q_u32(a, b); return r; }
LSIM_NEON uint32x4x2_t vuzpq_u32(uint32x4_t a, uint32x4_t b) { uint32x4x2_t r; r.val[0] = vuzp1q_u32(a, b); r.val[1] = vuzp2q_u32(a, b); return r; }
LSIM_NEON uint32x4x2_t vtrnq_u32(uint32x4_t a, uint32x4_t b) { uint32x4x2_t r; r.val[0] = vtrn1q_u32(a, b); r.val[1] = vtrn2q_u32(a, b); return r; }
LSIM_NEON uint32x4_t vceqq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a == b); }
LSIM_NEON uint32x4_t vceqzq_u32(uint32x4_t a) { return (uint32x4_t)(a == (uint32x4_t){0}); }
LSIM_NEON uint32x4_t vcgtq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a > b); }
LSIM_NEON uint32x4_t vcgeq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a >= b); }
LSIM_NEON uint32x4_t vcltq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a < b); }
LSIM_NEON uint32x4_t vcleq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a <= b); }
LSIM_NEON uint32x4_t vtstq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)((a & b) != (uint32x4_t){0}); }
LSIM_NEON uint32x4_t vminq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
LSIM_NEON uint32x4_t vmaxq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
LSIM_NEON uint32x4_t vmulq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
LSIM_NEON uint32x4_t vmlaq_u32(uint32x4_t a, uint32x4_t b, uint32x4_t c) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON uint32x4_t vmlsq_u32(uint32x4_t a, uint32x4_t b, uint32x4_t c) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c[i]); return r; }
LSIM_NEON uint32x4_t vmulq_n_u32(uint32x4_t a, uint32_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)a[i] * (uint64_t)b); return r; }
LSIM_NEON uint32x4_t vmlaq_n_u32(uint32x4_t a, uint32x4_t b, uint32_t c) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON uint32x4_t vmlsq_n_u32(uint32x4_t a, uint32x4_t b, uint32_t c) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c); return r; }
LSIM_NEON uint32x4_t vabdq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON uint32x4_t vabaq_u32(uint32x4_t c, uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)(c[i] + (a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])); return r; }
LSIM_NEON uint32x4_t vhaddq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
LSIM_NEON uint32x4_t vrhaddq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
LSIM_NEON uint32x4_t vhsubq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)(((int64_t)a[i] - b[i]) >> 1); return r; }
LSIM_NEON uint32x4_t vqaddq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int64_t x = (int64_t)a[i] + b[i]; (uint32_t)(x < 0 ? 0 : x > ((int64_t)1 << 32) - 1 ? ((int64_t)1 << 32) - 1 : x); }); return r; }
LSIM_NEON uint32x4_t vqsubq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int64_t x = (int64_t)a[i] - b[i]; (uint32_t)(x < 0 ? 0 : x > ((int64_t)1 << 32) - 1 ? ((int64_t)1 << 32) - 1 : x); }); return r; }
LSIM_NEON uint32_t vaddvq_u32(uint32x4_t a) { uint64_t r = 0; for (int i = 0; i < 4; i++) r += (uint64_t)a[i]; return (uint32_t)r; }
LSIM_NEON uint32_t vmaxvq_u32(uint32x4_t a) { uint32_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] > r ? a[i] : r; return r; }
LSIM_NEON uint32_t vminvq_u32(uint32x4_t a) { uint32_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] < r ? a[i] : r; return r; }
LSIM_NEON uint64_t vaddlvq_u32(uint32x4_t a) { uint64_t r = 0; for (int i = 0; i < 4; i++) r += a[i]; return r; }
LSIM_NEON uint64x2_t vpaddlq_u32(uint32x4_t a) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON uint64x2_t vpadalq_u32(uint64x2_t c, uint32x4_t a) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = c[i] + (uint64_t)a[2 * i] + a[2 * i + 1]; return r; }
LSIM_NEON uint32x4_t vpaddq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[i] = (uint32_t)((uint64_t)a[2 * i] + (uint64_t)a[2 * i + 1]); r[2 + i] = (uint32_t)((uint64_t)b[2 * i] + (uint64_t)b[2 * i + 1]); } return r; }
LSIM_NEON uint32x4_t vpmaxq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i] > a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[2 + i] = b[2 * i] > b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON uint32x4_t vpminq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2 * i] < a[2 * i + 1] ? (a[2 * i]) : (a[2 * i + 1]); r[2 + i] = b[2 * i] < b[2 * i + 1] ? (b[2 * i]) : (b[2 * i + 1]); } return r; }
LSIM_NEON uint32x4_t vclzq_u32(uint32x4_t a) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] ? __builtin_clzll((unsigned long long)(uint32_t)a[i]) - 32 : 32; return r; }
LSIM_NEON uint32x4_t vrev64q_u32(uint32x4_t a) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 1]; return r; }
LSIM_NEON uint32x4_t vshrq_n_u32(uint32x4_t a, const int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)(k >= 32 ? (0) : (a[i] >> k)); return r; }
LSIM_NEON uint32x4_t vsraq_n_u32(uint32x4_t c, uint32x4_t a, const int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)c[i] + (uint64_t)(uint32_t)(k >= 32 ? (0) : (a[i] >> k))); return r; }
LSIM_NEON uint32x4_t vrshrq_n_u32(uint32x4_t a, const int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)(((uint32_t)(k >= 32 ? (0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON uint32x4_t vshlq_n_u32(uint32x4_t a, const int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON uint32x4_t vsliq_n_u32(uint32x4_t a, uint32x4_t b, const int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON uint32x4_t vsriq_n_u32(uint32x4_t a, uint32x4_t b, const int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)(({ uint64_t m = k >= 32 ? 0 : (uint32_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 32 ? 0 : (uint64_t)((uint32_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON uint32x4_t vshlq_u32(uint32x4_t a, int32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (uint32_t)(s >= 32 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(uint32_t)(k >= 32 ? (0) : (a[i] >> k))); }); return r; }
LSIM_NEON uint64x2_t vld1q_u64(const uint64_t *p) { uint64x2_t r; memcpy(&r, p, 16); return r; }
LSIM_NEON void vst1q_u64(uint64_t *p, uint64x2_t a) { memcpy(p, &a, 16); }
LSIM_NEON uint64x2_t vld1q_dup_u64(const uint64_t *p) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = *p; return r; }
LSIM_NEON uint64x2_t vld1q_lane_u64(const uint64_t *p, uint64x2_t a, const int k) { a[k] = *p; return a; }
LSIM_NEON void vst1q_lane_u64(uint64_t *p, uint64x2_t a, const int k) { *p = a[k]; }
LSIM_NEON uint64x2x2_t vld1q_u64_x2(const uint64_t *p) { uint64x2x2_t r; memcpy(&r, p, 32); return r; }
LSIM_NEON void vst1q_u64_x2(uint64_t *p, uint64x2x2_t a) { memcpy(p, &a, 32); }
LSIM_NEON uint64x2x2_t vld2q_u64(const uint64_t *p) { uint64x2x2_t r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
LSIM_NEON void vst2q_u64(uint64_t *p, uint64x2x2_t a) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = a.val[j][i]; }
LSIM_NEON uint64x2x3_t vld1q_u64_x3(const uint64_t *p) { uint64x2x3_t r; memcpy(&r, p, 48); return r; }
LSIM_NEON void vst1q_u64_x3(uint64_t *p, uint64x2x3_t a) { memcpy(p, &a, 48); }
LSIM_NEON uint64x2x3_t vld3q_u64(const uint64_t *p) { uint64x2x3_t r; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
LSIM_NEON void vst3q_u64(uint64_t *p, uint64x2x3_t a) { for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = a.val[j][i]; }
LSIM_NEON uint64x2x4_t vld1q_u64_x4(const uint64_t *p) { uint64x2x4_t r; memcpy(&r, p, 64); return r; }
LSIM_NEON void vst1q_u64_x4(uint64_t *p, uint64x2x4_t a) { memcpy(p, &a, 64); }
LSIM_NEON uint64x2x4_t vld4q_u64(const uint64_t *p) { uint64x2x4_t r; for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
LSIM_NEON void vst4q_u64(uint64_t *p, uint64x2x4_t a) { for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
LSIM_NEON uint64x2_t vaddq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t)((uint64x2_t)a + (uint64x2_t)b); }
LSIM_NEON uint64x2_t vsubq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t)((uint64x2_t)a - (uint64x2_t)b); }
LSIM_NEON uint64x2_t vandq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t)((uint64x2_t)a & (uint64x2_t)b); }
LSIM_NEON uint64x2_t vorrq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t)((uint64x2_t)a | (uint64x2_t)b); }
LSIM_NEON uint64x2_t veorq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t)((uint64x2_t)a ^ (uint64x2_t)b); }
LSIM_NEON uint64x2_t vbicq_u64(uint64x2_t a, uint64x2_t b) { return a & ~b; }
LSIM_NEON uint64x2_t vornq_u64(uint64x2_t a, uint64x2_t b) { return a | ~b; }
LSIM_NEON uint64x2_t vdupq_n_u64(uint64_t v) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = v; return r; }
LSIM_NEON uint64x2_t vmovq_n_u64(uint64_t v) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = v; return r; }
LSIM_NEON uint64_t vgetq_lane_u64(uint64x2_t a, const int k) { return a[k]; }
LSIM_NEON uint64x2_t vsetq_lane_u64(uint64_t v, uint64x2_t a, const int k) { a[k] = v; return a; }
LSIM_NEON uint64x2_t vdupq_lane_u64(uint64x1_t a, const int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[k]; return r; }
LSIM_NEON uint64x2_t vdupq_laneq_u64(uint64x2_t a, const int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[k]; return r; }
LSIM_NEON uint64x2_t vextq_u64(uint64x2_t a, uint64x2_t b, const int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = i + k < 2 ? a[i + k] : b[i + k - 2]; return r; }
LSIM_NEON uint64x2_t vbslq_u64(uint64x2_t m, uint64x2_t a, uint64x2_t b) { return (uint64x2_t)((m & (uint64x2_t)a) | (~m & (uint64x2_t)b)); }
LSIM_NEON uint64x2_t vzip1q_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
LSIM_NEON uint64x2_t vzip2q_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[1 + i]; r[2 * i + 1] = b[1 + i]; } return r; }
LSIM_NEON uint64x2_t vuzp1q_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2 * i]; r[1 + i] = b[2 * i]; } return r; }
LSIM_NEON uint64x2_t vuzp2q_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2 * i + 1]; r[1 + i] = b[2 * i + 1]; } return r; }
LSIM_NEON uint64x2_t vtrn1q_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r; }
LSIM_NEON uint64x2_t vtrn2q_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r; }
LSIM_NEON uint64x2_t vceqq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t)(a == b); }
LSIM_NEON uint64x2_t vceqzq_u64(uint64x2_t a) { return (uint64x2_t)(a == (uint64x2_t){0}); }
LSIM_NEON uint64x2_t vcgtq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t)(a > b); }
LSIM_NEON uint64x2_t vcgeq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t)(a >= b); }
LSIM_NEON uint64x2_t vcltq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t)(a < b); }
LSIM_NEON uint64x2_t vcleq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t)(a <= b); }
LSIM_NEON uint64x2_t vtstq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t)((a & b) != (uint64x2_t){0}); }
LSIM_NEON uint64_t vaddvq_u64(uint64x2_t a) { uint64_t r = 0; for (int i = 0; i < 2; i++) r += (uint64_t)a[i]; return (uint64_t)r; }
LSIM_NEON uint64x2_t vpaddq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; r[0] = a[0] + a[1]; r[1] = b[0] + b[1]; return r; }
LSIM_NEON uint64x2_t vshrq_n_u64(uint64x2_t a, const int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)(k >= 64 ? (0) : (a[i] >> k)); return r; }
LSIM_NEON uint64x2_t vsraq_n_u64(uint64x2_t c, uint64x2_t a, const int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)c[i] + (uint64_t)(uint64_t)(k >= 64 ? (0) : (a[i] >> k))); return r; }
LSIM_NEON uint64x2_t vrshrq_n_u64(uint64x2_t a, const int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)(((uint64_t)(k >= 64 ? (0) : (a[i] >> k))) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON uint64x2_t vshlq_n_u64(uint64x2_t a, const int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)a[i] << k); return r; }
LSIM_NEON uint64x2_t vsliq_n_u64(uint64x2_t a, uint64x2_t b, const int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1))); return r; }
LSIM_NEON uint64x2_t vsriq_n_u64(uint64x2_t a, uint64x2_t b, const int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)(({ uint64_t m = k >= 64 ? 0 : (uint64_t)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= 64 ? 0 : (uint64_t)((uint64_t)b[i] >> k)) & m); })); return r; }
LSIM_NEON uint64x2_t vshlq_u64(uint64x2_t a, int64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = ({ int s = (int8_t)b[i], k = -s; (uint64_t)(s >= 64 ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)(uint64_t)(k >= 64 ? (0) : (a[i] >> k))); }); return r; }
LSIM_NEON int8x16_t vreinterpretq_s8_s16(int16x8_t a) { return (int8x16_t)a; }
LSIM_NEON int8x16_t vreinterpretq_s8_s32(int32x4_t a) { return (int8x16_t)a; }
LSIM_NEON int8x16_t vreinterpretq_s8_s64(int64x2_t a) { return (int8x16_t)a; }
LSIM_NEON int8x16_t vreinterpretq_s8_u8(uint8x16_t a) { return (int8x16_t)a; }
LSIM_NEON int8x16_t vreinterpretq_s8_u16(uint16x8_t a) { return (int8x16_t)a; }
LSIM_NEON int8x16_t vreinterpretq_s8_u32(uint32x4_t a) { return (int8x16_t)a; }
LSIM_NEON int8x16_t vreinterpretq_s8_u64(uint64x2_t a) { return (int8x16_t)a; }
LSIM_NEON int16x8_t vreinterpretq_s16_s8(int8x16_t a) { return (int16x8_t)a; }
LSIM_NEON int16x8_t vreinterpretq_s16_s32(int32x4_t a) { return (int16x8_t)a; }
LSIM_NEON int16x8_t vreinterpretq_s16_s64(int64x2_t a) { return (int16x8_t)a; }
LSIM_NEON int16x8_t vreinterpretq_s16_u8(uint8x16_t a) { return (int16x8_t)a; }
LSIM_NEON int16x8_t vreinterpretq_s16_u16(uint16x8_t a) { return (int16x8_t)a; }
LSIM_NEON int16x8_t vreinterpretq_s16_u32(uint32x4_t a) { return (int16x8_t)a; }
LSIM_NEON int16x8_t vreinterpretq_s16_u64(uint64x2_t a) { return (int16x8_t)a; }
LSIM_NEON int32x4_t vreinterpretq_s32_s8(int8x16_t a) { return (int32x4_t)a; }
LSIM_NEON int32x4_t vreinterpretq_s32_s16(int16x8_t a) { return (int32x4_t)a; }
LSIM_NEON int32x4_t vreinterpretq_s32_s64(int64x2_t a) { return (int32x4_t)a; }
LSIM_NEON int32x4_t vreinterpretq_s32_u8(uint8x16_t a) { return (int32x4_t)a; }
LSIM_NEON int32x4_t vreinterpretq_s32_u16(uint16x8_t a) { return (int32x4_t)a; }
LSIM_NEON int32x4_t vreinterpretq_s32_u32(uint32x4_t a) { return (int32x4_t)a; }
LSIM_NEON int32x4_t vreinterpretq_s32_u64(uint64x2_t a) { return (int32x4_t)a; }
LSIM_NEON int64x2_t vreinterpretq_s64_s8(int8x16_t a) { return (int64x2_t)a; }
LSIM_NEON int64x2_t vreinterpretq_s64_s16(int16x8_t a) { return (int64x2_t)a; }
LSIM_NEON int64x2_t vreinterpretq_s64_s32(int32x4_t a) { return (int64x2_t)a; }
LSIM_NEON int64x2_t vreinterpretq_s64_u8(uint8x16_t a) { return (int64x2_t)a; }
LSIM_NEON int64x2_t vreinterpretq_s64_u16(uint16x8_t a) { return (int64x2_t)a; }
LSIM_NEON int64x2_t vreinterpretq_s64_u32(uint32x4_t a) { return (int64x2_t)a; }
LSIM_NEON int64x2_t vreinterpretq_s64_u64(uint64x2_t a) { return (int64x2_t)a; }
LSIM_NEON uint8x16_t vreinterpretq_u8_s8(int8x16_t a) { return (uint8x16_t)a; }
LSIM_NEON uint8x16_t vreinterpretq_u8_s16(int16x8_t a) { return (uint8x16_t)a; }
LSIM_NEON uint8x16_t vreinterpretq_u8_s32(int32x4_t a) { return (uint8x16_t)a; }
LSIM_NEON uint8x16_t vreinterpretq_u8_s64(int64x2_t a) { return (uint8x16_t)a; }
LSIM_NEON uint8x16_t vreinterpretq_u8_u16(uint16x8_t a) { return (uint8x16_t)a; }
LSIM_NEON uint8x16_t vreinterpretq_u8_u32(uint32x4_t a) { return (uint8x16_t)a; }
LSIM_NEON uint8x16_t vreinterpretq_u8_u64(uint64x2_t a) { return (uint8x16_t)a; }
LSIM_NEON uint16x8_t vreinterpretq_u16_s8(int8x16_t a) { return (uint16x8_t)a; }
LSIM_NEON uint16x8_t vreinterpretq_u16_s16(int16x8_t a) { return (uint16x8_t)a; }
LSIM_NEON uint16x8_t vreinterpretq_u16_s32(int32x4_t a) { return (uint16x8_t)a; }
LSIM_NEON uint16x8_t vreinterpretq_u16_s64(int64x2_t a) { return (uint16x8_t)a; }
LSIM_NEON uint16x8_t vreinterpretq_u16_u8(uint8x16_t a) { return (uint16x8_t)a; }
LSIM_NEON uint16x8_t vreinterpretq_u16_u32(uint32x4_t a) { return (uint16x8_t)a; }
LSIM_NEON uint16x8_t vreinterpretq_u16_u64(uint64x2_t a) { return (uint16x8_t)a; }
LSIM_NEON uint32x4_t vreinterpretq_u32_s8(int8x16_t a) { return (uint32x4_t)a; }
LSIM_NEON uint32x4_t vreinterpretq_u32_s16(int16x8_t a) { return (uint32x4_t)a; }
LSIM_NEON uint32x4_t vreinterpretq_u32_s32(int32x4_t a) { return (uint32x4_t)a; }
LSIM_NEON uint32x4_t vreinterpretq_u32_s64(int64x2_t a) { return (uint32x4_t)a; }
LSIM_NEON uint32x4_t vreinterpretq_u32_u8(uint8x16_t a) { return (uint32x4_t)a; }
LSIM_NEON uint32x4_t vreinterpretq_u32_u16(uint16x8_t a) { return (uint32x4_t)a; }
LSIM_NEON uint32x4_t vreinterpretq_u32_u64(uint64x2_t a) { return (uint32x4_t)a; }
LSIM_NEON uint64x2_t vreinterpretq_u64_s8(int8x16_t a) { return (uint64x2_t)a; }
LSIM_NEON uint64x2_t vreinterpretq_u64_s16(int16x8_t a) { return (uint64x2_t)a; }
LSIM_NEON uint64x2_t vreinterpretq_u64_s32(int32x4_t a) { return (uint64x2_t)a; }
LSIM_NEON uint64x2_t vreinterpretq_u64_s64(int64x2_t a) { return (uint64x2_t)a; }
LSIM_NEON uint64x2_t vreinterpretq_u64_u8(uint8x16_t a) { return (uint64x2_t)a; }
LSIM_NEON uint64x2_t vreinterpretq_u64_u16(uint16x8_t a) { return (uint64x2_t)a; }
LSIM_NEON uint64x2_t vreinterpretq_u64_u32(uint32x4_t a) { return (uint64x2_t)a; }
LSIM_NEON int8x8_t vcreate_s8(uint64_t a) { int8x8_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON int8x8_t vget_low_s8(int8x16_t a) { int8x8_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON int8x8_t vget_high_s8(int8x16_t a) { int8x8_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
LSIM_NEON int8x16_t vcombine_s8(int8x8_t l, int8x8_t h) { int8x16_t r; memcpy(&r, &l, 8); memcpy((char *)&r + 8, &h, 8); return r; }
LSIM_NEON int16x8_t vaddl_s8(int8x8_t a, int8x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)(int16_t)a[i] + (uint64_t)(int16_t)b[i]); return r; }
LSIM_NEON int16x8_t vaddl_high_s8(int8x16_t a, int8x16_t b) { return vaddl_s8(vget_high_s8(a), vget_high_s8(b)); }
LSIM_NEON int16x8_t vsubl_s8(int8x8_t a, int8x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)(int16_t)a[i] - (uint64_t)(int16_t)b[i]); return r; }
LSIM_NEON int16x8_t vsubl_high_s8(int8x16_t a, int8x16_t b) { return vsubl_s8(vget_high_s8(a), vget_high_s8(b)); }
LSIM_NEON int16x8_t vmull_s8(int8x8_t a, int8x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)(int16_t)a[i] * (uint64_t)(int16_t)b[i]); return r; }
LSIM_NEON int16x8_t vmull_high_s8(int8x16_t a, int8x16_t b) { return vmull_s8(vget_high_s8(a), vget_high_s8(b)); }
LSIM_NEON int16x8_t vabdl_s8(int8x8_t a, int8x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON int16x8_t vabdl_high_s8(int8x16_t a, int8x16_t b) { return vabdl_s8(vget_high_s8(a), vget_high_s8(b)); }
LSIM_NEON int16x8_t vmlal_s8(int16x8_t c, int8x8_t a, int8x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)c[i] + (uint64_t)(int16_t)a[i] * (uint64_t)(int16_t)b[i]); return r; }
LSIM_NEON int16x8_t vmlal_high_s8(int16x8_t c, int8x16_t a, int8x16_t b) { return vmlal_s8(c, vget_high_s8(a), vget_high_s8(b)); }
LSIM_NEON int16x8_t vmlsl_s8(int16x8_t c, int8x8_t a, int8x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)c[i] - (uint64_t)(int16_t)a[i] * (uint64_t)(int16_t)b[i]); return r; }
LSIM_NEON int16x8_t vmlsl_high_s8(int16x8_t c, int8x16_t a, int8x16_t b) { return vmlsl_s8(c, vget_high_s8(a), vget_high_s8(b)); }
LSIM_NEON int16x8_t vaddw_s8(int16x8_t a, int8x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)a[i] + (uint64_t)(int16_t)b[i]); return r; }
LSIM_NEON int16x8_t vaddw_high_s8(int16x8_t a, int8x16_t b) { return vaddw_s8(a, vget_high_s8(b)); }
LSIM_NEON int16x8_t vsubw_s8(int16x8_t a, int8x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)a[i] - (uint64_t)(int16_t)b[i]); return r; }
LSIM_NEON int16x8_t vsubw_high_s8(int16x8_t a, int8x16_t b) { return vsubw_s8(a, vget_high_s8(b)); }
LSIM_NEON int16x8_t vmovl_s8(int8x8_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i]; return r; }
LSIM_NEON int16x8_t vmovl_high_s8(int8x16_t a) { return vmovl_s8(vget_high_s8(a)); }
LSIM_NEON int16x8_t vshll_n_s8(int8x8_t a, const int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint64_t)(int16_t)a[i] << k); return r; }
LSIM_NEON int8x8_t vmovn_s16(int16x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)a[i]; return r; }
LSIM_NEON int8x16_t vmovn_high_s16(int8x8_t l, int16x8_t a) { return vcombine_s8(l, vmovn_s16(a)); }
LSIM_NEON int8x8_t vshrn_n_s16(int16x8_t a, const int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(a[i] >> k); return r; }
LSIM_NEON int8x16_t vshrn_high_n_s16(int8x8_t l, int16x8_t a, const int k) { return vcombine_s8(l, vshrn_n_s16(a, k)); }
LSIM_NEON int8x8_t vrshrn_n_s16(int16x8_t a, const int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)((a[i] >> k) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON int8x8_t vqmovn_s16(int16x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(a[i] < -((int64_t)1 << 7) ? -((int64_t)1 << 7) : a[i] > ((int64_t)1 << 7) - 1 ? ((int64_t)1 << 7) - 1 : a[i]); return r; }
LSIM_NEON uint8x8_t vqmovun_s16(int16x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(a[i] < 0 ? 0 : a[i] > ((int64_t)1 << 8) - 1 ? ((int64_t)1 << 8) - 1 : a[i]); return r; }
LSIM_NEON int8x8_t vaddhn_s16(int16x8_t a, int16x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)((uint16_t)((uint64_t)a[i] + (uint64_t)b[i]) >> 8); return r; }
LSIM_NEON int8x8_t vsubhn_s16(int16x8_t a, int16x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)((uint16_t)((uint64_t)a[i] - (uint64_t)b[i]) >> 8); return r; }
LSIM_NEON int16x4_t vcreate_s16(uint64_t a) { int16x4_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON int16x4_t vget_low_s16(int16x8_t a) { int16x4_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON int16x4_t vget_high_s16(int16x8_t a) { int16x4_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
LSIM_NEON int16x8_t vcombine_s16(int16x4_t l, int16x4_t h) { int16x8_t r; memcpy(&r, &l, 8); memcpy((char *)&r + 8, &h, 8); return r; }
LSIM_NEON int32x4_t vaddl_s16(int16x4_t a, int16x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)(int32_t)a[i] + (uint64_t)(int32_t)b[i]); return r; }
LSIM_NEON int32x4_t vaddl_high_s16(int16x8_t a, int16x8_t b) { return vaddl_s16(vget_high_s16(a), vget_high_s16(b)); }
LSIM_NEON int32x4_t vsubl_s16(int16x4_t a, int16x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)(int32_t)a[i] - (uint64_t)(int32_t)b[i]); return r; }
LSIM_NEON int32x4_t vsubl_high_s16(int16x8_t a, int16x8_t b) { return vsubl_s16(vget_high_s16(a), vget_high_s16(b)); }
LSIM_NEON int32x4_t vmull_s16(int16x4_t a, int16x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)(int32_t)a[i] * (uint64_t)(int32_t)b[i]); return r; }
LSIM_NEON int32x4_t vmull_high_s16(int16x8_t a, int16x8_t b) { return vmull_s16(vget_high_s16(a), vget_high_s16(b)); }
LSIM_NEON int32x4_t vabdl_s16(int16x4_t a, int16x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON int32x4_t vabdl_high_s16(int16x8_t a, int16x8_t b) { return vabdl_s16(vget_high_s16(a), vget_high_s16(b)); }
LSIM_NEON int32x4_t vmull_n_s16(int16x4_t a, int16_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)(int32_t)a[i] * (uint64_t)(int32_t)b); return r; }
LSIM_NEON int32x4_t vmlal_s16(int32x4_t c, int16x4_t a, int16x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)c[i] + (uint64_t)(int32_t)a[i] * (uint64_t)(int32_t)b[i]); return r; }
LSIM_NEON int32x4_t vmlal_high_s16(int32x4_t c, int16x8_t a, int16x8_t b) { return vmlal_s16(c, vget_high_s16(a), vget_high_s16(b)); }
LSIM_NEON int32x4_t vmlsl_s16(int32x4_t c, int16x4_t a, int16x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)c[i] - (uint64_t)(int32_t)a[i] * (uint64_t)(int32_t)b[i]); return r; }
LSIM_NEON int32x4_t vmlsl_high_s16(int32x4_t c, int16x8_t a, int16x8_t b) { return vmlsl_s16(c, vget_high_s16(a), vget_high_s16(b)); }
LSIM_NEON int32x4_t vaddw_s16(int32x4_t a, int16x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)a[i] + (uint64_t)(int32_t)b[i]); return r; }
LSIM_NEON int32x4_t vaddw_high_s16(int32x4_t a, int16x8_t b) { return vaddw_s16(a, vget_high_s16(b)); }
LSIM_NEON int32x4_t vsubw_s16(int32x4_t a, int16x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)a[i] - (uint64_t)(int32_t)b[i]); return r; }
LSIM_NEON int32x4_t vsubw_high_s16(int32x4_t a, int16x8_t b) { return vsubw_s16(a, vget_high_s16(b)); }
LSIM_NEON int32x4_t vmovl_s16(int16x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i]; return r; }
LSIM_NEON int32x4_t vmovl_high_s16(int16x8_t a) { return vmovl_s16(vget_high_s16(a)); }
LSIM_NEON int32x4_t vshll_n_s16(int16x4_t a, const int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint64_t)(int32_t)a[i] << k); return r; }
LSIM_NEON int16x4_t vmovn_s32(int32x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)a[i]; return r; }
LSIM_NEON int16x8_t vmovn_high_s32(int16x4_t l, int32x4_t a) { return vcombine_s16(l, vmovn_s32(a)); }
LSIM_NEON int16x4_t vshrn_n_s32(int32x4_t a, const int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(a[i] >> k); return r; }
LSIM_NEON int16x8_t vshrn_high_n_s32(int16x4_t l, int32x4_t a, const int k) { return vcombine_s16(l, vshrn_n_s32(a, k)); }
LSIM_NEON int16x4_t vrshrn_n_s32(int32x4_t a, const int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((a[i] >> k) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON int16x4_t vqmovn_s32(int32x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(a[i] < -((int64_t)1 << 15) ? -((int64_t)1 << 15) : a[i] > ((int64_t)1 << 15) - 1 ? ((int64_t)1 << 15) - 1 : a[i]); return r; }
LSIM_NEON uint16x4_t vqmovun_s32(int32x4_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(a[i] < 0 ? 0 : a[i] > ((int64_t)1 << 16) - 1 ? ((int64_t)1 << 16) - 1 : a[i]); return r; }
LSIM_NEON int16x4_t vaddhn_s32(int32x4_t a, int32x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((uint32_t)((uint64_t)a[i] + (uint64_t)b[i]) >> 16); return r; }
LSIM_NEON int16x4_t vsubhn_s32(int32x4_t a, int32x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((uint32_t)((uint64_t)a[i] - (uint64_t)b[i]) >> 16); return r; }
LSIM_NEON int32x2_t vcreate_s32(uint64_t a) { int32x2_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON int32x2_t vget_low_s32(int32x4_t a) { int32x2_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON int32x2_t vget_high_s32(int32x4_t a) { int32x2_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
LSIM_NEON int32x4_t vcombine_s32(int32x2_t l, int32x2_t h) { int32x4_t r; memcpy(&r, &l, 8); memcpy((char *)&r + 8, &h, 8); return r; }
LSIM_NEON int64x2_t vaddl_s32(int32x2_t a, int32x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)(int64_t)a[i] + (uint64_t)(int64_t)b[i]); return r; }
LSIM_NEON int64x2_t vaddl_high_s32(int32x4_t a, int32x4_t b) { return vaddl_s32(vget_high_s32(a), vget_high_s32(b)); }
LSIM_NEON int64x2_t vsubl_s32(int32x2_t a, int32x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)(int64_t)a[i] - (uint64_t)(int64_t)b[i]); return r; }
LSIM_NEON int64x2_t vsubl_high_s32(int32x4_t a, int32x4_t b) { return vsubl_s32(vget_high_s32(a), vget_high_s32(b)); }
LSIM_NEON int64x2_t vmull_s32(int32x2_t a, int32x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)(int64_t)a[i] * (uint64_t)(int64_t)b[i]); return r; }
LSIM_NEON int64x2_t vmull_high_s32(int32x4_t a, int32x4_t b) { return vmull_s32(vget_high_s32(a), vget_high_s32(b)); }
LSIM_NEON int64x2_t vabdl_s32(int32x2_t a, int32x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON int64x2_t vabdl_high_s32(int32x4_t a, int32x4_t b) { return vabdl_s32(vget_high_s32(a), vget_high_s32(b)); }
LSIM_NEON int64x2_t vmull_n_s32(int32x2_t a, int32_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)(int64_t)a[i] * (uint64_t)(int64_t)b); return r; }
LSIM_NEON int64x2_t vmlal_s32(int64x2_t c, int32x2_t a, int32x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)c[i] + (uint64_t)(int64_t)a[i] * (uint64_t)(int64_t)b[i]); return r; }
LSIM_NEON int64x2_t vmlal_high_s32(int64x2_t c, int32x4_t a, int32x4_t b) { return vmlal_s32(c, vget_high_s32(a), vget_high_s32(b)); }
LSIM_NEON int64x2_t vmlsl_s32(int64x2_t c, int32x2_t a, int32x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)c[i] - (uint64_t)(int64_t)a[i] * (uint64_t)(int64_t)b[i]); return r; }
LSIM_NEON int64x2_t vmlsl_high_s32(int64x2_t c, int32x4_t a, int32x4_t b) { return vmlsl_s32(c, vget_high_s32(a), vget_high_s32(b)); }
LSIM_NEON int64x2_t vaddw_s32(int64x2_t a, int32x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)a[i] + (uint64_t)(int64_t)b[i]); return r; }
LSIM_NEON int64x2_t vaddw_high_s32(int64x2_t a, int32x4_t b) { return vaddw_s32(a, vget_high_s32(b)); }
LSIM_NEON int64x2_t vsubw_s32(int64x2_t a, int32x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)a[i] - (uint64_t)(int64_t)b[i]); return r; }
LSIM_NEON int64x2_t vsubw_high_s32(int64x2_t a, int32x4_t b) { return vsubw_s32(a, vget_high_s32(b)); }
LSIM_NEON int64x2_t vmovl_s32(int32x2_t a) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i]; return r; }
LSIM_NEON int64x2_t vmovl_high_s32(int32x4_t a) { return vmovl_s32(vget_high_s32(a)); }
LSIM_NEON int64x2_t vshll_n_s32(int32x2_t a, const int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)(int64_t)a[i] << k); return r; }
LSIM_NEON int32x2_t vmovn_s64(int64x2_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)a[i]; return r; }
LSIM_NEON int32x4_t vmovn_high_s64(int32x2_t l, int64x2_t a) { return vcombine_s32(l, vmovn_s64(a)); }
LSIM_NEON int32x2_t vshrn_n_s64(int64x2_t a, const int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(a[i] >> k); return r; }
LSIM_NEON int32x4_t vshrn_high_n_s64(int32x2_t l, int64x2_t a, const int k) { return vcombine_s32(l, vshrn_n_s64(a, k)); }
LSIM_NEON int32x2_t vrshrn_n_s64(int64x2_t a, const int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((a[i] >> k) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON int32x2_t vqmovn_s64(int64x2_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(a[i] < -((int64_t)1 << 31) ? -((int64_t)1 << 31) : a[i] > ((int64_t)1 << 31) - 1 ? ((int64_t)1 << 31) - 1 : a[i]); return r; }
LSIM_NEON uint32x2_t vqmovun_s64(int64x2_t a) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(a[i] < 0 ? 0 : a[i] > ((int64_t)1 << 32) - 1 ? ((int64_t)1 << 32) - 1 : a[i]); return r; }
LSIM_NEON int32x2_t vaddhn_s64(int64x2_t a, int64x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint64_t)((uint64_t)a[i] + (uint64_t)b[i]) >> 32); return r; }
LSIM_NEON int32x2_t vsubhn_s64(int64x2_t a, int64x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint64_t)((uint64_t)a[i] - (uint64_t)b[i]) >> 32); return r; }
LSIM_NEON int64x1_t vcreate_s64(uint64_t a) { int64x1_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON int64x1_t vget_low_s64(int64x2_t a) { int64x1_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON int64x1_t vget_high_s64(int64x2_t a) { int64x1_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
LSIM_NEON int64x2_t vcombine_s64(int64x1_t l, int64x1_t h) { int64x2_t r; memcpy(&r, &l, 8); memcpy((char *)&r + 8, &h, 8); return r; }
LSIM_NEON uint8x8_t vcreate_u8(uint64_t a) { uint8x8_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON uint8x8_t vget_low_u8(uint8x16_t a) { uint8x8_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON uint8x8_t vget_high_u8(uint8x16_t a) { uint8x8_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
LSIM_NEON uint8x16_t vcombine_u8(uint8x8_t l, uint8x8_t h) { uint8x16_t r; memcpy(&r, &l, 8); memcpy((char *)&r + 8, &h, 8); return r; }
LSIM_NEON uint16x8_t vaddl_u8(uint8x8_t a, uint8x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)(uint16_t)a[i] + (uint64_t)(uint16_t)b[i]); return r; }
LSIM_NEON uint16x8_t vaddl_high_u8(uint8x16_t a, uint8x16_t b) { return vaddl_u8(vget_high_u8(a), vget_high_u8(b)); }
LSIM_NEON uint16x8_t vsubl_u8(uint8x8_t a, uint8x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)(uint16_t)a[i] - (uint64_t)(uint16_t)b[i]); return r; }
LSIM_NEON uint16x8_t vsubl_high_u8(uint8x16_t a, uint8x16_t b) { return vsubl_u8(vget_high_u8(a), vget_high_u8(b)); }
LSIM_NEON uint16x8_t vmull_u8(uint8x8_t a, uint8x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)(uint16_t)a[i] * (uint64_t)(uint16_t)b[i]); return r; }
LSIM_NEON uint16x8_t vmull_high_u8(uint8x16_t a, uint8x16_t b) { return vmull_u8(vget_high_u8(a), vget_high_u8(b)); }
LSIM_NEON uint16x8_t vabdl_u8(uint8x8_t a, uint8x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON uint16x8_t vabdl_high_u8(uint8x16_t a, uint8x16_t b) { return vabdl_u8(vget_high_u8(a), vget_high_u8(b)); }
LSIM_NEON uint16x8_t vmlal_u8(uint16x8_t c, uint8x8_t a, uint8x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)c[i] + (uint64_t)(uint16_t)a[i] * (uint64_t)(uint16_t)b[i]); return r; }
LSIM_NEON uint16x8_t vmlal_high_u8(uint16x8_t c, uint8x16_t a, uint8x16_t b) { return vmlal_u8(c, vget_high_u8(a), vget_high_u8(b)); }
LSIM_NEON uint16x8_t vmlsl_u8(uint16x8_t c, uint8x8_t a, uint8x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)c[i] - (uint64_t)(uint16_t)a[i] * (uint64_t)(uint16_t)b[i]); return r; }
LSIM_NEON uint16x8_t vmlsl_high_u8(uint16x8_t c, uint8x16_t a, uint8x16_t b) { return vmlsl_u8(c, vget_high_u8(a), vget_high_u8(b)); }
LSIM_NEON uint16x8_t vaddw_u8(uint16x8_t a, uint8x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)a[i] + (uint64_t)(uint16_t)b[i]); return r; }
LSIM_NEON uint16x8_t vaddw_high_u8(uint16x8_t a, uint8x16_t b) { return vaddw_u8(a, vget_high_u8(b)); }
LSIM_NEON uint16x8_t vsubw_u8(uint16x8_t a, uint8x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)a[i] - (uint64_t)(uint16_t)b[i]); return r; }
LSIM_NEON uint16x8_t vsubw_high_u8(uint16x8_t a, uint8x16_t b) { return vsubw_u8(a, vget_high_u8(b)); }
LSIM_NEON uint16x8_t vmovl_u8(uint8x8_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i]; return r; }
LSIM_NEON uint16x8_t vmovl_high_u8(uint8x16_t a) { return vmovl_u8(vget_high_u8(a)); }
LSIM_NEON uint16x8_t vshll_n_u8(uint8x8_t a, const int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint64_t)(uint16_t)a[i] << k); return r; }
LSIM_NEON uint8x8_t vmovn_u16(uint16x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)a[i]; return r; }
LSIM_NEON uint8x16_t vmovn_high_u16(uint8x8_t l, uint16x8_t a) { return vcombine_u8(l, vmovn_u16(a)); }
LSIM_NEON uint8x8_t vshrn_n_u16(uint16x8_t a, const int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(a[i] >> k); return r; }
LSIM_NEON uint8x16_t vshrn_high_n_u16(uint8x8_t l, uint16x8_t a, const int k) { return vcombine_u8(l, vshrn_n_u16(a, k)); }
LSIM_NEON uint8x8_t vrshrn_n_u16(uint16x8_t a, const int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)((a[i] >> k) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON uint8x8_t vqmovn_u16(uint16x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(a[i] > ((uint64_t)1 << 8) - 1 ? ((uint64_t)1 << 8) - 1 : a[i]); return r; }
LSIM_NEON uint8x8_t vaddhn_u16(uint16x8_t a, uint16x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)((uint16_t)((uint64_t)a[i] + (uint64_t)b[i]) >> 8); return r; }
LSIM_NEON uint8x8_t vsubhn_u16(uint16x8_t a, uint16x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)((uint16_t)((uint64_t)a[i] - (uint64_t)b[i]) >> 8); return r; }
LSIM_NEON uint16x4_t vcreate_u16(uint64_t a) { uint16x4_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON uint16x4_t vget_low_u16(uint16x8_t a) { uint16x4_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON uint16x4_t vget_high_u16(uint16x8_t a) { uint16x4_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
LSIM_NEON uint16x8_t vcombine_u16(uint16x4_t l, uint16x4_t h) { uint16x8_t r; memcpy(&r, &l, 8); memcpy((char *)&r + 8, &h, 8); return r; }
LSIM_NEON uint32x4_t vaddl_u16(uint16x4_t a, uint16x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)(uint32_t)a[i] + (uint64_t)(uint32_t)b[i]); return r; }
LSIM_NEON uint32x4_t vaddl_high_u16(uint16x8_t a, uint16x8_t b) { return vaddl_u16(vget_high_u16(a), vget_high_u16(b)); }
LSIM_NEON uint32x4_t vsubl_u16(uint16x4_t a, uint16x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)(uint32_t)a[i] - (uint64_t)(uint32_t)b[i]); return r; }
LSIM_NEON uint32x4_t vsubl_high_u16(uint16x8_t a, uint16x8_t b) { return vsubl_u16(vget_high_u16(a), vget_high_u16(b)); }
LSIM_NEON uint32x4_t vmull_u16(uint16x4_t a, uint16x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)(uint32_t)a[i] * (uint64_t)(uint32_t)b[i]); return r; }
LSIM_NEON uint32x4_t vmull_high_u16(uint16x8_t a, uint16x8_t b) { return vmull_u16(vget_high_u16(a), vget_high_u16(b)); }
LSIM_NEON uint32x4_t vabdl_u16(uint16x4_t a, uint16x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON uint32x4_t vabdl_high_u16(uint16x8_t a, uint16x8_t b) { return vabdl_u16(vget_high_u16(a), vget_high_u16(b)); }
LSIM_NEON uint32x4_t vmull_n_u16(uint16x4_t a, uint16_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)(uint32_t)a[i] * (uint64_t)(uint32_t)b); return r; }
LSIM_NEON uint32x4_t vmlal_u16(uint32x4_t c, uint16x4_t a, uint16x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)c[i] + (uint64_t)(uint32_t)a[i] * (uint64_t)(uint32_t)b[i]); return r; }
LSIM_NEON uint32x4_t vmlal_high_u16(uint32x4_t c, uint16x8_t a, uint16x8_t b) { return vmlal_u16(c, vget_high_u16(a), vget_high_u16(b)); }
LSIM_NEON uint32x4_t vmlsl_u16(uint32x4_t c, uint16x4_t a, uint16x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)c[i] - (uint64_t)(uint32_t)a[i] * (uint64_t)(uint32_t)b[i]); return r; }
LSIM_NEON uint32x4_t vmlsl_high_u16(uint32x4_t c, uint16x8_t a, uint16x8_t b) { return vmlsl_u16(c, vget_high_u16(a), vget_high_u16(b)); }
LSIM_NEON uint32x4_t vaddw_u16(uint32x4_t a, uint16x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)a[i] + (uint64_t)(uint32_t)b[i]); return r; }
LSIM_NEON uint32x4_t vaddw_high_u16(uint32x4_t a, uint16x8_t b) { return vaddw_u16(a, vget_high_u16(b)); }
LSIM_NEON uint32x4_t vsubw_u16(uint32x4_t a, uint16x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)a[i] - (uint64_t)(uint32_t)b[i]); return r; }
LSIM_NEON uint32x4_t vsubw_high_u16(uint32x4_t a, uint16x8_t b) { return vsubw_u16(a, vget_high_u16(b)); }
LSIM_NEON uint32x4_t vmovl_u16(uint16x4_t a) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i]; return r; }
LSIM_NEON uint32x4_t vmovl_high_u16(uint16x8_t a) { return vmovl_u16(vget_high_u16(a)); }
LSIM_NEON uint32x4_t vshll_n_u16(uint16x4_t a, const int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint64_t)(uint32_t)a[i] << k); return r; }
LSIM_NEON uint16x4_t vmovn_u32(uint32x4_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)a[i]; return r; }
LSIM_NEON uint16x8_t vmovn_high_u32(uint16x4_t l, uint32x4_t a) { return vcombine_u16(l, vmovn_u32(a)); }
LSIM_NEON uint16x4_t vshrn_n_u32(uint32x4_t a, const int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(a[i] >> k); return r; }
LSIM_NEON uint16x8_t vshrn_high_n_u32(uint16x4_t l, uint32x4_t a, const int k) { return vcombine_u16(l, vshrn_n_u32(a, k)); }
LSIM_NEON uint16x4_t vrshrn_n_u32(uint32x4_t a, const int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((a[i] >> k) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON uint16x4_t vqmovn_u32(uint32x4_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(a[i] > ((uint64_t)1 << 16) - 1 ? ((uint64_t)1 << 16) - 1 : a[i]); return r; }
LSIM_NEON uint16x4_t vaddhn_u32(uint32x4_t a, uint32x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((uint32_t)((uint64_t)a[i] + (uint64_t)b[i]) >> 16); return r; }
LSIM_NEON uint16x4_t vsubhn_u32(uint32x4_t a, uint32x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((uint32_t)((uint64_t)a[i] - (uint64_t)b[i]) >> 16); return r; }
LSIM_NEON uint32x2_t vcreate_u32(uint64_t a) { uint32x2_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON uint32x2_t vget_low_u32(uint32x4_t a) { uint32x2_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON uint32x2_t vget_high_u32(uint32x4_t a) { uint32x2_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
LSIM_NEON uint32x4_t vcombine_u32(uint32x2_t l, uint32x2_t h) { uint32x4_t r; memcpy(&r, &l, 8); memcpy((char *)&r + 8, &h, 8); return r; }
LSIM_NEON uint64x2_t vaddl_u32(uint32x2_t a, uint32x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)(uint64_t)a[i] + (uint64_t)(uint64_t)b[i]); return r; }
LSIM_NEON uint64x2_t vaddl_high_u32(uint32x4_t a, uint32x4_t b) { return vaddl_u32(vget_high_u32(a), vget_high_u32(b)); }
LSIM_NEON uint64x2_t vsubl_u32(uint32x2_t a, uint32x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)(uint64_t)a[i] - (uint64_t)(uint64_t)b[i]); return r; }
LSIM_NEON uint64x2_t vsubl_high_u32(uint32x4_t a, uint32x4_t b) { return vsubl_u32(vget_high_u32(a), vget_high_u32(b)); }
LSIM_NEON uint64x2_t vmull_u32(uint32x2_t a, uint32x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)(uint64_t)a[i] * (uint64_t)(uint64_t)b[i]); return r; }
LSIM_NEON uint64x2_t vmull_high_u32(uint32x4_t a, uint32x4_t b) { return vmull_u32(vget_high_u32(a), vget_high_u32(b)); }
LSIM_NEON uint64x2_t vabdl_u32(uint32x2_t a, uint32x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]); return r; }
LSIM_NEON uint64x2_t vabdl_high_u32(uint32x4_t a, uint32x4_t b) { return vabdl_u32(vget_high_u32(a), vget_high_u32(b)); }
LSIM_NEON uint64x2_t vmull_n_u32(uint32x2_t a, uint32_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)(uint64_t)a[i] * (uint64_t)(uint64_t)b); return r; }
LSIM_NEON uint64x2_t vmlal_u32(uint64x2_t c, uint32x2_t a, uint32x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)c[i] + (uint64_t)(uint64_t)a[i] * (uint64_t)(uint64_t)b[i]); return r; }
LSIM_NEON uint64x2_t vmlal_high_u32(uint64x2_t c, uint32x4_t a, uint32x4_t b) { return vmlal_u32(c, vget_high_u32(a), vget_high_u32(b)); }
LSIM_NEON uint64x2_t vmlsl_u32(uint64x2_t c, uint32x2_t a, uint32x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)c[i] - (uint64_t)(uint64_t)a[i] * (uint64_t)(uint64_t)b[i]); return r; }
LSIM_NEON uint64x2_t vmlsl_high_u32(uint64x2_t c, uint32x4_t a, uint32x4_t b) { return vmlsl_u32(c, vget_high_u32(a), vget_high_u32(b)); }
LSIM_NEON uint64x2_t vaddw_u32(uint64x2_t a, uint32x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)a[i] + (uint64_t)(uint64_t)b[i]); return r; }
LSIM_NEON uint64x2_t vaddw_high_u32(uint64x2_t a, uint32x4_t b) { return vaddw_u32(a, vget_high_u32(b)); }
LSIM_NEON uint64x2_t vsubw_u32(uint64x2_t a, uint32x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)a[i] - (uint64_t)(uint64_t)b[i]); return r; }
LSIM_NEON uint64x2_t vsubw_high_u32(uint64x2_t a, uint32x4_t b) { return vsubw_u32(a, vget_high_u32(b)); }
LSIM_NEON uint64x2_t vmovl_u32(uint32x2_t a) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i]; return r; }
LSIM_NEON uint64x2_t vmovl_high_u32(uint32x4_t a) { return vmovl_u32(vget_high_u32(a)); }
LSIM_NEON uint64x2_t vshll_n_u32(uint32x2_t a, const int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)(uint64_t)a[i] << k); return r; }
LSIM_NEON uint32x2_t vmovn_u64(uint64x2_t a) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)a[i]; return r; }
LSIM_NEON uint32x4_t vmovn_high_u64(uint32x2_t l, uint64x2_t a) { return vcombine_u32(l, vmovn_u64(a)); }
LSIM_NEON uint32x2_t vshrn_n_u64(uint64x2_t a, const int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(a[i] >> k); return r; }
LSIM_NEON uint32x4_t vshrn_high_n_u64(uint32x2_t l, uint64x2_t a, const int k) { return vcombine_u32(l, vshrn_n_u64(a, k)); }
LSIM_NEON uint32x2_t vrshrn_n_u64(uint64x2_t a, const int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((a[i] >> k) + (a[i] >> (k - 1) & 1)); return r; }
LSIM_NEON uint32x2_t vqmovn_u64(uint64x2_t a) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(a[i] > ((uint64_t)1 << 32) - 1 ? ((uint64_t)1 << 32) - 1 : a[i]); return r; }
LSIM_NEON uint32x2_t vaddhn_u64(uint64x2_t a, uint64x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint64_t)((uint64_t)a[i] + (uint64_t)b[i]) >> 32); return r; }
LSIM_NEON uint32x2_t vsubhn_u64(uint64x2_t a, uint64x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint64_t)((uint64_t)a[i] - (uint64_t)b[i]) >> 32); return r; }
LSIM_NEON uint64x1_t vcreate_u64(uint64_t a) { uint64x1_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON uint64x1_t vget_low_u64(uint64x2_t a) { uint64x1_t r; memcpy(&r, &a, 8); return r; }
LSIM_NEON uint64x1_t vget_high_u64(uint64x2_t a) { uint64x1_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
LSIM_NEON uint64x2_t vcombine_u64(uint64x1_t l, uint64x1_t h) { uint64x2_t r; memcpy(&r, &l, 8); memcpy((char *)&r + 8, &h, 8); return r; }
LSIM_NEON int16x4_t vqdmulh_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int64_t x = ((int64_t)a[i] * b[i]) >> 15; (int16_t)(x > ((int64_t)1 << 15) - 1 ? ((int64_t)1 << 15) - 1 : x); }); return r; }
LSIM_NEON int16x4_t vqrdmulh_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int64_t x = ((int64_t)a[i] * b[i] + ((int64_t)1 << 14)) >> 15; (int16_t)(x > ((int64_t)1 << 15) - 1 ? ((int64_t)1 << 15) - 1 : x); }); return r; }
LSIM_NEON int16x8_t vqdmulhq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int64_t x = ((int64_t)a[i] * b[i]) >> 15; (int16_t)(x > ((int64_t)1 << 15) - 1 ? ((int64_t)1 << 15) - 1 : x); }); return r; }
LSIM_NEON int16x8_t vqrdmulhq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = ({ int64_t x = ((int64_t)a[i] * b[i] + ((int64_t)1 << 14)) >> 15; (int16_t)(x > ((int64_t)1 << 15) - 1 ? ((int64_t)1 << 15) - 1 : x); }); return r; }
LSIM_NEON int32x2_t vqdmulh_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = ({ int64_t x = ((int64_t)a[i] * b[i]) >> 31; (int32_t)(x > ((int64_t)1 << 31) - 1 ? ((int64_t)1 << 31) - 1 : x); }); return r; }
LSIM_NEON int32x2_t vqrdmulh_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = ({ int64_t x = ((int64_t)a[i] * b[i] + ((int64_t)1 << 30)) >> 31; (int32_t)(x > ((int64_t)1 << 31) - 1 ? ((int64_t)1 << 31) - 1 : x); }); return r; }
LSIM_NEON int32x4_t vqdmulhq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int64_t x = ((int64_t)a[i] * b[i]) >> 31; (int32_t)(x > ((int64_t)1 << 31) - 1 ? ((int64_t)1 << 31) - 1 : x); }); return r; }
LSIM_NEON int32x4_t vqrdmulhq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = ({ int64_t x = ((int64_t)a[i] * b[i] + ((int64_t)1 << 30)) >> 31; (int32_t)(x > ((int64_t)1 << 31) - 1 ? ((int64_t)1 << 31) - 1 : x); }); return r; }
/* table lookup: an index outside the table gives 0 (tbl) or leaves the lane (tbx) */
LSIM_NEON uint8x8_t vqtbl1_u8(uint8x16_t t, uint8x8_t idx) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 16 ? t[idx[i]] : 0; return r; }
LSIM_NEON uint8x8_t vqtbx1_u8(uint8x8_t d, uint8x16_t t, uint8x8_t idx) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 16 ? t[idx[i]] : d[i]; return r; }
LSIM_NEON uint8x8_t vqtbl2_u8(uint8x16x2_t t, uint8x8_t idx) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 32 ? t.val[idx[i] / 16][idx[i] % 16] : 0; return r; }
LSIM_NEON uint8x8_t vqtbx2_u8(uint8x8_t d, uint8x16x2_t t, uint8x8_t idx) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 32 ? t.val[idx[i] / 16][idx[i] % 16] : d[i]; return r; }
LSIM_NEON uint8x8_t vqtbl3_u8(uint8x16x3_t t, uint8x8_t idx) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 48 ? t.val[idx[i] / 16][idx[i] % 16] : 0; return r; }
LSIM_NEON uint8x8_t vqtbx3_u8(uint8x8_t d, uint8x16x3_t t, uint8x8_t idx) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 48 ? t.val[idx[i] / 16][idx[i] % 16] : d[i]; return r; }
LSIM_NEON uint8x8_t vqtbl4_u8(uint8x16x4_t t, uint8x8_t idx) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 64 ? t.val[idx[i] / 16][idx[i] % 16] : 0; return r; }
LSIM_NEON uint8x8_t vqtbx4_u8(uint8x8_t d, uint8x16x4_t t, uint8x8_t idx) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 64 ? t.val[idx[i] / 16][idx[i] % 16] : d[i]; return r; }
LSIM_NEON uint8x16_t vqtbl1q_u8(uint8x16_t t, uint8x16_t idx) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 16 ? t[idx[i]] : 0; return r; }
LSIM_NEON uint8x16_t vqtbx1q_u8(uint8x16_t d, uint8x16_t t, uint8x16_t idx) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 16 ? t[idx[i]] : d[i]; return r; }
LSIM_NEON uint8x16_t vqtbl2q_u8(uint8x16x2_t t, uint8x16_t idx) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 32 ? t.val[idx[i] / 16][idx[i] % 16] : 0; return r; }
LSIM_NEON uint8x16_t vqtbx2q_u8(uint8x16_t d, uint8x16x2_t t, uint8x16_t idx) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 32 ? t.val[idx[i] / 16][idx[i] % 16] : d[i]; return r; }
LSIM_NEON uint8x16_t vqtbl3q_u8(uint8x16x3_t t, uint8x16_t idx) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 48 ? t.val[idx[i] / 16][idx[i] % 16] : 0; return r; }
LSIM_NEON uint8x16_t vqtbx3q_u8(uint8x16_t d, uint8x16x3_t t, uint8x16_t idx) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 48 ? t.val[idx[i] / 16][idx[i] % 16] : d[i]; return r; }
LSIM_NEON uint8x16_t vqtbl4q_u8(uint8x16x4_t t, uint8x16_t idx) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 64 ? t.val[idx[i] / 16][idx[i] % 16] : 0; return r; }
LSIM_NEON uint8x16_t vqtbx4q_u8(uint8x16_t d, uint8x16x4_t t, uint8x16_t idx) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 64 ? t.val[idx[i] / 16][idx[i] % 16] : d[i]; return r; }
LSIM_NEON uint8x8_t vtbl1_u8(uint8x8_t t, uint8x8_t idx) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)idx[i] < 8 ? t[(uint8_t)idx[i]] : 0; return r; }
LSIM_NEON int8x8_t vqtbl1_s8(int8x16_t t, uint8x8_t idx) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 16 ? t[idx[i]] : 0; return r; }
LSIM_NEON int8x8_t vqtbx1_s8(int8x8_t d, int8x16_t t, uint8x8_t idx) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 16 ? t[idx[i]] : d[i]; return r; }
LSIM_NEON int8x8_t vqtbl2_s8(int8x16x2_t t, uint8x8_t idx) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 32 ? t.val[idx[i] / 16][idx[i] % 16] : 0; return r; }
LSIM_NEON int8x8_t vqtbx2_s8(int8x8_t d, int8x16x2_t t, uint8x8_t idx) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 32 ? t.val[idx[i] / 16][idx[i] % 16] : d[i]; return r; }
LSIM_NEON int8x8_t vqtbl3_s8(int8x16x3_t t, uint8x8_t idx) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 48 ? t.val[idx[i] / 16][idx[i] % 16] : 0; return r; }
LSIM_NEON int8x8_t vqtbx3_s8(int8x8_t d, int8x16x3_t t, uint8x8_t idx) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 48 ? t.val[idx[i] / 16][idx[i] % 16] : d[i]; return r; }
LSIM_NEON int8x8_t vqtbl4_s8(int8x16x4_t t, uint8x8_t idx) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 64 ? t.val[idx[i] / 16][idx[i] % 16] : 0; return r; }
LSIM_NEON int8x8_t vqtbx4_s8(int8x8_t d, int8x16x4_t t, uint8x8_t idx) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = idx[i] < 64 ? t.val[idx[i] / 16][idx[i] % 16] : d[i]; return r; }
LSIM_NEON int8x16_t vqtbl1q_s8(int8x16_t t, uint8x16_t idx) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 16 ? t[idx[i]] : 0; return r; }
LSIM_NEON int8x16_t vqtbx1q_s8(int8x16_t d, int8x16_t t, uint8x16_t idx) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 16 ? t[idx[i]] : d[i]; return r; }
LSIM_NEON int8x16_t vqtbl2q_s8(int8x16x2_t t, uint8x16_t idx) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 32 ? t.val[idx[i] / 16][idx[i] % 16] : 0; return r; }
LSIM_NEON int8x16_t vqtbx2q_s8(int8x16_t d, int8x16x2_t t, uint8x16_t idx) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 32 ? t.val[idx[i] / 16][idx[i] % 16] : d[i]; return r; }
LSIM_NEON int8x16_t vqtbl3q_s8(int8x16x3_t t, uint8x16_t idx) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 48 ? t.val[idx[i] / 16][idx[i] % 16] : 0; return r; }
LSIM_NEON int8x16_t vqtbx3q_s8(int8x16_t d, int8x16x3_t t, uint8x16_t idx) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 48 ? t.val[idx[i] / 16][idx[i] % 16] : d[i]; return r; }
LSIM_NEON int8x16_t vqtbl4q_s8(int8x16x4_t t, uint8x16_t idx) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 64 ? t.val[idx[i] / 16][idx[i] % 16] : 0; return r; }
LSIM_NEON int8x16_t vqtbx4q_s8(int8x16_t d, int8x16x4_t t, uint8x16_t idx) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = idx[i] < 64 ? t.val[idx[i] / 16][idx[i] % 16] : d[i]; return r; }
LSIM_NEON int8x8_t vtbl1_s8(int8x8_t t, int8x8_t idx) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)idx[i] < 8 ? t[(uint8_t)idx[i]] : 0; return r; }
#endif
