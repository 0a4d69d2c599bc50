/* The NEON intrinsics the ARM routines use, after the Arm architecture
 * manual's definitions, in portable C (little-endian vectors). */
#ifndef VF_ARM_NEON_H
#define VF_ARM_NEON_H
#include <stdint.h>
#include <string.h>
typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
#define VF_I static inline __attribute__((unused, always_inline))
VF_I uint8x16_t vld1q_u8(const uint8_t * p) { uint8x16_t v; memcpy(&v, p, 16); return (v); }
VF_I uint32x4_t vld1q_u32(const uint32_t * p) { uint32x4_t v; memcpy(&v, p, 16); return (v); }
VF_I uint8x8_t vld1_u8(const uint8_t * p) { uint8x8_t v; memcpy(&v, p, 8); return (v); }
VF_I void vst1q_u8(uint8_t * p, uint8x16_t v) { memcpy(p, &v, 16); }
VF_I void vst1q_u32(uint32_t * p, uint32x4_t v) { memcpy(p, &v, 16); }
VF_I void vst1_u8(uint8_t * p, uint8x8_t v) { memcpy(p, &v, 8); }
VF_I uint8x16_t vcombine_u8(uint8x8_t l, uint8x8_t h) { uint8x16_t v; memcpy(&v, &l, 8); memcpy((uint8_t *)&v + 8, &h, 8); return (v); }
VF_I uint8x8_t vget_low_u8(uint8x16_t a) { uint8x8_t v; memcpy(&v, &a, 8); return (v); }
VF_I uint8x8_t vget_high_u8(uint8x16_t a) { uint8x8_t v; memcpy(&v, (uint8_t *)&a + 8, 8); return (v); }
VF_I uint32x4_t vaddq_u32(uint32x4_t a, uint32x4_t b) { return (a + b); }
VF_I uint64x2_t vaddq_u64(uint64x2_t a, uint64x2_t b) { return (a + b); }
VF_I uint8x16_t veorq_u8(uint8x16_t a, uint8x16_t b) { return (a ^ b); }
VF_I uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return (a ^ b); }
VF_I uint8x16_t vorrq_u8(uint8x16_t a, uint8x16_t b) { return (a | b); }
VF_I uint8x16_t vandq_u8(uint8x16_t a, uint8x16_t b) { return (a & b); }
VF_I uint8x16_t vdupq_n_u8(uint8_t x) { uint8x16_t v; memset(&v, x, 16); return (v); }
VF_I uint32x4_t vdupq_n_u32(uint32_t x) { return ((uint32x4_t){ x, x, x, x }); }
VF_I uint8x16_t vmovq_n_u8(uint8_t x) { return (vdupq_n_u8(x)); }
VF_I uint32x4_t vmovq_n_u32(uint32_t x) { return (vdupq_n_u32(x)); }
#define vdupq_laneq_u32(a, l) vdupq_n_u32((a)[l])
#define vgetq_lane_u32(a, l) ((a)[l])
#define vgetq_lane_u8(a, l) ((a)[l])
VF_I uint32x4_t vf_set32(uint32_t x, uint32x4_t a, int l) { a[l] = x; return (a); }
#define vsetq_lane_u32(x, a, l) vf_set32(x, a, l)
VF_I uint8x16_t vf_ext(uint8x16_t a, uint8x16_t b, int n) { uint8_t t[32]; uint8x16_t v; memcpy(t, &a, 16); memcpy(t + 16, &b, 16); memcpy(&v, t + n, 16); return (v); }
#define vextq_u8(a, b, n) vf_ext(a, b, n)
VF_I uint8x16_t vreinterpretq_u8_u32(uint32x4_t a) { return ((uint8x16_t)a); }
VF_I uint32x4_t vreinterpretq_u32_u8(uint8x16_t a) { return ((uint32x4_t)a); }
VF_I uint8x16_t vreinterpretq_u8_u64(uint64x2_t a) { return ((uint8x16_t)a); }
VF_I uint64x2_t vreinterpretq_u64_u8(uint8x16_t a) { return ((uint64x2_t)a); }
VF_I uint8x16_t vrev32q_u8(uint8x16_t a) { return (__builtin_shuffle(a, (uint8x16_t){ 3, 2, 1, 0, 7, 6, 5, 4, 11, 10, 9, 8, 15, 14, 13, 12 })); }
VF_I uint8x16_t vrev64q_u8(uint8x16_t a) { return (__builtin_shuffle(a, (uint8x16_t){ 7, 6, 5, 4, 3, 2, 1, 0, 15, 14, 13, 12, 11, 10, 9, 8 })); }
/* in fw/arm.c */
uint8x16_t vaeseq_u8(uint8x16_t, uint8x16_t);
uint8x16_t vaesmcq_u8(uint8x16_t);
uint32x4_t vsha256hq_u32(uint32x4_t, uint32x4_t, uint32x4_t);
uint32x4_t vsha256h2q_u32(uint32x4_t, uint32x4_t, uint32x4_t);
uint32x4_t vsha256su0q_u32(uint32x4_t, uint32x4_t);
uint32x4_t vsha256su1q_u32(uint32x4_t, uint32x4_t, uint32x4_t);
#endif
