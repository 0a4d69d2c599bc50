/* The ARMv8 AES and SHA-256 instructions, after the architecture manual. */
#include "arm_neon.h"
static uint8_t sb[256];
static unsigned mul(unsigned a, unsigned b) { unsigned r = 0; while (b) { if (b & 1) r ^= a; a <<= 1; if (a & 256) a ^= 0x11b; b >>= 1; } return (r); }
static void __attribute__((constructor))
mksbox(void)
{
	unsigned x, y, i, s;
	for (x = 0; x < 256; x++) {
		for (y = x ? 1 : 0; x && mul(x, y) != 1; y++) continue;
		for (s = 0x63, i = 0; i < 5; i++) s ^= (y << i | y >> (8 - i)) & 255;
		sb[x] = (uint8_t)s;
	}
}
uint8x16_t
vaeseq_u8(uint8x16_t d, uint8x16_t k)
{
	static const uint8_t sh[16] = { 0, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12, 1, 6, 11 };
	uint8_t in[16], out[16]; int i;
	d ^= k; memcpy(in, &d, 16);
	for (i = 0; i < 16; i++) out[i] = sb[in[sh[i]]];
	memcpy(&d, out, 16);
	return (d);
}
#define X2(a) (uint8_t)((a) << 1 ^ ((a) >> 7) * 0x1b)
uint8x16_t
vaesmcq_u8(uint8x16_t d)
{
	uint8_t s[16], o[16]; int c;
	memcpy(s, &d, 16);
	for (c = 0; c < 16; c += 4) {
		uint8_t a = s[c], b = s[c + 1], e = s[c + 2], f = s[c + 3], t = a ^ b ^ e ^ f;
		o[c] = a ^ t ^ X2((uint8_t)(a ^ b)); o[c + 1] = b ^ t ^ X2((uint8_t)(b ^ e)); o[c + 2] = e ^ t ^ X2((uint8_t)(e ^ f)); o[c + 3] = f ^ t ^ X2((uint8_t)(f ^ a));
	}
	memcpy(&d, o, 16);
	return (d);
}
#define ROR(x, n) ((x) >> (n) | (x) << (32 - (n)))
static void
hash(uint32_t x[4], uint32_t y[4], uint32x4_t w)
{
	int e;
	for (e = 0; e < 4; e++) {
		uint32_t chs = ((y[1] ^ y[2]) & y[0]) ^ y[2], maj = (x[0] & x[1]) | ((x[0] | x[1]) & x[2]);
		uint32_t t = y[3] + (ROR(y[0], 6) ^ ROR(y[0], 11) ^ ROR(y[0], 25)) + chs + w[e], n3 = t + x[3];
		uint32_t ny3 = t + (ROR(x[0], 2) ^ ROR(x[0], 13) ^ ROR(x[0], 22)) + maj;
		/* <y, x> rotated left by 32: x[3] = n3 and y[3] = ny3 first */
		uint32_t ox3 = n3;
		x[3] = x[2]; x[2] = x[1]; x[1] = x[0]; x[0] = ny3;
		y[3] = y[2]; y[2] = y[1]; y[1] = y[0]; y[0] = ox3;
	}
}
uint32x4_t
vsha256hq_u32(uint32x4_t abcd, uint32x4_t efgh, uint32x4_t wk)
{ uint32_t x[4], y[4]; memcpy(x, &abcd, 16); memcpy(y, &efgh, 16); hash(x, y, wk); memcpy(&abcd, x, 16); return (abcd); }
uint32x4_t
vsha256h2q_u32(uint32x4_t efgh, uint32x4_t abcd, uint32x4_t wk)
{ uint32_t x[4], y[4]; memcpy(x, &abcd, 16); memcpy(y, &efgh, 16); hash(x, y, wk); memcpy(&efgh, y, 16); return (efgh); }
uint32x4_t
vsha256su0q_u32(uint32x4_t a, uint32x4_t b)
{ uint32_t t[4] = { a[1], a[2], a[3], b[0] }; int e; for (e = 0; e < 4; e++) a[e] += ROR(t[e], 7) ^ ROR(t[e], 18) ^ t[e] >> 3; return (a); }
uint32x4_t
vsha256su1q_u32(uint32x4_t a, uint32x4_t b, uint32x4_t c)
{
	uint32_t t0[4] = { b[1], b[2], b[3], c[0] }, r[4]; int e;
	for (e = 0; e < 4; e++) { uint32_t v = e < 2 ? c[e + 2] : r[e - 2]; r[e] = (ROR(v, 17) ^ ROR(v, 19) ^ v >> 10) + a[e] + t0[e]; }
	memcpy(&a, r, 16); return (a);
}
