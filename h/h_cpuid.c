/* C20: features are those the CPU announces, for every answer of CPUID. */
#define _GNU_SOURCE
#include <openssl/evp.h>
#include <cpuid.h>
#include <string.h>
#include "vf.h"
#include "ref.h"
#include "sha256.h"
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_entropy.h"
#include "crypto_scrypt.h"
#include "cpusupport.h"

/* ---- the instruction ---- */
static unsigned c_max, c1c, c1d, c7b, c7c, c7d, c_junk; static int c_asked;
void vf_cpuid(unsigned, unsigned, unsigned *); unsigned vf_cpuid_max(unsigned); int vf_cpuid_get(unsigned, unsigned, unsigned *, unsigned *, unsigned *, unsigned *);
void
vf_cpuid(unsigned l, unsigned s, unsigned * r)
{
	c_asked++;
	r[0] = r[1] = r[2] = r[3] = c_junk;		/* leaves beyond the maximum: anything */
	if (l == 0 && c_max) { r[0] = c_max; r[1] = 0x756e6547; r[2] = 0x6c65746e; r[3] = 0x49656e69; }
	else if (l == 1 && c_max >= 1) { r[0] = 0x000906ea; r[1] = c_junk; r[2] = c1c; r[3] = c1d; }
	else if (l == 7 && s == 0 && c_max >= 7) { r[0] = 0; r[1] = c7b; r[2] = c7c; r[3] = c7d; }
	else if (l >= 0x80000000u && c_max) { r[0] = 0x80000001u; r[1] = r[2] = r[3] = c_junk; }
	else if (l <= c_max && l != 0 && l != 1) r[0] = r[1] = r[2] = r[3] = c_junk;
}
unsigned vf_cpuid_max(unsigned e) { c_asked++; return (c_max == 0 ? 0 : e & 0x80000000u ? 0x80000001u : c_max); }
int
vf_cpuid_get(unsigned l, unsigned s, unsigned * a, unsigned * b, unsigned * c, unsigned * d)
{
	unsigned r[4], m = vf_cpuid_max(l & 0x80000000u);
	if (m == 0 || m < l) return (0);
	vf_cpuid(l, s, r); *a = r[0]; *b = r[1]; *c = r[2]; *d = r[3];
	return (1);
}
/* ---- what it means (Intel SDM, CPUID) ---- */
enum { SSE2, SSSE3, SHANI, AESNI, RDRAND, NF };
static const char * const fn[] = { "SSE2", "SSSE3", "SHANI", "AESNI", "RDRAND" };
static int announced(int f) { return (f == SSE2 ? c_max >= 1 && (c1d >> 26 & 1) : f == SSSE3 ? c_max >= 1 && (c1c >> 9 & 1) : f == SHANI ? c_max >= 7 && (c7b >> 29 & 1) : f == AESNI ? c_max >= 1 && (c1c >> 25 & 1) : c_max >= 1 && (c1c >> 30 & 1)); }
int cpusupport_x86_sse2_detect_1(void), cpusupport_x86_ssse3_detect_1(void), cpusupport_x86_shani_detect_1(void), cpusupport_x86_aesni_detect_1(void), cpusupport_x86_rdrand_detect_1(void);
static int (* const det[])(void) = { cpusupport_x86_sse2_detect_1, cpusupport_x86_ssse3_detect_1, cpusupport_x86_shani_detect_1, cpusupport_x86_aesni_detect_1, cpusupport_x86_rdrand_detect_1 };
static void
check(void)
{
	int f, k; uint64_t h = 0;
	vf_note("CPUID: maximum leaf %u, 1: ecx %08x edx %08x, 7: ebx %08x ecx %08x edx %08x, elsewhere %08x", c_max, c1c, c1d, c7b, c7c, c7d, c_junk);
	for (f = 0; f < NF; f++) for (k = 0; k < 2; k++) {
		int r; c_asked = 0; r = det[f]();
		if (!c_asked) continue;			/* learned otherwise */
		VF_CHECK(!!r == announced(f), "detect", "%s is %s", fn[f], r ? "assumed although not announced" : "not found although announced");
		h = h * 2 + !!r;
	}
	vf_eval(); vf_outcome(h); vf_seen(vf_hash2(vf_hash2(((uint64_t)c_max << 32) + c_junk, ((uint64_t)c1c << 32) + c1d), vf_hash2(((uint64_t)c7b << 32) + c7c, c7d)));
}
static const unsigned maxs[] = { 0, 1, 2, 4, 6, 7, 8, 13, 0x20, 0xffffffffu };
/* every single bit, set alone or alone missing */
static void
bits(void)
{
	int m = vf_choose("maximum", NELEM(maxs)), bg = vf_choose("background", 2), junk = vf_choose("junk", 2), i, j;
	unsigned * const R[] = { &c1c, &c1d, &c7b, &c7c, &c7d };
	c_max = maxs[m]; c_junk = junk ? 0xffffffffu : 0;
	for (i = 0; i < NELEM(R); i++) for (j = 0; j < 32; j++) {
		int k; for (k = 0; k < NELEM(R); k++) *R[k] = bg ? 0xffffffffu : 0;
		*R[i] ^= 1u << j;
		check();
	}
}
/* all combinations of the bits that matter, and of two others of each register */
static void
combos(void)
{
	int m = vf_choose("maximum", NELEM(maxs)), a = vf_choose("bits", 32), b, c;
	c_max = maxs[m];
	for (b = 0; b < 64; b++) for (c = 0; c < (vf_tier ? 16 : 4); c++) {
		c1c = (b & 1 ? ~((1u << 9) | (1u << 25) | (1u << 30)) : 0) | (a & 1 ? 1u << 9 : 0) | (a & 2 ? 1u << 25 : 0) | (a & 4 ? 1u << 30 : 0);
		c1d = (b & 2 ? ~(1u << 26) : 0) | (a & 8 ? 1u << 26 : 0);
		c7b = (b & 4 ? ~(1u << 29) : 0) | (a & 16 ? 1u << 29 : 0);
		c7c = b & 8 ? 0xffffffffu : 0; c7d = b & 16 ? 0xffffffffu : 0; c_junk = b & 32 ? 0xffffffffu : 0;
		if (c & 1) c1c ^= 0x00080001u;
		if (c & 2) c1d ^= 0x02000001u;
		if (c & 4) c7b ^= 0x00000128u;
		if (c & 8) c_junk ^= 0x55555555u;
		check();
	}
}
/* ---- nothing is executed that was not announced ---- */
static void needs(int f, const char * who) { if (!announced(f)) vf_fail("absent", "%s entered although the CPU does not announce %s", who, fn[f]); }
typedef long long v2 __attribute__((vector_size(16), may_alias));
void __real_SHA256_Transform_shani(uint32_t *, const uint8_t *); void __wrap_SHA256_Transform_shani(uint32_t *, const uint8_t *);
void __real_SHA256_Transform_sse2(uint32_t *, const uint8_t *, uint32_t *, uint32_t *); void __wrap_SHA256_Transform_sse2(uint32_t *, const uint8_t *, uint32_t *, uint32_t *);
void __real_crypto_scrypt_smix_sse2(uint8_t *, size_t, uint64_t, void *, void *); void __wrap_crypto_scrypt_smix_sse2(uint8_t *, size_t, uint64_t, void *, void *);
void __real_crypto_aes_encrypt_block_aesni(const uint8_t *, uint8_t *, const void *); void __wrap_crypto_aes_encrypt_block_aesni(const uint8_t *, uint8_t *, const void *);
v2 __real_crypto_aes_encrypt_block_aesni_m128i(v2, const void *); v2 __wrap_crypto_aes_encrypt_block_aesni_m128i(v2, const void *);
void * __real_crypto_aes_key_expand_aesni(const uint8_t *, size_t); void * __wrap_crypto_aes_key_expand_aesni(const uint8_t *, size_t);
int __real_generate_seed_rdrand(unsigned int *, size_t); int __wrap_generate_seed_rdrand(unsigned int *, size_t);
void __wrap_SHA256_Transform_shani(uint32_t * s, const uint8_t * b) { needs(SHANI, "SHANI SHA-256"); needs(SSSE3, "SHANI SHA-256"); __real_SHA256_Transform_shani(s, b); }
void __wrap_SHA256_Transform_sse2(uint32_t * s, const uint8_t * b, uint32_t * W, uint32_t * S) { needs(SSE2, "SSE2 SHA-256"); __real_SHA256_Transform_sse2(s, b, W, S); }
void __wrap_crypto_scrypt_smix_sse2(uint8_t * B, size_t r, uint64_t N, void * V, void * X) { needs(SSE2, "SSE2 mixing"); __real_crypto_scrypt_smix_sse2(B, r, N, V, X); }
void __wrap_crypto_aes_encrypt_block_aesni(const uint8_t * i, uint8_t * o, const void * k) { needs(AESNI, "AESNI"); __real_crypto_aes_encrypt_block_aesni(i, o, k); }
v2 __wrap_crypto_aes_encrypt_block_aesni_m128i(v2 i, const void * k) { needs(AESNI, "AESNI"); return (__real_crypto_aes_encrypt_block_aesni_m128i(i, k)); }
void * __wrap_crypto_aes_key_expand_aesni(const uint8_t * k, size_t n) { needs(AESNI, "AESNI key expansion"); return (__real_crypto_aes_key_expand_aesni(k, n)); }
int __wrap_generate_seed_rdrand(unsigned int * b, size_t n) { needs(RDRAND, "RDRAND"); return (__real_generate_seed_rdrand(b, n)); }
static void
use(void)
{
	int m = vf_choose("maximum", NELEM(maxs)), a = vf_choose("bits", 32), junk = vf_choose("junk", 2), f, i; unsigned ra, rb, rc, rd, rb7 = 0, x;
	uint8_t o[64], e[64], key[32], in[200], out[200], ex[200]; struct crypto_aes_key * K; struct crypto_aesctr * A;
	c_max = maxs[m]; c_junk = junk ? 0xffffffffu : 0;
	c1c = (a & 1 ? 1u << 9 : 0) | (a & 2 ? 1u << 25 : 0) | (a & 4 ? 1u << 30 : 0); c1d = a & 8 ? 1u << 26 : 0; c7b = a & 16 ? 1u << 29 : 0; c7c = c7d = c_junk;
	if (c_junk) { c1c |= ~((1u << 9) | (1u << 25) | (1u << 30)); c1d |= ~(1u << 26); c7b |= ~(1u << 29); }
	/* only what this machine can execute */
	if (!__get_cpuid(1, &ra, &rb, &rc, &rd)) vf_internal("cpuid");
	if (!__get_cpuid_count(7, 0, &ra, &rb7, &x, &x)) rb7 = 0;
	if ((announced(SSE2) && !(rd >> 26 & 1)) || (announced(SSSE3) && !(rc >> 9 & 1)) || (announced(AESNI) && !(rc >> 25 & 1)) || (announced(RDRAND) && !(rc >> 30 & 1)) || (announced(SHANI) && !(rb7 >> 29 & 1))) return;
	vf_note("CPUID: maximum leaf %u, features %s%s%s%s%s, other bits %d", c_max, announced(SSE2) ? "SSE2 " : "", announced(SSSE3) ? "SSSE3 " : "", announced(SHANI) ? "SHANI " : "", announced(AESNI) ? "AESNI " : "", announced(RDRAND) ? "RDRAND" : "", junk);
	for (i = 0; i < 32; i++) key[i] = (uint8_t)(i * 7 + a);
	for (i = 0; i < 200; i++) in[i] = (uint8_t)(i * 3);
	SHA256_Buf(in, 150, o); ref_sha256(in, 150, e); VF_CHECK(!memcmp(o, e, 32), "sha", "SHA-256 wrong");
	if ((K = crypto_aes_key_expand(key, 32)) == NULL || (A = crypto_aesctr_init(K, 5)) == NULL) { vf_fail("aes", "AES failed"); return; }
	crypto_aesctr_stream(A, in, out, 200); ref_aesctr(key, 32, 5, 0, in, ex, 200); VF_CHECK(!memcmp(out, ex, 200), "aes", "AES-CTR wrong");
	crypto_aesctr_free(A); crypto_aes_key_free(K);
	if (crypto_scrypt(key, 32, in, 10, 16, 2, 2, o, 64)) vf_fail("kdf", "key derivation failed");
	ref_scrypt(key, 32, in, 10, 16, 2, 2, e, 64); VF_CHECK(!memcmp(o, e, 64), "kdf", "key derivation wrong");
	if (crypto_entropy_read(o, 64)) vf_fail("random", "random bytes refused");
	for (f = i = 0; f < NF; f++) i = i * 2 + announced(f);
	vf_eval(); vf_outcome((uint64_t)i); vf_seen(vf_trace_hash());
}
static const struct vf_scn SC[] = {
	{ "cpuid-bits", bits, 1, { 0, 0 }, 60, 0 }, { "cpuid-combos", combos, 1, { 0, 0 }, 60, 0 }, { "cpuid-use", use, 1, { 0, 0 }, 60, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
int main(int argc, char ** argv) { return (vf_main(argc, argv, SC)); }
