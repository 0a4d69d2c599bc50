/* C20: absent or broken CPU features never change a result. */
#define _GNU_SOURCE
#include <openssl/evp.h>
#ifndef VF_ARM
#include <cpuid.h>
#endif
#include <string.h>
#include "vf.h"
#include "ref.h"
#include "env_cpu.h"
#include "sha256.h"
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_scrypt.h"
#include "scryptenc.h"

/* ---- the accelerated routines, which may be broken, and must not be entered without their features ---- */
struct crypto_aesctr;
typedef long long v2 __attribute__((vector_size(16), may_alias));
#ifdef VF_ARM
typedef unsigned char v16 __attribute__((vector_size(16)));
void __real_SHA256_Transform_arm(uint32_t *, const uint8_t *); void __wrap_SHA256_Transform_arm(uint32_t *, const uint8_t *);
void __real_crypto_aes_encrypt_block_arm(const uint8_t *, uint8_t *, const void *); void __wrap_crypto_aes_encrypt_block_arm(const uint8_t *, uint8_t *, const void *);
v16 __real_crypto_aes_encrypt_block_arm_u8(v16, const void *); v16 __wrap_crypto_aes_encrypt_block_arm_u8(v16, const void *);
void * __real_crypto_aes_key_expand_arm(const uint8_t *, size_t); void * __wrap_crypto_aes_key_expand_arm(const uint8_t *, size_t);
#else
void __real_SHA256_Transform_shani(uint32_t *, const uint8_t *); void __wrap_SHA256_Transform_shani(uint32_t *, const uint8_t *);
void __real_SHA256_Transform_sse2(uint32_t *, const uint8_t *, uint32_t *, uint32_t *); void __wrap_SHA256_Transform_sse2(uint32_t *, const uint8_t *, uint32_t *, uint32_t *);
void __real_crypto_scrypt_smix_sse2(uint8_t *, size_t, uint64_t, void *, void *); void __wrap_crypto_scrypt_smix_sse2(uint8_t *, size_t, uint64_t, void *, void *);
void __real_crypto_aes_encrypt_block_aesni(const uint8_t *, uint8_t *, const void *); void __wrap_crypto_aes_encrypt_block_aesni(const uint8_t *, uint8_t *, const void *);
v2 __real_crypto_aes_encrypt_block_aesni_m128i(v2, const void *); v2 __wrap_crypto_aes_encrypt_block_aesni_m128i(v2, const void *);
void * __real_crypto_aes_key_expand_aesni(const uint8_t *, size_t); void * __wrap_crypto_aes_key_expand_aesni(const uint8_t *, size_t);
int __real_generate_seed_rdrand(unsigned int *, size_t); int __wrap_generate_seed_rdrand(unsigned int *, size_t);
#endif

enum { NONE, FLIP, NOTHING, ZERO, ECHO, FIRSTBIT, ONLY16, ONLY32, EXPFLIP16, EXPFLIP32, EXPNULL, EXPNULL32 };
static int k_shani, k_sha2 __attribute__((unused)), k_mix __attribute__((unused)), k_aes, bit, entered;
static void needs(int f, const char * who) { if ((feat & f) != f) vf_fail("absent", "%s entered although the CPU lacks its instructions (features %d)", who, feat); entered |= f; }
static void
spoil(uint8_t * b, size_t n, int kind, const uint8_t * old)
{
	switch (kind) {
	case FLIP: b[(size_t)bit / 8 % n] ^= 1 << (bit % 8); break;
	case NOTHING: memcpy(b, old, n); break;
	case ZERO: memset(b, 0, n); break;
	}
}
#ifdef VF_ARM
void
__wrap_SHA256_Transform_arm(uint32_t * st, const uint8_t * bl)
{
	uint32_t o[8]; needs(F_SHANI, "ARM SHA-256"); memcpy(o, st, 32);
	__real_SHA256_Transform_arm(st, bl); spoil((uint8_t *)st, 32, k_shani, (uint8_t *)o);
}
#else
void
__wrap_SHA256_Transform_shani(uint32_t * st, const uint8_t * bl)
{
	uint32_t o[8]; needs(F_SHANI | F_SSSE3, "SHANI SHA-256"); memcpy(o, st, 32);
	__real_SHA256_Transform_shani(st, bl); spoil((uint8_t *)st, 32, k_shani, (uint8_t *)o);
}
void
__wrap_SHA256_Transform_sse2(uint32_t * st, const uint8_t * bl, uint32_t * W, uint32_t * S)
{
	uint32_t o[8]; needs(F_SSE2, "SSE2 SHA-256"); memcpy(o, st, 32);
	__real_SHA256_Transform_sse2(st, bl, W, S); spoil((uint8_t *)st, 32, k_sha2, (uint8_t *)o);
}
void
__wrap_crypto_scrypt_smix_sse2(uint8_t * B, size_t r, uint64_t N, void * V, void * XY)
{
	uint8_t * o = malloc(128 * r); needs(F_SSE2, "SSE2 mixing"); memcpy(o, B, 128 * r);
	__real_crypto_scrypt_smix_sse2(B, r, N, V, XY); spoil(B, 128 * r, k_mix, o); free(o);
}
#endif
/* which expanded keys are for 256 bits */
static struct { const void * p; size_t n; } keys[256]; static int nkeys;
static size_t klen(const void * k) { int i; for (i = nkeys - 1; i >= 0; i--) if (keys[i].p == k) return (keys[i].n); vf_fail("unknown-key", "AESNI used with a key not expanded for it"); return (0); }
static void
spoil_aes(uint8_t * b, const uint8_t * in, const void * key)
{
	size_t n = klen(key);
	switch (k_aes) {
	case FLIP: case NOTHING: case ZERO: spoil(b, 16, k_aes, in); break;
	case ONLY16: if (n == 16) b[bit / 8 % 16] ^= 1 << (bit % 8); break;
	case ONLY32: if (n == 32) b[bit / 8 % 16] ^= 1 << (bit % 8); break;
	}
}
#ifdef VF_ARM
void
__wrap_crypto_aes_encrypt_block_arm(const uint8_t * in, uint8_t * out, const void * k)
{ uint8_t i[16]; needs(F_AESNI, "ARM AES"); memcpy(i, in, 16); __real_crypto_aes_encrypt_block_arm(in, out, k); spoil_aes(out, i, k); }
v16
__wrap_crypto_aes_encrypt_block_arm_u8(v16 in, const void * k)
{ v16 o; needs(F_AESNI, "ARM AES"); o = __real_crypto_aes_encrypt_block_arm_u8(in, k); spoil_aes((uint8_t *)&o, (const uint8_t *)&in, k); return (o); }
void *
__wrap_crypto_aes_key_expand_arm(const uint8_t * k, size_t n)
{
	uint8_t c[32]; void * p;
	needs(F_AESNI, "ARM AES key expansion");
	if (k_aes == EXPNULL || (k_aes == EXPNULL32 && n == 32)) return (NULL);
	memcpy(c, k, n);
	if ((k_aes == EXPFLIP16 && n == 16) || (k_aes == EXPFLIP32 && n == 32)) c[(size_t)bit / 8 % n] ^= 1 << (bit % 8);
	p = __real_crypto_aes_key_expand_arm(c, n);
	if (p) { if (nkeys == 256) nkeys = 0; keys[nkeys].p = p; keys[nkeys++].n = n; }
	return (p);
}
static int k_rd;
#else
void
__wrap_crypto_aes_encrypt_block_aesni(const uint8_t * in, uint8_t * out, const void * k)
{ uint8_t i[16]; needs(F_AESNI, "AESNI"); memcpy(i, in, 16); __real_crypto_aes_encrypt_block_aesni(in, out, k); spoil_aes(out, i, k); }
v2
__wrap_crypto_aes_encrypt_block_aesni_m128i(v2 in, const void * k)
{ v2 o; needs(F_AESNI, "AESNI"); o = __real_crypto_aes_encrypt_block_aesni_m128i(in, k); spoil_aes((uint8_t *)&o, (const uint8_t *)&in, k); return (o); }
void *
__wrap_crypto_aes_key_expand_aesni(const uint8_t * k, size_t n)
{
	uint8_t c[32]; void * p;
	needs(F_AESNI, "AESNI key expansion");
	if (k_aes == EXPNULL || (k_aes == EXPNULL32 && n == 32)) return (NULL);
	memcpy(c, k, n);
	if ((k_aes == EXPFLIP16 && n == 16) || (k_aes == EXPFLIP32 && n == 32)) c[(size_t)bit / 8 % n] ^= 1 << (bit % 8);
	p = __real_crypto_aes_key_expand_aesni(c, n);
	if (p) { if (nkeys == 256) nkeys = 0; keys[nkeys].p = p; keys[nkeys++].n = n; }
	return (p);
}
static int k_rd;
int
__wrap_generate_seed_rdrand(unsigned int * b, size_t n)
{
	needs(F_RDRAND, "RDRAND");
	if (k_rd == 1) return (1);
	if (k_rd == 2) { memset(b, 0xff, n * 4); return (0); }
	return (__real_generate_seed_rdrand(b, n));
}

#endif

/* ---- what is computed ---- */
static uint8_t data[4096];
static void
op_sha(void)
{
	static const size_t ns[] = { 0, 1, 55, 56, 63, 64, 65, 128, 1000, 4096 }; size_t i; uint8_t d[32], w[32]; SHA256_CTX c;
	for (i = 0; i < NELEM(ns); i++) {
		SHA256_Init(&c); SHA256_Update(&c, data, ns[i] / 3); SHA256_Update(&c, data + ns[i] / 3, ns[i] - ns[i] / 3); SHA256_Final(d, &c);
		ref_sha256(data, ns[i], w); vf_eval();
		VF_CHECK(!memcmp(d, w, 32), "sha256", "SHA-256 of %zu bytes wrong", ns[i]);
		SHA256_Buf(data, ns[i], d);
		VF_CHECK(!memcmp(d, w, 32), "sha256", "one-call SHA-256 of %zu bytes wrong", ns[i]);
	}
}
static void
op_hmac(void)
{
	static const size_t ks[] = { 0, 32, 64, 65, 200 }; size_t i; uint8_t d[100], w[100];
	for (i = 0; i < NELEM(ks); i++) {
		HMAC_SHA256_Buf(data + 7, ks[i], data, 333, d); ref_hmac(data + 7, ks[i], data, 333, w); vf_eval();
		VF_CHECK(!memcmp(d, w, 32), "hmac", "HMAC with a key of %zu bytes wrong", ks[i]);
		PBKDF2_SHA256(data + 7, ks[i], data, 20, 1 + i, d, 100); ref_pbkdf2(data + 7, ks[i], data, 20, 1 + i, w, 100); vf_eval();
		VF_CHECK(!memcmp(d, w, 100), "pbkdf2", "PBKDF2 with a passphrase of %zu bytes wrong", ks[i]);
	}
}
static void
op_aes(void)
{
	size_t kl, i; static const size_t cut[] = { 0, 1, 16, 17, 63, 64, 200, 1001, 1500 };
	for (kl = 16; kl <= 32; kl += 16) {
		struct crypto_aes_key * k = crypto_aes_key_expand(data + 40, kl); struct crypto_aesctr * s; uint8_t b[1500], w[1500];
		VF_CHECK(k != NULL, "expand", "a %zu-byte key is refused", kl);
		ref_aesblock(data + 40, kl, data, w); crypto_aes_encrypt_block(data, b, k); vf_eval();
		VF_CHECK(!memcmp(b, w, 16), "aes", "block encryption with a %zu-byte key wrong", kl);
		s = crypto_aesctr_init(k, 0x0102030405060708ULL * kl); VF_CHECK(s != NULL, "init", "refused");
		for (i = 1; i < NELEM(cut); i++) crypto_aesctr_stream(s, data + cut[i - 1], b + cut[i - 1], cut[i] - cut[i - 1]);
		ref_aesctr(data + 40, kl, 0x0102030405060708ULL * kl, 0, data, w, 1500); vf_eval();
		VF_CHECK(!memcmp(b, w, 1500), "aesctr", "stream with a %zu-byte key wrong", kl);
		crypto_aesctr_free(s);
		memset(b, 0xcc, 1500); crypto_aesctr_buf(k, 5, data, b, 1500); ref_aesctr(data + 40, kl, 5, 0, data, w, 1500); vf_eval();
		VF_CHECK(!memcmp(b, w, 1500), "aesctr", "buffer with a %zu-byte key wrong", kl);
		crypto_aes_key_free(k);
	}
}
static void
op_kdf(void)
{
	static const struct { uint64_t N; uint32_t r, p; size_t n; } T[] = { { 16, 8, 1, 64 }, { 4, 1, 3, 40 }, { 2, 3, 2, 33 } }; size_t i; uint8_t d[64], w[64]; int rc;
	for (i = 0; i < NELEM(T); i++) {
		rc = crypto_scrypt(data, 11, data + 90, 32, T[i].N, T[i].r, T[i].p, d, T[i].n); vf_eval();
		VF_CHECK(rc == 0, "kdf-rc", "key derivation failed");
		if (ref_scrypt(data, 11, data + 90, 32, T[i].N, T[i].r, T[i].p, w, T[i].n)) vf_internal("reference");
		VF_CHECK(!memcmp(d, w, T[i].n), "kdf", "key derivation N=%ju r=%u p=%u wrong", (uintmax_t)T[i].N, T[i].r, T[i].p);
	}
}
static struct scryptenc_params P;
static void par(void) { memset(&P, 0, sizeof(P)); P.logN = 4; P.r = 8; P.p = 1; }
static void
op_enc(void)
{
	uint8_t f[1200 + 128], w[1200 + 128]; int rc;
	par();
	rc = scryptenc_buf(data, 1200, f, (const uint8_t *)"pass", 4, &P, 0, 1); vf_eval();
	VF_CHECK(rc == 0, "enc-rc", "encryption failed (%d)", rc);
	ref_encrypt(w, data, 1200, "pass", 4, 4, 8, 1, f + 16);
	VF_CHECK(!memcmp(f, w, sizeof(f)), "enc", "encrypted file differs from the format");
}
static void
op_dec(void)
{
	uint8_t f[1200 + 128], o[1200 + 128]; size_t n; int rc;
	memset(&P, 0, sizeof(P)); P.maxmemfrac = 0.5; P.maxtime = 300;
	ref_encrypt(f, data, 1200, "pass", 4, 4, 8, 1, data + 200);
	rc = scryptdec_buf(f, sizeof(f), o, &n, (const uint8_t *)"pass", 4, &P, 0, 1); vf_eval();
	VF_CHECK(rc == 0 && n == 1200 && !memcmp(o, data, 1200), "dec", "reference file not decrypted (%d)", rc);
	f[500] ^= 1;
	memset(&P, 0, sizeof(P)); P.maxmemfrac = 0.5; P.maxtime = 300;
	rc = scryptdec_buf(f, sizeof(f), o, &n, (const uint8_t *)"pass", 4, &P, 0, 1); vf_eval();
	VF_CHECK(rc == SCRYPT_EINVAL, "dec-bad", "damaged file gave %d", rc);
}
static void (*const OPS[])(void) = { op_sha, op_aes, op_kdf, op_enc, op_dec, op_hmac };
static const char * const opn[] = { "hash", "AES", "key derivation", "encryption", "decryption", "HMAC" };
static void
all(int first)
{
	int i;
	if (!data[1]) fill(data, sizeof(data), 4);
	vf_note("features %d, broken: SHANI %d SSE2-hash %d mixing %d AESNI %d RDRAND %d, bit %d; first used for %s", feat, k_shani, k_sha2, k_mix, k_aes, k_rd, bit, opn[first]);
	for (i = 0; i < NELEM(OPS); i++) OPS[(first + i) % NELEM(OPS)]();
	/* and once more, everything decided */
	for (i = 0; i < NELEM(OPS); i++) OPS[i]();
	vf_seen(vf_hash2((uint64_t)feat << 32 | (uint32_t)bit, (uint64_t)k_shani * 1000000 + (uint64_t)k_sha2 * 10000 + (uint64_t)k_mix * 100 + (uint64_t)k_aes) ^ (uint64_t)first << 50 ^ (uint64_t)k_rd << 56);
	vf_outcome(vf_hash2((uint64_t)entered, (uint64_t)feat));
}
#ifdef VF_ARM
static const int ARMF[] = { 0, F_SHANI, F_AESNI, F_SHANI | F_AESNI };
/* every feature set, noise in the other bits, a failing query, what is broken, what is used first */
static void
combos(void)
{
	static const int S[] = { NONE, FLIP, NOTHING, ZERO }, A[] = { NONE, FLIP, NOTHING, ZERO, ONLY16, ONLY32, EXPFLIP16, EXPFLIP32, EXPNULL, EXPNULL32 };
	int first, want;
	feat = ARMF[vf_choose("features", 4)]; arm_noise = vf_choose("other bits", 2);
#ifdef VF_ARM_AUXINFO
	arm_auxfail = vf_choose("query", 3); arm_auxfail = arm_auxfail == 1 ? 2 : arm_auxfail ? 22 : 0;
	if (arm_auxfail) feat = 0;
#endif
	first = vf_choose("first", 6);
	k_shani = S[vf_choose("SHA-256", 4)]; k_aes = A[vf_choose("AES", 10)];
	bit = 13;
	all(first);
	want = feat;
	VF_CHECK((entered & want) == want, "unused", "the CPU announces its instructions (features %d), but they are not even tried (%d)", feat, entered);
	if (first == 0 && k_shani == NONE && k_aes == NONE && arm_noise) vf_sample("ARM features SHA-256 %d AES %d: used exactly these", !!(entered & F_SHANI), !!(entered & F_AESNI));
}
static void
b_sha(void) { feat = F_SHANI | F_AESNI; k_shani = FLIP; bit = vf_choose("bit", 256); all(0); }
static void
b_aes(void)
{
	static const int A[] = { FLIP, ONLY16, ONLY32, EXPFLIP16, EXPFLIP32 };
	k_aes = A[vf_choose("kind", 5)]; feat = F_SHANI | F_AESNI; bit = vf_choose("bit", k_aes == EXPFLIP32 ? 256 : 128); all(1);
}
static const struct vf_scn SC[] = { { "arm-combos", combos, 1, { 0, 0 }, 60, 0 },
#if !defined(VF_ARM32) && !defined(VF_ARM_AUXINFO)
	{ "arm-sha-bits", b_sha, 1, { 0, 0 }, 60, 0 }, { "arm-aes-bits", b_aes, 1, { 0, 0 }, 60, 0 },
#endif
	{ NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#else
/* every feature set x what is broken x what is used first */
static void
combos(void)
{
	static const int S[] = { NONE, FLIP, NOTHING }, M[] = { NONE, FLIP }, A[] = { NONE, FLIP, ONLY16, ONLY32, EXPFLIP32, EXPNULL };
	int first;
	feat = vf_choose("features", 32); first = vf_choose("first", 6);
	k_shani = S[vf_choose("SHANI", 3)]; k_sha2 = S[vf_choose("SSE2 hash", 3)]; k_mix = M[vf_choose("mixing", 2)]; k_aes = A[vf_choose("AESNI", 6)];
	if (vf_tier && (feat & F_RDRAND)) k_rd = vf_choose("RDRAND", 3);
	bit = 13;
	all(first);
}
static void
rdrand(void)
{
	feat = vf_choose("features", 16) | F_RDRAND; k_rd = vf_choose("RDRAND", 3); bit = 0;
	all(3 + vf_choose("first", 2));
}
/* every output bit of each routine */
static void
b_shani(void) { feat = vf_choose("SSE2 too", 2) ? 31 : 31 & ~F_SSE2; k_shani = FLIP; bit = vf_choose("bit", 256); all(0); }
static void
b_sha2(void) { feat = 31 & ~F_SHANI; k_sha2 = FLIP; bit = vf_choose("bit", 256); all(0); }
static void
b_both(void) { feat = 31; k_sha2 = k_shani = FLIP; bit = vf_choose("bit", 256); all(0); }
static void
b_mix(void)
{
	/* positions past a shorter block wrap around */
	int k = vf_choose("byte", 1024), j = vf_choose("bit", vf_tier ? 8 : 2);
	feat = 31; k_mix = FLIP; bit = k * 8 + (vf_tier ? j : j * 7); all(2);
}
static void
b_aes(void)
{
	static const int A[] = { FLIP, ONLY16, ONLY32, EXPFLIP16, EXPFLIP32 };
	k_aes = A[vf_choose("kind", 5)]; feat = 31; bit = vf_choose("bit", k_aes == EXPFLIP32 ? 256 : 128); all(1);
}
static void
b_odd(void)
{
	static const int A[] = { NONE, NOTHING, ZERO }, B[] = { NONE, NOTHING, ZERO, EXPNULL, EXPNULL32 };
	feat = vf_choose("SHANI", 2) ? 31 : 31 & ~F_SHANI; k_shani = A[vf_choose("SHANI", 3)]; k_sha2 = A[vf_choose("SSE2 hash", 3)]; k_mix = A[vf_choose("mixing", 3)]; k_aes = B[vf_choose("AESNI", 5)];
	all(vf_choose("first", 6));
}
/* detection says what the CPU says */
int cpusupport_x86_sse2_detect_1(void);
static void
detect(void)
{
	unsigned a, b, c, d, b7 = 0;
	if (!__get_cpuid(1, &a, &b, &c, &d)) vf_internal("cpuid");
	if (!__get_cpuid_count(7, 0, &a, &b7, (unsigned[1]){ 0 }, (unsigned[1]){ 0 })) b7 = 0;
	vf_note("detection");
	VF_CHECK(!!__real_cpusupport_x86_sse2_detect_1() == !!(d & (1u << 26)), "detect", "SSE2 misdetected");
	VF_CHECK(!!__real_cpusupport_x86_ssse3_detect_1() == !!(c & (1u << 9)), "detect", "SSSE3 misdetected");
	VF_CHECK(!!__real_cpusupport_x86_aesni_detect_1() == !!(c & (1u << 25)), "detect", "AESNI misdetected");
	VF_CHECK(!!__real_cpusupport_x86_rdrand_detect_1() == !!(c & (1u << 30)), "detect", "RDRAND misdetected");
	VF_CHECK(!!__real_cpusupport_x86_shani_detect_1() == !!(b7 & (1u << 29)), "detect", "SHANI misdetected");
	vf_eval(); vf_seen(1); vf_outcome(vf_trace_hash());
	vf_sample("this CPU: SSE2 %d SSSE3 %d SHANI %d AESNI %d RDRAND %d, all detected right", !!(d & (1u << 26)), !!(c & (1u << 9)), !!(b7 & (1u << 29)), !!(c & (1u << 25)), !!(c & (1u << 30)));
}
static const struct vf_scn SC[] = {
	{ "combos", combos, 1, { 0, 0 }, 60, 0 }, { "rdrand", rdrand, 1, { 0, 0 }, 60, 0 },
	{ "shani-bits", b_shani, 1, { 0, 0 }, 60, 0 }, { "sse2-bits", b_sha2, 1, { 0, 0 }, 60, 0 }, { "both-bits", b_both, 1, { 0, 0 }, 60, 0 }, { "mix-bits", b_mix, 1, { 0, 0 }, 60, 0 },
	{ "aes-bits", b_aes, 1, { 0, 0 }, 60, 0 }, { "odd", b_odd, 1, { 0, 0 }, 60, 0 }, { "detect", detect, 1, { 0, 0 }, 60, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#endif
int
main(int argc, char ** argv) { return (vf_main(argc, argv, SC)); }
