/* C09 the key derivation, C10 its refusals and resource failures. */
#define _GNU_SOURCE
#include <sys/wait.h>
#include <openssl/evp.h>
#include "vf.h"
#include "ref.h"
#include "env_cpu.h"
#include "crypto_scrypt.h"
#include "scrypt-kdf.h"
#include "env_alloc.h"

static uint8_t data[1 << 14];
static void mkdata(void) { static int done; if (!done) { fill(data, sizeof(data), 78); done = 1; } }
/* mixing core x hash: 0 SSE2+SHANI, 1 SSE2+SSE2 hash, 2 portable+SHANI, 3 portable+portable */
static int im;
static const char * const imn[] = { "SSE2/SHANI", "SSE2/SSE2", "portable/SHANI", "portable/portable", "crypto_scrypt-ref.c" };
int crypto_scrypt_reference(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
static __typeof__(crypto_scrypt_reference) * kdf __attribute__((unused)) = scrypt_kdf;	/* by its public name */
#ifdef VF_ALT
static void impl(void) { im = 3; mkdata(); }
#define impl_ref impl
#else
static void impl(void) { kdf = scrypt_kdf; static const int f[] = { 31, 31 & ~F_SHANI, 31 & ~F_SSE2, F_AESNI | F_RDRAND }; im = vf_choose("implementation", 4); feat = f[im]; mkdata(); }
#if PROP == 9
static void impl_ref(void) { static const int f[] = { 31, 31 & ~F_SHANI, 31 & ~F_SSE2, F_AESNI | F_RDRAND, 31 }; im = vf_choose("implementation", 5); feat = f[im]; kdf = im == 4 ? crypto_scrypt_reference : scrypt_kdf; mkdata(); }
#endif
#endif

#if PROP == 9
static uint8_t out[1 << 20], want[1 << 20];
static void
one(const uint8_t * pw, size_t pl, const uint8_t * s, size_t sl, uint64_t N, uint32_t r, uint32_t p, size_t n)
{
	size_t i; int rc;
	vf_note("%s: N=%ju r=%u p=%u output %zu passphrase %zu salt %zu", imn[im], (uintmax_t)N, r, p, n, pl, sl);
	memset(out, 0x6B, n + 32);
	rc = kdf(pw, pl, s, sl, N, r, p, out, n);
	vf_eval();
	VF_CHECK(rc == 0, "rc", "%s: valid parameters N=%ju r=%u p=%u refused (errno %d)", imn[im], (uintmax_t)N, r, p, errno);
	VF_CHECK(!memcmp(out, want, n), "value", "%s: N=%ju r=%u p=%u, %zu bytes: derived %s..., expected %s...", imn[im], (uintmax_t)N, r, p, n, hex(out, n < 16 ? n : 16), hex(want, n < 16 ? n : 16));
	for (i = n; i < n + 32; i++) VF_CHECK(out[i] == 0x6B, "bounds", "wrote past the output");
	vf_seen(vf_hash2(vf_hash2(N * 64 + r, (uint64_t)p * 1000003 + n), (uint64_t)pl * 1000 + sl * 4 + (uint64_t)im));
}
/* the grid of parameters */
static void
grid(void)
{
	int lN, r, p; static const size_t ns[] = { 64, 0, 1, 31, 32, 33, 65, 100 };
	impl_ref();
	lN = 1 + vf_choose("logN", vf_tier ? 14 : 10); r = 1 + vf_choose("r", vf_tier ? 40 : 20);
	for (p = 1; p <= (vf_tier ? 20 : 9); p++) {
		size_t i;
		if (p > 4 && lN > 5) break;
		if (p > 2 && lN > 8) break;
		if (ref_scrypt("pass", 4, data, 16, 1ULL << lN, (uint32_t)r, (uint32_t)p, want, 100)) vf_internal("reference");
		for (i = 0; i < (lN > 5 ? 1 : NELEM(ns)); i++) one((const uint8_t *)"pass", 4, data, 16, 1ULL << lN, (uint32_t)r, (uint32_t)p, ns[i]);
	}
	vf_outcome(vf_trace_hash());
}
static void
wide(void)
{
	static const struct { uint64_t N; uint32_t r, p; } T[] = { { 2, 1, 4096 }, { 2, 4096, 1 }, { 2, 777, 3 }, { 4, 1, 65537 }, { 2, 65537, 1 }, { 1 << 16, 1, 1 }, { 1 << 17, 1, 2 }, { 1 << 18, 1, 1 }, { 1 << 15, 8, 1 }, { 1 << 12, 33, 2 }, { 16, 255, 9 }, { 64, 256, 2 }, { 2, 64, 300 }, { 1024, 8, 16 }, { 8, 1000, 5 }, { 2, 3, 100000 }, { 1 << 19, 2, 1 } };
	int k;
	impl_ref();
	k = vf_choose("case", NELEM(T));
	if (ref_scrypt("pw", 2, data, 32, T[k].N, T[k].r, T[k].p, want, 64)) vf_internal("reference");
	one((const uint8_t *)"pw", 2, data, 32, T[k].N, T[k].r, T[k].p, 64);
	vf_outcome(vf_trace_hash());
	if (k == 5) vf_sample("%s: N=65536 r=1 p=1 equals the reference", imn[im]);
}
static void
inputs(void)
{
	static const size_t ls[] = { 0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 100, 127, 128, 129, 1000, 5000 }; int a, b, off;
	impl_ref();
	a = vf_choose("passphrase", NELEM(ls)); b = vf_choose("salt", NELEM(ls));
	if (ref_scrypt(data + 100, ls[a], data + 6000, ls[b], 4, 2, 3, want, 300)) vf_internal("reference");
	{ size_t n; for (n = 0; n <= 300; n += a == 4 && b == 4 ? 1 : 37) one(data + 100, ls[a], data + 6000, ls[b], 4, 2, 3, n); }
	/* alignment of inputs and of the output */
	for (off = 0; off < 16; off++) {
		uint8_t o[100 + 16], i1[5016], i2[5016];
		memcpy(i1 + off, data + 100, ls[a]); memcpy(i2 + 15 - off, data + 6000, ls[b]);
		VF_CHECK(crypto_scrypt(i1 + off, ls[a], i2 + 15 - off, ls[b], 4, 2, 3, o + off, 100) == 0 && !memcmp(o + off, want, 100), "alignment", "%s: wrong with unaligned buffers (%d)", imn[im], off);
		vf_eval();
	}
	/* empty inputs may be null */
	if (ls[a] == 0 && ls[b] == 0) { uint8_t o[64]; VF_CHECK(crypto_scrypt(NULL, 0, NULL, 0, 4, 2, 3, o, 64) == 0 && !memcmp(o, want, 64), "null", "wrong with null empty inputs"); VF_CHECK(crypto_scrypt(NULL, 0, NULL, 0, 4, 2, 3, NULL, 0) == 0, "null", "empty output refused"); }
	vf_outcome(vf_trace_hash());
}
/* inputs over 2^16, 2^24 and 2^32 bytes; most of them zero pages, which cost nothing */
static void
longin(void)
{
	static const size_t ls[] = { 8, 65535, 65536, 65536 + 8, 65600, 200000, (1 << 24) + 8, ((size_t)1 << 32) + 8 }; size_t a, b, n; uint8_t * m, e[64], h[32], o[64]; const uint8_t * rp;
	impl();
	if (im == 1) return;
	a = (size_t)vf_choose("passphrase", NELEM(ls)); b = (size_t)vf_choose("salt", NELEM(ls));
	if (a == 7 && b == 7) return;
	if (!vf_tier && (a == 7 || b == 7) && (im != 0 || a + b > 7)) return;
	n = ls[a] > ls[b] ? ls[a] : ls[b];
	if ((m = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)) == MAP_FAILED) vf_internal("mmap");
	memcpy(m, data, 8); m[n - 1] = 0x5a;
	vf_note("%s: passphrase of %zu bytes, salt of %zu", imn[im], ls[a], ls[b]);
	VF_CHECK(crypto_scrypt(m, ls[a], m, ls[b], 2, 1, 1, o, 64) == 0, "rc", "passphrase of %zu bytes, salt of %zu refused (errno %d)", ls[a], ls[b], errno);
	/* a passphrase over 64 bytes stands for its hash */
	rp = m; if (ls[a] > 64) { ref_sha256(m, ls[a], h); rp = h; }
	if (ref_scrypt(rp, ls[a] > 64 ? 32 : ls[a], m, ls[b], 2, 1, 1, e, 64)) vf_internal("reference");
	VF_CHECK(!memcmp(o, e, 64), "value", "%s: passphrase of %zu bytes, salt of %zu: derived %s, expected %s", imn[im], ls[a], ls[b], hex(o, 16), hex(e, 16));
	munmap(m, n);
	vf_eval(); vf_seen(vf_trace_hash()); vf_outcome(vf_trace_hash());
	if (a == 7) vf_sample("%s: passphrase of %zu bytes, salt of %zu", imn[im], ls[a], ls[b]);
}
static void
longout(void)
{
	static const size_t ns[] = { 8191, 8192, 8193, 65536 * 3 + 5, 1000000 };
	size_t i;
	impl();
	if (ref_scrypt("pw", 2, "salt", 4, 8, 2, 2, want, 1000000)) vf_internal("reference");
	for (i = 0; i < NELEM(ns); i++) one((const uint8_t *)"pw", 2, (const uint8_t *)"salt", 4, 8, 2, 2, ns[i]);
	vf_outcome(vf_trace_hash());
}
/* output longer than 65536 hash blocks: spot blocks by the definition of PBKDF2 */
static void
hugeout(void)
{
	size_t n = 32ul * 65536 * 2 + 40, i; uint8_t * o, w[32], B[256 * 2 * 2 + 4];
	impl();
	/* B after mixing is recovered from the reference */
	o = malloc(n); if (!o) vf_internal("memory");
	VF_CHECK(crypto_scrypt((const uint8_t *)"pw", 2, (const uint8_t *)"salt", 4, 8, 2, 2, o, n) == 0, "rc", "refused");
	{ uint8_t * r = malloc(n); if (!r || ref_scrypt("pw", 2, "salt", 4, 8, 2, 2, r, n)) vf_internal("reference"); for (i = 0; i < n && o[i] == r[i]; i++) continue; VF_CHECK(i == n, "value", "%s: output of %zu bytes wrong from byte %zu", imn[im], n, i); free(r); }
	(void)w; (void)B;
	vf_eval(); vf_seen(vf_trace_hash()); vf_outcome(vf_trace_hash());
	free(o);
}
/* memory over 2^31 and 2^32 bytes */
static void
bigmem(void)
{
	static const struct { uint64_t N; uint32_t r; } T[] = { { 1 << 21, 9 }, { 1 << 22, 9 } }; int k; uint8_t o[64]; uint8_t w[64];
	impl();
	k = vf_choose("case", 2);
	if (!vf_tier && im != 0) return;
	if (im == 1 || im == 3) return;
	if (!EVP_PBE_scrypt("pw", 2, (const uint8_t *)"salt", 4, T[k].N, T[k].r, 1, (uint64_t)6 << 30, w, 64)) vf_internal("reference");
	vf_note("%s: N=%ju r=%u", imn[im], (uintmax_t)T[k].N, T[k].r);
	VF_CHECK(crypto_scrypt((const uint8_t *)"pw", 2, (const uint8_t *)"salt", 4, T[k].N, T[k].r, 1, o, 64) == 0, "rc", "refused (errno %d)", errno);
	VF_CHECK(!memcmp(o, w, 64), "value", "%s: wrong with %ju bytes of memory", imn[im], (uintmax_t)(128 * T[k].N * T[k].r));
	vf_eval(); vf_seen(vf_trace_hash()); vf_outcome(vf_trace_hash());
	vf_sample("%s: N=%ju r=%u (%ju bytes) equals OpenSSL's scrypt", imn[im], (uintmax_t)T[k].N, T[k].r, (uintmax_t)(128 * T[k].N * T[k].r));
}
/* the published vectors, and the two references against each other */
static void
vectors(void)
{
	static const struct { const char * pw, * s; uint64_t N; uint32_t r, p; uint8_t h[8]; } V[] = {
		{ "", "", 16, 1, 1, { 0x77, 0xd6, 0x57, 0x62, 0x38, 0x65, 0x7b, 0x20 } },
		{ "password", "NaCl", 1024, 8, 16, { 0xfd, 0xba, 0xbe, 0x1c, 0x9d, 0x34, 0x72, 0x00 } },
		{ "pleaseletmein", "SodiumChloride", 16384, 8, 1, { 0x70, 0x23, 0xbd, 0xcb, 0x3a, 0xfd, 0x73, 0x48 } } };
	int i;
	impl();
	for (i = 0; i < NELEM(V); i++) {
		uint8_t w[64];
		if (ref_scrypt(V[i].pw, strlen(V[i].pw), V[i].s, strlen(V[i].s), V[i].N, V[i].r, V[i].p, want, 64)) vf_internal("reference");
		if (memcmp(want, V[i].h, 8)) vf_internal("reference is wrong");
		if (!EVP_PBE_scrypt(V[i].pw, strlen(V[i].pw), (const uint8_t *)V[i].s, strlen(V[i].s), V[i].N, V[i].r, V[i].p, 1 << 30, w, 64) || memcmp(w, want, 64)) vf_internal("references differ");
		one((const uint8_t *)V[i].pw, strlen(V[i].pw), (const uint8_t *)V[i].s, strlen(V[i].s), V[i].N, V[i].r, V[i].p, 64);
	}
	vf_outcome(vf_trace_hash());
}
/* histories: the result does not depend on what was derived before */
static void
histories(void)
{
	static const struct { uint64_t N; uint32_t r, p; size_t n; } O[] = { { 2, 1, 1, 16 }, { 16, 8, 1, 64 }, { 4, 3, 2, 33 }, { 8, 1, 5, 100 }, { 0, 1, 1, 64 }, { 32, 2, 1, 64 } }; int d;
	impl();
	for (d = 0; d < (vf_tier ? 5 : 4); d++) {
		int k = vf_choose("derivation", NELEM(O));
		if (O[k].N == 0) { VF_CHECK(crypto_scrypt(data, 5, data, 8, 3, 1, 1, out, 64) == -1, "rc", "N=3 accepted"); continue; }
		if (ref_scrypt(data + k, 9, data + d, 8, O[k].N, O[k].r, O[k].p, want, O[k].n)) vf_internal("reference");
		one(data + k, 9, data + d, 8, O[k].N, O[k].r, O[k].p, O[k].n);
	}
	vf_outcome(vf_trace_hash());
}
static const struct vf_scn SC[] = {
	{ "vectors", vectors, 1, { 0, 0 }, 120, 0 }, { "grid", grid, 1, { 0, 0 }, 300, 0 }, { "wide", wide, 1, { 0, 0 }, 300, 0 }, { "inputs", inputs, 1, { 0, 0 }, 120, 0 },
	{ "longin", longin, 1, { 0, 0 }, 600, 0 }, { "longout", longout, 1, { 0, 0 }, 120, 0 }, { "hugeout", hugeout, 1, { 0, 0 }, 120, 0 }, { "histories", histories, 1, { 0, 0 }, 0, 0 }, { "bigmem", bigmem, 1, { 0, 0 }, 600, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };

#elif PROP == 10
static uint8_t obuf[512];
/* what the statement says about a request */
static int
valid(uint64_t N, uint32_t r, uint32_t p, size_t n, int * err)
{
	*err = 0;
	if (r == 0 || p == 0) { *err = EINVAL; return (0); }
	if (n > 32 * (size_t)UINT32_MAX) { *err = EFBIG; return (0); }
	if ((uint64_t)r * p >= (1 << 30)) { *err = EFBIG; return (0); }
	if (N < 2 || (N & (N - 1))) { *err = EINVAL; return (0); }
	if ((unsigned __int128)128 * r * N > SIZE_MAX) { *err = ENOMEM; return (0); }
	return (1);
}
static void
ask(uint64_t N, uint32_t r, uint32_t p, size_t n)
{
	int rc, e, err, i, bad = 0; unsigned __int128 need = (unsigned __int128)128 * r * N;
	int ok = valid(N, r, p, n, &err);
	vf_note("%s: N=%#jx r=%#x p=%#x output %#zx", imn[im], (uintmax_t)N, r, p, n);
	memset(obuf, 0x4D, sizeof(obuf));
	if (ok && (need > (1 << 22) || (uint64_t)r * p > 4096 || n > 256)) {
		/* too big to let through: every allocation over 1 MiB fails */
		if (need <= (1 << 22)) return;
		al_start(-1, 0); al_cap = 1 << 20;
		errno = 0; rc = crypto_scrypt(data, 4, data, 8, N, r, p, obuf, n); e = errno;
		vf_eval();
		VF_CHECK(rc == -1, "accepted", "N=%#jx r=%#x p=%#x: succeeded although memory was refused", (uintmax_t)N, r, p);
		VF_CHECK(e == ENOMEM, "errno", "N=%#jx r=%#x p=%#x: errno %d when memory was refused", (uintmax_t)N, r, p, e);
		VF_CHECK(al_maxreq > 1 << 20, "size", "N=%#jx r=%#x p=%#x: no allocation was over 1 MiB (largest %zu)", (uintmax_t)N, r, p, al_maxreq);
		VF_CHECK(al_stop() == 0, "leak", "memory left allocated");
		goto untouched;
	}
	al_start(-1, 0);
	errno = 0; rc = crypto_scrypt(data, 4, data, 8, N, r, p, obuf, n); e = errno;
	vf_eval();
	if (al_stop()) vf_fail("leak", "memory left allocated");
	if (al_bad) vf_fail("bounds", "%s", al_bad);
	if (ok) { VF_CHECK(rc == 0, "refused", "N=%#jx r=%#x p=%#x n=%zu: refused with errno %d", (uintmax_t)N, r, p, n, e); return; }
	VF_CHECK(rc == -1, "accepted", "N=%#jx r=%#x p=%#x n=%#zx: returned %d", (uintmax_t)N, r, p, n, rc);
	/* when several faults are present any of their codes will do */
	if (e == EINVAL) bad = !(r == 0 || p == 0 || N < 2 || (N & (N - 1)));
	else if (e == EFBIG) bad = !(n > 32 * (size_t)UINT32_MAX || (uint64_t)r * p >= (1 << 30));
	else if (e == ENOMEM) bad = !(need > SIZE_MAX || (unsigned __int128)128 * r * p > SIZE_MAX);
	else bad = 1;
	VF_CHECK(!bad, "errno", "N=%#jx r=%#x p=%#x n=%#zx: errno %d, expected %d", (uintmax_t)N, r, p, n, e, err);
untouched:
	for (i = 0; i < (int)sizeof(obuf); i++) VF_CHECK(obuf[i] == 0x4D, "touched", "N=%#jx r=%#x p=%#x n=%#zx: refused, but the output was written", (uintmax_t)N, r, p, n);
	vf_outcome((uint64_t)e);
	vf_seen(vf_hash2(vf_hash2(N, r), vf_hash2(p, n + (size_t)im)));
}
static const uint32_t rps[] = { 0, 1, 2, 3, 7, 8, 9, 100, 32767, 32768, 32769, 65535, 65536, 1 << 20, (1 << 24) - 1, 1 << 24, 1 << 25, (1 << 29) - 1, 1 << 29, (1 << 30) - 1, 1 << 30, (1u << 30) + 1, 0x7fffffff, 0x80000000, 0xc0000000, 0xffffffff };
static const size_t outs[] = { 64, 0, 1, 32ul * UINT32_MAX, 32ul * UINT32_MAX + 1, 32ul * UINT32_MAX + 31, 1ul << 37, (1ul << 37) + 64, SIZE_MAX, 1ul << 63, SIZE_MAX - 31 };
static void
params(void)
{
	int a, b, l, d; size_t o;
	impl();
	a = vf_choose("r", NELEM(rps));
	for (b = 0; b < NELEM(rps); b++) for (l = 0; l < 64; l++) for (d = -1; d <= 1; d++) for (o = 0; o < NELEM(outs); o++) {
		if (o > 2 && l % 9 != 1 && d) continue;
#ifdef VF_ALT
		if (!vf_tier && o && (l + b) % 5) continue;
#endif
		ask((1ULL << l) + (uint64_t)d, rps[a], rps[b], outs[o]);
	}
	vf_outcome(vf_trace_hash());
}
/* every N up to 2^13, and every pair of bits */
static void
Ns(void)
{
	uint64_t N; int i, j;
	impl();
	for (N = 0; N < (vf_tier ? 65600u : 8200u); N++) ask(N, 1, 1, 32);
	for (i = 0; i < 64; i++) for (j = 0; j < 64; j++) { ask(1ULL << i | 1ULL << j, 8, 1, 64); ask(~(1ULL << i | 1ULL << j), 1, 2, 64); }
	vf_outcome(vf_trace_hash());
}
/* products around the limit: every divisor pair */
static void
products(void)
{
	uint32_t r; int k; static const int64_t ds[] = { -2, -1, 0, 1, 2 };
	impl();
	k = vf_choose("band", 32);
	for (r = 1 + (uint32_t)k; r < 70000; r += 32) { int i; for (i = 0; i < NELEM(ds); i++) { int64_t p = (1 << 30) / (int64_t)r + ds[i]; if (p < 1 || (r > 300 && i % 2)) continue; ask(1ULL << 60, r, (uint32_t)p, 64); ask(3, (uint32_t)p, r, 64); if ((uint64_t)r * (uint64_t)p >= (1 << 30)) ask(2, (uint32_t)p, r, 64); } }
	vf_outcome(vf_trace_hash());
}
/* every allocation failed in turn (once, or from then on), also during the first use */
static const struct { uint64_t N; uint32_t r, p; size_t n; } Q[] = { { 2, 1, 1, 64 }, { 16, 8, 1, 64 }, { 4, 3, 5, 100 }, { 128, 1, 1, 0 }, { 1024, 8, 2, 64 }, { 2, 1, 3000, 40 } };
static void
faults(void)
{
	int q, first, sticky, k, rc, e; uint8_t w[128], o[256];
	impl();
	q = vf_choose("request", NELEM(Q)); first = vf_choose("first use", 2); sticky = vf_choose("sticky", 2); al_guard = vf_choose("guard", 2);
	k = vf_choose("allocation", 12);
	if (!first && crypto_scrypt(data, 1, data, 1, 2, 1, 1, o, 8)) vf_fail("refused", "valid parameters refused");
	if (ref_scrypt(data, 4, data, 8, Q[q].N, Q[q].r, Q[q].p, w, Q[q].n)) vf_internal("reference");
	vf_note("%s: N=%ju r=%u p=%u, %s, allocation %d fails%s", imn[im], (uintmax_t)Q[q].N, Q[q].r, Q[q].p, first ? "first use" : "later use", k, sticky ? " and all later ones" : "");
	al_start(k, sticky); errno = 0;
	rc = crypto_scrypt(data, 4, data, 8, Q[q].N, Q[q].r, Q[q].p, o, Q[q].n); e = errno;
	if (al_n) { int left = al_n; al_stop(); vf_fail("leak", "%d allocations left after %s", left, rc ? "failure" : "success"); }
	al_stop();
	if (al_bad) vf_fail("bounds", "%s", al_bad);
	if (!al_failed) VF_CHECK(rc == 0, "refused", "failed (errno %d) although no allocation did", e);
	else if (!first || sticky) VF_CHECK(rc == -1, "ignored", "allocation %d failed, but the derivation returned %d", k, rc);
	VF_CHECK(rc == 0 || rc == -1, "rc", "returned %d", rc);
	if (rc == 0) VF_CHECK(!memcmp(o, w, Q[q].n), "value", "returned success with a wrong key");
	else VF_CHECK(e == ENOMEM, "errno", "errno %d after an allocation failed", e);
	/* and it works afterwards */
	VF_CHECK(crypto_scrypt(data, 4, data, 8, Q[q].N, Q[q].r, Q[q].p, o, Q[q].n) == 0 && !memcmp(o, w, Q[q].n), "after", "wrong or refused after an earlier failure");
	if (al_failed) vf_seen(vf_trace_hash());
	vf_outcome((uint64_t)(rc + 2) * 100 + (uint64_t)e);
	if (al_failed && im == 0 && k == 1 && q == 1 && !first) vf_sample("allocation %d failed -> %d, errno %d, nothing left allocated", k, rc, e);
}
/* a failing munmap is a failure too */
static void
unmap(void)
{
	int q, rc, left; uint8_t o[256];
	impl();
	q = vf_choose("request", NELEM(Q));
	crypto_scrypt(data, 1, data, 1, 2, 1, 1, o, 8);
	al_start(-1, 0); al_unmap_fail_at = 0;
	rc = crypto_scrypt(data, 4, data, 8, Q[q].N, Q[q].r, Q[q].p, o, Q[q].n);
	left = al_n;
	if (al_unmap_failed) { VF_CHECK(rc == -1, "ignored", "munmap failed, but the derivation returned %d", rc); VF_CHECK(left == 1, "leak", "%d allocations left after a failed munmap (the mapping itself is expected)", left); }
	else VF_CHECK(rc == 0 && left == 0, "rc", "returned %d, %d allocations left", rc, left);
	al_release = NULL; al_stop();
	vf_seen(vf_trace_hash()); vf_outcome((uint64_t)rc);
}
/* buffers exactly as large as needed, between unmapped pages */
static void
bounds(void)
{
	int lN, r, p; size_t n;
	impl();
	lN = 1 + vf_choose("logN", 8); r = 1 + vf_choose("r", 16);
	al_guard = 1;
	for (p = 1; p <= 5; p++) for (n = 0; n <= 66; n += 33) {
		uint8_t * o, * a, * s, w[66]; static uint8_t * page; int rc;
		if (!page) { page = __real_mmap(NULL, 3 * 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (page == MAP_FAILED) vf_internal("mmap"); mprotect(page + 4096, 4096, PROT_NONE); mprotect(page + 8192 + 4096, 4096, PROT_NONE); mprotect(page + 16384 + 4096, 4096, PROT_NONE); }
		/* inputs and output end at unmapped pages */
		a = page + 4096 - 7; s = page + 8192 + 4096 - 11; o = page + 16384 + 4096 - n;
		memcpy(a, data, 7); memcpy(s, data + 50, 11); memset(o - 64, 0x4D, 64);
		vf_note("%s: N=%d r=%d p=%d, %zu bytes, all buffers guarded", imn[im], 1 << lN, r, p, n);
		al_start(-1, 0);
		rc = crypto_scrypt(a, 7, s, 11, 1ULL << lN, (uint32_t)r, (uint32_t)p, o, n);
		vf_eval();
		VF_CHECK(rc == 0, "refused", "refused");
		if (al_stop()) vf_fail("leak", "memory left allocated");
		if (al_bad) vf_fail("bounds", "%s", al_bad);
		if (ref_scrypt(data, 7, data + 50, 11, 1ULL << lN, (uint32_t)r, (uint32_t)p, w, n)) vf_internal("reference");
		VF_CHECK(!memcmp(w, o, n), "value", "wrong key");
		{ int i; for (i = 1; i <= 64; i++) VF_CHECK(o[-i] == 0x4D, "bounds", "wrote before the output"); }
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)p * 100 + n));
	}
	vf_outcome(vf_trace_hash());
}
static const struct vf_scn SC[] = {
	{ "params", params, 1, { 0, 0 }, 300, 0 }, { "Ns", Ns, 1, { 0, 0 }, 300, 0 }, { "products", products, 1, { 0, 0 }, 300, 0 }, { "faults", faults, 1, { 0, 0 }, 0, 0 },
	{ "unmap", unmap, 1, { 0, 0 }, 0, 0 }, { "bounds", bounds, 1, { 0, 0 }, 0, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#endif
int main(int argc, char ** argv) { return (vf_main(argc, argv, SC)); }
