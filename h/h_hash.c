/* C11 hashing, C12 AES-CTR: every split, history, alignment, implementation. */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <openssl/evp.h>
#include "vf.h"
#include "ref.h"
#include "env_cpu.h"
#include "sha256.h"
#include "crypto_aes.h"
#include "crypto_aesctr.h"

static uint8_t data[1 << 17];
static void mkdata(void) { static int done; if (!done) { fill(data, sizeof(data), 77); done = 1; } }
/* an exact-size copy that ends at an unmapped page, so that over-reads and
 * writes are caught; off: 0..63 extra misalignment from the front */
static uint8_t * arena_lo; static size_t arena_len;
static uint8_t *
tail_buf(size_t n)
{
	size_t need = (n + 4095) / 4096 * 4096 + 4096;
	if (need + 8192 > arena_len) {
		arena_len = need + (1 << 20);
		arena_lo = mmap(NULL, arena_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (arena_lo == MAP_FAILED) vf_internal("mmap");
		mprotect(arena_lo + arena_len - 4096, 4096, PROT_NONE);
	}
	return (arena_lo + arena_len - 4096 - n);
}

#ifdef VF_ARM
#define ARMDEPTH 1	/* instructions in software take their time */
#else
#define ARMDEPTH 0
#endif
#if PROP == 11
static int sha;
#ifdef VF_ALT
static void impl(void) { sha = 2; mkdata(); }
#elif defined(VF_ARM)
static void impl(void) { sha = 0; feat = 31; mkdata(); }
#else
static void impl(void) { sha = vf_choose("implementation", 3); feat_sha(sha); mkdata(); }
#endif
static void
same(const uint8_t * got, const uint8_t * want, size_t n, const char * what)
{
	vf_eval();
	if (memcmp(got, want, n)) vf_fail(what, "%s (%s): wrong result %s..., expected %s...", what, sha_name[sha], hex(got, n < 16 ? n : 16), hex(want, n < 16 ? n : 16));
}
/* every length, one shot and streamed, from several alignments */
static void
lengths(void)
{
	int band, al; size_t n, max = vf_tier ? 20000 : 4400; uint8_t h[32], w[32]; SHA256_CTX c;
	impl();
	band = vf_choose("band", 20);
	for (n = (size_t)band; n <= max; n += 20) {
		uint8_t * t = tail_buf(n);
		vf_note("message of %zu bytes", n);
		memcpy(t, data, n);
		ref_sha256(data, n, w);
		SHA256_Buf(t, n, h); same(h, w, 32, "SHA256_Buf");
		SHA256_Init(&c); SHA256_Update(&c, t, n); SHA256_Final(h, &c); same(h, w, 32, "SHA256 stream");
		if (n <= 300) for (al = 0; al < 64; al++) {
			uint8_t b[512 + 64], hb[64];
			memcpy(b + al, data, n); SHA256_Buf(b + al, n, hb + al % 32); same(hb + al % 32, w, 32, "SHA256_Buf alignment");
		}
		vf_seen(vf_hash2((uint64_t)sha, n));
	}
	vf_outcome(vf_trace_hash());
}
/* the transition system: (bytes seen) x (update length), then any tail */
static void
splits(void)
{
	int pre, tail_n; size_t n, i, maxn = vf_tier ? 520 : 200; uint8_t h[32], w[32]; SHA256_CTX c;
	static const size_t tails[] = { 0, 1, 55, 56, 57, 63, 64, 65, 128, 119, 120 };
	impl();
	pre = vf_choose("prefix", 128);
	tail_n = NELEM(tails);
	for (n = 0; n <= maxn; n++) for (i = 0; i < (size_t)tail_n; i++) {
		size_t tot = (size_t)pre + n + tails[i];
		uint8_t * t = tail_buf(tot);
		vf_note("updates of %d, %zu, %zu bytes", pre, n, tails[i]);
		if (i == 0 || tails[i] != tails[i - 1]) memcpy(t, data, tot);
		SHA256_Init(&c);
		SHA256_Update(&c, t, (size_t)pre); SHA256_Update(&c, t + pre, n); SHA256_Update(&c, t + pre + n, tails[i]);
		SHA256_Final(h, &c);
		ref_sha256(t, tot, w);
		same(h, w, 32, "SHA256 split");
		vf_state((uint64_t)pre % 64 + 1000); vf_trans(vf_hash2((uint64_t)pre % 64, n));
		vf_seen(vf_hash2(vf_hash2((uint64_t)pre, n), tails[i] + 1000 * (uint64_t)sha));
	}
	vf_outcome(vf_trace_hash());
}
/* byte-granular: every composition of short messages into three updates around a block */
static void
three(void)
{
	size_t a, b, tot; uint8_t h[32], w[32]; SHA256_CTX c; HMAC_SHA256_CTX hc; int k;
	impl();
	tot = (size_t)vf_choose("total", vf_tier ? 200 : 140);
	ref_sha256(data, tot, w);
	{ uint8_t wm[32]; ref_hmac("key", 3, data, tot, wm);
	for (a = 0; a <= tot; a++) for (b = a; b <= tot; b++) {
		vf_note("%zu bytes as %zu+%zu+%zu", tot, a, b - a, tot - b);
		SHA256_Init(&c);
		SHA256_Update(&c, data, a); SHA256_Update(&c, data + a, b - a); SHA256_Update(&c, data + b, tot - b);
		SHA256_Final(h, &c); same(h, w, 32, "SHA256 three updates");
		k = (int)((a + b) % 8); if (k) continue;
		HMAC_SHA256_Init(&hc, "key", 3);
		HMAC_SHA256_Update(&hc, data, a); HMAC_SHA256_Update(&hc, data + a, b - a); HMAC_SHA256_Update(&hc, data + b, tot - b);
		HMAC_SHA256_Final(h, &hc); same(h, wm, 32, "HMAC three updates");
	} }
	vf_seen(vf_trace_hash()); vf_outcome(vf_trace_hash());
}
/* histories: interleaved contexts, one-shot calls in between, contexts reused */
static void
histories(int k)
{
	static const size_t lens[] = { 0, 1, 63, 64, 65, 55 };
	SHA256_CTX c[2]; HMAC_SHA256_CTX hc; int st[3] = { 0, 0, 0 }, depth, d, i; uint8_t acc[3][800]; size_t al[3] = { 0, 0, 0 }; uint8_t h[32], w[32]; int trace = 0; uint64_t S = 0;
	sha = k; feat_sha(k); mkdata();
	depth = (vf_tier ? 7 : 6) - ARMDEPTH;
	for (d = 0; d < depth; d++) {
		/* 0-2: (re)initialise context; 3-20: update; 21-23: finish; 24: one-shots in between */
		int op = vf_choose("op", 25);
		vf_note("history step %d: operation %d", d, op);
		if (op < 3) {
			if (op < 2) SHA256_Init(&c[op]); else HMAC_SHA256_Init(&hc, data + 1000, 32);
			st[op] = 1; al[op] = 0;
		} else if (op < 21) {
			size_t n = lens[(op - 3) % 6]; i = (op - 3) / 6;
			if (!st[i]) return;
			if (i < 2) SHA256_Update(&c[i], data + 13 * d, n); else HMAC_SHA256_Update(&hc, data + 13 * d, n);
			memcpy(acc[i] + al[i], data + 13 * d, n); al[i] += n;
		} else if (op < 24) {
			i = op - 21;
			if (!st[i]) return;
			if (i < 2) { SHA256_Final(h, &c[i]); ref_sha256(acc[i], al[i], w); same(h, w, 32, "SHA256 history"); }
			else { HMAC_SHA256_Final(h, &hc); ref_hmac(data + 1000, 32, acc[2], al[2], w); same(h, w, 32, "HMAC history"); }
			st[i] = 0;
		} else {
			uint8_t o[40];
			SHA256_Buf(data + d, 70, h); ref_sha256(data + d, 70, w); same(h, w, 32, "SHA256_Buf in between");
			HMAC_SHA256_Buf(data, 70, data + d, 9, h); ref_hmac(data, 70, data + d, 9, w); same(h, w, 32, "HMAC in between");
			PBKDF2_SHA256(data, 5, data + d, 8, 2, o, 40); { uint8_t wo[40]; ref_pbkdf2(data, 5, data + d, 8, 2, wo, 40); same(o, wo, 40, "PBKDF2 in between"); }
		}
		for (S = 0, i = 0; i < 3; i++) S = S * 1000 + (st[i] ? al[i] % 64 + 1 : 0);
		vf_state(S); vf_trans(vf_hash2(S, (uint64_t)op));
		trace = trace * 25 + op;
	}
	for (i = 0; i < 3; i++) if (st[i]) {
		if (i < 2) { SHA256_Final(h, &c[i]); ref_sha256(acc[i], al[i], w); same(h, w, 32, "SHA256 history"); }
		else { HMAC_SHA256_Final(h, &hc); ref_hmac(data + 1000, 32, acc[2], al[2], w); same(h, w, 32, "HMAC history"); }
	}
	vf_seen(vf_trace_hash()); vf_outcome((uint64_t)trace);
}
static void __attribute__((unused)) hist0(void) { histories(0); }
static void __attribute__((unused)) hist1(void) { histories(1); }
static void __attribute__((unused)) hist2(void) { histories(2); }
static void
hmac(void)
{
	size_t k, m; uint8_t h[32], w[32]; HMAC_SHA256_CTX hc; int band; static const size_t kl[] = { 1000, 4096, 65536 };
	impl();
	band = vf_choose("band", 16);
	for (k = (size_t)band; k < 200 + 16 * NELEM(kl); k += 16) {
		size_t kk = k < 200 ? k : kl[(k - 200) / 16];
		for (m = 0; m <= (vf_tier ? 400u : 150u); m++) {
			uint8_t * t = tail_buf(kk + m);
			vf_note("HMAC key of %zu bytes, message of %zu", kk, m);
			memcpy(t, data + 7, m); memcpy(t + m, data, kk);
			ref_hmac(data, kk, data + 7, m, w);
			HMAC_SHA256_Buf(t + m, kk, t, m, h); same(h, w, 32, "HMAC_SHA256_Buf");
			HMAC_SHA256_Init(&hc, t + m, kk); HMAC_SHA256_Update(&hc, t, m / 2); HMAC_SHA256_Update(&hc, t + m / 2, m - m / 2); HMAC_SHA256_Final(h, &hc);
			same(h, w, 32, "HMAC stream");
			/* output over the key or the message */
			if (kk >= 32 && m % 16 == 0) { HMAC_SHA256_Buf(t + m, kk, t, m, t + m); same(t + m, w, 32, "HMAC in place"); }
			vf_seen(vf_hash2(kk, m * 4 + (uint64_t)sha));
		}
	}
	vf_outcome(vf_trace_hash());
}
static void
pbkdf(void)
{
	static const size_t pls[] = { 0, 1, 8, 31, 32, 63, 64, 65, 100, 128 }, sls[] = { 0, 1, 8, 32, 51, 52, 55, 59, 60, 61, 64, 123, 124, 200 }; size_t n; int pi, si; uint64_t c;
	uint8_t w[600];
	impl();
	pi = vf_choose("passphrase", NELEM(pls)); si = vf_choose("salt", NELEM(sls));
	for (c = 0; c <= 5; c++) {
		uint64_t it = c == 5 ? 257 : c;
		if (it == 0) continue;
		ref_pbkdf2(data, pls[pi], data + 500, sls[si], it, w, sizeof(w));
		for (n = 0; n <= (vf_tier ? 600u : 140u); n++) {
			uint8_t * t = tail_buf(n + 16);
			vf_note("PBKDF2 passphrase %zu salt %zu iterations %ju output %zu", pls[pi], sls[si], (uintmax_t)it, n);
			if (it == 257 && n % 31 > 2) continue;
			memset(t, 0xEE, n + 16); t += 16;
			PBKDF2_SHA256(data, pls[pi], data + 500, sls[si], it, t, n);
			same(t, w, n, "PBKDF2");
			if (n) { uint8_t x[16]; memset(x, 0xEE, 16); VF_CHECK(!memcmp(t - 16, x, 16), "PBKDF2 bounds", "wrote before its output"); }
			vf_seen(vf_hash2(vf_hash2(n, it), (uint64_t)(pi * 100 + si * 4 + sha)));
		}
	}
	vf_outcome(vf_trace_hash());
}
/* block counters past one, two (and three) bytes */
static void
pbkdf_long(void)
{
	size_t n, i, k; uint8_t * o, w[32], ib[4], salt[68], x[32]; int wh; static const size_t ns[] = { 32 * 256 + 7, 32 * 65536 + 33, 32ul * (1 << 24) + 64 };
	impl();
	wh = vf_choose("size", vf_tier ? 3 : 2);
	if (wh == 2 && sha) return;
	n = ns[wh];
	o = malloc(n + 16); if (!o) vf_internal("memory");
	memset(o + n, 0xEE, 16);
	fill(salt, 64, 5);
	PBKDF2_SHA256(data, 20, salt, 64, 1, o, n);
	for (i = 0; i < 16; i++) VF_CHECK(o[n + i] == 0xEE, "PBKDF2 bounds", "wrote past its output");
	for (i = 0; i * 32 < n; i++) {
		size_t l = n - i * 32 < 32 ? n - i * 32 : 32;
		if (wh == 2 && !(i < 3 || i % 65536 < 2 || i + 4 > (1 << 24))) continue;
		memcpy(w, salt, 0);
		ib[0] = (uint8_t)((i + 1) >> 24); ib[1] = (uint8_t)((i + 1) >> 16); ib[2] = (uint8_t)((i + 1) >> 8); ib[3] = (uint8_t)(i + 1);
		memcpy(salt + 64, ib, 4);
		ref_hmac(data, 20, salt, 68, x);
		vf_note("PBKDF2 output block %zu of a request of %zu bytes", i + 1, n);
		same(o + i * 32, x, l, "PBKDF2 long output");
	}
	k = n; (void)k;
	vf_seen(vf_trace_hash()); vf_outcome(vf_trace_hash());
	vf_sample("PBKDF2 %s: %zu bytes, every block compared", sha_name[sha], n);
	free(o);
}
/* bit counts past 2^32, single updates past 2^32 bytes */
static uint8_t *
tiled(size_t total)
{
	size_t tile = 64 << 20, o; int fd = memfd_create("tile", 0); uint8_t * p;
	if (fd < 0 || ftruncate(fd, (off_t)tile)) vf_internal("memfd");
	p = mmap(NULL, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) vf_internal("mmap");
	for (o = 0; o < total; o += tile)
		if (mmap(p + o, total - o < tile ? total - o : tile, PROT_READ | (o == 0 ? PROT_WRITE : 0), MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) vf_internal("mmap");
	close(fd);
	fill(p, total < tile ? total : tile, 99);
	return (p);
}
static void
big(void)
{
	static const size_t sizes[] = { (1ul << 29) - 9, (1ul << 29) - 1, 1ul << 29, (1ul << 29) + 1, (1ul << 29) + 64, (1ul << 31) + 5, (1ul << 32) - 1, (1ul << 32) + 63 };
	int k, way; size_t n, i; uint8_t h[32], w[32], * p; SHA256_CTX c; EVP_MD_CTX * e;
	impl();
#ifdef VF_ARM
	if (!vf_tier) return;
#endif
	k = vf_choose("size", NELEM(sizes)); way = vf_choose("updates", 2);
	if (!vf_tier && sha && k != 3) return;
	if (!vf_tier && k > 4 && way) return;
#if defined(VF_ALT) || defined(VF_ARM)
	if (!vf_tier && k != 3) return;
#endif
	n = sizes[k];
	p = tiled((n + 4095) / 4096 * 4096);
	e = EVP_MD_CTX_new(); EVP_DigestInit_ex(e, EVP_sha256(), NULL); EVP_DigestUpdate(e, p, n); EVP_DigestFinal_ex(e, w, NULL); EVP_MD_CTX_free(e);
	vf_note("message of %zu bytes in %s", n, way ? "updates of 1000003 bytes" : "one update");
	SHA256_Init(&c);
	if (way == 0) SHA256_Update(&c, p, n);
	else for (i = 0; i < n; i += 1000003) SHA256_Update(&c, p + i, n - i < 1000003 ? n - i : 1000003);
	SHA256_Final(h, &c);
	same(h, w, 32, "SHA256 long message");
	vf_seen(vf_trace_hash()); vf_outcome(vf_trace_hash());
	if (k == 7) vf_sample("SHA256 %s: message of %zu bytes in one update", sha_name[sha], n);
	munmap(p, (n + 4095) / 4096 * 4096);
}
static const struct vf_scn SC[] = {
	{ "lengths", lengths, 1, { 0, 0 }, 120, 0 }, { "splits", splits, 1, { 0, 0 }, 120, 0 }, { "three", three, 1, { 0, 0 }, 120, 0 },
#ifdef VF_ARM
	{ "hist_arm", hist0, 0, { 0, 0 }, 0, 0 },
#endif
#if !defined(VF_ALT) && !defined(VF_ARM)
	{ "hist_shani", hist0, 0, { 0, 0 }, 0, 0 }, { "hist_sse2", hist1, 0, { 0, 0 }, 0, 0 },
#endif
#ifndef VF_ARM
	{ "hist_soft", hist2, 0, { 0, 0 }, 0, 0 },
#endif
	{ "hmac", hmac, 1, { 0, 0 }, 120, 0 }, { "pbkdf", pbkdf, 1, { 0, 0 }, 120, 0 },
	{ "pbkdf_long", pbkdf_long, 1, { 0, 0 }, 300, 0 }, { "big", big, 1, { 0, 0 }, 300, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#else
static int soft;
#ifdef VF_ALT
static void impl(void) { soft = 1; mkdata(); }
#elif defined(VF_ARM)
static void impl(void) { soft = 0; feat = 31; mkdata(); }
#else
static void impl(void) { soft = vf_choose("implementation", 2); feat = soft ? 31 & ~F_AESNI : 31; mkdata(); }
#endif
#ifdef VF_ARM
#define NAME "ARM"
#define HIST0 "hist_arm"
#else
#define HIST0 "hist_aesni"
#define NAME (soft ? "OpenSSL" : "AESNI")
#endif
static uint8_t key[2][32];
static const uint64_t nonces[] = { 0, 1, 0x0123456789abcdefULL, UINT64_MAX, 1ULL << 63 };
static void mkkeys(void) { fill(key[0], 32, 3); fill(key[1], 32, 4); }
/* Streams checked against their position in the reference keystream. */
struct st { struct crypto_aesctr * s; int k; size_t klen; uint64_t nonce, pos; };
static struct crypto_aes_key * ek[2][2];
static void
expand(void)
{
	int i;
	mkkeys();
	for (i = 0; i < 2; i++) {
		if (ek[i][0]) crypto_aes_key_free(ek[i][0]);
		if (ek[i][1]) crypto_aes_key_free(ek[i][1]);
		ek[i][0] = crypto_aes_key_expand(key[i], 16); ek[i][1] = crypto_aes_key_expand(key[i], 32);
		if (!ek[i][0] || !ek[i][1]) vf_fail("expand", "key expansion failed");
	}
}
static uint8_t ks_buf[1 << 16];
static void
run(struct st * s, size_t n, int inplace, int aoff, int boff)
{
	uint8_t * in = tail_buf(n + 64), * out, * b = data; static uint8_t w[70000], o[70000 + 256]; size_t i;
	if (n > 65536) vf_internal("too long");
	(void)ks_buf;
	ref_aesctr(key[s->k], s->klen, s->nonce, s->pos, b, w, n);
	in += 64 - aoff;			/* ends aoff bytes before the unmapped page */
	memcpy(in, b, n);
	memset(o, 0xA7, n + 256);
	out = inplace ? in : o + 64 + boff;
	crypto_aesctr_stream(s->s, in, out, n);
	vf_eval();
	if (memcmp(out, w, n)) {
		for (i = 0; out[i] == w[i]; i++) continue;
		vf_fail("keystream", "%s, %zu-bit key, nonce %#jx: a call of %zu bytes at position %ju is wrong from its byte %zu (%s)", NAME, s->klen * 8, (uintmax_t)s->nonce, n, (uintmax_t)s->pos, i, inplace ? "in place" : "separate");
	}
	if (!inplace) {
		for (i = 0; i < 64u + (size_t)boff; i++) VF_CHECK(o[i] == 0xA7, "bounds", "wrote before the output");
		for (i = 64 + (size_t)boff + n; i < n + 256; i++) VF_CHECK(o[i] == 0xA7, "bounds", "wrote after the output");
		VF_CHECK(!memcmp(in, b, n), "input", "changed the input");
	}
	s->pos += n;
}
/* every (position, length, next length) triple, both key sizes */
static void
splits(void)
{
	struct st s; size_t n, t; int pre, kl, how; static const size_t tails[] = { 1, 3, 15, 16, 17, 31, 32, 33, 48 };
	impl(); expand();
	pre = vf_choose("prefix", 50); kl = vf_choose("keysize", 2); how = vf_choose("prefix way", 3);
	for (n = 0; n <= (vf_tier ? 300u : 100u); n++) for (t = 0; t < NELEM(tails); t++) {
		uint64_t nonce = nonces[(n + t) % NELEM(nonces)]; size_t i;
		s.k = 0; s.klen = kl ? 32 : 16; s.nonce = nonce; s.pos = 0;
		s.s = crypto_aesctr_init(ek[0][kl], nonce); if (!s.s) vf_internal("init");
		/* reach the position in one call, byte by byte, or in calls of 15 */
		if (how == 0) run(&s, (size_t)pre, 0, 0, 0);
		else for (i = 0; i < (size_t)pre; i += how == 1 ? 1 : 15) { size_t l = how == 1 ? 1 : 15; if ((size_t)pre - i < l) l = (size_t)pre - i; run(&s, l, how == 2, 0, 0); }
		vf_note("%s: position %ju, then calls of %zu and %zu", NAME, (uintmax_t)s.pos, n, tails[t]);
		vf_state(s.pos % 16 + 16 * (uint64_t)soft); vf_trans(vf_hash2(s.pos % 16 + 100 * (uint64_t)soft, n));
		run(&s, n, (int)(n + t) % 2, (int)(n % 17), (int)(t % 16));
		run(&s, tails[t], (int)t % 2, 0, 0);
		crypto_aesctr_free(s.s);
		vf_seen(vf_hash2(vf_hash2((uint64_t)pre, n), t * 100 + (uint64_t)(how * 10 + kl * 4 + soft)));
	}
	vf_outcome(vf_trace_hash());
}
/* alignments of both buffers */
static void
aligns(void)
{
	struct st s; int a, b, kl; size_t n;
	impl(); expand();
	a = vf_choose("input alignment", 32); kl = vf_choose("keysize", 2);
	for (b = 0; b < 33; b++) for (n = 0; n < 80; n += 1 + (n > 34) * 7) {
		s.k = 1; s.klen = kl ? 32 : 16; s.nonce = 9; s.pos = 0; s.s = crypto_aesctr_init(ek[1][kl], 9);
		vf_note("%s: alignments %d and %d, %zu bytes", NAME, a, b, n);
		run(&s, n, b == 32, a, b % 32); run(&s, 20, 0, a, b % 32);
		crypto_aesctr_free(s.s);
		vf_seen(vf_hash2(vf_hash2((uint64_t)a, (uint64_t)b), n * 4 + (uint64_t)(kl * 2 + soft)));
	}
	vf_outcome(vf_trace_hash());
}
/* across every carry of the counter: reach it in various ways, cross it in various ways */
static void
carries(void)
{
	static const uint64_t blocks[] = { 255, 256, 257, 512, 65535, 65536, 65792, 131072, 1 << 24 }; int bi, way, d, n, kl; struct st s, base; static uint8_t huge[1 << 20]; uint64_t target;
	impl(); expand();
#ifdef VF_ALT
	bi = vf_choose("carry", vf_tier ? 9 : 4);
#else
	bi = vf_choose("carry", vf_tier ? 9 : 8);
#endif
	 way = vf_choose("way", 4); kl = vf_choose("keysize", 2);
	if (bi == 8 && way == 1) return;
	base.k = 0; base.klen = kl ? 32 : 16; base.nonce = nonces[2];
	for (d = 0; d <= 34; d++) {
		target = blocks[bi] * 16 - (uint64_t)d;
		for (n = 0; n <= 70; n += bi < 4 || n < 34 ? 1 : 9) {
			if (bi >= 4 && !vf_tier && n % 5 != d % 5 && n != d && n != d + 1 && n != 16) continue;
			if (bi == 8 && n % 23 != d % 23) continue;
			if (bi >= 4 && way && n != d + 1 && n != 43 && n != 16) continue;
			if (bi >= 4 && way && (d % 8 > 1)) continue;
#ifdef VF_ARM
			if (bi >= 4 && !vf_tier && ((d != 1 && d != 17) || way == 1 || (n != d + 1 && n != 16))) continue;
			if (bi == 8) continue;
#endif
			s = base; s.pos = 0;
			s.s = crypto_aesctr_init(ek[0][kl], s.nonce);
			/* to the position in big calls, in calls below a block, or mixed */
			while (s.pos < target) {
				size_t l = way == 0 ? sizeof(huge) : way == 1 ? 15 : way == 2 ? 4096 + 5 : 16;
				if (target - s.pos < l) l = (size_t)(target - s.pos);
				crypto_aesctr_stream(s.s, huge, huge, l);
				s.pos += l;
			}
			vf_note("%s: block %ju reached from %d bytes before by way %d, call of %d", NAME, (uintmax_t)blocks[bi], d, way, n);
			run(&s, (size_t)n, n & 1, 0, 0); run(&s, 1, 0, 0, 0); run(&s, 33, 0, 0, 0); run(&s, 15, 1, 0, 0);
			/* and a long call across it */
			crypto_aesctr_free(s.s);
			vf_seen(vf_hash2(vf_hash2(target, (uint64_t)n), (uint64_t)(way * 4 + kl * 2 + soft)));
		}
	}
	/* one call across several carries of the low byte */
	for (d = 0; d < 48; d++) {
		s = base; s.pos = 0; s.s = crypto_aesctr_init(ek[0][kl], s.nonce);
		run(&s, (size_t)d, 0, 0, 0); run(&s, 16 * 600 + 3, 0, 0, 0); run(&s, 13, 0, 0, 0); run(&s, 16 * 300, 1, 0, 0);
		crypto_aesctr_free(s.s);
	}
	vf_outcome(vf_trace_hash());
}
/* histories over two streams: interleaved, re-initialised with and without a key, one-shot calls in between */
static void
histories(int k)
{
	static const size_t lens[] = { 1, 15, 16, 17, 40 }; struct st s[2]; int d, depth, i; uint64_t S;
	soft = k; feat = soft ? 31 & ~F_AESNI : 31; mkdata(); expand();
	for (i = 0; i < 2; i++) {
		s[i].k = i; s[i].klen = i ? 16 : 32; s[i].nonce = 5 + (uint64_t)i; s[i].pos = 0;
		if (i == 0) s[i].s = crypto_aesctr_init(ek[0][1], 5);
		else { s[i].s = crypto_aesctr_alloc(); if (s[i].s) crypto_aesctr_init2(s[i].s, ek[1][0], 6); }
		if (!s[i].s) vf_internal("init");
	}
	depth = (vf_tier ? 6 : 5) - ARMDEPTH;
	for (d = 0; d < depth; d++) {
		int op = vf_choose("op", 17);
		vf_note("history step %d: operation %d", d, op);
		if (op < 10) run(&s[op / 5], lens[op % 5], d & 1, 0, 0);
		else if (op < 12) { i = op - 10; s[i].nonce += 0x100; s[i].pos = 0; crypto_aesctr_init2(s[i].s, NULL, s[i].nonce); }
		else if (op < 14) { i = op - 12; s[i].k ^= 1; s[i].klen = 48 - s[i].klen; s[i].pos = 0; crypto_aesctr_init2(s[i].s, ek[s[i].k][s[i].klen == 32], s[i].nonce); }
		else if (op == 14) {
			uint8_t w[100], o[100];
			ref_aesctr(key[1], 32, 77, 0, data, w, 100); crypto_aesctr_buf(ek[1][1], 77, data, o, 100);
			VF_CHECK(!memcmp(w, o, 100), "oneshot", "%s: one-shot stream wrong", NAME);
		} else {	/* free and make anew */
			i = op - 15; crypto_aesctr_free(s[i].s); s[i].nonce = 1000; s[i].pos = 0; s[i].s = crypto_aesctr_init(ek[s[i].k][s[i].klen == 32], 1000);
		}
		for (S = 0, i = 0; i < 2; i++) S = S * 1000 + s[i].pos % 16 * 4 + (uint64_t)s[i].k * 2 + (s[i].klen == 32);
		vf_state(S); vf_trans(vf_hash2(S, (uint64_t)op));
	}
	for (i = 0; i < 2; i++) { run(&s[i], 21, 0, 0, 0); crypto_aesctr_free(s[i].s); }
	vf_seen(vf_trace_hash()); vf_outcome(vf_trace_hash());
}
static void __attribute__((unused)) hist0(void) { histories(0); }
static void __attribute__((unused)) hist1(void) { histories(1); }
/* single blocks: both key sizes, in place, every single-bit key and input */
static void
blocks(void)
{
	int b, kl, i; uint8_t k[32], in[16], o[48], w[16];
	impl();
	kl = vf_choose("keysize", 2);
	for (b = -1; b < (kl ? 256 : 128); b++) {
		struct crypto_aes_key * K;
		memset(k, 0, 32); if (b >= 0) k[b / 8] = (uint8_t)(1 << (b % 8));
		K = crypto_aes_key_expand(k, kl ? 32 : 16); if (!K) vf_fail("expand", "key expansion failed");
		for (i = -1; i < 128; i++) {
			memset(in, 0, 16); if (i >= 0) in[i / 8] = (uint8_t)(1 << (i % 8));
			ref_aesblock(k, kl ? 32 : 16, in, w);
			memset(o, 0x33, 48); crypto_aes_encrypt_block(in, o + 16, K);
			vf_eval();
			VF_CHECK(!memcmp(o + 16, w, 16), "block", "%s: wrong block, key bit %d, input bit %d", NAME, b, i);
			VF_CHECK(o[15] == 0x33 && o[32] == 0x33, "bounds", "wrote outside the block");
			crypto_aes_encrypt_block(in, in, K);
			VF_CHECK(!memcmp(in, w, 16), "block", "%s: wrong block in place", NAME);
			vf_seen(vf_hash2((uint64_t)(b + 1), (uint64_t)((i + 1) * 4 + kl * 2 + soft)));
		}
		crypto_aes_key_free(K);
	}
	vf_outcome(vf_trace_hash());
}
/* one call longer than 2^32 bytes */
static void __attribute__((unused))
big(void)
{
	size_t n = (1ul << 32) + 100, i; uint8_t * p, w[4096]; struct crypto_aesctr * s; int off;
	impl(); expand();
	off = vf_choose("offset", 2) * 5;
	if (soft && (!vf_tier || off)) return;
	p = mmap(NULL, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) vf_internal("mmap");
	s = crypto_aesctr_init(ek[0][1], 3);
	memset(w, 0, 4096);
	crypto_aesctr_stream(s, w, w, (size_t)off);
	crypto_aesctr_stream(s, p, p, n);
	for (i = 0; i < n; ) {
		size_t l = n - i < 4096 ? n - i : 4096;
		memset(w, 0, 4096); ref_aesctr(key[0], 32, 3, i + (size_t)off, w, w, l);
		vf_note("%s: one call of %zu bytes, compared at %zu", NAME, n, i);
		VF_CHECK(!memcmp(p + i, w, l), "keystream", "%s: a call of %zu bytes is wrong near %zu", NAME, n, i);
		vf_eval();
		/* the ends, every 2^24 boundary */
		i += i < 65536 || i + 65536 > n ? l : i % (1 << 24) == 0 ? 4096 : (1 << 24) - i % (1 << 24);
	}
	memset(w, 0, 100); crypto_aesctr_stream(s, w, w, 50);
	{ uint8_t x[50]; memset(x, 0, 50); ref_aesctr(key[0], 32, 3, n + (size_t)off, x, x, 50); VF_CHECK(!memcmp(x, w, 50), "keystream", "%s: wrong after a call of %zu bytes", NAME, n); }
	crypto_aesctr_free(s);
	munmap(p, n + 4096);
	vf_seen(vf_trace_hash()); vf_outcome(vf_trace_hash());
}
/* the carry out of the low 32 bits of the counter, 64 GiB into the stream:
 * reached in calls of 4 MiB, or in two calls of 32 GiB each */
#define ALIAS ((size_t)4 << 20)
static void __attribute__((unused))
carry32(void)
{
	static uint8_t buf[1 << 22]; struct st s; uint64_t target = (uint64_t)16 << 32; int d, way, fd, i; size_t G = ((size_t)1 << 35) + ALIAS, o; uint8_t * p, w[4096]; static uint8_t * chk[12]; uint64_t at; size_t l;
	impl(); expand();
	d = vf_choose("distance", vf_tier ? 3 : 2) * 9; way = vf_choose("way", 2);
	if (soft || (!vf_tier && !d != way)) return;
	s.k = 0; s.klen = 16; s.nonce = 8; s.pos = 0; s.s = crypto_aesctr_init(ek[0][0], 8);
	if (way == 0) while (s.pos < target - (uint64_t)d) { l = sizeof(buf); if (target - (uint64_t)d - s.pos < l) l = (size_t)(target - (uint64_t)d - s.pos); crypto_aesctr_stream(s.s, buf, buf, l); s.pos += l; }
	else {
		/* 32 GiB of address space over 4 MiB of memory, but for a few pages which are looked at */
		fd = memfd_create("alias", 0); if (fd < 0 || ftruncate(fd, (off_t)ALIAS)) vf_internal("memfd");
		p = mmap(NULL, G, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) vf_internal("mmap");
		for (o = 0; o < G; o += ALIAS) if (mmap(p + o, ALIAS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) vf_internal("mmap");
		for (i = 0; i < 12; i++) {
			chk[i] = p + (i == 0 ? 0 : i == 1 ? (size_t)1 << 31 : i == 2 ? (size_t)1 << 32 : i == 3 ? ((size_t)1 << 35) - 4096 : i == 4 ? (size_t)1 << 35 : (size_t)i * 0x70203000u);
			if (mmap(chk[i], 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) vf_internal("mmap");
		}
		while (s.pos < target - (uint64_t)d) {
			l = ((size_t)1 << 35) + 1600; if (target - (uint64_t)d - s.pos < l) l = (size_t)(target - (uint64_t)d - s.pos);
			for (i = 0; i < 12; i++) memset(chk[i], 0, 4096);
			vf_note("%s: one call of %zu bytes at position %ju", NAME, l, (uintmax_t)s.pos);
			crypto_aesctr_stream(s.s, p, p, l); vf_eval();
			for (i = 0; i < 12; i++) {
				size_t m = (size_t)(chk[i] - p) + 4096 <= l ? 4096 : (size_t)(chk[i] - p) < l ? l - (size_t)(chk[i] - p) : 0;
				memset(w, 0, 4096); at = s.pos + (uint64_t)(chk[i] - p); ref_aesctr(key[0], 16, 8, at, w, w, m);
				VF_CHECK(!memcmp(w, chk[i], 4096), "keystream", "%s: a call of %zu bytes is wrong near its byte %zu", NAME, l, (size_t)(chk[i] - p));
			}
			s.pos += l;
		}
		munmap(p, G); close(fd);
	}
	vf_note("%s: position %ju", NAME, (uintmax_t)s.pos);
	run(&s, 7, 0, 0, 0); run(&s, 16, 0, 0, 0); run(&s, 40, 1, 0, 0); run(&s, 15, 0, 0, 0);
	crypto_aesctr_free(s.s);
	vf_seen(vf_trace_hash()); vf_outcome(vf_trace_hash());
}
static const struct vf_scn SC[] = {
	{ "splits", splits, 1, { 0, 0 }, 120, 0 }, { "aligns", aligns, 1, { 0, 0 }, 120, 0 }, { "carries", carries, 1, { 0, 0 }, 300, 0 },
#ifndef VF_ALT
	{ HIST0, hist0, 0, { 0, 0 }, 0, 0 },
#endif
#ifndef VF_ARM
	{ "hist_openssl", hist1, 0, { 0, 0 }, 0, 0 },
#endif
	{ "blocks", blocks, 1, { 0, 0 }, 0, 0 }, 
#ifndef VF_ARM
	{ "big", big, 1, { 0, 0 }, 300, 0 }, { "carry32", carry32, 1, { 0, 0 }, 600, 0 },
#endif
	 { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#endif
int main(int argc, char ** argv) { return (vf_main(argc, argv, SC)); }
