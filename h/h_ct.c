/*
 * C26: what is executed and which memory is accessed does not depend on secrets.
 *
 * /repo is compiled with coverage instrumentation; the callbacks below record
 * every control-flow edge and the address of every load and store.  The same
 * operation is run from the same state (a fork) for every secret of a set.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <string.h>
#include "vf.h"
#include "ref.h"
#include "env_cpu.h"
#include "env_codec.h"
#include "sha256.h"
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_verify_bytes.h"
#include "insecure_memzero.h"

/* ---- recording ---- */
#define LOGMAX (1 << 21)
struct res { uint64_t h, n; int64_t rc; uint64_t outh; };
struct log { struct res r; struct { uint64_t k, a; } e[LOGMAX]; };
static struct log * lg[2];		/* shared */
static int rec; static uint64_t th, tn; static struct log * tolog;
static char * vlo[8], * vhi[8]; static int nv;
static inline void
ev(uint64_t k, uint64_t a)
{
	th = (th ^ a) * 0x9E3779B97F4A7C15ull; th = (th ^ k ^ (th >> 29)) * 0xBF58476D1CE4E5B9ull;
	if (tolog && tn < LOGMAX) { tolog->e[tn].k = k; tolog->e[tn].a = a; }
	tn++;
}
static inline void
mem(uint64_t k, const void * p, uint64_t pc)
{
	int i;
	/* which part of the scrypt table is used depends on the passphrase by design */
	for (i = 0; i < nv; i++) if ((const char *)p >= vlo[i] && (const char *)p < vhi[i]) { ev(k, (uint64_t)i); return; }
	ev(k ^ (pc << 8), (uint64_t)(uintptr_t)p);
}
#define PC ((uint64_t)(uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_pc(void); void __sanitizer_cov_trace_pc(void) { if (rec) ev(0, PC); }
void __sanitizer_cov_trace_pc_indir(uintptr_t); void __sanitizer_cov_trace_pc_indir(uintptr_t c) { if (rec) ev(0x77, (uint64_t)c); }
#define LS(n) void __sanitizer_cov_load##n(void * p); void __sanitizer_cov_load##n(void * p) { if (rec) mem(n, p, PC); } \
	void __sanitizer_cov_store##n(void * p); void __sanitizer_cov_store##n(void * p) { if (rec) mem(n + 32, p, PC); }
LS(1) LS(2) LS(4) LS(8) LS(16)
/* library calls: their arguments, and for comparisons how far they go */
void * __real_memcpy(void *, const void *, size_t); void * __wrap_memcpy(void *, const void *, size_t);
void * __real_memset(void *, int, size_t); void * __wrap_memset(void *, int, size_t);
void * __real_memmove(void *, const void *, size_t); void * __wrap_memmove(void *, const void *, size_t);
int __wrap_memcmp(const void *, const void *, size_t); int __wrap_bcmp(const void *, const void *, size_t); int __wrap_strcmp(const char *, const char *); int __wrap_strncmp(const char *, const char *, size_t);
int __wrap_CRYPTO_memcmp(const void *, const void *, size_t);
void * __wrap_memcpy(void * d, const void * s, size_t n) { if (rec) { mem(64, d, PC); mem(65, s, PC); ev(66, n); } return (__real_memcpy(d, s, n)); }
void * __wrap_memmove(void * d, const void * s, size_t n) { if (rec) { mem(67, d, PC); mem(68, s, PC); ev(69, n); } return (__real_memmove(d, s, n)); }
void * __wrap_memset(void * d, int c, size_t n) { if (rec) { mem(70, d, PC); ev(71, n); } return (__real_memset(d, c, n)); }
static int
cmp(const void * a, const void * b, size_t n, int str, uint64_t pc)
{
	const uint8_t * x = a, * y = b; size_t i; int r = 0;
	for (i = 0; i < n; i++) { r = x[i] - y[i]; if (r || (str && !x[i])) break; }
	if (rec) { mem(72, a, pc); mem(73, b, pc); ev(74, i); }
	return (r);
}
int __wrap_memcmp(const void * a, const void * b, size_t n) { return (cmp(a, b, n, 0, PC)); }
int __wrap_bcmp(const void * a, const void * b, size_t n) { return (cmp(a, b, n, 0, PC)); }
int __wrap_strcmp(const char * a, const char * b) { return (cmp(a, b, SIZE_MAX, 1, PC)); }
int __wrap_strncmp(const char * a, const char * b, size_t n) { return (cmp(a, b, n, 1, PC)); }
/* OpenSSL's comparison in constant time */
int __wrap_CRYPTO_memcmp(const void * a, const void * b, size_t n) { const uint8_t * x = a, * y = b; size_t i; int r = 0; if (rec) { mem(75, a, PC); mem(76, b, PC); ev(77, n); } for (i = 0; i < n; i++) r |= x[i] ^ y[i]; return (r); }
void * __real_mmap(void *, size_t, int, int, int, off_t); void * __wrap_mmap(void *, size_t, int, int, int, off_t);
void * __wrap_mmap(void * a, size_t n, int p, int f, int fd, off_t o)
{
	void * r = __real_mmap(a, n, p, f, fd, o);
	if (rec && r != MAP_FAILED) { if (nv == 8) vf_internal("mappings"); vlo[nv] = r; vhi[nv++] = (char *)r + n; }
	return (r);
}

/* ---- comparing secrets ---- */
static uint8_t key[4096], msg[1 << 17], file[1 << 17], outb[1 << 17]; static size_t klen, mlen, flen;
static int64_t (*op)(void);
static void
child(struct log * l, int logging)
{
	th = tn = 0; tolog = logging ? l : NULL; nv = 0;
	rec = 1; l->r.rc = op(); rec = 0;
	l->r.h = th; l->r.n = tn;
}
static void
run(struct log * l, int logging)
{
	pid_t p = vf_fork(); int st;
	if (p == -1) vf_internal("fork");
	if (p == 0) { child(l, logging); _exit(0); }
	if (waitpid(p, &st, 0) != p || !WIFEXITED(st) || WEXITSTATUS(st)) vf_fail("crash", "the operation crashed (status %d)", st);
}
static const char *
where(uint64_t k, uint64_t a)
{
	static char b[2][128]; static int w; Dl_info d; uint64_t pc = k ? k >> 8 : a;
	w ^= 1;
	if (dladdr((void *)(uintptr_t)pc, &d) && d.dli_sname) snprintf(b[w], 128, "%s+%#zx", d.dli_sname, (size_t)((char *)(uintptr_t)pc - (char *)d.dli_saddr));
	else snprintf(b[w], 128, "%#jx", (uintmax_t)pc);
	return (b[w]);
}
static uint8_t base_key[4096], base_msg[1 << 17], base_file[1 << 17];
static struct res first; static int have;
static char fnote[200];
/* Run with the secrets as they are now; compare with the first ones. */
static void
trial(const char * what, int i)
{
	char nb[200];
	snprintf(nb, sizeof(nb), "%s %d", what, i);
	vf_note("%s", nb);
	run(lg[1], 0);
	vf_eval();
	if (!have) { have = 1; first = lg[1]->r; memcpy(base_key, key, sizeof(key)); memcpy(base_msg, msg, sizeof(msg)); memcpy(base_file, file, sizeof(file)); strcpy(fnote, nb);
		if (first.n == 0) vf_internal("nothing recorded"); vf_outcome(first.n); vf_state(vf_hash2(vf_trace_hash(), first.h)); return; }
	vf_trans(vf_hash2(vf_trace_hash(), vf_hash2(vf_hstr(what), (uint64_t)i)));
	vf_seen(vf_hash2(vf_trace_hash(), vf_hash2(vf_hstr(what), (uint64_t)i)));
	if (lg[1]->r.h == first.h && lg[1]->r.n == first.n) return;
	{
		uint64_t j, n; static uint8_t t[1 << 17];
		run(lg[1], 1);
#define SWAPIN(x, bx) memcpy(t, x, sizeof(x)); memcpy(x, bx, sizeof(x)); memcpy(bx, t, sizeof(x))
		SWAPIN(key, base_key); SWAPIN(msg, base_msg); SWAPIN(file, base_file);
		run(lg[0], 1);
		n = lg[0]->r.n < lg[1]->r.n ? lg[0]->r.n : lg[1]->r.n; if (n > LOGMAX) n = LOGMAX;
		for (j = 0; j < n && lg[0]->e[j].k == lg[1]->e[j].k && lg[0]->e[j].a == lg[1]->e[j].a; j++) ;
		if (lg[0]->r.h == lg[1]->r.h && lg[0]->r.n == lg[1]->r.n) {
			/* only where the harness's own memory lies has changed since the first run */
			first = lg[0]->r;
			SWAPIN(key, base_key); SWAPIN(msg, base_msg); SWAPIN(file, base_file);
			return;
		}
		if (j == n) vf_fail("length", "%s and %s: %ju and %ju steps", fnote, nb, (uintmax_t)lg[0]->r.n, (uintmax_t)lg[1]->r.n);
		vf_fail("trace", "%s and %s: what is executed differs from step %ju on: %s %s %#jx, or %s %s %#jx", fnote, nb, (uintmax_t)j,
		    lg[0]->e[j].k ? "access at" : "goes to", where(lg[0]->e[j].k, lg[0]->e[j].a), (uintmax_t)lg[0]->e[j].a, lg[1]->e[j].k ? "access at" : "goes to", where(lg[1]->e[j].k, lg[1]->e[j].a), (uintmax_t)lg[1]->e[j].a);
	}
}
static void
reset(void)
{
	int i;
	if (!lg[0]) for (i = 0; i < 2; i++) { lg[i] = __real_mmap(NULL, sizeof(struct log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (lg[i] == MAP_FAILED) vf_internal("mmap"); }
	have = 0;
}
/* Every value of a secret: patterns, and every single bit. */
static void
secrets(uint8_t * p, size_t n, const char * name, int bitstep)
{
	static uint8_t save[4096]; size_t i; static const uint8_t pat[] = { 0, 0xff, 0x80, 1, 0x7f, 0xaa };
	if (n > sizeof(save)) vf_internal("size");
	trial("initial", 0);
	memcpy(save, p, n);
	for (i = 0; i < sizeof(pat); i++) { memset(p, pat[i], n); trial(name, -1 - (int)i); }
	for (i = 0; i < n; i++) p[i] = (uint8_t)i;
	trial(name, -10);
	memcpy(p, save, n);
	for (i = 0; i < 8 * n; i += (size_t)bitstep) { p[i / 8] ^= (uint8_t)(1 << i % 8); trial(name, (int)i); p[i / 8] ^= (uint8_t)(1 << i % 8); }
}

/* ---- comparison ---- */
static size_t vn; static int voff;
static int64_t op_verify(void) { return (crypto_verify_bytes(key + voff, msg, vn) != 0); }
static void
verify(void)
{
	size_t n; int i; unsigned b;
	reset();
	n = (size_t)vf_choose("length", 65); voff = vf_choose("offset", 4); vn = n; op = op_verify;
	fill(key, sizeof(key), 5); memcpy(msg, key + voff, n);
	trial("equal", 0);
	VF_CHECK(lg[1]->r.rc == 0, "equal", "equal strings of %zu bytes compare as different", n);
	for (i = 0; i < (int)(8 * n); i++) { msg[i / 8] ^= (uint8_t)(1 << i % 8); trial("bit", i); VF_CHECK(lg[1]->r.rc == 1, "differ", "a difference in bit %d of %zu bytes is not seen", i, n); msg[i / 8] ^= (uint8_t)(1 << i % 8); }
	for (i = 0; i < (int)n; i++) { /* all differ from here on */ memcpy(msg, key + voff, n); for (b = (unsigned)i; b < n; b++) msg[b] ^= 0xff; trial("different from", i); VF_CHECK(lg[1]->r.rc == 1, "differ", "a difference is not seen"); }
	/* differences which cancel out when added or xored */
	for (i = 0; i + 1 < (int)n; i++) { memcpy(msg, key + voff, n); msg[i] ^= 0x55; msg[n - 1] ^= 0x55; trial("twice", i); VF_CHECK(lg[1]->r.rc == 1, "differ", "two equal differences are not seen"); }
	for (i = 0; i + 1 < (int)n; i++) { memcpy(msg, key + voff, n); msg[i]++; msg[i + 1]--; trial("plus minus", i); VF_CHECK(lg[1]->r.rc == 1, "differ", "two opposite differences are not seen"); }
	if (n == 32 && voff == 0) vf_sample("comparing 32 bytes: the same %ju steps for equality and every single-bit difference", (uintmax_t)first.n);
}
/* ---- hashing ---- */
static int hop;
static int64_t
op_hash(void)
{
	uint8_t h[64]; SHA256_CTX c; HMAC_SHA256_CTX hc;
	switch (hop) {
	case 0: SHA256_Buf(key, klen, h); break;
	case 1: SHA256_Init(&c); SHA256_Update(&c, key, klen); SHA256_Update(&c, msg, mlen); SHA256_Final(h, &c); break;
	case 2: HMAC_SHA256_Buf(key, klen, msg, mlen, h); break;
	case 3: HMAC_SHA256_Init(&hc, key, klen); HMAC_SHA256_Update(&hc, msg, mlen / 2); HMAC_SHA256_Update(&hc, msg + mlen / 2, mlen - mlen / 2); HMAC_SHA256_Final(h, &hc); break;
	case 4: PBKDF2_SHA256(key, klen, msg, mlen, 1, outb, 64); break;
	case 5: PBKDF2_SHA256(key, klen, msg, mlen, 3, outb, 40); break;
	}
	return (0);
}
static void
hash(void)
{
	static const size_t ks[] = { 0, 1, 8, 31, 32, 33, 55, 56, 64, 65, 100, 200 }, ms[] = { 0, 1, 32, 56, 96, 200 };
	int k, m;
	reset();
	k = vf_choose("implementation", 3); feat_sha(k); hop = vf_choose("operation", 6);
	klen = ks[vf_choose("key", NELEM(ks))];
	fill(key, sizeof(key), 9); fill(msg, sizeof(msg), 10); mlen = 5; op = op_hash; op_hash();
	for (m = 0; m < (hop == 0 ? 1 : NELEM(ms)); m++) {
		have = 0; mlen = ms[m];
		secrets(key, klen, "key bit", vf_tier || (m == 2 && klen <= 65) ? 1 : 13);
		secrets(msg, mlen, "message bit", vf_tier ? 1 : 29);
	}
	if (k == 0 && hop == 2 && klen == 32) vf_sample("%s HMAC: the same steps and addresses for every single-bit change of key and message", sha_name[k]);
}
/* ---- AES-CTR ---- */
static int64_t
op_aes(void)
{
	struct crypto_aes_key * k; struct crypto_aesctr * s;
	if (!(k = crypto_aes_key_expand(key, klen))) return (-1);
	if (!(s = crypto_aesctr_init(k, 0))) return (-1);
	crypto_aesctr_stream(s, msg, outb, mlen / 3); crypto_aesctr_stream(s, msg + mlen / 3, outb + mlen / 3, mlen - mlen / 3);
	crypto_aesctr_free(s); crypto_aes_key_free(k);
	return (0);
}
static void
aes(void)
{
	static const size_t ms[] = { 0, 1, 16, 47, 100, 600 }; int soft;
	reset();
	soft = vf_choose("implementation", 2); feat = soft ? 31 & ~F_AESNI : 31;
	klen = vf_choose("key size", 2) ? 32 : 16; mlen = ms[vf_choose("message", NELEM(ms))];
	fill(key, sizeof(key), 9); fill(msg, sizeof(msg), 10); op = op_aes; op_aes();
	secrets(key, klen, "key bit", 1); secrets(msg, mlen, "message bit", mlen > 50 && !vf_tier ? 17 : 1);
}
/* ---- the key derivation (the table of the second loop excepted) ---- */
static uint64_t kN; static uint32_t kr, kp;
static int64_t op_kdf(void) { return (__real_crypto_scrypt(key, klen, msg, mlen, kN, kr, kp, outb, 64)); }
static void
kdf(void)
{
	static const struct { uint64_t N; uint32_t r, p; } T[] = { { 2, 1, 1 }, { 16, 1, 1 }, { 4, 8, 2 }, { 64, 2, 1 }, { 2, 3, 4 } };
	static const int f[] = { 31, 31 & ~F_SHANI, 31 & ~F_SSE2, F_AESNI | F_RDRAND }; static const size_t ks[] = { 0, 8, 64, 70 }; int t;
	reset();
	feat = f[vf_choose("implementation", 4)]; t = vf_choose("parameters", NELEM(T)); klen = ks[vf_choose("passphrase", NELEM(ks))];
	kN = T[t].N; kr = T[t].r; kp = T[t].p; mlen = 32;
	fill(key, sizeof(key), 9); fill(msg, sizeof(msg), 10); op = op_kdf; op_kdf();
	secrets(key, klen, "passphrase bit", vf_tier || t == 0 ? 1 : 7);
	if (klen == 8 && t == 1) vf_sample("scrypt N=16 r=1 p=1: %ju steps, the same for every single-bit change of the passphrase", (uintmax_t)first.n);
}
/* ---- decryption and encryption ---- */
static int dway; static uint64_t fpos;
static int64_t
op_dec(void)
{
	struct scryptenc_params P = { .maxmem = 0, .maxmemfrac = 0.5, .maxtime = 300 }; size_t n; int rc; FILE * in, * out;
	if (dway == 0) return (scryptdec_buf(file, flen, outb, &n, key, klen, &P, 0, 1));
	{ struct vin vi; struct vout vo; int r = rec;
	rec = 0; vin_init(&vi, file, flen); vout_init(&vo); in = vin_open(&vi, -1); out = vout_open(&vo, -1); rec = r;
	rc = scryptdec_file(in, out, key, klen, &P, 0, 1);
	rec = 0; fclose(in); fclose(out); vout_free(&vo); rec = r; }
	return (rc);
}
static int64_t
op_enc(void)
{
	struct scryptenc_params P = { .maxmem = 0, .maxmemfrac = 0.5, .maxtime = 300, .logN = 1, .r = 1, .p = 1 };
	if (dway == 0) return (scryptenc_buf(msg, mlen, file, key, klen, &P, 0, 1));
	{ struct vin vi; struct vout vo; int r = rec, rc; FILE * in, * out;
	rec = 0; vin_init(&vi, msg, mlen); vout_init(&vo); in = vin_open(&vi, -1); out = vout_open(&vo, -1); rec = r;
	rc = scryptenc_file(in, out, key, klen, &P, 0, 1);
	rec = 0; fclose(in); fclose(out); vout_free(&vo); rec = r; return (rc); }
}
static const size_t dl[] = { 0, 1, 32, 100, 1000 };
static void
flips(const char * what, size_t from, size_t n, int want)
{
	size_t i;
	have = 0;
	for (i = 0; i < 8 * n; i++) {
		file[from + i / 8] ^= (uint8_t)(1 << i % 8);
		trial(what, (int)i); VF_CHECK(lg[1]->r.rc == want, "rc", "%s: returned %jd, expected %d", what, (intmax_t)lg[1]->r.rc, want);
		file[from + i / 8] ^= (uint8_t)(1 << i % 8);
	}
	/* many differences */
	for (i = 0; i < n; i++) { size_t j; for (j = i; j < n; j++) file[from + j] ^= 0xA5; trial("differs from byte", (int)i); for (j = i; j < n; j++) file[from + j] ^= 0xA5; }
}
static void
dec(void)
{
	int k, d, i; uint8_t salt[32];
	reset();
	k = vf_choose("implementation", 2); feat = k ? F_RDRAND : 31; dway = vf_choose("interface", 2); d = vf_choose("data", NELEM(dl)); klen = 12;
	fill(key, sizeof(key), 9); fill(msg, sizeof(msg), 10); fill(salt, 32, 3);
	flen = ref_encrypt(file, msg, dl[d], key, klen, 1, 1, 1, salt);
	op = op_dec;
	VF_CHECK(op_dec() == 0, "rc", "a valid file is refused");
	/* which bit of the passphrase is wrong, or of the MAC which tells */
	for (i = 0; i < 8 * 12; i++) { key[i / 8] ^= (uint8_t)(1 << i % 8); trial("wrong passphrase", i); VF_CHECK(lg[1]->r.rc == SCRYPT_EPASS, "rc", "a wrong passphrase gives %jd", (intmax_t)lg[1]->r.rc); key[i / 8] ^= (uint8_t)(1 << i % 8); }
	flips("header MAC bit", 64, 32, SCRYPT_EPASS);
	flips("final MAC bit", flen - 32, 32, SCRYPT_EINVAL);
	if (dl[d]) { int n = (int)dl[d]; have = 0; for (i = 0; i < 8 * n; i += n > 32 ? 41 : 1) { file[96 + i / 8] ^= (uint8_t)(1 << i % 8); trial("ciphertext bit", i); VF_CHECK(lg[1]->r.rc == SCRYPT_EINVAL, "rc", "returned %jd", (intmax_t)lg[1]->r.rc); file[96 + i / 8] ^= (uint8_t)(1 << i % 8); } }
	/* other contents of the data */
	have = 0;
	for (i = 0; i < 6; i++) { memset(msg, i * 51, dl[d]); if (i == 5) fill(msg, dl[d], 77); flen = ref_encrypt(file, msg, dl[d], key, klen, 1, 1, 1, salt); trial("data", i); VF_CHECK(lg[1]->r.rc == 0, "rc", "a valid file is refused"); }
	if (dway == 0 && k == 0 && d == 3) vf_sample("decryption: the same steps whichever bit of passphrase, header MAC, ciphertext or final MAC is wrong");
}
static void
enc(void)
{
	int k;
	reset();
	k = vf_choose("implementation", 2); feat = k ? F_RDRAND : 31; dway = vf_choose("interface", 2); mlen = dl[vf_choose("data", NELEM(dl))]; klen = vf_choose("passphrase", 2) ? 12 : 70;
	fill(key, sizeof(key), 9); fill(msg, sizeof(msg), 10);
	env_saltmode = 1; env_saltbyte = 7; op = op_enc;
	VF_CHECK(op_enc() == 0, "rc", "encryption failed");
	secrets(key, klen, "passphrase bit", 1); secrets(msg, mlen, "data bit", mlen > 32 ? 53 : 1);
}
static const struct vf_scn SC[] = {
	{ "verify", verify, 1, { 0, 0 }, 120, 0 }, { "hash", hash, 1, { 0, 0 }, 300, 0 }, { "aes", aes, 1, { 0, 0 }, 300, 0 }, { "kdf", kdf, 1, { 0, 0 }, 300, 0 },
	{ "decryption", dec, 1, { 0, 0 }, 300, 0 }, { "encryption", enc, 1, { 0, 0 }, 300, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
int main(int argc, char ** argv) { return (vf_main(argc, argv, SC)); }
