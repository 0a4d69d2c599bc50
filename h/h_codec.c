/* C01 round trip, C02 format, C03 authenticity. */
#include "env_codec.h"
#include "crypto_verify_bytes.h"
#include <unistd.h>

/* ---------- alphabets ---------- */
static size_t lens_[800]; static int nlens;
static void
mklens(void)
{
	size_t i, j;
	static const size_t c[] = { 256, 512, 1024, 2048, 4096, 8192, 32768 };
	if (nlens) return;
	for (i = 0; i <= 200; i++) lens_[nlens++] = i;
	for (j = 0; j < 7; j++) for (i = 0; i < 5; i++) lens_[nlens++] = c[j] + (size_t)((long[]){ -1, 0, 1, -32, 32 })[i];
	for (i = 0; i <= 72; i++) lens_[nlens++] = 65536 - 36 + i;
	for (i = 0; i <= 72; i++) lens_[nlens++] = 131072 - 36 + i;
	for (i = 0; i < 9; i++) lens_[nlens++] = 196608 - 4 + i;
	lens_[nlens++] = 1 << 20; lens_[nlens++] = (1 << 20) + 1; lens_[nlens++] = (1 << 20) + 31; lens_[nlens++] = (1 << 20) - 32;
	lens_[nlens++] = (1 << 20) + 65536 + 17;
}
static uint8_t * data_; static size_t ndata = (2 << 20);
static void
mkdata(void)
{
	if (!data_) { data_ = malloc(ndata); fill(data_, ndata, 99); }
}
static const size_t pwlens[] = { 0, 1, 8, 55, 56, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 4096, 65535, 65536, 65600, 200000 };
static uint8_t pwbuf[200064];
static void
mkpw(void) { fill(pwbuf, sizeof(pwbuf), 4242); }

static void
check_rt(int ea, int da, size_t n, size_t pl, int logN, uint32_t r, uint32_t p, size_t ec, size_t dc, int force)
{
	struct scryptenc_params P = PARAMS(logN, r, p), Q = PARAMS(0, 0, 0);
	uint8_t * f, * o; size_t fn, on; int rc;

	vf_note("enc api %d chunk %zu, dec api %d chunk %zu, data %zu bytes, passphrase %zu bytes, logN %d r %u p %u force %d%s", ea, ec, da, dc, n, pl, logN, r, p, env_force(force), env_flags & 1 ? " verbose" : "");
	rc = enc_any(ea, data_, n, pwbuf, pl, force, ec, &f, &fn, &P);
	VF_CHECK(rc == 0, "enc-failed", "encryption failed with %d", rc);
	VF_CHECK(fn == n + 128, "enc-length", "encrypted length %zu for %zu bytes", fn, n);
	rc = dec_any(da, f, fn, pwbuf, pl, force, dc, &o, &on, &Q);
	VF_CHECK(rc == 0, "dec-failed", "decryption of own output failed with %d", rc);
	VF_CHECK(on == n, "dec-length", "decrypted %zu bytes, encrypted %zu", on, n);
	VF_CHECK(memcmp(o, data_, n) == 0, "dec-data", "decrypted data differs from the original");
	VF_CHECK(P.logN == Q.logN && P.r == Q.r && P.p == Q.p, "params-returned", "parameters returned by encryption (%d,%u,%u) and decryption (%d,%u,%u) differ", P.logN, P.r, P.p, Q.logN, Q.r, Q.p);
	free(f); free(o);
	vf_eval();
	vf_seen(vf_hash2(vf_hash2(n, pl), vf_hash2((uint64_t)(ea * 2 + da), vf_hash2(ec * 77 + dc, ((uint64_t)logN << 50) ^ ((uint64_t)r << 25) ^ p ^ ((uint64_t)(force + 2 * env_flags) << 60)))));
	vf_outcome(vf_hash2(n, pl));
}

/* every length, every pairing, streams delivered whole or in pieces */
static void
rt_len(void)
{
	static const size_t ch[] = { 0, 1, 31, 32, 33, 96, 4096, 65535, 65536, 65567 };
	int li, ea, da, ei, di;
	env_reset(); mklens(); mkdata(); mkpw();
	li = vf_choose("len", nlens);
	ea = vf_choose("encapi", 2);
	da = vf_choose("decapi", 3);
	for (ei = 1; ei < 4; ei++) { env_setflags(ei); check_rt(ea, da, lens_[li], 8, 1, 1, 1, 0, 0, 1); }
	env_setflags(0);
	for (ei = 0; ei < (ea ? NELEM(ch) : 1); ei++)
		for (di = 0; di < (da ? NELEM(ch) : 1); di++) {
			if (ch[ei] && ch[di] && ei != di && lens_[li] > 300 && !vf_tier) continue;
			if (lens_[li] > 70000 && (ch[ei] == 1 || ch[di] == 1) && !vf_tier) continue;
			check_rt(ea, da, lens_[li], 8, 1, 1, 1, ch[ei], ch[di], 1);
		}
	if (li == 150) vf_sample("length %zu, enc api %d, dec api %d, every stream chunk pair of {all,1,31,32,33,96,4096,65535,65536,65567}", lens_[li], ea, da);
}
/* every passphrase length x parameters x pairing */
static void
rt_params(void)
{
	static const uint32_t rs[] = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64 };
	static const uint32_t ps[] = { 1, 2, 3, 4, 5, 8, 9, 16, 17 };
	static const size_t dl[] = { 0, 1, 33, 1000 };
	int logN, ri, pi, k;
	env_reset(); mklens(); mkdata(); mkpw();
	logN = 1 + vf_choose("logN", vf_tier ? 15 : 12);
	ri = vf_choose("r", NELEM(rs));
	pi = vf_choose("p", NELEM(ps));
	if (((uint64_t)rs[ri] * ps[pi] << logN) > (vf_tier ? 1u << 20 : 1u << 15)) return;
	k = vf_choose("api", 4); env_setflags(vf_choose("flags", 4));
	check_rt(k & 1, k >> 1, dl[(logN + ri + pi) % 4], pwlens[(size_t)(ri * 3 + pi + logN) % NELEM(pwlens)], logN, rs[ri], ps[pi], 0, 0, 1);
	vf_sample("logN %d r %u p %u api pair %d", logN, rs[ri], ps[pi], k);
}
static void
rt_pass(void)
{
	int pi, k, di;
	static const size_t dl[] = { 0, 5, 65537 };
	env_reset(); mklens(); mkdata(); mkpw();
	pi = vf_choose("pwlen", 300 + NELEM(pwlens));
	k = vf_choose("api", 4);
	di = vf_choose("len", NELEM(dl)); env_setflags(vf_choose("flags", 4));
	check_rt(k & 1, k >> 1, dl[di], pi < 300 ? (size_t)pi : pwlens[pi - 300], 1, 1, 1, 0, 0, 1);
}
/* stubbed KDF: parameters of every size a file can carry, forced, and with limits out of reach */
static const uint32_t rp_[] = { 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 64, 127, 128, 129, 200, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 1000000, 0x00ffffff, 0x01000000, 0x01000001, 0x02000000, 0x10000000, 0x1fffffff, 0x20000000, 0x3ffffffe, 0x3fffffff };
static void
rt_header(void)
{
	int l, ri, pi, k, fl;
	env_reset(); mklens(); mkdata(); mkpw(); env_stub();
	l = 1 + vf_choose("logN", 63); ri = vf_choose("r", NELEM(rp_)); 
	for (pi = 0; pi < NELEM(rp_); pi++) {
		if ((uint64_t)rp_[ri] * rp_[pi] >= (1 << 30)) continue;
		for (k = 0; k < 6; k++) for (fl = 0; fl < 4; fl++) {
			if ((fl & 2) && (double)rp_[ri] * (double)((uint64_t)1 << l) > 1e15) continue;
			env_setflags(fl);
			check_rt(k & 1, k >> 1, 20, 8, l, rp_[ri], rp_[pi], 0, 0, 1);
		}
	}
	if (l == 17 && ri == 4) vf_sample("logN %d r %u, every p with r*p < 2^30, 6 pairs of interfaces, limits on and off", l, rp_[ri]);
}
/* automatic parameters, limits enforced, over small limits */
static void
rt_auto(void)
{
	static const size_t mem[] = { 1 << 20, (1 << 20) + 1, 2 << 20, 3 << 20, 8 << 20 };
	static const double ops[] = { 0, 100, 40000, 65536, 200000 };
	int k;
	env_reset(); mklens(); mkdata(); mkpw();
	env_memlimit = mem[vf_choose("mem", NELEM(mem))];
	env_opps = ops[vf_choose("opps", NELEM(ops))];
	k = vf_choose("api", 4);
	{
		/* decrypt with a generous time limit, as the command does */
		struct scryptenc_params P = PARAMS(0, 0, 0), Q = PARAMS(0, 0, 0);
		uint8_t * f, * o; size_t fn, on; int rc;
		Q.maxtime = 300.0;
		vf_note("automatic parameters: memory limit %zu speed %g api %d", env_memlimit, env_opps, k);
		rc = enc_any(k & 1, data_, 100, pwbuf, 8, 0, 0, &f, &fn, &P);
		VF_CHECK(rc == 0, "enc-failed", "encryption failed with %d", rc);
		rc = dec_any(k >> 1, f, fn, pwbuf, 8, 1, 0, &o, &on, &Q);
		VF_CHECK(rc == 0 && on == 100 && !memcmp(o, data_, 100), "dec-data", "round trip failed: %d", rc);
		VF_CHECK(P.logN == Q.logN && P.r == Q.r && P.p == Q.p, "params-returned", "returned parameters differ");
		VF_CHECK(P.logN == f[7], "params-returned", "returned logN not the header's");
		free(f); free(o);
		vf_seen(vf_trace_hash());
	}
}

/* all histories of operations in one process: no state leaks between calls */
#define NOPS 13
struct hist_st { struct scryptdec_file_cookie * C; FILE * fi; struct vin vi; int have; uint8_t * file; size_t n; size_t dl; uint8_t * pw; size_t pl; };
static void
rt_history(void)
{
	int depth = vf_tier ? 5 : 4, i, op, rc, d;
	static uint8_t A[140000], B[140000], T[140000];
	size_t an, bn, on; uint8_t * o, * f; size_t fn;
	uint8_t salt[32];
	struct hist_st H; memset(&H, 0, sizeof(H));
	static const size_t LA = 65536 + 5, LB = 40;
	char hist[200] = "";

	env_reset(); mklens(); mkdata(); mkpw();
	fill(salt, 32, 1);
	static int built;
	static size_t san, sbn;
	if (!built) {
		san = ref_encrypt(A, data_, LA, pwbuf, 10, 1, 1, 1, salt);
		fill(salt, 32, 2);
		sbn = ref_encrypt(B, data_ + 1000, LB, pwbuf + 50, 80, 2, 1, 2, salt);
		built = 1;
	}
	an = san; bn = sbn;
	for (i = 0; i < depth; i++) {
		struct scryptenc_params P = PARAMS(0, 0, 0), E = PARAMS(1, 2, 1);
		op = vf_choose("op", NOPS);
		snprintf(hist + strlen(hist), sizeof(hist) - strlen(hist), "%d ", op);
		vf_note("history of operations: %s", hist);
		switch (op) {
		case 0: case 1: case 2: case 3:	/* decrypt A or B, buf or file */
			rc = dec_any(op & 1, op < 2 ? A : B, op < 2 ? an : bn, op < 2 ? pwbuf : pwbuf + 50, op < 2 ? 10 : 80, 1, 0, &o, &on, &P);
			VF_CHECK(rc == 0 && on == (op < 2 ? LA : LB) && !memcmp(o, op < 2 ? data_ : data_ + 1000, on), "dec-data", "decryption after history [%s] wrong: rc %d", hist, rc);
			free(o);
			break;
		case 4: case 5:	/* wrong passphrase */
			rc = dec_any(op & 1, B, bn, pwbuf, 10, 1, 0, &o, &on, &P);
			VF_CHECK(rc == SCRYPT_EPASS, "rc", "wrong passphrase gave %d after [%s]", rc, hist);
			free(o);
			break;
		case 6: case 7:	/* corrupt trailer */
			memcpy(T, B, bn); T[bn - 1] ^= 1;
			rc = dec_any(op & 1, T, bn, pwbuf + 50, 80, 1, 0, &o, &on, &P);
			VF_CHECK(rc == SCRYPT_EINVAL, "rc", "corrupt trailer gave %d after [%s]", rc, hist);
			free(o);
			break;
		case 8: case 9:	/* encrypt, check against the reference */
			rc = enc_any(op & 1, data_ + 7, 77, pwbuf, 10, 1, 0, &f, &fn, &E);
			VF_CHECK(rc == 0 && fn == 77 + 128, "enc-failed", "encryption failed %d after [%s]", rc, hist);
			{
				static uint8_t X[300];
				ref_encrypt(X, data_ + 7, 77, pwbuf, 10, 1, 2, 1, f + 16);
				VF_CHECK(!memcmp(X, f, fn), "enc-data", "encryption wrong after [%s]", hist);
			}
			free(f);
			break;
		case 10:	/* open a pending decryption of A, or finish it */
		case 11:	/* same, of B */
			if (!H.have) {
				d = op - 10;
				H.dl = d ? LB : LA; H.have = 1 + d;
				vin_init(&H.vi, d ? B : A, d ? bn : an);
				H.fi = vin_open(&H.vi, -1);
				rc = scryptdec_file_prep(H.fi, d ? pwbuf + 50 : pwbuf, d ? 80 : 10, &P, 0, 1, &H.C);
				VF_CHECK(rc == 0, "rc", "prep failed %d after [%s]", rc, hist);
			} else {
				struct vout vo; FILE * fo;
				vout_init(&vo); fo = vout_open(&vo, 100);
				rc = scryptdec_file_copy(H.C, fo);
				fclose(fo);
				VF_CHECK(rc == 0 && vo.n == H.dl && !memcmp(vo.d, H.have == 1 ? data_ : data_ + 1000, H.dl), "dec-data", "pending decryption wrong after [%s]: rc %d", hist, rc);
				scryptdec_file_cookie_free(H.C); fclose(H.fi); vout_free(&vo);
				H.have = 0;
			}
			break;
		case 12:	/* abandon */
			if (H.have) { scryptdec_file_cookie_free(H.C); fclose(H.fi); H.have = 0; }
			scryptdec_file_cookie_free(NULL);
			break;
		}
		vf_eval();
		vf_seen(vf_trace_hash());
	}
	if (H.have) { scryptdec_file_cookie_free(H.C); fclose(H.fi); }
	vf_outcome(vf_hstr(hist));
	if (op == 11) vf_sample("history %s", hist);
}

/* streams past every counter size that is reachable: 600 MB */
struct bigsrc { uint64_t pos, n; };
static uint64_t bigpos, bigend, bigbad, bigout;
static uint8_t bigdk[64];
static uint8_t pat(uint64_t i) { return ((uint8_t)(i * 131 + (i >> 13))); }
static uint8_t patbuf[1 << 16];
static ssize_t bigread(void * c, char * b, size_t n)
{
	size_t i; (void)c;
	if (n > bigend - bigpos) n = bigend - bigpos;
	for (i = 0; i < n; i++) b[i] = (char)patbuf[(bigpos + i) & 65535] ^ (char)((bigpos + i) >> 16);
	bigpos += n;
	return ((ssize_t)n);
}
#include <pthread.h>
static ssize_t bigcheck(void * c, const char * b, size_t n)
{
	size_t i; (void)c;
	for (i = 0; i < n; i++) if (b[i] != ((char)patbuf[(bigout + i) & 65535] ^ (char)((bigout + i) >> 16))) { if (!bigbad) bigbad = bigout + i + 1; }
	bigout += n;
	return ((ssize_t)n);
}
static void * bigdec(void * a)
{
	static struct scryptenc_params P = PARAMS(0, 0, 0);
	cookie_io_functions_t io = { .write = bigcheck };
	FILE * o = fopencookie(NULL, "w", io);
	static int rc;
	setvbuf(o, NULL, _IOFBF, 65536);
	rc = scryptdec_file((FILE *)a, o, pwbuf, 8, &P, 0, 1);
	fclose(o);
	return (&rc);
}
static void
rt_big(void)
{
	int fd[2], rc; FILE * pr, * pw_, * in; pthread_t t; void * rv; uint64_t i;
	struct scryptenc_params P = PARAMS(1, 1, 1);
	cookie_io_functions_t io = { .read = bigread };
	(void)pat; (void)bigdk;
	env_reset(); mkpw();
	for (i = 0; i < 65536; i++) patbuf[i] = (uint8_t)(i * 131 + (i >> 7));
	bigend = ((vf_choose("size", 1) == 0) ? 600ULL << 20 : 0) + 12345; bigpos = bigout = bigbad = 0;
	if (vf_tier) bigend = (5ULL << 30) + 77;
	vf_note("one stream of %llu bytes", (unsigned long long)bigend);
	if (pipe(fd)) vf_internal("pipe");
	pr = fdopen(fd[0], "r"); pw_ = fdopen(fd[1], "w"); in = fopencookie(NULL, "r", io);
	if (pthread_create(&t, NULL, bigdec, pr)) vf_internal("thread");
	rc = scryptenc_file(in, pw_, pwbuf, 8, &P, 0, 1);
	fclose(pw_);
	pthread_join(t, &rv);
	fclose(pr); fclose(in);
	VF_CHECK(rc == 0, "enc-failed", "rc %d", rc);
	VF_CHECK(*(int *)rv == 0, "dec-failed", "decryption of own long stream failed: %d", *(int *)rv);
	VF_CHECK(bigout == bigend && !bigbad, "dec-data", "long stream: %llu of %llu bytes, first wrong at %llu", (unsigned long long)bigout, (unsigned long long)bigend, (unsigned long long)bigbad);
	vf_seen(bigend);
}

/* ---------------- C02 ---------------- */
static const uint8_t saltpat[] = { 0, 0xff, 0x80, 1 };
static void
fmt_cmp(int api, size_t n, size_t pl, int logN, uint32_t r, uint32_t p, int sp)
{
	struct scryptenc_params P = PARAMS(logN, r, p);
	uint8_t * f, * o, * X; size_t fn, on; int rc, a;

	if (sp >= 0) { env_saltmode = 1; env_saltbyte = saltpat[sp]; }
	vf_note("format: api %d, data %zu, passphrase %zu, logN %d r %u p %u salt %d flags %d", api, n, pl, logN, r, p, sp, env_flags);
	X = malloc(n + 128);
	rc = enc_any(api, data_, n, pwbuf, pl, 1, 0, &f, &fn, &P);
	VF_CHECK(rc == 0, "enc-failed", "encryption failed: %d", rc);
	VF_CHECK(fn == n + 128, "length", "length %zu", fn);
	ref_encrypt(X, data_, n, pwbuf, pl, logN, r, p, f + 16);
	if (memcmp(X, f, fn)) {
		size_t i;
		for (i = 0; X[i] == f[i]; i++) continue;
		vf_fail("format", "output differs from the format at offset %zu: %s, expected %s", i, hex(f + i, fn - i < 16 ? fn - i : 16), hex(X + i, fn - i < 16 ? fn - i : 16));
	}
	free(f);
	for (a = 0; a < 3; a++) {
		struct scryptenc_params Q = PARAMS(0, 0, 0);
		rc = dec_any(a, X, n + 128, pwbuf, pl, 1, 0, &o, &on, &Q);
		VF_CHECK(rc == 0, "interop", "file built by the reference is refused: %d (api %d)", rc, a);
		VF_CHECK(on == n && !memcmp(o, data_, n), "interop-data", "file built by the reference decrypts wrongly (api %d)", a);
		VF_CHECK(Q.logN == logN && Q.r == r && Q.p == p, "interop-params", "parameters returned (%d,%u,%u)", Q.logN, Q.r, Q.p);
		free(o);
		vf_eval();
	}
	free(X);
	vf_seen(vf_hash2(vf_hash2(n, pl), vf_hash2(((uint64_t)logN << 8) | (uint64_t)api, vf_hash2(r, p))));
	vf_outcome(vf_hash2(fn, (uint64_t)logN));
}
static void
fmt_len(void)
{
	int li, api;
	env_reset(); mklens(); mkdata(); mkpw();
	li = vf_choose("len", nlens); api = vf_choose("api", 2);
	{ int fl; for (fl = 0; fl < 4; fl++) { env_setflags(fl); fmt_cmp(api, lens_[li], 9, 1, 1, 1, -1); } env_setflags(0); }
	if (li == 100) vf_sample("data length %zu api %d compared byte for byte with the reference and decrypted by 3 interfaces", lens_[li], api);
}
static void
fmt_pass(void)
{
	int i, api;
	env_reset(); mklens(); mkdata(); mkpw();
	i = vf_choose("pwlen", 300 + NELEM(pwlens)); api = vf_choose("api", 2); env_setflags(vf_choose("flags", 4));
	fmt_cmp(api, 3, i < 300 ? (size_t)i : pwlens[i - 300], 1, 1, 1, i % 4);
}
/* real KDF over affordable parameters */
static void
fmt_params(void)
{
	static const uint32_t rs[] = { 1, 2, 3, 5, 8, 9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000 };
	static const uint32_t ps[] = { 1, 2, 3, 5, 8, 16, 17, 64, 255, 256, 257, 1000 };
	int l, ri, pi, api;
	env_reset(); mklens(); mkdata(); mkpw();
	l = 1 + vf_choose("logN", vf_tier ? 16 : 13);
	ri = vf_choose("r", NELEM(rs)); pi = vf_choose("p", NELEM(ps));
	if ((((uint64_t)rs[ri] * ps[pi]) << l) > (vf_tier ? 1u << 19 : 1u << 14)) return;
	api = vf_choose("api", 2);
	fmt_cmp(api, 20, 8, l, rs[ri], ps[pi], -1);
}
/* stubbed KDF: every header value */
static void
fmt_header(void)
{
	int l, ri, pi, api;
	env_reset(); mklens(); mkdata(); mkpw(); env_stub();
	l = 1 + vf_choose("logN", 63); ri = vf_choose("r", NELEM(rp_)); 
	for (pi = 0; pi < NELEM(rp_); pi++) {
		if ((uint64_t)rp_[ri] * rp_[pi] >= (1 << 30)) continue;
		for (api = 0; api < 2; api++)
			fmt_cmp(api, 20, 8, l, rp_[ri], rp_[pi], (l + ri) % 4);
	}
}


/*
 * Data beyond 4 GiB, where lengths and positions need more than 32 bits; each
 * interface and direction against the format, built or checked as a stream.
 */
#if !defined(__SANITIZE_ADDRESS__)
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <sys/mman.h>
static struct { uint64_t n, pos, bad; uint8_t head[96], dk[64], tail[32]; EVP_CIPHER_CTX * c; HMAC_CTX * h; int ready; } G;
static void
g_setup(const uint8_t * salt)
{
	uint8_t f[128]; static const uint8_t iv[16];
	ref_encrypt(f, f, 0, pwbuf, 8, 1, 1, 1, salt); memcpy(G.head, f, 96);
	if (ref_kdf(pwbuf, 8, salt, 32, 2, 1, 1, G.dk, 64)) vf_internal("reference");
	if (!(G.c = EVP_CIPHER_CTX_new()) || EVP_EncryptInit_ex(G.c, EVP_aes_256_ctr(), NULL, G.dk, iv) != 1 || !(G.h = HMAC_CTX_new()) || !HMAC_Init_ex(G.h, G.dk + 32, 32, EVP_sha256(), NULL)) vf_internal("OpenSSL");
	HMAC_Update(G.h, G.head, 96);
	G.ready = 1;
}
static void
g_plain(uint64_t off, uint8_t * b, size_t n)
{
	size_t i;
	for (i = 0; i < n; i++) b[i] = patbuf[(off + i) & 65535] ^ (uint8_t)((off + i) >> 16 & 15);	/* period 1 MiB */
}
/* the next n bytes of the file: compare, or produce */
static void
g_next(uint8_t * b, size_t n, int produce)
{
	static uint8_t p[65536], x[65536]; int l; unsigned hl = 32;
	while (n) {
		size_t k = n; const uint8_t * src;
		if (G.pos < 96) { if (k > 96 - G.pos) k = (size_t)(96 - G.pos); src = G.head + G.pos; }
		else if (G.pos < 96 + G.n) {
			if (k > 65536) k = 65536;
			if (k > 96 + G.n - G.pos) k = (size_t)(96 + G.n - G.pos);
			g_plain(G.pos - 96, p, k);
			if (EVP_EncryptUpdate(G.c, x, &l, p, (int)k) != 1 || l != (int)k) vf_internal("OpenSSL");
			HMAC_Update(G.h, x, k); src = x;
			if (G.pos + k == 96 + G.n) HMAC_Final(G.h, G.tail, &hl);
		} else if (G.pos < 128 + G.n) { if (k > 128 + G.n - G.pos) k = (size_t)(128 + G.n - G.pos); src = G.tail + (G.pos - 96 - G.n); }
		else { if (!G.bad) G.bad = G.pos + 1; return; }
		if (produce) memcpy(b, src, k); else if (memcmp(b, src, k) && !G.bad) G.bad = G.pos + 1;
		G.pos += k; b += k; n -= k;
	}
}
static uint8_t g_hold[96]; static size_t g_held;
static ssize_t
g_sink(void * c, const char * b, size_t n)
{
	size_t i = 0; (void)c;
	while (g_held < 96 && i < n) g_hold[g_held++] = (uint8_t)b[i++];
	if (g_held < 96) return ((ssize_t)n);
	if (!G.ready) { g_setup(g_hold + 16); g_next(g_hold, 96, 0); }
	if (i < n) g_next((uint8_t *)(uintptr_t)b + i, n - i, 0);
	return ((ssize_t)n);
}
static ssize_t
g_source(void * c, char * b, size_t n)
{
	(void)c;
	if (n > 128 + G.n - G.pos) n = (size_t)(128 + G.n - G.pos);
	g_next((uint8_t *)b, n, 1);
	return ((ssize_t)n);
}
static ssize_t
g_psource(void * c, char * b, size_t n)
{
	(void)c;
	if (n > bigend - bigpos) n = (size_t)(bigend - bigpos);
	g_plain(bigpos, (uint8_t *)b, n); bigpos += n;
	return ((ssize_t)n);
}
static ssize_t
g_psink(void * c, const char * b, size_t n)
{
	static uint8_t w[65536]; size_t i; (void)c;
	for (i = 0; i < n; ) { size_t k = n - i > 65536 ? 65536 : n - i; g_plain(bigout + i, w, k); if (memcmp(w, b + i, k) && !bigbad) bigbad = bigout + i + 1; i += k; }
	bigout += n;
	return ((ssize_t)n);
}
/* n bytes of address space showing the same 1 MiB over and over */
static uint8_t *
g_alias(size_t n, int pattern)
{
	int fd = memfd_create("alias", 0); size_t o; uint8_t * a, * m;
	if (fd < 0 || ftruncate(fd, 1 << 20) || (a = mmap(NULL, n + (2 << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)) == MAP_FAILED) vf_internal("alias");
	for (o = 0; o < n; o += 1 << 20) if (mmap(a + o, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) vf_internal("alias");
	m = a; if (pattern) g_plain(0, m, 1 << 20);
	close(fd);
	return (a);
}
static void
fmt_big(void)
{
	static const char * const what[] = { "encryption of a stream", "decryption of a stream", "encryption of a buffer", "decryption of a buffer" };
	int k = vf_choose("operation", 4), rc; uint64_t i; struct scryptenc_params P = PARAMS(k & 1 ? 0 : 1, k & 1 ? 0 : 1, k & 1 ? 0 : 1); FILE * fi, * fo; static const uint8_t salt[32] = { 7 };
	cookie_io_functions_t rd = { .read = k & 1 ? g_source : g_psource }, wr = { .write = k & 1 ? g_psink : g_sink };
	env_reset(); mkpw();
	for (i = 0; i < 65536; i++) patbuf[i] = (uint8_t)(i * 131 + (i >> 7));
	memset(&G, 0, sizeof(G)); g_held = 0;
	G.n = bigend = (4ULL << 30) + 12345; bigpos = bigout = bigbad = 0;
	if (vf_tier && k < 2) G.n = bigend = (9ULL << 30) + 77;
	vf_note("%s of %llu bytes", what[k], (unsigned long long)G.n);
	if (k & 1) g_setup(salt);
	if (k < 2) {
		fi = fopencookie(NULL, "r", rd); fo = fopencookie(NULL, "w", wr); setvbuf(fi, NULL, _IOFBF, 65536); setvbuf(fo, NULL, _IOFBF, 65536);
		rc = k ? scryptdec_file(fi, fo, pwbuf, 8, &P, 0, 1) : scryptenc_file(fi, fo, pwbuf, 8, &P, 0, 1);
		fclose(fi); if (fclose(fo)) vf_internal("fclose");
		VF_CHECK(rc == 0, "rc", "failed with %d", rc);
	} else {
		uint8_t * in, * out; size_t ol = 0; size_t big = (size_t)G.n + 128;
		/* this needs 4 GiB of real memory */
		if ((size_t)sysconf(_SC_AVPHYS_PAGES) < ((size_t)10 << 30) / 4096) { vf_sample("buffers of 4 GiB not tried: too little memory"); return; }
		uint8_t * real = mmap(NULL, big, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (real == MAP_FAILED) { vf_sample("buffers of 4 GiB not tried: no memory"); return; }
		if (k == 2) {
			in = g_alias((size_t)G.n, 1); out = real;
			rc = scryptenc_buf(in, (size_t)G.n, out, pwbuf, 8, &P, 0, 1);
			VF_CHECK(rc == 0, "rc", "failed with %d", rc);
			g_setup(out + 16); g_next(out, big, 0);
		} else {
			uint8_t * w; size_t tl = (size_t)(G.n & ((1 << 20) - 1));
			g_next(real, big, 1); out = g_alias(big, 0);
			rc = scryptdec_buf(real, big, out, &ol, pwbuf, 8, &P, 0, 1);
			VF_CHECK(rc == 0, "rc", "failed with %d", rc);
			VF_CHECK(ol == G.n, "length", "decrypted %zu bytes", ol);
			w = malloc(1 << 20); g_plain(0, w, 1 << 20); (void)tl;
			if (memcmp(out, w, 1 << 20)) bigbad = 1;
			bigout = G.n; free(w);
		}
	}
	if (k & 1) VF_CHECK(bigout == G.n && !bigbad, "data", "wrong data (%llu bytes, first wrong at %llu)", (unsigned long long)bigout, (unsigned long long)bigbad);
	else VF_CHECK(G.pos == G.n + 128 && !G.bad, "format", "differs from the format (%llu bytes, first wrong at %llu)", (unsigned long long)G.pos, (unsigned long long)G.bad);
	vf_eval(); vf_seen(vf_hash2(G.n, (uint64_t)k)); vf_outcome((uint64_t)k);
	vf_sample("%s of %llu bytes agrees with the format", what[k], (unsigned long long)G.n);
}
#endif
/* ---------------- C03 ---------------- */
static int
allowed(int faults, int rc, int api)
{
	(void)api;
	if (faults == 0) return (rc == SCRYPT_OK);
	/* of a file of another version nothing but its first 7 bytes means anything */
	if ((faults & RF_VERSION) && !(faults & RF_MAGIC)) return (rc == SCRYPT_EVERSION);
	if (rc == SCRYPT_EINVAL) return ((faults & ~(RF_VERSION | RF_PASS)) != 0);
	if (rc == SCRYPT_EPASS) return ((faults & RF_PASS) && !(faults & (RF_MAGIC | RF_VERSION | RF_SUM | RF_PARAM | RF_SHORT7)));
	return (0);
}
static void auth_case1(const uint8_t *, size_t, const uint8_t *, size_t, int);
static int allflags, intact;	/* intact: nothing but the passphrase is wrong */
static void
auth_case(const uint8_t * f, size_t n, const uint8_t * pw, size_t pl, int apimask)
{
	int fl;
	for (fl = 0; fl < (allflags ? 4 : 1); fl++) { env_setflags(fl); auth_case1(f, n, pw, pl, apimask); }
	env_setflags(0);
}
static void
auth_case1(const uint8_t * f, size_t n, const uint8_t * pw, size_t pl, int apimask)
{
	int faults = ref_faults(f, n, pw, pl), api, rc;
	uint8_t * o; size_t on;

	for (api = 0; api < 3; api++) {
		struct scryptenc_params Q = PARAMS(0, 0, 0);
		if (!(apimask & (1 << api))) continue;
		env_kdf_refused = 0;
		rc = dec_any(api, f, n, pw, pl, 1, 0, &o, &on, &Q);
		if (faults && rc == SCRYPT_OK)
			vf_fail("accepted", "modified input accepted (api %d, flags %d, faults %#x)", api, env_flags, faults);
		if (intact && faults && rc != SCRYPT_EPASS)
			vf_fail("code", "a wrong passphrase gave code %d (api %d, flags %d)", rc, api, env_flags);
		if (!allowed(faults, rc, api) && !(rc == SCRYPT_EKEY && env_kdf_refused) && !(rc == SCRYPT_ETOOBIG && (env_flags & 2) && n >= 8 && f[7] > 40))
			vf_fail("code", "input with faults %#x gave code %d (api %d)", faults, rc, api);
		free(o);
		vf_eval();
		vf_outcome((uint64_t)rc);
	}
	vf_seen(vf_hash2(vf_hash(f, n, 5), vf_hash(pw, pl, n + ((uint64_t)env_flags << 40))));
}
static size_t
mkfile(uint8_t * f, size_t n, size_t pl)
{
	uint8_t salt[32];
	fill(salt, 32, 77);
	mkdata(); mkpw();
	return (ref_encrypt(f, data_, n, pwbuf, pl, 1, 1, 1, salt));
}
/* every bit of every byte */
static void
auth_flip(void)
{
	static const size_t dl[] = { 0, 1, 15, 16, 17, 31, 32, 33, 64, 100, 500 };
	static uint8_t f[2000]; size_t n, i; int b;
	env_reset(); intact = 0; allflags = 1;
	n = mkfile(f, dl[vf_choose("len", NELEM(dl))], 8);
	i = (size_t)vf_choose("byte", (int)n);
	for (b = 1; b < 256; b++) {
		vf_note("file of %zu bytes, byte %zu xor %#x", n, i, b);
		f[i] ^= (uint8_t)b;
		auth_case(f, n, pwbuf, 8, 7);
		f[i] ^= (uint8_t)b;
	}
	if (i == 64) vf_sample("file of %zu bytes: all 255 changes of byte %zu, 3 interfaces", n, i);
}
/* long file: each byte of the window around block boundaries, strided elsewhere (all in thorough) */
static void
auth_flip_long(void)
{
	static uint8_t f[150000]; size_t n, i, k, blk; static const size_t dl[] = { 65536 - 32, 65536, 65536 + 33, 131072 + 7 };
	int li;
	env_reset(); intact = 0; allflags = 0;
	li = vf_choose("len", NELEM(dl));
	blk = (size_t)vf_choose("block", 64);
	n = mkfile(f, dl[li], 8);
	for (k = blk * (n / 64 + 1); k < (blk + 1) * (n / 64 + 1) && k < n; k++) {
		i = k;
		if (!vf_tier && i > 200 && i + 200 < n && !(i % 65536 < 140 || i % 65536 > 65536 - 40) && i % 97) continue;
		vf_note("file of %zu bytes, byte %zu flipped", n, i);
		f[i] ^= (uint8_t)(1 << (i % 8));
		auth_case(f, n, pwbuf, 8, i % 5 ? 2 : 3);
		f[i] ^= (uint8_t)(1 << (i % 8));
	}
}
/* every pair of bytes changed alike, or by opposite amounts, or swapped */
static void
auth_pair(void)
{
	static const size_t dl[] = { 0, 20 };
	static uint8_t f[400], g[400]; size_t n, i, j; int k;
	env_reset(); intact = 0; allflags = vf_tier;
	n = mkfile(f, dl[vf_choose("len", NELEM(dl))], 8);
	i = (size_t)vf_choose("i", (int)n - 1);
	for (j = i + 1; j < n; j++) for (k = 0; k < (vf_tier ? 12 : 6); k++) {
		memcpy(g, f, n);
		switch (k) {
		case 0: g[i] ^= 1; g[j] ^= 1; break;
		case 1: g[i] ^= 0x80; g[j] ^= 0x80; break;
		case 2: g[i] ^= 0xff; g[j] ^= 0xff; break;
		case 3: g[i]++; g[j]--; break;
		case 4: g[i]--; g[j]++; break;
		case 5: { uint8_t t = g[i]; g[i] = g[j]; g[j] = t; } break;
		default: g[i] ^= (uint8_t)(2 << (k - 6)); g[j] ^= (uint8_t)(2 << (k - 6)); break;
		}
		if (!memcmp(f, g, n)) continue;
		vf_note("file of %zu bytes, bytes %zu and %zu changed (kind %d)", n, i, j, k);
		auth_case(g, n, pwbuf, 8, 3);
	}
}
/* every truncation and many extensions, deletions, duplications, moves */
static void
auth_resize(void)
{
	static const size_t dl[] = { 0, 1, 16, 31, 32, 33, 48, 100, 65536 - 32, 65536, 65536 + 1 };
	static uint8_t f[140000], g[200000]; size_t n, i, k; int li, kind;
	env_reset(); intact = 0; allflags = 1;
	li = vf_choose("len", NELEM(dl));
	if (dl[li] > 1000) allflags = vf_tier;
	n = mkfile(f, dl[li], 8);
	kind = vf_choose("kind", 6);
	switch (kind) {
	case 0:	/* truncation */
		for (i = 0; i < n; i++) {
			if (n > 1000 && i > 300 && i + 300 < n && !(i % 65536 < 140 || i % 65536 > 65500) && i % 1009) continue;
			vf_note("file of %zu bytes truncated to %zu", n, i);
			auth_case(f, i, pwbuf, 8, 3);
		}
		break;
	case 1:	/* extension */
		for (i = 1; i <= 100; i++) for (k = 0; k < 4; k++) {
			memcpy(g, f, n);
			if (k == 0) memset(g + n, 0, i);
			else if (k == 1) memcpy(g + n, f + n - (i < n ? i : n), i < n ? i : n);
			else if (k == 2) memcpy(g + n, f, i);
			else fill(g + n, i, (uint32_t)i);
			vf_note("file of %zu bytes extended by %zu (kind %zu)", n, i, k);
			auth_case(g, n + i, pwbuf, 8, 3);
		}
		break;
	case 2:	/* delete a run */
		for (i = 0; i < n; i += (n > 1000 && i > 200 && i + 200 < n) ? 4099 : 1) for (k = 1; k <= 64; k = k < 4 ? k + 1 : k * 2) {
			if (i + k > n) continue;
			memcpy(g, f, i); memcpy(g + i, f + i + k, n - i - k);
			vf_note("file of %zu bytes, %zu bytes deleted at %zu", n, k, i);
			if (n - k == n || (n - k <= n && !memcmp(f, g, n - k) && 0)) continue;
			auth_case(g, n - k, pwbuf, 8, 3);
		}
		break;
	case 3:	/* duplicate a run */
		for (i = 0; i < n; i += (n > 1000 && i > 200 && i + 200 < n) ? 4099 : 1) for (k = 1; k <= 64; k = k < 4 ? k + 1 : k * 2) {
			if (i + k > n) continue;
			memcpy(g, f, i + k); memcpy(g + i + k, f + i, n - i);
			vf_note("file of %zu bytes, %zu bytes duplicated at %zu", n, k, i);
			auth_case(g, n + k, pwbuf, 8, 3);
		}
		break;
	case 4:	/* swap 16-byte blocks */
		for (i = 0; i + 16 <= n && i < 260; i++) for (k = i + 16; k + 16 <= n && k < 400; k += 4) {
			memcpy(g, f, n); memcpy(g + i, f + k, 16); memcpy(g + k, f + i, 16);
			if (!memcmp(g, f, n)) continue;
			vf_note("file of %zu bytes, 16-byte blocks %zu and %zu swapped", n, i, k);
			auth_case(g, n, pwbuf, 8, 3);
		}
		break;
	case 5:	/* zero a run / set it to ones / shift it */
		for (i = 0; i < n && i < 400; i++) for (k = 1; k <= 32; k *= 2) {
			if (i + k > n) continue;
			memcpy(g, f, n); memset(g + i, 0, k);
			vf_note("file of %zu bytes, %zu bytes zeroed at %zu", n, k, i);
			if (memcmp(g, f, n)) auth_case(g, n, pwbuf, 8, 3);
			memset(g + i, 0xff, k);
			if (memcmp(g, f, n)) auth_case(g, n, pwbuf, 8, 3);
		}
		if (n > 1000) for (i = n - 100; i < n; i++) { memcpy(g, f, n); memset(g + i, 0, n - i); vf_note("tail zeroed from %zu", i); auth_case(g, n, pwbuf, 8, 3); }
		break;
	}
	if (li == 3) vf_sample("data length %zu, structural edits of kind %d", dl[li], kind);
}
/* forged structures an attacker without the key could try, and recomputed checksums */
static void
auth_forge(void)
{
	static uint8_t f[400], g[400], h2[400], s2[32]; size_t n; int k, i; uint8_t dk[64], t[32]; size_t m;
	env_reset(); intact = 0; allflags = 1;
	n = mkfile(f, 40, 8);
	memcpy(g, f, n);
	k = vf_choose("kind", 22);
	fill(s2, 32, 5);
	m = ref_encrypt(h2, data_ + 100, 40, pwbuf, 8, 1, 1, 1, s2);
	ref_scrypt(pwbuf, 8, f + 16, 32, 2, 1, 1, dk, 64);
	vf_note("forgery kind %d", k);
	switch (k) {
	case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: {	/* header field changed, checksum recomputed */
		static const int off[] = { 7, 8, 11, 12, 15, 16, 47, 31 };
		for (i = 1; i < 256; i++) {
			memcpy(g, f, n); g[off[k]] = (uint8_t)i;
			if (g[off[k]] == f[off[k]]) continue;
			if (off[k] == 7 && i > 12 && i < 64) continue;	/* needs the memory */
			ref_fixsum(g);
			vf_note("header byte %d set to %d, checksum recomputed", off[k], i);
			auth_case(g, n, pwbuf, 8, 3);
		}
		break;
	}
	case 8: memcpy(g + 96, h2 + 96, 40); auth_case(g, n, pwbuf, 8, 7); break;	/* splice bodies */
	case 9: memcpy(g + 96, h2 + 96, m - 96); auth_case(g, n, pwbuf, 8, 7); break;
	case 10: memcpy(g, h2, 96); auth_case(g, n, pwbuf, 8, 7); break;
	case 11: memcpy(g + n - 32, h2 + m - 32, 32); auth_case(g, n, pwbuf, 8, 7); break;
	case 12: g[97] ^= 1; ref_hmac(dk, 32, g, n - 32, g + n - 32); auth_case(g, n, pwbuf, 8, 7); break;	/* MAC under the wrong key half */
	case 13: g[97] ^= 1; ref_sha256(g, n - 32, g + n - 32); auth_case(g, n, pwbuf, 8, 7); break;	/* unkeyed */
	case 14: ref_hmac(dk + 32, 32, g + 96, n - 128, g + n - 32); auth_case(g, n, pwbuf, 8, 7); break;	/* MAC over the body only */
	case 15: ref_aesctr(dk, 32, 0, 0, f + 96, h2, 40); memcpy(h2 + 200, f, 96); memcpy(h2 + 296, h2, 40); ref_hmac(dk + 32, 32, h2 + 200, 136, g + n - 32); auth_case(g, n, pwbuf, 8, 7); break;	/* MAC over plaintext */
	case 16: memcpy(g + 64, g + n - 32, 32); auth_case(g, n, pwbuf, 8, 7); break;
	case 17: memcpy(g + n - 32, g + 64, 32); auth_case(g, n, pwbuf, 8, 7); break;
	case 18: ref_hmac(dk + 32, 32, g, 48, t); memcpy(g + 64, t, 32); auth_case(g, n, pwbuf, 8, 7); break;
	case 20: case 21:	/* header MAC wrong, all the rest made right */
		for (i = 0; i < 256; i++) {
			memcpy(g, f, n); g[64 + i / 8] ^= (uint8_t)(k == 20 ? 1 << (i & 7) : i + 1 > 255 ? 255 : i + 1);
			ref_hmac(dk + 32, 32, g, n - 32, g + n - 32); auth_case(g, n, pwbuf, 8, 7);
		}
		break;
	case 19: memset(g + 64, 0, 32); memset(g + n - 32, 0, 32); auth_case(g, n, pwbuf, 8, 7); break;
	}
}
/* every near-miss passphrase (HMAC-equivalent ones excluded by the oracle) */
static void
auth_pass(void)
{
	static const size_t pls[] = { 0, 1, 2, 8, 31, 63, 64, 65, 100, 128, 200 };
	static uint8_t f[400], q[400]; size_t n, pl, i; int b, li, di;
	env_reset(); allflags = intact = 1;
	li = vf_choose("pwlen", NELEM(pls)); di = vf_choose("data", 2);
	pl = pls[li];
	n = mkfile(f, di ? 50 : 0, pl);
	memcpy(q, pwbuf, 400);
	for (i = 0; i < pl; i++) for (b = 0; b < 9; b++) {
		q[i] ^= (uint8_t)(b < 8 ? 1 << b : 0xff);
		vf_note("passphrase of %zu bytes, byte %zu changed", pl, i);
		auth_case(f, n, q, pl, 3);
		q[i] ^= (uint8_t)(b < 8 ? 1 << b : 0xff);
	}
	for (i = 0; i < 300; i++) {
		vf_note("passphrase of %zu bytes, prefix/extension of length %zu given", pl, i);
		auth_case(f, n, q, i, 3);
		if (i > 0 && i < 290) auth_case(f, n, q + 1, i, 3);
	}
	for (i = pl; i < 100; i++) {
		memcpy(q, pwbuf, pl); memset(q + pl, 0, 300);
		vf_note("passphrase of %zu bytes, padded with zeros to %zu", pl, i);
		auth_case(f, n, q, i, 3);
	}
	{ uint8_t hh[32]; ref_sha256(pwbuf, pl, hh); vf_note("hash of the passphrase given"); auth_case(f, n, hh, 32, 3); }
	if (li == 6) vf_sample("passphrase of %zu bytes: all single-bit changes, prefixes, extensions, zero paddings, its hash", pl);
}
/* version and magic */
static void
auth_magic(void)
{
	static uint8_t f[400]; size_t n, cut; int b, pos;
	env_reset(); intact = 0; allflags = 1;
	n = mkfile(f, 3, 8);
	pos = vf_choose("pos", 7); 
	for (b = 0; b < 256; b++) {
		uint8_t sv = f[pos];
		f[pos] = (uint8_t)b;
		for (cut = 0; cut <= n; cut += (cut < 9 || cut > 90) ? 1 : 9) {
			vf_note("byte %d = %d, length %zu", pos, b, cut);
			auth_case(f, cut, pwbuf, 8, 3);
		}
		f[pos] = sv;
	}
}
/* the comparison itself */
static void
auth_cmp(void)
{
	uint8_t * a, * b; size_t n, i, j; int k;
	n = (size_t)vf_choose("len", 65);
	a = galloc(n); b = galloc(n);
	fill(a, n, 3); memcpy(b, a, n);
	VF_CHECK(crypto_verify_bytes(a, b, n) == 0, "cmp", "equal %zu-byte strings compare different", n);
	for (i = 0; i < n; i++) for (k = 1; k < 256; k++) {
		b[i] ^= (uint8_t)k;
		vf_note("len %zu byte %zu xor %d", n, i, k);
		VF_CHECK(crypto_verify_bytes(a, b, n) != 0, "cmp", "difference at %zu of %zu (xor %d) not seen", i, n, k);
		for (j = i + 1; j < n; j++) {
			b[j] ^= (uint8_t)k;
			VF_CHECK(crypto_verify_bytes(a, b, n) != 0, "cmp", "equal differences at %zu,%zu of %zu not seen", i, j, n);
			b[j] ^= (uint8_t)k;
			b[j] = (uint8_t)(b[j] - k);
			VF_CHECK(crypto_verify_bytes(a, b, n) != 0, "cmp", "differences at %zu,%zu of %zu not seen", i, j, n);
			b[j] = (uint8_t)(b[j] + k);
			vf_eval();
		}
		b[i] ^= (uint8_t)k;
	}
	for (k = 0; k < 256; k++) { memset(b, k, n); memset(a, 255 - k, n); VF_CHECK(n == 0 || crypto_verify_bytes(a, b, n) != 0, "cmp", "all-different strings compare equal"); }
	gfree(a); gfree(b);
	vf_seen(n);
}
/* truncated or corrupt streams: what was emitted is a prefix of the plaintext up to the corruption */

static const struct vf_scn C01[] = {
	{ "rt_len", rt_len, 0, { 0, 0 }, 0, 0 },
	{ "rt_params", rt_params, 0, { 0, 0 }, 0, 0 },
	{ "rt_header", rt_header, 0, { 0, 0 }, 0, 0 },
	{ "rt_pass", rt_pass, 0, { 0, 0 }, 0, 0 },
	{ "rt_auto", rt_auto, 0, { 0, 0 }, 0, 0 },
	{ "rt_history", rt_history, 0, { 0, 0 }, 0, 0 },
#if !defined(__SANITIZE_ADDRESS__)
	{ "rt_big", rt_big, 1, { 0, 0 }, 400, 0 },
#endif
	{ NULL, NULL, 0, { 0, 0 }, 0, 0 } };
static const struct vf_scn C02[] = {
	{ "fmt_len", fmt_len, 0, { 0, 0 }, 0, 0 },
	{ "fmt_pass", fmt_pass, 0, { 0, 0 }, 0, 0 },
	{ "fmt_params", fmt_params, 0, { 0, 0 }, 0, 0 },
	{ "fmt_header", fmt_header, 0, { 0, 0 }, 0, 0 },
#if !defined(__SANITIZE_ADDRESS__)
	{ "fmt_big", fmt_big, 1, { 0, 0 }, 600, 0 },
#endif
	{ NULL, NULL, 0, { 0, 0 }, 0, 0 } };
static const struct vf_scn C03[] = {
	{ "auth_flip", auth_flip, 0, { 0, 0 }, 0, 0 },
	{ "auth_flip_long", auth_flip_long, 0, { 0, 0 }, 0, 0 },
	{ "auth_pair", auth_pair, 0, { 0, 0 }, 0, 0 },
	{ "auth_resize", auth_resize, 0, { 0, 0 }, 0, 0 },
	{ "auth_forge", auth_forge, 0, { 0, 0 }, 0, 0 },
	{ "auth_pass", auth_pass, 0, { 0, 0 }, 0, 0 },
	{ "auth_magic", auth_magic, 0, { 0, 0 }, 0, 0 },
	{ "auth_cmp", auth_cmp, 0, { 0, 0 }, 0, 0 },
	{ NULL, NULL, 0, { 0, 0 }, 0, 0 } };
int
main(int argc, char ** argv)
{
	return (vf_main(argc, argv, PROP == 1 ? C01 : PROP == 2 ? C02 : C03));
}
