/* C28: memory use is what the parameters say, and one derivation is done. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <unistd.h>
#include "env_codec.h"
#include "env_alloc.h"
#include "readpass.h"
#define PW ((const uint8_t *)"a passphrase")
#define PWL 12
#define CONST ((size_t)256 << 10)
static uint8_t byte_at(uint64_t i) { return ((uint8_t)((i * 0x9E3779B97F4A7C15ull) >> 56)); }
static uint64_t need(uint64_t N, uint64_t r, uint64_t p) { return (128 * N * r + 128 * r * p); }

/* ---- streams without allocations of ours ---- */
#define BUFN ((size_t)40 << 20)
static uint8_t buf[BUFN]; static size_t bn;		/* ciphertext */
static uint64_t gpos, gend, gout, gbad; static int gchunk;
static ssize_t g_read(void * c, char * b, size_t n) { size_t i; (void)c; if (n > gend - gpos) n = gend - gpos; if (gchunk && n > (size_t)gchunk) n = (size_t)gchunk; for (i = 0; i < n; i++) b[i] = (char)byte_at(gpos + i); gpos += n; return ((ssize_t)n); }
static ssize_t m_read(void * c, char * b, size_t n) { (void)c; if (n > bn - gpos) n = bn - gpos; if (gchunk && n > (size_t)gchunk) n = (size_t)gchunk; memcpy(b, buf + gpos, n); gpos += n; return ((ssize_t)n); }
static ssize_t m_write(void * c, const char * b, size_t n) { (void)c; if (bn + n > BUFN) return (0); memcpy(buf + bn, b, n); bn += n; return ((ssize_t)n); }
static ssize_t v_write(void * c, const char * b, size_t n) { size_t i; (void)c; for (i = 0; i < n; i++) if ((uint8_t)b[i] != byte_at(gout + i)) gbad++; gout += n; return ((ssize_t)n); }
static FILE *
mk(ssize_t (*r)(void *, char *, size_t), ssize_t (*w)(void *, const char *, size_t))
{
	cookie_io_functions_t f = { .read = r, .write = w };
	FILE * s = fopencookie(NULL, r ? "r" : "w", f);
	if (!s) vf_internal("fopencookie");
	return (s);
}
static const struct { int l; uint32_t r, p; } T[] = { { 1, 1, 1 }, { 4, 8, 1 }, { 10, 8, 1 }, { 12, 1, 3 }, { 2, 100, 20 }, { 8, 4, 40 }, { 14, 8, 1 } };
static void
bound(const char * what, uint64_t lim)
{
	size_t peak = al_peak; int left = al_stop();
	VF_CHECK(peak <= lim, "peak", "%s used %zu bytes at once, parameters and buffers account for at most %ju", what, peak, (uintmax_t)lim);
	VF_CHECK(left == 0, "left", "%s left %d allocations behind", what, left);
	vf_outcome(peak / 4096);
}
/* encryption and decryption of streams and buffers of every size */
static void
codec(void)
{
	static const size_t ls[] = { 0, 1, 4096, 65536, 65537, 200000, 1 << 20, (3 << 20) + 17, (16 << 20) + 1, 32 << 20 };
	static const int ch[] = { 0, 1000, 65536, 70000 };
	int k = vf_choose("parameters", NELEM(T)), li = vf_choose("size", NELEM(ls)), api = vf_choose("api", 4), rc, ex; size_t n = ls[li]; struct scryptenc_params P; FILE * fi, * fo; uint64_t lim; struct scryptdec_file_cookie * C;
	ex = vf_choose("automatic", 2);
	if (ex && k) return;
#ifdef VF_ALT
	if (n > (1 << 20)) return;
#endif
	gchunk = api < 2 ? ch[vf_choose("pieces", NELEM(ch))] : 0;
	if (gchunk == 1000 && n > (2 << 20)) return;
	env_reset(); env_memlimit = 1 << 21; env_opps = ex ? 40000.0 : 1e12;
	P = (struct scryptenc_params)PARAMS(ex ? 0 : T[k].l, ex ? 0 : T[k].r, ex ? 0 : T[k].p);
	vf_note("%s, logN %d r %u p %u, %zu bytes", api < 2 ? "streams" : "buffers", P.logN, P.r, P.p, n);
	/* encryption */
	if (api < 2) {
		gpos = 0; gend = n; bn = 0;
		fi = mk(g_read, NULL); fo = mk(NULL, m_write);
		al_start(-1, 0);
		rc = scryptenc_file(fi, fo, PW, PWL, &P, 0, !ex);
		al_on = 0; if (fclose(fo)) rc = 99; fclose(fi); al_on = 1;
	} else {
		size_t i;
		for (i = 0; i < n; i++) buf[i] = byte_at(i);
		memmove(buf + (16 << 20), buf, 0);
		if (n > (16 << 20)) { al_on = 0; return; }
		al_start(-1, 0);
		rc = scryptenc_buf(buf, n, buf + (20 << 20), PW, PWL, &P, 0, !ex);
	}
	vf_eval();
	VF_CHECK(rc == 0, "rc", "encryption returned %d", rc);
	lim = need(1ULL << P.logN, P.r, P.p) + 512 * (uint64_t)P.r + CONST;
	bound("encryption", lim);
	VF_CHECK(env_kdfcalls == 1, "derivations", "%d key derivations in one encryption", env_kdfcalls);
	VF_CHECK(env_perfcalls <= 2 && env_memcalls <= 2, "measurements", "limits measured %d and %d times", env_perfcalls, env_memcalls);
	if (ex) VF_CHECK((128ULL << P.logN) * P.r <= env_memlimit, "limit", "memory %ju over the limit", (uintmax_t)((128ULL << P.logN) * P.r));
	/* decryption, within limits that just admit it */
	env_kdfcalls = env_perfcalls = env_memcalls = 0; env_memlimit = (size_t)128 * P.r << P.logN; env_opps = 1e12;
	{ struct scryptenc_params Q = PARAMS(0, 0, 0); int force = li & 1;
	if (api < 2) {
		gpos = gout = gbad = 0;
		fi = mk(m_read, NULL); fo = mk(NULL, v_write);
		al_start(-1, 0);
		if (api == 0) rc = scryptdec_file(fi, fo, PW, PWL, &Q, 0, force);
		else { rc = scryptdec_file_prep(fi, PW, PWL, &Q, 0, force, &C); if (!rc) { rc = scryptdec_file_copy(C, fo); scryptdec_file_cookie_free(C); } }
		al_on = 0; if (fclose(fo)) rc = 99; fclose(fi); al_on = 1;
		VF_CHECK(rc == 0 && gout == n && !gbad, "dec", "decryption: %d, %ju bytes, %ju wrong", rc, (uintmax_t)gout, (uintmax_t)gbad);
	} else {
		size_t ol = 0;
		al_start(-1, 0);
		rc = scryptdec_buf(buf + (20 << 20), n + 128, buf, &ol, PW, PWL, &Q, 0, force);
		VF_CHECK(rc == 0 && ol == n, "dec", "decryption: %d, %zu bytes", rc, ol);
	} }
	vf_eval();
	bound("decryption", lim);
	VF_CHECK(env_kdfcalls == 1, "derivations", "%d key derivations in one decryption", env_kdfcalls);
	vf_seen(vf_trace_hash());
	if (k == 2 && li == 9 && api == 1) vf_sample("32 MiB stream, N=1024 r=8: at most %ju bytes in use", (uintmax_t)lim);
}
/*
 * The limit the user gave.  Only the table of 128 r N bytes is checked against
 * it (C06); that the 128 r p bytes come on top is a known finding.
 */
static void
limit(void)
{
	static const size_t Ls[] = { 1 << 20, 3000000, 4 << 20, 16 << 20, 100 << 20 };
	static const uint32_t rs[] = { 1, 8, 50 }, ps[] = { 1, 2, 12, 1000, 8192, 1 << 18 };
	int li = vf_choose("limit", NELEM(Ls)), op = vf_choose("op", 4), ri = vf_choose("r", NELEM(rs)), pi = vf_choose("p", NELEM(ps)), rc, l;
	size_t L = Ls[li], ol = 0; uint32_t r = rs[ri], p = ps[pi]; struct scryptenc_params P = PARAMS(0, 0, 0); static uint8_t f[200], o[200]; uint64_t peak, extra;

	env_reset(); env_memlimit = L; env_opps = 1e12;
	for (l = 1; (128ULL * r << (l + 1)) <= L; l++) ;
	if (op == 3) {
		/* encryption with automatic parameters, time enough for this p */
		if (ri || ((uint64_t)L / 128) * p > (2u << 20)) return;
		env_opps = (double)(4 * (L / 128)) * p; P.maxtime = 1.0;
		vf_note("encryption with a limit of %zu bytes and %.0f operations", L, env_opps);
		al_start(-1, 0);
		rc = scryptenc_buf((const uint8_t *)"abc", 3, o, PW, PWL, &P, 0, 0);
		VF_CHECK(rc == 0, "rc", "encryption returned %d", rc);
		l = P.logN; r = P.r; p = P.p;
	} else {
		/* decryption of: the largest N within the limit, the next, a small one */
		if (op == 1) l++;
		if (op == 2) l = 2;
		if (op != 1 && (((uint64_t)r * p) << l) > (4u << 20)) return;
		memset(f, 0, sizeof(f)); memcpy(f, "scrypt", 6); f[7] = (uint8_t)l;
		f[11] = (uint8_t)r; f[12] = (uint8_t)(p >> 24); f[13] = (uint8_t)(p >> 16); f[14] = (uint8_t)(p >> 8); f[15] = (uint8_t)p;
		ref_fixsum(f);
		vf_note("decryption of logN %d r %u p %u with a limit of %zu bytes", l, r, p, L);
		al_start(-1, 0);
		rc = scryptdec_buf(f, 131, o, &ol, PW, PWL, &P, 0, 0);
		VF_CHECK(rc == (op == 1 ? SCRYPT_ETOOBIG : SCRYPT_EPASS), "rc", "decryption returned %d", rc);
	}
	vf_eval();
	peak = al_peak; extra = 128ULL * r * p; al_stop();
	vf_seen(vf_trace_hash()); vf_outcome(peak / 65536);
	VF_CHECK(peak <= (op == 1 ? 0 : L + extra) + CONST, "limit", "used %ju bytes with a limit of %zu (logN %d r %u p %u, returned %d)", (uintmax_t)peak, L, l, r, p, rc);
	VF_CHECK(peak <= L + CONST, "kf-limit-p", "used %ju bytes with a limit of %zu (logN %d r %u p %u)", (uintmax_t)peak, L, l, r, p);
}
/* what a hostile header can make us allocate before it is refused */
static void
hostile(void)
{
	int l = vf_choose("logN", 256), i, j, api; static const uint32_t v[] = { 0, 1, 8, 255, 65536, 1 << 20, (1 << 27) - 1, 1 << 27, (1u << 30) - 1, 1u << 30, 1u << 31, 0xffffffffu };
	static uint8_t f[200], o[200];
	for (i = 0; i < NELEM(v); i++) for (j = 0; j < NELEM(v); j++) for (api = 0; api < 3; api++) {
		struct scryptenc_params P = PARAMS(0, 0, 0); int rc; size_t ol; FILE * fi, * fo; struct scryptdec_file_cookie * C = NULL; int k;
		env_reset(); env_memlimit = 1 << 20; env_opps = 100000.0; env_kdf_mode = 2;
		memset(f, 0x11, sizeof(f)); memcpy(f, "scrypt", 6); f[6] = 0; f[7] = (uint8_t)l;
		for (k = 0; k < 4; k++) { f[8 + k] = (uint8_t)(v[i] >> (24 - 8 * k)); f[12 + k] = (uint8_t)(v[j] >> (24 - 8 * k)); }
		ref_fixsum(f);
		vf_note("header with logN %d r %u p %u", l, v[i], v[j]);
		if (api == 0) { al_start(-1, 0); rc = scryptdec_buf(f, 180, o, &ol, PW, PWL, &P, 0, 0); }
		else {
			memcpy(buf, f, 180); bn = 180; gpos = gout = 0; gchunk = 0;
			fi = mk(m_read, NULL); fo = mk(NULL, v_write);
			al_start(-1, 0);
			if (api == 1) rc = scryptdec_file(fi, fo, PW, PWL, &P, 0, 0);
			else rc = scryptdec_file_prep(fi, PW, PWL, &P, 0, 0, &C);
			al_on = 0; fclose(fo); fclose(fi); al_on = 1;
		}
		vf_eval();
		VF_CHECK(rc != 0, "accepted", "accepted");
		bound("a refused decryption", CONST);
		vf_seen(vf_hash2((uint64_t)l * 1000 + (uint64_t)i * 20 + (uint64_t)j, (uint64_t)api));
	}
}
/* the derivation itself */
static void
kdf(void)
{
	int l = 1 + vf_choose("logN", vf_tier ? 16 : 14), ri = vf_choose("r", 9); uint32_t r = (uint32_t[]){ 1, 2, 3, 8, 9, 16, 33, 100, 1000 }[ri], p; uint8_t o[100]; int k;
	static const uint32_t ps[] = { 1, 2, 3, 4, 5, 8, 16, 50, 300, 5000 };
	if (((uint64_t)128 * r << l) > (vf_tier ? 256u << 20 : 48u << 20)) return;
	for (k = 0; k < NELEM(ps); k++) {
		int rc;
		p = ps[k];
		if (((uint64_t)r * p << l) > (vf_tier ? 4000000u : 600000u)) break;
		al_start(-1, 0);
		vf_note("crypto_scrypt N=2^%d r=%u p=%u", l, r, p);
		rc = __real_crypto_scrypt(PW, PWL, PW, 8, 1ULL << l, r, p, o, 64); vf_eval();
		VF_CHECK(rc == 0, "rc", "failed");
		bound("the derivation", need(1ULL << l, r, p) + 512 * (uint64_t)r + 65536);
		vf_seen(vf_hash2((uint64_t)l * 10000 + r, p));
	}
}
/* passphrase files of any size */
static void
passfile(void)
{
	int k = vf_choose("size", 5), nl = vf_choose("newline", 4); static const size_t ls[] = { 10, 2000, 3000, 1 << 20, 24 << 20 }; size_t n = ls[k], w = 0; char p[500], * pw = NULL; static char blk[65536]; int fd, rc;
	snprintf(p, sizeof(p), "%s/p", vf_privdir());
	memset(blk, 'x', sizeof(blk)); if (nl == 1) memset(blk, 0, sizeof(blk)); if (nl == 2) memset(blk, '\n', sizeof(blk));
	if ((fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0600)) < 0) vf_internal("open");
	if (nl == 3 && write(fd, "pw\n", 3) != 3) vf_internal("write");
	while (w < n) { size_t c = n - w < sizeof(blk) ? n - w : sizeof(blk); if (write(fd, blk, c) != (ssize_t)c) vf_internal("write"); w += c; }
	close(fd);
	vf_note("passphrase file of %zu bytes (%s)", n, nl == 0 ? "one line" : nl == 1 ? "NULs" : nl == 2 ? "empty lines" : "after a first line");
	al_start(-1, 0);
	rc = readpass_file(&pw, p);
	vf_eval();
	if (!rc) free(pw);
	bound("reading a passphrase file", CONST);
	unlink(p);
	vf_seen(vf_trace_hash());
}
static const struct vf_scn SC[] = {
	{ "codec", codec, 1, { 0, 0 }, 300, 0 }, { "limit", limit, 1, { 0, 0 }, 120, 0 }, { "hostile", hostile, 1, { 0, 0 }, 120, 0 }, { "derivation", kdf, 1, { 0, 0 }, 120, 0 }, { "passphrase_file", passfile, 1, { 0, 0 }, 60, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
int main(int argc, char ** argv) { return (vf_main(argc, argv, SC)); }
