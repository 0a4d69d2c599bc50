/* C13: random bytes are the HMAC_DRBG output for the entropy really read. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
#include "vf.h"
#include "ref.h"
#include "env_cpu.h"
#include "crypto_entropy.h"
#include "crypto_scrypt.h"
#include "scryptenc.h"

/* ---------------- the operating system's entropy source ---------------- */
#define FD 777
#define MAXSESS 64
static struct { uint8_t d[256]; size_t n; int bad, closed, intr; int rd_n; uint8_t rd[64]; } sess[MAXSESS];
static int nsess, cur = -1, nused, on, pattern, hard, ncall;
static uint64_t epos;
static int rdmode;	/* what RDRAND does: 0 works, 1 fails, 2 fails having stored something */
/* the k-th call is answered otherwise */
static int faults;	/* whether faults are explored now */
static uint8_t ebyte(void) { uint64_t x = epos++; return (pattern == 1 ? 0 : pattern == 2 ? 0xff : (uint8_t)(vf_hash(&x, 8, 99) >> 13)); }
static const int errs[] = { EIO, EINTR, EMFILE, EAGAIN };
int __real_open(const char *, int, ...); int __wrap_open(const char *, int, ...);
ssize_t __real_read(int, void *, size_t); ssize_t __wrap_read(int, void *, size_t);
int __real_close(int); int __wrap_close(int);
ssize_t __real_getrandom(void *, size_t, unsigned); ssize_t __wrap_getrandom(void *, size_t, unsigned);
int __real_getentropy(void *, size_t); int __wrap_getentropy(void *, size_t);
void * __real_malloc(size_t); void * __wrap_malloc(size_t);
int __real_generate_seed_rdrand(unsigned int *, size_t); int __wrap_generate_seed_rdrand(unsigned int *, size_t);
static void fresh(void) { if (nsess == MAXSESS) vf_internal("too many sessions"); cur = nsess++; memset(&sess[cur], 0, sizeof(sess[0])); sess[cur].rd_n = -1; }
int
__wrap_open(const char * p, int fl, ...)
{
	int mode = 0, k; va_list ap;
	if (fl & O_CREAT) { va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
	if (!on) return (__real_open(p, fl, mode));
	if (strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random")) vf_fail("source", "entropy taken from %s", p);
	VF_CHECK((fl & O_ACCMODE) == O_RDONLY, "source", "entropy source opened with flags %#x", fl);
	VF_CHECK(cur == -1 || sess[cur].closed, "fd", "entropy source opened twice");
	if (faults && (k = vf_dev("open", 4))) { errno = errs[k - 1]; if (errno != EINTR) hard = 1; return (-1); }
	fresh();
	return (FD);
}
static ssize_t
give(void * b, size_t n, int canfail)
{
	int k; size_t i, m = n;
	if (faults && n && canfail && (k = vf_dev("read", 7))) {
		if (k <= 4) { errno = errs[k - 1]; if (errno != EINTR) { hard = 1; sess[cur].bad = 1; } else sess[cur].intr = 1; return (-1); }
		if (k == 5) { hard = 1; sess[cur].bad = 1; return (0); }
		static const size_t few[] = { 1, 16, 31, 47 };
		if (vf_tier) m = 1 + (size_t)vf_choose("delivered", (int)n - 1 > 0 ? (int)n - 1 : 1);
		else m = few[vf_choose("delivered", n > 32 ? 4 : n > 31 ? 3 : n > 16 ? 2 : 1)];
		if (m > n) m = n;
	}
	for (i = 0; i < m; i++) { uint8_t c = ebyte(); ((uint8_t *)b)[i] = c; if (sess[cur].n == 256) vf_fail("amount", "over 256 bytes of entropy read at a time"); sess[cur].d[sess[cur].n++] = c; }
	return ((ssize_t)m);
}
ssize_t
__wrap_read(int fd, void * b, size_t n)
{
	if (!on) return (__real_read(fd, b, n));
	if (fd != FD) vf_fail("source", "read from descriptor %d", fd);
	VF_CHECK(!sess[cur].closed, "fd", "read after close");
	return (give(b, n, 1));
}
int
__wrap_close(int fd)
{
	int k;
	if (!on || fd != FD) return (__real_close(fd));
	VF_CHECK(!sess[cur].closed, "fd", "closed twice");
	if (faults && (k = vf_dev("close", 4))) {
		static const int ce[] = { EIO, EINTR, ENOSPC };
		errno = ce[k - 1];
		if (errno == EINTR) return (-1);
		hard = 1; sess[cur].bad = 1; sess[cur].closed = 1; return (-1);
	}
	sess[cur].closed = 1;
	return (0);
}
ssize_t
__wrap_getrandom(void * b, size_t n, unsigned f)
{
	ssize_t r;
	if (!on) return (__real_getrandom(b, n, f));
	fresh(); r = give(b, n, 1); sess[cur].closed = 1; return (r);
}
int
__wrap_getentropy(void * b, size_t n)
{
	if (!on) return (__real_getentropy(b, n));
	fresh();
	if (give(b, n, 1) != (ssize_t)n) { sess[cur].closed = sess[cur].bad = hard = 1; return (-1); }
	sess[cur].closed = 1; return (0);
}
void *
__wrap_malloc(size_t n)
{
	if (on && faults == 1 && vf_dev("malloc", 2)) { errno = ENOMEM; hard = 1; return (NULL); }
	return (__real_malloc(n));
}
int
__wrap_generate_seed_rdrand(unsigned int * b, size_t n)
{
	size_t i;
	if (!on) return (__real_generate_seed_rdrand(b, n));
	VF_CHECK(feat & F_RDRAND, "rdrand", "RDRAND used on a CPU without it");
	for (i = 0; i < n; i++) b[i] = rdmode == 1 ? 0x11111111 : (unsigned)vf_hash(&epos, 8, 5 + i);
	if (rdmode) return (1);
	if (cur >= 0 && n * 4 <= 64) { sess[cur].rd_n = (int)n * 4; memcpy(sess[cur].rd, b, n * 4); }
	return (0);
}

/* ---------------- HMAC_DRBG as the standard has it ---------------- */
static struct { uint8_t K[32], V[32]; unsigned cnt; int inst; } D;
static void
d_update(const uint8_t * d, size_t n)
{
	uint8_t b[33 + 300];
	memcpy(b, D.V, 32); b[32] = 0; memcpy(b + 33, d, n);
	ref_hmac(D.K, 32, b, 33 + n, D.K); ref_hmac(D.K, 32, D.V, 32, D.V);
	if (n == 0) return;
	memcpy(b, D.V, 32); b[32] = 1;
	ref_hmac(D.K, 32, b, 33 + n, D.K); ref_hmac(D.K, 32, D.V, 32, D.V);
}
/* the next complete reading of the source; -1 if there is none */
static int
take(size_t need)
{
	/* one given up after an interruption is not complete either */
	while (nused < nsess && (sess[nused].bad || !sess[nused].closed || (sess[nused].intr && sess[nused].n < need))) nused++;
	return (nused < nsess ? nused++ : -1);
}
/* What the request must give; returns how much of it there is entropy for. */
static size_t
model(uint8_t * o, size_t n)
{
	size_t done = 0, m, i; int s;
	if (!D.inst) {
		if ((s = take(48)) < 0) return (0);
		VF_CHECK(sess[s].n == 48, "amount", "instantiated from %zu bytes of entropy (48 needed)", sess[s].n);
		memset(D.K, 0, 32); memset(D.V, 1, 32); D.cnt = 1; D.inst = 1;
		d_update(sess[s].d, 48);
		if (sess[s].rd_n >= 0) d_update(sess[s].rd, (size_t)sess[s].rd_n);
		vf_trans(vf_hash2(1, (uint64_t)(sess[s].rd_n > 0)));
	}
	while (done < n) {
		if (D.cnt > 256) {
			if ((s = take(32)) < 0) return (done);
			VF_CHECK(sess[s].n == 32, "amount", "reseeded from %zu bytes of entropy (32 needed)", sess[s].n);
			d_update(sess[s].d, 32);
			if (sess[s].rd_n >= 0) d_update(sess[s].rd, (size_t)sess[s].rd_n);
			D.cnt = 1;
			vf_trans(vf_hash2(2, (uint64_t)(sess[s].rd_n > 0)));
		}
		m = n - done > 65536 ? 65536 : n - done;
		for (i = 0; i < m; i += 32) { ref_hmac(D.K, 32, D.V, 32, D.V); memcpy(o + done + i, D.V, m - i < 32 ? m - i : 32); }
		d_update(NULL, 0);
		vf_state(vf_hash2(D.cnt, (uint64_t)m)); vf_trans(vf_hash2(D.cnt, 3));
		D.cnt++; done += m;
	}
	return (done);
}
static uint8_t got[20 << 20], exp_[20 << 20];
/* blocks handed out, to see that none is handed out twice */
static uint64_t blk[1 << 16]; static int nblk;
static void
settle(int rc, const uint8_t * g, size_t n)
{
	size_t have, i; int uninst = !D.inst, before = nused;
	(void)before;
	vf_eval();
	VF_CHECK(rc == 0 || rc == -1, "rc", "returned %d", rc);
	VF_CHECK(cur < 0 || sess[cur].closed || hard || rc, "fd", "the entropy source was left open");
	if (hard) VF_CHECK(rc != 0, "ignored", "success although the entropy source failed");
	have = model(exp_, n);
	if (rc == 0) {
		VF_CHECK(have == n && (D.inst || n == 0), "unseeded", "%zu of %zu bytes were given without the entropy for them (%s)", n - have, n, uninst ? "instantiation" : "reseeding");
		VF_CHECK(!memcmp(g, exp_, n), "value", "%zu bytes requested: not the HMAC_DRBG output", n);
		for (i = 0; i + 16 <= n && i < 320 && nblk < NELEM(blk); i += 32) {
			uint64_t h; int j; memcpy(&h, g + i, 8);
			for (j = nblk > 4000 ? nblk - 4000 : 0; j < nblk; j++) VF_CHECK(blk[j] != h, "repeat", "the same output was handed out twice");
			blk[nblk++] = h;
		}
	} else {
		VF_CHECK(hard || faults, "rc", "failed without a fault");
		VF_CHECK(have < n || n == 0, "rc", "failed although all the entropy needed was read");
		/* beyond what there was entropy for, nothing may have been produced */
		for (i = have; i < n; i++) VF_CHECK(g[i] == 0x5e || g[i] == 0, "stale", "failed, but output was produced without entropy (byte %zu of %zu)", i, n);
		for (i = 0; i < have; i++) VF_CHECK(g[i] == 0x5e || g[i] == 0 || g[i] == exp_[i], "stale", "failed, with output other than HMAC_DRBG's");
	}
	VF_CHECK(take(32) < 0, "extra", "entropy was read and not used");
	vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)ncall)); vf_outcome(vf_hash2((uint64_t)rc, vf_hash(g, n < 64 ? n : 64, 3)));
	ncall++;
}
static int
req(size_t n)
{
	int rc;
	vf_note("request %d: %zu bytes (generate count %u)", ncall, n, D.cnt);
	memset(got, 0x5e, n); hard = 0;
	on = 1; rc = crypto_entropy_read(got, n); on = 0;
	settle(rc, got, n);
	return (rc);
}
static void
rdr(void) { int k = vf_choose("rdrand", 4); feat = k ? 31 : 31 & ~F_RDRAND; rdmode = k ? k - 1 : 0; }
/* every history of request sizes */
static const size_t sz[] = { 32, 0, 1, 31, 33, 64, 65535, 65536, 65537, 131072, 200001 };
static void
sizes(void)
{
	int d;
	pattern = vf_choose("pattern", 3); rdr();
	for (d = 0; d < (vf_tier ? 4 : 3); d++) req(sz[vf_choose("size", NELEM(sz))]);
}
/* around the reseeding: small requests, then one that crosses it, then more */
static void
reseeds(void)
{
	static const size_t lead[] = { 32, 1, 100 }; size_t l; int i, k, round, n;
	rdr();
	l = lead[vf_choose("size", 3)];
	for (round = 0; round < 2; round++) {
		n = round == 0 || vf_tier ? 250 + vf_choose("before", 9) : 253 + vf_choose("before", 4);
		for (i = 0; i < n; i++) req(i % 17 == 5 ? 0 : l);
		n = n / 17;
		for (i = 0; i < n; i++) req(l);		/* the empty ones do not count */
		k = round == 0 || vf_tier ? vf_choose("crossing", 5) : 0;
		req(k == 0 ? 32 : k == 1 ? 65536 : k == 2 ? 65537 : k == 3 ? 65536 * 5 + 1 : 0);
		req(32);
	}
	for (i = 0; i < 300; i++) req(32);
	vf_sample("reseeded on schedule after %s", "250..258 requests, twice");
}
static void
oncelong(void)
{
	rdr();
	switch (vf_choose("kind", 3)) {
	case 0: req(65536 * 257); req(32); req(65536 * 254 + 5); req(65536 * 3); break;
	case 1: req(65536 * 256); req(1); req(65536 * 255); req(1); req(1); break;
	case 2: req(65536ul * 300 + 17); req(65536ul * 300); req(40); break;
	}
}
/* faults at every call of the instantiation, in several tries */
static void
f_inst(void)
{
	int i; rdr(); faults = 1;
	for (i = 0; i < 3; i++) req(sz[vf_choose("size", 3)]);
	faults = 0;
	req(64); req(65537);
	for (i = 0; i < (vf_tier ? 260 : 4); i++) req(32);
}
/* faults at every call of a reseeding */
static void
f_reseed(void)
{
	int i, k; rdr();
	for (i = 0; i < 256; i++) req(32);
	k = vf_choose("crossing", 4);
	faults = 1;
	if (k == 3) req(0);
	for (i = 0; i < 3; i++) req(k == 1 ? 65537 : k == 2 ? 1 : 32);
	faults = 0;
	req(64); req(65537);
	for (i = 0; i < 260; i++) req(32);
}
/* a fault within one request, after some of it was produced */
static void
f_mid(void)
{
	int k = vf_choose("before", 3), i; rdr();
	for (i = 0; i < 255 + k; i++) req(16);
	faults = 1;
	req(65536 * 3 + 7); req(32);
	faults = 0;
	req(65536 * 2); req(32);
}
/* two reseedings within one request */
static void
f_two(void)
{
	int i; rdr(); rdmode = 0;
	req(32); faults = 1; req(65536 * 260); faults = 0; req(32); for (i = 0; i < 3; i++) req(65536);
}

/* ---------------- salts of encryptions ---------------- */
static struct vout VO;
static struct scryptenc_params P;
static void
encs(void)
{
	/* allocation failures belong to the other scenarios */
	static uint8_t f[400], buf[100]; int i, rc; uint8_t salts[12][32]; size_t j; int ns = 0;
	rdr(); faults = 2;
	for (i = 0; i < 4; i++) {
		int stream = vf_choose("interface", 2), nb = i == 2 ? 256 : 0, b;
		for (b = 0; b < nb; b++) { faults = 0; req(32); faults = 2; }
		memset(&P, 0, sizeof(P)); P.logN = 1; P.r = P.p = 1;
		vf_note("encryption %d by %s", i, stream ? "streams" : "buffers");
		hard = 0;
		if (stream) {
			struct vin I; FILE * fi, * fo;
			vin_init(&I, buf, 100); vout_init(&VO); fi = vin_open(&I, -1); fo = vout_open(&VO, 0);
			/* only the library's own work is watched */
			on = 1; rc = scryptenc_file(fi, fo, (const uint8_t *)"p", 1, &P, 0, 1); on = 0;
			fclose(fi); fclose(fo);
			if (rc == SCRYPT_ESALT) VF_CHECK(VO.n == 0, "output", "output was written although the salt failed");
			if (rc == 0) { VF_CHECK(VO.n == 228, "output", "%zu bytes", VO.n); memcpy(f, VO.d, 228); }
			vout_free(&VO);
		} else {
			memset(f, 0x5e, 400); on = 1; rc = scryptenc_buf(buf, 100, f, (const uint8_t *)"p", 1, &P, 0, 1); on = 0;
			if (rc == SCRYPT_ESALT) for (j = 0; j < 400; j++) VF_CHECK(f[j] == 0x5e || f[j] == 0, "output", "output was written although the salt failed");
		}
		if (rc) {
			/* running out of memory may also be reported as such */
			VF_CHECK(hard || faults, "rc", "failed without a fault (%d)", rc);
			VF_CHECK(rc == SCRYPT_ESALT , "code", "a salt failure was reported as %d", rc);
			vf_outcome((uint64_t)rc);
			/* what was read of the source, if anything */
			{ size_t h = model(exp_, 32); if (h == 32) VF_CHECK(rc != SCRYPT_ESALT, "code", "reported a salt error with a good source"); }
			VF_CHECK(take(32) < 0, "extra", "entropy was read and not used");
			vf_eval();
			continue;
		}
		memcpy(got, f + 16, 32); settle(0, got, 32);
		for (b = 0; b < ns; b++) VF_CHECK(memcmp(salts[b], f + 16, 32), "repeat", "two encryptions have the same salt");
		memcpy(salts[ns++], f + 16, 32);
	}
}
/* every history of encryptions and decryptions with passphrases and parameters
 * that recur: each encryption still gets 32 fresh bytes */
static void
hists(void)
{
	static const char * pws[] = { "p", "a passphrase of thirty-two bytes", "" }; static uint8_t f[400], o[400], buf[100]; char lp[101];
	int i, rc, b, ns = 0, n = vf_tier ? 5 : 4; uint8_t salts[5][32]; size_t ol;
	feat = 31; rdmode = 0; memset(lp, 'x', 100); lp[100] = 0;
	for (i = 0; i < n; i++) {
		int op = vf_choose("operation", 5), how = op & 1, big = op >= 2 && op < 4; const char * pw;
		if (op == 4 && !ns) return;
		pw = pws[vf_choose("passphrase", 2)];
		if (big) pw = *pw == 'p' ? lp : pws[2];
		memset(&P, 0, sizeof(P)); P.logN = 1 + big; P.r = P.p = 1;
		vf_note("operation %d: %s, passphrase of %zu bytes", i, op == 4 ? "decryption of the last" : how ? "encryption by streams" : "encryption by buffers", strlen(pw));
		hard = 0;
		if (op == 4) {
			P.logN = 0; P.r = P.p = 0;
			rc = scryptdec_buf(f, 228, o, &ol, (const uint8_t *)pw, strlen(pw), &P, 0, 1);
			VF_CHECK(rc == 0 || rc == SCRYPT_EPASS, "dec", "decryption gave %d", rc);
			continue;
		}
		if (how) {
			struct vin I; FILE * fi, * fo;
			vin_init(&I, buf, 100); vout_init(&VO); fi = vin_open(&I, -1); fo = vout_open(&VO, 0);
			on = 1; rc = scryptenc_file(fi, fo, (const uint8_t *)pw, strlen(pw), &P, 0, 1); on = 0;
			fclose(fi); fclose(fo);
			if (rc == 0) { VF_CHECK(VO.n == 228, "output", "%zu bytes", VO.n); memcpy(f, VO.d, 228); }
			vout_free(&VO);
		} else {
			on = 1; rc = scryptenc_buf(buf, 100, f, (const uint8_t *)pw, strlen(pw), &P, 0, 1); on = 0;
		}
		VF_CHECK(rc == 0, "rc", "encryption gave %d", rc);
		memcpy(got, f + 16, 32); settle(0, got, 32);
		for (b = 0; b < ns; b++) VF_CHECK(memcmp(salts[b], f + 16, 32), "repeat", "two encryptions have the same salt");
		memcpy(salts[ns++], f + 16, 32);
	}
}
/* one encryption of every shape: the salt never depends on what is encrypted, how or with which parameters */
static void
shapes(void)
{
	static const int lens[] = { 0, 1, 15, 16, 31, 32, 33, 47, 64, 100, 1000, 65535, 65536, 65537, 70000 }, ps[] = { 1, 2, 3, 7, 8, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257 }, rr[] = { 1, 2, 7, 8, 9, 16, 32, 33 };
	static const struct { int logN, r, p; } E[] = { { 1, 1, 4096 }, { 1, 256, 1 }, { 1, 1024, 1 }, { 14, 8, 1 }, { 0, 0, 0 } };
	static uint8_t f[70200], buf[70000]; static char pw[300]; static FILE * sink; FILE * se = stderr; uint8_t last[32];
	int how = vf_choose("interface", 2), fl = vf_choose("flags", 4), logN = 1 + vf_choose("logN", 13), part, i, n;
	rdr();
	rdmode = 0;
	if (!sink && (sink = fopen("/dev/null", "w")) == NULL) vf_internal("/dev/null");
	memset(pw, 'y', sizeof(pw)); memset(last, 0, 32);
	for (part = 0; part < 3; part++) {
		n = part == 0 ? (logN == 13 ? NELEM(E) : NELEM(ps) * NELEM(rr)) : part == 1 ? (logN <= 4 ? NELEM(lens) : 0) : (logN <= 2 ? 300 : 0);
		if (part == 0 && logN < 13 && logN > 4 && !vf_tier) n = NELEM(rr) * 4;
		for (i = 0; i < n; i++) {
			int rc; size_t len = part == 1 ? (size_t)lens[i] : 40, pl = part == 2 ? (size_t)i : 3;
			memset(&P, 0, sizeof(P)); P.logN = logN; P.r = 1; P.p = 1; P.maxmemfrac = 0.125; P.maxtime = 0.001;
			if (part == 0) { P.r = (uint32_t)rr[i % NELEM(rr)]; P.p = (uint32_t)ps[i / NELEM(rr)]; if (logN == 13) { P.logN = E[i].logN; P.r = (uint32_t)E[i].r; P.p = (uint32_t)E[i].p; } }
			vf_note("encryption of %zu bytes by %s, passphrase of %zu, logN %d r %u p %u%s%s", len, how ? "streams" : "buffers", pl, P.logN, P.r, P.p, fl & 1 ? ", verbose" : "", fl & 2 ? ", forced" : "");
			hard = 0;
			if (how) {
				struct vin I; FILE * fi, * fo;
				vin_init(&I, buf, len); vout_init(&VO); fi = vin_open(&I, -1); fo = vout_open(&VO, 0);
				stderr = sink; on = 1; rc = scryptenc_file(fi, fo, (const uint8_t *)pw, pl, &P, fl & 1, fl >> 1); on = 0; stderr = se;
				fclose(fi); fclose(fo);
				if (rc == 0) { VF_CHECK(VO.n == len + 128, "output", "%zu bytes", VO.n); memcpy(f, VO.d, 48); }
				vout_free(&VO);
			} else {
				memset(f, 0x5e, 48);
				stderr = sink; on = 1; rc = scryptenc_buf(buf, len, f, (const uint8_t *)pw, pl, &P, fl & 1, fl >> 1); on = 0; stderr = se;
			}
			VF_CHECK(rc == 0, "rc", "encryption gave %d", rc);
			memcpy(got, f + 16, 32); settle(0, got, 32);
			VF_CHECK(memcmp(last, f + 16, 32), "repeat", "two encryptions have the same salt");
			memcpy(last, f + 16, 32);
			vf_seen(vf_hash2(vf_hash2((uint64_t)(how * 4 + fl), (uint64_t)(logN * 3 + part)), (uint64_t)i)); vf_eval();
		}
	}
}
static const struct vf_scn SC[] = {
	{ "sizes", sizes, 1, { 0, 0 }, 60, 0 }, { "reseeds", reseeds, 1, { 0, 0 }, 60, 0 }, { "long", oncelong, 1, { 0, 0 }, 120, 0 },
	{ "instantiate-faults", f_inst, 1, { 2, 3 }, 60, 0 }, { "reseed-faults", f_reseed, 1, { 2, 3 }, 60, 0 }, { "mid-faults", f_mid, 1, { 1, 2 }, 60, 0 }, { "two-faults", f_two, 1, { 1, 2 }, 120, 0 },
	{ "salts", encs, 1, { 2, 2 }, 60, 0 }, { "histories", hists, 1, { 0, 0 }, 60, 0 }, { "shapes", shapes, 1, { 0, 0 }, 120, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
int
main(int argc, char ** argv) { return (vf_main(argc, argv, SC)); }
