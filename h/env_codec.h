/* Environment shared by the codec harnesses: resource limits, CPU speed,
 * salt and (optionally) the KDF are decided by the harness. */
#ifndef ENV_CODEC_H
#define ENV_CODEC_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ref.h"
#include "vf.h"
#include "scryptenc.h"
#include "scryptenc_cpuperf.h"
#include "crypto_scrypt.h"
#include "memlimit.h"

static size_t env_memlimit = 1 << 20;
static int env_memfail;
static size_t env_maxmem; static double env_frac;	/* what memtouse was asked */
static double env_opps = 1.0;
static int env_perf_rc;
static int env_memcalls, env_perfcalls, env_kdfcalls, env_entropycalls;
static int env_kdf_refused;
static int env_kdf_mode;	/* 0 real (bounded), 1 stub, 2 fail */
static uint64_t env_kdf_N; static uint32_t env_kdf_r, env_kdf_p; static size_t env_kdf_buflen, env_kdf_pwlen, env_kdf_saltlen;
static uint8_t env_kdf_salt[64];
static uint64_t env_kdf_pwhash;
static int env_entropyfail;
static uint8_t env_saltbyte; static int env_saltmode; static uint32_t env_saltctr;

int __wrap_memtouse(size_t, double, size_t *);
int __wrap_memtouse(size_t maxmem, double frac, size_t * lim)
{
	env_maxmem = maxmem; env_frac = frac;
	env_memcalls++;
	if (env_memfail) { errno = EIO; return (1); }
	*lim = env_memlimit;
	return (0);
}
int __wrap_scryptenc_cpuperf(double *);
int __wrap_scryptenc_cpuperf(double * opps)
{
	env_perfcalls++;
	if (env_perf_rc) return (env_perf_rc);
	*opps = env_opps;
	return (0);
}
int __wrap_crypto_entropy_read(uint8_t *, size_t);
int __real_crypto_entropy_read(uint8_t *, size_t);
int __wrap_crypto_entropy_read(uint8_t * buf, size_t n)
{
	size_t i;
	env_entropycalls++;
	if (env_entropyfail) { errno = env_entropyfail; return (-1); }
#ifdef REAL_ENTROPY
	if (env_saltmode == 2) return (__real_crypto_entropy_read(buf, n));
#endif
	for (i = 0; i < n; i++)
		buf[i] = env_saltmode == 0 ? (uint8_t)(7 * (env_saltctr++) + 11) : env_saltbyte;
	return (0);
}
static int
stub_kdf(const void * pw, size_t pl, const void * salt, size_t sl, uint64_t N, uint32_t r, uint32_t p, uint8_t * out, size_t n)
{
	uint64_t x[4], h;
	size_t i;
	x[0] = N; x[1] = ((uint64_t)r << 32) | p;
	x[2] = vf_hash(pw, pl, 1); x[3] = vf_hash(salt, sl, 2);
	h = vf_hash(x, sizeof(x), 3);
	for (i = 0; i < n; i++) { h = vf_hash(&h, 8, i); out[i] = (uint8_t)(h >> 32); }
	return (0);
}
int __real_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int __wrap_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int __wrap_crypto_scrypt(const uint8_t * pw, size_t pl, const uint8_t * s, size_t sl, uint64_t N, uint32_t r, uint32_t p, uint8_t * out, size_t n)
{
	env_kdfcalls++;
	env_kdf_N = N; env_kdf_r = r; env_kdf_p = p; env_kdf_buflen = n; env_kdf_pwlen = pl; env_kdf_saltlen = sl;
	memset(env_kdf_salt, 0, 64); memcpy(env_kdf_salt, s, sl < 64 ? sl : 64);
	env_kdf_pwhash = vf_hash(pw, pl, 0);
	if (env_kdf_mode == 1) return (stub_kdf(pw, pl, s, sl, N, r, p, out, n));
	if (env_kdf_mode == 2) { errno = ENOMEM; return (-1); }
	if ((double)N * r * 128 > 3e8 || (double)N * r * p > 1e7) { env_kdf_refused = 1; errno = ENOMEM; return (-1); }
	return (__real_crypto_scrypt(pw, pl, s, sl, N, r, p, out, n));
}
/* How the operations are called: 1 verbose (what is reported goes nowhere);
 * 2 with the limits enforced, where the limits are out of reach. */
static int env_flags;
static FILE * env_sink, * env_stderr;
static ssize_t env_sinkwrite(void * c, const char * b, size_t n) { (void)c; (void)b; return ((ssize_t)n); }
static void __attribute__((unused))
env_setflags(int f)
{
	env_flags = f;
	if (f & 2) { env_memlimit = SIZE_MAX; env_opps = 1e300; }
	if (!env_sink) {
		cookie_io_functions_t io = { .write = env_sinkwrite };
		if ((env_sink = fopencookie(NULL, "w", io)) == NULL) vf_internal("fopencookie");
	}
}
#define env_verbose() (env_flags & 1 ? (env_stderr = stderr, stderr = env_sink, 1) : 0)
#define env_force(f) (env_flags & 2 ? 0 : (f))
#define env_called() (env_stderr ? (stderr = env_stderr, env_stderr = NULL) : NULL)
static void __attribute__((unused))
env_reset(void)
{
	env_memlimit = 1 << 20; env_memfail = 0; env_opps = 1.0; env_perf_rc = 0;
	env_memcalls = env_perfcalls = env_kdfcalls = env_entropycalls = 0;
	env_flags = 0; env_called();
	env_kdf_mode = 0; env_entropyfail = 0; env_saltmode = 0; env_saltctr = 0;
	ref_kdf = ref_scrypt;
}
static void __attribute__((unused))
env_stub(void)
{
	env_kdf_mode = 1; ref_kdf = stub_kdf;
}

/* Buffers with guards (or exact allocations, for the address sanitizer). */
#if defined(__SANITIZE_ADDRESS__)
#define GUARD 0
#else
#define GUARD 64
#endif
static uint8_t * __attribute__((unused))
galloc(size_t n)
{
	uint8_t * p = malloc(n + 2 * GUARD + (GUARD == 0 && n == 0));
	if (!p) vf_internal("no memory");
	memset(p, 0xA5, n + 2 * GUARD);
	return (p + GUARD);
}
static void __attribute__((unused))
gcheck(uint8_t * p, size_t n, const char * what)
{
	size_t i;
	for (i = 0; i < GUARD; i++)
		if (p[-(long)i - 1] != 0xA5 || p[n + i] != 0xA5)
			vf_fail("write-outside", "bytes written outside the %s buffer", what);
}
static void __attribute__((unused))
gfree(uint8_t * p) { free(p - GUARD); }

#define PARAMS(l, rr, pp) { .maxmem = 0, .maxmemfrac = 0.125, .maxtime = 5.0, .logN = (l), .r = (rr), .p = (pp) }

/* One decryption by either interface: api 0 buf, 1 file, 2 prep+copy. */
static int __attribute__((unused))
dec_any(int api, const uint8_t * f, size_t n, const uint8_t * pw, size_t pl, int force, size_t chunk, uint8_t ** out, size_t * outlen, struct scryptenc_params * P)
{
	int rc;
	if (api == 0) {
		uint8_t * o = galloc(n);
		/* exact copy of the input too, so that over-reads are seen */
		uint8_t * in = galloc(n);
		memcpy(in, f, n);
		*outlen = 0x5a5a5a5a;
		rc = scryptdec_buf(in, n, o, outlen, pw, pl, P, env_verbose(), env_force(force)); env_called();
		gcheck(o, n, "output");
		if (memcmp(in, f, n)) vf_fail("input-modified", "decryption modified its input buffer");
		if (rc == SCRYPT_OK && *outlen > n) vf_fail("outlen", "decrypted length %zu larger than the input %zu", *outlen, n);
		*out = malloc(n + 1);
		if (rc == SCRYPT_OK) memcpy(*out, o, *outlen);
		gfree(o); gfree(in);
		return (rc);
	} else {
		struct vin vi; struct vout vo;
		FILE * fi, * fo;
		struct scryptdec_file_cookie * C = NULL;

		vin_init(&vi, f, n); vi.chunk = chunk;
		vout_init(&vo);
		fi = vin_open(&vi, -1);
		fo = vout_open(&vo, -1);
		if (api == 1)
			{ rc = scryptdec_file(fi, fo, pw, pl, P, env_verbose(), env_force(force)); env_called(); }
		else {
			rc = scryptdec_file_prep(fi, pw, pl, P, env_verbose(), env_force(force), &C); env_called();
			if (rc == 0) {
				rc = scryptdec_file_copy(C, fo);
				scryptdec_file_cookie_free(C);
			}
		}
		if (fclose(fo)) vf_internal("fclose");
		fclose(fi);
		*out = vo.d ? vo.d : malloc(1); *outlen = vo.n;
		return (rc);
	}
}
static int __attribute__((unused))
enc_any(int api, const uint8_t * d, size_t n, const uint8_t * pw, size_t pl, int force, size_t chunk, uint8_t ** out, size_t * outlen, struct scryptenc_params * P)
{
	int rc;
	if (api == 0) {
		uint8_t * o = galloc(n + 128), * in = galloc(n);
		memcpy(in, d, n);
		rc = scryptenc_buf(in, n, o, pw, pl, P, env_verbose(), env_force(force)); env_called();
		gcheck(o, n + 128, "output");
		if (memcmp(in, d, n)) vf_fail("input-modified", "encryption modified its input buffer");
		*out = malloc(n + 128); *outlen = n + 128;
		memcpy(*out, o, n + 128);
		gfree(o); gfree(in);
		return (rc);
	} else {
		struct vin vi; struct vout vo;
		FILE * fi, * fo;
		vin_init(&vi, d, n); vi.chunk = chunk;
		vout_init(&vo);
		fi = vin_open(&vi, -1);
		fo = vout_open(&vo, -1);
		rc = scryptenc_file(fi, fo, pw, pl, P, env_verbose(), env_force(force)); env_called();
		if (fclose(fo)) vf_internal("fclose");
		fclose(fi);
		*out = vo.d ? vo.d : malloc(1); *outlen = vo.n;
		return (rc);
	}
}
#define CODEC_WRAPS "memtouse", "scryptenc_cpuperf", "crypto_entropy_read", "crypto_scrypt"
#endif
