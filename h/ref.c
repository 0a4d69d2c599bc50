#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <openssl/aes.h>
#include <openssl/sha.h>
#include "ref.h"
#include "vf.h"

void
ref_sha256(const void * p, size_t n, uint8_t out[32])
{
	SHA256_CTX c;
	SHA256_Init(&c); SHA256_Update(&c, p, n); SHA256_Final(out, &c);
}

struct hk { SHA256_CTX i, o; };
static void
hk_init(struct hk * h, const void * key, size_t klen)
{
	uint8_t k[64], t[64], kh[32];
	int i;
	memset(k, 0, 64);
	if (klen > 64) { ref_sha256(key, klen, kh); memcpy(k, kh, 32); }
	else if (klen) memcpy(k, key, klen);
	for (i = 0; i < 64; i++) t[i] = k[i] ^ 0x36;
	SHA256_Init(&h->i); SHA256_Update(&h->i, t, 64);
	for (i = 0; i < 64; i++) t[i] = k[i] ^ 0x5c;
	SHA256_Init(&h->o); SHA256_Update(&h->o, t, 64);
}
static void
hk_final(struct hk * h, uint8_t out[32])
{
	uint8_t d[32];
	SHA256_Final(d, &h->i);
	SHA256_Update(&h->o, d, 32);
	SHA256_Final(out, &h->o);
}
void
ref_hmac(const void * key, size_t klen, const void * m, size_t n, uint8_t out[32])
{
	struct hk h;
	hk_init(&h, key, klen);
	SHA256_Update(&h.i, m, n);
	hk_final(&h, out);
}
void
ref_pbkdf2(const void * pw, size_t pwlen, const void * salt, size_t saltlen, uint64_t c, uint8_t * out, size_t outlen)
{
	struct hk base, s, h;
	uint8_t U[32], T[32], iv[4];
	uint32_t i;
	uint64_t j;
	size_t k, n;

	hk_init(&base, pw, pwlen);
	s = base;
	SHA256_Update(&s.i, salt, saltlen);
	for (i = 1; outlen > 0; i++) {
		iv[0] = (uint8_t)(i >> 24); iv[1] = (uint8_t)(i >> 16); iv[2] = (uint8_t)(i >> 8); iv[3] = (uint8_t)i;
		h = s;
		SHA256_Update(&h.i, iv, 4);
		hk_final(&h, U);
		memcpy(T, U, 32);
		for (j = 1; j < c; j++) {
			h = base;
			SHA256_Update(&h.i, U, 32);
			hk_final(&h, U);
			for (k = 0; k < 32; k++) T[k] ^= U[k];
		}
		n = outlen < 32 ? outlen : 32;
		memcpy(out, T, n);
		out += n; outlen -= n;
	}
}

/* RFC 7914, literally. */
#define R(a, b) (((a) << (b)) | ((a) >> (32 - (b))))
static void
salsa208(uint32_t B[16])
{
	uint32_t x[16];
	int i;
	memcpy(x, B, 64);
	for (i = 8; i > 0; i -= 2) {
		x[ 4] ^= R(x[ 0]+x[12], 7);  x[ 8] ^= R(x[ 4]+x[ 0], 9);
		x[12] ^= R(x[ 8]+x[ 4],13);  x[ 0] ^= R(x[12]+x[ 8],18);
		x[ 9] ^= R(x[ 5]+x[ 1], 7);  x[13] ^= R(x[ 9]+x[ 5], 9);
		x[ 1] ^= R(x[13]+x[ 9],13);  x[ 5] ^= R(x[ 1]+x[13],18);
		x[14] ^= R(x[10]+x[ 6], 7);  x[ 2] ^= R(x[14]+x[10], 9);
		x[ 6] ^= R(x[ 2]+x[14],13);  x[10] ^= R(x[ 6]+x[ 2],18);
		x[ 3] ^= R(x[15]+x[11], 7);  x[ 7] ^= R(x[ 3]+x[15], 9);
		x[11] ^= R(x[ 7]+x[ 3],13);  x[15] ^= R(x[11]+x[ 7],18);
		x[ 1] ^= R(x[ 0]+x[ 3], 7);  x[ 2] ^= R(x[ 1]+x[ 0], 9);
		x[ 3] ^= R(x[ 2]+x[ 1],13);  x[ 0] ^= R(x[ 3]+x[ 2],18);
		x[ 6] ^= R(x[ 5]+x[ 4], 7);  x[ 7] ^= R(x[ 6]+x[ 5], 9);
		x[ 4] ^= R(x[ 7]+x[ 6],13);  x[ 5] ^= R(x[ 4]+x[ 7],18);
		x[11] ^= R(x[10]+x[ 9], 7);  x[ 8] ^= R(x[11]+x[10], 9);
		x[ 9] ^= R(x[ 8]+x[11],13);  x[10] ^= R(x[ 9]+x[ 8],18);
		x[12] ^= R(x[15]+x[14], 7);  x[13] ^= R(x[12]+x[15], 9);
		x[14] ^= R(x[13]+x[12],13);  x[15] ^= R(x[14]+x[13],18);
	}
	for (i = 0; i < 16; i++) B[i] += x[i];
}
static void
blockmix(uint32_t * B, uint32_t * Y, size_t r)
{
	uint32_t X[16];
	size_t i, j;
	memcpy(X, &B[(2 * r - 1) * 16], 64);
	for (i = 0; i < 2 * r; i++) {
		for (j = 0; j < 16; j++) X[j] ^= B[i * 16 + j];
		salsa208(X);
		memcpy(&Y[i * 16], X, 64);
	}
	for (i = 0; i < r; i++) memcpy(&B[i * 16], &Y[2 * i * 16], 64);
	for (i = 0; i < r; i++) memcpy(&B[(i + r) * 16], &Y[(2 * i + 1) * 16], 64);
}
int
ref_scrypt(const void * pw, size_t pwlen, const void * salt, size_t saltlen, uint64_t N, uint32_t r, uint32_t p, uint8_t * out, size_t outlen)
{
	size_t bl = (size_t)128 * r, w = (size_t)32 * r, i, k;
	uint64_t n, j;
	uint8_t * B = malloc(bl * p);
	uint32_t * V = malloc(bl * N), * X = malloc(bl), * Y = malloc(bl);

	if (!B || !V || !X || !Y) { free(B); free(V); free(X); free(Y); return (-1); }
	ref_pbkdf2(pw, pwlen, salt, saltlen, 1, B, bl * p);
	for (i = 0; i < p; i++) {
		memcpy(X, B + i * bl, bl);	/* little-endian host */
		for (n = 0; n < N; n++) {
			memcpy(V + n * w, X, bl);
			blockmix(X, Y, r);
		}
		for (n = 0; n < N; n++) {
			j = (((uint64_t)X[(2 * r - 1) * 16 + 1] << 32) | X[(2 * (size_t)r - 1) * 16]) & (N - 1);
			for (k = 0; k < w; k++) X[k] ^= V[j * w + k];
			blockmix(X, Y, r);
		}
		memcpy(B + i * bl, X, bl);
	}
	ref_pbkdf2(pw, pwlen, B, bl * p, 1, out, outlen);
	free(B); free(V); free(X); free(Y);
	return (0);
}

void
ref_aesblock(const uint8_t * key, size_t keylen, const uint8_t in[16], uint8_t out[16])
{
	AES_KEY k;
	AES_set_encrypt_key(key, (int)keylen * 8, &k);
	AES_encrypt(in, out, &k);
}
void
ref_aesctr(const uint8_t * key, size_t keylen, uint64_t nonce, uint64_t pos, const uint8_t * in, uint8_t * out, size_t len)
{
	AES_KEY k;
	uint8_t c[16], ks[16];
	uint64_t blk, cur = ~0ULL;
	size_t i, j;

	AES_set_encrypt_key(key, (int)keylen * 8, &k);
	for (i = 0; i < len; i++, pos++) {
		blk = pos / 16;
		if (blk != cur || i == 0) {
			for (j = 0; j < 8; j++) { c[j] = (uint8_t)(nonce >> (56 - 8 * j)); c[8 + j] = (uint8_t)(blk >> (56 - 8 * j)); }
			AES_encrypt(c, ks, &k);
			cur = blk;
		}
		out[i] = in[i] ^ ks[pos % 16];
	}
}

ref_kdf_t ref_kdf = ref_scrypt;

/* The state after one block, as eight words in memory. */
void
ref_shastate(const uint8_t block[64], uint8_t out[32])
{
	SHA256_CTX c;
	SHA256_Init(&c); SHA256_Update(&c, block, 64);
	memcpy(out, c.h, 32);
}
void
ref_fixsum(uint8_t * f)
{
	uint8_t h[32];
	ref_sha256(f, 48, h);
	memcpy(f + 48, h, 16);
}
size_t
ref_encrypt(uint8_t * out, const uint8_t * in, size_t len, const void * pw, size_t pwlen, int logN, uint32_t r, uint32_t p, const uint8_t salt[32])
{
	uint8_t dk[64];
	memcpy(out, "scrypt", 6);
	out[6] = 0; out[7] = (uint8_t)logN;
	out[8] = (uint8_t)(r >> 24); out[9] = (uint8_t)(r >> 16); out[10] = (uint8_t)(r >> 8); out[11] = (uint8_t)r;
	out[12] = (uint8_t)(p >> 24); out[13] = (uint8_t)(p >> 16); out[14] = (uint8_t)(p >> 8); out[15] = (uint8_t)p;
	memcpy(out + 16, salt, 32);
	ref_fixsum(out);
	if (ref_kdf(pw, pwlen, salt, 32, 1ULL << logN, r, p, dk, 64))
		vf_internal("reference kdf failed");
	ref_hmac(dk + 32, 32, out, 64, out + 64);
	ref_aesctr(dk, 32, 0, 0, in, out + 96, len);
	ref_hmac(dk + 32, 32, out, 96 + len, out + 96 + len);
	return (len + 128);
}
int
ref_faults(const uint8_t * f, size_t n, const void * pw, size_t pwlen)
{
	int x = 0, logN;
	uint32_t r, p;
	uint8_t h[32], dk[64];

	if (n < 7) return (RF_SHORT7);
	if (memcmp(f, "scrypt", 6)) x |= RF_MAGIC;
	if (f[6] != 0) x |= RF_VERSION;
	if (n < 128) x |= RF_SHORT;
	if (n < 96) return (x);
	ref_sha256(f, 48, h);
	if (memcmp(h, f + 48, 16)) x |= RF_SUM;
	logN = f[7];
	r = ((uint32_t)f[8] << 24) | ((uint32_t)f[9] << 16) | ((uint32_t)f[10] << 8) | f[11];
	p = ((uint32_t)f[12] << 24) | ((uint32_t)f[13] << 16) | ((uint32_t)f[14] << 8) | f[15];
	if (logN < 1 || logN > 63 || r == 0 || p == 0 || (uint64_t)r * p >= (1 << 30))
		return (x | RF_PARAM);
	if (ref_kdf == ref_scrypt && (logN > 16 || (uint64_t)r * p > 4096))
		return (x | RF_PASS | RF_MAC);	/* unaffordable: never valid in our harnesses */
	ref_kdf(pw, pwlen, f + 16, 32, 1ULL << logN, r, p, dk, 64);
	ref_hmac(dk + 32, 32, f, 64, h);
	if (memcmp(h, f + 64, 32)) x |= RF_PASS;
	if (n >= 128) {
		ref_hmac(dk + 32, 32, f, n - 32, h);
		if (memcmp(h, f + n - 32, 32)) x |= RF_MAC;
	}
	return (x);
}

/* ---- streams ---- */
void
vin_init(struct vin * v, const uint8_t * d, size_t n)
{
	memset(v, 0, sizeof(*v));
	v->d = d; v->n = n; v->fault_at = -1;
}
void
vout_init(struct vout * v)
{
	memset(v, 0, sizeof(*v));
	v->fault_at = -1;
}
void vout_free(struct vout * v) { free(v->d); v->d = NULL; v->n = v->cap = 0; }

static ssize_t
vin_read(void * c, char * buf, size_t sz)
{
	struct vin * v = c;
	size_t n = v->n - v->pos;
	long k = v->nread++;

	if (v->fault_at >= 0 && (k == v->fault_at || (v->fault_sticky && k > v->fault_at))) {
		if (v->fault_errno) { errno = v->fault_errno; return (-1); }
		return (0);
	}
	if (n > sz) n = sz;
	if (n && v->next) { n = v->next(v, n); }
	else if (v->chunk && n > v->chunk) n = v->chunk;
	if (n) memcpy(buf, v->d + v->pos, n);
	v->pos += n;
	return ((ssize_t)n);
}
static int
vin_close(void * c)
{
	struct vin * v = c;
	v->nclose++;
	if (v->close_errno) { errno = v->close_errno; return (-1); }
	return (0);
}
static void
vout_put(struct vout * v, const char * buf, size_t sz)
{
	if (v->sink) { v->sink(v, (const uint8_t *)buf, sz); v->n += sz; return; }
	if (v->n + sz > v->cap) {
		v->cap = (v->n + sz) * 2 + 256;
		if ((v->d = realloc(v->d, v->cap)) == NULL) vf_internal("vout: no memory");
	}
	if (sz) memcpy(v->d + v->n, buf, sz);
	v->n += sz;
}
static ssize_t
vout_write(void * c, const char * buf, size_t sz)
{
	struct vout * v = c;
	long k = v->nwrite++;

	if (v->fault_at >= 0 && (k == v->fault_at || (v->fault_sticky && k > v->fault_at))) {
		size_t a = (size_t)v->fault_partial < sz ? (size_t)v->fault_partial : sz;
		v->faulted = 1;
		if (k == v->fault_at && a > 0) { vout_put(v, buf, a); if (a == sz) {errno = v->fault_errno; return (0);} return ((ssize_t)a); }
		errno = v->fault_errno;
		return (0);	/* fopencookie: 0 means error */
	}
	if (v->has_limit && v->n + sz > v->limit) {
		size_t a = v->limit > v->n ? v->limit - v->n : 0;
		v->faulted = 1;
		if (a) { vout_put(v, buf, a); return ((ssize_t)a); }
		errno = ENOSPC;
		return (0);
	}
	vout_put(v, buf, sz);
	return ((ssize_t)sz);
}
static int
vout_close(void * c)
{
	struct vout * v = c;
	v->nclose++;
	if (v->close_errno) { v->faulted = 1; errno = v->close_errno; return (-1); }
	return (0);
}
static void
setbuf_(FILE * f, long bufsz)
{
	if (bufsz == 0) setvbuf(f, NULL, _IONBF, 0);
	else if (bufsz > 0) setvbuf(f, NULL, _IOFBF, (size_t)bufsz);
}
FILE *
vin_open(struct vin * v, long bufsz)
{
	cookie_io_functions_t io = { .read = vin_read, .close = vin_close };
	FILE * f = fopencookie(v, "r", io);
	if (!f) vf_internal("fopencookie");
	setbuf_(f, bufsz);
	return (f);
}
FILE *
vout_open(struct vout * v, long bufsz)
{
	cookie_io_functions_t io = { .write = vout_write, .close = vout_close };
	FILE * f = fopencookie(v, "w", io);
	if (!f) vf_internal("fopencookie");
	setbuf_(f, bufsz);
	return (f);
}

void
fill(uint8_t * p, size_t n, uint32_t s)
{
	size_t i;
	s = s * 2654435761u + 12345;
	for (i = 0; i < n; i++) { s = s * 1664525u + 1013904223u; p[i] = (uint8_t)(s >> 24); }
}
const char *
hex(const void * p, size_t n)
{
	static char b[4][300];
	static int k;
	char * q = b[k = (k + 1) & 3];
	size_t i;
	for (i = 0; i < n && i < 140; i++) sprintf(q + 2 * i, "%02x", ((const uint8_t *)p)[i]);
	q[2 * i] = 0;
	return (q);
}
