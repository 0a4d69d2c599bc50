#ifndef REF_H
#define REF_H
/* Independent, boring reference implementations (over OpenSSL primitives). */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

void ref_sha256(const void *, size_t, uint8_t[32]);
void ref_hmac(const void * key, size_t klen, const void * msg, size_t mlen, uint8_t out[32]);
void ref_pbkdf2(const void * pw, size_t pwlen, const void * salt, size_t saltlen, uint64_t c, uint8_t * out, size_t outlen);
int ref_scrypt(const void * pw, size_t pwlen, const void * salt, size_t saltlen, uint64_t N, uint32_t r, uint32_t p, uint8_t * out, size_t outlen);
/* AES-CTR, 64-bit nonce, 64-bit big-endian block counter, from byte position pos. */
void ref_aesctr(const uint8_t * key, size_t keylen, uint64_t nonce, uint64_t pos, const uint8_t * in, uint8_t * out, size_t len);
void ref_aesblock(const uint8_t * key, size_t keylen, const uint8_t in[16], uint8_t out[16]);

/* dk for the format; may be replaced by the harness (stubbed KDF). */
typedef int (*ref_kdf_t)(const void *, size_t, const void *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
extern ref_kdf_t ref_kdf;

/* Build an encrypted file; returns its length (len + 128). */
size_t ref_encrypt(uint8_t * out, const uint8_t * in, size_t len, const void * pw, size_t pwlen, int logN, uint32_t r, uint32_t p, const uint8_t salt[32]);
void ref_shastate(const uint8_t block[64], uint8_t out[32]);
/* Recompute the header checksum. */
void ref_fixsum(uint8_t * file);

/* Which faults an input has, as a set. */
#define RF_SHORT7 1
#define RF_MAGIC 2
#define RF_VERSION 4
#define RF_SHORT 8
#define RF_SUM 16
#define RF_PARAM 32
#define RF_PASS 64
#define RF_MAC 128
int ref_faults(const uint8_t * f, size_t n, const void * pw, size_t pwlen);

/* In-memory streams with chosen chunking and faults. */
struct vin {
	const uint8_t * d;
	size_t n, pos;
	size_t chunk;		/* at most this much per read; 0 = all */
	size_t (*next)(struct vin *, size_t want);	/* chooses how much */
	long nread;		/* reads made */
	long fault_at;		/* read index that fails (-1 never) */
	int fault_errno;	/* errno of the failure; 0 = end of file instead */
	int fault_sticky;
	long nclose;
	int close_errno;
};
struct vout {
	uint8_t * d;
	size_t n, cap;
	long nwrite;
	long fault_at;		/* write index that fails (-1 never) */
	int fault_errno;
	int fault_partial;	/* accept this many bytes first */
	int fault_sticky;
	size_t limit;		/* space: ENOSPC past it (if nonzero-ed by has_limit) */
	int has_limit;
	int faulted;
	long nclose;
	int close_errno;
	void (*sink)(struct vout *, const uint8_t *, size_t);
};
void vin_init(struct vin *, const uint8_t * d, size_t n);
void vout_init(struct vout *);
void vout_free(struct vout *);
/* bufsz: 0 = unbuffered, -1 = stdio default, else that size */
FILE * vin_open(struct vin *, long bufsz);
FILE * vout_open(struct vout *, long bufsz);

void fill(uint8_t * p, size_t n, uint32_t seed);
const char * hex(const void * p, size_t n);
#endif
