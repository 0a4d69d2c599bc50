/* C19 no secret outlives the operation; C23 running out of memory.
 * Every operation runs in a process of its own, on a stack of its own, with
 * the heap owned by the harness. */
#define _GNU_SOURCE
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "vf.h"
#include "env_heap.h"
#include "env_cpu.h"
#if PROP == 23
#define REAL_ENTROPY
#endif
#include "env_codec.h"
#include "readpass.h"
#include "passphrase_entry.h"
#include "humansize.h"
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_entropy.h"
#include "sha256.h"
extern int scrypt_main(int, char **);

/* ---------------- the secrets, never stored in the clear ---------------- */
#define MASK 0xA6
#define PWLEN 40
static const uint8_t pw_masked[PWLEN] = {
#define X(a, b, c, d) (a) ^ MASK, (b) ^ MASK, (c) ^ MASK, (d) ^ MASK
	X('q', '7', 'Z', 'k'), X('p', 'W', '3', 'v'), X('x', 'N', 'd', '9'), X('S', 'u', 'J', 'e'), X('4', 'L', 'h', 'C'),
	X('y', 'B', '6', 'm'), X('T', 'g', '1', 'F'), X('r', 'O', '8', 'a'), X('K', 'i', '5', 'V'), X('w', 'D', '2', 'n') };
static const uint8_t SALT[32] = { 9, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31 };
enum { S_PASS, S_PASS36, S_PASS5C, S_DK, S_DK36, S_DK5C, S_RK, S_RKSWAP, S_KS, S_KEY, S_KEY36, S_KEY5C, S_KEYSW, S_KEY36SW, S_KEY5CSW, S_HST, S_OUT, NSEC };
static const char * const sname[NSEC] = { "passphrase", "passphrase (HMAC inner pad)", "passphrase (HMAC outer pad)", "derived key", "derived key (HMAC inner pad)", "derived key (HMAC outer pad)", "expanded AES key", "expanded AES key (word-swapped)", "AES key stream",
	"key", "key (HMAC inner pad)", "key (HMAC outer pad)", "key (as hash input words)", "key (HMAC inner pad, as hash input words)", "key (HMAC outer pad, as hash input words)", "HMAC key state", "derived key" };
static const int s_stack[NSEC] = { 32, 0, 0, 32, 0, 0, 0, 0, 0, 32, 32, 32, 32, 32, 32, 32, 32 };	/* contiguous bytes looked for on the stack */
#define SECMAX 1024
#define OUTMAX (1 << 18)
struct shm {
	int nsec[NSEC]; uint8_t sec[NSEC][SECMAX];	/* masked */
	uint8_t pw[4096];				/* the caller's own copy, outside the search */
	/* result of one run */
	int done, armed, rc, rc2; long count; int failed, overflow;
	char fkey[60], find[300];
	int leaks; char leak[200]; int fds0, fds1;
	size_t outn; uint8_t out[OUTMAX];
	size_t errn; char err[4096];
};
static struct shm * S;
static uint64_t bitmap[1024];

static void __attribute__((noinline))
unmask(uint8_t * p, const uint8_t * m, size_t n) { size_t i; for (i = 0; i < n; i++) p[i] = m[i] ^ MASK; }
static uint32_t rotw(uint32_t x) { return ((x << 8) | (x >> 24)); }
/* Round keys of AES-256 as bytes, from single-block encryptions we can do
 * ourselves: expand with an S-box derived from arithmetic in GF(2^8). */
static uint8_t sbox(uint8_t x)
{
	uint8_t inv = 0, r; int i;
	if (x) for (i = 1; i < 256; i++) { uint8_t a = x, b = (uint8_t)i, p = 0; int k; for (k = 0; k < 8; k++) { if (b & 1) p ^= a; a = (uint8_t)((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); b >>= 1; } if (p == 1) { inv = (uint8_t)i; break; } }
	r = 0x63; for (i = 0; i < 5; i++) r ^= (uint8_t)((inv << i) | (inv >> (8 - i)));
	return (r);
}
static uint32_t subw(uint32_t w) { return ((uint32_t)sbox((uint8_t)(w >> 24)) << 24 | (uint32_t)sbox((uint8_t)(w >> 16)) << 16 | (uint32_t)sbox((uint8_t)(w >> 8)) << 8 | sbox((uint8_t)w)); }
static void
secret_add(int k, const uint8_t * p, size_t n)
{
	size_t i;
	if ((size_t)S->nsec[k] + n > SECMAX) vf_internal("secret too long");
	for (i = 0; i < n; i++) S->sec[k][(size_t)S->nsec[k] + i] = p[i] ^ MASK;
	S->nsec[k] += (int)n;
}
static void index_secrets(void);
#if PROP == 19
/* In a child: what is secret in hashing with a key of klen bytes. */
static void
hash_key(uint8_t * key, int klen) { int i; uint32_t x = 0x1234567; for (i = 0; i < klen; i++) { if (i % 32 == 0) x += 77; x = x * 1664525u + 1013904223u; key[i] = (uint8_t)(x >> 23); } }
static void
hash_secrets(int klen, int outlen, int c_)
{
	pid_t c; int st, i;
	memset(S->nsec, 0, sizeof(S->nsec));
	fflush(NULL);
	if ((c = vf_fork()) == 0) {
		uint8_t key[256], k64[64], kh[32], pad[64], sw[256]; int j;
		hash_key(key, klen);
		secret_add(S_KEY, key, (size_t)klen);
		for (i = 0; i + 4 <= klen; i += 4) for (j = 0; j < 4; j++) sw[i + j] = key[i + 3 - j];
		secret_add(S_KEYSW, sw, (size_t)(klen / 4 * 4));
		memset(k64, 0, 64);
		if (klen > 64) { ref_sha256(key, (size_t)klen, kh); memcpy(k64, kh, 32); secret_add(S_KEY, kh, 32); i = 32; } else { memcpy(k64, key, (size_t)klen); i = klen; }
		st = i;
		for (i = 0; i < 64; i++) pad[i] = k64[i] ^ 0x36;
		secret_add(S_KEY36, pad, (size_t)st);
		for (i = 0; i < 64; i += 4) for (j = 0; j < 4; j++) sw[i + j] = pad[i + 3 - j];
		secret_add(S_KEY36SW, sw, (size_t)(st / 4 * 4));
		ref_shastate(pad, sw); secret_add(S_HST, sw, 32);
		for (i = 0; i < 64; i++) pad[i] = k64[i] ^ 0x5c;
		secret_add(S_KEY5C, pad, (size_t)st);
		for (i = 0; i < 64; i += 4) for (j = 0; j < 4; j++) sw[i + j] = pad[i + 3 - j];
		secret_add(S_KEY5CSW, sw, (size_t)(st / 4 * 4));
		ref_shastate(pad, sw); secret_add(S_HST, sw, 32);
		if (outlen) { ref_pbkdf2(key, (size_t)klen, SALT, 32, (uint64_t)c_, sw, (size_t)((outlen + 31) / 32 * 32)); secret_add(S_OUT, sw, (size_t)((outlen + 31) / 32 * 32)); }
		_exit(0);
	}
	if (c < 0) vf_internal("fork");
	while (waitpid(c, &st, 0) < 0 && errno == EINTR) continue;
	if (st) vf_internal("computing the secrets");
	index_secrets();
}
#endif
/* In a child: compute what is secret for (pass, N, r, p, salt). */
static void
secrets(uint64_t N, uint32_t r, uint32_t p, const uint8_t * salt)
{
	pid_t c; int st, i, k;
	memset(S->nsec, 0, sizeof(S->nsec));
	fflush(NULL);
	if ((c = vf_fork()) == 0) {
		uint8_t pw[PWLEN], pad[64], dk[64], ks[512], z[512]; uint32_t w[60]; uint8_t rk[240];
		unmask(pw, pw_masked, PWLEN);
		secret_add(S_PASS, pw, PWLEN);
		for (i = 0; i < 64; i++) pad[i] = (uint8_t)((i < PWLEN ? pw[i] : 0) ^ 0x36);
		secret_add(S_PASS36, pad, PWLEN);
		for (i = 0; i < 64; i++) pad[i] ^= 0x36 ^ 0x5c;
		secret_add(S_PASS5C, pad, PWLEN);
		if (ref_scrypt(pw, PWLEN, salt, 32, N, r, p, dk, 64)) _exit(1);
		secret_add(S_DK, dk, 64);
		for (i = 0; i < 32; i++) pad[i] = dk[32 + i] ^ 0x36;
		secret_add(S_DK36, pad, 32);
		for (i = 0; i < 32; i++) pad[i] = dk[32 + i] ^ 0x5c;
		secret_add(S_DK5C, pad, 32);
		for (i = 0; i < 8; i++) w[i] = (uint32_t)dk[4 * i] << 24 | (uint32_t)dk[4 * i + 1] << 16 | (uint32_t)dk[4 * i + 2] << 8 | dk[4 * i + 3];
		for (i = 8, k = 1; i < 60; i++) {
			uint32_t t = w[i - 1];
			if (i % 8 == 0) { t = subw(rotw(t)) ^ ((uint32_t)k << 24); k <<= 1; } else if (i % 8 == 4) t = subw(t);
			w[i] = w[i - 8] ^ t;
		}
		for (i = 0; i < 60; i++) { rk[4 * i] = (uint8_t)(w[i] >> 24); rk[4 * i + 1] = (uint8_t)(w[i] >> 16); rk[4 * i + 2] = (uint8_t)(w[i] >> 8); rk[4 * i + 3] = (uint8_t)w[i]; }
		secret_add(S_RK, rk, 240);
		secret_add(S_RKSWAP, (uint8_t *)w, 240);
		memset(z, 0, sizeof(z));
		ref_aesctr(dk, 32, 0, 0, z, ks, 256);
		secret_add(S_KS, ks, 256);
		_exit(0);
	}
	if (c < 0) vf_internal("fork");
	while (waitpid(c, &st, 0) < 0 && errno == EINTR) continue;
	if (st) vf_internal("computing the secrets");
	index_secrets();
	(void)k;
}
static void
index_secrets(void)
{
	int i, k;
	memset(bitmap, 0, sizeof(bitmap));
	for (k = 0; k < NSEC; k++)
		for (i = 0; i + 16 <= S->nsec[k]; i++) {
			unsigned b = (unsigned)(S->sec[k][i] ^ MASK) | (unsigned)(S->sec[k][i + 1] ^ MASK) << 8;
			bitmap[b >> 6] |= 1ULL << (b & 63);
		}
}
static void
scan(const void * mem, size_t n, int stack, const char * where)
{
	const uint8_t * p = mem; size_t i; int k, o, j;
	if (S->fkey[0] || n < 16) return;
	for (i = 0; i + 16 <= n; i++) {
		unsigned b = (unsigned)p[i] | (unsigned)p[i + 1] << 8;
		if (!(bitmap[b >> 6] >> (b & 63) & 1)) continue;
		for (k = 0; k < NSEC; k++) {
			int win = stack ? s_stack[k] : 16;
			if (win == 0 || i + (size_t)win > n) continue;
			for (o = 0; o + win <= S->nsec[k]; o++) {
				for (j = 0; j < win && (p[i + (size_t)j] ^ MASK) == S->sec[k][o + j]; j++) continue;
				if (j == win) {
					snprintf(S->fkey, sizeof(S->fkey), "%s:%s", where, sname[k]);
					snprintf(S->find, sizeof(S->find), "%s left in memory (%s): bytes %d.. of it at offset %zu of %zu", sname[k], where, o, i, n);
					return;
				}
			}
		}
	}
}

/* ---------------- the outside world ---------------- */
static int wfd_tty = -1, sim_tty, tc_fail;
static int is_tty_path(const char * p) { return (!strcmp(p, "/dev/tty")); }
static struct termios TS;
FILE * __real_fopen(const char *, const char *); FILE * __wrap_fopen(const char *, const char *);
FILE * __wrap_fopen(const char * p, const char * m)
{
	char b[64];
	if (hp_on) S->armed = 1;
	if (!is_tty_path(p)) return (__real_fopen(p, m));
	if (wfd_tty < 0) { errno = ENXIO; return (NULL); }
	snprintf(b, sizeof(b), "/proc/self/fd/%d", wfd_tty);
	return (__real_fopen(b, m));
}
int __real_isatty(int); int __wrap_isatty(int fd); int __wrap_isatty(int fd) { (void)fd; if (!sim_tty) errno = ENOTTY; return (sim_tty); }
int __wrap_tcgetattr(int fd, struct termios * t); int __wrap_tcgetattr(int fd, struct termios * t) { (void)fd; if (tc_fail == 1) { errno = EIO; return (-1); } *t = TS; return (0); }
int __wrap_tcsetattr(int fd, int how, const struct termios * t); int __wrap_tcsetattr(int fd, int how, const struct termios * t) { (void)fd; (void)how; if (tc_fail == 2) { errno = EIO; return (-1); } TS = *t; return (0); }
#if PROP == 23
static uint64_t clk;
int __wrap_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec * t) { (void)id; clk += 300000; t->tv_sec = (time_t)(1000 + clk / 1000000000); t->tv_nsec = (long)(clk % 1000000000); return (0); }
#endif

static int
count_fds(void)
{
	int i, n = 0;
	for (i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++;
	return (n);
}
/* ---------------- operations ---------------- */
enum { O_ENCBUF, O_DECBUF, O_ENCFILE, O_DECFILE, O_DECFILE1, O_PRINT, O_READPASS, O_PASSFILE, O_ENV, O_CLI, O_HUMAN, O_HUMANPARSE, O_AES, O_KDF, O_HASH, NOP };
static const char * const oname[NOP] = { "scryptenc_buf", "scryptdec_buf", "scryptenc_file", "scryptdec_file_prep/copy", "scryptdec_file", "scryptdec_file_printparams", "readpass", "readpass_file", "passphrase_entry env", "command", "humansize", "humansize_parse", "AES-CTR", "crypto_scrypt", "hashing" };
enum { V_GOOD, V_PASS, V_MAC, V_SUM, V_LIMIT, V_SHORT, V_VERSION, V_ENTROPY };
static const char * const vname[] = { "good", "wrong passphrase", "bad MAC", "bad checksum", "over the limit", "short", "wrong version", "no entropy" };
struct opc {
	int op, size, variant, fault, fpos, force, verbose, warm;
	int devtty, confirm, script, tty, tc;
	int mode, method, out;		/* command: 0 enc 1 dec 2 info; passphrase method; output file/stdout/unopenable/full */
	uint64_t hs;
};
static uint8_t * FILEDATA; static size_t FILELEN;	/* an encrypted file */
static uint8_t * PLAIN; static size_t PLAINLEN;
static char dir[300];
static const char * const mname[] = { "env:", "file:", "dev:stdin-once", "dev:tty-once", "dev:tty-stdin" };

static char *
describe(const struct opc * o)
{
	static char b[600];
	if (o->op == O_CLI) snprintf(b, sizeof(b), "command %s, %d bytes, %s, passphrase %s, output %s%s%s", o->mode == 0 ? "enc" : o->mode == 1 ? "dec" : "info", o->size, vname[o->variant], mname[o->method],
	    o->out == 0 ? "file" : o->out == 1 ? "stdout" : o->out == 2 ? "cannot be opened" : "full device", o->force ? ", -f" : "", o->verbose ? ", -v" : "");
	else if (o->op == O_READPASS) snprintf(b, sizeof(b), "readpass devtty %d%s, script %d, tty %d, tc failure %d", o->devtty, o->confirm ? " with confirmation" : "", o->script, o->tty, o->tc);
	else if (o->op == O_HASH) snprintf(b, sizeof(b), "hashing operation %d, key %d bytes, second length %d", o->script, o->size, o->fpos);
	else if (o->op == O_PASSFILE) snprintf(b, sizeof(b), "readpass_file, script %d", o->script);
	else if (o->op == O_HUMAN) snprintf(b, sizeof(b), "humansize(%llu)", (unsigned long long)o->hs);
	else snprintf(b, sizeof(b), "%s, %d bytes, %s, %s fault at %d%s%s%s", oname[o->op], o->size, vname[o->variant], o->fault == 0 ? "no" : o->fault == 1 ? "read" : "write", o->fpos, o->force ? ", forced" : "", o->verbose ? ", verbose" : "", o->warm ? ", second use" : "");
	return (b);
}
#define IS_DEC(o) ((o)->op == O_DECBUF || (o)->op == O_DECFILE || (o)->op == O_DECFILE1 || (o)->op == O_PRINT || ((o)->op == O_CLI && (o)->mode > 0))
static uint8_t encsalt[32];
#define OPN(o) ((o)->op == O_CLI ? 10 : 1)

static int errfd = -1;
/* In the parent: data, file and secrets of this operation. */
static void
prepare(const struct opc * o)
{
	static int have = -1; int key, i; uint8_t * f; pid_t c;
	if (o->op == O_HASH) {
		if (S == NULL) { struct opc t; memset(&t, 0, sizeof(t)); t.size = 200; prepare(&t); }
#if PROP == 19
		hash_secrets(o->size, o->script == 4 ? o->fpos : 0, o->variant ? 3 : 1);
#endif
		have = -1;
		return;
	}
	key = o->op == O_CLI ? 1000000 + o->size : o->size;
	if (key == have) return;
	have = key;
	if (S == NULL) {
		S = __real_mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		PLAIN = __real_mmap(NULL, OUTMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		FILEDATA = __real_mmap(NULL, OUTMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (S == MAP_FAILED || PLAIN == MAP_FAILED || FILEDATA == MAP_FAILED) vf_internal("mmap");
	}
	/* one salt for everything, so that one set of secrets covers both directions */
	for (i = 0; i < 32; i++) encsalt[i] = (uint8_t)(7 * i + 11);
	PLAINLEN = (size_t)o->size; fill(PLAIN, PLAINLEN, 77);
	FILELEN = PLAINLEN + 128;
	fflush(NULL);
	if ((c = vf_fork()) == 0) {
		uint8_t pw[PWLEN]; unmask(pw, pw_masked, PWLEN);
		ref_kdf = ref_scrypt;
		f = __libc_malloc(FILELEN);
		ref_encrypt(f, PLAIN, PLAINLEN, pw, PWLEN, OPN(o), 1, 1, encsalt);
		memcpy(FILEDATA, f, FILELEN);
		_exit(0);
	}
	while (waitpid(c, &i, 0) < 0 && errno == EINTR) continue;
	if (i) vf_internal("reference file");
	secrets(1ULL << OPN(o), 1, 1, encsalt);
}

/* State of the child. */
static struct vin vi; static struct vout vo; static FILE * fi, * fo;
static uint8_t * dbuf, * obuf; static size_t dlen;
static char * argvv[24]; static int argcc;
int __real_unlink(const char *);
static char passpath[340], inpath[340], outpath[340], envstr_[8];
static ucontext_t uc_main, uc_op;
static uint8_t * stk;
#define STKSZ (512 << 10)
static volatile int op_phase;
static const struct opc * O;

#if PROP == 19
static void hash_op(const struct opc *);
#endif
static void
op_body(const struct opc * o)
{
	struct scryptenc_params P = PARAMS(0, 0, 0);
	const uint8_t * pw = S->pw; size_t pl = PWLEN;
	struct scryptdec_file_cookie * C; char * r; uint64_t h;
	struct crypto_aes_key * K; struct crypto_aesctr * A;
	P.maxmem = 0; P.maxmemfrac = 0.125; P.maxtime = 5.0;

	switch (o->op) {
	case O_ENCBUF:
		P.logN = 1; P.r = P.p = 1;
		S->rc = scryptenc_buf(PLAIN, PLAINLEN, obuf, pw, pl, &P, o->verbose, o->force);
		if (S->rc == 0) S->outn = PLAINLEN + 128;
		break;
	case O_DECBUF:
		S->rc = scryptdec_buf(dbuf, dlen, obuf, &S->outn, pw, pl, &P, o->verbose, o->force);
		if (S->rc) S->outn = 0;
		break;
	case O_ENCFILE:
		P.logN = 1; P.r = P.p = 1;
		S->rc = scryptenc_file(fi, fo, pw, pl, &P, o->verbose, o->force);
		break;
	case O_DECFILE:
		if ((S->rc = scryptdec_file_prep(fi, pw, pl, &P, o->verbose, o->force, &C)) == 0) {
			S->rc = scryptdec_file_copy(C, fo);
			scryptdec_file_cookie_free(C);
		}
		break;
	case O_DECFILE1:
		S->rc = scryptdec_file(fi, fo, pw, pl, &P, o->verbose, o->force);
		break;
	case O_PRINT:
		S->rc = scryptdec_file_printparams(fi);
		break;
	case O_READPASS:
	case O_PASSFILE:
	case O_ENV:
		if (o->op == O_READPASS) S->rc = readpass(&r, "prompt", o->confirm ? "again" : NULL, o->devtty);
		else if (o->op == O_PASSFILE) S->rc = readpass_file(&r, passpath);
		else S->rc = passphrase_entry_readpass(&r, PASSPHRASE_ENV, o->script ? "VF_NONE" : "VF_PASS", "a", "b", 1);
		if (S->rc == 0) {
			S->outn = strlen(r);
			/* as the callers do */
			hp_on = 0; { size_t i; for (i = 0; i < S->outn; i++) S->out[i] = (uint8_t)r[i] ^ MASK; } hp_on = 1;
			{ volatile char * v = r; size_t i; for (i = 0; i < S->outn; i++) v[i] = 0; }
			free(r);
		}
		break;
	case O_CLI:
		exit(scrypt_main(argcc, argvv));
#if PROP == 19
	case O_HASH: hash_op(o); break;
#endif
	case O_HUMAN:
		if ((r = humansize(o->hs)) == NULL) S->rc = -1;
		else { S->rc = 0; S->outn = strlen(r); memcpy(S->out, r, S->outn); free(r); }
		break;
	case O_HUMANPARSE:
		S->rc = humansize_parse("12 MB", &h); S->outn = 8; memcpy(S->out, &h, 8);
		break;
	case O_AES:
		if ((K = crypto_aes_key_expand(SALT, o->size)) == NULL) { S->rc = -1; break; }
		if (o->variant) { if ((A = crypto_aesctr_init(K, 5)) == NULL) { crypto_aes_key_free(K); S->rc = -1; break; } crypto_aesctr_stream(A, PLAIN, S->out, 32); crypto_aesctr_free(A); }
		else { if ((A = crypto_aesctr_alloc()) == NULL) { crypto_aes_key_free(K); S->rc = -1; break; } crypto_aesctr_init2(A, K, 5); crypto_aesctr_stream(A, PLAIN, S->out, 32); crypto_aesctr_free(A); }
		S->outn = 32; S->rc = 0;
		crypto_aes_key_free(K);
		break;
	case O_KDF:
		S->rc = crypto_scrypt(pw, pl, SALT, 32, 16, 2, (uint32_t)o->size, S->out, 64);
		if (S->rc == 0) S->outn = 64;
		break;
	}
}
#if PROP == 19
static const char * const hname[] = { "SHA256_Buf", "SHA256_Init/Update/Final", "HMAC_SHA256_Buf", "HMAC_SHA256_Init/Update/Final", "PBKDF2_SHA256", "SHA256 byte by byte", "SHA256_Update then the caller clears" , "HMAC_SHA256_Init then the caller clears", "HMAC_SHA256_Buf of a secret", "HMAC_SHA256_Init/Update/Final of a secret", "HMAC_SHA256_Update of a secret, then the caller clears" };
#define NHASH 11
static void wipe(void * p, size_t n) { volatile uint8_t * v = p; while (n--) *v++ = 0; }
static void __attribute__((noinline))
hash_op(const struct opc * o)
{
	SHA256_CTX c; HMAC_SHA256_CTX h; size_t n = (size_t)o->size, i, m = (size_t)o->fpos;
	const uint8_t * key = S->pw;
	switch (o->script) {
	case 0: SHA256_Buf(key, n, S->out); break;
	case 1: SHA256_Init(&c); SHA256_Update(&c, key, m < n ? m : n); if (m < n) SHA256_Update(&c, key + m, n - m); SHA256_Final(S->out, &c); break;
	case 2: HMAC_SHA256_Buf(key, n, PLAIN, m, S->out); break;
	case 3: HMAC_SHA256_Init(&h, key, n); HMAC_SHA256_Update(&h, PLAIN, m); HMAC_SHA256_Final(S->out, &h); break;
	case 4: PBKDF2_SHA256(key, n, SALT, 32, o->variant ? 3 : 1, S->out, m); break;
	case 5: SHA256_Init(&c); for (i = 0; i < n; i++) SHA256_Update(&c, key + i, 1); SHA256_Final(S->out, &c); break;
	case 6: SHA256_Init(&c); SHA256_Update(&c, key, n); wipe(&c, sizeof(c)); break;
	case 8: HMAC_SHA256_Buf(SALT, 32, key, n, S->out); break;
	case 9: HMAC_SHA256_Init(&h, SALT, 32); HMAC_SHA256_Update(&h, key, m < n ? m : n); if (m < n) HMAC_SHA256_Update(&h, key + m, n - m); HMAC_SHA256_Final(S->out, &h); break;
	case 10: HMAC_SHA256_Init(&h, SALT, 32); HMAC_SHA256_Update(&h, key, n); wipe(&h, sizeof(h)); break;
	case 7: HMAC_SHA256_Init(&h, key, n); wipe(&h, sizeof(h)); break;
	}
}
#endif
static void
op_entry(void)
{
	op_body(O);
	hp_on = 0;
	op_phase = 1;
	swapcontext(&uc_op, &uc_main);
}
static void
at_exit(int rc, void * c)
{
	(void)c;
	if (op_phase != 0) return;
	hp_on = 0;
	S->rc = rc;
	op_phase = 2;
	swapcontext(&uc_op, &uc_main);
}
static int
is_stdbuf(const void * p)
{
	FILE * f[3]; int i;
	f[0] = stdin; f[1] = stdout; f[2] = stderr;
	for (i = 0; i < 3; i++) if (p == (const void *)f[i]->_IO_buf_base) return (1);
	return (0);
}
static void release(const void * p, size_t n, const char * how)
{
	const char * w = !strcmp(how, "munmap") ? "unmapped" : "freed";
	scan(p, n, 0, w);
}
static void
put(int fd, const char * s, size_t n) { if (n && write(fd, s, n) != (ssize_t)n) _exit(9); }
/* The passphrase, then `extra`, into a file. */
static void putpw(int fd, const char * extra) { put(fd, (char *)S->pw, PWLEN); put(fd, extra, strlen(extra)); }

static void
child(const struct opc * o, long fail_at, int sticky)
{
	int i, fd, n, e; static char envs[8]; extern char __data_start[], _end[];
	static const char * const wrongpw = "a different passphrase altogether";

	O = o;
	stk = __real_mmap(NULL, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	memset(stk, 0xC7, STKSZ);
	env_reset(); env_saltmode = 0;
#if PROP == 23
	env_saltmode = 2;
#endif
	env_memlimit = o->variant == V_LIMIT ? 100 : 1 << 28; env_opps = 1e9;
	env_entropyfail = o->variant == V_ENTROPY ? EIO : 0;
	obuf = __real_mmap(NULL, OUTMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	dbuf = __real_mmap(NULL, OUTMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	unmask(S->pw, pw_masked, PWLEN); S->pw[PWLEN] = 0;
#if PROP == 19
	if (o->op == O_HASH) hash_key(S->pw, o->size);
#endif
	memcpy(dbuf, FILEDATA, FILELEN); dlen = FILELEN;
	if (o->variant == V_MAC) dbuf[dlen - 1] ^= 1;
	if (o->variant == V_SUM) dbuf[50] ^= 1;
	if (o->variant == V_VERSION) dbuf[6] = 1;
	if (o->variant == V_SHORT) dlen = o->op == O_DECBUF || o->fpos == 0 ? 120 : 60;
	if (IS_DEC(o) && o->variant == V_PASS) { dbuf[64] ^= 1; }

	/* standard streams */
	dup2(errfd, 2); close(errfd);
	if (o->op == O_CLI || o->op == O_READPASS) {
		int infd = memfd_create("in", 0), tfd = -1;
		if (o->op == O_READPASS) {
			switch (o->script) {
			case 0: putpw(infd, "\n"); putpw(infd, "\n"); break;
			case 1: putpw(infd, "x\n"); putpw(infd, "\n"); putpw(infd, "\n"); putpw(infd, "\n"); break;
			case 2: putpw(infd, "\n"); break;
			case 3: putpw(infd, ""); break;
			case 4: { char big[2100]; memset(big, 'b', sizeof(big)); big[2099] = 0; putpw(infd, big); put(infd, "\n", 1); break; }
			case 5: putpw(infd, "\n"); { char big[2100]; memset(big, 'b', sizeof(big)); big[2099] = 0; putpw(infd, big); put(infd, "\n", 1); } break;
			case 6: break;
			/* mistyped first entry, second entry; then two shorter ones which agree */
			case 7: putpw(infd, "\n"); put(infd, "y\ny\ny\n", 6); break;
			case 8: put(infd, "y\n", 2); putpw(infd, "\n"); put(infd, "y\ny\n", 4); break;
			}
			if (o->devtty != 0) { tfd = infd; infd = open("/dev/null", O_RDONLY); }
			if (o->tty == 2) { close(infd); infd = tfd; tfd = -1; }	/* devtty 1 without a terminal: standard input */
			sim_tty = o->tty == 1; tc_fail = o->tc;
		} else {
			if (o->method == 2) putpw(infd, "\n");
			if (o->method >= 3) { tfd = memfd_create("tty", 0); putpw(tfd, "\n"); putpw(tfd, "\n"); lseek(tfd, 0, SEEK_SET); }
		}
		lseek(infd, 0, SEEK_SET);
		dup2(infd, 0); close(infd);
		if (tfd >= 0) { wfd_tty = fcntl(tfd, F_DUPFD, 100); close(tfd); }
	}
	setvbuf(stderr, NULL, _IONBF, 0);
	snprintf(passpath, sizeof(passpath), "%s/pass", dir); snprintf(inpath, sizeof(inpath), "%s/in", dir); snprintf(outpath, sizeof(outpath), "%s/out", dir);
	if (o->op >= O_PASSFILE) unlink(passpath), unlink(inpath), unlink(outpath);
	(void)envs; (void)envstr_;
	{ char * e2 = __real_mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	memcpy(e2, "VF_PASS=", 8); memcpy(e2 + 8, S->pw, PWLEN + 1); putenv(e2); unsetenv("VF_NONE"); }
	if (o->op == O_PASSFILE || (o->op == O_CLI && o->method == 1)) {
		fd = open(passpath, O_CREAT | O_WRONLY | O_TRUNC, 0600);
		switch (o->op == O_CLI ? 0 : o->script) {
		case 0: putpw(fd, "\n"); break;
		case 1: putpw(fd, ""); break;
		case 2: putpw(fd, "\n"); put(fd, "second\n", 7); break;
		case 3: { char big[2100]; memset(big, 'b', sizeof(big)); big[2099] = 0; putpw(fd, big); break; }
		case 4: putpw(fd, "\r\n"); break;
		case 5: close(fd); fd = -1; unlink(passpath); break;
		}
		if (fd >= 0) close(fd);
	}
	if (o->op == O_CLI) {
		static char a[24][360]; int k = 0;
		fd = open(inpath, O_CREAT | O_WRONLY | O_TRUNC, 0600);
		if (o->mode == 0) put(fd, (char *)PLAIN, PLAINLEN); else put(fd, (char *)dbuf, dlen);
		close(fd);
		strcpy(a[k++], "scrypt");
		strcpy(a[k++], o->mode == 0 ? "enc" : o->mode == 1 ? "dec" : "info");
		if (o->mode == 0) { strcpy(a[k++], "--logN"); strcpy(a[k++], "10"); strcpy(a[k++], "-r"); strcpy(a[k++], "1"); strcpy(a[k++], "-p"); strcpy(a[k++], "1"); }
		if (o->force) strcpy(a[k++], "-f");
		if (o->verbose) strcpy(a[k++], "-v");
		if (o->mode != 2) {
			strcpy(a[k++], "--passphrase");
			if (o->method == 0) strcpy(a[k++], "env:VF_PASS"); else if (o->method == 1) snprintf(a[k++], 360, "file:%s", passpath); else strcpy(a[k++], mname[o->method]);
		}
		strcpy(a[k++], inpath);
		if (o->mode != 2 && o->out != 1) { if (o->out == 2) snprintf(a[k++], 360, "%s/no/such/dir", dir); else if (o->out == 3) { snprintf(a[k], 360, "%s/full", dir); __real_unlink(a[k]); if (symlink("/dev/full", a[k])) _exit(97); k++; } else strcpy(a[k++], outpath); }
		for (i = 0; i < k; i++) argvv[i] = a[i];
		argvv[k] = NULL; argcc = k;
		fd = memfd_create("out", 0); dup2(fd, 1); close(fd);
		on_exit(at_exit, NULL);
	}
	if (o->op == O_ENCFILE || o->op == O_DECFILE || o->op == O_DECFILE1 || o->op == O_PRINT) {
		if (o->op == O_ENCFILE) vin_init(&vi, PLAIN, PLAINLEN); else vin_init(&vi, dbuf, dlen);
		vout_init(&vo); vo.d = malloc(OUTMAX); vo.cap = OUTMAX;
		if (o->fault == 1) { vi.fault_at = o->fpos; vi.fault_errno = EIO; }
		if (o->fault == 2) { vo.fault_at = o->fpos; vo.fault_errno = ENOSPC; }
		/* a buffer that is not the heap's */
		fi = vin_open(&vi, 0); fo = vout_open(&vo, 0);
	}
	(void)wrongpw;
#if PROP == 19
	if (o->op == O_HASH) { uint8_t t[32]; SHA256_Buf("a", 1, t); }
#endif
	if (o->warm) {
		uint8_t t[64]; struct crypto_aes_key * K;
		crypto_scrypt((const uint8_t *)"x", 1, SALT, 32, 2, 1, 1, t, 64);
		K = crypto_aes_key_expand(SALT, 32); crypto_aes_key_free(K);
	}
	S->fds0 = count_fds();
	hp_release = PROP == 19 ? release : NULL;
	getcontext(&uc_op);
	uc_op.uc_stack.ss_sp = stk; uc_op.uc_stack.ss_size = STKSZ; uc_op.uc_link = &uc_main;
	makecontext(&uc_op, op_entry, 0);
	hp_start(fail_at, sticky);
	swapcontext(&uc_main, &uc_op);
	hp_on = 0; hp_release = NULL;
	e = hp_n;
	S->fds1 = count_fds();
	S->count = hp_count; S->failed = hp_failed; S->overflow = hp_overflow;
	/* what is still there */
	for (i = 0; i < e; i++) {
		if (!hp_t[i].map && is_stdbuf(hp_t[i].p)) continue;
		S->leaks++;
		if (!S->leak[0]) snprintf(S->leak, sizeof(S->leak), "%s of %zu bytes", hp_t[i].map ? "mapping" : "block", hp_t[i].n);
#if PROP == 19
		scan(hp_t[i].p, hp_t[i].n, 0, "never released");
#endif
	}
#if PROP == 19
	{ uint8_t * b = (uint8_t *)(((uintptr_t)__data_start) & ~(uintptr_t)15); scan(b, (size_t)((uint8_t *)_end - b), 0, "static data"); }
	scan(stk, STKSZ, 1, "stack");
#else
	(void)__data_start; (void)_end;
#endif
	hp_n = 0;
	/* outcome */
	if (op_phase == 2) {
		if (fflush(stdout)) S->rc2 = 1;
		if (o->out == 1 || o->mode == 2) fd = dup(1); else fd = open(outpath, O_RDONLY);
		S->outn = 0;
		if (fd >= 0) { lseek(fd, 0, SEEK_SET); while ((n = (int)read(fd, S->out + S->outn, OUTMAX - S->outn)) > 0) S->outn += (size_t)n; }
	} else if (o->op == O_ENCFILE || o->op == O_DECFILE || o->op == O_DECFILE1) {
		memcpy(S->out, vo.d, vo.n); S->outn = vo.n;
	} else if (o->op == O_ENCBUF || o->op == O_DECBUF)
		memcpy(S->out, obuf, S->outn);
	S->done = 1;
	_exit(0);
}
/* One run; returns the wait status. */
static int
run(const struct opc * o, long fail_at, int sticky)
{
	pid_t c; int st;
	prepare(o);
	snprintf(dir, sizeof(dir), "%s", vf_privdir());
	memset((char *)S + offsetof(struct shm, done), 0, offsetof(struct shm, out) - offsetof(struct shm, done));
	S->errn = 0; S->err[0] = 0;
	fflush(NULL);
	errfd = memfd_create("err", 0);
	if ((c = vf_fork()) == 0) { alarm(60); child(o, fail_at, sticky); }
	if (c < 0) vf_internal("fork");
	while (waitpid(c, &st, 0) < 0 && errno == EINTR) continue;
	{ ssize_t n = pread(errfd, S->err, sizeof(S->err) - 1, 0); S->errn = n > 0 ? (size_t)n : 0; S->err[S->errn] = 0; close(errfd); }
	if (S->overflow) vf_internal("allocation table full");
	return (st);
}

/* ---------------- choosing operations ---------------- */
static void
choose_lib(struct opc * o)
{
	static const int encv[] = { V_GOOD, V_ENTROPY };
	static const int decv[] = { V_GOOD, V_PASS, V_MAC, V_SUM, V_LIMIT, V_SHORT, V_VERSION };
	memset(o, 0, sizeof(*o));
	o->op = vf_choose("operation", O_PRINT + 1);
	o->warm = vf_choose("warm", 2);
	o->size = vf_choose("size", 3); o->size = o->size == 0 ? 0 : o->size == 1 ? 200 : 66000;
	if (o->op == O_ENCBUF || o->op == O_ENCFILE) o->variant = encv[vf_choose("variant", PROP == 19 ? 2 : 1)];
	else o->variant = decv[vf_choose("variant", 7)];
	o->force = o->variant != V_LIMIT;
#if PROP == 23
	o->verbose = vf_choose("verbose", 2);
	if (o->variant == V_LIMIT) o->variant = V_GOOD;
	o->force = vf_choose("force", 2);
#endif
	if (o->op >= O_ENCFILE && o->op <= O_DECFILE1 && (o->variant == V_GOOD || o->variant == V_MAC)) {
		o->fault = vf_choose("fault", 3);
		if (o->fault) o->fpos = vf_choose("position", o->fault == 1 ? 8 : 6);
	} else if (o->variant == V_SHORT) o->fpos = vf_choose("cut", 2);
}
static void
choose_pass(struct opc * o)
{
	memset(o, 0, sizeof(*o));
	o->size = 200;
	switch (vf_choose("entry", 3)) {
	case 0:
		o->op = O_READPASS;
		o->devtty = vf_choose("devtty", 3); o->confirm = vf_choose("confirm", 2); o->script = vf_choose("script", 9);
		o->tty = vf_choose("tty", o->devtty == 1 ? 3 : 2);
		if (o->tty == 1) o->tc = vf_choose("tc", 3);
		break;
	case 1: o->op = O_PASSFILE; o->script = vf_choose("script", 6); break;
	case 2: o->op = O_ENV; o->script = vf_choose("script", 2); break;
	}
}
static void
choose_cli(struct opc * o)
{
	static const int decv[] = { V_GOOD, V_PASS, V_MAC, V_SUM, V_SHORT, V_LIMIT };
	memset(o, 0, sizeof(*o));
	o->op = O_CLI;
	o->mode = vf_choose("mode", PROP == 23 ? 3 : 2);
	o->size = vf_choose("size", 2) ? 66000 : 200;
	if (o->mode) o->variant = decv[vf_choose("variant", PROP == 23 ? 3 : 6)];
	o->force = 1;
	if (o->mode != 2) {
		o->method = vf_choose("method", 5);
		o->out = vf_choose("output", 4);
		o->verbose = vf_choose("verbose", 2);
		if (o->variant == V_LIMIT) o->force = 0;
#if PROP == 23
		o->force = vf_choose("force", 2);
#endif
	}
}

#if PROP == 19
static void
secret_check(const struct opc * o, long k, int st)
{
	vf_eval();
	if (!S->done && WIFSIGNALED(st)) return;	/* C10 and C23 deal with crashes; a dead process keeps nothing */
	if (!S->done) vf_internal("operation did not finish (%d): %s", st, describe(o));
	if (S->fkey[0]) vf_fail(S->fkey, "%s; %s%s%ld: %s (result %d)", describe(o), k < 0 ? "no allocation failure" : "failing allocation ", k < 0 ? " " : "", k, S->find, S->rc);
	vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)(k + 2) + (o->op == O_HASH ? (uint64_t)(o->size * 1000 + o->fpos) << 20 : 0)));
	vf_outcome(vf_hash2((uint64_t)o->op, (uint64_t)(uint32_t)S->rc));
	vf_sample("%s; %ld allocations, failing %ld: result %d, nothing left", describe(o), S->count, k, S->rc);
}
static void
explore(const struct opc * o)
{
	long k, n; int st;
	vf_note("%s", describe(o));
	st = run(o, -1, 0);
	secret_check(o, -1, st);
	n = S->count;
	for (k = 0; k < n; k++) { st = run(o, k, 0); secret_check(o, k, st); }
}
#else
static uint8_t * base_out; static size_t base_outn; static char base_err[4096];
/* Every line of a occurs in b. */
static int
lines_in(const char * a, const char * b)
{
	while (*a) {
		size_t n = strcspn(a, "\n"); char t[600];
		if (n < sizeof(t)) { memcpy(t, a, n); t[n] = 0; if (!strstr(b, t)) return (0); }
		a += n; if (*a == '\n') a++;
	}
	return (1);
}
/* Is this output right for a successful operation? */
static int
output_ok(const struct opc * o)
{
	if (o->op == O_ENCBUF || o->op == O_ENCFILE || (o->op == O_CLI && o->mode == 0 && o->out != 3)) {
		uint8_t pw[PWLEN]; static uint8_t * x; static uint8_t memo[32]; static size_t memon; size_t n;
		if (x == NULL) x = __libc_malloc(OUTMAX);
		if (S->outn != PLAINLEN + 128) return (0);
		if (memcmp(S->out, "scrypt", 6) || S->out[6] || S->out[7] != OPN(o)) return (0);
		(void)memo; (void)memon;
		unmask(pw, pw_masked, PWLEN); ref_kdf = ref_scrypt;
		n = ref_encrypt(x, PLAIN, PLAINLEN, pw, PWLEN, OPN(o), 1, 1, S->out + 16);
		return (n == S->outn && memcmp(x, S->out, n) == 0);
	}
	if (o->op == O_DECBUF || o->op == O_DECFILE || o->op == O_DECFILE1 || (o->op == O_CLI && o->mode == 1 && o->out != 3))
		return (S->outn == PLAINLEN && memcmp(S->out, PLAIN, PLAINLEN) == 0);
	return (S->outn == base_outn && memcmp(S->out, base_out, base_outn) == 0);
}
static void
explore(const struct opc * o)
{
	long k, n; int st, base_rc, sticky;
	vf_note("%s", describe(o));
	st = run(o, -1, 0);
	if (!S->done) vf_fail("crash", "%s: died (status %x) without any failure", describe(o), st);
	base_rc = S->rc; n = S->count;
	if (base_out == NULL) base_out = __libc_malloc(OUTMAX);
	memcpy(base_out, S->out, S->outn); base_outn = S->outn; memcpy(base_err, S->err, sizeof(base_err));
	VF_CHECK(base_rc != 0 || output_ok(o), "output", "%s: success with wrong output without any failure", describe(o));
	if (o->op != O_CLI) {
		VF_CHECK(S->leaks == 0, "leak", "%s: %d allocations left behind (%s), no failure", describe(o), S->leaks, S->leak);
		VF_CHECK(S->fds0 == S->fds1, "fd-leak", "%s: %d file descriptors open before, %d after, no failure", describe(o), S->fds0, S->fds1);
	}
	for (sticky = 0; sticky < 2; sticky++)
	for (k = 0; k < n; k++) {
		st = run(o, k, sticky);
		vf_eval();
		/* giving up with a message before the operation has begun is no crash */
		if (!S->done && o->op == O_CLI && !S->armed && WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && S->errn > 0) continue;
		if (!S->done) vf_fail("crash", "%s: died (status %x) when allocation %ld%s failed", describe(o), st, k, sticky ? " and later" : "");
		if (S->failed == 0 && !sticky) vf_internal("%s: allocation %ld of %ld not reached", describe(o), k, n);
		if (o->op != O_CLI) {
			VF_CHECK(S->leaks == 0, "leak", "%s: %d allocations left behind (%s) when allocation %ld%s failed (result %d)", describe(o), S->leaks, S->leak, k, sticky ? " and later" : "", S->rc);
			VF_CHECK(S->fds0 == S->fds1, "fd-leak", "%s: %d file descriptors open before, %d after, when allocation %ld failed", describe(o), S->fds0, S->fds1, k);
		} else {
			VF_CHECK(S->rc == 0 || S->rc == 1, "status", "%s: exit status %d when allocation %ld failed", describe(o), S->rc, k);
			VF_CHECK(S->rc == 0 || S->errn > 0, "silent", "%s: failed without a message when allocation %ld failed", describe(o), k);
		}
		if (base_rc != 0) VF_CHECK(S->rc != 0, "success", "%s: succeeded only because allocation %ld failed", describe(o), k);
		if (S->rc == 0) {
			VF_CHECK(output_ok(o), "output", "%s: success, but the output is incomplete or wrong, when allocation %ld%s failed", describe(o), k, sticky ? " and later" : "");
			if (o->op == O_PRINT || (o->op == O_CLI && o->mode == 2) || o->verbose)
				VF_CHECK(strstr(S->err, "(null)") == NULL && lines_in(base_err, S->err), "report", "%s: success, but the report is incomplete, when allocation %ld%s failed: %s", describe(o), k, sticky ? " and later" : "", S->err);
		}
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)(2 * k + sticky)));
		vf_outcome(vf_hash2((uint64_t)o->op, (uint64_t)(uint32_t)S->rc));
		vf_sample("%s: allocation %ld of %ld%s fails: result %d", describe(o), k, n, sticky ? " and later" : "", S->rc);
	}
}
static void sc_misc(void)
{
	struct opc o; memset(&o, 0, sizeof(o));
	o.op = O_HUMAN + vf_choose("operation", 4);
	o.warm = vf_choose("warm", 2);
	if (o.op == O_HUMAN) { static const uint64_t hs[] = { 0, 999, 1000, 10000, 123456789, UINT64_MAX }; o.hs = hs[vf_choose("size", 6)]; o.size = 200; }
	else if (o.op == O_AES) { o.size = vf_choose("key", 2) ? 32 : 16; o.variant = vf_choose("init", 2); feat = vf_choose("aesni", 2) ? 31 : 31 & ~F_AESNI; }
	else if (o.op == O_KDF) { o.size = 1 + vf_choose("p", 3); feat = vf_choose("sse2", 2) ? 31 : F_AESNI; }
	else o.size = 200;
	explore(&o);
}
#endif
static void sc_lib(void) { struct opc o; choose_lib(&o); feat = vf_choose("aesni", 2) ? 31 & ~F_AESNI : 31; explore(&o); }
static void sc_pass(void) { struct opc o; choose_pass(&o); explore(&o); }
static void sc_cli(void) { struct opc o; choose_cli(&o); feat = 31; if (vf_tier) feat = vf_choose("aesni", 2) ? 31 & ~F_AESNI : 31; explore(&o); }

#if PROP == 19
static void sc_hash(void)
{
	struct opc o; int impl, k; static const int mm[] = { 0, 1, 32, 55, 64, 100, 128, 200 };
	memset(&o, 0, sizeof(o)); o.op = O_HASH;
	o.script = vf_choose("operation", NHASH);
	impl = vf_choose("implementation", 3); feat_sha(impl);
	for (k = 32; k <= 130; k += k % 4 == 0 && k > 70 && k < 120 ? 4 : 1) {
		int i; o.size = k;
		for (i = 0; i < 8; i++) {
			if ((o.script == 0 || (o.script >= 5 && o.script != 9)) && i) break;
			o.fpos = mm[i]; o.variant = i & 1;
			vf_note("%s, %s, key %d bytes, second length %d", hname[o.script], sha_name[impl], k, o.fpos);
			secret_check(&o, -1, run(&o, -1, 0));
		}
	}
}
/* The searcher finds what is planted for it: one run per kind of place. */
static void sc_self(void)
{
	struct opc o; int k; uint8_t b[64];
	memset(&o, 0, sizeof(o)); o.size = 200; prepare(&o);
	(void)sname;
	memset((char *)S + offsetof(struct shm, done), 0, offsetof(struct shm, out) - offsetof(struct shm, done));
	for (k = 0; k < NSEC; k++) {
		if (k == S_KEY) hash_secrets(64, 64, 1);
		memset(b, 0x11, sizeof(b));
		unmask(b + 7, S->sec[k] + 3, 16);
		S->fkey[0] = 0;
		scan(b, sizeof(b), 0, "freed");
		if (!S->fkey[0]) vf_internal("searcher misses %s", sname[k]);
		vf_eval(); vf_seen((uint64_t)k + 1);
	}
	S->fkey[0] = 0;
}
#endif
static const struct vf_scn SC[] = {
#if PROP == 19
	{ "self", sc_self, 0, { 0, 0 }, 60, 0 },
	{ "hash", sc_hash, 0, { 0, 0 }, 300, 0 },
#else
	{ "misc", sc_misc, 0, { 0, 0 }, 120, 0 },
#endif
	{ "library", sc_lib, 0, { 0, 0 }, 300, 0 },
	{ "passphrase", sc_pass, 0, { 0, 0 }, 300, 0 },
	{ "command", sc_cli, 0, { 0, 0 }, 600, 0 },
	{ NULL, NULL, 0, { 0, 0 }, 0, 0 }
};
int main(int argc, char ** argv) { return (vf_main(argc, argv, SC)); }
