/* C14 the passphrase is what was entered; C15 terminal and signals are
 * restored.  The terminal, its settings and the signal dispositions are the
 * harness's; everything else is the real code. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pty.h>
#include <setjmp.h>
#include <stdarg.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include "vf.h"
#include "readpass.h"
#include "passphrase_entry.h"
#include "scryptenc.h"
#include "cli.h"

/* ---------------- where input comes from ---------------- */
struct src { const char * d; size_t n, pos; size_t chunk; long fault_at; int fault_errno, fault_sticky, faulted; int istty, line; int fd; int open; };
static struct src TTY, STDIN, PFILE;
static int pfclose, closes;	/* closing the passphrase file fails */
static int have_tty, sim;	/* sim: calls are answered by the harness */
static FILE * F_tty, * F_stdin, * F_file;
static void boundary(const char * what);
static int fault(const char * what, int n);
static void reading(struct src *);
static ssize_t
src_read(void * c, char * b, size_t n)
{
	struct src * s = c; size_t m; int e;
	if (sim) { reading(s); if ((e = fault("read", 4))) { if (e == 3) return (0); errno = e == 1 ? EIO : EINTR; return (-1); } }
	if (s->fault_at >= 0 && s->pos >= (size_t)s->fault_at && (s->fault_sticky || !s->faulted)) { s->faulted = 1; errno = s->fault_errno; return (-1); }
	m = s->n - s->pos; if (m > n) m = n;
	if (s->chunk && m > s->chunk) m = s->chunk;
	if (s->line) { const char * q = memchr(s->d + s->pos, '\n', m); if (q) m = (size_t)(q - (s->d + s->pos)) + 1; }
	if (s->fault_at >= 0 && !s->faulted && s->pos + m > (size_t)s->fault_at) m = (size_t)s->fault_at - s->pos;
	memcpy(b, s->d + s->pos, m); s->pos += m;
	return ((ssize_t)m);
}
static int src_close(void * c) { struct src * s = c; s->open = 0; return (0); }
static FILE *
src_open(struct src * s)
{
	cookie_io_functions_t io = { .read = src_read, .close = src_close };
	FILE * f = fopencookie(s, "r", io);
	if (!f) vf_internal("fopencookie");
	s->open = 1;
	return (f);
}
static void src(struct src * s, const char * d, size_t n, int istty, int fd) { memset(s, 0, sizeof(*s)); s->d = d; s->n = n; s->fault_at = -1; s->istty = s->line = istty; s->fd = fd; }
static struct src * by_fd(int fd) { return (fd == TTY.fd ? &TTY : fd == STDIN.fd || fd == 0 ? &STDIN : NULL); }

FILE * __real_fopen(const char *, const char *); FILE * __wrap_fopen(const char *, const char *);
int __real_fclose(FILE *); int __wrap_fclose(FILE *);
int __real_fileno(FILE *); int __wrap_fileno(FILE *);
int __real_isatty(int); int __wrap_isatty(int);
int __real_tcgetattr(int, struct termios *); int __wrap_tcgetattr(int, struct termios *);
int __real_tcsetattr(int, int, const struct termios *); int __wrap_tcsetattr(int, int, const struct termios *);
static int active;	/* the terminal is the harness's */
FILE *
__wrap_fopen(const char * p, const char * m)
{
	if (!active) return (__real_fopen(p, m));
	if (!strcmp(p, "/dev/tty")) {
		int e = 0;
		boundary("fopen");
		if (sim) e = fault("fopen", 3);
		if (!have_tty || e) { errno = e == 2 ? EMFILE : ENXIO; return (NULL); }
		F_tty = src_open(&TTY);
		boundary("fopen done");
		return (F_tty);
	}
	if (!strcmp(p, "passfile")) { F_file = src_open(&PFILE); return (F_file); }
	return (__real_fopen(p, m));
}
int
__wrap_fclose(FILE * f)
{
	int rc, e = 0;
	if (active && f == F_file && f && PROP == 14) {
		/* the stream itself stays until the harness is done, so that another close is seen */
		if (closes++) vf_fail("twice", "the passphrase file was closed twice");
		if (pfclose) { errno = EIO; return (EOF); }
		return (0);
	}
	if (!active || !(f == F_tty || f == F_file)) return (__real_fclose(f));
	if (f == F_tty) { boundary("fclose"); if (sim) e = fault("fclose", 2); F_tty = NULL; } else F_file = NULL;
	rc = __real_fclose(f);
	boundary("fclose done");
	if (e) { errno = EIO; return (EOF); }
	return (rc);
}
int
__wrap_fileno(FILE * f)
{
	if (active && f == F_tty && f) return (TTY.fd);
	if (active && f == F_stdin && f) return (STDIN.fd);
	return (__real_fileno(f));
}
int
__wrap_isatty(int fd)
{
	struct src * s = active ? by_fd(fd) : NULL;
	if (!s) return (__real_isatty(fd));
	boundary("isatty");
	if (!s->istty) errno = ENOTTY;
	return (s->istty);
}

#if PROP == 14
static struct termios TS;
static int bad_echo;
int __wrap_tcgetattr(int fd, struct termios * t) { if (!active || !by_fd(fd)) return (__real_tcgetattr(fd, t)); *t = TS; return (0); }
int __wrap_tcsetattr(int fd, int how, const struct termios * t) { (void)how; if (!active || !by_fd(fd)) return (__real_tcsetattr(fd, how, t)); TS = *t; return (0); }
static void boundary(const char * w) { (void)w; }
static int fault(const char * w, int n) { (void)w; (void)n; return (0); }
static void reading(struct src * s) { (void)s; (void)bad_echo; }

/* ---- what the entry of the given text may result in ---- */
#define ERR "\1ERR"
struct outs { int n; struct { int err; size_t len, pos; const char * p; size_t cut; } o[64]; int any; };
static void
add(struct outs * O, int err, const char * p, size_t len, size_t pos)
{
	if (O->n == 64) { O->any = 1; return; }
	O->o[O->n].err = err; O->o[O->n].p = p; O->o[O->n].len = len; O->o[O->n++].pos = pos;
}
struct line { const char * p; size_t raw, body, upto, next; int nl, odd, nul, err, maybe_err; };
static struct line
getl(const struct src * s, size_t pos)
{
	struct line L; size_t i;
	memset(&L, 0, sizeof(L));
	L.p = s->d + pos;
	for (i = pos; i < s->n && s->d[i] != '\n'; i++) continue;
	L.body = i - pos; L.nl = i < s->n; L.next = i + (size_t)L.nl; L.raw = L.next - pos;
	if (s->fault_at >= 0 && (size_t)s->fault_at < L.next) L.err = 1;
	if (s->fault_at >= 0 && !L.nl && (size_t)s->fault_at <= s->n) L.err = 1;
	if (L.raw == 0) L.err = 1;
	/* too long without the terminator; a carriage return may count or not */
	if (L.body - (L.body && L.p[L.body - 1] == '\r') >= 2048) L.err = 1;
	else if (L.body >= 2048) L.maybe_err = 1;
	for (i = 0; i < L.body && L.p[i] != '\r' && L.p[i] != 0; i++) continue;
	L.upto = i;
	/* a NUL, or a carriage return elsewhere than at the end, is not a plain line */
	L.odd = i < L.body && !(i == L.body - 1 && L.p[i] == '\r' && L.nl);
	L.nul = memchr(L.p, 0, L.body) != NULL;
	return (L);
}
static void
results(const struct line * L, struct outs * O)
{
	add(O, 0, L->p, L->upto, L->next);
	if (L->odd) { add(O, 1, NULL, 0, 0); if (!L->nul) add(O, 0, L->p, L->body, L->next); }
	if (L->maybe_err) add(O, 1, NULL, 0, 0);
}
static void
possible(const struct src * s, size_t pos, int confirm, struct outs * O)
{
	struct line A = getl(s, pos), B;
	if (A.err) { add(O, 1, NULL, 0, 0); return; }
	if (A.maybe_err) add(O, 1, NULL, 0, 0);
	if (!confirm) { results(&A, O); return; }
	B = getl(s, A.next);
	if (B.err) { add(O, 1, NULL, 0, 0); return; }
	if (A.nul || B.nul) { O->any = 1; return; }
	if (B.maybe_err) add(O, 1, NULL, 0, 0);
	if (A.raw == B.raw && !memcmp(A.p, B.p, A.raw)) { A.next = B.next; results(&A, O); return; }
	if (A.upto == B.upto && !memcmp(A.p, B.p, A.upto)) { struct line C = A; C.next = B.next; results(&C, O); possible(s, B.next, confirm, O); return; }
	possible(s, B.next, confirm, O);
}
static const char * vis(const char * p, size_t n)
{
	static char b[2][400]; static int w; char * q = b[w ^= 1]; size_t i, k = 0;
	for (i = 0; i < n && k < 300; i++) { unsigned char c = (unsigned char)p[i]; if (i == 40 && n > 80) { k += (size_t)sprintf(q + k, "...(%zu)...", n); i = n - 20; } if (c >= ' ' && c < 127) q[k++] = (char)c; else k += (size_t)sprintf(q + k, "\\x%02x", c); }
	q[k] = 0; return (q);
}
enum { M_TTYSTDIN_CONFIRM, M_TTYSTDIN, M_STDINONCE, M_TTYONCE, M_FILE, M_FALLBACK_CONFIRM, M_FALLBACK, NM };
static const char * const mn[] = { "terminal, confirmed", "terminal, default method", "standard input once", "terminal once", "file", "standard input for lack of a terminal, confirmed", "standard input for lack of a terminal" };
static FILE * devnull;
static char * pw;
static int stdin_tty;	/* standard input is a terminal too */
static int
enter(int m, const char * d, size_t n, size_t chunk, long fault_at, int e, int sticky, struct src ** used)
{
	static const enum passphrase_entry pe[] = { PASSPHRASE_TTY_STDIN, PASSPHRASE_TTY_STDIN, PASSPHRASE_STDIN_ONCE, PASSPHRASE_TTY_ONCE, PASSPHRASE_FILE, PASSPHRASE_TTY_STDIN, PASSPHRASE_TTY_STDIN };
	struct src * s; FILE * se = stderr, * si = stdin; int rc;
	static const char decoy[] = "decoy\ndecoy\n";
	if (!devnull && !(devnull = __real_fopen("/dev/null", "w"))) vf_internal("/dev/null");
	src(&TTY, decoy, sizeof(decoy) - 1, 1, 501); src(&STDIN, decoy, sizeof(decoy) - 1, stdin_tty, 500); src(&PFILE, decoy, sizeof(decoy) - 1, 0, 502);
	s = m == M_FILE ? &PFILE : m == M_STDINONCE || m >= M_FALLBACK_CONFIRM ? &STDIN : &TTY;
	have_tty = m < M_FALLBACK_CONFIRM;
	s->d = d; s->n = n; s->chunk = chunk; s->fault_at = fault_at; s->fault_errno = e; s->fault_sticky = sticky;
	memset(&TS, 0, sizeof(TS)); TS.c_lflag = ECHO | ICANON;
	F_stdin = src_open(&STDIN); stdin = F_stdin; stderr = devnull; pw = NULL; active = 1; closes = 0;
	rc = passphrase_entry_readpass(&pw, pe[m], "passfile", "Please enter passphrase", "Please confirm passphrase", !(m == M_TTYSTDIN_CONFIRM || m == M_FALLBACK_CONFIRM));
	active = 0; stderr = se;
	if (F_file) { if (!closes) vf_fail("open", "the passphrase file was left open"); __real_fclose(F_file); F_file = NULL; }
	*used = s;
	stdin = si;
	return (rc);
}
static void finish(void) { if (F_stdin) __real_fclose(F_stdin); F_stdin = NULL; if (pw) free(pw); pw = NULL; }
static void
judge(int m, const char * d, size_t n, size_t chunk, long fault_at, int e, int sticky)
{
	struct src * s; struct outs O; int rc, i, ok = 0, mayerr = 0; size_t k = 0; char rest[64];
	vf_note("%s, entered \"%s\", %zu bytes at a time, read error %d at byte %ld%s", mn[m], vis(d, n), chunk, e, fault_at, sticky ? "" : " once");
	rc = enter(m, d, n, chunk, fault_at, e, sticky, &s);
	vf_eval();
	VF_CHECK(rc == 0 || rc == -1, "rc", "returned %d", rc);
	VF_CHECK(rc || pw, "rc", "no passphrase returned");
	memset(&O, 0, sizeof(O));
	if (m == M_FILE) {
		/* the whole file is the passphrase */
		struct line L = getl(s, 0);
		if (n == 0 && fault_at < 0 && !pfclose) add(&O, 0, d, 0, 0);
		else if (pfclose || fault_at >= 0 || L.err || L.next < n || n >= 2048) add(&O, 1, NULL, 0, 0);
		else results(&L, &O);
	} else
		possible(s, 0, m == M_TTYSTDIN_CONFIRM || m == M_FALLBACK_CONFIRM, &O);
	if (m == M_STDINONCE || m >= M_FALLBACK_CONFIRM) { if (rc == 0) while (k < 40 && (i = fgetc(F_stdin)) != EOF) rest[k++] = (char)i; }
	for (i = 0; i < O.n; i++) {
		if (O.o[i].err) { mayerr = 1; if (rc == -1) ok = 1; continue; }
		if (rc == 0 && strlen(pw) == O.o[i].len && !memcmp(pw, O.o[i].p, O.o[i].len)) {
			/* what follows on standard input is left for whoever reads next */
			if (m == M_STDINONCE || m >= M_FALLBACK_CONFIRM) { size_t left = n - O.o[i].pos; if (left > 40) left = 40; if (fault_at < 0 && (k != left || memcmp(rest, d + O.o[i].pos, k))) continue; }
			ok = 1;
		}
	}
	if (!O.any) {
		if (rc == 0) { char g[420]; snprintf(g, sizeof(g), "%s", vis(pw, strlen(pw))); VF_CHECK(ok, mayerr && O.n == 1 ? "accepted" : "altered", "the passphrase became \"%s\" (%zu bytes)%s", g, strlen(pw), mayerr && O.n == 1 ? " where an error was due" : ""); }
		else VF_CHECK(ok, "refused", "refused");
	}
	vf_seen(vf_hash2(vf_hash(d, n, (uint64_t)m), (uint64_t)chunk * 100000 + (uint64_t)(fault_at + 1) * 8 + (uint64_t)e * 2 + (uint64_t)sticky)); vf_outcome(rc ? 1 : vf_hstr(pw));
	finish();
}
/* every text up to a length */
static void
texts(void)
{
	static const char A[] = { 'a', 'b', '\n', '\r', 0 }; int m = vf_choose("method", NM), L, max = vf_tier ? 10 : 8, p0 = vf_choose("first", 5), p1 = vf_choose("second", 5);
	char t[16]; long i, tot; int j;
	for (L = 0; L <= max; L++) {
		if (L == 0 && (p0 || p1)) continue;
		if (L == 1 && p1) continue;
		for (tot = 1, j = 2; j < L; j++) tot *= 5;
		for (i = 0; i < tot; i++) {
			long x = i;
			t[0] = A[p0]; t[1] = A[p1]; for (j = 2; j < L; j++) { t[j] = A[x % 5]; x /= 5; }
			judge(m, t, (size_t)L, 0, -1, 0, 0);
			if (L <= 4) { judge(m, t, (size_t)L, 1, -1, 0, 0); judge(m, t, (size_t)L, 2, -1, 0, 0); }
		}
	}
	if (m == 0 && p0 == 0 && p1 == 2) vf_sample("every text of up to %d symbols of {a, b, LF, CR, NUL} beginning \"a LF\", by terminal with confirmation", max);
}
/* every byte value */
static void
bytes(void)
{
	int m = vf_choose("method", NM), a = vf_choose("byte", 256), b; char t[16];
	for (b = 0; b < 256; b++) { t[0] = t[4] = (char)a; t[1] = t[5] = (char)b; t[2] = t[6] = 'z'; t[3] = t[7] = '\n'; judge(m, t, m == M_TTYSTDIN_CONFIRM || m == M_FALLBACK_CONFIRM ? 8 : 4, 0, -1, 0, 0); }
}
/* every sequence of lines */
static void
lines(void)
{
	static const char * const W[] = { "a\n", "b\n", "\n", "ab\n", "a\r\n", "a" }; int m = vf_choose("method", NM), d, depth = vf_tier ? 9 : 8, k; char t[64]; size_t n = 0;
	for (d = 0; d < depth; d++) { k = vf_choose("line", NELEM(W) + 1); if (k == NELEM(W)) break; memcpy(t + n, W[k], strlen(W[k])); n += strlen(W[k]); if (k == 5) break; }
	judge(m, t, n, 0, -1, 0, 0);
	if (d < depth) { stdin_tty = 1; judge(m, t, n, 0, -1, 0, 0); stdin_tty = 0; }
}
/* long entries */
static char big[3 * 12000];
static void
longs(void)
{
	static const size_t around[] = { 1023, 1024, 1025, 4094, 4095, 4096, 4097, 6141, 10000 }; static const char * const T[] = { "\n", "\r\n", "" };
	int m = vf_choose("method", NM), t = vf_choose("terminator", 3), v = vf_choose("second", 7), w = vf_choose("length", 24 + NELEM(around)), c = vf_choose("chunk", 4); static const size_t ch[] = { 0, 1, 1024, 2047 };
	size_t n = w < 24 ? 2036 + (size_t)w : around[w - 24], k, i;
	for (i = 0; i < n; i++) big[i] = (char)('!' + (i * 7 + i / 90) % 90);
	memcpy(big + n, T[t], strlen(T[t])); k = n + strlen(T[t]);
	switch (v) {
	case 0: break;
	case 1: memcpy(big + k, big, k); k += k; break;						/* the same again */
	case 2: memcpy(big + k, big, k); big[k + n - 1] ^= 1; k += k; break;			/* last byte differs */
	case 3: memcpy(big + k, "x\n", 2); k += 2; break;
	case 4: memcpy(big + k, big, n - 1); memcpy(big + k + n - 1, "\n", 1); k += n; break;	/* one byte shorter */
	case 5: { size_t q = k; memcpy(big + k, big, n); k += n; big[k++] = 'z'; big[k++] = '\n'; (void)q; break; }	/* one byte longer */
	case 6: memcpy(big + k, big, n / 2); k += n / 2; big[k++] = '\n'; break;
	}
	judge(m, big, k, ch[c], -1, 0, 0);
}
/* a read error at every position */
static void
faults(void)
{
	static const char * const S[] = { "a\n", "pass\npass\n", "pass\r\npass\r\n", "ab\nac\nab\nab\n", "abc", "\n\n", "", "pass\npass\nmore data\n" }; static const int E[] = { EIO, EINTR, EAGAIN, EBADF, EISDIR };
	int m = vf_choose("method", NM), s = vf_choose("script", NELEM(S)), e = E[vf_choose("errno", NELEM(E))], st = vf_choose("sticky", 2); long k;
	static const size_t ch[] = { 0, 1, 3 }; int c;
	for (c = 0; c < 3; c++) for (k = 0; k <= (long)strlen(S[s]); k++) judge(m, S[s], strlen(S[s]), ch[c], k, e, st);
	if (m == M_FILE) { pfclose = 1; for (c = 0; c < 3; c++) { judge(m, S[s], strlen(S[s]), ch[c], -1, 0, 0); for (k = 0; k <= (long)strlen(S[s]); k++) judge(m, S[s], strlen(S[s]), ch[c], k, e, st); } pfclose = 0; }
}
/* and in long lines */
static void
longfaults(void)
{
	int m = vf_choose("method", NM), w = vf_choose("length", 12), t = vf_choose("twice", 2), st = vf_choose("sticky", 2); size_t n = 2040 + (size_t)w, i, k; long f;
	for (i = 0; i < n; i++) big[i] = (char)('!' + (i * 7 + i / 90) % 90);
	big[n] = '\n'; k = n + 1;
	if (t) { memcpy(big + k, big, k); k += k; }
	for (f = (long)n - 8; f <= (long)k; f += f == (long)n + 8 && t ? (long)n - 16 : 1) judge(m, big, k, 0, f, EIO, st);
}
/* environment */
static void
envs(void)
{
	char v[6000]; size_t n, i; int kind = vf_choose("kind", 4), rc; char * p = NULL; FILE * se = stderr; static const char * const names[] = { "PW", "A_LONGER_NAME", "", "PW=x" };
	if (!devnull && !(devnull = __real_fopen("/dev/null", "w"))) vf_internal("/dev/null");
	if (kind == 3) {
		/* not set */
		for (i = 0; i < NELEM(names); i++) {
			unsetenv("PW"); unsetenv("A_LONGER_NAME"); setenv("PW2", "other", 1); setenv("P", "other", 1);
			vf_note("environment variable \"%s\" not set", names[i]);
			stderr = devnull; rc = passphrase_entry_readpass(&p, PASSPHRASE_ENV, names[i], "p", "c", 1); stderr = se; vf_eval();
			VF_CHECK(rc == -1, "unset", "an unset variable gave a passphrase");
			vf_seen(vf_hstr(names[i])); vf_outcome(9);
		}
		return;
	}
	for (n = 0; n < (kind == 0 ? 256 : kind == 1 ? 6000 : 65536); n++) {
		size_t len; int once;
		if (kind == 0) { v[0] = (char)(n ? n : 1); v[1] = 0; if (n == 0) v[0] = 0; }
		if (kind == 1) { for (i = 0; i < n; i++) v[i] = (char)(1 + (i * 31 + n) % 255); v[n] = 0; if (n > 2100 && n < 5990) n += 97; }
		if (kind == 2) { v[0] = (char)(n >> 8); v[1] = (char)n; v[2] = 0; if (!v[0]) continue; }
		len = strlen(v); if (setenv("PW", v, 1)) vf_internal("setenv");
		setenv("PW2", "other", 1);
		for (once = 0; once < 2; once++) {
			vf_note("environment variable of %zu bytes", len);
			rc = passphrase_entry_readpass(&p, PASSPHRASE_ENV, "PW", "p", "c", once); vf_eval();
			VF_CHECK(rc == 0, "refused", "a set variable was refused");
			VF_CHECK(strlen(p) == len && !memcmp(p, v, len), "altered", "a variable of %zu bytes gave a passphrase of %zu", len, strlen(p));
			VF_CHECK(p != getenv("PW"), "alias", "the environment itself was returned");
			free(p);
		}
		vf_seen(vf_hash(v, len, 1)); vf_outcome(vf_hash(v, len, 2));
	}
}
/* one entry after another */
static void
history(void)
{
	static const char * const S[] = { "a\na\n", "long passphrase\nlong passphrase\n", "x\ny\n", "", "\n\n" }; int i;
	for (i = 0; i < (vf_tier ? 4 : 3); i++) { int m = vf_choose("method", NM), s = vf_choose("script", NELEM(S)); judge(m, S[s], strlen(S[s]), 0, -1, 0, 0); }
}
/* a file that cannot be opened */
static void
nofile(void)
{
	char * p = NULL; int rc; FILE * se = stderr; char path[600];
	if (!devnull && !(devnull = __real_fopen("/dev/null", "w"))) vf_internal("/dev/null");
	snprintf(path, sizeof(path), "%s/none", vf_privdir());
	vf_note("passphrase file missing, or a directory");
	stderr = devnull; rc = passphrase_entry_readpass(&p, PASSPHRASE_FILE, path, "p", "c", 1); VF_CHECK(rc == -1, "missing", "a missing file gave a passphrase");
	rc = passphrase_entry_readpass(&p, PASSPHRASE_FILE, vf_privdir(), "p", "c", 1); VF_CHECK(rc == -1, "missing", "a directory gave a passphrase");
	/* no terminal at all */
	active = 1; have_tty = 0;
	rc = passphrase_entry_readpass(&p, PASSPHRASE_TTY_ONCE, "", "p", "c", 1); active = 0; stderr = se;
	VF_CHECK(rc == -1, "missing", "a passphrase was had from a terminal that does not exist");
	vf_eval(); vf_eval(); vf_eval(); vf_seen(1); vf_outcome(1); vf_outcome(2);
}

/* ---- through the command: what reaches encryption and decryption ---- */
int __wrap_scryptenc_file(FILE *, FILE *, const uint8_t *, size_t, struct scryptenc_params *, int, int);
int __wrap_scryptenc_file(FILE * i, FILE * o, const uint8_t * p, size_t pl, struct scryptenc_params * P, int v, int f)
{ (void)i; (void)o; (void)P; (void)v; (void)f; CR->nenc++; CR->pwlen = pl; memcpy(CR->pw, p, pl < 299 ? pl : 299); return (0); }
int __wrap_scryptdec_file_prep(FILE *, const uint8_t *, size_t, struct scryptenc_params *, int, int, struct scryptdec_file_cookie **);
int __wrap_scryptdec_file_prep(FILE * i, const uint8_t * p, size_t pl, struct scryptenc_params * P, int v, int f, struct scryptdec_file_cookie ** C)
{ (void)i; (void)P; (void)v; (void)f; (void)C; CR->nprep++; CR->pwlen = pl; memcpy(CR->pw, p, pl < 299 ? pl : 299); return (SCRYPT_EPASS); }
static const char * CS; static int C_m;
static void
csetup(void * c)
{
	(void)c;
	src(&TTY, CS, strlen(CS), 1, 501); src(&STDIN, C_m >= M_FALLBACK_CONFIRM || C_m == M_STDINONCE ? CS : "", C_m >= M_FALLBACK_CONFIRM || C_m == M_STDINONCE ? strlen(CS) : 0, 0, 500); src(&PFILE, CS, strlen(CS), 0, 502);
	have_tty = C_m < M_FALLBACK_CONFIRM; active = 1; TS.c_lflag = ECHO;
	setenv("PWVAR", CS, 1);
	F_stdin = src_open(&STDIN); stdin = F_stdin;
}
static void
command(void)
{
	static const char * const S[] = { "pw\npw\n", "pw\npx\npw\npw\n", "pw\n", "a\nb\n", "", "two words \ntwo words \n", "pw\r\npw\r\n", "\n\n", "x\nx\nx\nx\n" };
	static const char * const opt[] = { NULL, "dev:tty-stdin", "dev:stdin-once", "dev:tty-once", "file:passfile", NULL, "dev:tty-stdin" };
	int mode = vf_choose("mode", 2), m = vf_choose("method", NM + 1), s = vf_choose("script", NELEM(S)), isenv = m == NM, n = 0, confirm; char * av[12]; struct clires * R; struct outs O; int i, ok = 0, got; char f[600];
	CS = S[s]; C_m = isenv ? M_FILE : m;
	snprintf(f, sizeof(f), "%s/in", vf_privdir()); { FILE * x = __real_fopen(f, "w"); if (!x) vf_internal("open"); __real_fclose(x); }
	av[n++] = NULL; av[n++] = mode ? "dec" : "enc";
	if (isenv) { av[n++] = "--passphrase"; av[n++] = "env:PWVAR"; }
	else if (opt[m]) { av[n++] = "--passphrase"; av[n++] = (char *)(uintptr_t)opt[m]; }
	av[n++] = f; av[n] = NULL;
	vf_note("%s with \"%s\" supplied by %s", argstr(n, av), vis(CS, strlen(CS)), isenv ? "the environment" : mn[m]);
	R = cli_run(n, av, NULL, 0, csetup, NULL);
	vf_eval();
	VF_CHECK(R->exited, "crash", "signal %d", -R->code);
	/* confirmation: only the default method, and only when encrypting */
	confirm = !mode && (m == M_TTYSTDIN_CONFIRM || m == M_TTYSTDIN || m == M_FALLBACK || m == M_FALLBACK_CONFIRM);
	memset(&O, 0, sizeof(O));
	if (isenv) add(&O, 0, CS, strlen(CS), 0);
	else { struct src t; src(&t, CS, strlen(CS), 0, 0);
		if (m == M_FILE) { struct line L = getl(&t, 0); if (t.n == 0) add(&O, 0, CS, 0, 0); else if (L.next < t.n) add(&O, 1, NULL, 0, 0); else results(&L, &O); }
		else possible(&t, 0, confirm, &O); }
	got = CR->nenc + CR->nprep;
	VF_CHECK(CR->nenc <= !mode && CR->nprep <= mode, "mode", "the other operation was done");
	for (i = 0; i < O.n; i++) if (O.o[i].err ? !got : got && CR->pwlen == O.o[i].len && !memcmp(CR->pw, O.o[i].p, CR->pwlen)) ok = 1;
	if (got) VF_CHECK(ok, "altered", "the passphrase became \"%s\"", vis(CR->pw, CR->pwlen)); else { VF_CHECK(ok, "refused", "refused: %s", R->err); VF_CHECK(R->code == 1, "status", "exit status %d", R->code); }
	vf_seen(vf_trace_hash()); vf_outcome(vf_hash(CR->pw, got ? CR->pwlen : 0, (uint64_t)got));
}
static const struct vf_scn SC[] = {
	{ "texts", texts, 0, { 0, 0 }, 0, 0 }, { "bytes", bytes, 0, { 0, 0 }, 0, 0 }, { "lines", lines, 0, { 0, 0 }, 0, 0 }, { "long", longs, 0, { 0, 0 }, 0, 0 }, { "faults", faults, 0, { 0, 0 }, 0, 0 }, { "long-faults", longfaults, 0, { 0, 0 }, 0, 0 },
	{ "environment", envs, 0, { 0, 0 }, 0, 0 }, { "histories", history, 0, { 0, 0 }, 0, 0 }, { "nofile", nofile, 0, { 0, 0 }, 0, 0 }, { "command", command, 0, { 0, 0 }, 0, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#endif
#if PROP == 15
#include "h_term.h"
#endif
int
main(int argc, char ** argv) { return (vf_main(argc, argv, SC)); }
