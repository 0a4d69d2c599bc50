/* C04 nothing written before verification; C05 I/O failures are reported;
 * C25 the command with real files; C27 runs killed at any moment.  Everything runs the real main() or the
 * real library over streams whose every answer the harness decides. */
#include "env_codec.h"
#include "cli.h"
#include <poll.h>
#include <pty.h>
#include <sys/ioctl.h>
#include <sys/ptrace.h>
#include <termios.h>

#define PW "pleaseletmein"
/* ---------------- streams injected into the command ---------------- */
static struct vin I; static struct vout O;
static int inj_in, inj_out;	/* 1: the named file, 2: stdin/stdout */
static long obuf = -1;
FILE * __real_fopen(const char *, const char *);
FILE * __wrap_fopen(const char *, const char *);
static void osink(struct vout * v, const uint8_t * d, size_t n)
{
	if (v->n + n <= SHMBUF) memcpy(CR->out + v->n, d, n);
	CR->outn = v->n + n;
}
FILE * __wrap_fopen(const char * p, const char * m)
{
	if (CR && inj_in == 1 && !strcmp(p, "in")) { CR->in_used++; return (vin_open(&I, -1)); }
	if (CR && inj_out == 1 && !strcmp(p, "out")) { CR->out_used++; return (vout_open(&O, obuf)); }
	return (__real_fopen(p, m));
}
static ssize_t (*o_close_hook)(void) __attribute__((unused));
static char privdir[400];
static void wrfile(const char * name, const void * d, size_t n)
{
	char p[500]; int fd; size_t k = 0;
	snprintf(p, sizeof(p), "%s/%s", privdir, name);
	if ((fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600)) < 0) vf_internal("open %s", p);
	while (k < n) { ssize_t w = write(fd, (const uint8_t *)d + k, n - k); if (w <= 0) vf_internal("write"); k += (size_t)w; }
	close(fd);
}
static uint8_t *
rdfile(const char * name, size_t * n)
{
	char p[500]; int fd; struct stat st; uint8_t * b; size_t k = 0;
	snprintf(p, sizeof(p), "%s/%s", privdir, name);
	if ((fd = open(p, O_RDONLY)) < 0) return (NULL);
	if (fstat(fd, &st)) vf_internal("fstat");
	b = malloc((size_t)st.st_size + 1);
	while (k < (size_t)st.st_size) { ssize_t r = read(fd, b + k, (size_t)st.st_size - k); if (r <= 0) break; k += (size_t)r; }
	close(fd);
	*n = k;
	return (b);
}
/* devices are named through links of our own, so that code which removes or
 * replaces the output it was given reaches only the link */
static const char *
devlink(const char * nm, const char * dev)
{
	char p[500];
	snprintf(p, sizeof(p), "%s/%s", privdir, nm);
	if (symlink(dev, p)) vf_internal("symlink %s", p);
	return (nm);
}
static void newdir(void) { snprintf(privdir, sizeof(privdir), "%s", vf_privdir()); }
struct setupc { long fsize; int devfull, pipe_closed, sigpipe_dfl; int inpipe; int xfsz_dfl; int traced; long kill_at; };
/* the fault flags travel to the parent through shared memory at exit */
static void
report(void)
{
	CR->in_faulted = I.fault_at >= 0 && I.nread > I.fault_at && I.fault_errno;
	CR->out_faulted = O.faulted;
}
static struct setupc SC;
/* Go on as a child which this process kills at its kill_at'th system call. */
static void
trace_me(void)
{
	pid_t p = vf_fork(); int st;
	if (p < 0) _exit(95);
	if (p == 0) {
		if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(94);
		raise(SIGSTOP);
		return;
	}
	if (waitpid(p, &st, 0) != p || !WIFSTOPPED(st)) { kill(p, SIGKILL); _exit(94); }
	if (ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_EXITKILL | PTRACE_O_TRACESYSGOOD)) { kill(p, SIGKILL); _exit(94); }
	{
		int sig = 0, entry = 1;
		for (;;) {
			if (ptrace(PTRACE_SYSCALL, p, 0, sig)) _exit(93);
			sig = 0;
			if (waitpid(p, &st, 0) != p) _exit(93);
			if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
			if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); _exit(92); }
			if (WSTOPSIG(st) == (SIGTRAP | 0x80)) {
				if (entry) {
					if (CR->nsys == SC.kill_at) { CR->killed = 1; kill(p, SIGKILL); waitpid(p, &st, 0); _exit(137); }
					CR->nsys++;
				}
				entry = !entry;
			} else
				sig = WSTOPSIG(st);
		}
	}
}
static void
setup(void * c)
{
	(void)c;
	if (chdir(privdir)) _exit(98);
	setenv("PWENV", PW, 1);
	unsetenv("NOSUCH");
	O.sink = osink;
	if (inj_in == 2) { stdin = vin_open(&I, -1); CR->in_used++; }
	if (inj_out == 2) { stdout = vout_open(&O, obuf); CR->out_used++; }
	if (SC.fsize >= 0) {
		struct rlimit rl = { (rlim_t)SC.fsize, (rlim_t)SC.fsize };
		signal(SIGXFSZ, SC.xfsz_dfl ? SIG_DFL : SIG_IGN);
		if (SC.xfsz_dfl) { struct rlimit nc = { 0, 0 }; setrlimit(RLIMIT_CORE, &nc); }
		if (setrlimit(RLIMIT_FSIZE, &rl)) _exit(97);
	}
	if (SC.devfull) { int fd = open("/dev/full", O_WRONLY); if (fd < 0) _exit(96); dup2(fd, 1); close(fd); }
	if (SC.pipe_closed) { int q[2]; if (pipe(q)) _exit(96); dup2(q[1], 1); close(q[1]); close(q[0]); signal(SIGPIPE, SC.sigpipe_dfl ? SIG_DFL : SIG_IGN); }
	atexit(report);
	if (SC.traced) trace_me();
}
static void
reset_inj(void)
{
	inj_in = inj_out = 0; obuf = -1;
	vin_init(&I, NULL, 0); vout_init(&O);
	memset(&SC, 0, sizeof(SC)); SC.fsize = -1;
}

/* Plaintext and its encryption under the small parameters. */
#define MAXD (3 * 65536 + 400)
static uint8_t D[MAXD], X[MAXD + 128], W[MAXD + 128];
static uint8_t salt0[32];
static size_t
mkfile(size_t len, int logN, uint32_t r, uint32_t p)
{
	fill(D, len, 5); fill(salt0, 32, 9);
	return (ref_encrypt(X, D, len, PW, strlen(PW), logN, r, p, salt0));
}
/* what the command must produce when encrypting D with --logN 10 -r 8 -p 1 and the harness salt */
static size_t
expect_enc(uint8_t * out, size_t len, int logN, uint32_t r, uint32_t p)
{
	uint8_t s[32]; int i;
	for (i = 0; i < 32; i++) s[i] = (uint8_t)(7 * i + 11);
	return (ref_encrypt(out, D, len, PW, strlen(PW), logN, r, p, s));
}
/* the options -v (1) and, where it makes no difference, -f (2) */
static int rf;
static int
rflags(char ** av, int ac, int enc)
{
	if (rf & 1) av[ac++] = (char *)(uintptr_t)"-v";
	if (!(rf & 2) == !!enc) av[ac++] = (char *)(uintptr_t)"-f";
	return (ac);
}
static int
run(struct clires ** R, const char * mode, const char * in, const char * out, const void * sin, size_t sinl)
{
	char * av[20]; int ac = 1;
	av[ac++] = (char *)(uintptr_t)mode;
	av[ac++] = "--passphrase"; av[ac++] = "env:PWENV";
	if (!strcmp(mode, "enc")) { av[ac++] = "--logN"; av[ac++] = "10"; av[ac++] = "-r"; av[ac++] = "8"; av[ac++] = "-p"; av[ac++] = "1"; }
	ac = rflags(av, ac, !strcmp(mode, "enc"));
	if (rf) vf_note("options%s%s", rf & 1 ? " -v" : "", !(rf & 2) == !strcmp(mode, "enc") ? " -f" : "");
	av[ac++] = (char *)(uintptr_t)in;
	if (out) av[ac++] = (char *)(uintptr_t)out;
	av[ac] = NULL;
	*R = cli_run(ac, av, sin, sinl, setup, NULL);
	return ((*R)->exited ? (*R)->code : 1000 - (*R)->code);
}
#if PROP == 5
/* ============================ C05 ============================ */
static const size_t lens[] = { 0, 1, 33, 200, 4096 - 96, 4097, 65536, 65536 + 65 };
struct ref { size_t n; uint8_t * want; size_t inlen; const uint8_t * in; };
static void
mkcase(int dec, size_t len, struct ref * r)
{
	static uint8_t E[MAXD + 128];
	env_stub();
	if (dec) { r->inlen = mkfile(len, 4, 1, 1); r->in = X; r->want = D; r->n = len; }
	else { fill(D, len, 5); r->inlen = len; r->in = D; r->n = expect_enc(E, len, 10, 8, 1); r->want = E; }
}
/* library over injected streams */
static int
lib_run(int dec, const uint8_t * in, size_t inlen, struct vin * vi, struct vout * vo, long ib, long ob, int * flushed)
{
	FILE * fi = vin_open(vi, ib), * fo = vout_open(vo, ob);
	struct scryptenc_params P = PARAMS(dec ? 0 : 10, dec ? 0 : 8, dec ? 0 : 1);
	struct scryptdec_file_cookie * C = NULL; int rc;
	(void)in; (void)inlen;
	if (!dec) rc = scryptenc_file(fi, fo, (const uint8_t *)PW, strlen(PW), &P, env_verbose(), env_force(1));
	else if (dec == 1) rc = scryptdec_file(fi, fo, (const uint8_t *)PW, strlen(PW), &P, env_verbose(), env_force(1));
	else {
		rc = scryptdec_file_prep(fi, (const uint8_t *)PW, strlen(PW), &P, env_verbose(), env_force(1), &C);
		if (!rc) { rc = scryptdec_file_copy(C, fo); scryptdec_file_cookie_free(C); }
	}
	env_called();
	*flushed = fclose(fo);
	fclose(fi);
	return (rc);
}
static const long bufs[] = { 0, -1, 100, 4096 };
static void
lib(void)
{
	int dec = vf_choose("op", 3), li = vf_choose("len", NELEM(lens)), ib = vf_choose("inbuf", NELEM(bufs)), ob = vf_choose("outbuf", NELEM(bufs));
	size_t len = lens[li], chunk; struct vin vi; struct vout vo; struct ref r; int rc, fl, kind; long k, nr, nw;
	static const size_t chunks[] = { 0, 1000 };
	int one;
	static const int re[] = { EIO, EINTR, EISDIR, EAGAIN };
	int side, e, part;

	env_reset(); env_setflags(vf_choose("flags", 4)); mkcase(dec, len, &r);
	chunk = chunks[vf_choose("chunk", 2)];
	if (chunk && len > 5000 && bufs[ib] == 0 && !vf_tier) chunk = 20000;
	/* no fault: count the operations */
	vin_init(&vi, r.in, r.inlen); vi.chunk = chunk; vout_init(&vo);
	env_saltctr = 0;
	rc = lib_run(dec, r.in, r.inlen, &vi, &vo, bufs[ib], bufs[ob], &fl);
	VF_CHECK(rc == SCRYPT_OK && fl == 0, "baseline", "without faults: rc %d, close %d", rc, fl);
	VF_CHECK(vo.n == r.n && !memcmp(vo.d, r.want, r.n), "baseline-output", "without faults the output is wrong");
	nr = vi.nread; nw = vo.nwrite;
	vout_free(&vo);
	if (len > 5000 && bufs[ib] == 0) return;	/* one read per byte */
	one = nr > 200 && !vf_tier;	/* then one kind of failure for each position */
	side = vf_choose("side", 3);	/* 0 read fault, 1 write fault, 2 space limit */
	if (side == 0) {
		for (k = 0; k < nr; k++) for (e = 0; e < NELEM(re); e++) for (kind = 0; kind < 2; kind++) {
			if (one && (k & 7) != e * 2 + kind) continue;
			vin_init(&vi, r.in, r.inlen); vi.chunk = chunk; vi.fault_at = k; vi.fault_errno = re[e]; vi.fault_sticky = kind; vout_init(&vo);
			env_saltctr = 0;
			vf_note("op %d len %zu: read %ld of %ld fails with errno %d%s; buffers %ld/%ld chunk %zu", dec, len, k, nr, re[e], kind ? " and ever after" : "", bufs[ib], bufs[ob], chunk);
			rc = lib_run(dec, r.in, r.inlen, &vi, &vo, bufs[ib], bufs[ob], &fl);
			vf_eval();
			VF_CHECK(rc != SCRYPT_OK, "read-success", "reported success");
			VF_CHECK(rc == SCRYPT_ERDFILE, "read-code", "reported %d, expected a read error", rc);
			VF_CHECK(vo.n <= r.n && !memcmp(vo.n ? vo.d : (uint8_t *)"", r.want, vo.n), "read-output", "output is not a prefix of the right output");
			vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)(k * 100 + e * 10 + kind)));
			vout_free(&vo);
		}
		vf_outcome(SCRYPT_ERDFILE);
	} else if (side == 1) {
		static const int we[] = { EIO, ENOSPC, EINTR, EPIPE };
		for (k = 0; k < nw; k++) for (e = 0; e < NELEM(we); e++) for (part = 0; part < 3; part++) for (kind = 0; kind < 2; kind++) {
			if (nw > 60 && !vf_tier && k % 24 != e * 6 + part * 2 + kind) continue;
			vin_init(&vi, r.in, r.inlen); vi.chunk = chunk; vout_init(&vo); env_saltctr = 0;
			vo.fault_at = k; vo.fault_errno = we[e]; vo.fault_partial = part == 0 ? 0 : part == 1 ? 1 : 50; vo.fault_sticky = kind;
			vf_note("op %d len %zu: write %ld of %ld fails with errno %d after %d bytes%s; buffers %ld/%ld chunk %zu", dec, len, k, nw, we[e], vo.fault_partial, kind ? " and ever after" : "", bufs[ib], bufs[ob], chunk);
			rc = lib_run(dec, r.in, r.inlen, &vi, &vo, bufs[ib], bufs[ob], &fl);
			vf_eval();
			/* stdio finishes a short write by itself: then nothing failed */
			if (rc == SCRYPT_OK && fl == 0)
				VF_CHECK(vo.n == r.n && !memcmp(vo.d, r.want, r.n), "write-success", "success, yet the destination lacks data (%zu of %zu bytes)", vo.n, r.n);
			if (rc != SCRYPT_OK) VF_CHECK(rc == SCRYPT_EWRFILE, "write-code", "reported %d, expected a write error", rc);
			if (bufs[ob] == 0 && (part == 0 || kind)) VF_CHECK(rc == SCRYPT_EWRFILE || fl, "write-code", "unbuffered write failure reported as %d", rc);
			vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)(k * 1000 + e * 100 + part * 10 + kind)));
			vf_outcome((uint64_t)(rc * 2 + !!fl));
			vout_free(&vo);
		}
	} else {
		size_t L, step = r.n > 3000 ? (vf_tier ? 13 : r.n > 10000 ? 1021 : 97) : 1;
		for (L = 0; L < r.n; L = (L + 140 < r.n && L > 140) ? L + step : L + 1) {
			vin_init(&vi, r.in, r.inlen); vi.chunk = chunk; vout_init(&vo); env_saltctr = 0;
			vo.has_limit = 1; vo.limit = L;
			vf_note("op %d len %zu: the destination holds only %zu of %zu bytes; buffers %ld/%ld chunk %zu", dec, len, L, r.n, bufs[ib], bufs[ob], chunk);
			rc = lib_run(dec, r.in, r.inlen, &vi, &vo, bufs[ib], bufs[ob], &fl);
			vf_eval();
			VF_CHECK(rc != SCRYPT_OK || fl, "full-success", "full destination reported as success");
			VF_CHECK(rc == SCRYPT_OK || rc == SCRYPT_EWRFILE, "full-code", "reported %d", rc);
			VF_CHECK(bufs[ob] || rc == SCRYPT_EWRFILE, "full-code", "unbuffered: reported %d", rc);
			VF_CHECK(vo.n <= L && !memcmp(vo.n ? vo.d : (uint8_t *)"", r.want, vo.n), "full-output", "output is not a prefix");
			vf_seen(vf_hash2(vf_trace_hash(), L));
			vout_free(&vo);
		}
		vf_outcome(SCRYPT_EWRFILE);
	}
	if (li == 3 && ib == 1 && ob == 1 && chunk == 0) vf_sample("op %d, %zu bytes: %ld reads and %ld writes, each failed in turn (side %d)", dec, len, nr, nw, side);
}
/* two faults in one run: read and write */
static void
lib2(void)
{
	int dec = vf_choose("op", 2), li = vf_choose("len", 4), ob = vf_choose("outbuf", NELEM(bufs)); struct vin vi; struct vout vo; struct ref r; int rc, fl; long nr, nw, a, b, c;
	env_reset(); env_setflags(vf_choose("flags", 4)); mkcase(dec, lens[li], &r);
	vin_init(&vi, r.in, r.inlen); vi.chunk = 40; vout_init(&vo); env_saltctr = 0;
	rc = lib_run(dec, r.in, r.inlen, &vi, &vo, 0, bufs[ob], &fl); nr = vi.nread; nw = vo.nwrite; vout_free(&vo);
	for (a = 0; a < nr; a++) for (b = 0; b < nw; b++) for (c = 0; c < 2; c++) {
		vin_init(&vi, r.in, r.inlen); vi.chunk = 40; vi.fault_at = a; vi.fault_errno = EIO; vi.fault_sticky = (int)c; vout_init(&vo); vo.fault_at = b; vo.fault_errno = ENOSPC; vo.fault_sticky = (int)c; env_saltctr = 0;
		vf_note("op %d len %zu read %ld and write %ld fail, outbuf %ld", dec, lens[li], a, b, bufs[ob]);
		rc = lib_run(dec, r.in, r.inlen, &vi, &vo, 0, bufs[ob], &fl);
		vf_eval();
		VF_CHECK(rc == SCRYPT_ERDFILE || rc == SCRYPT_EWRFILE, "two-faults", "reported %d", rc);
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)(a * 1000 + b * 2 + c))); vf_outcome((uint64_t)rc);
		vout_free(&vo);
	}
}
/* the command over injected streams */
static void
cmd(void)
{
	int dec = vf_choose("op", 2), li = vf_choose("len", NELEM(lens)), is = vf_choose("in", 2), os = vf_choose("out", 2), ob, k, nr, nw, code, side, e, part;
	struct ref r; struct clires * R; size_t len = lens[li]; const char * mode = dec ? "dec" : "enc", * ia = is ? "-" : "in", * oa = os ? NULL : "out";
	static const int re[] = { EIO, EISDIR }, we[] = { ENOSPC, EIO };
	ob = vf_choose("outbuf", NELEM(bufs));
	rf = vf_choose("flags", 4);
	env_reset(); mkcase(dec, len, &r); newdir(); cli_init();
#define PREP() do { reset_inj(); inj_in = is ? 2 : 1; inj_out = os ? 2 : 1; obuf = bufs[ob]; vin_init(&I, r.in, r.inlen); vout_init(&O); } while (0)
	PREP();
	vf_note("%s %s %s %zu bytes, no fault", mode, ia, oa ? oa : "(stdout)", len);
	code = run(&R, mode, ia, oa, NULL, 0);
	if (!CR->in_used || !CR->out_used) return;	/* does not open its files by this route */
	VF_CHECK(code == 0, "baseline", "without faults: status %d: %.200s", code, R->err);
	VF_CHECK(CR->outn == r.n && !memcmp(CR->out, r.want, r.n), "baseline-output", "without faults the output is wrong");
	nr = (int)(r.inlen / 1024) + 3; nw = (int)(r.n / (bufs[ob] > 0 ? (size_t)bufs[ob] : 1024)) + 4;
	if (nr > 20) nr = 20;
	if (nw > 30) nw = 30;
	side = vf_choose("side", 4);
	if (side == 0) for (k = 0; k < nr; k++) for (e = 0; e < 2; e++) {
		PREP(); I.fault_at = k; I.fault_errno = re[e]; I.fault_sticky = e;
		vf_note("%s %s %s %zu bytes, read %d fails with errno %d", mode, ia, oa ? oa : "(stdout)", len, k, re[e]);
		code = run(&R, mode, ia, oa, NULL, 0); vf_eval();
		if (!CR->in_faulted) { VF_CHECK(code == 0, "no-fault", "no fault occurred, yet status %d", code); break; }
		VF_CHECK(R->exited && code == 1, "read-status", "status %d after a read error", code);
		VF_CHECK(strstr(R->err, "reading") != NULL, "read-message", "diagnostic: %.200s", R->err);
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)(k * 10 + e))); vf_outcome(1);
	} else if (side == 1) for (k = 0; k < nw; k++) for (e = 0; e < 2; e++) for (part = 0; part < 2; part++) {
		PREP(); O.fault_at = k; O.fault_errno = we[e]; O.fault_sticky = 1; O.fault_partial = part * 7;
		vf_note("%s %s %s %zu bytes, write %d fails with errno %d after %d bytes, outbuf %ld", mode, ia, oa ? oa : "(stdout)", len, k, we[e], part * 7, bufs[ob]);
		code = run(&R, mode, ia, oa, NULL, 0); vf_eval();
		if (code == 0) VF_CHECK(CR->outn == r.n && !memcmp(CR->out, r.want, r.n), "write-status", "exit 0 with %zu of %zu bytes written", CR->outn, r.n);
		else VF_CHECK(R->exited && code == 1, "write-status", "status %d", code);
		if (!CR->out_faulted) { VF_CHECK(code == 0, "no-fault", "no fault occurred, yet status %d", code); break; }
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)(k * 10 + e * 2 + part))); vf_outcome((uint64_t)(2 + code));
	} else if (side == 2) {
		size_t L, step = r.n > 3000 ? r.n / (vf_tier ? 300 : 40) : r.n > 300 && !vf_tier ? 3 : 1;
		for (L = 0; L < r.n; L += (L > 40 && L + 40 < r.n) ? step : 1) {
			PREP(); O.has_limit = 1; O.limit = L;
			vf_note("%s %s %s %zu bytes, room for %zu of %zu bytes, outbuf %ld", mode, ia, oa ? oa : "(stdout)", len, L, r.n, bufs[ob]);
			code = run(&R, mode, ia, oa, NULL, 0); vf_eval();
			VF_CHECK(R->exited && code == 1, "full-status", "status %d though only %zu of %zu bytes fit", code, L, r.n);
			VF_CHECK(R->errn > 0, "silent", "no diagnostic");
			vf_seen(vf_hash2(vf_trace_hash(), L)); vf_outcome(8);
		}
	} else {
		if (os) return;	/* main does not close stdout; exit() does */
		PREP(); O.close_errno = EIO;
		vf_note("%s %s %s %zu bytes, closing the output fails", mode, ia, oa ? oa : "(stdout)", len);
		code = run(&R, mode, ia, oa, NULL, 0); vf_eval();
		VF_CHECK(R->exited && code == 1, "close-status", "status %d though closing the output failed", code);
		vf_seen(vf_trace_hash()); vf_outcome(9);
		PREP(); I.close_errno = EIO;
		code = run(&R, mode, ia, oa, NULL, 0); vf_eval();
		VF_CHECK(R->exited, "close-in", "killed");
		if (code == 0) VF_CHECK(CR->outn == r.n && !memcmp(CR->out, r.want, r.n), "close-in", "bad output");
	}
	if (li == 3 && ob == 1) vf_sample("%s %s -> %s, %zu bytes: fault side %d at every position", mode, ia, oa ? oa : "(stdout)", len, side);
}
/* the command against the real kernel: file size limits, full device, closed pipe */
static void
kern(void)
{
	int dec = vf_choose("op", 2), li = vf_choose("len", NELEM(lens)), is = vf_choose("in", 2), os = vf_choose("out", 4), code; size_t len = lens[li], gn = 0, L; uint8_t * g;
	struct ref r; struct clires * R; const char * mode = dec ? "dec" : "enc";
	rf = vf_choose("flags", 4);
	env_reset(); mkcase(dec, len, &r); newdir(); cli_init();
	wrfile("in", r.in, r.inlen);
	reset_inj();
	if (os < 2) {
		size_t step = r.n > 3000 ? r.n / (vf_tier ? 200 : 25) : vf_tier ? 1 : 5;
		for (L = 0; L <= r.n; L += (L > 20 && L + 36 < r.n) ? step : 1) {
			SC.fsize = (long)L;
			vf_note("%s %s to %s, file size limit %zu, output %zu bytes", mode, is ? "stdin" : "file", os ? "stdout" : "file", L, r.n);
			code = run(&R, mode, is ? "-" : "in", os ? NULL : "out", is ? r.in : NULL, r.inlen); vf_eval();
			g = os ? R->out : rdfile("out", &gn); if (os) gn = R->outn;
			if (L < r.n) VF_CHECK(R->exited && code == 1, "fsize-status", "status %d", code);
			else {
				VF_CHECK(code == 0, "fsize-status", "status %d though everything fits: %.200s", code, R->err);
				VF_CHECK(g && gn == r.n && !memcmp(g, r.want, gn), "fsize-output", "exit 0 with %zu of %zu bytes", gn, r.n);
			}
			if (!os) free(g);
			vf_seen(vf_hash2(vf_trace_hash(), L)); vf_outcome((uint64_t)code);
		}
	} else if (os == 2) {
		SC.devfull = 1;
		vf_note("%s to a full device through stdout", mode);
		code = run(&R, mode, is ? "-" : "in", NULL, is ? r.in : NULL, r.inlen); vf_eval();
		VF_CHECK(r.n == 0 || (R->exited && code == 1), "devfull", "status %d", code);
		SC.devfull = 0;
		code = run(&R, mode, is ? "-" : "in", devlink("full", "/dev/full"), is ? r.in : NULL, r.inlen); vf_eval();
		VF_CHECK(r.n == 0 || (R->exited && code == 1), "devfull", "status %d", code);
		vf_seen(vf_trace_hash()); vf_outcome(20);
	} else {
		int d;
		for (d = 0; d < 2; d++) {
			SC.pipe_closed = 1; SC.sigpipe_dfl = d;
			vf_note("%s to a pipe nobody reads (SIGPIPE %s)", mode, d ? "default" : "ignored");
			code = run(&R, mode, is ? "-" : "in", NULL, is ? r.in : NULL, r.inlen); vf_eval();
			VF_CHECK(r.n == 0 || code != 0, "pipe", "status 0");
			VF_CHECK(d || (R->exited && (code == 1 || r.n == 0)), "pipe", "status %d", code);
		}
		vf_seen(vf_trace_hash()); vf_outcome(21);
	}
}
static const struct vf_scn S[] = {
	{ "lib", lib, 0, { 0, 0 }, 0, 0 },
	{ "lib_two_faults", lib2, 0, { 0, 0 }, 0, 0 },
	{ "command", cmd, 0, { 0, 0 }, 0, 0 },
	{ "kernel", kern, 0, { 0, 0 }, 0, 0 },
	{ NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#elif PROP == 4
/* ============================ C04 ============================ */
#define LEN 150
enum { OUT_ABSENT, OUT_EXIST, OUT_EMPTY, OUT_STDOUT, OUT_RDONLYDIR, NOUT };
/* Run "dec" with the given arguments and input; require that nothing is written. */
static void
must_refuse1(const char * passarg, int is, int out, const uint8_t * f, size_t n, const char * inname_, const char * what)
{
	char * av[20]; int ac = 1, code; struct clires * R; struct stat a, b; char p[500]; uint8_t * g; size_t gn;
	static const char old[] = "previous contents of the output";
	char pp[600];
	newdir();
	wrfile("in", f, n); wrfile("pwfile", PW "\n", strlen(PW) + 1); wrfile("bad", "wrong\n", 6); wrfile("empty", "", 0); wrfile("long", "", 0);
	snprintf(p, sizeof(p), "%s/sub", privdir); if (mkdir(p, 0700)) vf_internal("mkdir");
	snprintf(p, sizeof(p), "%s/out", privdir);
	memset(&a, 0, sizeof(a));
	if (out == OUT_EXIST) wrfile("out", old, sizeof(old));
	if (out == OUT_EMPTY) wrfile("out", "", 0);
	if (out == OUT_EXIST || out == OUT_EMPTY) {
		struct timespec ts[2] = { { 1000, 0 }, { 1000, 0 } };
		utimensat(AT_FDCWD, p, ts, 0);
		stat(p, &a);
	}
	av[ac++] = "dec"; av[ac++] = "--passphrase"; av[ac++] = (char *)(uintptr_t)passarg;
	ac = rflags(av, ac, 0);
	av[ac++] = (char *)(uintptr_t)(is ? "-" : inname_);
	if (out == OUT_RDONLYDIR) { snprintf(pp, sizeof(pp), "sub/out"); av[ac++] = pp; }
	else if (out != OUT_STDOUT) av[ac++] = "out";
	av[ac] = NULL;
	vf_note("%s;%s%s input from %s, output %s", what, rf & 1 ? " -v" : "", rf & 2 ? " -f" : "", is ? "stdin" : inname_, out == OUT_ABSENT ? "absent" : out == OUT_EXIST ? "existing" : out == OUT_EMPTY ? "existing, empty" : out == OUT_STDOUT ? "stdout" : "in a directory");
	R = cli_run(ac, av, is ? f : NULL, n, setup, NULL);
	code = R->exited ? R->code : 1000 - R->code;
	vf_eval();
	VF_CHECK(R->exited && code == 1, "status", "exit status %d", code);
	VF_CHECK(R->errn > 0, "silent", "no diagnostic");
	VF_CHECK(R->outn == 0, "stdout", "%zu bytes written to standard output", R->outn);
	VF_CHECK(CR->out_used == 0, "opened", "the output file was opened");
	if (out == OUT_ABSENT) VF_CHECK(stat(p, &b) != 0, "created", "the output file was created");
	if (out == OUT_RDONLYDIR) { snprintf(pp, sizeof(pp), "%s/sub/out", privdir); VF_CHECK(stat(pp, &b) != 0, "created", "the output file was created"); }
	if (out == OUT_EXIST || out == OUT_EMPTY) {
		VF_CHECK(stat(p, &b) == 0 && a.st_ino == b.st_ino && a.st_size == b.st_size && a.st_mtim.tv_sec == b.st_mtim.tv_sec && a.st_mtim.tv_nsec == b.st_mtim.tv_nsec, "touched", "the output file was modified (size %ld to %ld)", (long)a.st_size, (long)b.st_size);
		g = rdfile("out", &gn);
		VF_CHECK(g && (out == OUT_EMPTY || !memcmp(g, old, sizeof(old))), "touched", "the output file's contents changed");
		free(g);
	}
	vf_seen(vf_hash2(vf_trace_hash(), vf_hash2(vf_hash(f, n, 0), (uint64_t)(is * 10 + out))));
	vf_outcome(vf_hstr(R->err));
}
static int limits;	/* the refusal is one that -f overrides */
static void
must_refuse(const char * passarg, int is, int out, const uint8_t * f, size_t n, const char * inname_, const char * what)
{
	for (rf = 0; rf < (limits ? 2 : 4); rf++) must_refuse1(passarg, is, out, f, n, inname_, what);
	rf = 0;
}
static const int bits[] = { 0, 3, 7, 1, 2, 4, 5, 6 };
static void
header_bits(void)
{
	int i = vf_choose("byte", 96), b = vf_choose("bit", 8), fix, out, is; size_t n;
	env_reset(); reset_inj(); cli_init();
	n = mkfile(LEN, 4, 1, 1); memcpy(W, X, n);
	W[i] ^= (uint8_t)(1 << bits[b]);
	for (fix = 0; fix < 2; fix++) {
		char w[100];
		if (fix) { if (i >= 48 || i == 6 || i < 6) continue; ref_fixsum(W); }
		if (fix && i >= 7 && i < 16 && !(ref_faults(W, n, PW, strlen(PW)) & (RF_PARAM | RF_PASS))) continue;
		snprintf(w, sizeof(w), "header byte %d bit %d flipped%s", i, bits[b], fix ? ", checksum made right" : "");
		limits = fix && i < 16;
		for (out = 0; out < NOUT; out++) for (is = 0; is < 2; is++) must_refuse("env:PWENV", is, out, W, n, "in", w);
	}
	if (i == 7) vf_sample("header byte 7 flipped: refused with all outputs untouched");
}
static void
truncated(void)
{
	int n = vf_choose("length", 96), out, is; char w[60];
	env_reset(); reset_inj(); cli_init();
	mkfile(LEN, 4, 1, 1);
	snprintf(w, sizeof(w), "input cut to %d bytes", n);
	for (out = 0; out < NOUT; out++) for (is = 0; is < 2; is++) must_refuse("env:PWENV", is, out, X, (size_t)n, "in", w);
}
static const struct { int l; uint32_t r, p; } badp[] = {
	{ 0, 1, 1 }, { 64, 1, 1 }, { 255, 1, 1 }, { 4, 0, 1 }, { 4, 1, 0 }, { 4, 0, 0 }, { 4, 1u << 15, 1u << 15 }, { 4, 0xffffffffu, 0xffffffffu }, { 4, 1, 1u << 30 },	/* invalid */
	{ 14, 8, 1 }, { 63, 8, 1 }, { 10, 9, 1 }, { 20, 1, 1 }, { 1, 1u << 13, 1 }, { 1, (1u << 12) + 1, 1 },	/* over the memory limit of 1 MiB */
	{ 4, 1, 1 << 12 }, { 10, 8, 2 } };	/* over the time limit */
static void
params(void)
{
	int k = vf_choose("params", NELEM(badp)), out, is; size_t n; char w[100];
	env_reset(); reset_inj(); cli_init(); env_stub();
	limits = k >= 9;
	env_opps = 30000.0 / 300.0;
	n = mkfile(LEN, badp[k].l ? badp[k].l : 4, 1, 1); memcpy(W, X, n);
	/* a file that would be right but for its parameters */
	W[7] = (uint8_t)badp[k].l;
	{ int j; for (j = 0; j < 4; j++) { W[8 + j] = (uint8_t)(badp[k].r >> (24 - 8 * j)); W[12 + j] = (uint8_t)(badp[k].p >> (24 - 8 * j)); } }
	ref_fixsum(W);
	{ uint8_t dk[64]; stub_kdf(PW, strlen(PW), salt0, 32, badp[k].l < 64 ? 1ULL << badp[k].l : 0, badp[k].r, badp[k].p, dk, 64); ref_hmac(dk + 32, 32, W, 64, W + 64); ref_aesctr(dk, 32, 0, 0, D, W + 96, LEN); ref_hmac(dk + 32, 32, W, n - 32, W + n - 32); }
	snprintf(w, sizeof(w), "parameters logN=%d r=%u p=%u", badp[k].l, badp[k].r, badp[k].p);
	for (out = 0; out < NOUT; out++) for (is = 0; is < 2; is++) must_refuse("env:PWENV", is, out, W, n, "in", w);
}
static void
causes(void)
{
	int c = vf_choose("cause", 16), out, is; size_t n; const char * pa = "env:PWENV", * in = "in", * what;
	env_reset(); cli_init();
	n = mkfile(LEN, 4, 1, 1);
	for (out = 0; out < NOUT; out++) for (is = 0; is < 2; is++) {
		reset_inj(); env_reset();
		switch (c) {
		case 0: pa = "file:bad"; what = "wrong passphrase"; break;
		case 1: pa = "env:NOSUCH"; what = "passphrase variable not set"; break;
		case 2: pa = "file:nosuch"; what = "passphrase file missing"; break;
		case 3: pa = "file:empty"; what = "empty passphrase"; break;
		case 4: pa = "dev:stdin-once"; what = "no passphrase on stdin"; if (is) continue; break;
		case 5: in = "missing"; what = "input missing"; if (is) continue; break;
		case 6: in = "sub"; what = "input is a directory"; if (is) continue; break;
		case 7: in = "in/x"; what = "input below a file"; if (is) continue; break;
		case 8: env_kdf_mode = 2; what = "key derivation fails"; break;
		case 9: env_memfail = 1; what = "memory limit unknown"; break;
		case 10: env_perf_rc = SCRYPT_ECLOCK; what = "clock fails"; break;
		case 11: env_opps = 0; what = "no time allowed"; break;
		case 12: pa = "file:sub"; what = "passphrase file is a directory"; break;
		case 13: pa = "dev:nonsense"; what = "unknown passphrase source"; break;
		case 14: pa = "dev:tty-once"; what = "no terminal"; if (is) continue; setsid(); break;
		default: pa = "dev:tty-stdin"; what = "no terminal and no passphrase on stdin"; if (is) continue; setsid(); break;
		}
		limits = c >= 9 && c <= 11;
		must_refuse(pa, is, out, X, n, in, what);
	}
	vf_sample("cause %d refused with all outputs untouched", c);
}
/* read failures at each read of the header, through injected streams */
static void
readfail(void)
{
	int k = vf_choose("read", 96), is = vf_choose("in", 2), out = vf_choose("out", 2) ? OUT_STDOUT : OUT_ABSENT; size_t n; char w[80];
	static const int es[] = { EIO, EISDIR };
	int e;
	env_reset(); cli_init();
	n = mkfile(LEN, 4, 1, 1);
	for (e = 0; e < 8; e++) {
		rf = e >> 1;
		reset_inj();
		inj_in = is ? 2 : 1; inj_out = out == OUT_STDOUT ? 2 : 1;
		vin_init(&I, X, n); I.chunk = 1; I.fault_at = k; I.fault_errno = es[e & 1]; I.fault_sticky = e & 1;
		snprintf(w, sizeof(w), "reading the input fails after %d bytes", k);
		{
			char * av[10]; int ac = 1; struct clires * R;
			newdir();
			av[ac++] = "dec"; av[ac++] = "--passphrase"; av[ac++] = "env:PWENV"; ac = rflags(av, ac, 0); av[ac++] = is ? "-" : "in"; if (out != OUT_STDOUT) av[ac++] = "out"; av[ac] = NULL;
			vf_note("%s", w);
			R = cli_run(ac, av, NULL, 0, setup, NULL); vf_eval();
			if (!CR->in_used) return;
			VF_CHECK(R->exited && R->code == 1, "status", "exit status %d", R->code);
			VF_CHECK(CR->outn == 0 && R->outn == 0, "written", "%zu bytes written", CR->outn + R->outn);
			VF_CHECK(CR->out_used == (out == OUT_STDOUT), "opened", "the output file was opened");
			vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)e)); vf_outcome(vf_hstr(R->err));
		}
	}
}
/* the stream interface itself */
static void
lib_stream(void)
{
	static const size_t ls[] = { 0, 1, 31, 32, 33, 64, 150, 65535, 65536, 65537, 2 * 65536 + 40 };
	int li = vf_choose("len", NELEM(ls)), ch = vf_choose("chunk", 5), kind = vf_choose("kind", 3), api = 1 + vf_choose("api", 2), rc; size_t n, len = ls[li], m, step; uint8_t * o; size_t ol;
	static const size_t chunks[] = { 0, 1, 33, 1000, 65568 };
	env_reset(); env_stub(); env_setflags(vf_choose("flags", 4));
	n = mkfile(len, 4, 1, 1);
	if (len > 1000 && chunks[ch] == 1 && !vf_tier && len > 66000) return;
	step = len > 1000 ? (vf_tier ? 31 : 1021) : 1;
	if (kind == 0) for (m = 0; m < n; m += (m > 140 && m + 140 < n) ? step : 1) {
		struct scryptenc_params P = PARAMS(0, 0, 0); size_t upto = m < 96 ? 0 : m - 96;
		memcpy(W, X, n); W[m] ^= 0x40;
		vf_note("byte %zu of %zu modified, delivered in pieces of %zu", m, n, chunks[ch]);
		rc = dec_any(api, W, n, (const uint8_t *)PW, strlen(PW), 1, chunks[ch], &o, &ol, &P); vf_eval();
		VF_CHECK(rc != SCRYPT_OK, "accepted", "modified file accepted");
		if (m < 96) VF_CHECK(ol == 0, "written", "%zu bytes written though the header is bad", ol);
		VF_CHECK(ol <= len, "too-much", "%zu bytes written from %zu of data", ol, len);
		VF_CHECK(!memcmp(o, D, ol < upto ? ol : upto), "wrong-plaintext", "authentic data decrypted to something else");
		vf_seen(vf_hash2(vf_trace_hash(), m)); vf_outcome((uint64_t)rc);
		free(o);
	} else if (kind == 1) for (m = 0; m < n; m += (m > 140 && m + 140 < n) ? step : 1) {
		struct scryptenc_params P = PARAMS(0, 0, 0); size_t upto = m < 128 ? 0 : m - 128;
		vf_note("cut to %zu of %zu bytes, delivered in pieces of %zu", m, n, chunks[ch]);
		rc = dec_any(api, X, m, (const uint8_t *)PW, strlen(PW), 1, chunks[ch], &o, &ol, &P); vf_eval();
		VF_CHECK(rc != SCRYPT_OK, "accepted", "truncated file accepted");
		VF_CHECK(ol <= upto && !memcmp(o, D, ol), "wrong-plaintext", "wrote %zu bytes, at most the first %zu plaintext bytes expected", ol, upto);
		vf_seen(vf_hash2(vf_trace_hash(), m)); vf_outcome((uint64_t)rc);
		free(o);
	} else {
		/* read failure after m bytes */
		for (m = 0; m <= n; m += (m > 140 && m + 140 < n) ? step : 1) {
			struct scryptenc_params P = PARAMS(0, 0, 0); struct vin vi; struct vout vo; FILE * fi, * fo; struct scryptdec_file_cookie * C = NULL; size_t upto = m < 128 ? 0 : m - 128;
			if (m > 200) break;
			vin_init(&vi, X, n); vi.chunk = 1; vi.fault_at = (long)m; vi.fault_errno = EIO; vi.fault_sticky = 1; vout_init(&vo);
			fi = vin_open(&vi, -1); fo = vout_open(&vo, 0);
			vf_note("read fails after %zu of %zu bytes", m, n);
			if (api == 1) rc = scryptdec_file(fi, fo, (const uint8_t *)PW, strlen(PW), &P, env_verbose(), env_force(1));
			else if ((rc = scryptdec_file_prep(fi, (const uint8_t *)PW, strlen(PW), &P, env_verbose(), env_force(1), &C)) == 0) { rc = scryptdec_file_copy(C, fo); scryptdec_file_cookie_free(C); }
			env_called(); fclose(fi); fclose(fo); vf_eval();
			VF_CHECK(rc == SCRYPT_ERDFILE, "code", "read failure reported as %d", rc);
			VF_CHECK(vo.n <= upto && !memcmp(vo.n ? vo.d : (uint8_t *)"", D, vo.n), "wrong-plaintext", "wrote %zu bytes, at most the first %zu plaintext bytes expected", vo.n, upto);
			vf_seen(vf_hash2(vf_trace_hash(), m)); vf_outcome((uint64_t)rc);
			vout_free(&vo);
		}
	}
	if (li == 6) vf_sample("%zu bytes of data, kind %d: every position", len, kind);
}
static const struct vf_scn S[] = {
	{ "header_bits", header_bits, 0, { 0, 0 }, 0, 0 },
	{ "truncated", truncated, 0, { 0, 0 }, 0, 0 },
	{ "params", params, 0, { 0, 0 }, 0, 0 },
	{ "causes", causes, 0, { 0, 0 }, 0, 0 },
	{ "read_failures", readfail, 0, { 0, 0 }, 0, 0 },
	{ "stream_interface", lib_stream, 0, { 0, 0 }, 0, 0 },
	{ NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#elif PROP == 3
/* ============================ C03: the command ============================ */
static void
refused(const uint8_t * f, size_t n, const char * pa, int is, int os, size_t len, const char * what)
{
	struct clires * R; int ac, code; char * av[16]; uint8_t * g; size_t gn = 0;
	for (rf = 0; rf < 4; rf++) {
		newdir(); wrfile("in", f, n); wrfile("bad", "passphrase\n", 11);
		ac = 0; av[ac++] = "scrypt"; av[ac++] = "dec"; av[ac++] = "--passphrase"; av[ac++] = (char *)(uintptr_t)pa; ac = rflags(av, ac, 0);
		av[ac++] = is ? "-" : "in"; if (!os) av[ac++] = "out";
		av[ac] = NULL;
		vf_note("%s; %s", argstr(ac, av), what);
		R = cli_run(ac, av, is ? f : NULL, n, setup, NULL); vf_eval();
		code = R->exited ? R->code : 1000 - R->code;
		VF_CHECK(code == 1, "command-accepted", "exit status %d", code);
		VF_CHECK(R->errn > 0, "command-silent", "no diagnostic");
		g = os ? R->out : rdfile("out", &gn); if (os) gn = R->outn;
		VF_CHECK(!g || gn <= len, "command-output", "%zu bytes of output from %zu of data", gn, len);
		if (!os) free(g);
		vf_seen(vf_hash2(vf_hash(f, n, (uint64_t)(is * 2 + os)), (uint64_t)rf)); vf_outcome(vf_hstr(R->err));
	}
	rf = 0;
}
static void
cmd_bytes(void)
{
	static const size_t ls[] = { 0, 1, 40, 65536 + 30 }; int li = vf_choose("len", NELEM(ls)), kind = vf_choose("kind", 4), is = vf_choose("in", 2), os = vf_choose("out", 2); size_t len = ls[li], n, i, step = len > 1000 ? (vf_tier ? 997 : 8191) : 1; char w[100];
	env_reset(); reset_inj(); cli_init(); env_stub();
	n = mkfile(len, 4, 1, 1);
	if (kind == 3) { refused(X, n, "file:bad", is, os, 0, "wrong passphrase"); return; }
	for (i = 0; i < (kind == 2 ? 70 : n); i += (i > 140 && i + 70 < n) ? step : 1) {
		memcpy(W, X, n);
		if (kind == 0) { W[i] ^= (uint8_t)(1 << (i * 5 % 8)); snprintf(w, sizeof(w), "byte %zu of %zu changed", i, n); refused(W, n, "env:PWENV", is, os, len, w); }
		else if (kind == 1) { snprintf(w, sizeof(w), "cut to %zu of %zu bytes", i, n); refused(W, i, "env:PWENV", is, os, len, w); }
		else { memcpy(W + n, X + 96, 80); snprintf(w, sizeof(w), "%zu bytes appended", i + 1); refused(W, n + i + 1, "env:PWENV", is, os, len + i + 1, w); }
	}
	if (li == 2 && !is && os) vf_sample("file of %zu bytes, change %d at every place, given to the command", n, kind);
}
static const struct vf_scn S[] = { { "command", cmd_bytes, 0, { 0, 0 }, 0, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#elif PROP == 27
/* ============================ C27 ============================ */
static const size_t lens[] = { 0, 1, 100, 4096, 65536 + 65, 2 * 65536 + 1 };
enum { K_ABSENT, K_OLD, K_STDOUT, NK };
static const char * kname[] = { "absent", "existing", "stdout" };
static uint8_t E[MAXD + 128], OLD[3000];
struct job { int dec, out, is; size_t inl, n; const uint8_t * in, * want; };
static void
mkjob(struct job * j, int dec, size_t len, int out, int is)
{
	env_reset(); env_stub(); reset_inj(); cli_init();
	j->dec = dec; j->out = out; j->is = is;
	if (dec) { j->inl = mkfile(len, 4, 1, 1); j->in = X; j->want = D; j->n = len; }
	else { fill(D, len, 5); j->inl = len; j->in = D; j->n = expect_enc(E, len, 10, 8, 1); j->want = E; }
	fill(OLD, sizeof(OLD), 77);
}
static void
place(const struct job * j)
{
	newdir();
	wrfile("in", j->in, j->inl);
	if (j->out == K_OLD) wrfile("out", OLD, sizeof(OLD));
}
/* The state a killed run left. */
static void
judge(const struct job * j, struct clires * R, int before)
{
	size_t gn = 0; uint8_t * g, * o; size_t ol; struct scryptenc_params P = PARAMS(0, 0, 0); int rc;
	(void)before;
	if (!j->is) {
		g = rdfile("in", &gn);
		VF_CHECK(g && gn == j->inl && !memcmp(g, j->in, gn), "input", "the input file was changed");
		free(g);
	}
	if (j->out == K_STDOUT) { g = R->out; gn = R->outn; } else g = rdfile("out", &gn);
	if (!g) { VF_CHECK(j->out == K_ABSENT, "removed", "the existing output file is gone"); return; }
	vf_state(vf_hash2(gn, vf_hash(g, gn, 1)));
	if (!(j->out == K_OLD && gn == sizeof(OLD) && !memcmp(g, OLD, gn))) {
		VF_CHECK(gn <= j->n, "longer", "the output has %zu bytes, the complete one only %zu", gn, j->n);
		VF_CHECK(!memcmp(g, j->want, gn), "not-prefix", "the output (%zu bytes) is no leading part of the complete one (%zu bytes)", gn, j->n);
	}
	if (!j->dec && gn < j->n) {
		rc = dec_any(0, g, gn, (const uint8_t *)PW, strlen(PW), 1, 0, &o, &ol, &P);
		VF_CHECK(rc != SCRYPT_OK, "accepted", "the incomplete encryption (%zu of %zu bytes) is accepted", gn, j->n);
		free(o);
	}
	if (j->out != K_STDOUT) free(g);
}
static struct clires *
go(const struct job * j)
{
	struct clires * R;
	env_saltctr = 0;
	run(&R, j->dec ? "dec" : "enc", j->is ? "-" : "in", j->out == K_STDOUT ? NULL : "out", j->is ? j->in : NULL, j->inl);
	if (R->exited && R->code >= 92 && R->code <= 98) vf_internal("tracing failed: %d", R->code);
	return (R);
}
static void
again(const struct job * j)
{
	struct clires * R; uint8_t * g; size_t gn;
	SC.traced = 0; SC.fsize = -1;
	R = go(j);
	VF_CHECK(R->exited && R->code == 0, "again", "running the command again fails (%d): %.200s", R->code, R->err);
	if (j->out == K_STDOUT) { g = R->out; gn = R->outn; } else g = rdfile("out", &gn);
	VF_CHECK(g && gn == j->n && !memcmp(g, j->want, gn), "again-output", "running the command again gives other output");
	if (j->out != K_STDOUT) free(g);
}
/* killed at each system call */
static void
syscalls(void)
{
	int dec = vf_choose("op", 2), li = vf_choose("len", NELEM(lens)), out = vf_choose("out", NK), is = vf_choose("in", 2), rr = lens[li] > 60000 && !vf_tier; struct job j; struct clires * R; long k;
	rf = vf_choose("flags", 4);
	mkjob(&j, dec, lens[li], out, is);
	for (k = 0; ; k++) {
		place(&j); reset_inj();
		SC.traced = 1; SC.kill_at = k;
		vf_note("%s %zu bytes from %s, output %s: killed at system call %ld", dec ? "dec" : "enc", lens[li], is ? "stdin" : "a file", kname[out], k);
		R = go(&j); vf_eval();
		if (!CR->killed) {
			VF_CHECK(R->exited && R->code == 0, "status", "not killed, yet status %d", R->code);
			judge(&j, R, 0);
			break;
		}
		judge(&j, R, 1);
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)k));
		if (!rr || k % 5 == 0) again(&j);
		if (k > 5000) vf_internal("endless");
	}
	vf_outcome((uint64_t)dec);
	if (li == 3) vf_sample("%s %zu bytes, output %s: killed at each of %ld system calls", dec ? "dec" : "enc", lens[li], kname[out], k);
}
/* killed twice: the second run meets what the first one left */
static void
twice(void)
{
	int dec = vf_choose("op", 2), li = vf_choose("len", vf_tier ? 4 : 3), out = vf_choose("out", 2); struct job j; struct clires * R; long k, l;
	rf = vf_choose("flags", vf_tier ? 4 : 2) * (vf_tier ? 1 : 3);
	mkjob(&j, dec, lens[li], out, 0);
	k = vf_choose("first", 200);
	for (l = 0; ; l++) {
		place(&j); reset_inj();
		SC.traced = 1; SC.kill_at = k;
		vf_note("%s %zu bytes, output %s: killed at system call %ld, run again, killed at %ld", dec ? "dec" : "enc", lens[li], kname[out], k, l);
		R = go(&j);
		if (!CR->killed) return;
		SC.kill_at = l;
		R = go(&j); vf_eval();
		if (!CR->killed) { VF_CHECK(R->exited && R->code == 0, "status", "not killed, yet status %d", R->code); }
		judge(&j, R, 1);
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)l));
		if (!CR->killed) break;
	}
	vf_outcome((uint64_t)dec);
}
/* killed by the kernel in the middle of a write: the output ends at any byte */
static void
torn(void)
{
	int dec = vf_choose("op", 2), li = vf_choose("len", NELEM(lens)), out = vf_choose("out", NK); struct job j; struct clires * R; size_t L, step, base;
	rf = vf_choose("flags", 4);
	mkjob(&j, dec, lens[li], out, 0);
	step = j.n <= 300 ? 1 : vf_tier ? (j.n > 10000 ? 211 : 7) : j.n > 10000 ? 4099 : 61;
	base = 0;
	for (L = 0; L < j.n; L += (L > 130 && L + 70 < j.n && L % 4096 != 4095) ? step : 1) {
		place(&j); reset_inj();
		SC.fsize = (long)(base + L); SC.xfsz_dfl = 1;
		vf_note("%s %zu bytes, output %s: killed when the output has %zu bytes", dec ? "dec" : "enc", lens[li], kname[out], L);
		R = go(&j); vf_eval();
		VF_CHECK(!(R->exited && R->code == 0), "status", "exit 0 though the output is limited to %zu bytes", L);
		judge(&j, R, 1);
		vf_seen(vf_hash2(vf_trace_hash(), L));
		if (L < 4 || L + 4 > j.n) again(&j);
	}
	vf_outcome((uint64_t)dec);
}
/* nothing is committed to the output before the passphrase proves right */
static void
unauthentic(void)
{
	int i = vf_choose("byte", 96 + 1), out = vf_choose("out", NK), is = vf_choose("in", 2), b; struct job j; struct clires * R; long k; uint8_t * g; size_t gn;
	mkjob(&j, 1, 100, out, is);
	memcpy(W, X, j.inl);
	if (i < 96) W[i] ^= 1; else memset(W + 64, 0, 32);
	j.in = W; b = 0;
	for (k = 0; ; k++) {
		place(&j); reset_inj();
		SC.traced = 1; SC.kill_at = k;
		vf_note("dec of a file whose header byte %d is wrong, output %s: killed at system call %ld", i, kname[out], k);
		R = go(&j); vf_eval();
		if (out == K_STDOUT) { VF_CHECK(R->outn == 0, "written", "%zu bytes on stdout", R->outn); }
		else {
			g = rdfile("out", &gn);
			if (out == K_ABSENT) VF_CHECK(!g, "created", "the output file was created");
			else VF_CHECK(g && gn == sizeof(OLD) && !memcmp(g, OLD, gn), "touched", "the output file was changed");
			free(g);
		}
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)k));
		if (!CR->killed) { VF_CHECK(R->exited && R->code == 1, "status", "status %d", R->code); break; }
	}
	vf_outcome((uint64_t)b);
}
static const struct vf_scn S[] = {
	{ "system_calls", syscalls, 0, { 0, 0 }, 0, 0 },
	{ "killed_twice", twice, 0, { 0, 0 }, 0, 0 },
	{ "torn_write", torn, 0, { 0, 0 }, 0, 0 },
	{ "unauthentic", unauthentic, 0, { 0, 0 }, 0, 0 },
	{ NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#else
/* ============================ C25 ============================ */
static const size_t lens[] = { 0, 1, 4095, 65536, 65537 + 4096 };
enum { O_ABSENT, O_LONGER, O_SHORTER, O_STDOUT, O_EQUAL, NO };
static const char * oname[] = { "absent", "longer", "shorter", "stdout", "same length" };
static const char * pass[] = { "env:PWENV", "file:pwfile", "dev:stdin-once", "dev:tty-stdin", "-P", NULL };
#define JUNK "this is before the data\n"
static int outprefix, skip, ptym, ptys, ptyecho;
static const char * const optv[][6] = { { NULL }, { "-v", NULL }, { "-f", NULL }, { "-M", "900M", "-m", "0.25", NULL }, { "-t", "10", "-v", NULL }, { "-f", "-v", NULL }, { "-t", "0", NULL }, { "-M", "1", "-v", NULL }, { "-t", "0.5", "-M", "1", NULL } };
static uint8_t * piped; static size_t pipedn;
static void psetup(void * c)
{
	setup(c);
	if (skip && lseek(0, skip, SEEK_SET) != skip) _exit(96);
	if (outprefix && write(1, JUNK, strlen(JUNK)) != (ssize_t)strlen(JUNK)) _exit(96);
	if (ptym >= 0) {
		/* a controlling terminal, and someone who types once it no longer echoes */
		pid_t pp;
		if (setsid() < 0 || ioctl(ptys, TIOCSCTTY, 0)) _exit(96);
		if ((pp = vf_fork()) == 0) {
			struct termios t; char b[256]; int i, k; struct timespec ts = { 0, 200000 }; struct pollfd q = { ptym, POLLIN, 0 };
			close(0); close(1); close(2);
			for (i = 0; i < 20000; i++) { if (tcgetattr(ptys, &t)) _exit(0); if (!(t.c_lflag & ECHO)) break; nanosleep(&ts, NULL); }
			for (k = 0; k < 2; k++) if (write(ptym, PW "\n", strlen(PW) + 1) < 0) _exit(0);
			for (i = 0; i < 1000; i++) if (poll(&q, 1, 10) > 0 && read(ptym, b, sizeof(b)) <= 0) break;
			_exit(0);
		}
		close(ptym); close(ptys);
	}
	if (piped) {
		int q[2]; size_t k = 0; pid_t pp;
		if (pipe(q)) _exit(96);
		if ((pp = vf_fork()) == 0) {
			/* deliver in uneven pieces */
			size_t s = 1;
			close(q[0]);
			while (k < pipedn) { size_t w = s < pipedn - k ? s : pipedn - k; ssize_t x = write(q[1], piped + k, w); if (x <= 0) _exit(0); k += (size_t)x; s = s * 3 % 7919 + 1; }
			_exit(0);
		}
		dup2(q[0], 0); close(q[0]); close(q[1]);
	}
}
static void
compose(void)
{
	int dec = vf_choose("op", 2), li = vf_choose("len", NELEM(lens)), is = vf_choose("in", 4), out = vf_choose("out", NO + 1), pm = vf_choose("pass", NELEM(pass)), ov = vf_choose("opts", NELEM(optv)), ex, i, ac = 1, code;
	char * av[24]; size_t len = lens[li], inl, wn, gn = 0; uint8_t * in, * want, * g, * old, * sin; size_t sinl; struct clires * R;
	if (is && (pm == 2 || pm == 4)) return;	/* the command refuses stdin for both */
	if (pm == 5 && (ov > 1 || li > 2)) return;
	/* standard output may already hold something */
	outprefix = out == NO; if (outprefix) { out = O_STDOUT; if (ov > 1) return; }
	skip = 0; ptym = -1;
	if (ov > 5 && (dec || pm || is)) return;
	ex = dec ? 0 : ov > 5 ? 1 : vf_choose("explicit", 2);
	env_reset(); env_stub(); reset_inj(); cli_init(); newdir();
	/* memory 1 MiB and 32768 operations: logN 10 r 8 p 1; 4 * that: p 4 */
	env_memlimit = 1 << 20; env_opps = 4 * 32768.0 / (ov == 4 ? 10.0 : 5.0);
	if (ov > 5) {	/* the explicit parameters are over the limits: a warning, and the same bytes */
		if (ov != 6) env_memlimit = 1 << 18;
		if (ov != 7) env_opps = 1; else env_opps = 1e9;
	}
	if (dec) { inl = mkfile(len, ov == 2 || ov == 5 ? 40 : 5, 2, 3); in = X; want = D; wn = len; env_opps = 1e9; }
	else { fill(D, len, 5); in = D; inl = len; want = W; wn = ex ? expect_enc(W, len, 11, 3, 2) : expect_enc(W, len, 10, 8, 4); }
	wrfile("in", in, inl); wrfile("pwfile", PW "\n", strlen(PW) + 1);
	old = malloc(wn + 5000); memset(old, 'o', wn + 5000);
	if (out == O_LONGER) wrfile("out", old, wn + 5000);
	if (out == O_SHORTER) wrfile("out", old, wn / 2);
	if (out == O_EQUAL) wrfile("out", old, wn);
	free(old);
	av[ac++] = dec ? "dec" : "enc";
	for (i = 0; optv[ov][i]; i++) av[ac++] = (char *)(uintptr_t)optv[ov][i];
	if (ex) { av[ac++] = "--logN"; av[ac++] = "11"; av[ac++] = "-r"; av[ac++] = "3"; av[ac++] = "-p"; av[ac++] = "2"; }
	if (pm == 4) av[ac++] = "-P"; else if (pm < 5) { av[ac++] = "--passphrase"; av[ac++] = (char *)(uintptr_t)pass[pm]; }
	av[ac++] = is ? "-" : "in";
	if (out != O_STDOUT) av[ac++] = "out";
	av[ac] = NULL;
	vf_note("%s; %zu bytes, output %s, input %s", argstr(ac, av), len, oname[out], is == 0 ? "file" : is == 1 ? "stdin (file)" : is == 2 ? "stdin (pipe)" : "stdin (file, from the middle)");
	if (pm == 5 && openpty(&ptym, &ptys, NULL, NULL, NULL)) vf_internal("openpty");
	/* without a terminal the passphrase is the first line of stdin (the first two), and the data follows */
	sin = in; sinl = inl;
	if (is && pm == 3) {
		size_t k = (dec ? 1 : 2) * (strlen(PW) + 1); sin = malloc(inl + k); sinl = inl + k;
		memcpy(sin, PW "\n" PW "\n", k); memcpy(sin + k, in, inl);
	}
	piped = is == 2 ? sin : NULL; pipedn = sinl;
	if (pm == 3) setsid();
	if (is == 1) R = cli_run(ac, av, sin, sinl, psetup, NULL);
	else if (is == 3) { uint8_t * both = malloc(strlen(JUNK) + sinl); memcpy(both, JUNK, strlen(JUNK)); memcpy(both + strlen(JUNK), sin, sinl); skip = (int)strlen(JUNK); R = cli_run(ac, av, both, sinl + strlen(JUNK), psetup, NULL); free(both); skip = 0; }
	else if (!is && pm >= 2 && pm < 5) R = cli_run(ac, av, pm == 3 && !dec ? PW "\n" PW "\n" : PW "\n", pm == 3 && !dec ? 2 * strlen(PW) + 2 : strlen(PW) + 1, psetup, NULL);
	else R = cli_run(ac, av, NULL, 0, psetup, NULL);
	if (pm == 5) { close(ptym); close(ptys); ptym = -1; }
	if (sin != in) free(sin);
	code = R->exited ? R->code : 1000 - R->code;
	vf_eval();
	VF_CHECK(code == 0, "status", "exit status %d: %.300s", code, R->err);
	if (outprefix) { VF_CHECK(R->outn >= strlen(JUNK) && !memcmp(R->out, JUNK, strlen(JUNK)), "overwritten", "what standard output held before was overwritten"); g = R->out + strlen(JUNK); gn = R->outn - strlen(JUNK); }
	else if (out == O_STDOUT) { g = R->out; gn = R->outn; } else g = rdfile("out", &gn);
	VF_CHECK(g != NULL, "no-output", "no output file");
	VF_CHECK(out == O_STDOUT || R->outn == 0, "stdout", "%zu bytes on stdout too", R->outn);
	VF_CHECK(gn == wn, "length", "output has %zu bytes, expected %zu", gn, wn);
	VF_CHECK(!memcmp(g, want, wn), "output", "output differs from the library's");
	if (out != O_STDOUT) free(g);
	g = rdfile("in", &gn);
	VF_CHECK(g && gn == inl && !memcmp(g, in, inl), "input-changed", "the input file was changed");
	free(g);
	if (ov > 5) VF_CHECK(!strncmp(R->err, "scrypt: ", 8) || ov == 7, "noise", "no warning: %.200s", R->err);
	if (ov == 0 || ov == 2 || ov == 3) VF_CHECK(R->errn == 0 || pm == 3 || pm == 5 || ex, "noise", "unexpected diagnostic: %.200s", R->err);
	vf_seen(vf_trace_hash()); vf_outcome(vf_hash(want, wn, 1));
	if (li == 1 && out == O_LONGER && ov == 0 && !is) vf_sample("%s: %zu bytes over a longer file", argstr(ac, av), len);
}
/* every kind of thing a name can stand for */
enum { KI_FILE, KI_SYM, KI_HARD, KI_FIFO, KI_STDIN, KI_FD, KI_DOTS, KI_RO, KI_SPACE, KI_DASH, KI_LONG, NKI };
enum { KO_SYM, KO_DANGLING, KO_HARD, KO_FIFO, KO_STDOUT, KO_NULL, KO_DOTS, KO_MODE, KO_SPACE, KO_DASH, KO_LONG, NKO };
/* (a lone "-" is standard input, but as an output it is a name like any other) */
static char lname[2][3200];
static const char * const kin[] = { "in", "lin", "hin", "fin", "/dev/stdin", "/dev/fd/0", "./sub/../in", "in", "in put%s\n", "-", lname[0] };
static const char * const kon[] = { "lout", "lout", "hout", "fout", "sout", "nout", "./sub/.././out", "out", "-out put%n", "-", lname[1] };
static const uint8_t * kfd; static size_t kfn;
static void
ksetup(void * c)
{
	setup(c);
	if (kfd) {
		pid_t pp;
		if ((pp = vf_fork()) == 0) {
			/* deliver the data in two pieces to whoever opens the other end */
			int fd; size_t k = kfn / 3;
			close(0); close(1); close(2);
			alarm(20); signal(SIGPIPE, SIG_IGN);
			if ((fd = open(kin[KI_FIFO], O_WRONLY)) < 0) _exit(0);
			if (k && write(fd, kfd, k) != (ssize_t)k) _exit(0);
			if (write(fd, kfd + k, kfn - k) < 0) _exit(0);
			_exit(0);
		}
	}
}
static char * kpath(const char * nm) { static char b[4][700]; static int i; i = (i + 1) & 3; snprintf(b[i], 700, "%s/%s", privdir, nm); return (b[i]); }
static void
kinds(void)
{
	static const size_t kl[] = { 0, 1, 4097 };
	int dec = vf_choose("op", 2), li = vf_choose("len", 3), ki = vf_choose("in", NKI), ko = vf_choose("out", NKO), pre = vf_choose("before", 2), code, ac = 1, fo = -1, viastdin = ki == KI_STDIN || ki == KI_FD || ki == KI_DASH, i;
	size_t len = kl[li], inl, wn, gn = 0, on; uint8_t * in, * want, * g, * old; char * av[16]; struct clires * R; struct stat st; ino_t ino = 0;
	env_reset(); env_stub(); reset_inj(); cli_init(); newdir(); env_memlimit = 1 << 20; env_opps = 1e9;
	if (dec) { inl = mkfile(len, 5, 2, 3); in = X; want = D; wn = len; }
	else { fill(D, len, 5); in = D; inl = len; want = W; wn = expect_enc(W, len, 10, 8, 4); env_opps = 4 * 32768.0 / 5.0; }
	for (i = 0; i < 3000; i++) lname[0][i] = lname[1][i] = "./"[i & 1];
	strcpy(lname[0] + i, "in"); strcpy(lname[1] + i, "out");
	if (mkdir(kpath("sub"), 0700)) vf_internal("mkdir");
	wrfile(ki == KI_SPACE ? kin[ki] : "in", in, inl);
	if (ki == KI_SYM && symlink("in", kpath("lin"))) vf_internal("symlink");
	if (ki == KI_HARD && link(kpath("in"), kpath("hin"))) vf_internal("link");
	if (ki == KI_FIFO && mkfifo(kpath("fin"), 0600)) vf_internal("mkfifo");
	if (ki == KI_RO && chmod(kpath("in"), 0400)) vf_internal("chmod");
	on = pre ? wn + 5000 : wn / 2; old = malloc(on + 1); memset(old, 'o', on);
	switch (ko) {
	case KO_SYM: wrfile("target", old, on); if (symlink("sub/../target", kpath("lout"))) vf_internal("symlink"); break;
	case KO_DANGLING: if (symlink("target", kpath("lout"))) vf_internal("symlink"); break;
	case KO_HARD: wrfile("target", old, on); if (link(kpath("target"), kpath("hout"))) vf_internal("link"); break;
	case KO_FIFO: if (mkfifo(kpath("fout"), 0600) || (fo = open(kpath("fout"), O_RDONLY | O_NONBLOCK)) < 0) vf_internal("mkfifo"); break;
	case KO_STDOUT: devlink("sout", "/proc/self/fd/1"); break;
	case KO_NULL: devlink("nout", "/dev/null"); break;
	case KO_DOTS: case KO_MODE: wrfile("out", old, on); if (ko == KO_MODE && chmod(kpath("out"), pre ? 0640 : 0604)) vf_internal("chmod"); if (stat(kpath("out"), &st)) vf_internal("stat"); ino = st.st_ino; break;
	case KO_LONG: if (pre) wrfile("out", old, on); break;
	case KO_SPACE: case KO_DASH: if (pre) wrfile(kon[ko], old, on); break;
	}
	free(old);
	av[ac++] = dec ? "dec" : "enc"; av[ac++] = "--passphrase"; av[ac++] = "env:PWENV"; av[ac++] = "--"; av[ac++] = (char *)(uintptr_t)kin[ki]; av[ac++] = (char *)(uintptr_t)kon[ko]; av[ac] = NULL;
	vf_note("%s; %zu bytes", argstr(ac, av), len);
	kfd = ki == KI_FIFO ? in : NULL; kfn = inl;
	R = cli_run(ac, av, viastdin ? in : NULL, viastdin ? inl : 0, ksetup, NULL);
	code = R->exited ? R->code : 1000 - R->code;
	vf_eval();
	VF_CHECK(code == 0, "status", "exit status %d: %.300s", code, R->err);
	VF_CHECK(R->errn == 0, "noise", "unexpected diagnostic: %.200s", R->err);
	VF_CHECK(ko == KO_STDOUT || R->outn == 0, "stdout", "%zu bytes on stdout too", R->outn);
	g = NULL;
	switch (ko) {
	case KO_SYM: case KO_DANGLING:
		VF_CHECK(!lstat(kpath("lout"), &st) && S_ISLNK(st.st_mode), "symlink", "the symbolic link given as the output was replaced");
		g = rdfile("target", &gn); break;
	case KO_HARD:
		VF_CHECK(!stat(kpath("target"), &st) && st.st_nlink == 2, "hard-link", "the output is no longer the same file as its other name");
		g = rdfile("target", &gn); break;
	case KO_FIFO:
		g = malloc(wn + 200); gn = 0;
		for (;;) { ssize_t x = read(fo, g + gn, wn + 200 - gn); if (x <= 0) break; gn += (size_t)x; }
		close(fo);
		VF_CHECK(!lstat(kpath("fout"), &st) && S_ISFIFO(st.st_mode), "fifo", "the pipe given as the output was replaced"); break;
	case KO_STDOUT: g = malloc(R->outn + 1); memcpy(g, R->out, gn = R->outn); break;
	case KO_NULL: break;
	case KO_DOTS: case KO_MODE:
		VF_CHECK(!stat(kpath("out"), &st), "no-output", "no output file");
		VF_CHECK(st.st_ino == ino, "replaced", "the existing output was replaced by another file");
		if (ko == KO_MODE) VF_CHECK((st.st_mode & 07777) == (pre ? 0640U : 0604U), "mode", "the existing output's permissions changed to %o", st.st_mode & 07777);
		/* FALLTHROUGH */
	default: g = rdfile(ko == KO_SPACE || ko == KO_DASH ? kon[ko] : "out", &gn);
	}
	if (ko != KO_NULL) {
		VF_CHECK(g != NULL, "no-output", "no output");
		VF_CHECK(gn == wn, "length", "output has %zu bytes, expected %zu", gn, wn);
		VF_CHECK(!memcmp(g, want, wn), "output", "output differs from the library's");
	}
	free(g);
	g = rdfile(ki == KI_SPACE ? kin[ki] : "in", &gn);
	VF_CHECK(g && gn == inl && !memcmp(g, in, inl), "input-changed", "the input file was changed");
	free(g);
	if (ki == KI_RO) VF_CHECK(!stat(kpath("in"), &st) && (st.st_mode & 07777) == 0400, "input-changed", "the input's permissions were changed");
	if (ki == KI_SYM) VF_CHECK(!lstat(kpath("lin"), &st) && S_ISLNK(st.st_mode), "input-changed", "the symbolic link given as the input was replaced");
	vf_seen(vf_trace_hash()); vf_outcome(vf_hash(want, wn, (uint64_t)ko));
	if (li == 2 && ki == KI_FIFO && ko == KO_SYM) vf_sample("%s: a pipe, and a symbolic link to a %s file", argstr(ac, av), pre ? "longer" : "shorter");
}
/* every history of operations over three files */
static struct { uint8_t d[1500]; int n; int enc; } F[3], T;	/* n < 0: absent */
static void
hist(void)
{
	int depth = vf_tier ? 5 : 4, s, i; uint8_t key[3];
	env_reset(); env_stub(); reset_inj(); cli_init(); newdir(); env_opps = 1e9;
	fill(F[0].d, 90, 3); F[0].n = 90; fill(F[1].d, 300, 4); F[1].n = 300; F[2].n = -1;
	for (i = 0; i < 3; i++) if (F[i].n >= 0) { char nm[3] = { 'f', (char)('0' + i), 0 }; wrfile(nm, F[i].d, (size_t)F[i].n); }
	for (s = 0; s < depth; s++) {
		int op = vf_choose("op", 12), dec = op / 6, a = (op % 6) / 2, b = (a + 1 + op % 2) % 3, code, okx; struct clires * R; char na[3] = { 'f', (char)('0' + a), 0 }, nb[3] = { 'f', (char)('0' + b), 0 };
		uint64_t h = 0;
		for (i = 0; i < 3; i++) h = vf_hash2(h, F[i].n < 0 ? 77 : vf_hash(F[i].d, (size_t)F[i].n, 1));
		vf_state(h);
		/* the model */
		okx = 1;
		if (F[a].n < 0) okx = 0;
		else if (!dec) {
			T.n = F[a].n + 128; if (T.n > 1400) return;
			memcpy(D, F[a].d, (size_t)F[a].n); expect_enc(T.d, (size_t)F[a].n, 10, 8, 1);
		} else if (F[a].n < 128 || ref_faults(F[a].d, (size_t)F[a].n, PW, strlen(PW))) okx = 0;
		else {
			uint8_t dk[64]; T.n = F[a].n - 128;
			stub_kdf(PW, strlen(PW), F[a].d + 16, 32, 1ULL << F[a].d[7], F[a].d[11], F[a].d[15], dk, 64);
			ref_aesctr(dk, 32, 0, 0, F[a].d + 96, T.d, (size_t)T.n);
		}
		vf_note("step %d: %s %s %s (expected to %s)", s, dec ? "dec" : "enc", na, nb, okx ? "succeed" : "fail");
		{
			env_saltctr = 0;
			rf = (s + op) & 3;
			code = run(&R, dec ? "dec" : "enc", na, nb, NULL, 0);
		}
		vf_eval();
		VF_CHECK(R->exited && code == !okx, "status", "exit status %d: %.200s", code, R->err);
		if (okx) F[b] = T;
		for (i = 0; i < 3; i++) {
			char nm[3] = { 'f', (char)('0' + i), 0 }; size_t gn; uint8_t * g = rdfile(nm, &gn);
			VF_CHECK((g != NULL) == (F[i].n >= 0), "exists", "file %s %s", nm, g ? "exists" : "does not exist");
			if (g) VF_CHECK((int)gn == F[i].n && !memcmp(g, F[i].d, gn), "content", "file %s has other contents (%zu bytes, expected %d)", nm, gn, F[i].n);
			free(g);
		}
		vf_trans(vf_hash2(h, (uint64_t)op));
		key[0] = (uint8_t)code; vf_outcome(vf_hash(key, 1, h));
	}
	vf_seen(vf_trace_hash());
}
/* fresh salt: the real entropy source */
static void
fresh(void)
{
	int n = 6, i, j, len = vf_choose("len", 3) * 50, out = vf_choose("out", 2); static uint8_t E[6][400]; size_t en[6]; struct clires * R;
	env_reset(); env_stub(); env_saltmode = 2; reset_inj(); cli_init(); newdir();
	fill(D, (size_t)len, 5); wrfile("in", D, (size_t)len);
	for (i = 0; i < n; i++) {
		int code = run(&R, "enc", "in", out ? "out" : NULL, NULL, 0); uint8_t * g; vf_eval();
		VF_CHECK(code == 0, "status", "exit status %d", code);
		if (out) { g = rdfile("out", &en[i]); if (!g) vf_fail("no-output", "no output"); } else { g = R->out; en[i] = R->outn; }
		VF_CHECK(en[i] == (size_t)len + 128, "length", "length %zu", en[i]);
		memcpy(E[i], g, en[i]);
		if (out) free(g);
		VF_CHECK(ref_faults(E[i], en[i], PW, strlen(PW)) == 0, "invalid", "not a valid encryption");
		for (j = 0; j < i; j++) {
			VF_CHECK(memcmp(E[i] + 16, E[j] + 16, 32), "salt", "encryptions %d and %d have the same salt", j, i);
			if (len) VF_CHECK(memcmp(E[i] + 96, E[j] + 96, (size_t)len), "same", "same ciphertext");
		}
	}
	vf_seen(vf_trace_hash()); vf_outcome((uint64_t)len);
}
static const struct vf_scn S[] = {
	{ "compose", compose, 0, { 0, 0 }, 0, 0 },
	{ "kinds", kinds, 0, { 0, 0 }, 0, 0 },
	{ "histories", hist, 0, { 0, 0 }, 0, 0 },
	{ "fresh_salt", fresh, 0, { 0, 0 }, 0, 0 },
	{ NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#endif
int
main(int argc, char ** argv)
{
	return (vf_main(argc, argv, S));
}
