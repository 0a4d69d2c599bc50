/* C16 command-line grammar, C24 outcome reporting: main() with the library
 * operations replaced by stubs that record how they are called. */
#include "env_codec.h"
#include "cli.h"
#include <ctype.h>
#include <math.h>

static int stub_out;	/* bytes the operation leaves in the output's buffer */
static void give(FILE * o) { static char z[5000]; if (stub_out) fwrite(z, 1, (size_t)stub_out, o); }
static int stub_badclose;	/* the input's descriptor is gone when it is closed */
static FILE * stub_in;
static void spoil(FILE * i) { if (stub_badclose && i && i != stdin) close(fileno(i)); }
static int stub_rc, stub_errno, stub_copy_rc, stub_pass_rc;
static void path_of(FILE * f, char * b, size_t n)
{
	char l[64]; ssize_t k;
	if (f == stdin) { snprintf(b, n, "<stdin>"); return; }
	if (f == stdout) { snprintf(b, n, "<stdout>"); return; }
	snprintf(l, sizeof(l), "/proc/self/fd/%d", fileno(f));
	k = readlink(l, b, n - 1);
	b[k > 0 ? k : 0] = 0;
}
int __wrap_scryptenc_file(FILE *, FILE *, const uint8_t *, size_t, struct scryptenc_params *, int, int);
int __wrap_scryptenc_file(FILE * i, FILE * o, const uint8_t * pw, size_t pl, struct scryptenc_params * P, int v, int f)
{
	CR->nenc++; CR->P = *P; CR->verbose = v; CR->force = f;
	path_of(i, CR->inpath, sizeof(CR->inpath)); path_of(o, CR->outpath, sizeof(CR->outpath));
	CR->pwlen = pl; memcpy(CR->pw, pw, pl < 299 ? pl : 299);
	give(o); spoil(i);
	errno = stub_errno;
	return (stub_rc);
}
static char fakecookie[4096];
int __wrap_scryptdec_file_prep(FILE *, const uint8_t *, size_t, struct scryptenc_params *, int, int, struct scryptdec_file_cookie **);
int __wrap_scryptdec_file_prep(FILE * i, const uint8_t * pw, size_t pl, struct scryptenc_params * P, int v, int f, struct scryptdec_file_cookie ** C)
{
	CR->nprep++; CR->P = *P; CR->verbose = v; CR->force = f;
	path_of(i, CR->inpath, sizeof(CR->inpath));
	CR->pwlen = pl; memcpy(CR->pw, pw, pl < 299 ? pl : 299);
	stub_in = i; if (stub_rc) spoil(i);
	if (stub_rc == 0) *C = (struct scryptdec_file_cookie *)(void *)fakecookie;
	errno = stub_errno;
	return (stub_rc);
}
int __wrap_scryptdec_file_copy(struct scryptdec_file_cookie *, FILE *);
int __wrap_scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * o)
{
	if ((void *)C != (void *)fakecookie) _exit(99);
	CR->ncopy++;
	path_of(o, CR->outpath, sizeof(CR->outpath));
	give(o); spoil(stub_in);
	errno = stub_errno;
	return (stub_copy_rc);
}
void __wrap_scryptdec_file_cookie_free(struct scryptdec_file_cookie *);
void __wrap_scryptdec_file_cookie_free(struct scryptdec_file_cookie * C) { if (C) CR->nfree++; }
int __wrap_scryptdec_file(FILE *, FILE *, const uint8_t *, size_t, struct scryptenc_params *, int, int);
int __wrap_scryptdec_file(FILE * i, FILE * o, const uint8_t * pw, size_t pl, struct scryptenc_params * P, int v, int f)
{
	int rc; struct scryptdec_file_cookie * C = NULL;
	if ((rc = __wrap_scryptdec_file_prep(i, pw, pl, P, v, f, &C)) != 0) return (rc);
	rc = __wrap_scryptdec_file_copy(C, o); CR->nfree++;
	return (rc);
}
int __wrap_scryptdec_file_printparams(FILE *);
int __wrap_scryptdec_file_printparams(FILE * i)
{
	CR->ninfo++;
	path_of(i, CR->inpath, sizeof(CR->inpath));
	spoil(i);
	errno = stub_errno;
	return (stub_rc);
}
int __wrap_passphrase_entry_readpass(char **, enum passphrase_entry, const char *, const char *, const char *, int);
int __wrap_passphrase_entry_readpass(char ** pw, enum passphrase_entry m, const char * a, const char * p, const char * c, int once)
{
	(void)p; (void)c;
	CR->npass++; CR->pmethod = (int)m; CR->ponce = once;
	snprintf(CR->parg, sizeof(CR->parg), "%s", a ? a : "(null)");
	if (stub_pass_rc) { errno = EIO; return (-1); }
	*pw = strdup("the passphrase");
	return (0);
}
/* ------------------- reference model of the command line ------------------- */
struct exp {
	int reject, version;
	int mode;	/* 0 enc 1 dec 2 info */
	const char * in, * out;
	double maxmemfrac, maxtime; uint64_t maxmem;
	int logN; uint32_t r, p;
	int verbose, force, method; const char * arg;
};
/* numbers the alphabet uses, by what they denote */
static int ref_int(const char * s, long lo, long hi, long * v)
{
	static const struct { const char * s; long v; } T[] = {
		{ "0", 0 }, { "1", 1 }, { "2", 2 }, { "8", 8 }, { "9", 9 }, { "10", 10 }, { "11", 11 }, { "12", 12 }, { "16", 16 }, { "31", 31 }, { "32", 32 }, { "33", 33 },
		{ "39", 39 }, { "40", 40 }, { "41", 41 }, { "63", 63 }, { "64", 64 }, { "2047", 2047 }, { "2048", 2048 }, { "2049", 2049 }, { "0x10", 16 }, { "010", 8 },
		{ " 12", 12 }, { "+12", 12 }, { "5", 5 }, { "14", 14 }, { "+1", 1 }, { "1000000", 1000000 }, { "300", 300 }, { NULL, 0 } };
	int i;
	for (i = 0; T[i].s; i++) if (!strcmp(T[i].s, s)) { *v = T[i].v; return (*v < lo || *v > hi); }
	return (1);	/* everything else in the alphabet is not such a number */
}
static int ref_float(const char * s, double lo, double hi, double * v)
{
	static const struct { const char * s; double v; } T[] = {
		{ "0", 0 }, { "0.0", 0 }, { "-0", -0.0 }, { "1", 1 }, { "2", 2 }, { "8", 8 }, { "9", 9 }, { "10", 10 }, { "0.5", 0.5 }, { "0.25", 0.25 }, { ".125", .125 }, { "0.50001", 0.50001 }, { "0.499", 0.499 }, { "1e-3", 1e-3 }, { "300", 300 },
		{ "1e300", 1e300 }, { "inf", INFINITY }, { "infinity", INFINITY }, { "0x10", 16 }, { "010", 10 }, { " 12", 12 }, { "+12", 12 }, { "12", 12 }, { "-1", -1 }, { "-0.1", -0.1 }, { "1e1", 10 }, { "5", 5 }, { "14", 14 }, { "+1", 1 },
		{ "11", 11 }, { "16", 16 }, { "31", 31 }, { "32", 32 }, { "33", 33 }, { "39", 39 }, { "40", 40 }, { "41", 41 }, { "63", 63 }, { "64", 64 }, { "2047", 2047 }, { "2048", 2048 }, { "2049", 2049 }, { "1000000", 1000000 }, { "1.5", 1.5 },
		{ "18446744073709551615", 18446744073709551615.0 }, { "18446744073709551616", 18446744073709551616.0 }, { "-18446744073709551615", -18446744073709551615.0 }, { "-18446744073709551608", -18446744073709551608.0 },
		{ "99999999999999999999", 1e20 }, { "4294967297", 4294967297.0 }, { "4294967304", 4294967304.0 }, { "0x1p-2", 0.25 }, { NULL, 0 } };
	int i;
	for (i = 0; T[i].s; i++) if (!strcmp(T[i].s, s)) { *v = T[i].v; return (*v < lo || *v > hi); }
	return (1);
}
static int ref_size(const char * s, uint64_t * v)
{
	/* [0-9]+ ?[kMGTPE]?B? in 128 bits */
	unsigned __int128 x = 0; const char * u = "kMGTPE", * q; int i;
	if (!isdigit((unsigned char)*s)) return (1);
	for (; isdigit((unsigned char)*s); s++) { x = x * 10 + (unsigned)(*s - '0'); if (x >> 90) return (1); }
	if (*s == ' ') s++;
	if (*s && (q = strchr(u, *s)) != NULL) { for (i = 0; i <= q - u; i++) { x *= 1000; if (x >> 100) return (1); } s++; }
	if (*s == 'B') s++;
	if (*s) return (1);
	if (x >> 64) return (1);
	*v = (uint64_t)x;
	return (0);
}
static void
ref_cli(int argc, char ** argv, struct exp * e)
{
	int i = 2, done = 0; const char * rest = NULL;
	memset(e, 0, sizeof(*e));
	e->method = PASSPHRASE_UNSET; e->maxmemfrac = 0.5; e->maxtime = 300.0; e->arg = "";
	if (argc < 2) { e->reject = 1; return; }
	if (!strcmp(argv[1], "enc")) { e->mode = 0; e->maxmemfrac = 0.125; e->maxtime = 5.0; }
	else if (!strcmp(argv[1], "dec")) e->mode = 1;
	else if (!strcmp(argv[1], "info")) e->mode = 2;
	else if (!strcmp(argv[1], "--version")) { e->version = 1; return; }
	else { e->reject = 1; return; }
	while (!done) {
		const char * opt = NULL, * val = NULL; char ob[3]; int takes = 0, isl = 0; long n = 0;
		static const char * longs[] = { "--logN", "--passphrase" };
		if (rest == NULL) {
			if (i >= argc) break;
			if (argv[i][0] != '-' || argv[i][1] == 0) break;
			if (argv[i][1] == '-') {
				if (argv[i][2] == 0) { i++; break; }
				isl = 1;
			} else rest = argv[i] + 1;
		}
		if (isl) {
			int k; const char * a = argv[i++];
			for (k = 0; k < 2; k++) {
				size_t L = strlen(longs[k]);
				if (!strcmp(a, longs[k])) { opt = longs[k]; break; }
				if (!strncmp(a, longs[k], L) && a[L] == '=') { opt = longs[k]; val = a + L + 1; break; }
			}
			if (!opt) { e->reject = 1; return; }
			takes = 1;
		} else {
			ob[0] = '-'; ob[1] = *rest; ob[2] = 0; opt = ob;
			if (!strchr("fMmPprtv", *rest)) { e->reject = 1; return; }
			takes = strchr("Mmprt", *rest) != NULL;
			rest++;
			if (*rest == 0) { rest = NULL; i++; }
			else if (takes) { val = rest; rest = NULL; i++; }
		}
		if (takes && !val) {
			if (i >= argc) { e->reject = 1; return; }
			val = argv[i++];
		}
		if (!strcmp(opt, "-f")) e->force = 1;
		else if (!strcmp(opt, "-v")) e->verbose = 1;
		else if (!strcmp(opt, "-P")) { if (e->method != PASSPHRASE_UNSET) { e->reject = 1; return; } e->method = PASSPHRASE_STDIN_ONCE; }
		else if (!strcmp(opt, "--logN")) { if (ref_int(val, 10, 40, &n)) { e->reject = 1; return; } e->logN = (int)n; }
		else if (!strcmp(opt, "-r")) { if (ref_int(val, 1, 32, &n)) { e->reject = 1; return; } e->r = (uint32_t)n; }
		else if (!strcmp(opt, "-p")) { if (ref_int(val, 1, 2048, &n)) { e->reject = 1; return; } e->p = (uint32_t)n; }
		else if (!strcmp(opt, "-m")) { if (ref_float(val, 0, 0.5, &e->maxmemfrac)) { e->reject = 1; return; } }
		else if (!strcmp(opt, "-t")) { if (ref_float(val, 0, INFINITY, &e->maxtime)) { e->reject = 1; return; } }
		else if (!strcmp(opt, "-M")) { if (ref_size(val, &e->maxmem)) { e->reject = 1; return; } }
		else {
			if (e->method != PASSPHRASE_UNSET) { e->reject = 1; return; }
			if (!strcmp(val, "dev:tty-stdin")) e->method = PASSPHRASE_TTY_STDIN;
			else if (!strcmp(val, "dev:stdin-once")) e->method = PASSPHRASE_STDIN_ONCE;
			else if (!strcmp(val, "dev:tty-once")) e->method = PASSPHRASE_TTY_ONCE;
			else if (!strncmp(val, "env:", 4)) { e->method = PASSPHRASE_ENV; e->arg = val + 4; }
			else if (!strncmp(val, "file:", 5)) { e->method = PASSPHRASE_FILE; e->arg = val + 5; }
			else { e->reject = 1; return; }
		}
	}
	if (argc - i < 1 || argc - i > 2) { e->reject = 1; return; }
	e->in = argv[i]; e->out = argc - i > 1 ? argv[i + 1] : NULL;
	if ((e->logN || e->r || e->p) && !(e->logN && e->r && e->p)) { e->reject = 1; return; }
	if (e->mode == 1 && e->logN) { e->reject = 1; return; }
	if (e->maxmemfrac == 0) { e->reject = 1; return; }
	if (e->method == PASSPHRASE_STDIN_ONCE && !strcmp(e->in, "-")) { e->reject = 1; return; }
	if (e->method == PASSPHRASE_UNSET) e->method = PASSPHRASE_TTY_STDIN;
}
static char inname[64], outname[64], privdir[400];
static int clob;	/* writing to standard error disturbs errno, as it may */
static ssize_t clob_write(void * c, const char * b, size_t n) { size_t k = 0; (void)c; while (k < n) { ssize_t w = write(2, b + k, n - k); if (w <= 0) break; k += (size_t)w; } errno = ENOTTY; return ((ssize_t)k); }
static int nodest;
static void cdscratch(void * c)
{
	(void)c;
	if (chdir(privdir)) _exit(98);
	if (clob) { cookie_io_functions_t io = { .write = clob_write }; FILE * f = fopencookie(NULL, "w", io); if (!f) _exit(98); setvbuf(f, NULL, _IONBF, 0); stderr = f; }
	if (nodest == 1) { close(1); if (open("/dev/full", O_WRONLY) != 1) _exit(98); }
	if (nodest == 2) close(1);
	if (nodest == 3) { int q[2]; signal(SIGPIPE, SIG_IGN); if (pipe(q)) _exit(98); dup2(q[1], 1); close(q[0]); close(q[1]); }
}
/* a fresh directory with just the input in it */
static void
mkin(void)
{
	char p[500]; int fd;
	snprintf(inname, sizeof(inname), "in"); snprintf(outname, sizeof(outname), "out");
	snprintf(privdir, sizeof(privdir), "%s", vf_privdir());
	snprintf(p, sizeof(p), "%s/in", privdir);
	if ((fd = open(p, O_WRONLY | O_CREAT, 0600)) < 0) vf_internal("open %s", p);
	close(fd);
}
/* inputs named like options and values: taking the wrong argument for the
 * input would go unnoticed if it did not exist */
static const char * odd[] = { "--", "-f", "-P", "1", "8", "10", "env:X", "out", "-x" };
static int oddin;
static void
mkodd(void)
{
	char p[500]; int fd, i;
	for (i = 0; i < NELEM(odd); i++) {
		snprintf(p, sizeof(p), "%s/%s", privdir, odd[i]);
		if ((fd = open(p, O_WRONLY | O_CREAT, 0600)) < 0) vf_internal("open %s", p);
		close(fd);
	}
}
static int isodd(const char * s) { int i; if (oddin) for (i = 0; i < NELEM(odd); i++) if (!strcmp(s, odd[i])) return (1); return (0); }
static void
check_argv(int argc, char ** argv)
{
	struct exp e; struct clires * R; char * as; char want[600]; int want_fail_open;

	argv[argc] = NULL;
	as = argstr(argc, argv);
	vf_note("arguments: %s", as);
	cli_init();
	ref_cli(argc, argv, &e);
	stub_rc = stub_errno = stub_copy_rc = stub_pass_rc = 0;
	/* an operand which is not a name the harness made: the file is absent */
	mkin();
	if (oddin) mkodd();
	R = cli_run(argc, argv, NULL, 0, cdscratch, NULL);
	vf_eval();
	vf_seen(vf_hash2(vf_hstr(as), (uint64_t)oddin));
	VF_CHECK(R->exited, "crash", "killed by signal %d; stderr: %.300s", -R->code, R->err);
	VF_CHECK(R->code == 0 || R->code == 1, "exit", "exit status %d", R->code);
	want_fail_open = !e.reject && !e.version && strcmp(e.in, "-") && strcmp(e.in, inname) && !isodd(e.in);
	if (e.out && (e.out[0] == 0) && !e.reject && !e.version && e.mode != 2) want_fail_open |= 2;
	if (e.reject || (want_fail_open & 1)) {
		VF_CHECK(R->code == 1, "accepted", "accepted, expected rejection");
		VF_CHECK(R->errn > 0, "silent", "rejected without a diagnostic");
		VF_CHECK(R->outn == 0, "stdout", "rejected but wrote to standard output");
		VF_CHECK(!CR->nenc && !CR->nprep && !CR->ncopy && !CR->ninfo && (!CR->npass || want_fail_open), "op-on-reject", "an operation was performed by a rejected command");
		vf_outcome((uint64_t)(1000 + R->errn));
		return;
	}
	if (want_fail_open & 2) { VF_CHECK(R->code == 1, "accepted", "output file cannot exist, yet status 0"); return; }
	VF_CHECK(R->code == 0, "rejected", "rejected, expected acceptance; stderr: %.300s", R->err);
	if (e.version) {
		VF_CHECK(R->outn > 7 && !memcmp(R->out, "scrypt ", 7), "version", "version output");
		VF_CHECK(!CR->nenc && !CR->nprep && !CR->ninfo, "op", "operation performed");
		vf_outcome(2);
		return;
	}
	VF_CHECK(CR->nenc == (e.mode == 0) && CR->nprep == (e.mode == 1) && CR->ncopy == (e.mode == 1) && CR->ninfo == (e.mode == 2), "op", "wrong operation: enc %d dec %d/%d info %d", CR->nenc, CR->nprep, CR->ncopy, CR->ninfo);
	if (!strcmp(e.in, "-")) snprintf(want, sizeof(want), "<stdin>"); else snprintf(want, sizeof(want), "%s/%s", privdir, e.in);
	VF_CHECK(!strcmp(CR->inpath, want), "infile", "input is %s, expected %s", CR->inpath, want);
	if (e.mode != 2) {
		if (!e.out) snprintf(want, sizeof(want), "<stdout>"); else snprintf(want, sizeof(want), "%s/%s", privdir, e.out);
		VF_CHECK(!strcmp(CR->outpath, want), "outfile", "output is %s, expected %s", CR->outpath, want);
		VF_CHECK(CR->P.maxmem == (size_t)e.maxmem, "maxmem", "maxmem %zu, expected %ju", CR->P.maxmem, (uintmax_t)e.maxmem);
		VF_CHECK(CR->P.maxmemfrac == e.maxmemfrac, "maxmemfrac", "maxmemfrac %g, expected %g", CR->P.maxmemfrac, e.maxmemfrac);
		VF_CHECK(CR->P.maxtime == e.maxtime, "maxtime", "maxtime %g, expected %g", CR->P.maxtime, e.maxtime);
		VF_CHECK(CR->P.logN == e.logN && CR->P.r == e.r && CR->P.p == e.p, "explicit", "explicit parameters %d %u %u, expected %d %u %u", CR->P.logN, CR->P.r, CR->P.p, e.logN, e.r, e.p);
		VF_CHECK(!!CR->verbose == e.verbose, "verbose", "verbose %d", CR->verbose);
		VF_CHECK(!!CR->force == e.force, "force", "force %d", CR->force);
		VF_CHECK(CR->npass == 1 && CR->pmethod == e.method, "method", "passphrase method %d asked %d times, expected %d", CR->pmethod, CR->npass, e.method);
		VF_CHECK((e.method != PASSPHRASE_ENV && e.method != PASSPHRASE_FILE) || !strcmp(CR->parg, e.arg), "passarg", "passphrase argument %s", CR->parg);
		VF_CHECK(!!CR->ponce == (e.mode == 1), "once", "passphrase confirmation %s", CR->ponce ? "not asked" : "asked");
		VF_CHECK(CR->pwlen == 14 && !memcmp(CR->pw, "the passphrase", 14), "pw", "passphrase not passed on");
	} else
		VF_CHECK(CR->npass == 0, "info-pass", "info asked for a passphrase");
	{
		char b[400]; snprintf(b, sizeof(b), "%d %d %d %d %g %g %d", e.mode, e.verbose, e.force, e.method, e.maxmemfrac, e.maxtime, e.logN);
		vf_outcome(vf_hstr(b));
	}
}
static const char * modes[] = { "enc", "dec", "info", "--version", "", "en", "encx", "ENC", "-v" };
static const char * toks[] = {
	"in", "-f", "-v", "-P", "-", "out", "--", "-fv", "-vPf", "-M", "-m", "-p", "-r", "-t", "--logN", "--passphrase",
	"1", "10", "0.25", "-M1", "-r8", "-p1", "-t1", "-m0.25", "--logN=10", "--passphrase=env:X", "-fM1", "-vr8",
	"env:X", "dev:stdin-once", "--passphrase=dev:stdin-once",
	"-x", "--foo", "--logN=", "--version", "", "-fx", "-f=", "-m=0.25", "--v", "--log", "--logNN=10", "--passphrase=", "-fv-", "-vf-f", "--f" };
static void
seq(int maxlen, int ntoks, int nmodes)
{
	char * av[12]; int ac = 1, n, i, m;
	mkin();
	m = vf_choose("mode", nmodes);
	n = vf_choose("n", maxlen + 1);
	av[ac++] = (char *)(uintptr_t)modes[m];
	if (m >= 3 && n > 1) return;
	for (i = 0; i < n - 1; i++) av[ac++] = (char *)(uintptr_t)toks[vf_choose("tok", ntoks)];
	if (n == 0) { check_argv(ac, av); ac = 1; check_argv(ac, av); return; }
	for (i = 0; i < ntoks; i++) {
		av[ac] = (char *)(uintptr_t)toks[i];
		check_argv(ac + 1, av);
		/* and with an input operand after it */
		av[ac + 1] = inname;
		check_argv(ac + 2, av);
	}
}
static void
args_seq(void) { seq(3, NELEM(toks), NELEM(modes)); }
/* longer vectors over a smaller alphabet */
static const char * core[] = { "-f", "-v", "-P", "--passphrase", "env:X", "-r", "8", "--logN=12", "-p1", "-t", "1", "-M1k", "in", "--", "-" };
static void
args_long(void)
{
	char * av[12]; int ac = 1, n, i, m;
	mkin();
	m = vf_choose("mode", 3); n = 3;
	av[ac++] = (char *)(uintptr_t)modes[m];
	for (i = 0; i < n + vf_tier; i++) av[ac++] = (char *)(uintptr_t)core[vf_choose("tok", NELEM(core))];
	for (i = 0; i < NELEM(core); i++) { av[ac] = (char *)(uintptr_t)core[i]; av[ac + 1] = inname; av[ac + 2] = outname; check_argv(ac + 2, av); if (!(i % 3)) check_argv(ac + 3, av); }
}
/* every option with every value in every spelling */
static const char * vals[] = { "0", "1", "2", "8", "9", "10", "11", "31", "32", "33", "39", "40", "41", "64", "2047", "2048", "2049", "0x10", "010", " 12", "+12", "12x", "12 ", "", "-1", "-0", "x", "nan", "NAN", "-nan", "nan(1)", "inf", "-inf", "infinity", "0.5", "0.50001", "0.499", ".125", "1e-3", "1e300", "0.0", "1e1", "0x1p-2", "-0.1", "300", "1.5",
	"18446744073709551615", "18446744073709551616", "-18446744073709551615", "-18446744073709551608", "4294967297", "4294967304", "99999999999999999999", "1k", "1kB", "1 kB", "1M", "1MB", "1KB", "1kiB", "1E", "18E", "19E", "18446744073709551615B", "18446744073709552k", "18446744073709551k", "1B", "1 B", "1  B", "B", "k", "1 ", "1BB", "1.5M", "1000000",
	"env:", "env:X", "env", "ENV:X", "file:", "file:x:y", "file:/a b", "dev:", "dev:tty", "dev:tty-stdin", "dev:tty-once", "dev:stdin-once", "dev:stdin", "dev:tty-stdinx", "dev:tty-once:", ":", "::", "x:y", "envv:X", "dev", "-f", "-", "--" };
static const char * optn[] = { "-M", "-m", "-p", "-r", "-t", "--logN", "--passphrase" };
static void
args_values(void)
{
	char * av[12], b1[200]; int ac, o, v, m, form; static const char * full[] = { "--logN", "12", "-r", "8", "-p", "1" };
	mkin();
	o = vf_choose("opt", NELEM(optn)); v = vf_choose("val", NELEM(vals));
	for (m = 0; m < 3; m++) for (form = 0; form < 3; form++) {
		int i;
		ac = 1; av[ac++] = (char *)(uintptr_t)modes[m];
		if (o == 2 || o == 3 || o == 5) {
			/* the other two explicit parameters are given */
			for (i = 0; i < 6; i += 2) if (strcmp(full[i], optn[o])) { av[ac++] = (char *)(uintptr_t)full[i]; av[ac++] = (char *)(uintptr_t)full[i + 1]; }
		}
		if (form == 0) { av[ac++] = (char *)(uintptr_t)optn[o]; av[ac++] = (char *)(uintptr_t)vals[v]; }
		else if (form == 1) { snprintf(b1, sizeof(b1), "%s%s%s", optn[o], o >= 5 ? "=" : "", vals[v]); av[ac++] = b1; }
		else { if (o >= 5) continue; snprintf(b1, sizeof(b1), "-f%s%s", optn[o] + 1, vals[v]); av[ac++] = b1; }
		if (form && vals[v][0] == 0 && o < 5) { /* "-r" alone: takes the next argument */ }
		av[ac++] = inname;
		check_argv(ac, av);
		if (form == 0) { av[ac++] = outname; check_argv(ac, av); }
	}
	if (v == 3) vf_sample("%s %s in each spelling and mode", optn[o], vals[v]);
}
/* every text one edit away from a passphrase method */
static void
args_methods(void)
{
	static const char * base[] = { "dev:tty-stdin", "dev:stdin-once", "dev:tty-once", "env:X", "file:B" };
	static const char cs[] = ":-=/ Xdevfiltyscno\t"; char * av[6], t[64], o[96]; const char * b; size_t l, i, c, n; int kind, m, form;
	mkin();
	b = base[vf_choose("method", NELEM(base))]; kind = vf_choose("edit", 4); l = strlen(b);
	i = (size_t)vf_choose("position", 15); if (i > l || (i == l && kind != 1)) return;
	n = kind == 1 || kind == 2 ? sizeof(cs) - 1 : 1;
	for (c = 0; c < n; c++) {
		memcpy(t, b, i);
		switch (kind) {
		case 0: strcpy(t + i, b + i + 1); break;			/* left out */
		case 1: t[i] = cs[c]; strcpy(t + i + 1, b + i); break;	/* put in */
		case 2: t[i] = cs[c]; strcpy(t + i + 1, b + i + 1); break;	/* replaced */
		case 3: t[i] = 0; break;					/* cut off */
		}
		for (m = 0; m < 2; m++) for (form = 0; form < 2; form++) {
			int ac = 1;
			av[ac++] = (char *)(uintptr_t)modes[m];
			if (form) { snprintf(o, sizeof(o), "--passphrase=%s", t); av[ac++] = o; }
			else { av[ac++] = (char *)(uintptr_t)"--passphrase"; av[ac++] = t; }
			av[ac++] = inname;
			check_argv(ac, av);
		}
	}
	if (i == 3) vf_sample("%s with each character left out, put in, replaced at %zu", b, i);
}
/* every option one edit away from a real one, with what would make it acceptable */
static void
args_options(void)
{
	static const char * base[] = { "--logN", "--passphrase", "-r", "-p", "-M", "-m", "-t", "-f", "-v", "-P" }, * val[] = { "12", "env:X", "8", "1", "1M", "0.25", "1", "8", "8", "8" };
	static const char * full[] = { "--logN", "12", "-r", "8", "-p", "1" };
	static const char cs[] = "-=logNpashrMmtfvPx_ \n"; char * av[20], t[64], o[96]; const char * b; size_t l, i, c, n; int bi, kind, m, form, k;
	mkin();
	bi = vf_choose("option", NELEM(base)); b = base[bi]; kind = vf_choose("edit", 5); l = strlen(b);
	i = (size_t)vf_choose("position", 13); if (i > l || (i == l && kind != 1)) return;
	n = kind == 1 || kind == 2 ? sizeof(cs) - 1 : 1;
	for (c = 0; c < n; c++) {
		memcpy(t, b, i);
		switch (kind) {
		case 0: strcpy(t + i, b + i + 1); break;			/* left out */
		case 1: t[i] = cs[c]; strcpy(t + i + 1, b + i); break;	/* put in */
		case 2: t[i] = cs[c]; strcpy(t + i + 1, b + i + 1); break;	/* replaced */
		case 3: t[i] = 0; break;					/* cut off */
		case 4: t[i] = (char)(b[i] ^ 32); strcpy(t + i + 1, b + i + 1); break;	/* other case */
		}
		for (m = 0; m < 3; m++) for (form = 0; form < 3; form++) for (oddin = 0; oddin < 2; oddin++) {
			int ac = 1;
			if (m == 2 && form) continue;
			av[ac++] = (char *)(uintptr_t)modes[m];
			if (bi == 0 || bi == 2 || bi == 3) for (k = 0; k < 6; k += 2) if (strcmp(full[k], b)) { av[ac++] = (char *)(uintptr_t)full[k]; av[ac++] = (char *)(uintptr_t)full[k + 1]; }
			if (form == 0) { av[ac++] = t; if (bi < 7) av[ac++] = (char *)(uintptr_t)val[bi]; }
			else if (form == 1) { snprintf(o, sizeof(o), "%s=%s", t, val[bi]); av[ac++] = o; }
			else { snprintf(o, sizeof(o), "-f%s", t[0] == '-' ? t + 1 : t); av[ac++] = o; av[ac++] = (char *)(uintptr_t)val[bi]; }
			av[ac++] = inname;
			check_argv(ac, av);
		}
	}
	oddin = 0;
	if (i == 3) vf_sample("%s with each character left out, put in, replaced at %zu", b, i);
}
/* short vectors, when every word also is the name of a file */
static void
args_odd(void)
{
	char * av[12]; int ac = 1, n, i, m;
	mkin(); oddin = 1;
	m = vf_choose("mode", 3); n = vf_choose("n", 3);
	av[ac++] = (char *)(uintptr_t)modes[m];
	for (i = 0; i < n; i++) av[ac++] = (char *)(uintptr_t)toks[vf_choose("tok", NELEM(toks))];
	check_argv(ac, av);
	for (i = 0; i < NELEM(odd); i++) { av[ac] = (char *)(uintptr_t)odd[i]; check_argv(ac + 1, av); }
	oddin = 0;
}
/* explicit parameters: all subsets, orders, repetitions; passphrase methods twice; stdin */
static void
args_rules(void)
{
	char * av[20]; int ac = 1, k, i, m, perm;
	static const char * g[3][2] = { { "--logN", "14" }, { "-r", "8" }, { "-p", "2" } };
	static const int perms[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
	static const char * pm[] = { NULL, "-P", "--passphrase=dev:tty-stdin", "--passphrase=dev:stdin-once", "--passphrase=dev:tty-once", "--passphrase=env:A", "--passphrase=file:B" };
	static const char * ins[] = { "in", "-" };
	int p1, p2, ii, lim;
	mkin();
	m = vf_choose("mode", 3); k = vf_choose("subset", 8); perm = vf_choose("perm", 6);
	p1 = vf_choose("pass1", 7); p2 = vf_choose("pass2", 7); ii = vf_choose("in", 2); lim = vf_choose("limits", 3);
	if (perm && k != 7) return;
	if (perm && (p1 > 1 || p2)) return;
	av[ac++] = (char *)(uintptr_t)modes[m];
	if (lim == 1) { av[ac++] = "-t"; av[ac++] = "5"; av[ac++] = "-m"; av[ac++] = "0.25"; }
	if (pm[p1]) av[ac++] = (char *)(uintptr_t)pm[p1];
	for (i = 0; i < 3; i++) if (k & (1 << perms[perm][i])) { av[ac++] = (char *)(uintptr_t)g[perms[perm][i]][0]; av[ac++] = (char *)(uintptr_t)g[perms[perm][i]][1]; }
	if (pm[p2]) av[ac++] = (char *)(uintptr_t)pm[p2];
	if (lim == 2) { av[ac++] = "-M"; av[ac++] = "5M"; av[ac++] = "-v"; av[ac++] = "-t5"; av[ac++] = "-t0"; }
	av[ac++] = (char *)(uintptr_t)ins[ii];
	check_argv(ac, av);
	if (p1 == 5 && p2 == 0 && k == 7 && perm == 3) vf_sample("%s", argstr(ac, av));
}

/* ---------------- C24 ---------------- */
struct msg { int rc; const char * must[3]; const char * mustnot[2]; int sys, file; };
static const struct msg msgs[] = {
	{ SCRYPT_ELIMIT, { "memory", "available", NULL }, { NULL }, 1, 0 },
	{ SCRYPT_ECLOCK, { "clock", NULL }, { NULL }, 1, 0 },
	{ SCRYPT_EKEY, { "derived key", NULL }, { NULL }, 1, 0 },
	{ SCRYPT_ESALT, { "salt", NULL }, { NULL }, 1, 0 },
	{ SCRYPT_EOPENSSL, { "openssl", NULL }, { NULL }, 1, 0 },
	{ SCRYPT_ENOMEM, { "allocating memory", NULL }, { NULL }, 1, 0 },
	{ SCRYPT_EINVAL, { "not valid scrypt", NULL }, { NULL }, 0, 0 },
	{ SCRYPT_EVERSION, { "version", NULL }, { NULL }, 0, 0 },
	{ SCRYPT_ETOOBIG, { "too much memory", NULL }, { "cpu time", NULL }, 0, 0 },
	{ SCRYPT_ETOOSLOW, { "too much cpu time", NULL }, { "memory", NULL }, 0, 0 },
	{ SCRYPT_EBIGSLOW, { "too much memory", "cpu time", NULL }, { NULL }, 0, 0 },
	{ SCRYPT_EPASS, { "passphrase is incorrect", NULL }, { NULL }, 0, 0 },
	{ SCRYPT_EWRFILE, { "error writing file", NULL }, { NULL }, 1, 2 },
	{ SCRYPT_ERDFILE, { "error reading file", NULL }, { NULL }, 1, 1 },
	{ SCRYPT_EPARAM, { "explicit parameters", NULL }, { NULL }, 0, 0 } };
static void lower(char * s) { for (; *s; s++) *s = (char)tolower((unsigned char)*s); }
/* options with which the diagnostics are the same */
static const char * const optsets[][8] = { { NULL }, { "-v", NULL }, { "-f", NULL }, { "-f", "-v", NULL }, { "-t", "5", "-m", "0.25", "-M", "1M", NULL }, { "-vft", "0", "--passphrase", "file:pw", NULL }, { "--logN", "10", "-r", "8", "-p", "1", NULL }, { "--logN=10", "-r8", "-p", "1", "-f", "-v", NULL } };
#define NOPTS(m) ((m) == 2 ? 1 : (m) ? 6 : NELEM(optsets))
static int addopts(char ** av, int ac, int n) { int i; for (i = 0; optsets[n][i]; i++) av[ac++] = (char *)(uintptr_t)optsets[n][i]; return (ac); }
static void
codes(void)
{
	static const int errs[] = { EIO, ENOSPC, ENOENT, EACCES, ENOMEM, EINVAL, EINTR, EAGAIN, EPIPE, EBADF, EPERM, EISDIR };
	int k, m, where, e, in, out, i, o; char * av[24]; int ac = 1; struct clires * R; char low[8300];
	static const char * sp[] = { "in", "-" };
	mkin();
	k = vf_choose("code", NELEM(msgs) + 1); m = vf_choose("mode", 3); where = vf_choose("where", 2);
	if (where && m != 1) return;
	clob = vf_choose("stderr", 2);
	o = vf_choose("options", NOPTS(m));
	stub_badclose = vf_choose("input close", 2);
	for (e = 0; e < NELEM(errs); e++) for (in = 0; in < 2; in++) for (out = 0; out < 2; out++) {
		if (stub_badclose && (in || errs[e] == EBADF)) continue;
		ac = 1; av[ac++] = (char *)(uintptr_t)modes[m]; ac = addopts(av, ac, o); av[ac++] = (char *)(uintptr_t)sp[in]; if (out && m != 2) av[ac++] = outname; av[ac] = NULL;
		stub_rc = where ? 0 : k < NELEM(msgs) ? msgs[k].rc : 0; stub_copy_rc = where ? (k < NELEM(msgs) ? msgs[k].rc : 0) : 0; stub_errno = errs[e]; stub_pass_rc = 0;
		vf_note("%s: library code %d (%s), errno %d, input %s", argstr(ac, av), k < NELEM(msgs) ? msgs[k].rc : 0, where ? "copy" : "first call", errs[e], sp[in]);
		mkin();
		R = cli_run(ac, av, NULL, 0, cdscratch, NULL);
		vf_eval();
		VF_CHECK(R->exited, "crash", "killed by signal %d: %.200s", -R->code, R->err);
		if (k == NELEM(msgs)) {
			VF_CHECK(R->code == 0, "exit", "success gave exit status %d", R->code);
			VF_CHECK(stub_badclose || R->errn == 0, "noise", "success printed: %.200s", R->err);
			vf_outcome(0);
			continue;
		}
		VF_CHECK(R->code == 1, "exit", "library code %d gave exit status %d", msgs[k].rc, R->code);
		VF_CHECK(m != 1 || where == 0 || CR->nfree == 1, "cookie", "cookie freed %d times", CR->nfree);
		VF_CHECK(R->outn == 0, "stdout", "error written to standard output");
		VF_CHECK(!strncmp(R->err, "scrypt: ", 8), "progname", "message without the program name: %.200s", R->err);
		VF_CHECK(R->errn && R->err[R->errn - 1] == '\n', "newline", "message not terminated: %.200s", R->err);
		if (stub_badclose) {	/* what happened at the close may be told in a line of its own */
			char * l, * nx; int others = 0, mine = 0;
			for (l = R->err; *l; l = nx) {
				if ((nx = strchr(l, '\n')) == NULL) nx = l + strlen(l); else nx++;
				if (memmem(l, (size_t)(nx - l), strerror(EBADF), strlen(strerror(EBADF)))) { memmove(l, nx, strlen(nx) + 1); nx = l; others++; } else mine++;
			}
			R->errn = strlen(R->err);
			VF_CHECK(others <= 1, "spurious", "one close failed, yet %d lines say so", others);
			VF_CHECK(mine == 1, "message", "code %d and then the input could not be closed: %d diagnostics of the code", msgs[k].rc, mine);
		}
		VF_CHECK(memchr(R->err, '\n', R->errn) == R->err + R->errn - 1, "spurious", "one thing failed, yet several diagnostics: %.300s", R->err);
		snprintf(low, sizeof(low), "%s", R->err); lower(low);
		for (i = 0; msgs[k].must[i]; i++) VF_CHECK(strstr(low, msgs[k].must[i]) != NULL, "message", "code %d: message does not say '%s': %.200s", msgs[k].rc, msgs[k].must[i], R->err);
		for (i = 0; msgs[k].mustnot[i]; i++) VF_CHECK(strstr(low, msgs[k].mustnot[i]) == NULL, "message", "code %d: message says '%s': %.200s", msgs[k].rc, msgs[k].mustnot[i], R->err);
		if (msgs[k].sys) VF_CHECK(strstr(R->err, strerror(errs[e])) != NULL, "errno", "code %d: message lacks the system error '%s': %.200s", msgs[k].rc, strerror(errs[e]), R->err);
		else for (i = 0; i < NELEM(errs); i++) VF_CHECK(strstr(R->err, strerror(errs[i])) == NULL, "errno", "code %d: message carries an unrelated system error: %.200s", msgs[k].rc, R->err);
		if (msgs[k].file == 1) { char w[80]; snprintf(w, sizeof(w), ": %s:", in ? "standard input" : inname); VF_CHECK(strstr(R->err, w) != NULL, "filename", "message does not name the input: %.200s", R->err); }
		if (msgs[k].file == 2 && m != 2) { char w[80]; snprintf(w, sizeof(w), ": %s:", out ? outname : "standard output"); VF_CHECK(strstr(R->err, w) != NULL, "filename", "message does not name the output: %.200s", R->err); }
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)(e * 4 + in * 2 + out)));
		vf_outcome(vf_hstr(R->err));
		if (e == 0 && in == 0 && out == 1 && !stub_badclose && (k == 6 || k == 12)) vf_sample("%s library code %d -> exit 1, %s", modes[m], msgs[k].rc, R->err);
	}
}
/* failures before any operation: open errors, passphrase failure */
static void
early(void)
{
	int m, c; char * av[24]; int ac = 1; struct clires * R;
	static const char * names[] = { "no-such-file", "nodir/in", "in/x" };
	mkin(); stub_badclose = 0;
	m = vf_choose("mode", 3); c = vf_choose("cause", 7); clob = vf_choose("stderr", 2);
	av[ac++] = (char *)(uintptr_t)modes[m];
	{ int o = vf_choose("options", NOPTS(m)); if (o == 5 && c == 6) return; ac = addopts(av, ac, o); }
	stub_rc = stub_copy_rc = stub_errno = stub_pass_rc = 0;
	if (c < 3) { av[ac++] = (char *)(uintptr_t)names[c]; av[ac++] = outname; }
	else if (c == 3) { if (m == 2) return; av[ac++] = inname; stub_pass_rc = 1; }
	else if (c < 6) { if (m == 2) return; av[ac++] = inname; av[ac++] = (char *)(uintptr_t)(c == 4 ? "nodir/out" : "."); }
	else { if (m == 2) return; av[ac++] = "--passphrase"; av[ac++] = "junk"; av[ac++] = inname; }
	av[ac] = NULL;
	vf_note("%s", argstr(ac, av));
	R = cli_run(ac, av, NULL, 0, cdscratch, NULL);
	VF_CHECK(R->exited && R->code == 1, "exit", "status %d", R->code);
	VF_CHECK(!CR->nenc && !CR->ncopy && !CR->ninfo && (!CR->nprep || (c == 4 || c == 5)), "op", "operation performed");
	VF_CHECK(!strncmp(R->err, "scrypt: ", 8), "message", "no diagnostic: %.100s", R->err);
	if (c == 0 || c == 1) VF_CHECK(strstr(R->err, names[c]) && strstr(R->err, strerror(ENOENT)), "message", "diagnostic: %.200s", R->err);
	if (c == 2) VF_CHECK(strstr(R->err, names[c]) && strstr(R->err, strerror(ENOTDIR)), "message", "diagnostic: %.200s", R->err);
	if (c == 4) VF_CHECK(strstr(R->err, "nodir/out") && strstr(R->err, strerror(ENOENT)), "message", "diagnostic: %.200s", R->err);
	if (c == 5) VF_CHECK(strstr(R->err, strerror(EISDIR)), "message", "diagnostic: %.200s", R->err);
	if (m == 1 && (c == 4 || c == 5)) VF_CHECK(CR->nfree == 1, "cookie", "decryption state freed %d times", CR->nfree);
	vf_seen(vf_trace_hash()); vf_outcome(vf_hstr(R->err));
}
/* the output cannot be completed when all the rest is done */
static void
closing(void)
{
	static const int errs[] = { ENOSPC, ENOSPC, EBADF, EPIPE }; static const char * const how[] = { "/dev/full", "stdout is /dev/full", "stdout is closed", "stdout is a broken pipe" };
	int m = vf_choose("mode", 2), h = vf_choose("output", 4), n = vf_choose("bytes", 4), k = vf_choose("code", NELEM(msgs) + 1), ac = 1, i, code = k < NELEM(msgs) ? msgs[k].rc : 0, sysf = 0; char * av[24]; struct clires * R; char want[400], low[8300];
	mkin(); stub_badclose = 0; clob = vf_choose("stderr", 2);
	if (h == 2 && k < NELEM(msgs)) return;
	stub_out = n == 0 ? 1 : n == 1 ? 33 : n == 2 ? 4000 : 0; stub_rc = m ? 0 : code; stub_copy_rc = code; stub_errno = EIO; stub_pass_rc = 0;
	nodest = h;
	av[ac++] = (char *)(uintptr_t)modes[m]; ac = addopts(av, ac, vf_choose("options", NOPTS(m))); av[ac++] = inname; if (h == 0) { char p[500]; snprintf(p, sizeof(p), "%s/full", privdir); if (symlink("/dev/full", p)) vf_internal("symlink"); av[ac++] = "full"; } av[ac] = NULL;
	vf_note("%s, output %s, %d bytes not yet written, library code %d", modes[m], how[h], stub_out, code);
	R = cli_run(ac, av, NULL, 0, cdscratch, NULL); vf_eval();
	nodest = 0;
	VF_CHECK(R->exited, "crash", "killed by signal %d: %.200s", -R->code, R->err);
	if (stub_out == 0 && code == 0) { VF_CHECK(R->code == 0 || h == 2, "exit", "nothing was to be written, yet status %d: %.200s", R->code, R->err); VF_CHECK(R->code || R->errn == 0, "noise", "%.200s", R->err); vf_seen(vf_trace_hash()); vf_outcome(0); return; }
	VF_CHECK(R->code == 1, "exit", "exit status %d", R->code);
	VF_CHECK(!strncmp(R->err, "scrypt: ", 8) && R->err[R->errn - 1] == '\n', "message", "no diagnostic: %.100s", R->err);
	if (code == 0) {
		snprintf(want, sizeof(want), "scrypt: Error writing file: %s: %s\n", h == 0 ? "full" : "standard output", strerror(errs[h]));
		lower(want); snprintf(low, sizeof(low), "%s", R->err); lower(low);
		VF_CHECK(strstr(low, want) != NULL, "message", "the output could not be written (%s), the diagnostic is: %.300s", strerror(errs[h]), R->err);
	} else {
		snprintf(low, sizeof(low), "%s", R->err); lower(low);
		for (i = 0; msgs[k].must[i]; i++) VF_CHECK(strstr(low, msgs[k].must[i]) != NULL, "message", "code %d: no message says '%s': %.300s", code, msgs[k].must[i], R->err);
		sysf = msgs[k].sys; if (sysf) VF_CHECK(strstr(R->err, strerror(EIO)) != NULL, "errno", "code %d: no message has the system error '%s': %.300s", code, strerror(EIO), R->err);
	}
	stub_out = 0;
	vf_seen(vf_trace_hash()); vf_outcome(vf_hstr(R->err));
	if (h == 0 && code == 0 && n == 0) vf_sample("%s to /dev/full, 1 byte still to be written: %s", modes[m], R->err);
}
/* names of every length and with every byte are given in full, with the cause */
static void
names(void)
{
	static const int lens[] = { 1, 2, 60, 199, 250, 254, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 3000, 4000, 4095, 5000 };
	static char nm[5100], want[5300]; int m = vf_choose("mode", 3), side = vf_choose("side", 2), i, k, ac, en; char * av[12]; struct clires * R;
	mkin(); stub_badclose = 0; clob = 0;
	stub_rc = stub_copy_rc = stub_errno = stub_pass_rc = 0;
	if (m == 2 && side) return;
	for (i = 0; i < NELEM(lens) + 255; i++) {
		if (i < NELEM(lens)) {
			/* a directory that does not exist, again and again */
			for (k = 0; k < lens[i]; k++) nm[k] = "no/"[k % 3];
			if (lens[i] < 4) memset(nm, 'q', (size_t)lens[i]);
			nm[lens[i]] = 0;
			en = side && lens[i] < 4 ? 0 : lens[i] > 4095 ? ENAMETOOLONG : ENOENT;
			if (!en) continue;
		} else {
			k = i - NELEM(lens) + 1;
			if (k == '/') continue;
			snprintf(nm, sizeof(nm), "nd/%c%%%cs%%n%%s", k, k); en = ENOENT;
		}
		ac = 1; av[ac++] = (char *)(uintptr_t)modes[m];
		if (side) { av[ac++] = inname; av[ac++] = nm; } else { av[ac++] = nm; if (m != 2) av[ac++] = outname; }
		av[ac] = NULL;
		vf_note("%s: the %s is %zu bytes long: %.80s", modes[m], side ? "output" : "input", strlen(nm), nm);
		R = cli_run(ac, av, NULL, 0, cdscratch, NULL); vf_eval();
		VF_CHECK(R->exited && R->code == 1, "exit", "status %d", R->code);
		VF_CHECK(!strncmp(R->err, "scrypt: ", 8) && R->err[R->errn - 1] == '\n', "message", "no diagnostic: %.100s", R->err);
		snprintf(want, sizeof(want), "%s: %s\n", nm, strerror(en));
		VF_CHECK(strlen(want) < R->errn && !strcmp(R->err + R->errn - strlen(want), want), "message", "the diagnostic does not name the file and the cause: %.300s", R->err);
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)i)); vf_outcome(vf_hstr(R->err));
	}
	/* as well when the operation failed */
	if (m != 2) for (i = 3; i < 300; i += i < 90 ? 29 : 30) for (k = 0; k < 2; k++) {
		static char a[400];
		ac = 1; av[ac++] = (char *)(uintptr_t)modes[m];
		memset(a, '.', 390); for (en = 1; en < 300; en += 2) a[en] = '/';
		a[i & ~1] = 0; strcat(a, side ? "%s%n%d" : inname);
		if (side) { av[ac++] = inname; av[ac++] = a; } else { av[ac++] = a; av[ac++] = outname; }
		av[ac] = NULL;
		stub_rc = k && m == 1 ? 0 : side ? SCRYPT_EWRFILE : SCRYPT_ERDFILE; stub_copy_rc = side ? SCRYPT_EWRFILE : SCRYPT_ERDFILE; stub_errno = EIO;
		if (!k && m == 1 && side) continue;
		vf_note("%s: error on the %s, named %s", modes[m], side ? "output" : "input", a);
		R = cli_run(ac, av, NULL, 0, cdscratch, NULL); vf_eval();
		VF_CHECK(R->exited && R->code == 1, "exit", "status %d", R->code);
		snprintf(want, sizeof(want), ": %s: %s\n", a, strerror(EIO));
		VF_CHECK(strlen(want) < R->errn && !strcmp(R->err + R->errn - strlen(want), want), "message", "the diagnostic does not name the file and the cause: %.300s", R->err);
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)(i * 2 + k))); vf_outcome(vf_hstr(R->err));
	}
}
/* whatever name the program was started by, each diagnostic begins with its last part */
static void
prog(void)
{
	static const int lens[] = { 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4000 };
	static const char * const dirs[] = { "", "/", "./", "../", "a/", "/usr/local/bin/", "//", "a//b/", "a.b/c d/", NULL };
	static char nm[4100], a0[8192], big[4100], want[8300]; int d = vf_choose("directory", NELEM(dirs)), m = vf_choose("mode", 3), c = vf_choose("cause", 4), o = vf_choose("options", NOPTS(m)), i, k, ac; char * av[24]; struct clires * R;
	memset(big, 'd', 3000); for (i = 100; i < 3000; i += 101) big[i] = '/'; strcpy(big + 2999, "/");
	mkin(); stub_badclose = 0; clob = 0;
	if (c == 1 && o == 5) return;
	for (i = 0; i < NELEM(lens) + 255; i++) {
		if (i < NELEM(lens)) { for (k = 0; k < lens[i]; k++) nm[k] = (char)('a' + k % 26); nm[k] = 0; }
		else { if (o || d > 1) break; k = i - NELEM(lens) + 1; if (k == '/') continue; snprintf(nm, sizeof(nm), "x%cy%cs%%n%c", k, k, k); }
		snprintf(a0, sizeof(a0), "%s%s", dirs[d] ? dirs[d] : big, nm);
		stub_rc = c == 0 ? SCRYPT_EINVAL : c == 3 ? SCRYPT_ENOMEM : 0; stub_copy_rc = 0; stub_errno = ENOMEM; stub_pass_rc = c == 2;
		if (c == 2 && m == 2) return;
		ac = 1; av[ac++] = (char *)(uintptr_t)modes[m]; ac = addopts(av, ac, o); av[ac++] = c == 1 ? "nosuchfile" : inname; av[ac] = NULL;
		vf_note("started as %.200s (%zu bytes): %s", a0, strlen(a0), argstr(ac, av));
		cli_argv0 = a0; R = cli_run(ac, av, NULL, 0, cdscratch, NULL); cli_argv0 = "/usr/bin/scrypt"; vf_eval();
		VF_CHECK(R->exited && R->code == 1, "exit", "status %d", R->code);
		k = snprintf(want, sizeof(want), "%s: ", nm);
		VF_CHECK(R->errn > (size_t)k && !strncmp(R->err, want, (size_t)k) && R->err[R->errn - 1] == '\n', "progname", "the diagnostic does not begin with the name: %.300s", R->err);
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)i)); vf_outcome(vf_hstr(R->err));
	}
	if (d == 5 && m == 1 && c == 0) vf_sample("started as %.60s: %.100s", a0, R->err);
	stub_rc = stub_copy_rc = stub_errno = stub_pass_rc = 0;
}
static const struct vf_scn C16[] = {
	{ "args_methods", args_methods, 0, { 0, 0 }, 0, 0 },
	{ "args_options", args_options, 0, { 0, 0 }, 0, 0 },
	{ "args_odd", args_odd, 0, { 0, 0 }, 0, 0 },
	{ "args_rules", args_rules, 0, { 0, 0 }, 0, 0 },
	{ "args_values", args_values, 0, { 0, 0 }, 0, 0 },
	{ "args_seq", args_seq, 0, { 0, 0 }, 0, 0 },
	{ "args_long", args_long, 0, { 0, 0 }, 0, 0 },
	{ NULL, NULL, 0, { 0, 0 }, 0, 0 } };
static const struct vf_scn C24[] = {
	{ "codes", codes, 0, { 0, 0 }, 0, 0 },
	{ "early", early, 0, { 0, 0 }, 0, 0 },
	{ "closing", closing, 0, { 0, 0 }, 0, 0 },
	{ "names", names, 0, { 0, 0 }, 0, 0 },
	{ "progname", prog, 0, { 0, 0 }, 0, 0 },
	{ NULL, NULL, 0, { 0, 0 }, 0, 0 } };
int
main(int argc, char ** argv)
{
	return (vf_main(argc, argv, PROP == 16 ? C16 : C24));
}
