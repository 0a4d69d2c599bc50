/* Running the real main() in a child with an owned environment. */
#ifndef CLI_H
#define CLI_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include "passphrase_entry.h"

#define SHMBUF (1 << 20)
struct clirec {
	/* recorded by the stubs */
	int nenc, nprep, ncopy, ninfo, npass, nfree;
	struct scryptenc_params P;
	int verbose, force;
	char inpath[400], outpath[400];
	int pmethod, ponce; char parg[300];
	char pw[300]; size_t pwlen;
	int out_exists_at_prep;
	/* injected streams */
	int in_used, out_used, in_faulted, out_faulted;
	size_t outn; uint8_t out[SHMBUF];
	int marker; long nsys; int killed;
};
static struct clirec * CR;
extern int scrypt_main(int, char **);

struct clires { int status; int exited, code; char err[8192]; size_t errn; uint8_t * out; size_t outn; };

static const char * cli_argv0 = "/usr/bin/scrypt";
static int cli_errfd = -1, cli_outfd = -1;
static void
cli_init(void)
{
	if (CR) return;
	CR = mmap(NULL, sizeof(*CR), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (CR == MAP_FAILED) vf_internal("mmap");
	cli_errfd = memfd_create("err", 0); cli_outfd = memfd_create("out", 0);
	if (cli_errfd < 0 || cli_outfd < 0) vf_internal("memfd");
}
/* setup runs in the child just before main; infd < 0: /dev/null */
static struct clires *
cli_run(int argc, char ** argv, const void * in, size_t inlen, void (*setup)(void *), void * cookie)
{
	static struct clires R; static uint8_t * obuf;
	pid_t p; struct stat st; int infd;

	cli_init();
	ftruncate(cli_errfd, 0); ftruncate(cli_outfd, 0);
	lseek(cli_errfd, 0, SEEK_SET); lseek(cli_outfd, 0, SEEK_SET);
	{ size_t keep = offsetof(struct clirec, out); memset(CR, 0, keep); CR->marker = 0; CR->nsys = 0; CR->killed = 0; }
	if (in) {
		infd = memfd_create("in", 0);
		if (infd < 0) vf_internal("memfd");
		if (inlen && write(infd, in, inlen) != (ssize_t)inlen) vf_internal("write");
		lseek(infd, 0, SEEK_SET);
	} else
		infd = open("/dev/null", O_RDONLY);
	p = vf_fork();
	if (p == 0) {
		static char name[8192];
		snprintf(name, sizeof(name), "%s", cli_argv0);
		dup2(infd, 0); dup2(cli_outfd, 1); dup2(cli_errfd, 2);
		close(infd); close(cli_outfd); close(cli_errfd);
		argv[0] = name;
		if (setup) setup(cookie);
		exit(scrypt_main(argc, argv));
	}
	if (p < 0) vf_internal("fork");
	close(infd);
	while (waitpid(p, &R.status, 0) < 0 && errno == EINTR) continue;
	R.exited = WIFEXITED(R.status);
	R.code = R.exited ? WEXITSTATUS(R.status) : -WTERMSIG(R.status);
	memset(R.err, 0, sizeof(R.err));
	{ ssize_t k = pread(cli_errfd, R.err, sizeof(R.err) - 1, 0); R.errn = k > 0 ? (size_t)k : 0; }
	fstat(cli_outfd, &st);
	free(obuf);
	obuf = malloc((size_t)st.st_size + 1);
	R.outn = 0;
	while (R.outn < (size_t)st.st_size) {
		ssize_t k = pread(cli_outfd, obuf + R.outn, (size_t)st.st_size - R.outn, (off_t)R.outn);
		if (k <= 0) break;
		R.outn += (size_t)k;
	}
	R.out = obuf;
	return (&R);
}
static char *
argstr(int argc, char ** argv)
{
	static char b[2000]; int i; size_t k = 0;
	b[0] = 0;
	for (i = 1; i < argc && k < 1800; i++) k += (size_t)snprintf(b + k, sizeof(b) - k, "%s[%.300s]", i > 1 ? " " : "", argv[i]);
	return (b);
}
#endif
