#define _GNU_SOURCE
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include "vf.h"

/* The framework uses only these direct system-level helpers so that wraps of
 * libc functions by a harness do not affect it. */

#define MAXW 16
#define MAXD 20000
#define MAXVIOL 24
static int maxviol = MAXVIOL;
static int hung;
#define NSAMP 4
#define SETBITS 22

struct ent { uint16_t c, n; uint8_t dev; uint8_t pad; };

struct viol {
	int scn, crash, hang, len;
	char key[160];
	char msg[1500];
	char note[600];
	struct ent tr[MAXD];
	long hist_from, hist_to;	/* worker history in the history file */
	int wid, gen;
};

struct set { _Atomic uint64_t count; _Atomic uint64_t t[1 << SETBITS]; };

struct slot {
	_Atomic int pid, child;
	_Atomic int64_t start_ms;	/* 0 = idle */
	_Atomic int hang;
	_Atomic int popped;
	int preflen, len, diverged;
	int failed, internal;
	char key[160], msg[1500], note[600];
	struct ent pre[MAXD];
	struct ent tr[MAXD];
	long execs_here;
	int gen;
	/* per-execution counters, merged at its end */
	uint64_t evals;
};

struct shm {
	pthread_mutex_t lock;
	_Atomic int active, stop, nviol, ninternal;
	char internal[600];
	size_t top;		/* bytes used in arena */
	size_t nrec;
	_Atomic uint64_t execs, points, evals, maxdepth;
	_Atomic uint64_t arenafull;
	int nsamp;
	char samp[NSAMP][700];
	struct viol v[MAXVIOL];
	struct slot s[MAXW];
	struct set seen, outc, st, tr;
};

static struct shm * S;
static uint8_t * arena;
static size_t arena_sz = (size_t)6 << 30;
static const struct vf_scn * scns;
static int cur;			/* current scenario */
static struct slot * me;
static int mydevs;
static int maxdev;
int vf_tier, vf_replaying;
static int nworkers = 8;
static char scratch[256];
static int histfd = -1;
static char outdir[512];

static int64_t
now_ms(void)
{
	struct timespec t;
	extern int __clock_gettime(clockid_t, struct timespec *) __attribute__((weak));
	/* Raw syscall: immune to --wrap=clock_gettime in the harness. */
	extern long syscall(long, ...);
	syscall(228, 1, &t);
	return ((int64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000);
}

uint64_t
vf_hash(const void * p, size_t n, uint64_t h)
{
	const uint8_t * b = p;
	size_t i;

	h ^= 0xcbf29ce484222325ULL;
	for (i = 0; i < n; i++)
		h = (h ^ b[i]) * 0x100000001b3ULL;
	h ^= h >> 32; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32;
	return (h);
}
uint64_t vf_hash2(uint64_t a, uint64_t b) { uint64_t x[2] = {a, b}; return vf_hash(x, 16, 0); }
uint64_t vf_hstr(const char * s) { return vf_hash(s, strlen(s), 0); }

static void
set_add(struct set * s, uint64_t h)
{
	uint64_t i, z;

	if (h == 0) h = 1;
	if (atomic_load(&s->count) > ((1u << SETBITS) / 10 * 9))
		return;		/* full: the count is a lower bound */
	for (i = h & ((1 << SETBITS) - 1);; i = (i + 1) & ((1 << SETBITS) - 1)) {
		z = atomic_load(&s->t[i]);
		if (z == h)
			return;
		if (z == 0) {
			if (atomic_compare_exchange_strong(&s->t[i], &z, h)) {
				atomic_fetch_add(&s->count, 1);
				return;
			}
			if (z == h)
				return;
		}
	}
}

void vf_eval(void) { me->evals++; }
void vf_seen(uint64_t h) { set_add(&S->seen, vf_hash2(h, (uint64_t)cur + 1)); }
void vf_outcome(uint64_t h) { set_add(&S->outc, vf_hash2(h, (uint64_t)cur + 1)); }
void vf_state(uint64_t h) { set_add(&S->st, vf_hash2(h, (uint64_t)cur + 1)); }
void vf_trans(uint64_t h) { set_add(&S->tr, vf_hash2(h, (uint64_t)cur + 1)); }
uint64_t vf_trace_hash(void)
{
	uint64_t h = 7;
	int i;
	for (i = 0; i < me->len; i++)
		h = vf_hash2(h, me->tr[i].c);
	return (h);
}
const char * vf_scratch(void) { return scratch; }
/*
 * Nothing run here, however broken, removes, renames or changes a file outside
 * temporary directories: these calls are redirected (vbuild.py) for the code
 * under test and the harnesses alike, and refused elsewhere.
 */
static int
outside(int at, const char * p)
{
	char d[4200], r[4200], * q; int e = errno;

	if (at != AT_FDCWD && p[0] != '/')
		return (0);
	snprintf(d, sizeof(d), "%s", p);
	while ((q = strrchr(d, '/')) != NULL && q[1] == '\0' && q != d)
		*q = '\0';
	if (q == NULL)
		strcpy(d, ".");
	else
		q[q == d] = '\0';
	if (realpath(d, r) == NULL) {
		errno = e;
		return (0);	/* no such directory: the call will fail */
	}
	errno = e;
	if (strncmp(r, "/tmp/", 5) == 0 || strcmp(r, "/dev/shm") == 0 || strncmp(r, "/dev/shm/", 9) == 0)
		return (0);
	errno = EACCES;
	return (1);
}
int __real_unlink(const char *); int __wrap_unlink(const char *);
int __wrap_unlink(const char * p) { return (outside(AT_FDCWD, p) ? -1 : __real_unlink(p)); }
int __real_remove(const char *); int __wrap_remove(const char *);
int __wrap_remove(const char * p) { return (outside(AT_FDCWD, p) ? -1 : __real_remove(p)); }
int __real_rmdir(const char *); int __wrap_rmdir(const char *);
int __wrap_rmdir(const char * p) { return (outside(AT_FDCWD, p) ? -1 : __real_rmdir(p)); }
int __real_unlinkat(int, const char *, int); int __wrap_unlinkat(int, const char *, int);
int __wrap_unlinkat(int d, const char * p, int f) { return (outside(d, p) ? -1 : __real_unlinkat(d, p, f)); }
int __real_rename(const char *, const char *); int __wrap_rename(const char *, const char *);
int __wrap_rename(const char * p, const char * q) { return (outside(AT_FDCWD, p) || outside(AT_FDCWD, q) ? -1 : __real_rename(p, q)); }
int __real_renameat(int, const char *, int, const char *); int __wrap_renameat(int, const char *, int, const char *);
int __wrap_renameat(int a, const char * p, int b, const char * q) { return (outside(a, p) || outside(b, q) ? -1 : __real_renameat(a, p, b, q)); }
int __real_chmod(const char *, mode_t); int __wrap_chmod(const char *, mode_t);
int __wrap_chmod(const char * p, mode_t m) { return (outside(AT_FDCWD, p) ? -1 : __real_chmod(p, m)); }
int __real_chown(const char *, uid_t, gid_t); int __wrap_chown(const char *, uid_t, gid_t);
int __wrap_chown(const char * p, uid_t u, gid_t g) { return (outside(AT_FDCWD, p) ? -1 : __real_chown(p, u, g)); }
int __real_truncate(const char *, off_t); int __wrap_truncate(const char *, off_t);
int __wrap_truncate(const char * p, off_t n) { return (outside(AT_FDCWD, p) ? -1 : __real_truncate(p, n)); }
int __real_fchmod(int, mode_t); int __wrap_fchmod(int, mode_t);
int __wrap_fchmod(int d, mode_t m) { struct stat st; if (fstat(d, &st) == 0 && !S_ISREG(st.st_mode)) { errno = EPERM; return (-1); } return (__real_fchmod(d, m)); }

static void
lock(void)
{
	int rc = pthread_mutex_lock(&S->lock);
	if (rc == EOWNERDEAD)
		pthread_mutex_consistent(&S->lock);
}
static void unlock(void) { pthread_mutex_unlock(&S->lock); }

void
vf_note(const char * fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(me->note, sizeof(me->note), fmt, ap);
	va_end(ap);
}

void
vf_sample(const char * fmt, ...)
{
	va_list ap;

	if (S->nsamp >= NSAMP)
		return;
	lock();
	if (S->nsamp < NSAMP) {
		va_start(ap, fmt);
		vsnprintf(S->samp[S->nsamp], sizeof(S->samp[0]), fmt, ap);
		va_end(ap);
		S->nsamp++;
	}
	unlock();
}

void
vf_fail(const char * key, const char * fmt, ...)
{
	va_list ap;

	snprintf(me->key, sizeof(me->key), "%s", key);
	va_start(ap, fmt);
	vsnprintf(me->msg, sizeof(me->msg), fmt, ap);
	va_end(ap);
	me->failed = 1;
	_exit(77);
}

void
vf_internal(const char * fmt, ...)
{
	va_list ap;

	va_start(ap, fmt);
	vsnprintf(me->msg, sizeof(me->msg), fmt, ap);
	va_end(ap);
	me->internal = 1;
	_exit(78);
}

static int
decide(const char * tag, int n, int dev)
{
	int i = me->len, c = 0;

	if (n < 1 || n > 65535)
		vf_internal("bad n=%d at %s", n, tag);
	if (dev && mydevs >= maxdev) {
		/* No budget: the default is the only answer here. */
		return (0);
	}
	if (dev && i >= MAXD - 1000) {
		/* Too deep: not explored further, and reported as not exhaustive. */
		atomic_fetch_add(&S->arenafull, 1);
		return (0);
	}
	if (i >= MAXD)
		vf_internal("too many decision points (at %s)", tag);
	if (i < me->preflen) {
		if (me->pre[i].n == 0xffff && me->pre[i].c < n)
			c = 0;	/* replay file: the number of answers is not recorded */
		else if (me->pre[i].n != n)
			vf_internal("nondeterminism: point %d (%s) had %d answers, now %d",
			    i, tag, me->pre[i].n, n);
		c = me->pre[i].c;
	}
	me->tr[i].c = (uint16_t)c;
	me->tr[i].n = (uint16_t)n;
	me->tr[i].dev = (uint8_t)dev;
	me->len = i + 1;
	if (dev && c)
		mydevs++;
	return (c);
}

int vf_choose(const char * tag, int n) { return decide(tag, n, 0); }
int vf_dev(const char * tag, int n) { return decide(tag, n, 1); }
int vf_devs_left(void) { return maxdev - mydevs; }

/* ---- the stack of pending decision prefixes ---- */
/* Record: ents[len], then a trailer {len}.  The last ent is an alternative
 * range: start with c, up to n-1. */
static void
push_rec(const struct ent * e, int len)
{
	size_t need = (size_t)len * sizeof(*e) + sizeof(int);

	if (S->top + need > arena_sz) {
		atomic_fetch_add(&S->arenafull, 1);
		return;
	}
	memcpy(arena + S->top, e, (size_t)len * sizeof(*e));
	S->top += (size_t)len * sizeof(*e);
	memcpy(arena + S->top, &len, sizeof(int));
	S->top += sizeof(int);
	S->nrec++;
}

static int
pop_rec(struct ent * e)
{
	int len;

	if (S->nrec == 0)
		return (-1);
	S->top -= sizeof(int);
	memcpy(&len, arena + S->top, sizeof(int));
	S->top -= (size_t)len * sizeof(*e);
	memcpy(e, arena + S->top, (size_t)len * sizeof(*e));
	S->nrec--;
	if (len > 0 && e[len - 1].c + 1 < e[len - 1].n) {
		struct ent sv = e[len - 1];
		/* put the rest back */
		e[len - 1].c++;
		push_rec(e, len);
		e[len - 1] = sv;
	}
	return (len);
}

/* Called with the lock held: queue the untaken answers of the finished run. */
static void
expand(struct slot * s)
{
	int i, devs = 0;
	struct ent sv;

	for (i = 0; i < s->len; i++) {
		if (i >= s->preflen && s->tr[i].n > 1 &&
		    !(s->tr[i].dev && devs >= maxdev)) {
			sv = s->tr[i];
			s->tr[i].c = 1;
			push_rec(s->tr, i + 1);
			s->tr[i] = sv;
		}
		if (s->tr[i].dev && s->tr[i].c)
			devs++;
	}
	atomic_fetch_add(&S->execs, 1);
	atomic_fetch_add(&S->points, (uint64_t)s->len);
	atomic_fetch_add(&S->evals, s->evals ? s->evals : 1);
	if ((uint64_t)s->len > S->maxdepth)
		S->maxdepth = (uint64_t)s->len;
}

static void
log_tail(int wid, char * buf, size_t n)
{
	char path[600], tmp[3000], * q;
	int fd;
	ssize_t k;
	off_t sz;

	buf[0] = 0;
	snprintf(path, sizeof(path), "%s/stderr.%d", scratch, wid);
	if ((fd = open(path, O_RDONLY)) < 0)
		return;
	sz = lseek(fd, 0, SEEK_END);
	/* The head of a sanitizer report is what matters. */
	lseek(fd, 0, SEEK_SET);
	k = read(fd, tmp, sizeof(tmp) - 1);
	(void)sz;
	close(fd);
	if (k < 0) k = 0;
	tmp[k] = 0;
	if ((q = strstr(tmp, "ERROR: ")) == NULL && (q = strstr(tmp, "runtime error")) == NULL)
		q = k > 700 ? tmp + k - 700 : tmp;
	else if (q - tmp > 120)
		q -= 120;
	snprintf(buf, n, "%.700s", q);
}

static void
record(struct slot * s, int wid, int status, int hang)
{
	struct viol * v;
	int i;

	if (s->internal) {
		if (S->ninternal++ == 0)
			snprintf(S->internal, sizeof(S->internal), "%s [note: %.200s]", s->msg, s->note);
		return;
	}
	/* Known findings ("kf-" keys) are kept once and do not end the exploration. */
	if (s->failed && !strncmp(s->key, "kf-", 3))
		for (i = 0; i < S->nviol; i++) if (!strcmp(S->v[i].key, s->key)) return;
	i = S->nviol;
	if (i >= maxviol) { S->stop = 1; return; }
	v = &S->v[i];
	memset(v, 0, offsetof(struct viol, tr));
	v->scn = cur;
	v->wid = wid; v->gen = s->gen;
	v->len = s->len;
	memcpy(v->tr, s->tr, sizeof(struct ent) * (size_t)s->len);
	snprintf(v->note, sizeof(v->note), "%s", s->note);
	if (s->failed) {
		snprintf(v->key, sizeof(v->key), "%s", s->key);
		snprintf(v->msg, sizeof(v->msg), "%s", s->msg);
	} else if (hang) {
		v->hang = 1;
		S->stop = hung = 1;	/* the others would take as long each */
		snprintf(v->key, sizeof(v->key), "hang");
		snprintf(v->msg, sizeof(v->msg), "execution did not finish");
	} else {
		char t[800];
		v->crash = 1;
		snprintf(v->key, sizeof(v->key), "crash");
		log_tail(wid, t, sizeof(t));
		snprintf(v->msg, sizeof(v->msg), "crash: %s %d; stderr: %s",
		    WIFSIGNALED(status) ? "signal" : "exit",
		    WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status), t);
	}
	S->nviol = i + 1;
	if (S->nviol >= maxviol && strncmp(v->key, "kf-", 3)) S->stop = 1;
}

static void
hist_write(struct slot * s, int wid)
{
	/* history of decision prefixes of this worker generation */
	int i, k = 0;
	static char b[MAXD * 6 + 64];

	if (histfd < 0)
		return;
	for (i = 0; i < s->preflen; i++)
		k += sprintf(b + k, "%d ", s->pre[i].c);
	b[k++] = '\n';
	if (write(histfd, b, (size_t)k) < 0)
		return;
	(void)wid;
}

static void
redirect_stderr(int wid)
{
	char p[600];
	int fd;

	snprintf(p, sizeof(p), "%s/stderr.%d", scratch, wid);
	fd = open(p, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
	if (fd >= 0) { dup2(fd, 2); if (fd != 2) close(fd); }
	fd = open("/dev/null", O_RDWR);
	if (fd >= 0) { dup2(fd, 1); dup2(fd, 0); if (fd > 2) close(fd); }
}

static void
begin(struct slot * s)
{
	s->len = 0; s->failed = 0; s->internal = 0; s->evals = 0;
	s->note[0] = 0; s->msg[0] = 0; s->key[0] = 0; s->hang = 0;
	mydevs = 0;
	me = s;
	atomic_store(&s->start_ms, now_ms());
}

/* returns child status, or 0 for an in-process run that came back */
static int
exec_one(struct slot * s)
{
	int st = 0;
	pid_t pid;

	begin(s);
	if (!scns[cur].fork_each) {
		scns[cur].fn();
		return (0);
	}
	pid = vf_fork();
	if (pid == 0) {
		scns[cur].fn();
		_exit(0);
	}
	if (pid < 0) {
		snprintf(s->msg, sizeof(s->msg), "fork failed");
		s->internal = 1;
		return (78 << 8);
	}
	atomic_store(&s->child, pid);
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
		continue;
	atomic_store(&s->child, 0);
	return (st);
}

static void
worker(int wid)
{
	struct slot * s = &S->s[wid];
	int len, st;
	char hp[600];

	prctl(PR_SET_PDEATHSIG, SIGKILL);
	redirect_stderr(wid);
	histfd = -1;
	if (!scns[cur].fork_each) {
		snprintf(hp, sizeof(hp), "%s/hist.%s.%d.%d", scratch, scns[cur].name, wid, s->gen);
		histfd = open(hp, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	}
	s->execs_here = 0;
	for (;;) {
		if (S->stop)
			_exit(0);
		lock();
		len = pop_rec(s->pre);
		if (len >= 0) {
			s->preflen = len;
			s->popped = 1;
			S->active++;
		}
		unlock();
		if (len < 0) {
			if (S->active == 0)
				_exit(0);
			usleep(200);
			continue;
		}
		if (ftruncate(2, 0)) {}
		hist_write(s, wid);
		st = exec_one(s);
		atomic_store(&s->start_ms, 0);
		lock();
		if (st != 0)
			record(s, wid, st, s->hang);
		expand(s);
		s->popped = 0;
		S->active--;
		unlock();
		s->execs_here++;
		if (!scns[cur].fork_each && s->execs_here >= 3000)
			_exit(79);	/* bound the history: be respawned */
	}
}

static pid_t
spawn(int wid)
{
	pid_t p;

	S->s[wid].gen++;
	fflush(NULL);
	p = vf_fork();
	if (p == 0) {
		worker(wid);
		_exit(0);
	}
	S->s[wid].pid = p;
	return (p);
}

static void
jstr(FILE * f, const char * s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = (unsigned char)*s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

static int
copy_hist(const char * dst, struct viol * v)
{
	char hp[600];
	FILE * i, * o;
	int c;

	snprintf(hp, sizeof(hp), "%s/hist.%s.%d.%d", scratch, scns[v->scn].name, v->wid, v->gen);
	if ((i = fopen(hp, "r")) == NULL)
		return (0);
	if ((o = fopen(dst, "w")) == NULL) { fclose(i); return (0); }
	fprintf(o, "scn %s\n%d %d\n", scns[v->scn].name, maxdev, vf_tier);
	while ((c = fgetc(i)) != EOF)
		fputc(c, o);
	fclose(i); fclose(o);
	return (1);
}

static void
rmtree(const char * dir, int depth)
{
	DIR * d;
	struct dirent * e;
	char p[1600];

	if ((d = opendir(dir)) == NULL)
		return;
	while ((e = readdir(d)) != NULL) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
			continue;
		snprintf(p, sizeof(p), "%s/%s", dir, e->d_name);
		/* the scratch tree holds only what harnesses put there; no links are followed */
		if (unlink(p) && depth < 3)
			rmtree(p, depth + 1);
	}
	closedir(d);
	rmdir(dir);
}
static void
rmscratch(void)
{
	rmtree(scratch, 0);
}
/* A directory of this process alone, emptied. */
const char *
vf_privdir(void)
{
	static char p[400];

	snprintf(p, sizeof(p), "%s/p.%d", scratch, (int)getpid());
	rmtree(p, 0);
	if (mkdir(p, 0700) && errno != EEXIST)
		vf_internal("mkdir %s", p);
	return (p);
}

static int
explore(int si, FILE * out, int64_t budget_ms, int first)
{
	pid_t p;
	int i, st, alive = 0, capped = 0, w;
	int64_t t0 = now_ms();
	pthread_mutexattr_t a;
	char path[700];

	cur = si;
	maxdev = scns[si].maxdev[vf_tier];
	memset((void *)S, 0, offsetof(struct shm, v));
	S->nviol = 0;
	for (i = 0; i < MAXW; i++) {
		S->s[i].pid = S->s[i].child = 0; S->s[i].start_ms = 0; S->s[i].popped = 0;
		S->s[i].gen = 0; S->s[i].hang = 0;
	}
	if (S->seen.count) memset((void *)&S->seen, 0, sizeof(struct set));
	if (S->outc.count) memset((void *)&S->outc, 0, sizeof(struct set));
	if (S->st.count) memset((void *)&S->st, 0, sizeof(struct set));
	if (S->tr.count) memset((void *)&S->tr, 0, sizeof(struct set));
	pthread_mutexattr_init(&a);
	pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
	pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST);
	pthread_mutex_init(&S->lock, &a);
	{ struct ent e; memset(&e, 0, sizeof(e)); push_rec(&e, 0); }
	w = nworkers;
	for (i = 0; i < w; i++) { spawn(i); alive++; }
	while (alive > 0) {
		p = waitpid(-1, &st, WNOHANG);
		if (p > 0) {
			for (i = 0; i < w && S->s[i].pid != p; i++)
				continue;
			if (i == w)
				continue;
			alive--;
			S->s[i].start_ms = 0;
			if (S->s[i].popped) {
				/* died inside an execution */
				lock();
				record(&S->s[i], i, st, S->s[i].hang);
				expand(&S->s[i]);
				S->s[i].popped = 0;
				S->active--;
				unlock();
			}
			if (!S->stop && (S->nrec > 0 || S->active > 0)) {
				spawn(i); alive++;
			}
			continue;
		}
		usleep(2000);
		if (now_ms() - t0 > budget_ms && !S->stop) {
			if (S->nrec > 0 || S->active > 0)
				capped = 1;
			S->stop = 1;
		}
		for (i = 0; i < w; i++) {
			int64_t b = S->s[i].start_ms;
			int lim = scns[si].timeout_s ? scns[si].timeout_s : 60;
			if (b && now_ms() - b > (int64_t)lim * 1000) {
				S->s[i].hang = 1;
				kill(S->s[i].child ? S->s[i].child : S->s[i].pid, SIGKILL);
				S->s[i].start_ms = now_ms();
			}
		}
	}
	if (S->nrec > 0)
		capped = 1;
	fprintf(out, "%s{\"scenario\":\"%s\",\"execs\":%llu,\"points\":%llu,\"evals\":%llu,"
	    "\"distinct\":%llu,\"outcomes\":%llu,\"states\":%llu,\"transitions\":%llu,\"max_depth\":%llu,\"max_dev\":%d,"
	    "\"exhaustive\":%s,\"pending\":%zu,\"wall_ms\":%lld,\"internal\":",
	    first ? "" : ",\n", scns[si].name, (unsigned long long)S->execs,
	    (unsigned long long)S->points, (unsigned long long)S->evals,
	    (unsigned long long)S->seen.count, (unsigned long long)S->outc.count,
	    (unsigned long long)S->st.count, (unsigned long long)S->tr.count,
	    (unsigned long long)S->maxdepth, maxdev,
	    (capped || S->arenafull || S->ninternal) ? "false" : "true", S->nrec,
	    (long long)(now_ms() - t0));
	jstr(out, S->ninternal ? S->internal : "");
	fprintf(out, ",\"samples\":[");
	for (i = 0; i < S->nsamp; i++) { if (i) fputc(',', out); jstr(out, S->samp[i]); }
	fprintf(out, "],\"violations\":[");
	for (i = 0; i < S->nviol; i++) {
		struct viol * v = &S->v[i];
		FILE * r;
		int k;

		if (i) fputc(',', out);
		fprintf(out, "{\"key\":"); jstr(out, v->key);
		fprintf(out, ",\"msg\":"); jstr(out, v->msg);
		fprintf(out, ",\"note\":"); jstr(out, v->note);
		snprintf(path, sizeof(path), "%s/%s.%d.replay", outdir, scns[v->scn].name, i);
		if ((r = fopen(path, "w")) != NULL) {
			fprintf(r, "scn %s\n%d %d\n", scns[v->scn].name, maxdev, vf_tier);
			for (k = 0; k < v->len; k++)
				fprintf(r, "%d ", v->tr[k].c);
			fprintf(r, "\n");
			fclose(r);
		}
		fprintf(out, ",\"replay\":"); jstr(out, path);
		snprintf(path, sizeof(path), "%s/%s.%d.hist", outdir, scns[v->scn].name, i);
		if (!scns[v->scn].fork_each && copy_hist(path, v)) {
			fprintf(out, ",\"hist\":"); jstr(out, path);
		}
		fprintf(out, "}");
	}
	fprintf(out, "]}");
	fflush(out);
	return (S->nviol);
}

/* Replay: lines of decisions run in order in one process. */
static int
replay(const char * file)
{
	FILE * f;
	static char line[MAXD * 6 + 64];
	int st, n = 0, i;
	pid_t p;

	if ((f = fopen(file, "r")) == NULL) { perror(file); return (2); }
	if (!fgets(line, sizeof(line), f) || strncmp(line, "scn ", 4)) return (2);
	line[strcspn(line, "\n")] = 0;
	for (i = 0; scns[i].name && strcmp(scns[i].name, line + 4); i++)
		continue;
	if (!scns[i].name) { fprintf(stderr, "no scenario %s\n", line + 4); return (2); }
	cur = i;
	if (!fgets(line, sizeof(line), f) || sscanf(line, "%d %d", &maxdev, &vf_tier) != 2) return (2);
	vf_replaying = 1;
	me = &S->s[0];
	{
		pthread_mutexattr_t a;
		pthread_mutexattr_init(&a);
		pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
		pthread_mutex_init(&S->lock, &a);
	}
	p = vf_fork();
	if (p == 0) {
		redirect_stderr(0);
		while (fgets(line, sizeof(line), f)) {
			char * q = line, * e;
			struct slot * s = me;
			s->preflen = 0;
			for (;;) {
				long c = strtol(q, &e, 10);
				if (e == q) break;
				s->pre[s->preflen].c = (uint16_t)c;
				s->pre[s->preflen].n = 0;
				s->preflen++;
				q = e;
			}
			/* n is unknown in a replay file: accept any */
			n++;
			begin(s);
			s->len = 0;
			{
				int k;
				for (k = 0; k < s->preflen; k++)
					s->pre[k].n = 0xffff;
			}
			if (ftruncate(2, 0)) {}
			scns[cur].fn();
		}
		_exit(0);
	}
	{
		int64_t t0 = now_ms();
		int lim = (scns[cur].timeout_s ? scns[cur].timeout_s : 60) * 2;
		while ((i = waitpid(p, &st, WNOHANG)) == 0) {
			if (now_ms() - t0 > (int64_t)lim * 1000 + 30000) {
				kill(p, SIGKILL);
				waitpid(p, &st, 0);
				printf("REPLAY: hang\n");
				return (1);
			}
			usleep(2000);
		}
	}
	if (S->s[0].internal) { printf("REPLAY: internal: %s\n", S->s[0].msg); return (2); }
	if (S->s[0].failed) {
		printf("REPLAY: key=%s %s [case: %s]\n", S->s[0].key, S->s[0].msg, S->s[0].note);
		return (1);
	}
	if (st != 0) {
		char t[800];
		log_tail(0, t, sizeof(t));
		printf("REPLAY: crash status=%x [case: %s]\n%s\n", st, S->s[0].note, t);
		return (1);
	}
	printf("REPLAY: no violation\n");
	return (0);
}

int
vf_main(int argc, char ** argv, const struct vf_scn * tab)
{
	const char * outf = NULL, * only = NULL, * rep = NULL;
	double budget = 600;
	int i, n = 0, first = 1, rc = 0;
	FILE * out;
	int64_t t0 = now_ms();

	scns = tab;
	snprintf(outdir, sizeof(outdir), "/tmp");
	for (i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--out")) outf = argv[++i];
		else if (!strcmp(argv[i], "--outdir")) snprintf(outdir, sizeof(outdir), "%s", argv[++i]);
		else if (!strcmp(argv[i], "--workers")) nworkers = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
		else if (!strcmp(argv[i], "--thorough")) vf_tier = 1;
		else if (!strcmp(argv[i], "--first")) maxviol = 1;
		else if (!strcmp(argv[i], "--only")) only = argv[++i];
		else if (!strcmp(argv[i], "--replay")) rep = argv[++i];
		else { fprintf(stderr, "bad arg %s\n", argv[i]); return (2); }
	}
	if (nworkers > MAXW) nworkers = MAXW;
	S = mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	arena = mmap(NULL, arena_sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (S == MAP_FAILED || arena == MAP_FAILED) { perror("mmap"); return (2); }
	snprintf(scratch, sizeof(scratch), "/tmp/vf.XXXXXX");
	if (mkdtemp(scratch) == NULL) { perror("mkdtemp"); return (2); }
	me = &S->s[0];
	if (rep) {
		rc = replay(rep);
		rmscratch();
		return (rc);
	}
	out = outf ? fopen(outf, "w") : stdout;
	if (out == NULL) { perror(outf); return (2); }
	for (i = 0; scns[i].name; i++)
		n++;
	fprintf(out, "[");
	for (i = 0; i < n; i++) {
		int64_t left;
		if (only && strcmp(only, scns[i].name)) continue;
		if (!only && scns[i].thorough_only && !vf_tier) continue;
		left = (int64_t)(budget * 1000) - (now_ms() - t0);
		if (left < 2000) left = 2000;
		if (explore(i, out, left, first) && (maxviol == 1 || hung)) break;
		first = 0;
	}
	fprintf(out, "]\n");
	if (outf) fclose(out);
	rmscratch();
	return (rc);
}

#if defined(__SANITIZE_ADDRESS__)
const char * __asan_default_options(void);
const char * __asan_default_options(void)
{
	return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:handle_segv=1:detect_stack_use_after_return=0:disable_coredump=1";
}
const char * __ubsan_default_options(void);
const char * __ubsan_default_options(void)
{
	return "print_stacktrace=0:halt_on_error=1:abort_on_error=1";
}
#endif
