/*
 * C21: concurrent key derivations do not interfere.
 *
 * /repo is compiled with thread-sanitizer instrumentation and linked with the
 * __tsan_* functions below, which make every access to memory that several
 * threads use a scheduling point.  Threads are real threads, of which one runs
 * at a time; the explorer decides, at each scheduling point, who runs next.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "vf.h"
#include "ref.h"
#include "env_cpu.h"
#include "crypto_scrypt.h"

#define MAXT 5
#define MAIN 4				/* the main thread's number while it derives keys */
extern char __data_start[], _end[];
#define GSZ ((size_t)(_end - __data_start))

static __thread int me __attribute__((tls_model("initial-exec")));	/* 0: not under the scheduler */
static __thread char * stk_lo __attribute__((tls_model("initial-exec"))), * stk_hi __attribute__((tls_model("initial-exec")));
static enum { OFF, CAL, RUN } mode;

/* ---- what is shared ---- */
static uint8_t * acc;			/* per byte of global data: who accessed it (calibration) */
static uint8_t * wr;			/* written (calibration) */
static uint8_t * saved;			/* value before this execution is in the log */
static struct { char * a; uint8_t v; } * ulog; static size_t nulog;
#define MAXB 512
static struct blk { char * lo, * hi; int tid, ord, freed, map; } B[MAXB]; static int nB;
static int ord[MAXT];
static uint8_t sharedkey[MAXT][256];
static int npoints, hblk, hthr, hcount; static long nacc;

/* ---- the scheduler ---- */
static sem_t sem[MAXT], msem;
static int nthr, done[MAXT], calstep, calcount, spin, stuck; static const void * lastaddr;
static void
switch_to(int t)
{
	int i = me;

	if (t == i) return;
	sem_post(&sem[t]);
	while (sem_wait(&sem[i])) ;
}
static int
others(int * o)
{
	int i, n = 0;

	for (i = 1; i <= nthr; i++) if (i != me && !done[i]) o[n++] = i;
	return (n);
}
/* The running thread cannot go on before another has run. */
static void
yield(void)
{
	int o[MAXT], n = others(o), i;

	if (n == 0 || ++stuck > 100000) vf_fail("deadlock", "every thread waits for another");
	for (i = 0; i < n && o[i] < me; i++) ;
	switch_to(o[i % n]);
}
static void
point(const void * a)
{
	int o[MAXT], n, k;

	npoints++;
	n = others(o);
	if (n == 0) return;
	if (mode == CAL) { if (calstep && ++calcount % calstep == 0) switch_to(o[0]); return; }
	if (a == lastaddr) { if (++spin > 20000) { spin = 0; yield(); return; } }
	else { lastaddr = a; spin = 0; }
	k = vf_dev("preempt", n + 1);
	if (k) { spin = 0; switch_to(o[k - 1]); }
}
static void
save(char * a, size_t n)
{
	for (; n; n--, a++) {
		if (saved[a - __data_start]) continue;
		saved[a - __data_start] = 1; ulog[nulog].a = a; ulog[nulog++].v = (uint8_t)*a;
	}
}
static void
undo(void)
{
	while (nulog) { nulog--; *ulog[nulog].a = (char)ulog[nulog].v; saved[ulog[nulog].a - __data_start] = 0; }
}
static void
slow(char * a, size_t n, int w)
{
	size_t g, i; int b, multi = 0;

	nacc++;
	if (a >= __data_start && a + n <= _end) {
		g = (size_t)(a - __data_start);
		if (w) save(a, n);
		if (me == MAIN) return;
		if (mode == CAL) { for (i = 0; i < n; i++) { acc[g + i] |= 1 << me; wr[g + i] |= w; } }
		for (i = 0; i < n && !multi; i++) multi = wr[g + i] && (acc[g + i] & (acc[g + i] - 1));
		if (multi || w) point(a);
		return;
	}
	for (b = nB - 1; b >= 0; b--) if (a >= B[b].lo && a < B[b].hi) break;
	if (b < 0) return;
	if (B[b].freed) vf_fail("use-after-free", "a thread uses memory which was released");
	if (me == MAIN) return;
	if (B[b].tid != me && mode == CAL) sharedkey[B[b].tid][B[b].ord & 255] = 1;
	if (B[b].tid != me || sharedkey[B[b].tid][B[b].ord & 255]) {
		/* Within a shared block, not every access: the first, and then every 50th. */
		if (hblk != b || hthr != me || ++hcount >= 50) { hblk = b; hthr = me; hcount = 0; point(a); }
	}
}
static inline void
access_(void * a, size_t n, int w)
{
	if (me == 0 || ((char *)a >= stk_lo && (char *)a < stk_hi)) return;
	slow(a, n, w);
}

/* ---- the runtime the instrumented code calls ---- */
#define RW(n) void __tsan_read##n(void * a); void __tsan_write##n(void * a); void __tsan_unaligned_read##n(void * a); void __tsan_unaligned_write##n(void * a); \
	void __tsan_read_write##n(void * a); void __tsan_unaligned_read_write##n(void * a); \
	void __tsan_volatile_read##n(void * a); void __tsan_volatile_write##n(void * a); void __tsan_unaligned_volatile_read##n(void * a); void __tsan_unaligned_volatile_write##n(void * a); \
	void __tsan_read##n(void * a) { access_(a, n, 0); } void __tsan_write##n(void * a) { access_(a, n, 1); } \
	void __tsan_read_write##n(void * a) { access_(a, n, 1); } void __tsan_unaligned_read_write##n(void * a) { access_(a, n, 1); } \
	void __tsan_unaligned_read##n(void * a) { access_(a, n, 0); } void __tsan_unaligned_write##n(void * a) { access_(a, n, 1); } \
	void __tsan_volatile_read##n(void * a) { access_(a, n, 0); } void __tsan_volatile_write##n(void * a) { access_(a, n, 1); } \
	void __tsan_unaligned_volatile_read##n(void * a) { access_(a, n, 0); } void __tsan_unaligned_volatile_write##n(void * a) { access_(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void); void __tsan_init(void) {}
void __tsan_func_entry(void * p); void __tsan_func_entry(void * p) {}
void __tsan_func_exit(void); void __tsan_func_exit(void) {}
void __tsan_vptr_update(void ** a, void * v); void __tsan_vptr_update(void ** a, void * v) { access_(a, 8, 1); }
void __tsan_vptr_read(void ** a); void __tsan_vptr_read(void ** a) { access_(a, 8, 0); }
void __tsan_read_range(void * a, size_t n); void __tsan_read_range(void * a, size_t n) { if (n) access_(a, n, 0); }
void __tsan_write_range(void * a, size_t n); void __tsan_write_range(void * a, size_t n) { if (n) access_(a, n, 1); }
static void rng(const void * a, size_t n, int w) { if (n) access_((void *)(uintptr_t)a, n, w); }
void * __tsan_memcpy(void * d, const void * s, size_t n); void * __tsan_memcpy(void * d, const void * s, size_t n) { rng(s, n, 0); rng(d, n, 1); return (memcpy(d, s, n)); }
void * __tsan_memmove(void * d, const void * s, size_t n); void * __tsan_memmove(void * d, const void * s, size_t n) { rng(s, n, 0); rng(d, n, 1); return (memmove(d, s, n)); }
void * __tsan_memset(void * d, int c, size_t n); void * __tsan_memset(void * d, int c, size_t n) { rng(d, n, 1); return (memset(d, c, n)); }
#define ATOM(b, T) \
	T __tsan_atomic##b##_load(const volatile T * a, int mo); void __tsan_atomic##b##_store(volatile T * a, T v, int mo); T __tsan_atomic##b##_exchange(volatile T * a, T v, int mo); \
	T __tsan_atomic##b##_fetch_add(volatile T * a, T v, int mo); T __tsan_atomic##b##_fetch_sub(volatile T * a, T v, int mo); T __tsan_atomic##b##_fetch_and(volatile T * a, T v, int mo); \
	T __tsan_atomic##b##_fetch_or(volatile T * a, T v, int mo); T __tsan_atomic##b##_fetch_xor(volatile T * a, T v, int mo); T __tsan_atomic##b##_fetch_nand(volatile T * a, T v, int mo); \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T * a, T * e, T v, int mo, int fmo); int __tsan_atomic##b##_compare_exchange_weak(volatile T * a, T * e, T v, int mo, int fmo); \
	T __tsan_atomic##b##_compare_exchange_val(volatile T * a, T e, T v, int mo, int fmo); \
	T __tsan_atomic##b##_load(const volatile T * a, int mo) { rng((const void *)a, sizeof(T), 0); return (*a); } \
	void __tsan_atomic##b##_store(volatile T * a, T v, int mo) { rng((const void *)a, sizeof(T), 1); *a = v; } \
	T __tsan_atomic##b##_exchange(volatile T * a, T v, int mo) { T o; rng((const void *)a, sizeof(T), 1); o = *a; *a = v; return (o); } \
	T __tsan_atomic##b##_fetch_add(volatile T * a, T v, int mo) { T o; rng((const void *)a, sizeof(T), 1); o = *a; *a = (T)(o + v); return (o); } \
	T __tsan_atomic##b##_fetch_sub(volatile T * a, T v, int mo) { T o; rng((const void *)a, sizeof(T), 1); o = *a; *a = (T)(o - v); return (o); } \
	T __tsan_atomic##b##_fetch_and(volatile T * a, T v, int mo) { T o; rng((const void *)a, sizeof(T), 1); o = *a; *a = o & v; return (o); } \
	T __tsan_atomic##b##_fetch_or(volatile T * a, T v, int mo) { T o; rng((const void *)a, sizeof(T), 1); o = *a; *a = o | v; return (o); } \
	T __tsan_atomic##b##_fetch_xor(volatile T * a, T v, int mo) { T o; rng((const void *)a, sizeof(T), 1); o = *a; *a = o ^ v; return (o); } \
	T __tsan_atomic##b##_fetch_nand(volatile T * a, T v, int mo) { T o; rng((const void *)a, sizeof(T), 1); o = *a; *a = (T)~(o & v); return (o); } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T * a, T * e, T v, int mo, int fmo) { rng((const void *)a, sizeof(T), 1); if (*a == *e) { *a = v; return (1); } *e = *a; return (0); } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T * a, T * e, T v, int mo, int fmo) { return (__tsan_atomic##b##_compare_exchange_strong(a, e, v, mo, fmo)); } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T * a, T e, T v, int mo, int fmo) { T o; rng((const void *)a, sizeof(T), 1); o = *a; if (o == e) *a = v; return (o); }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo); void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo); void __tsan_atomic_signal_fence(int mo) {}

/* ---- locks: wait by letting the others run ---- */
#define W(ret, f, ...) ret __real_##f(__VA_ARGS__); ret __wrap_##f(__VA_ARGS__); ret __wrap_##f(__VA_ARGS__)
W(int, pthread_mutex_lock, pthread_mutex_t * m)
{
	int rc;

	if (me == 0) return (__real_pthread_mutex_lock(m));
	point(m);
	while ((rc = pthread_mutex_trylock(m)) == EBUSY) yield();
	stuck = 0;
	return (rc);
}
W(int, pthread_mutex_unlock, pthread_mutex_t * m) { int rc = __real_pthread_mutex_unlock(m); if (me) point(m); return (rc); }
W(int, pthread_rwlock_rdlock, pthread_rwlock_t * m)
{
	int rc;

	if (me == 0) return (__real_pthread_rwlock_rdlock(m));
	point(m);
	while ((rc = pthread_rwlock_tryrdlock(m)) == EBUSY) yield();
	stuck = 0;
	return (rc);
}
W(int, pthread_rwlock_wrlock, pthread_rwlock_t * m)
{
	int rc;

	if (me == 0) return (__real_pthread_rwlock_wrlock(m));
	point(m);
	while ((rc = pthread_rwlock_trywrlock(m)) == EBUSY) yield();
	stuck = 0;
	return (rc);
}
W(int, pthread_rwlock_unlock, pthread_rwlock_t * m) { int rc = __real_pthread_rwlock_unlock(m); if (me) point(m); return (rc); }
W(int, pthread_cond_wait, pthread_cond_t * c, pthread_mutex_t * m) { if (me == 0) return (__real_pthread_cond_wait(c, m)); __wrap_pthread_mutex_unlock(m); yield(); return (__wrap_pthread_mutex_lock(m)); }
W(int, pthread_once, pthread_once_t * o, void (* f)(void))
{
	int * s = (int *)o;

	if ((char *)o >= __data_start && (char *)o < _end) save((char *)o, sizeof(*s));
	if (me) point(o);
	while (*s == 1) yield();
	stuck = 0;
	if (*s == 0) { *s = 1; f(); if (me) point(o); *s = 2; }
	return (0);
}

/* ---- memory ---- */
static int failalloc, nalloc;
static int
refuse(void)
{
	if (me == 1 && ++nalloc == failalloc) { errno = ENOMEM; return (1); }
	return (0);
}
static void *
track(void * p, size_t n, int map)
{
	if (p == NULL || me == 0) return (p);
	if (nB == MAXB) vf_internal("too many allocations");
	B[nB] = (struct blk){ p, (char *)p + (n ? n : 1), me, ord[me]++, 0, map }; nB++;
	return (p);
}
/* Is p ours to release?  Then it is released at the end of the execution. */
static int
release(void * p)
{
	int b;

	if (p == NULL || me == 0) return (0);
	for (b = nB - 1; b >= 0; b--) if (B[b].lo == p) break;
	if (b < 0) return (0);
	if (B[b].freed) vf_fail("double-free", "memory is released twice");
	B[b].freed = 1;
	return (1);
}
W(void *, malloc, size_t n) { return (refuse() ? NULL : track(__real_malloc(n), n, 0)); }
W(void *, calloc, size_t n, size_t m) { return (refuse() ? NULL : track(__real_calloc(n, m), n * m, 0)); }
W(void, free, void * p) { if (!release(p)) __real_free(p); }
W(void *, realloc, void * p, size_t n)
{
	void * q; int b;

	if (p == NULL) return (__wrap_malloc(n));
	for (b = nB - 1; b >= 0; b--) if (B[b].lo == p && !B[b].freed) break;
	if (b < 0 || me == 0) return (__real_realloc(p, n));
	if ((q = __wrap_malloc(n)) == NULL) return (NULL);
	memcpy(q, p, n < (size_t)(B[b].hi - B[b].lo) ? n : (size_t)(B[b].hi - B[b].lo));
	__wrap_free(p);
	return (q);
}
W(int, posix_memalign, void ** p, size_t al, size_t n) { int rc; if (refuse()) return (ENOMEM); rc = __real_posix_memalign(p, al, n); if (!rc) track(*p, n, 0); return (rc); }
W(void *, aligned_alloc, size_t al, size_t n) { return (refuse() ? NULL : track(__real_aligned_alloc(al, n), n, 0)); }
W(char *, strdup, const char * s) { char * p; if (refuse()) return (NULL); p = __real_strdup(s); return (track(p, strlen(s) + 1, 0)); }
W(void *, mmap, void * a, size_t n, int pr, int fl, int fd, off_t o)
{
	void * p;

	if (refuse()) return (MAP_FAILED);
	p = __real_mmap(a, n, pr, fl, fd, o);
	if (p != MAP_FAILED) track(p, n, 1);
	return (p);
}
W(int, munmap, void * p, size_t n) { return (release(p) ? 0 : __real_munmap(p, n)); }
/* End of an execution: everything as before it. */
static void
reset(void)
{
	int b;

	undo();
	for (b = 0; b < nB; b++) {
		if (B[b].map) __real_munmap(B[b].lo, (size_t)(B[b].hi - B[b].lo)); else __real_free(B[b].lo);
	}
	nB = 0; memset(ord, 0, sizeof(ord)); npoints = 0; hthr = hblk = hcount = 0; spin = stuck = 0; lastaddr = NULL; calcount = 0; nalloc = 0;
}

/* ---- broken accelerated code ---- */
static int k_shani, k_sha2, k_mix;
W(void, SHA256_Transform_shani, uint32_t * st, const uint8_t * bl) { __real_SHA256_Transform_shani(st, bl); if (k_shani) st[3] ^= 4; }
W(void, SHA256_Transform_sse2, uint32_t * st, const uint8_t * bl, uint32_t * w, uint32_t * s) { __real_SHA256_Transform_sse2(st, bl, w, s); if (k_sha2) st[7] ^= 1u << 31; }
W(void, crypto_scrypt_smix_sse2, uint8_t * b, size_t r, uint64_t n, void * v, void * xy) { __real_crypto_scrypt_smix_sse2(b, r, n, v, xy); if (k_mix) b[5] ^= 1; }

/* ---- derivations ---- */
struct job { const char * pw, * salt; uint64_t N; uint32_t r, p; size_t len; int err; };
static const struct job jobs[] = {
	{ "first", "salt one", 2, 1, 1, 32, 0 },
	{ "the second", "another salt", 4, 2, 1, 64, 0 },
	{ "third one", "s3", 8, 1, 2, 20, 0 },
	{ "SECOND", "its salt", 4, 2, 1, 64, 0 },
	{ "like the", "self-test", 16, 8, 1, 64, 0 },
	{ "LIKE the", "selftest", 16, 8, 1, 64, 0 },
	{ "impossible", "s", 3, 1, 1, 32, EINVAL },
	{ "impossible", "s", 4, 1u << 20, 1u << 20, 32, EFBIG } };
static uint8_t want[NELEM(jobs)][64];
static struct res { int rc, err; uint8_t out[80]; } res[MAXT];
static const struct job * myjob[MAXT];
static void
derive(const struct job * j, struct res * r)
{
	uint8_t out[sizeof(r->out)], pw[32], salt[32];	/* nothing the threads share */

	memset(out, 0xa5, sizeof(out)); strcpy((char *)pw, j->pw); strcpy((char *)salt, j->salt); errno = 0;
	r->rc = crypto_scrypt(pw, strlen(j->pw), salt, strlen(j->salt), j->N, j->r, j->p, out, j->len);
	r->err = errno; memcpy(r->out, out, sizeof(out));
}
static void
verify(const struct job * j, const struct res * r, const char * who)
{
	size_t i;

	vf_eval();
	if (j->err) { VF_CHECK(r->rc == -1 && r->err == j->err, "refusal", "%s: an invalid request returned %d, errno %d", who, r->rc, r->err); return; }
	VF_CHECK(r->rc == 0, "failed", "%s: derivation (N=%d r=%d p=%d) failed, errno %d", who, (int)j->N, (int)j->r, (int)j->p, r->err);
	VF_CHECK(!memcmp(r->out, want[j - jobs], j->len), "result", "%s: derivation (N=%d r=%d p=%d) gave a wrong key", who, (int)j->N, (int)j->r, (int)j->p);
	for (i = j->len; i < sizeof(r->out); i++) VF_CHECK(r->out[i] == 0xa5, "overrun", "%s: output beyond its end", who);
}
static void bounds(void);
static void *
thread(void * p)
{
	int o[MAXT], n, t = (int)(intptr_t)p;

	bounds();
	sem_post(&msem);
	while (sem_wait(&sem[t])) ;
	me = t;
	derive(myjob[t], &res[t]);
	done[t] = 1; n = others(o); stuck = 0;
	me = 0;
	if (n == 0) sem_post(&msem);
	else sem_post(&sem[o[mode == CAL || n == 1 ? 0 : vf_choose("next", n)]]);
	return (NULL);
}
static void
run_threads(int first)
{
	pthread_t th[MAXT]; int i, m = mode; pthread_attr_t at;

	mode = OFF;
	sem_init(&msem, 0, 0); pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 << 10);
	for (i = 1; i <= nthr; i++) {
		sem_init(&sem[i], 0, 0); done[i] = 0;
		if (pthread_create(&th[i], &at, thread, (void *)(intptr_t)i)) vf_internal("pthread_create");
		while (sem_wait(&msem)) ;
	}
	mode = m;
	sem_post(&sem[first]);
	while (sem_wait(&msem)) ;
	mode = OFF;
	for (i = 1; i <= nthr; i++) pthread_join(th[i], NULL);
	mode = m;
}

/* ---- configurations ---- */
static uint64_t curconf; static int warm;
static struct { const struct job * j[2]; int n; struct res r[2]; } own;
static void
bounds(void)
{
	pthread_attr_t a; void * lo; size_t sz;

	pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &sz); pthread_attr_destroy(&a);
	stk_lo = lo; stk_hi = (char *)lo + sz;
}
static void *
own_thread(void * p)
{
	int i;

	bounds(); me = MAIN;
	for (i = 0; i < own.n; i++) derive(own.j[i], &own.r[i]);
	me = 0;
	return (NULL);
}
/* In a thread of its own (thread-local state is new each time), with no other running. */
static void
byself(int n, const struct job * a, const struct job * b)
{
	pthread_t t;

	own.n = n; own.j[0] = a; own.j[1] = b;
	if (pthread_create(&t, NULL, own_thread, NULL) || pthread_join(t, NULL)) vf_internal("pthread_create");
}
/* Find out, from a few schedules, what this configuration shares. */
static void
calibrate(uint64_t conf)
{
	static const int steps[] = { 0, 0, 0, 1, 2, 3, 7, 30 }; int i, f = failalloc, fd;

	if (curconf == conf) return;
	if (acc == NULL) {
		if ((fd = open("/dev/null", O_WRONLY)) >= 0) { dup2(fd, 2); close(fd); }
		acc = __real_malloc(GSZ); wr = __real_malloc(GSZ); saved = __real_calloc(GSZ, 1); ulog = __real_malloc(GSZ * sizeof(*ulog));
		for (i = 0; i < NELEM(jobs); i++) if (!jobs[i].err) ref_scrypt((const uint8_t *)jobs[i].pw, strlen(jobs[i].pw), (const uint8_t *)jobs[i].salt, strlen(jobs[i].salt), jobs[i].N, jobs[i].r, jobs[i].p, want[i], jobs[i].len);
	}
	memset(acc, 0, GSZ); memset(wr, 0, GSZ); memset(sharedkey, 0, sizeof(sharedkey));
	for (i = 0; i < NELEM(steps); i++) {
		mode = CAL; calstep = steps[i]; failalloc = 0;
		if (warm) byself(1, &jobs[2], NULL);
		run_threads(1 + i % nthr);
		reset();
	}
	failalloc = f; curconf = conf;
}
static void
explore(uint64_t conf)
{
	int i, first, p; uint64_t h = 0; char who[40];

	conf = vf_hash2(conf, (uint64_t)(warm * 64 + k_shani * 4 + k_sha2 * 2 + k_mix) << 8 | (uint64_t)feat);
	for (i = 1; i <= nthr; i++) conf = vf_hash2(conf, (uint64_t)(myjob[i] - jobs));
	calibrate(conf);
	mode = RUN;
	if (warm) { byself(1, &jobs[2], NULL); verify(&jobs[2], &own.r[0], "before"); }
	first = 1 + vf_choose("first", nthr);
	run_threads(first);
	p = npoints;
	mode = OFF;
	for (i = 1; i <= nthr; i++) {
		snprintf(who, sizeof(who), "thread %d", i);
		if (i == 1 && failalloc && failalloc <= nalloc && !myjob[i]->err && res[i].rc == -1) {
			vf_eval(); VF_CHECK(res[i].err == ENOMEM, "errno", "%s: memory ran out, errno %d", who, res[i].err);
		} else
			verify(myjob[i], &res[i], who);
		h = vf_hash2(h, (uint64_t)(res[i].rc + 2));
	}
	failalloc = 0;
	byself(2, &jobs[0], &jobs[1]);
	for (i = 0; i < 2; i++) verify(&jobs[i], &own.r[i], "afterwards");
	vf_outcome(vf_hash2(h, conf)); vf_seen(vf_trace_hash());
	vf_state(vf_hash2(conf, (uint64_t)p)); vf_trans(vf_trace_hash());
	vf_sample("%d threads, features %d, broken %d%d%d, %s: %d scheduling points, all results right", nthr, feat, k_shani, k_sha2, k_mix, warm ? "initialised" : "first use", p);
	reset();
}
static void
start(int n, int w)
{
	int i;

	nthr = n; warm = w; feat = 31; k_shani = k_sha2 = k_mix = 0; failalloc = 0;
	for (i = 1; i <= n; i++) myjob[i] = &jobs[i - 1];
}
static void first_use(void) { start(2, 0); explore(1); }
static void initialised(void) { start(2, 1); explore(2); }
static const int featsets[] = { 31 & ~F_SHANI, 31 & ~F_SSE2, F_AESNI | F_RDRAND | F_SSSE3, 0 };
static void features(void) { start(2, 0); feat = featsets[vf_choose("features", NELEM(featsets))]; explore(3); }
/* Acceleration which fails its self-test while another thread derives a key. */
static void
broken(void)
{
	int b = 1 + vf_choose("broken", 5);

	start(2, 0);
	if (b == 5) { k_sha2 = 1; feat = 31 & ~F_SHANI; } else { k_shani = b & 1; k_mix = b >> 1 & 1; if (b == 4) k_shani = k_sha2 = k_mix = 1; }
	explore(4);
}
static void three(void) { start(3, 0); explore(5); }
/* One thread's request cannot be satisfied. */
static void refusals(void) { start(2, vf_choose("initialised", 2)); myjob[1] = &jobs[6 + vf_choose("bad", 2)]; explore(6); }
static void nomemory(void) { start(2, vf_choose("initialised", 2)); failalloc = 1 + vf_choose("allocation", 8); explore(7); }
static void same(void) { int k = vf_choose("size", 2); start(2, vf_choose("initialised", 2)); myjob[1] = &jobs[k ? 4 : 1]; myjob[2] = &jobs[k ? 5 : 3]; explore(8); }

static const struct vf_scn scns[] = {
	{ "first-use", first_use, 0, { 2, 3 }, 60, 0 },
	{ "initialised", initialised, 0, { 2, 3 }, 60, 0 },
	{ "features", features, 0, { 2, 2 }, 60, 0 },
	{ "broken-acceleration", broken, 0, { 1, 2 }, 60, 0 },
	{ "three", three, 0, { 1, 2 }, 60, 0 },
	{ "refusals", refusals, 0, { 1, 2 }, 60, 0 },
	{ "no-memory", nomemory, 0, { 1, 2 }, 60, 0 },
	{ "same", same, 0, { 2, 2 }, 60, 0 },
	{ 0 } };
int main(int argc, char ** argv) { return (vf_main(argc, argv, scns)); }
