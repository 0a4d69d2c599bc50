/* Every allocation of the code under test, counted, bounded by unmapped pages
 * on request, failed on request, inspected when it is released. */
#ifndef ENV_ALLOC_H
#define ENV_ALLOC_H
#include <sys/mman.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vf.h"

struct al { void * p; size_t n; int kind; uint8_t * base; size_t total; };
#define ALMAX 4096
static struct al al_t[ALMAX];
static int al_n;
static int al_on, al_guard;
static long al_count, al_fail_at = -1, al_unmaps, al_unmap_fail_at = -1;
static int al_sticky, al_failed, al_unmap_failed;
static size_t al_cap, al_maxreq, al_curbytes, al_peak;
static void (*al_release)(void * p, size_t n, const char * how);
static const char * al_bad;

void * __real_malloc(size_t); void * __real_calloc(size_t, size_t); void * __real_realloc(void *, size_t); void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t); void * __real_aligned_alloc(size_t, size_t); char * __real_strdup(const char *);
void * __real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
void * __wrap_malloc(size_t); void * __wrap_calloc(size_t, size_t); void * __wrap_realloc(void *, size_t); void __wrap_free(void *);
int __wrap_posix_memalign(void **, size_t, size_t); void * __wrap_aligned_alloc(size_t, size_t); char * __wrap_strdup(const char *);
void * __wrap_mmap(void *, size_t, int, int, int, off_t); int __wrap_munmap(void *, size_t);

static int
al_find(void * p) { int i; for (i = al_n - 1; i >= 0; i--) if (al_t[i].p == p) return (i); return (-1); }
static int
al_should_fail(size_t n)
{
	long k = al_count++;
	if (n > al_maxreq) al_maxreq = n;
	if (al_cap && n > al_cap) { al_failed = 1; return (1); }
	if (al_fail_at >= 0 && (k == al_fail_at || (al_sticky && k > al_fail_at))) { al_failed = 1; return (1); }
	return (0);
}
static void
al_add(void * p, size_t n, int kind, void * base, size_t total)
{
	if (al_n == ALMAX) vf_internal("allocation table full");
	al_t[al_n++] = (struct al){ p, n, kind, base, total };
	al_curbytes += n; if (al_curbytes > al_peak) al_peak = al_curbytes;
}
static void *
al_get(size_t n, size_t align, int zero)
{
	uint8_t * p; size_t tot, i;
	if (!al_guard) {
		if (align > 16) { void * q; if (__real_posix_memalign(&q, align, n)) return (NULL); p = q; }
		else p = __real_malloc(n);
		if (p == NULL) return (NULL);
		memset(p, zero ? 0 : 0xC7, zero || n < 65536 ? n : 65536);
		al_add(p, n, 1, NULL, 0);
		return (p);
	}
	if (align < 16) align = 16;
	tot = (n + align + 4095) / 4096 * 4096 + 4096;
	{ uint8_t * b = __real_mmap(NULL, tot + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (b == MAP_FAILED) return (NULL);
	if (mprotect(b + 4096, tot - 4096, PROT_READ | PROT_WRITE)) { __real_munmap(b, tot + 4096); return (NULL); }
	p = (uint8_t *)(((uintptr_t)(b + tot) - n) & ~(uintptr_t)(align - 1));
	if (n < 65536 && !zero) memset(b + 4096, 0xC7, tot - 4096);
	else { for (i = 1; i <= 64 && p - i >= b + 4096; i++) p[-(long)i] = 0xC7; for (i = n; p + i < b + tot; i++) p[i] = 0xC7; }
	al_add(p, n, 1, b, tot + 4096); }
	return (p);
}
static void
al_drop(int i, const char * how)
{
	struct al a = al_t[i]; size_t k;
	if (a.base && a.kind == 1) {
		for (k = 1; k <= 64 && (uint8_t *)a.p - k >= a.base + 4096; k++) if (((uint8_t *)a.p)[-(long)k] != 0xC7) al_bad = "write before an allocated buffer";
		for (k = a.n; (uint8_t *)a.p + k < a.base + a.total - 4096; k++) if (((uint8_t *)a.p)[k] != 0xC7) al_bad = "write after an allocated buffer";
	}
	if (al_release) al_release(a.p, a.n, how);
	al_t[i] = al_t[--al_n];
	al_curbytes -= a.n;
	if (a.kind == 1) { if (a.base) __real_munmap(a.base, a.total); else __real_free(a.p); }
	else __real_munmap(a.base ? a.base : a.p, a.base ? a.total : a.n);
}
void * __wrap_malloc(size_t n)
{
	if (!al_on) return (__real_malloc(n));
	if (al_should_fail(n)) { errno = ENOMEM; return (NULL); }
	{ void * p = al_get(n, 16, 0); if (!p) errno = ENOMEM; return (p); }
}
void * __wrap_calloc(size_t a, size_t b)
{
	size_t n = a * b;
	if (!al_on) return (__real_calloc(a, b));
	if ((b && n / b != a) || al_should_fail(n)) { errno = ENOMEM; return (NULL); }
	{ void * p = al_get(n, 16, 1); if (!p) errno = ENOMEM; return (p); }
}
void __wrap_free(void * p)
{
	int i;
	if (p == NULL) return;
	i = al_find(p);
	if (i < 0) { __real_free(p); return; }
	if (al_t[i].kind != 1) vf_fail("bad-free", "free() of a mapping");
	al_drop(i, "free");
}
void * __wrap_realloc(void * p, size_t n)
{
	int i = p ? al_find(p) : -1; void * q;
	if (!al_on || (p && i < 0)) {
		if (i >= 0) vf_internal("realloc outside");
		return (__real_realloc(p, n));
	}
	if (al_should_fail(n)) { errno = ENOMEM; return (NULL); }
	if (!(q = al_get(n, 16, 0))) { errno = ENOMEM; return (NULL); }
	if (p) { i = al_find(p); memcpy(q, p, al_t[i].n < n ? al_t[i].n : n); al_drop(i, "realloc"); }
	return (q);
}
int __wrap_posix_memalign(void ** pp, size_t al, size_t n)
{
	void * p;
	if (!al_on) return (__real_posix_memalign(pp, al, n));
	if (al_should_fail(n)) return (ENOMEM);
	if (!(p = al_get(n, al, 0))) return (ENOMEM);
	*pp = p;
	return (0);
}
void * __wrap_aligned_alloc(size_t al, size_t n)
{
	void * p;
	if (!al_on) return (__real_aligned_alloc(al, n));
	if (al_should_fail(n)) { errno = ENOMEM; return (NULL); }
	if (!(p = al_get(n, al, 0))) errno = ENOMEM;
	return (p);
}
char * __wrap_strdup(const char * s)
{
	char * p;
	if (!al_on) return (__real_strdup(s));
	if (!(p = __wrap_malloc(strlen(s) + 1))) return (NULL);
	return (strcpy(p, s));
}
void * __wrap_mmap(void * a, size_t n, int prot, int flags, int fd, off_t off)
{
	void * p; size_t r = (n + 4095) / 4096 * 4096;
	if (!al_on) return (__real_mmap(a, n, prot, flags, fd, off));
	if (al_should_fail(n)) { errno = ENOMEM; return (MAP_FAILED); }
	if (a || fd != -1 || !al_guard || n == 0 || r + 8192 < r) {
		p = __real_mmap(a, n, prot, flags, fd, off);
		if (p != MAP_FAILED) al_add(p, n, 2, NULL, 0);
		return (p);
	}
	{ uint8_t * b = __real_mmap(NULL, r + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (b == MAP_FAILED) { errno = ENOMEM; return (MAP_FAILED); }
	if (mprotect(b + 4096, r, prot)) { __real_munmap(b, r + 8192); errno = ENOMEM; return (MAP_FAILED); }
	/* end at the guard page when alignment allows */
	al_add(b + 4096, n, 2, b, r + 8192);
	return (b + 4096); }
}
int __wrap_munmap(void * p, size_t n)
{
	int i = al_find(p);
	if (i < 0) return (__real_munmap(p, n));
	if (al_on) { long k = al_unmaps++; if (k == al_unmap_fail_at) { al_unmap_failed = 1; errno = ENOMEM; return (-1); } }
	if (al_t[i].n != n) vf_fail("bad-unmap", "munmap of %zu bytes of a mapping of %zu", n, al_t[i].n);
	al_drop(i, "munmap");
	return (0);
}
/* Start watching; fail the k-th allocation (k < 0: none), and all later ones if sticky. */
static void __attribute__((unused))
al_start(long k, int sticky)
{
	al_count = al_unmaps = 0; al_fail_at = k; al_sticky = sticky; al_failed = al_unmap_failed = 0; al_unmap_fail_at = -1;
	al_cap = al_maxreq = 0; al_bad = NULL; al_peak = al_curbytes = 0; al_on = 1;
	if (al_n) vf_internal("allocations left over from before");
}
/* Stop; forget (really releasing) what is left; returns how many were left. */
static int __attribute__((unused))
al_stop(void)
{
	int left = al_n; size_t i;
	al_on = 0;
	for (i = 0; i < 1; i++) if (left && al_release) break;
	while (al_n) al_drop(al_n - 1, "leak");
	return (left);
}
#endif
