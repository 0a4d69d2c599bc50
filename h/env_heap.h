/* Owns the process's heap: every malloc/calloc/realloc/memalign of the code
 * under test and of the C library on its behalf is counted, may be made to
 * fail, and is inspected when it is released. */
#ifndef ENV_HEAP_H
#define ENV_HEAP_H
#include <sys/mman.h>
#include <errno.h>
#include <malloc.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "vf.h"

void * __libc_malloc(size_t); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t); void __libc_free(void *); void * __libc_memalign(size_t, size_t);
extern char __executable_start[], etext[];

#define HPMAX 4096
struct hblk { void * p; size_t n; int exe; int map; };
static struct hblk hp_t[HPMAX];
static int hp_n;
static volatile int hp_on;
static long hp_count, hp_fail_at = -1;
static int hp_sticky, hp_failed, hp_overflow;
static void (*hp_release)(const void *, size_t, const char *);

static int
hp_should_fail(void)
{
	long k = hp_count++;
	if (hp_fail_at >= 0 && (k == hp_fail_at || (hp_sticky && k > hp_fail_at))) { hp_failed++; return (1); }
	return (0);
}
static void
hp_add(void * p, size_t n, const void * ra, int map)
{
	if (hp_n == HPMAX) { hp_overflow = 1; return; }
	hp_t[hp_n++] = (struct hblk){ p, n, (const char *)ra >= __executable_start && (const char *)ra < etext, map };
}
static void
hp_drop(void * p, const char * how)
{
	int i;
	for (i = hp_n - 1; i >= 0; i--)
		if (hp_t[i].p == p) break;
	if (i >= 0) { if (hp_release) hp_release(p, hp_t[i].n, how); hp_t[i] = hp_t[--hp_n]; }
	else if (hp_on && hp_release && strcmp(how, "munmap")) hp_release(p, malloc_usable_size(p), how);
}
static void *
hp_new(size_t n, size_t align, int zero, const void * ra)
{
	void * p;
	if (!hp_on) return (align > 16 ? __libc_memalign(align, n) : zero ? __libc_calloc(1, n) : __libc_malloc(n));
	if (hp_should_fail()) { errno = ENOMEM; return (NULL); }
	p = align > 16 ? __libc_memalign(align, n) : __libc_malloc(n);
	if (p == NULL) return (NULL);
	n = malloc_usable_size(p);
	memset(p, zero ? 0 : 0xC7, n);
	hp_add(p, n, ra, 0);
	return (p);
}
#define RA __builtin_return_address(0)
void * malloc(size_t n) { return (hp_new(n, 16, 0, RA)); }
void * calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return (NULL); } return (hp_new(a * b, 16, 1, RA)); }
void free(void * p)
{
	int e = errno;
	if (p == NULL) return;
	if (hp_on || hp_n) hp_drop(p, "free");
	__libc_free(p);
	errno = e;
}
void * realloc(void * p, size_t n)
{
	void * q; size_t m;
	if (!hp_on) { if (hp_n && p) hp_drop(p, "realloc"); return (__libc_realloc(p, n)); }
	if (p == NULL) return (hp_new(n, 16, 0, RA));
	if ((q = hp_new(n, 16, 0, RA)) == NULL) return (NULL);
	m = malloc_usable_size(p);
	memcpy(q, p, m < n ? m : n);
	free(p);
	return (q);
}
int posix_memalign(void ** pp, size_t al, size_t n)
{
	void * p = hp_new(n, al, 0, RA);
	if (p == NULL) return (ENOMEM);
	*pp = p;
	return (0);
}
void * aligned_alloc(size_t al, size_t n) { return (hp_new(n, al, 0, RA)); }
void * memalign(size_t al, size_t n) { return (hp_new(n, al, 0, RA)); }
void * __real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
void * __wrap_mmap(void *, size_t, int, int, int, off_t); int __wrap_munmap(void *, size_t);
void * __wrap_mmap(void * a, size_t n, int prot, int flags, int fd, off_t off)
{
	void * p;
	if (!hp_on) return (__real_mmap(a, n, prot, flags, fd, off));
	if (hp_should_fail()) { errno = ENOMEM; return (MAP_FAILED); }
	p = __real_mmap(a, n, prot, flags, fd, off);
	if (p != MAP_FAILED) hp_add(p, n, RA, 1);
	return (p);
}
int __wrap_munmap(void * p, size_t n)
{
	if (hp_on || hp_n) hp_drop(p, "munmap");
	return (__real_munmap(p, n));
}
static void __attribute__((unused))
hp_start(long fail_at, int sticky)
{
	hp_n = 0; hp_count = 0; hp_failed = 0; hp_overflow = 0; hp_fail_at = fail_at; hp_sticky = sticky; hp_on = 1;
}
#endif
