/* The alternative configuration has sysctl; a harness may define its own. */
#include <stddef.h>
#include <errno.h>
int sysctl(const int *, unsigned int, void *, size_t *, const void *, size_t);
int __attribute__((weak)) sysctl(const int * m, unsigned int n, void * o, size_t * l, const void * s, size_t k) { (void)m; (void)n; (void)o; (void)l; (void)s; (void)k; errno = ENOSYS; return (-1); }
