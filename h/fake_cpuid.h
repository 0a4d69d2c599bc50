/* The answers of the CPUID instruction come from the harness (h_cpuid.c). */
#if defined(__i386__) || defined(__x86_64__)
#include <cpuid.h>
extern void vf_cpuid(unsigned, unsigned, unsigned *);
extern unsigned vf_cpuid_max(unsigned);
extern int vf_cpuid_get(unsigned, unsigned, unsigned *, unsigned *, unsigned *, unsigned *);
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) __cpuid_count(l, 0, a, b, c, d)
#define __cpuid_count(l, s, a, b, c, d) do { unsigned vf_r[4]; vf_cpuid((l), (s), vf_r); (a) = vf_r[0]; (b) = vf_r[1]; (c) = vf_r[2]; (d) = vf_r[3]; } while (0)
#define __get_cpuid_max(e, s) vf_cpuid_max(e)
#define __get_cpuid(l, a, b, c, d) vf_cpuid_get((l), 0, (a), (b), (c), (d))
#define __get_cpuid_count(l, s, a, b, c, d) vf_cpuid_get((l), (s), (a), (b), (c), (d))
#endif
