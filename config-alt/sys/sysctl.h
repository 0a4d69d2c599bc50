#ifndef VF_SYSCTL_H
#define VF_SYSCTL_H
#include <stddef.h>
#define CTL_HW 6
#define HW_USERMEM 6
#define HW_MEMSIZE 24
int sysctl(const int *, unsigned int, void *, size_t *, const void *, size_t);
#endif
