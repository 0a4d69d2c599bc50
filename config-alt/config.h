/* A platform without mmap, posix_memalign and sysinfo, but with sysctl. */
#define HAVE_INTTYPES_H 1
#define HAVE_OPENSSL_AES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_PARAM_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_SYSCTL_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#ifdef VF_ALT2
/* ... or with posix_memalign and without mmap. */
#define HAVE_POSIX_MEMALIGN 1
#endif
#define PACKAGE_NAME "scrypt"
#define PACKAGE_VERSION "1.3.3-head"
#define STDC_HEADERS 1
#define VERSION "1.3.3-head"
