/* CPU features decided by the harness (before their first use in a process). */
#ifndef ENV_CPU_H
#define ENV_CPU_H
#define F_SSE2 1
#define F_SSSE3 2
#define F_SHANI 4
#define F_AESNI 8
#define F_RDRAND 16
static int feat __attribute__((unused)) = 31;
#ifdef VF_ARM
/* SHA-256 instructions with F_SHANI, AES instructions with F_AESNI; every
 * other bit of the word, and every bit of the other words, says the opposite. */
#include <sys/auxv.h>
#ifdef VF_ARM32
#define ARM_WORD AT_HWCAP2
#define ARM_AES (1ul << 0)
#define ARM_SHA (1ul << 3)
#else
#define ARM_WORD AT_HWCAP
#define ARM_AES (1ul << 3)
#define ARM_SHA (1ul << 6)
#endif
static int arm_noise __attribute__((unused)), arm_auxfail __attribute__((unused));
static unsigned long __attribute__((unused))
arm_word(unsigned long w)
{
	unsigned long noise = arm_noise ? ~0ul : 0;
	return (w != ARM_WORD ? noise : (noise & ~(ARM_AES | ARM_SHA)) | (feat & F_SHANI ? ARM_SHA : 0) | (feat & F_AESNI ? ARM_AES : 0));
}
unsigned long __wrap_getauxval(unsigned long); int __wrap_elf_aux_info(int, void *, int);
unsigned long __attribute__((weak)) __wrap_getauxval(unsigned long w) { return (arm_word(w)); }
int __attribute__((weak)) __wrap_elf_aux_info(int w, void * b, int n) { if (arm_auxfail) { memset(b, 0xff, (size_t)n); return (arm_auxfail); } if (n != (int)sizeof(unsigned long)) return (22); *(unsigned long *)b = arm_word((unsigned long)w); return (0); }
#endif
#if !defined(VF_ALT) && !defined(VF_ARM)
#define DET(f, bit) int __real_cpusupport_x86_##f##_detect_1(void); int __wrap_cpusupport_x86_##f##_detect_1(void); \
	int __wrap_cpusupport_x86_##f##_detect_1(void) { return ((feat & (bit)) ? __real_cpusupport_x86_##f##_detect_1() : 0); }
DET(sse2, F_SSE2)
DET(ssse3, F_SSSE3)
DET(shani, F_SHANI)
DET(aesni, F_AESNI)
DET(rdrand, F_RDRAND)
#endif
/* SHA: 0 SHANI, 1 SSE2, 2 portable.  AES: 0 AESNI, 1 OpenSSL.  mix: 0 SSE2, 1 portable */
static void __attribute__((unused))
feat_sha(int k) { feat = k == 0 ? 31 : k == 1 ? 31 & ~F_SHANI : F_AESNI | F_RDRAND | F_SSSE3; }
static const char * const sha_name[] __attribute__((unused)) =
#ifdef VF_ARM
	{ "ARM", "SSE2", "portable" };
#else
	{ "SHANI", "SSE2", "portable" };
#endif
#endif
