#ifdef VF_ARM_AUXINFO
#define CPUSUPPORT_HWCAP_ELF_AUX_INFO 1
#else
#define CPUSUPPORT_HWCAP_GETAUXVAL 1
#endif
#define CPUSUPPORT_ARM_AES 1
#define CPUSUPPORT_ARM_SHA256 1
