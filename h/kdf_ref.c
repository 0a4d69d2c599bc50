/* The repository's own reference implementation, under another name. */
#if __has_include("crypto_scrypt-ref.c")
#define crypto_scrypt crypto_scrypt_reference
#include "crypto_scrypt-ref.c"
#else
#include "crypto_scrypt.h"
int crypto_scrypt_reference(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int crypto_scrypt_reference(const uint8_t * a, size_t b, const uint8_t * c, size_t d, uint64_t N, uint32_t r, uint32_t p, uint8_t * o, size_t n)
{ return (crypto_scrypt(a, b, c, d, N, r, p, o, n)); }
#endif
