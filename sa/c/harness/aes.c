#include "stubs-aes.c"
#include "sa.h"
#define AES(N) \
void sa_aes_keys##N(void) { \
  value ek = caml_aes_cook_encrypt_key(sa_bytes(N, SA_RO, "key")); \
  sa_result(ek); \
  value dk = caml_aes_cook_decrypt_key(sa_bytes(N, SA_RO, "key")); \
  sa_result(dk); \
} \
SA_BLOCK(sa_aes_enc##N, caml_aes_encrypt, caml_aes_cook_encrypt_key(sa_bytes(N, SA_RO, "key")), 16) \
SA_BLOCK(sa_aes_dec##N, caml_aes_decrypt, caml_aes_cook_decrypt_key(sa_bytes(N, SA_RO, "key")), 16)
AES(16)
AES(24)
AES(32)
