#include "stubs-blowfish.c"
#include "sa.h"
static value bfkey(void) { return caml_blowfish_cook_key(sa_bytes(sa_range(4, 56), SA_RO, "key")); }
SA_BLOCK(sa_blowfish_enc, caml_blowfish_encrypt, bfkey(), 8)
SA_BLOCK(sa_blowfish_dec, caml_blowfish_decrypt, bfkey(), 8)
