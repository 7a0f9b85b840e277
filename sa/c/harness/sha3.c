#include "stubs-sha3.c"
#include "sa.h"
#define SHA3(name, size) \
STREAM(name, caml_sha3_init(Val_long(size)), caml_sha3_absorb, (sa_flip() ? caml_sha3_extract(Val_true, ctx) : caml_sha3_extract(Val_false, ctx)), (1L << 62)) \
void name##_wipe(void) { value ctx = caml_sha3_init(Val_long(size)); caml_sha3_wipe(ctx); caml_sha3_wipe(ctx); sa_event("end", 0, 0); }
SHA3(sa_sha3_224, 224)
SHA3(sa_sha3_256, 256)
SHA3(sa_sha3_384, 384)
SHA3(sa_sha3_512, 512)
