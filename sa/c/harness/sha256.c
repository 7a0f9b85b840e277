#include "stubs-sha256.c"
#include "sa.h"
STREAM(sa_sha256, caml_sha256_init(Val_unit), caml_sha256_update, caml_sha256_final(ctx), 1L << 61)
STREAM(sa_sha224, caml_sha224_init(Val_unit), caml_sha256_update, caml_sha224_final(ctx), 1L << 61)
