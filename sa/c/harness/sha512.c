#include "stubs-sha512.c"
#include "sa.h"
STREAM(sa_sha512, caml_sha512_init(Val_unit), caml_sha512_update, caml_sha512_final(ctx), (1L << 61))
STREAM(sa_sha384, caml_sha384_init(Val_unit), caml_sha512_update, caml_sha384_final(ctx), (1L << 61))
