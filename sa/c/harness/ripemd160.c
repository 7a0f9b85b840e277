#include "stubs-ripemd160.c"
#include "sa.h"
STREAM(sa_ripemd160, caml_ripemd160_init(Val_unit), caml_ripemd160_update, caml_ripemd160_final(ctx), 1L << 61)
