#include "stubs-sha1.c"
#include "sa.h"
STREAM(sa_sha1, caml_sha1_init(Val_unit), caml_sha1_update, caml_sha1_final(ctx), 1L << 61)
