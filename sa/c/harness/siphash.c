#include "stubs-siphash.c"
#include "sa.h"
STREAM(sa_siphash64, caml_siphash_init(sa_bytes(16, SA_RO, "key"), Val_long(8)), caml_siphash_update, caml_siphash_final(ctx, Val_long(8)), (1L << 62))
STREAM(sa_siphash128, caml_siphash_init(sa_bytes(16, SA_RO, "key"), Val_long(16)), caml_siphash_update, caml_siphash_final(ctx, Val_long(16)), (1L << 62))
