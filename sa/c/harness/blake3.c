#include "stubs-blake3.c"
#include "sa.h"
STREAM(sa_blake3_keyed, caml_blake3_init(sa_bytes(32, SA_RO, "key")), caml_blake3_update, caml_blake3_extract(ctx, Val_long(sa_range(0, SA_MAXSTR))), (1L << 62))
STREAM(sa_blake3, caml_blake3_init(sa_bytes(0, SA_RO, "key")), caml_blake3_update, caml_blake3_extract(ctx, Val_long(sa_range(0, SA_MAXSTR))), (1L << 62))
void sa_blake3_wipe(void) { value ctx = caml_blake3_init(sa_bytes(32, SA_RO, "key")); caml_blake3_wipe(ctx); caml_blake3_wipe(ctx); sa_event("end", 0, 0); }
