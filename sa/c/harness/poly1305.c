#include "stubs-poly1305.c"
#include "sa.h"
STREAM(sa_poly1305, caml_poly1305_init(sa_bytes(32, SA_RO, "key")), caml_poly1305_update, caml_poly1305_final(ctx), (1L << 62))
