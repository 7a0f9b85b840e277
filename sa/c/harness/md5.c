#include "stubs-md5.c"
#include "sa.h"
STREAM(sa_md5, caml_md5_init(Val_unit), caml_md5_update, caml_md5_final(ctx), (1L << 62))
