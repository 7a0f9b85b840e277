#undef HAVE_ZLIB
#include "stubs-zlib.c"
#include "sa.h"
void sa_nozlib_deflate_init(void) { value v = caml_zlib_deflateInit(Val_long(6), Val_true); sa_event("returned", v, 0); }
void sa_nozlib_inflate_init(void) { value v = caml_zlib_inflateInit(Val_true); sa_event("returned", v, 0); }
