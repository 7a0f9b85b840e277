#include "stubs-des.c"
#include "sa.h"
static value deskey(int dir) { long n = sa_range(8, SA_MAXSTR), o = sa_range(0, n - 8); return caml_des_cook_key(sa_bytes(n, SA_RO, "key"), Val_long(o), Val_int(dir)); }
SA_BLOCK(sa_des_enc, caml_des_transform, deskey(0), 8)
SA_BLOCK(sa_des_dec, caml_des_transform, deskey(1), 8)
