#include "stubs-ghash.c"
#include "sa.h"
void sa_ghash(void) {
  value ctx = caml_ghash_init(sa_bytes(16, SA_RO, "key"));
  while (sa_flip()) caml_ghash_mult(ctx, sa_bytes(16, 0, "x"));
  sa_event("end", 0, 0);
}
