#include "stubs-blake2.c"
#include "sa.h"
#define B2(name, init, update, final, max, keyed) \
void name(void) { \
  long h = sa_range(1, max), k = keyed ? sa_range(1, max) : 0; \
  sa_ghost("H", h); sa_ghost("K", k); sa_ghost("C", 0); sa_ghost("T", 0); sa_ghost("N", 0); \
  value ctx = init(Val_long(h), sa_seq(k, "K", 0, SA_RO)); \
  long total = 0; \
  sa_ghost("phase", 0); \
  sa_event("start", 0, 0); \
  while (sa_flip()) { \
    long n = sa_range(0, SA_MAXSTR), o = sa_range(0, n), l = sa_range(0, n - o); \
    sa_assume(total + l < (1L << 62)); \
    sa_ghost("N", total + l); \
    update(ctx, sa_seq(n, "S", total - o, SA_RO), Val_long(o), Val_long(l)); \
    total += l; \
    sa_ghost("T", total); \
  } \
  sa_ghost("phase", 1); \
  value res = final(ctx, Val_long(h)); \
  sa_result(res); \
  sa_event("end", 0, 0); \
}
B2(sa_blake2b, caml_blake2b_init, caml_blake2b_update, caml_blake2b_final, 64, 0)
B2(sa_blake2b_keyed, caml_blake2b_init, caml_blake2b_update, caml_blake2b_final, 64, 1)
B2(sa_blake2s, caml_blake2s_init, caml_blake2s_update, caml_blake2s_final, 32, 0)
B2(sa_blake2s_keyed, caml_blake2s_init, caml_blake2s_update, caml_blake2s_final, 32, 1)
