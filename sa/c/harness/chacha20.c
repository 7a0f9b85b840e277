#include "stubs-chacha20.c"
#include "sa.h"
static value ckey(long k, long v) { return caml_chacha20_cook_key(sa_bytes(k, SA_RO, "key"), sa_bytes(v, SA_RO, "iv"), sa_int64(sa_any())); }
static void xform(value ck) {
  long sn = sa_range(0, SA_MAXSTR), so = sa_range(0, sn), l = sa_range(0, sn - so), dn = sa_range(l, SA_MAXSTR), d = sa_range(0, dn - l);
  caml_chacha20_transform(ck, sa_bytes(sn, SA_RO, "src"), Val_long(so), sa_bytes(dn, 0, "dst"), Val_long(d), Val_long(l));
}
static void extract(value ck) {
  long dn = sa_range(0, SA_MAXSTR), d = sa_range(0, dn), l = sa_range(0, dn - d);
  caml_chacha20_extract(ck, sa_bytes(dn, 0, "dst"), Val_long(d), Val_long(l));
}
static void inplace(value ck) {
  long sn = sa_range(0, SA_MAXSTR), so = sa_range(0, sn), l = sa_range(0, sn - so);
  value b = sa_bytes(sn, 0, "buffer");
  caml_chacha20_transform(ck, b, Val_long(so), b, Val_long(so), Val_long(l));
}
#define CC(name, K, V) \
void name(void) { \
  value ck = ckey(K, V); \
  sa_result(ck); \
  while (sa_flip()) { \
    if (sa_flip()) xform(ck); \
    else if (sa_flip()) extract(ck); \
    else inplace(ck); \
  } \
  sa_event("end", 0, 0); \
}
CC(sa_chacha20_16_8, 16, 8)
CC(sa_chacha20_16_12, 16, 12)
CC(sa_chacha20_32_8, 32, 8)
CC(sa_chacha20_32_12, 32, 12)
