#include "stubs-arcfour.c"
#include "sa.h"
void sa_arcfour(void) {
  value ck = caml_arcfour_cook_key(sa_bytes(sa_range(1, 256), SA_RO, "key"));
  while (sa_flip()) {
    long sn = sa_range(0, SA_MAXSTR), so = sa_range(0, sn), l = sa_range(0, sn - so), dn = sa_range(l, SA_MAXSTR), d = sa_range(0, dn - l);
    caml_arcfour_transform(ck, sa_bytes(sn, SA_RO, "src"), Val_long(so), sa_bytes(dn, 0, "dst"), Val_long(d), Val_long(l));
  }
  sa_event("end", 0, 0);
}
void sa_arcfour_inplace(void) {
  value ck = caml_arcfour_cook_key(sa_bytes(sa_range(1, 256), SA_RO, "key"));
  long sn = sa_range(0, SA_MAXSTR), so = sa_range(0, sn), l = sa_range(0, sn - so);
  value b = sa_bytes(sn, 0, "buffer");
  caml_arcfour_transform(ck, b, Val_long(so), b, Val_long(so), Val_long(l));
  sa_event("end", 0, 0);
}
