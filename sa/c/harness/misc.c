#include "stubs-misc.c"
#include "sa.h"
void sa_xor(void) {
  long sn = sa_range(0, SA_MAXSTR), so = sa_range(0, sn), l = sa_range(0, sn - so), dn = sa_range(l, SA_MAXSTR), d = sa_range(0, dn - l);
  sa_ghost("so", so); sa_ghost("d", d); sa_ghost("l", l);
  value src = sa_seq(sn, "A", 0, SA_RO), dst = sa_seq(dn, "B", 0, 0);
  sa_event("pair", src, dst);
  caml_xor_string(src, Val_long(so), dst, Val_long(d), Val_long(l));
  sa_event("end", src, dst);
}
void sa_xor_self(void) {
  long sn = sa_range(0, SA_MAXSTR), so = sa_range(0, sn), l = sa_range(0, sn - so);
  value b = sa_bytes(sn, 0, "buffer");
  caml_xor_string(b, Val_long(so), b, Val_long(so), Val_long(l));
  sa_event("end2", 0, 0);
}
void sa_wipe_z(void) {
  value z = sa_custom(sa_range(1, 1L << 50));
  caml_wipe_z(z);
  sa_event("wiped", z, 0);
}
