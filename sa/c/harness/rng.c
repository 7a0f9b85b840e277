#include "stubs-rng.c"
#include "sa.h"
void sa_system_rng(void) {
  value h = caml_get_system_rng(Val_unit);
  long n = sa_range(0, SA_MAXSTR), o = sa_range(0, n), l = sa_range(0, n - o);
  value b = sa_bytes(n, 0, "buffer");
  sa_ghost("o", o); sa_ghost("l", l); sa_event("window", b, 0);
  value r = caml_system_rng_random_bytes(h, b, Val_long(o), Val_long(l));
  sa_event("rng", b, r);
  caml_close_system_rng(h);
}
void sa_hardware_rng(void) {
  long n = sa_range(0, SA_MAXSTR), o = sa_range(0, n), l = sa_range(0, n - o);
  value b = sa_bytes(n, 0, "buffer");
  sa_ghost("o", o); sa_ghost("l", l); sa_event("window", b, 0);
  value r = caml_hardware_rng_random_bytes(b, Val_long(o), Val_long(l));
  sa_event("rng", b, r);
}
void sa_hardware_rng_available(void) {
  value r = caml_hardware_rng_available(Val_unit);
  sa_event("available", r, 0);
}
