#define HAVE_ZLIB 1
#include "stubs-zlib.c"
#include "sa.h"
static inline long sa_flush(void) { if (sa_flip()) return 0; if (sa_flip()) return 1; if (sa_flip()) return 2; return 3; }
#define STEP(name, init, prim, fini) \
void name(void) { \
  long level = sa_range(-1, 9), header = sa_range(0, 1); \
  sa_ghost("level", level); sa_ghost("header", header); \
  value zs = init; \
  sa_event("init", zs, 0); \
  while (sa_flip()) { \
    long sn = sa_range(0, SA_MAXSTR), so = sa_range(0, sn), l = sa_range(0, sn - so); \
    long dn = sa_range(0, SA_MAXSTR), d = sa_range(0, dn), dl = sa_range(0, dn - d); \
    value src = sa_bytes(sn, SA_RO, "src"), dst = sa_bytes(dn, 0, "dst"); \
    long fl = sa_flush(); \
    sa_ghost("srclen", l); sa_ghost("dstlen", dl); sa_ghost("srcofs", so); sa_ghost("dstofs", d); sa_ghost("flush", fl); \
    value res = prim(zs, src, Val_long(so), Val_long(l), dst, Val_long(d), Val_long(dl), Val_long(fl)); \
    sa_event("step", res, 0); \
    zs = sa_live(zs); \
  } \
  fini(zs); \
  sa_event("fini", 0, 0); \
}
STEP(sa_zlib_deflate, caml_zlib_deflateInit(Val_long(level), Val_long(header)), caml_zlib_deflate, caml_zlib_deflateEnd)
STEP(sa_zlib_inflate, caml_zlib_inflateInit(Val_long(header)), caml_zlib_inflate, caml_zlib_inflateEnd)
