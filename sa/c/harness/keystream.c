#include "stubs-chacha20.c"
#include "sa.h"
/* the key stream of ChaCha20: which byte of it every byte of output uses, which counter makes every block */
static void run(long K, long V, int wide, int mode) {
  long c = wide ? sa_range(0, (1L << 62) + ((1L << 62) - 1)) : sa_range(0, (1L << 32) - 1);
  long pos = 0;
  sa_ghost("c0", c); sa_ghost("n", 0); sa_ghost("K", K); sa_ghost("V", V);
  value ck = caml_chacha20_cook_key(sa_seq(K, "key", 0, SA_RO), sa_seq(V, "iv", 0, SA_RO), sa_int64(c));
  sa_event("start", 0, 0);
  while (sa_flip()) {
    long l = sa_range(0, 1L << 60), d = sa_range(0, 1L << 53), so = sa_range(0, 1L << 53);
    sa_assume(l <= (1L << 61) - pos);
    value dst = mode == 2 ? sa_seq(so + l, "S", 0, 0) : sa_bytes(d + l, 0, "dst");
    if (mode == 0) {
      caml_chacha20_extract(ck, dst, Val_long(d), Val_long(l));
      sa_stream(dst, d, l, "", 0, pos, "order");
    } else if (mode == 1) {
      caml_chacha20_transform(ck, sa_seq(so + l, "S", 0, SA_RO), Val_long(so), dst, Val_long(d), Val_long(l));
      sa_stream(dst, d, l, "S", so, pos, "order");
    } else {
      caml_chacha20_transform(ck, dst, Val_long(so), dst, Val_long(so), Val_long(l));
      sa_stream(dst, so, l, "S", so, pos, "order");
    }
    pos += l;
  }
  sa_event("end", 0, 0);
}
void sa_ks_16_8(void) { run(16, 8, 1, 0); }
void sa_ks_16_12(void) { run(16, 12, 0, 1); }
void sa_ks_32_8(void) { run(32, 8, 1, 1); }
void sa_ks_32_12(void) { run(32, 12, 0, 0); }
void sa_ks_inplace(void) { run(32, 12, 0, 2); }
