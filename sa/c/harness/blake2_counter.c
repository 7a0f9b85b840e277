#include "stubs-blake2.c"
#include "sa.h"
/* the byte counter of the compression functions, from any value */
void sa_blake2b_counter(void) {
  struct blake2b s;
  unsigned char block[BLAKE2b_BLOCKSIZE];
  value key = sa_bytes(0, SA_RO, "key");
  blake2b_init(&s, 64, 0, (unsigned char *) String_val(key));
  memset(block, 0, sizeof block);
  /* a counter close to a multiple of 2^64 on both sides, and elsewhere */
  long d = sa_range(-(1L << 62), 1L << 62), b = sa_range(0, 1L << 61), n = sa_range(0, BLAKE2b_BLOCKSIZE);
  uint64_t base = sa_flip() ? 0 : (uint64_t) 1 << 63;
  s.len[0] = base + (uint64_t) d;
  s.len[1] = b;
  blake2b_compress(&s, block, n, sa_flip());
  sa_prove(s.len[0] == base + (uint64_t) d + (uint64_t) n, "counter");
  if (base == 0 && d < 0 && d + n >= 0) sa_prove(s.len[1] == b + 1, "counter");
  else sa_prove(s.len[1] == b, "counter");
  sa_event("end", 0, 0);
}
void sa_blake2s_counter(void) {
  struct blake2s s;
  unsigned char block[BLAKE2s_BLOCKSIZE];
  value key = sa_bytes(0, SA_RO, "key");
  blake2s_init(&s, 32, 0, (unsigned char *) String_val(key));
  memset(block, 0, sizeof block);
  long a = sa_range(0, (1L << 32) - 1), b = sa_range(0, 1L << 31), n = sa_range(0, BLAKE2s_BLOCKSIZE);
  s.len[0] = a;
  s.len[1] = b;
  blake2s_compress(&s, block, n, sa_flip());
  sa_prove((long) s.len[0] + ((long) s.len[1] << 32) == a + (b << 32) + n, "counter");
  sa_event("end", 0, 0);
}
