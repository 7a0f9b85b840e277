/* intrinsics of the analyser, used by the harnesses (never linked or run) */
#ifndef SA_H
#define SA_H
#include <caml/mlvalues.h>
#include <caml/alloc.h>
#include <caml/memory.h>
extern long sa_any(void);                 /* any word */
extern long sa_range(long lo, long hi);   /* any integer in [lo, hi] */
extern int sa_flip(void);                 /* nondeterministic choice */
extern void sa_assume(long);
extern void sa_prove(long, const char *rule);
#define SA_RO 1                           /* must not be written */
#define SA_SECRET 2
extern value sa_bytes(long len, int flags, const char *name);             /* an OCaml string with unknown bytes */
extern value sa_seq(long len, const char *name, long base, int flags);    /* bytes name[base .. base+len) */
extern void sa_expect_seq(value v, long ofs, long len, const char *name, long base, const char *rule);
extern long sa_len(value);
extern void sa_kernel(const char *tag);
extern void sa_event(const char *tag, long a, long b);

extern void sa_ghost(const char *name, long v);
#define SA_MAXSTR (((1L << 54) - 1) * 8 - 1)
/* a window [ofs, ofs+len) of a fresh byte string */
#define SA_SIZE(n) long n = sa_range(0, SA_MAXSTR)
/* a fixed-size block of a source and of a destination, distinct strings */
#define SA_BLOCK(name, prim, mkkey, B) \
void name(void) { \
  value key = mkkey; \
  long sn = sa_range(B, SA_MAXSTR), so = sa_range(0, sn - B), dn = sa_range(B, SA_MAXSTR), d = sa_range(0, dn - B); \
  value src = sa_bytes(sn, SA_RO, "src"), dst = sa_bytes(dn, 0, "dst"); \
  prim(key, src, Val_long(so), dst, Val_long(d)); \
  sa_event("end", 0, 0); \
} \
void name##_inplace(void) { \
  value key = mkkey; \
  long sn = sa_range(B, SA_MAXSTR), so = sa_range(0, sn - B), d = sa_range(0, sn - B); \
  value src = sa_bytes(sn, 0, "buffer"); \
  prim(key, src, Val_long(so), src, Val_long(d)); \
  sa_event("end", 0, 0); \
}
/* a hash: any sequence of updates, then the result */
#define STREAM(name, init, update, final, bound) \
void name(void) { \
  value ctx = init; \
  long total = 0; \
  sa_ghost("T", 0); sa_ghost("N", 0); sa_ghost("C", 0); sa_ghost("phase", 0); \
  sa_event("start", 0, 0); \
  while (sa_flip()) { \
    long n = sa_range(0, SA_MAXSTR), o = sa_range(0, n), l = sa_range(0, n - o); \
    sa_assume(total + l < (bound)); \
    sa_ghost("N", total + l); \
    update(ctx, sa_seq(n, "S", total - o, SA_RO), Val_long(o), Val_long(l)); \
    total += l; \
    sa_ghost("T", total); \
  } \
  sa_ghost("phase", 1); \
  value res = final; \
  sa_result(res); \
  sa_event("end", 0, 0); \
}
/* bytes [ofs, ofs+len) of v are KS[pos ..), xor name[base ..) unless name is empty */
extern void sa_stream(value v, long ofs, long len, const char *name, long base, long pos, const char *rule);
extern void sa_result(value);
extern value sa_live(value);
extern value sa_int64(long);
extern value sa_custom(long nwords);
#endif
