/* analysis overlay: the runtime's own header, with the root-registration
   macros replaced by calls the analyser understands */
#include_next <caml/memory.h>
#ifndef SA_CAML_MEMORY
#define SA_CAML_MEMORY
extern void sa_root(value *, long);
extern long sa_mark(void);
extern void sa_leave(long);
#undef CAMLparam0
#undef CAMLparam1
#undef CAMLparam2
#undef CAMLparam3
#undef CAMLparam4
#undef CAMLparam5
#undef CAMLparamN
#undef CAMLxparam1
#undef CAMLxparam2
#undef CAMLxparam3
#undef CAMLxparam4
#undef CAMLxparam5
#undef CAMLxparamN
#undef CAMLlocal1
#undef CAMLlocal2
#undef CAMLlocal3
#undef CAMLlocal4
#undef CAMLlocal5
#undef CAMLlocalN
#undef CAMLreturn0
#undef CAMLreturnT
#undef CAMLreturn
#undef CAMLdrop
#undef Begin_root
#undef Begin_roots1
#undef Begin_roots2
#undef Begin_roots3
#undef Begin_roots4
#undef Begin_roots5
#undef Begin_roots_block
#undef End_roots
#define CAMLparam0() long caml__mark = sa_mark()
#define CAMLxparam1(a) sa_root(&a, 1)
#define CAMLxparam2(a,b) sa_root(&a, 1); sa_root(&b, 1)
#define CAMLxparam3(a,b,c) CAMLxparam2(a,b); sa_root(&c, 1)
#define CAMLxparam4(a,b,c,d) CAMLxparam3(a,b,c); sa_root(&d, 1)
#define CAMLxparam5(a,b,c,d,e) CAMLxparam4(a,b,c,d); sa_root(&e, 1)
#define CAMLxparamN(x,n) sa_root(x, n)
#define CAMLparam1(a) CAMLparam0(); CAMLxparam1(a)
#define CAMLparam2(a,b) CAMLparam0(); CAMLxparam2(a,b)
#define CAMLparam3(a,b,c) CAMLparam0(); CAMLxparam3(a,b,c)
#define CAMLparam4(a,b,c,d) CAMLparam0(); CAMLxparam4(a,b,c,d)
#define CAMLparam5(a,b,c,d,e) CAMLparam0(); CAMLxparam5(a,b,c,d,e)
#define CAMLparamN(x,n) CAMLparam0(); CAMLxparamN(x,n)
#define CAMLlocal1(a) value a = Val_unit; sa_root(&a, 1)
#define CAMLlocal2(a,b) CAMLlocal1(a); CAMLlocal1(b)
#define CAMLlocal3(a,b,c) CAMLlocal2(a,b); CAMLlocal1(c)
#define CAMLlocal4(a,b,c,d) CAMLlocal3(a,b,c); CAMLlocal1(d)
#define CAMLlocal5(a,b,c,d,e) CAMLlocal4(a,b,c,d); CAMLlocal1(e)
#define CAMLlocalN(x,n) value x[(n)]; { long sa_i_; for (sa_i_ = 0; sa_i_ < (n); sa_i_++) x[sa_i_] = Val_unit; } sa_root(x, n)
#define CAMLdrop sa_leave(caml__mark)
#define CAMLreturn0 do { sa_leave(caml__mark); return; } while (0)
#define CAMLreturnT(t, r) do { t caml__tmp = (r); sa_leave(caml__mark); return caml__tmp; } while (0)
#define CAMLreturn(r) CAMLreturnT(value, r)
#define Begin_roots1(a) { long caml__mark = sa_mark(); sa_root(&a, 1);
#define Begin_root Begin_roots1
#define Begin_roots2(a,b) { long caml__mark = sa_mark(); sa_root(&a, 1); sa_root(&b, 1);
#define Begin_roots3(a,b,c) { long caml__mark = sa_mark(); sa_root(&a, 1); sa_root(&b, 1); sa_root(&c, 1);
#define Begin_roots4(a,b,c,d) { long caml__mark = sa_mark(); sa_root(&a, 1); sa_root(&b, 1); sa_root(&c, 1); sa_root(&d, 1);
#define Begin_roots5(a,b,c,d,e) { long caml__mark = sa_mark(); sa_root(&a, 1); sa_root(&b, 1); sa_root(&c, 1); sa_root(&d, 1); sa_root(&e, 1);
#define Begin_roots_block(x,n) { long caml__mark = sa_mark(); sa_root(x, n);
#define End_roots() sa_leave(caml__mark); }
#endif
