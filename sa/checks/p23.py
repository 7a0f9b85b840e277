"""P23: the native MAC primitives are the specified functions of key and message."""
from . import b3tree, p22, poly1305


def t_poly(r, cases, blk):
    try:
        m = p22.module("poly1305")
    except Exception as e:
        r.unexplored.append("stubs-poly1305.c: %s" % str(e)[:200])
        return
    poly1305.t_poly(r, m, cases, blk)


def check(ctx):
    p22.preload(ctx)
    th = ctx.tier == "thorough"
    cs = [c for c in p22.cases(th) if c[0] in ("siphash", "ghash") or c[0] == "blake2" and "key of 0 " not in c[1] or
          c[0] == "blake3" and "keyed" in c[1]]
    pc = [(n, ()) for n in range(16)] + [(5, (1, 3)), (15, (8,)), (15, (0, 14))]
    if th:
        pc += [(n, (k,)) for n in range(2, 16) for k in (1, n // 2, n - 1)]
    k = 10
    ctx.run([(t_poly, (pc[i::k], i == 0)) for i in range(k)] + [(p22.t_case, c) for c in cs] +
            b3tree.tasks("standard", b3tree.short_lists(th)[::4], keyed=(1,)))
    ctx.need("cells compared", 100)
    ctx.explanation = ("Value graphs of keyed BLAKE2b/BLAKE2s, keyed BLAKE3, SipHash-2-4 and GHASH, for all keys and messages of the listed "
                       "lengths, compared with the value graphs of their specifications; Poly1305 as integer polynomials with carries as atoms: every "
                       "block step from every state within an inductive bound, and every completion, congruent modulo 2^130 - 5")
