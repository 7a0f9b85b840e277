"""P10: announced sizes equal produced sizes."""
from .. import run, oeval as O, classes as C, surface as S
from ..poly import Lin
from . import p22


def linebase(obj, m):
    n = obj.methods[m][0]
    return "src/cryptokit.ml:%d" % n[1][0]


def t_src(r, kind, name, ty):
    I = O.Interp(run.program())
    objs, exs = S.objects(I, kind, name, ty)
    for obj, st, args in objs:
        ms = set(C.public(obj))
        st = C.havoc(I, st, obj)
        for size, res in (("hash_size", "result"), ("tag_size", "finish_and_get_tag")):
            if size in ms and res in ms:
                produced(r, I, name, obj, st, size, res)
        if "blocksize" in ms and "transform" in ms:
            block(r, I, name, obj, st)
    r.count("sources")


def produced(r, I, name, obj, st, size, res):
    n = 0
    for o in C.call(I, obj, size, st, [])[2]:
        if o.exn:
            continue
        for o2 in C.call(I, obj, res, o.st, [])[2]:
            if o2.exn or o2.st.poly.is_bot():
                continue
            n += 1
            if not isinstance(o2.val, O.S):
                raise O.ToolError("result of %s#%s is not a byte sequence" % (name, res))
            L = I.length(o2.st, o2.val)
            r.ob("declared-size", o2.st.poly.entails_eq0(L - o.val), linebase(obj, size), S.norm("%s: %s" % (name, res)),
                 S.norm("%s#%s returns %s bytes, %s announces %s" % (name, res, o2.st.poly.canon(L), size, o2.st.poly.canon(o.val))))
    if n == 0:
        r.ob("produces-result", False, linebase(obj, res), name, "no normal outcome")
    r.count("results compared", n)


def block(r, I, name, obj, st):
    """transform writes exactly the announced block of the destination"""
    for o in C.call(I, obj, "blocksize", st, [])[2]:
        if o.exn:
            continue
        bs = o.val
        s1, args, outs = C.call(I, obj, "transform", o.st)
        src, so, dst, do = args
        seq0 = s1.heap[dst.loc].meta["seq"]
        for o2 in outs:
            if o2.exn or o2.st.poly.is_bot():
                continue
            st2 = o2.st
            L = I.length(st2, dst)
            outside = True
            for a, n in ((Lin(0), do), (do + bs, L - do - bs)):
                w = I.read(st2, dst.loc, a, n)
                if w is None or any(set(q for q, d in at) != {seq0} for lo, hi, at in w):
                    outside = False
            w = I.read(st2, dst.loc, do, bs)
            inside = w is not None and all(seq0 not in set(q for q, d in at) for lo, hi, at in w)
            r.ob("block-written", outside and inside, linebase(obj, "transform"), name,
                 "transform changes exactly the announced block of the destination" if outside and inside else
                 "transform does not write exactly [dst_ofs, dst_ofs + blocksize)")
            r.count("blocks compared")


def t_native(r, c):
    """the native digests and blocks: number of bytes allocated, all of them written, nothing else changed"""
    f, name, fn, args, hw, dist = c
    from ..c import vg
    v = p22.VG(p22.module(f), p22.Graph(distribute=dist, dense=f == "sha3"))
    v.cpuid = (0xFFFFFFFF if hw else 0,) * 4
    try:
        res = fn(v, *args)
    except (vg.Stuck, RecursionError) as e:
        r.unexplored.append("%s: %s at %s" % (name, str(e)[:160], v.where()))
        return
    entry = sorted(x[1:] for x in v.cover if x.startswith("@caml_"))[-1]
    for what, got, want in res:
        msg = None
        if len(got) != len(want):
            msg = "%d bytes instead of %d" % (len(got), len(want))
        else:
            for i, (a, b) in enumerate(zip(got, want)):
                if a is vg.UNDEF:
                    msg = "byte %d of the %s is never written" % (i, what)
                elif outside(v.g, b) and a != b:
                    msg = "byte %d, outside the announced block, is changed" % i
                elif outside(v.g, a) and not outside(v.g, b):
                    msg = "byte %d of the announced block is not written" % i
        r.ob("native-size", msg is None, "%s %s" % (v.locs.funloc(v.m.funcs["@" + entry]), entry), name,
             msg or "exactly the announced %d bytes" % len(want))
        r.count("native results compared")


def outside(g, c):
    """an unchanged byte of the destination"""
    if not isinstance(c, tuple):
        return False
    at = g.support(c, 8)
    return at is not None and all(g.atoms[a][:2] == ("in", "dst") for a in at) and len(at) == 8


def check(ctx):
    prog = run.program()
    p22.preload(ctx)
    nat = {}
    for c in p22.cases(False):
        k = (c[0], c[2].__name__, c[4], c[1].split(" of ")[0], str([a for a in c[3] if isinstance(a, str)]),
             c[3] if c[0] in ("aes", "siphash", "blake2") else 0)
        if c[0] == "blake2" and "256" in c[1] or c[2] is p22.c_blowfish_key or c[0] == "ghash" or c[0] == "aes" and c[3][2]:
            continue
        if str(k) not in nat:
            nat[str(k)] = c
    ctx.run([(t_native, (c,)) for c in nat.values()])
    ctx.run([(t_src, s) for s in S.sources(prog) if s[0] == "class" or S.returns_object(prog, s[2])])
    ctx.need("results compared", 25)
    ctx.need("blocks compared", 8)
    ctx.explanation = (
        "For every object obtainable from the public interface, in every state its methods can reach (mutable fields and buffer "
        "contents unknown), the length of each result is proved equal to the announced hash/tag size, and transform of every block "
        "cipher and chaining mode is proved to change exactly the announced block of the destination. For the native digests and block "
        "primitives, value numbering gives the size of the allocated result, that every byte of it is written and that bytes outside the "
        "announced block keep their value.")
