"""P18: the native operations the chaining modes are made of: xor of windows, and
block transformations that accept the same buffer as input and output and are
inverse to each other (both equal to the standard)."""
from ..c import vg
from . import p22
from .p22 import V, cells


def c_xor(v, n, so, do, size):
    src, dst = v.string("src", size), v.string("dst", size)
    S, D = cells(v, src), cells(v, dst)
    v.call("@caml_xor_string", [src, V(so), dst, V(do), V(n)])
    want = D[:do] + [vg.xorb(v.g, a, b) for a, b in zip(S[so:so + n], D[do:do + n])] + D[do + n:]
    return [("destination", cells(v, dst), want), ("source", cells(v, src), S)]


def c_xor_same(v, n, so, do):
    """two windows of one buffer that do not overlap"""
    buf = v.string("buf", max(so, do) + n + 3)
    B = cells(v, buf)
    v.call("@caml_xor_string", [buf, V(so), buf, V(do), V(n)])
    want = list(B)
    for i in range(n):
        want[do + i] = vg.xorb(v.g, B[so + i], B[do + i])
    return [("buffer", cells(v, buf), want)]


def t_xor(r, so, do, lens):
    for n in lens:
        p22.one_case(r, "misc", "xor_string of %d bytes, offsets %d and %d" % (n, so, do), c_xor, (n, so, do, n + 20), 0, 64)


def t_xor_same(r, lens):
    for n in lens:
        for so, do in ((0, n), (n, 0), (3, n + 5), (n + 8, 8), (2, n + 10)):
            p22.one_case(r, "misc", "xor_string of %d bytes within a buffer, offsets %d and %d" % (n, so, do), c_xor_same, (n, so, do), 0, 64)


def t_xor_long(r, n, so, do):
    """windows too long to be followed to the end: code that ends early has not treated them"""
    try:
        m = p22.module("misc")
    except Exception:
        return                # reported by the other cases
    v = vg.VG(m, vg.Graph(), limit=30000)
    src, dst = v.string("src", so + n), v.string("dst", do + n)
    bad = None
    try:
        v.call("@caml_xor_string", [src, V(so), dst, V(do), V(n)])
        for i in (0, 1, n // 3, n // 2, n - 65, n - 2, n - 1):
            if v.cell(dst.obj, do + i) != vg.xorb(v.g, v.cell(src.obj, so + i), v.g.norm(dst.obj.fill(do + i))):
                bad = "byte %d of the destination window is not the xor" % i
                break
    except vg.Outside as e:
        bad = str(e)
    except vg.Stuck:
        pass
    r.count("long windows followed", 1)
    f = m.funcs.get("@caml_xor_string")
    r.ob("standard", bad is None, "%s caml_xor_string" % (v.locs.funloc(f) if f else "stubs-misc.c"),
         "xor_string of %d bytes does not end early" % n, bad or "still working after 30000 instructions, or the window is the xor")


def check(ctx):
    p22.preload(ctx)
    th = ctx.tier == "thorough"
    few = [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 65, 71, 72, 80, 127, 128, 129, 200]
    many = list(range(0, 300)) + [511, 512, 513, 1000, 1023, 1024, 1025, 2049]
    tasks = [(t_xor, (so, do, many if th or (so, do) in ((0, 0), (3, 3), (1, 6)) else few)) for so in range(9) for do in range(9)]
    tasks += [(t_xor, (so, do, [4096, 4100, 65543, 65700])) for so, do in ((0, 0), (5, 5), (0, 3))]
    tasks += [(t_xor_same, (few if not th else many,))]
    tasks += [(p22.t_case, c) for c in p22.cases(th) if c[0] in ("aes", "des") or c[0] == "blowfish" and c[2] is p22.c_blowfish]
    tasks += [(p22.t_case, ("blowfish", "Blowfish %s in place" % d, p22.c_blowfish_inplace, (d,), 0, 64)) for d in ("encrypt", "decrypt")]
    tasks += [(t_xor_long, (n, so, do)) for n in (2**31 - 1, 2**31, 2**31 + 70, 2**32 - 1, 2**32, 2**32 + 3, 2**32 + 64, 3 * 2**31 + 5,
                                                  2**33 + 100, 2**40 + 1) for so, do in ((0, 0), (1, 6))]
    ctx.run(tasks)
    ctx.need("cells compared", 1000)
    ctx.explanation = (
        "Value graphs of caml_xor_string for every pair of alignments and a range of lengths (the destination window is source xor "
        "destination, every other byte and the source are unchanged), and of the block transformations with distinct and with "
        "identical buffers, against the standard's encryption and decryption, which are inverse to each other.")
