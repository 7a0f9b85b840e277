"""P05 (native part): caml_wipe_z erases every data word of a big integer."""
from ..c import ir, units
from ..c.vg import VG, Graph, Obj, Ptr, Stuck
from . import p22


def c_wipe(v, words, tag):
    """a heap block of `words` words; the first word of a custom block is its operations pointer"""
    o = v.input("z", 8 * (words + 1))
    v.store(Ptr(o, 0), (words << 10) | 0x300 | tag, ir.I[64])
    before = [v.cell(o, 8 + i) for i in range(8)]
    v.call("@caml_wipe_z", [Ptr(o, 8)])
    got = [v.cell(o, 8 + i) for i in range(8 * words)]
    return [("block", got, before + [0] * (8 * (words - 1)))]


def c_keep(v, what, tag):
    """small integers and other blocks are left alone"""
    if what == "int":
        v.call("@caml_wipe_z", [2 * 12345 + 1])
        return [("nothing", [], [])]
    o = v.input("z", 24)
    v.store(Ptr(o, 0), (2 << 10) | 0x300 | tag, ir.I[64])
    before = [v.cell(o, i) for i in range(24)]
    v.call("@caml_wipe_z", [Ptr(o, 8)])
    return [("block", [v.cell(o, i) for i in range(24)], before)]


def check(ctx):
    p22.preload(ctx)
    ns = list(range(1, 70)) + [128, 129, 130, 257, 258, 514, 1026, 4098]
    ctx.run([(t_many, (ns[i::8],)) for i in range(8)] +
            [(p22.t_case, ("misc", "a small integer", c_keep, ("int", 0), 0, 64)),
             (p22.t_case, ("misc", "a block that is not custom", c_keep, ("block", 247), 0, 64))])
    ctx.need("cells compared", 100)
    ctx.explanation = ("value graph of caml_wipe_z on custom blocks of 0 to 4097 data words: every data word is the constant 0 afterwards, "
                       "the operations pointer is kept")


def t_many(r, ns):
    for n in ns:
        p22.one_case(r, "misc", "custom block of %d data words" % (n - 1), c_wipe, (n, 255), 0, 64)
