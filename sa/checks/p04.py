"""P04 (native part): contexts outside the OCaml heap are erased before they are freed."""
from ..c import ir
from ..c.vg import Ptr, UNDEF
from . import p22
from .p22 import V, cells


def wiped(v, call, prep):
    freed = []

    def free(vg_, p, *a):
        if isinstance(p, Ptr):
            freed.append((p.obj, [p.obj.cells.get(i, UNDEF) for i in range(p.obj.size)]))
    v.override["@caml_stat_free"] = v.override["@free"] = free
    ctx = prep()
    live = [o for o in v.objs if o.name.startswith("heap")]
    freed.clear()
    v.call(call, [ctx])
    out = []
    for o in live:
        if ctx.obj is o:
            continue
        snap = [c for p, c in freed if p is o]
        got = snap[0] if snap else [v.cell(o, i) for i in range(o.size)]
        secret = [0 if (c is UNDEF or isinstance(c, int)) else c for c in got]
        out.append(("context", secret, [0] * o.size))
    return out


def c_sha3(v, bits, n):
    def prep():
        msg = v.string("msg", n)
        ctx = v.call("@caml_sha3_init", [V(bits)])
        v.call("@caml_sha3_absorb", [ctx, msg, V(0), V(n)])
        return ctx
    return wiped(v, "@caml_sha3_wipe", prep)


def c_blake3(v, keyed, n):
    def prep():
        msg = v.string("msg", n)
        ctx = v.call("@caml_blake3_init", [v.string("key", 32 if keyed else 0)])
        v.call("@caml_blake3_update", [ctx, msg, V(0), V(n)])
        return ctx
    return wiped(v, "@caml_blake3_wipe", prep)


def check(ctx):
    p22.preload(ctx)
    th = ctx.tier == "thorough"
    tasks = []
    for bits in (224, 256, 384, 512):
        for n in (0, 1, 71, 100) + ((150, 300) if th else ()):
            tasks.append((p22.t_case, ("sha3", "SHA-3 %d after %d bytes" % (bits, n), c_sha3, (bits, n), 0, 1)))
    for k in (0, 1):
        for n in (0, 1, 65, 1025) + ((3073, 5121) if th else ()):
            tasks.append((p22.t_case, ("blake3", "BLAKE3%s after %d bytes" % (" keyed" if k else "", n), c_blake3, (k, n), 0, 64)))
    ctx.run(tasks)
    ctx.need("cells compared", 100)
    ctx.explanation = ("value graphs of caml_sha3_wipe and caml_blake3_wipe: when the context is freed (or the primitive returns), no byte of "
                       "it depends on the key or on the message")
