"""P15: zlib return codes are honoured, progress is reported exactly."""
from ..c import units
from ..c.interp import Lin, L, Ptr
from ..c import ir


def on_init(I, st, a):
    z = st.ghost.get("zret")
    I.ob("zlib-error", z is not None and st.has_eq(z), "initialisation", "a failed initialisation is not reported")


def on_fini(I, st, a):
    z = st.ghost.get("zret")
    I.ob("zlib-error", z is not None and st.has_eq(z), "termination", "a failed termination is not reported")


FLUSH = (0, 2, 3, 4)            # Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_FINISH, in the order of the OCaml type


def on_zinit(I, st, a):
    """the parameters given to zlib's initialisation"""
    deflating = len(a) > 4
    h, w = st.ghost["header"], st.sig(a[3 if deflating else 1], 32)
    for v, bits in ((1, 15), (0, -15)):
        q = st.given([h - v])
        if q is not None:
            I.ob("zlib-parameters", q.has_eq(w - bits), "window bits " + ("with header" if v else "without header"),
                 "window bits are %r" % (q.canon(w),))
    if deflating:
        I.ob("zlib-parameters", st.has_eq(st.sig(a[1], 32) - st.ghost["level"]), "level", "not the level asked for")
        I.ob("zlib-parameters", st.has_eq(st.sig(a[2], 32) - 8), "method", "the method is not Z_DEFLATED")


def on_call(I, st, a):
    """the window and command passed to deflate or inflate"""
    which, ni, no, ai, ao, fl = a
    g = st.ghost
    for name, p, fed, ofs, given in (("src", ni, ai, g["srcofs"], g["srclen"]), ("dst", no, ao, g["dstofs"], g["dstlen"])):
        ok = isinstance(p, Ptr) and p.r.startswith(name + "#") and st.has_eq(p.o - ofs)
        I.ob("zlib-window", ok, name + " start", "zlib works on %r instead of offset %r of %s" % (p, ofs, name))
        q = st.given([], [given - 1])
        ok = q is None or (q.has_ge(fed - 1) and q.has_ge(given - fed))
        I.ob("zlib-window", ok, name + " length", "the window given to zlib is %r for %r bytes" % (st.canon(fed), st.canon(given)))
    f = st.sig(fl, 32)
    for k, v in enumerate(FLUSH):
        q = st.given([g["flush"] - k])
        if q is not None:
            I.ob("zlib-parameters", q.has_eq(f - v), "flush command %d" % k, "flush command is %r" % (q.canon(f),))


def on_step(I, st, a):
    g = st.ghost
    z, which = g["zret"], g["zop"]
    I.ob("zlib-error", st.has_ge(z), "negative return code", "an error code of zlib is ignored (%s)" % (st.bounds(z),))
    if which == Lin(2):
        I.ob("zlib-error", st.given([z - 2]) is None, "Z_NEED_DICT", "a request for a dictionary is ignored")
    res = a[0]
    if not isinstance(res, Ptr):
        I.ob("zlib-progress", False, "result", "the primitive does not return its result triple")
        return
    fs = [I.load(st, Ptr(res.r, res.o + 8 * k, ep=st.gcn), ir.I[64]) for k in range(3)]
    for k, (f, name, amount) in enumerate(((fs[1], "used_in", g["zin"]), (fs[2], "used_out", g["zout"]))):
        ok = isinstance(f, Lin) and st.has_eq(f - amount.scale(2) - 1)
        I.ob("zlib-progress", ok, name, "reports %r instead of %r" % (f, st.canon(amount.scale(2) + 1)))
    for v, what in ((1, 3), (0, 1), (2, 1)):
        q = st.given([z - v])
        if q is None:
            continue
        f = fs[0]
        ok = isinstance(f, Lin) and q.has_eq(f - what)
        I.ob("zlib-progress", ok, "end of stream flag (%s)" % {1: "set", 0: "unset", 2: "unset, dictionary"}[v], "reports %r" % (f,))


def prep(I):
    I.CAP = 400
    I.events = {"init": on_init, "step": on_step, "fini": on_fini, "zlib-call": on_call, "zlib-init": on_zinit}

    def raised(st, a):
        z, which = st.ghost.get("zret"), st.ghost.get("zop")
        if z is None:
            return
        I.ob("zlib-spurious", st.given([z]) is None, "error raised after Z_OK", "a success of zlib is reported as an error")
        if which in (Lin(1), Lin(2)):
            I.ob("zlib-spurious", st.given([z - 1]) is None, "error raised at the end of the stream",
                 "the end of the stream is reported as an error")
    I.raised = raised


def t_z(r, fn, limit):
    I = units.analyse("zlib", fn, limit, prep)
    units.collect(r, I, "zlib", fn, {"zlib-error", "zlib-progress", "zlib-window", "zlib-spurious", "zlib-parameters"})


def check(ctx):
    ctx.run([(t_z, (fn, 200)) for _h, fn in units.units(["zlib"])])
    ctx.need("native entry sequences", 2)
    ctx.need("sites", 6)
    for rule, n in (("zlib-error", 6), ("zlib-progress", 6), ("zlib-window", 4), ("zlib-parameters", 10)):
        ctx.need("rule " + rule, n)
    ctx.explanation = ("every return code of deflateInit/inflateInit, deflate, inflate, deflateEnd and inflateEnd, every reported "
                       "progress count and every raise, for all buffers, on all paths of the native binding")
