"""P11: the compression functions consume the message in order, once, whatever the chunks."""
from ..c import units, stream
from . import b3tree, p13
from ..c.interp import Lin, L, ZERO, Ptr


class Handler:
    """obligations at every call of the compression function of one algorithm"""

    def __init__(self, fn, B):
        self.fn, self.B = fn, B
        self.blocks = stream.Blocks(B)

    def prepare(self, I):
        I.on_kernel, I.fine = self.on_kernel, True
        I.events = {"start": self.start, "end": self.end}

    # ---- where the data of a call is: (parts, address of position 0) or None
    def data(self, I, st, name, fp, args):
        ps = self.blocks.block(I, st, name, fp, args)
        if ps is None:
            return None
        if ps == "?":
            if not I.big:
                I.ob("order", False, "%s in %s" % (name[1:], self.fn), "reads the message in an unexpected shape")
            return None
        i, lo = self.blocks.where[name]
        return ps, args[i].o + lo

    def on_kernel(self, I, st, name, fp, args):
        d = self.data(I, st, name, fp, args)
        if d is None:
            return
        self.step(I, st, d[0], d[1], name, args)

    def step(self, I, st, ps, origin, name, args):
        g = st.ghost
        C = g["C"]
        if g["phase"] == ZERO:
            if not I.big:
                ok, why = self.full(I, st, ps, C, origin)
                I.ob("order", ok, "%s: blocks of the message" % self.fn, why)
                self.more(I, st, C, args)
        else:
            self.final(I, st, ps, C, g["T"], origin, args)
        g["C"] = st.canon(C + self.B)

    def full(self, I, st, ps, C, origin):
        return stream.in_order(st, ps, C, self.B, origin, I)

    def more(self, I, st, C, args):
        """further obligations of a block that is not the last"""

    def rest(self, I, st, ps, C, T, origin, const):
        """the last block: the rest of the message, then what const(s, e, byte) allows"""
        rest = T - C
        inst = "%s: " % self.fn
        for s, e, c in ps:
            if c[0] == "S":
                ok, why = stream.in_order(st, [(s, e, c)], C, self.B, origin, I)
                ok = ok and st.has_ge(rest - e)
                I.ob("order", ok, inst + "end of the message", why or "bytes beyond the end of the message are hashed")
            elif c[0] == "K":
                ok = const(s, e, c[1])
                I.ob("padding", ok, inst + "constant", "position [%r, %r) of the block is the byte 0x%02x, the message ends at %r" % (s, e, c[1], st.canon(rest)))
            elif stream.vague(I, c):
                pass
            else:
                I.ob("padding", False, inst + "contents", "position [%r, %r) of the block is %s" % (s, e, stream.show(c)))

    def start(self, I, st, a):
        pass

    def end(self, I, st, a):
        if I.big:
            return
        I.ob("length", st.ghost.get("done") == Lin(1), "%s: last block" % self.fn, "the last block is not always hashed")


class MD(Handler):
    """marker, zeros, length"""

    def __init__(self, fn):
        self.spec = stream.MD[fn]
        Handler.__init__(self, fn, self.spec.B)
        self.cells, self.big = stream.cells(self.B, self.spec.length[0]), stream.BIG

    def final(self, I, st, ps, C, T, origin, args):
        spec, B = self.spec, self.B
        nl, order = spec.length
        rest = T - C                      # bytes of the message left (negative: all consumed and the marker placed)
        inst = "%s: " % self.fn
        if I.big:
            n = stream.number(st, ps, B - nl, B, order)
            d = None if n is None else st.canon(n - T.scale(8))
            if d is not None and not d.t and st.has_ge(L(B - nl - 1) - rest):
                I.ob("length", d.c == 0, inst + "bit count", "the number at the end of the last block differs from 8 * length by %d" % d.c)
            return
        for s, e, c in ps:
            if c[0] == "S":
                ok, why = stream.in_order(st, [(s, e, c)], C, B, origin, I)
                ok = ok and st.has_ge(rest - e)
                I.ob("order", ok, inst + "end of the message", why or "bytes beyond the end of the message are hashed")
            elif c == ("K", spec.pad) and st.has_eq(s - rest) and st.has_eq(e - s - 1):
                I.ob("padding", True, inst + "marker", "")
            elif c == ("K", 0):
                I.ob("padding", st.has_ge(s - rest - 1), inst + "zeros", "zeros from position %r, the message ends at %r" % (s, st.canon(rest)))
            elif c[0] == "V" and stream.vague(I, c) and not st.has_ge(s - (B - nl)):
                pass
            elif c[0] == "V" or c[0] == "K":
                ok = st.has_ge(s - (B - nl))
                I.ob("padding", ok, inst + "number", "position %r of the block is %s" % (s, stream.show(c)))
            elif not stream.vague(I, c):
                I.ob("padding", False, inst + "contents", "position [%r, %r) of the block is %s" % (s, e, stream.show(c)))
        # the marker must be there unless an earlier block had it, the length must be there when there is room for it
        covered = [x for x in ps if st.has_eq(x[0] - rest)]
        q = st.given([], [L(B - 1) - rest])
        if q is not None and st.has_ge(rest):
            I.ob("padding", any(c == ("K", spec.pad) or stream.vague(I, c) for _s, _e, c in covered), inst + "marker present", "no 0x%02x after the message" % spec.pad)
        last = st.has_ge(L(B - nl - 1) - rest)
        if last:
            n = stream.number(st, ps, B - nl, B, order)
            ok = n is not None and st.has_eq(n - T.scale(8)) or n is None and I.cell is not None
            I.ob("length", ok, inst + "bit count", "the number at the end of the last block is %s, not 8 * length" % (
                None if n is None else st.canon(n - T.scale(8)),))
            st.ghost["done"] = Lin(1)
        else:
            I.ob("length", st.has_ge(rest - (B - nl)), inst + "room", "the last block may lack the length")


class Sha3(Handler):
    def __init__(self, fn):
        bits = int(fn.split("_")[2])
        Handler.__init__(self, fn, 200 - bits // 4)
        self.cells, self.big = stream.cells(self.B, 1), ()

    def final(self, I, st, ps, C, T, origin, args):
        rest, B = T - C, self.B

        def const(s, e, k):
            if k == 0:
                return st.has_ge(s - rest - 1) and st.has_ge(L(B - 1) - e)
            if k in (6, 1):
                return st.has_eq(s - rest) and st.has_eq(e - s - 1) and st.has_ge(L(B - 2) - s)
            if k == 0x80:
                return st.has_eq(s - (B - 1)) and st.has_ge(s - rest - 1)
            if k in (0x86, 0x81):
                return st.has_eq(s - rest) and st.has_eq(s - (B - 1))
            return False
        self.rest(I, st, ps, C, T, origin, const)
        I.ob("order", st.has_ge(L(B - 1) - rest), "%s: end" % self.fn, "the last block does not reach the end of the message")
        st.ghost["done"] = Lin(1)


class Blake2(Handler):
    """key block first when there is a key; the last block is flagged and zero-padded, and counts its bytes"""

    def __init__(self, fn):
        Handler.__init__(self, fn, 128 if "2b" in fn else 64)
        self.cells, self.big = stream.cells(self.B), ()
        self.keyed = "keyed" in fn

    def mk(self, ls):
        return stream.script(ls, [32] + ([7] if self.keyed else []))

    def start(self, I, st, a):
        if self.keyed:
            st.ghost["C"] = Lin(-self.B)

    def data(self, I, st, name, fp, args):
        w = self.blocks.where.get(name)
        if w is None:
            # the data block: an argument read over exactly B bytes that is not the context it also writes
            hits = [(i, rs[0][0]) for i, rs in enumerate(fp.reads) if len(rs) == 1 and rs[0][1] - rs[0][0] == self.B and not fp.writes[i]]
            if len(hits) != 1:
                return None
            self.blocks.where[name] = hits[0]
        return Handler.data(self, I, st, name, fp, args)

    def keyblock(self, st, ps, origin):
        k = st.ghost["K"]
        for s, e, c in ps:
            if c[0] == "S" and c[1] and next(iter(c[1]))[0] == "K":
                ok = len(c[1]) == 1 and not c[2] and st.has_eq(next(iter(c[1]))[1] + origin) and st.has_ge(k - e)
            else:
                ok = c == ("K", 0) and st.has_ge(s - k)
            if not ok:
                return False, "position [%r, %r) of the key block is %s" % (s, e, stream.show(c))
        return True, ""

    def full(self, I, st, ps, C, origin):
        if self.keyed and st.has_eq(C + self.B):
            return self.keyblock(st, ps, origin)
        return stream.in_order(st, ps, C, self.B, origin, I)

    def ints(self, I, st, args):
        return [st.uns(a, 32) for a in args if isinstance(a, Lin) or type(a).__name__ == "Term"]

    def more(self, I, st, C, args):
        xs = self.ints(I, st, args)
        inst = "%s: blocks before the last" % self.fn
        I.ob("order", st.has_ge(st.ghost["N"] - C - self.B - 1), inst, "the block may be the last one of the message and is not flagged as such")
        if len(xs) == 2:
            I.ob("counter", st.has_eq(xs[0] - self.B), inst, "the block counts for %r bytes" % (st.canon(xs[0]),))
            I.ob("counter", st.has_eq(xs[1]), inst + ": flag", "flag %r" % (st.canon(xs[1]),))

    def final(self, I, st, ps, C, T, origin, args):
        B = self.B
        if self.keyed:
            q = st.given([C + B], [])
            if q is not None:
                ok, why = (self.keyblock(q, ps, origin) if st.has_eq(C + B) else (False, "the key block or a block of the message"))
                I.ob("order", ok and st.has_eq(T), "%s: key block as last block" % self.fn, why)
            else:
                self.last(I, st, ps, C, T, origin, True)
        else:
            self.last(I, st, ps, C, T, origin, False)
        xs = self.ints(I, st, args)
        inst = "%s: last block" % self.fn
        if len(xs) == 2:
            I.ob("counter", st.has_eq(xs[0] - T + C), inst, "the last block counts for %r bytes, %r are left" % (st.canon(xs[0]), st.canon(T - C)))
            I.ob("counter", st.has_ge(xs[1] - 1), inst + ": flag", "flag %r" % (st.canon(xs[1]),))
        st.ghost["done"] = Lin(1)

    def last(self, I, st, ps, C, T, origin, some):
        rest = T - C
        self.rest(I, st, ps, C, T, origin, lambda s, e, k: k == 0 and st.has_ge(s - rest))
        I.ob("order", st.has_ge(L(self.B) - rest), "%s: end" % self.fn, "the last block does not reach the end of the message")


class Siphash(Handler):
    def __init__(self, fn):
        Handler.__init__(self, fn, 8)
        self.cells, self.big = stream.cells(8, 1), ()

    def prepare(self, I):
        Handler.prepare(self, I)
        I.opaque = lambda name: sum(1 for ty, _n in I.m.funcs[name].params if ty.k == "i" and ty.n == 64) == 1

    def data(self, I, st, name, fp, args):
        if "phase" not in st.ghost:
            return None
        vs = [a for a, (ty, _n) in zip(args, I.m.funcs[name].params) if ty.k == "i" and ty.n == 64]
        if len(vs) != 1:
            return Handler.data(self, I, st, name, fp, args)
        bs = I.bytes_of(st, vs[0], 8)
        if bs is None:
            return [(ZERO, L(8), ("V", vs[0], 8))], ZERO
        ps = []
        for k, b in enumerate(bs):
            c = I.content(st, b, 1, L(k))
            ps.append((L(k), L(k + 1), c))
        return ps, ZERO

    def step(self, I, st, ps, origin, name, args):
        if "phase" not in st.ghost:
            return
        Handler.step(self, I, st, ps, origin, name, args)

    def final(self, I, st, ps, C, T, origin, args):
        rest = T - C
        if st.ghost.get("done") == Lin(1):
            return
        byte = [c for s, e, c in ps if st.has_eq(s - 7)]
        low = [x for x in ps if not st.has_ge(x[0] - 7)]
        self.rest(I, st, low, C, T, origin, lambda s, e, k: k == 0 and st.has_ge(s - rest))
        I.ob("order", st.has_ge(L(7) - rest), "%s: end" % self.fn, "the last word does not reach the end of the message")
        if len(byte) == 1 and byte[0][0] in ("K", "V"):
            v = L(byte[0][1]) if byte[0][0] == "K" else byte[0][1]
            ok = mod256(I, st, v, T)
            I.ob("length", ok, "%s: length byte" % self.fn, "the last byte is %r, the length is %r" % (v, st.canon(T)))
        else:
            I.ob("length", I.cell is not None, "%s: length byte" % self.fn, "the last byte of the last word is %s" % ([stream.show(c) for c in byte],))
        st.ghost["done"] = Lin(1)


def mod256(I, st, v, T):
    v = v if isinstance(v, Lin) else st.lin(v)
    d = st.canon(v - T)
    if not d.t:
        return d.c % 256 == 0
    q, r = st.div2(st.canon(T), 256)
    return st.has_eq(r - v)


class Poly(Handler):
    """poly1305_blocks(state, data, bytes)"""

    def __init__(self, fn):
        Handler.__init__(self, fn, 16)
        self.cells, self.big = stream.cells(16), ()
        self.seen = False

    def prepare(self, I):
        Handler.prepare(self, I)
        I.on_kernel = None
        I.hooks["@poly1305_blocks"] = self.hook

    def hook(self, I, st, args):
        g = st.ghost
        if "phase" not in g or not isinstance(args[1], Ptr):
            return None
        n = st.uns(args[2], 64)
        C = g["C"]
        sg = I.read_segs(st, args[1].r, st.canon(args[1].o), n)
        inst = "%s: " % self.fn
        if sg is None:
            I.ob("order", I.cell is not None, inst + "blocks of the message", "undetermined data")
            return None
        ps = [(st.canon(s - args[1].o), st.canon(e - args[1].o), c) for s, e, c in sg if not st.has_ge(s - e)]
        if g["phase"] == ZERO:
            ok, why = stream.in_order(st, ps, C, None, args[1].o, I)
            I.ob("order", ok, inst + "blocks of the message", why)
            g["C"] = st.canon(C + n)
        else:
            rest = g["T"] - C
            self.rest(I, st, ps, C, g["T"], args[1].o, lambda s, e, k: k == 1 and st.has_eq(s - rest) and st.has_eq(e - s - 1) or k == 0 and st.has_ge(s - rest - 1))
            I.ob("order", st.has_ge(L(15) - rest) and st.has_ge(rest - 1), inst + "end", "%r bytes are left before the last block" % (st.canon(rest),))
            I.ob("padding", any(c == ("K", 1) or stream.vague(I, c) for _s, _e, c in ps), inst + "marker present", "no marker after the message")
            g["C"] = st.canon(g["T"])
        return None

    def end(self, I, st, a):
        I.ob("order", st.has_eq(st.ghost["T"] - st.ghost["C"]), "%s: all of the message" % self.fn, "%r bytes of the message are not hashed" % (
            st.canon(st.ghost["T"] - st.ghost["C"]),))


class Md5(Handler):
    def __init__(self, fn):
        Handler.__init__(self, fn, 64)
        self.cells, self.big = stream.cells(64), stream.BIG

    def prepare(self, I):
        Handler.prepare(self, I)
        I.on_kernel = None
        I.hooks["@caml_MD5Update"] = self.hook

    def hook(self, I, st, args):
        g = st.ghost
        n = st.uns(args[2], 64)
        inst = "%s: " % self.fn
        sg = I.read_segs(st, args[1].r, st.canon(args[1].o), n) if isinstance(args[1], Ptr) else None
        if sg is None:
            I.ob("order", False, inst + "pieces of the message", "undetermined data")
        else:
            ps = [(st.canon(s - args[1].o), st.canon(e - args[1].o), c) for s, e, c in sg if not st.has_ge(s - e)]
            ok, why = stream.in_order(st, ps, g["C"], None, args[1].o, I)
            I.ob("order", ok, inst + "pieces of the message", why)
        g["C"] = st.canon(g["C"] + n)
        return None

    def end(self, I, st, a):
        d = st.canon(st.ghost["T"] - st.ghost["C"])
        I.ob("length", st.has_eq(d), "%s: all of the message" % self.fn, "%r bytes of the message are not hashed" % (d,))


RULES = {"order", "padding"}
KINDS = {}
for _n in stream.MD:
    KINDS[_n] = MD
for _n in ("sa_sha3_224", "sa_sha3_256", "sa_sha3_384", "sa_sha3_512"):
    KINDS[_n] = Sha3
for _n in ("sa_blake2b", "sa_blake2b_keyed", "sa_blake2s", "sa_blake2s_keyed"):
    KINDS[_n] = Blake2
KINDS.update({"sa_siphash64": Siphash, "sa_siphash128": Siphash, "sa_poly1305": Poly, "sa_md5": Md5})


BOUNDED = ("sa_sha3", "sa_siphash", "sa_poly1305", "sa_blake2b_keyed", "sa_blake2s_keyed")     # no general argument: cells only


def t_stream(r, h, fn, rules, limit):
    k = KINDS[fn](fn)
    stream.decide(r, h, fn, k.prepare, rules, k.cells, limit, k.big if "length" in rules else (), getattr(k, "mk", stream.script))


def t_cells(r, h, fn, rules, cs):
    k = KINDS[fn](fn)
    stream.only_cells(r, h, fn, k.prepare, rules, [(c, False) for c in cs], getattr(k, "mk", stream.script))


def tasks(rules):
    out, small = [], []
    for h, fn in units.units():
        if fn in KINDS and not fn.startswith(BOUNDED):
            out.append((t_stream, (h, fn, rules, 200)))
        elif fn in KINDS and not fn.endswith("_wipe"):
            cs = KINDS[fn](fn).cells
            for i in range(0, len(cs), 25):
                small.append((t_cells, (h, fn, rules, cs[i:i + 25])))
    if "order" in rules:
        small += p13.tasks({"order"})
    return out + small


def check(ctx):
    th = ctx.tier == "thorough"
    ctx.run(tasks(RULES) + b3tree.tasks("order", b3tree.short_lists(th) + b3tree.long_lists(th)))
    ctx.need("rule order", 8)
    ctx.explanation = ("for every call of a compression function, on every path of every sequence of updates: the block it reads is exactly the next bytes of the message, and the last blocks are the rest of the message, the padding marker and zeros")
