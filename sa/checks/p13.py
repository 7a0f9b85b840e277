"""P13: the counter of ChaCha20 advances by one per block, over its full width."""
from ..c import units, stream
from ..c.interp import Lin, L, ZERO, Ptr, Dead, T

SIGMA = {16: b"expand 16-byte k", 32: b"expand 32-byte k"}


class Chacha:
    def __init__(self, fn):
        self.fn = fn
        self.where = {}

    def prepare(self, I):
        I.on_kernel, I.on_return, I.fine = self.on_kernel, self.on_return, False
        I.partial = I.apart = True
        I.CAP = 24
        I.opaque = lambda name: all(ty.k == "ptr" or ty.n <= 32 for ty, _n in I.m.funcs[name].params)
        I.events = {"end": self.end}

    def find(self, I, st, fp, args):
        """(argument, offset) of the 16 words of input: they start with the constants of the cipher"""
        for i, rs in enumerate(fp.reads):
            for lo, hi in rs:
                for k in range(lo, hi - 63, 4):
                    if self.text(I, st, args[i], k, 8) == b"expand 1"[:7] + self.text(I, st, args[i], k + 7, 1):
                        return i, k
        return None

    def text(self, I, st, p, k, n):
        sg = I.read_segs(st, p.r, st.canon(p.o + k), L(n))
        out = b""
        for s, e, c in sg or ():
            if s.t and st.canon(s - p.o).t:
                return b""
            m = st.canon(e - s)
            if m.t:
                return b""
            if c[0] == "K":
                out += bytes([c[1]]) * m.c
            elif c[0] == "V" and c[2] == m.c:
                v = c[1] if isinstance(c[1], Lin) else None
                if v is None or v.t:
                    return b""
                out += (v.c & ((1 << (8 * m.c)) - 1)).to_bytes(m.c, "little")
            else:
                return b""
        return out

    def out(self, fp):
        """(argument, offset) of the 64 bytes of key stream written"""
        hits = [(i, lo) for i, rs in enumerate(fp.writes) for lo, hi in rs if hi - lo == 64]
        return hits[0] if len(hits) == 1 else None

    def on_kernel(self, I, st, name, fp, args):
        g = st.ghost
        if "n" not in g:
            return
        out = self.out(fp)
        if out is None:
            return
        w = self.find(I, st, fp, args)
        if w is None:
            return
        i, lo = w
        p = args[i]
        self.where[name] = out
        inst = "%s: " % self.fn
        K, V, n = g["K"].c, g["V"].c, g["n"]
        I.ob("state", self.text(I, st, p, lo, 16) == SIGMA[K], inst + "constants", "%r" % self.text(I, st, p, lo, 16))
        for a, b, nm, base in [(16, 32, "key", 0), (32, 48, "key", K - 16), ((48 if V == 16 else 64 - V), 64, "iv", 0)]:
            self.seq(I, st, p, lo + a, b - a, nm, base, inst)
        # the OCaml layer raises before the counter space is exhausted
        st.ge(L((1 << (64 if V == 8 else 32)) - 1) - g["c0"] - n)
        if st.poly.is_bot():
            raise Dead()
        v12, v13 = self.word(I, st, p, lo + 48), self.word(I, st, p, lo + 52) if V == 8 else ZERO
        if v12 is None or v13 is None:
            I.ob("counter", I.cell is not None, inst + "counter of the block", "undetermined")
            g["base"], g["n"] = st.canon(n.scale(64)), st.canon(n + 1)
            return
        ok = self.zero(st, v12 + v13.scale(1 << 32) - g["c0"] - n)
        I.ob("counter", ok, inst + "counter of the block", "block number %r is made with the counter %r, the first one with %r" % (
            st.canon(n), None if v12 is None or v13 is None else st.canon(v12 + v13.scale(1 << 32)), st.canon(g["c0"])))
        g["base"] = st.canon(n.scale(64))
        g["n"] = st.canon(n + 1)
        g["made"] = Lin(1)

    def zero(self, st, d):
        d = st.canon(d)
        m = 1 << 32
        if d.t and all(k % m == 0 for _v, k in d.t) and d.c % m == 0:
            return st.has_ge(L(m - 1) - d) and st.has_ge(d + (m - 1))
        return st.has_eq(d)

    def word(self, I, st, p, k):
        sg = I.read_segs(st, p.r, st.canon(p.o + k), L(4))
        ps = [(st.canon(s - p.o - k), st.canon(e - p.o - k), c) for s, e, c in sg or () if not st.has_ge(s - e)]
        if len(ps) == 1 and ps[0][2][0] == "V" and ps[0][2][2] == 4:
            return st.uns(ps[0][2][1], 32)
        return stream.number(st, ps, 0, 4, "little")

    def seq(self, I, st, p, k, n, nm, base, inst):
        sg = I.read_segs(st, p.r, st.canon(p.o + k), L(n))
        ok = sg is not None
        for s, e, c in sg or ():
            if st.has_ge(s - e):
                continue
            if I.cell is not None and c == T:
                continue
            ok = ok and c[0] == "S" and len(c[1]) == 1 and not c[2]
            if ok:
                m, d = next(iter(c[1]))
                ok = m == nm and st.has_eq(d + p.o + k - base)
        I.ob("state", ok, inst + "%s in the state" % nm, "the state does not hold the %s in its place" % nm)

    def on_return(self, I, st, name, args, v):
        w = self.where.get(name)
        g = st.ghost
        if w is None or "base" not in g or I.fp is not None:
            return
        i, lo = w
        if isinstance(args[i], Ptr):
            o = st.canon(args[i].o + lo)
            I.write(st, args[i].r, o, L(64), [(st.canon(o + 64), ("S", frozenset([("KS", st.canon(g["base"] - o))]), 0))])

    def end(self, I, st, a):
        pass


# pieces of key stream; the initial counter is any number: after a block the state is that of a
# fresh object whose initial counter is one more, so the counters of the later blocks follow by induction
CELLS = [[64, 64], [63, 1, 1], [65], [1], [63, 2], [5, 70],
         [130, 62, 1], [64, 1, 63, 1], [200, 60], [0, 5, 0, 123], [1, 1, 1, 1]]


def mk(ls):
    out = [None if sum(ls) <= 128 and len(ls) < 4 else (1 << 32) - 6 + len(ls)]
    for x in ls:
        out += [1, x, 3, 2]
    return out + [0]


def t_ks(r, h, fn, rules):
    k = Chacha(fn)
    stream.only_cells(r, h, fn, k.prepare, rules, [(c, False) for c in CELLS], mk)


def tasks(rules):
    return [(t_ks, (h, fn, rules)) for h, fn in units.units(["keystream"])]


def check(ctx):
    ctx.run(tasks({"counter", "state"}))
    ctx.need("rule counter", 3)
    ctx.explanation = ("at every block of key stream, for every initial counter and every sequence of calls: the counter words of the state "
                       "hold the initial counter plus the number of blocks already made (64-bit with carry for 8-byte nonces), and the state holds the constants, key and nonce")
