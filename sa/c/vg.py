"""Value graphs: global value numbering of input-independent code.

Every value a primitive computes is put in a normal form over its input bits:

  bit   = an exclusive-or of monomials over atoms (algebraic normal form)
  atom  = an input bit, a named sub-expression, one bit of a flattened modular
          sum, or one bit of an uninterpreted operation
  word  = a Python int (known) or a tuple of bits (least significant first)

Look-ups in constant tables become the algebraic normal form of the table, so
two tables with the same contents, or the same function split over different
tables, have the same normal form.  Loops are followed only while their
conditions are constants; branches on input-dependent conditions are merged at
the post-dominator (gated phis).  Nothing is executed and no path is enumerated
or handed to a solver: two functions agree when their normal forms are equal.
"""
import random

from . import ir
from .interp import const_bytes

ONE = frozenset((0,))
ZERO = frozenset()


class Stuck(Exception):
    pass


class Outside(Stuck):
    """an access outside an object on a path that every input takes"""


SPARSE = 64


class Dense:
    """a bit with many monomials, as a bit mask over monomial numbers (more than SPARSE of them: the
    representation of a bit is unique)"""
    __slots__ = ("m", "n")

    def __init__(self, m):
        self.m = m
        self.n = m.bit_count()

    @staticmethod
    def of(b):
        if isinstance(b, Dense):
            return b.m
        r = bytearray((max(b) >> 3) + 1) if b else bytearray()
        for i in b:
            r[i >> 3] |= 1 << (i & 7)
        return int.from_bytes(r, "little")

    @staticmethod
    def make(m):
        if m.bit_count() > SPARSE:
            return Dense(m)
        out = []
        while m:
            low = m & -m
            out.append(low.bit_length() - 1)
            m ^= low
        return frozenset(out)

    def __xor__(self, o):
        return Dense.make(self.m ^ Dense.of(o))

    __rxor__ = __xor__

    def __eq__(self, o):
        return isinstance(o, Dense) and self.m == o.m

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.m)

    def __len__(self):
        return self.n

    def __contains__(self, i):
        return bool(self.m >> i & 1)

    def __iter__(self):
        for k, byte in enumerate(self.m.to_bytes((self.m.bit_length() + 7) // 8, "little")):
            while byte:
                low = byte & -byte
                yield 8 * k + low.bit_length() - 1
                byte ^= low


class Graph:
    """atoms and monomials, hash-consed"""

    def __init__(self, distribute=64, dense=False):
        self.dense = dense
        self.atoms = [None]            # id -> definition
        self.atom_ids = {}
        self.monos = [()]              # id -> sorted tuple of atoms; 0 is the constant 1
        self.mono_ids = {(): 0}
        self.sumbits, self.sumkeys = {}, []
        self.sums = {}                 # bits of a modular sum -> (const, terms)
        self.distribute = distribute
        self.moebius = {}
        self.mulcache = {}

    # ------------------------------------------------ atoms, monomials
    def atom(self, d):
        r = self.atom_ids.get(d)
        if r is None:
            r = self.atom_ids[d] = len(self.atoms)
            self.atoms.append(d)
        return r

    def mono(self, atoms):
        t = tuple(sorted(atoms))
        r = self.mono_ids.get(t)
        if r is None:
            r = self.mono_ids[t] = len(self.monos)
            self.monos.append(t)
        return r

    def var(self, d):
        return frozenset((self.mono((self.atom(d),)),))

    def of_atom(self, a):
        d = self.atoms[a]
        if d[0] == "def":
            return d[1]
        return frozenset((self.mono((a,)),))

    def name(self, b):
        """(atom, complemented) of a non-constant bit"""
        neg = 0 in b
        if neg:
            b = b ^ ONE
        if len(b) == 1:
            (m,) = b
            t = self.monos[m]
            if len(t) == 1:
                return t[0], neg
        return self.atom(("def", b)), neg

    def prod(self, atoms):
        """the product of distinct atoms as a bit"""
        if len(atoms) == 1:
            return self.of_atom(atoms[0])
        return frozenset((self.mono(atoms),))

    # ------------------------------------------------ bit operations
    def band(self, a, b):
        if not a or not b:
            return ZERO
        if a == ONE:
            return b
        if b == ONE or a == b:
            return a
        k = (a, b) if len(a) <= len(b) else (b, a)
        r = self.mulcache.get(k)
        if r is None:
            r = self._band(*k)
            if len(a) * len(b) > 1:
                self.mulcache[k] = r
                self.mulcache[(k[1], k[0])] = r
        return r

    def _band(self, a, b):
        if a ^ b == ONE:
            return ZERO
        na, nb = len(a), len(b)
        if na * nb <= self.distribute or (min(na, nb) == 1 and max(na, nb) <= 4 * self.distribute):
            acc = set()
            for x in a:
                tx = self.monos[x]
                for y in b:
                    ty = self.monos[y]
                    m = self.mono(set(tx) | set(ty)) if tx and ty else (x or y)
                    if m in acc:
                        acc.remove(m)
                    else:
                        acc.add(m)
            return frozenset(acc)
        xa, ca = self.name(a)
        xb, cb = self.name(b)
        if xa == xb:
            return ZERO if ca != cb else a
        r = frozenset((self.mono((xa, xb)),))
        if ca:
            r = r ^ (b ^ ONE if cb else b)
        if cb:
            r = r ^ (a ^ ONE if ca else a)
        if ca and cb:
            r = r ^ ONE
        return r

    def bor(self, a, b):
        if not a:
            return b
        if not b:
            return a
        return a ^ b ^ self.band(a, b)

    def mux(self, c, a, b):
        """c ? a : b"""
        if a == b:
            return a
        return b ^ self.band(c, a ^ b)

    # ------------------------------------------------ words
    def word(self, v, w):
        if isinstance(v, int):
            return tuple(ONE if v >> i & 1 else ZERO for i in range(w))
        return v

    def norm(self, bits):
        r = 0
        for i, b in enumerate(bits):
            if b:
                if b != ONE:
                    return bits if isinstance(bits, tuple) else tuple(bits)
                r |= 1 << i
        return r

    def bitwise(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        A, B = self.word(a, w), self.word(b, w)
        if op == "xor":
            r = [x ^ y for x, y in zip(A, B)]
            if self.dense:
                r = [Dense(Dense.of(x)) if len(x) > SPARSE and not isinstance(x, Dense) else x for x in r]
            return self.norm(tuple(r))
        f = self.band if op == "and" else self.bor
        return self.norm(tuple([f(x, y) for x, y in zip(A, B)]))

    def shift(self, op, a, n, w):
        if isinstance(a, int):
            if op == "shl":
                return (a << n) & ((1 << w) - 1) if n < w else 0
            if op == "ashr" and a >> (w - 1) & 1:
                return ((a - (1 << w)) >> n) & ((1 << w) - 1)
            return a >> n
        if op == "shl":
            return self.norm((ZERO,) * min(n, w) + a[:max(w - n, 0)])
        fill = a[-1] if op == "ashr" else ZERO
        return self.norm(a[n:] + (fill,) * min(n, w))

    def rot(self, a, n, w):
        """rotate left"""
        n %= w
        if isinstance(a, int):
            return ((a << n) | (a >> (w - n))) & ((1 << w) - 1)
        return a[w - n:] + a[:w - n]

    def neg_bits(self, a, w):
        return self.bitwise("xor", a, (1 << w) - 1, w)

    def terms(self, v, w):
        """(constant, {word: coefficient}) of a word as a modular sum"""
        if isinstance(v, int):
            return v, {}
        s = self.sums.get(v)
        if s is not None:
            return s[0], dict(s[1])
        return 0, {v: 1}

    def linear(self, parts, w):
        """sum of coefficient * word"""
        M = (1 << w) - 1
        const, ts = 0, {}
        for k, v in parts:
            c, t = self.terms(v, w)
            const += k * c
            for x, n in t.items():
                ts[x] = (ts.get(x, 0) + k * n) & M
        const &= M
        ts = {x: n for x, n in ts.items() if n}
        if not ts:
            return const
        if len(ts) == 1 and const == 0:
            (x, n), = ts.items()
            if n == 1:
                return x
            if n & (n - 1) == 0:
                return self.shift("shl", x, n.bit_length() - 1, w)
        # disjoint bits: an addition without carries
        if all(n & (n - 1) == 0 for n in ts.values()):
            ws = [self.word(self.shift("shl", x, n.bit_length() - 1, w), w) for x, n in ts.items()] + [self.word(const, w)]
            cols = list(zip(*ws))
            if all(sum(1 for b in col if b) <= 1 for col in cols):
                return self.norm(tuple([next((b for b in col if b), ZERO) for col in cols]))
        key = (w, const, frozenset(ts.items()))
        bits = self.sumbits.get(key)
        if bits is None:
            n = len(self.sumkeys)
            self.sumkeys.append(key)
            bits = self.sumbits[key] = tuple([self.var(("sum", n, i)) for i in range(w)])
            self.sums[bits] = (const, tuple(ts.items()))
        return bits

    def add(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return (a + b) & ((1 << w) - 1)
        return self.linear(((1, a), (1, b)), w)

    def trunc(self, v, w):
        if isinstance(v, int):
            return v & ((1 << w) - 1)
        s = self.sums.get(v)
        if s is not None and w > 1:
            return self.linear([(1, s[0] & ((1 << w) - 1))] + [(k, self.trunc(x, w)) for x, k in s[1]], w)
        return self.norm(v[:w])

    def opaque(self, op, args, w):
        return tuple([self.var(("op", op, args, w, i)) for i in range(w)])

    # ------------------------------------------------ tables
    def support(self, bits, limit=8):
        """the atoms of some bits, or None when there are many"""
        s = set()
        for b in bits:
            for m in b:
                s.update(self.monos[m])
                if len(s) > limit:
                    return None
        return s

    def lookup(self, entries, idx, w):
        """entries: list of 2^k ints (or words); idx: k non-constant bits (least significant first)"""
        k = len(idx)
        sup = self.support(idx)
        if sup is not None and not all(len(b - ONE) == 1 and len(self.monos[next(iter(b - ONE))]) == 1 for b in idx):
            vs = sorted(sup)
            pos = {a: i for i, a in enumerate(vs)}
            n = 1 << len(vs)
            codes = [0] * n
            for j, b in enumerate(idx):
                f = [0] * n
                for m in b:
                    q = 0
                    for a in self.monos[m]:
                        q |= 1 << pos[a]
                    f[q] ^= 1
                _moebius(f, len(vs))
                for x in range(n):
                    codes[x] |= f[x] << j
            entries = [entries[c] for c in codes]
        else:
            vs = []
            flip = 0
            for j, b in enumerate(idx):
                a, neg = self.name(b)
                vs.append(a)
                flip |= neg << j
            if len(set(vs)) < len(vs):
                # repeated index bits: drop the impossible entries
                us = sorted(set(vs))
                new = []
                for x in range(1 << len(us)):
                    c = 0
                    for j, a in enumerate(vs):
                        c |= (x >> us.index(a) & 1) << j
                    new.append(entries[c ^ flip])
                entries, vs = new, us
            else:
                if flip:
                    entries = [entries[x ^ flip] for x in range(len(entries))]
        k = len(vs)
        if all(isinstance(e, int) for e in entries):
            key = tuple(entries)
            co = self.moebius.get(key)
            if co is None:
                co = list(entries)
                _moebius(co, k)
                co = self.moebius[key] = [(s, c) for s, c in enumerate(co) if c]
            ids = []
            lin = (1 << w) - 1          # output bits that are affine in the index bits
            for s, c in co:
                if s & (s - 1):
                    lin &= ~c
                ids.append((0 if s == 0 else self.mono([vs[j] for j in range(k) if s >> j & 1]), s, c))
            out = []
            for i in range(w):
                if lin >> i & 1:
                    r = ZERO
                    for m, s, c in ids:
                        if c >> i & 1:
                            r = r ^ (ONE if s == 0 else self.of_atom(vs[s.bit_length() - 1]))
                    out.append(r)
                else:
                    out.append(frozenset([m for m, s, c in ids if c >> i & 1]))
            return self.norm(tuple(out))
        ws = [self.word(e, w) for e in entries]
        if k <= 4:
            co = [list(e) for e in ws]
            for j in range(k):
                for x in range(1 << k):
                    if x >> j & 1:
                        y = x ^ (1 << j)
                        co[x] = [p ^ q for p, q in zip(co[x], co[y])]
            out = [ZERO] * w
            for s in range(1 << k):
                m = ONE if s == 0 else self.prod([vs[j] for j in range(k) if s >> j & 1])
                out = [o ^ self.band(m, c) for o, c in zip(out, co[s])]
            return self.norm(tuple(out))
        key = (tuple(vs), tuple(ws))
        return tuple([self.var(("lut", key, i)) for i in range(w)])

    # ------------------------------------------------ valuations of a graph
    def valuate(self, bits, lanes=128, seed=1, force=None, zero=False):
        """values of bits under `lanes` random valuations of the input atoms (bit-parallel); force: {atom: 0/1}"""
        rnd = random.Random(seed)
        full = (1 << lanes) - 1
        val = {}
        mv = {0: full}

        bv = {}

        def bit(b):
            if len(b) < 3:
                return bit1(b)
            r = bv.get(b)
            if r is None:
                r = bv[b] = bit1(b)
            return r

        def bit1(b):
            r = 0
            for m in b:
                x = mv.get(m)
                if x is None:
                    x = full
                    for a in self.monos[m]:
                        x &= atom(a)
                    mv[m] = x
                r ^= x
            return r

        def wordv(v, w):
            if isinstance(v, int):
                return [full if v >> i & 1 else 0 for i in range(w)]
            return [bit(b) for b in v]

        def lane(ws, l):
            return sum((x >> l & 1) << i for i, x in enumerate(ws))

        words = {}

        def atom(a):
            x = val.get(a)
            if x is not None:
                return x
            d = self.atoms[a]
            if d[0] == "in":
                x = 0 if zero else rnd.getrandbits(lanes)
                if force and a in force:
                    x = full if force[a] else 0
            elif d[0] == "fun":
                x = random.Random(hash((d, seed))).getrandbits(lanes)
            elif d[0] == "def":
                x = bit(d[1])
            elif d[0] == "sum":
                key = d[1]
                if key not in words:
                    w, const, ts = self.sumkeys[key]
                    M = (1 << w) - 1
                    acc = wordv(const, w)
                    for t, n in ts:
                        tv = wordv(t, w)
                        for sh in range(w):
                            if n >> sh & 1:
                                acc = _padd(acc, [0] * sh + tv[:w - sh], full)
                    words[key] = acc
                x = words[key][d[2]]
            elif d[0] == "lut":
                key = d[1]
                if ("lut", key) not in words:
                    vs, ws = key
                    w = len(ws[0])
                    ix = [atom(v) for v in vs]
                    out = [0] * w
                    ev = {}
                    for l in range(lanes):
                        c = lane(ix, l)
                        if c not in ev:
                            ev[c] = wordv(ws[c], w)
                        for i in range(w):
                            out[i] |= (ev[c][i] >> l & 1) << l
                    words[("lut", key)] = out
                x = words[("lut", key)][d[2]]
            elif d[0] == "op":
                _o, op, args, w, i = d
                k = ("op", op, args, w)
                if k not in words:
                    av = [wordv(v, aw) for v, aw in args]
                    out = [0] * w
                    for l in range(lanes):
                        r = OPS[op](*[lane(x, l) for x in av], args[0][1]) & ((1 << w) - 1)
                        for j in range(w):
                            out[j] |= (r >> j & 1) << l
                    words[k] = out
                x = words[k][i]
            else:
                raise Stuck("no valuation")
            val[a] = x
            return x

        # iterate in order of creation, so that the recursion stays shallow
        need, seen, done, bseen = set(), set(), set(), set()
        todo = list(bits)
        while todo:
            b = todo.pop()
            if b in bseen:
                continue
            bseen.add(b)
            new = set(b) - seen
            seen |= new
            for m in new:
                for a in self.monos[m]:
                    if a not in need:
                        need.add(a)
                        d = self.atoms[a]
                        k = d[:2] if d[0] in ("sum", "lut") else d[:4] if d[0] == "op" else None
                        if k is not None:
                            if k in done:
                                continue
                            done.add(k)
                        todo.extend(self._deps(a))
        for a in sorted(need):
            atom(a)
        return [bit(b) for b in bits], val

    def _deps(self, a):
        """the bits an atom is computed from"""
        d = self.atoms[a]
        if d[0] == "def":
            return [d[1]]
        if d[0] == "sum":
            ws = [t for t, _n in self.sumkeys[d[1]][2]]
        elif d[0] == "lut":
            ws = list(d[1][1]) + [tuple([self.of_atom(v) for v in d[1][0]])]
        elif d[0] == "op":
            ws = [v for v, _w in d[2]]
        else:
            return []
        return [b for v in ws if not isinstance(v, int) for b in v]


def _padd(a, b, full):
    out, c = [], 0
    for x, y in zip(a, b):
        out.append(x ^ y ^ c)
        c = (x & y) | (c & (x ^ y))
    return out


def _moebius(f, k):
    for j in range(k):
        s = 1 << j
        for x in range(1 << k):
            if x & s:
                f[x] ^= f[x ^ s]


def width(ty):
    return ty.n if ty.k == "i" else 32 if ty.k == "float" else 64


def _sg(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


OPS = {
    "mul": lambda a, b, w: a * b,
    "udiv": lambda a, b, w: a // b if b else 0,
    "urem": lambda a, b, w: a % b if b else 0,
    "ult": lambda a, b, w: int(a < b),
    "slt": lambda a, b, w: int(_sg(a, w) < _sg(b, w)),
    "shl": lambda a, b, w: a << b if b < w else 0,
    "lshr": lambda a, b, w: a >> b if b < w else 0,
    "ashr": lambda a, b, w: _sg(a, w) >> min(b, w - 1),
}


# ---------------------------------------------------------------- memory
class Obj:
    __slots__ = ("name", "cells", "size", "ro", "fill")

    def __init__(self, name, size, fill=None):
        self.name, self.size, self.ro = name, size, False
        self.cells = {}
        self.fill = fill          # function: offset -> cell


class Ptr:
    __slots__ = ("obj", "off", "idx")

    def __init__(self, obj, off=0, idx=None):
        self.obj, self.off, self.idx = obj, off, idx

    def __repr__(self):
        return "<%s+%d%s>" % (self.obj.name, self.off, "+?" if self.idx else "")


class Vec:
    __slots__ = ("lanes",)

    def __init__(self, lanes):
        self.lanes = tuple(lanes)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Undef(object):
    pass


UNDEF = Undef()


class VG:
    def __init__(self, mod, graph=None, limit=3000000):
        self.m = mod
        self.g = graph or Graph()
        self.globals = {}
        self.steps = 0
        self.limit = limit
        self.cpuid = (0, 0, 0, 0)
        self.locs = ir.Locs(mod)
        self.cur = None
        self.depth = 0
        self.cover = set()
        self.merges = 0
        self.seqno = 0
        self.objs = []
        self.ipd = {}
        self.eqs = {}                  # input-dependent equality tests
        self.forks = 0                 # nesting of input-dependent branches and look-ups
        self.override = {}             # functions replaced by a model

    # ------------------------------------------------ objects
    def obj(self, name, size, fill=None):
        o = Obj(name, size, fill)
        self.objs.append(o)
        return o

    def input(self, name, size):
        g = self.g
        return self.obj(name, size, lambda o: tuple([g.var(("in", name, o, i)) for i in range(8)]))

    def string(self, name, size, data=None):
        """an OCaml byte string; size bytes of input, or given data"""
        o = self.input(name, size)
        if data is not None:
            for i, b in enumerate(data):
                o.cells[i] = b
        return Ptr(o)

    def glob(self, name):
        o = self.globals.get(name)
        if o is None:
            g = self.m.globals.get(name)
            if g is None:
                raise Stuck("unknown global " + name)
            o = self.obj(name, g.ty.size())
            self.globals[name] = o
            o.ro = bool(g.const)
            if g.init is None:
                raise Stuck("external global " + name)
            try:
                for i, b in enumerate(const_bytes(g.ty, g.init)):
                    o.cells[i] = b
            except ValueError:
                self._init(o, 0, g.ty, g.init)
        return o

    def _init(self, o, off, ty, init):
        if init[0] == "a":
            offs = ty.offs() if ty.k in ("struct", "pstruct") else [i * ty.e.size() for i in range(len(init[1]))]
            for (t, v), d in zip(init[1], offs):
                self._init(o, off + d, t, v)
        elif init[0] in ("g", "gep", "cast"):
            self.store(Ptr(o, off), self.val(init, ty, {}), ty)
        else:
            for i, b in enumerate(const_bytes(ty, init)):
                o.cells[off + i] = b

    def outside(self, why):
        return Outside(why) if self.forks == 0 else Stuck(why)

    def cell(self, o, k):
        if not 0 <= k < o.size:
            raise self.outside("access outside %s at %d" % (o.name, k))
        c = o.cells.get(k)
        if c is None:
            if o.fill is None:
                return UNDEF
            c = o.cells[k] = o.fill(k)
        return c

    def load(self, p, ty):
        g = self.g
        if not isinstance(p, Ptr):
            raise Stuck("load from %r" % (p,))
        if ty.k == "vec":
            n = ty.e.size()
            return Vec([self.load(Ptr(p.obj, p.off + i * n, p.idx), ty.e) for i in range(ty.n)])
        n = ty.size()
        w = width(ty)
        if p.idx is None:
            cs = [self.cell(p.obj, p.off + i) for i in range(n)]
            if isinstance(cs[0], tuple) and len(cs[0]) == 3 and cs[0][0] == "p":
                if all(isinstance(c, tuple) and c[0] == "p" and c[1] is cs[0][1] and c[2] == i for i, c in enumerate(cs)) and n == 8:
                    return cs[0][1]
                raise Stuck("partial pointer")
            if any(c is UNDEF for c in cs):
                if all(c is UNDEF for c in cs):
                    return UNDEF
                raise Stuck("partly uninitialised load from %s" % p.obj.name)
            if all(isinstance(c, int) for c in cs):
                v = int.from_bytes(bytes(cs), "little")
                if ty.k == "ptr" and v:
                    raise Stuck("integer as pointer")
                return v & ((1 << w) - 1)
            bits = []
            for c in cs:
                if isinstance(c, tuple) and c and c[0] == "p":
                    raise Stuck("partial pointer")
                bits.extend(g.word(c, 8))
            return g.norm(tuple(bits[:w]))
        sym, scale = p.idx
        base, pos, idx = 0, [], []
        for i, b in enumerate(sym):
            if b == ONE:
                base |= 1 << i
            elif b:
                pos.append(i)
                idx.append(b)
        if len(pos) > 10:
            raise Stuck("index with %d unknown bits into %s" % (len(pos), p.obj.name))
        ent = []
        self.forks += 1
        for x in range(1 << len(pos)):
            v = base
            for j, q in enumerate(pos):
                v |= (x >> j & 1) << q
            if v >> 63 & 1:
                v -= 1 << 64
            e = self.load(Ptr(p.obj, p.off + v * scale), ty)
            if not isinstance(e, (int, tuple)):
                raise Stuck("look-up of %r" % (e,))
            ent.append(e)
        self.forks -= 1
        return g.lookup(ent, idx, w)

    def store(self, p, v, ty):
        if not isinstance(p, Ptr):
            raise Stuck("store to %r" % (p,))
        if p.idx is not None:
            raise Stuck("store at an input-dependent index of %s" % p.obj.name)
        if p.obj.ro:
            raise Stuck("store to constant " + p.obj.name)
        if ty.k == "vec":
            n = ty.e.size()
            for i in range(ty.n):
                self.store(Ptr(p.obj, p.off + i * n), v.lanes[i], ty.e)
            return
        n = ty.size()
        if p.off < 0 or p.off + n > p.obj.size:
            raise self.outside("store outside %s at %d" % (p.obj.name, p.off))
        c = p.obj.cells
        if isinstance(v, (Ptr, Fn)):
            for i in range(8):
                c[p.off + i] = ("p", v, i)
        elif v is UNDEF:
            for i in range(n):
                c[p.off + i] = UNDEF
        elif isinstance(v, int):
            for i in range(n):
                c[p.off + i] = v >> (8 * i) & 255
        else:
            bits = v + (ZERO,) * (8 * n - len(v))
            for i in range(n):
                c[p.off + i] = self.g.norm(bits[8 * i:8 * i + 8])

    def copy(self, d, s, n):
        if not isinstance(n, int) or s.idx is not None or d.idx is not None:
            raise Stuck("copy with input-dependent bounds")
        cs = [self.cell(s.obj, s.off + i) for i in range(n)]
        if d.off < 0 or d.off + n > d.obj.size:
            raise self.outside("copy outside %s at %d" % (d.obj.name, d.off))
        for i, c in enumerate(cs):
            d.obj.cells[d.off + i] = c

    def fillmem(self, d, v, n):
        if not isinstance(n, int) or not isinstance(v, (int, tuple)) or d.idx is not None:
            raise Stuck("memset")
        if d.off < 0 or d.off + n > d.obj.size:
            raise self.outside("memset outside %s at %d" % (d.obj.name, d.off))
        v = self.g.trunc(v, 8)
        for i in range(n):
            d.obj.cells[d.off + i] = v

    # ------------------------------------------------ operands
    def val(self, v, ty, env):
        k = v[0]
        if k == "r":
            return env[v[1]]
        if ty.k == "vec":
            if k == "z":
                return Vec([0] * ty.n)
            if k == "u":
                return Vec([UNDEF] * ty.n)
            if k == "a":
                return Vec([self.val(x, t, env) for t, x in v[1]])
            raise Stuck("vector constant")
        if k == "c":
            return v[1] & ((1 << ty.n) - 1)
        if k == "z":
            if ty.k in ("struct", "arr", "pstruct"):
                raise Stuck("aggregate")
            return 0
        if k == "g":
            if v[1] in self.m.globals:
                return Ptr(self.glob(v[1]))
            return Fn(v[1])
        if k == "u":
            return UNDEF
        if k == "gep":
            return self.gep(v[1], [(t, self.val(x, t, env)) for t, x in v[2]])
        if k == "cast":
            return self.val(v[3], v[2], env)
        if k == "cexpr":
            a, b = [self.val(x, t, env) for t, x in v[2]]
            return self.binop(v[1], a, b, v[2][0][0].n)
        raise Stuck("operand %r" % (k,))

    def gep(self, bt, ops):
        p = ops[0][1]
        if not isinstance(p, Ptr):
            if p == 0 and False:
                pass
            raise Stuck("address of %r" % (p,))
        off, idx = p.off, p.idx
        t = bt
        for k, (it, v) in enumerate(ops[1:]):
            if k == 0:
                sz = bt.size()
            elif t.k in ("struct", "pstruct"):
                off += t.offs()[v]
                t = t.fs[v]
                continue
            else:
                t = t.e
                sz = t.size()
            if isinstance(v, int):
                if v >> (it.n - 1) & 1:
                    v -= 1 << it.n
                off += v * sz
            elif isinstance(v, tuple):
                v = v + (v[-1],) * (64 - len(v))
                if idx is not None:
                    raise Stuck("two input-dependent indices")
                idx = (v, sz)
            else:
                raise Stuck("index %r" % (v,))
        return Ptr(p.obj, off, idx)

    def binop(self, op, a, b, w):
        g = self.g
        M = (1 << w) - 1
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "add":
                if isinstance(b, Ptr):
                    a, b = b, a
                if isinstance(b, int):
                    return Ptr(a.obj, a.off + (b - (1 << w) if b >> (w - 1) else b), a.idx)
                if isinstance(b, tuple) and a.idx is None:
                    return Ptr(a.obj, a.off, (b, 1))
            if op == "sub":
                if isinstance(a, Ptr) and isinstance(b, int):
                    return Ptr(a.obj, a.off - (b - (1 << w) if b >> (w - 1) else b), a.idx)
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.idx is None and b.idx is None:
                    return (a.off - b.off) & M
            if op == "and" and isinstance(a, Ptr) and isinstance(b, int) and b < 8:
                return a.off & b                          # blocks are aligned to words
            if op == "and" and isinstance(a, Ptr) and b == M & ~15 and a.idx is None:
                return Ptr(a.obj, a.off & ~15)            # allocations are taken to be aligned to 16 bytes
            raise Stuck("arithmetic on pointers")
        if a is UNDEF or b is UNDEF:
            if op == "and" and (a == 0 or b == 0):
                return 0
            raise Stuck("arithmetic on an uninitialised value")
        if op in ("and", "or", "xor"):
            return g.bitwise(op, a, b, w)
        if op == "add":
            return g.add(a, b, w)
        if op == "sub":
            return g.linear(((1, a), (-1, b)), w)
        if op in ("shl", "lshr", "ashr"):
            if isinstance(b, int):
                return g.shift(op, a, b, w)
            # barrel shifter over the unknown bits of the amount
            n = w.bit_length() - 1
            r = g.word(a, w)
            B = g.word(b, w)
            for j in range(n):
                if not B[j]:
                    continue
                s = g.word(g.shift(op, g.norm(r), 1 << j, w), w)
                r = tuple([g.mux(B[j], x, y) for x, y in zip(s, r)])
            return g.norm(r)
        if op == "mul":
            if isinstance(a, int) and isinstance(b, int):
                return a * b & M
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                live = [i for i, x in enumerate(a) if x]
                if len(live) == 1:
                    i = live[0]
                    return g.norm(tuple([a[i] if (b << i) >> j & 1 else ZERO for j in range(w)]))
                return g.linear(((b, a),), w)
            live = [i for i, x in enumerate(a) if x]
            if len(live) == 1:
                a, b = b, a
            live = [i for i, x in enumerate(b) if x]
            if len(live) == 1:
                return g.norm(tuple([g.band(x, b[live[0]]) for x in g.word(g.shift("shl", a, live[0], w), w)]))
            x, y = sorted((a, b), key=hash)
            return g.opaque("mul", ((x, w), (y, w)), w)
        if isinstance(a, int) and isinstance(b, int) and b:
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            sa, sb = _sg(a, w), _sg(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            return (q if op == "sdiv" else sa - q * sb) & M
        if op == "urem" and isinstance(b, int) and b & (b - 1) == 0:
            return g.bitwise("and", a, b - 1, w)
        if op == "udiv" and isinstance(b, int) and b & (b - 1) == 0:
            return g.shift("lshr", a, b.bit_length() - 1, w)
        if op in ("udiv", "urem"):
            return g.opaque(op, ((a, w), (b, w)), w)
        if op in ("sdiv", "srem") and isinstance(a, tuple) and not a[-1] and isinstance(b, int) and not b >> (w - 1):
            return self.binop("u" + op[1:], a, b, w)
        raise Stuck("operation " + op)

    def icmp(self, p, a, b, w):
        g = self.g
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj is b.obj and a.idx is None and b.idx is None:
                    return self.icmp(p, a.off & ((1 << 64) - 1), b.off & ((1 << 64) - 1), 64)
                if p in ("eq", "ne"):
                    return int(p == "ne")
            elif (a == 0 or b == 0) and p in ("eq", "ne"):
                return int(p == "ne")
            raise Stuck("comparison of pointers")
        if isinstance(a, Fn) or isinstance(b, Fn):
            raise Stuck("comparison of functions")
        if a is UNDEF or b is UNDEF:
            raise Stuck("comparison of an uninitialised value")
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == "s":
                a, b = _sg(a, w), _sg(b, w)
            q = p if len(p) == 2 else p[1:]
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[q])
        A, B = g.word(a, w), g.word(b, w)
        if p in ("eq", "ne"):
            if len(self.eqs) < 200:
                self.eqs[(A, B)] = 1
            r = ONE
            for x, y in zip(A, B):
                r = g.band(r, x ^ y ^ ONE)
                if not r:
                    break
            if p == "ne":
                r = r ^ ONE
            return g.norm((r,))
        # the number of bits that can be set decides comparisons with constants
        if p in ("ugt", "ule", "sgt", "sle"):
            return self.icmp({"ugt": "ult", "ule": "uge", "sgt": "slt", "sle": "sge"}[p], b, a, w)
        if p in ("uge", "sge"):
            r = self.icmp({"uge": "ult", "sge": "slt"}[p], a, b, w)
            return r ^ 1 if isinstance(r, int) else (r[0] ^ ONE,)
        if p == "slt" and not A[-1] and not B[-1]:
            p = "ult"
        if p == "slt" and b == 0:
            return (A[-1],)
        if p == "ult":
            amax = sum(1 << i for i, x in enumerate(A) if x)
            amin = sum(1 << i for i, x in enumerate(A) if x == ONE)
            bmax = sum(1 << i for i, x in enumerate(B) if x)
            bmin = sum(1 << i for i, x in enumerate(B) if x == ONE)
            if amax < bmin:
                return 1
            if amin >= bmax:
                return 0
            if isinstance(b, int) and b & (b - 1) == 0 and b:
                r = ONE
                for x in A[b.bit_length() - 1:]:
                    r = g.band(r, x ^ ONE)
                return g.norm((r,))
        return g.opaque(p, ((a, w), (b, w)), 1)

    # ------------------------------------------------ control flow
    def postdom(self, f):
        r = self.ipd.get(f.name)
        if r is not None:
            return r
        c = ir.cfg(f)
        exits = [b for b in c.rpo if not c.succ[b]]
        pd = {b: None for b in c.rpo}
        sets = {b: (set([b]) if b in exits else set(c.rpo)) for b in c.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(c.rpo):
                if b in exits:
                    continue
                s = set.intersection(*[sets[x] for x in c.succ[b]]) | {b}
                if s != sets[b]:
                    sets[b] = s
                    ch = True
        for b in c.rpo:
            cand = sets[b] - {b}
            for x in cand:
                if sets[x] == cand:
                    pd[b] = x
        self.ipd[f.name] = pd
        return pd

    def snapshot(self):
        return [(o, dict(o.cells)) for o in self.objs]

    def restore(self, snap):
        for o, c in snap:
            o.cells = dict(c)

    def pick(self, c, a, b):
        """the value c ? a : b"""
        g = self.g
        if a is b or (isinstance(a, (int, tuple)) and a == b):
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.off == b.off and a.idx == b.idx:
            return a
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Vec) and isinstance(b, Vec):
            return Vec([self.pick(c, x, y) for x, y in zip(a.lanes, b.lanes)])
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.idx is None and b.idx is None:
            d = b.off ^ a.off
            return Ptr(a.obj, 0, (g.word(self.pick(c, a.off, b.off), 64), 1)) if min(a.off, b.off) >= 0 else UNDEF
        if isinstance(a, (int, tuple)) and isinstance(b, (int, tuple)):
            w = len(a) if isinstance(a, tuple) else len(b) if isinstance(b, tuple) else 64
            r = tuple([g.mux(c, x, y) for x, y in zip(g.word(a, w), g.word(b, w))])
            return g.norm(r)
        return UNDEF

    def fix(self, v, ty):
        """width of a merged integer"""
        if isinstance(v, tuple) and ty.k == "i" and len(v) != ty.n:
            return self.g.norm((v + (ZERO,) * ty.n)[:ty.n])
        return v

    def call(self, name, args):
        if name in self.override:
            return self.override[name](self, *args)
        return self.call_body(name, args)

    def call_body(self, name, args):
        f = self.m.funcs.get(name)
        if f is None or not f.blocks:
            return self.extern(name, args)
        self.depth += 1
        if self.depth > 60:
            raise Stuck("recursion in " + name)
        self.cover.add(name)
        env = {nm: v for (_t, nm), v in zip(f.params, args)}
        kind, r = self.run(f, f.order[0], None, None, env)
        self.depth -= 1
        return r

    def run(self, f, b, prev, stop, env):
        """follow the code from block b until `stop` or a return"""
        while True:
            if b == stop:
                return "at", prev
            ins = f.blocks[b]
            phis = [s for s in ins if s.op == "phi"]
            if phis:
                vals = []
                for s in phis:
                    for v, p in s.x:
                        if p == prev:
                            vals.append(self.val(v, s.ty, env))
                            break
                    else:
                        raise Stuck("phi")
                for s, v in zip(phis, vals):
                    env[s.res] = v
            r = self.block(f, b, stop, env, len(phis))
            if r[0] == "go":
                prev, b = b, r[1]
                continue
            if r[0] == "ret":
                return r
            if r[0] == "merge":
                b, prev = r[1], None
                if b == stop:
                    return "at", ("merged", r[2])
                # the phis of the join were computed by the merge
                r = self.block(f, b, stop, env, len([s for s in f.blocks[b] if s.op == "phi"]))
                while r[0] == "merge":
                    b = r[1]
                    if b == stop:
                        return "at", ("merged", r[2])
                    r = self.block(f, b, stop, env, len([s for s in f.blocks[b] if s.op == "phi"]))
                if r[0] == "ret":
                    return r
                prev, b = b, r[1]

    def phival(self, f, join, prev, env):
        if isinstance(prev, tuple):
            return prev[1]
        out = {}
        for s in f.blocks[join]:
            if s.op != "phi":
                break
            for v, p in s.x:
                if p == prev:
                    out[s.res] = self.val(v, s.ty, env)
                    break
            else:
                raise Stuck("phi")
        return out

    def branch(self, f, b, cond, x, y, env):
        join = self.postdom(f)[b]
        if join is None:
            raise Stuck("input-dependent branch without a join in %s" % f.name)
        self.merges += 1
        if self.merges > 4000:
            raise Stuck("too many input-dependent branches")
        self.depth += 1
        if self.depth > 60:
            raise Stuck("input-dependent loop in " + f.name)
        snap = self.snapshot()
        arms = []
        self.forks += 1
        for t in (x, y):
            e = dict(env)
            if t == join:
                ph = self.phival(f, join, b, e)
            else:
                r = self.run(f, t, b, join, e)
                if r[0] != "at":
                    raise Stuck("input-dependent return in " + f.name)
                ph = self.phival(f, join, r[1], e)
            arms.append((ph, {o: o.cells for o in self.objs}))
            self.restore(snap)
        self.depth -= 1
        self.forks -= 1
        (pa, ma), (pb, mb) = arms
        tys = {s.res: s.ty for s in f.blocks[join] if s.op == "phi"}
        ph = {}
        for n in tys:
            v = pa[n] if n in pa else None
            ph[n] = self.fix(self.pick(cond, pa[n], pb[n]), tys[n])
            if ph[n] is UNDEF and not (pa[n] is UNDEF or pb[n] is UNDEF):
                raise Stuck("merge of %r and %r" % (pa[n], pb[n]))
        env.update(ph)
        for o in self.objs:
            ca, cb = ma.get(o, {}), mb.get(o, {})
            if ca == cb:
                o.cells = dict(ca)
                continue
            cells = {}
            for k in set(ca) | set(cb):
                va = ca.get(k)
                vb = cb.get(k)
                if va is None:
                    va = o.fill(k) if o.fill else UNDEF
                if vb is None:
                    vb = o.fill(k) if o.fill else UNDEF
                if va is vb or (va is not UNDEF and vb is not UNDEF and va == vb):
                    cells[k] = va
                elif va is UNDEF or vb is UNDEF or "p" in (va[:1] if isinstance(va, tuple) else ()) or \
                        "p" in (vb[:1] if isinstance(vb, tuple) else ()):
                    cells[k] = UNDEF
                else:
                    r = self.pick(cond, va, vb)
                    cells[k] = self.g.norm((self.g.word(r, 8))[:8])
            o.cells = cells
        return ("merge", join, ph)

    def block(self, f, b, stop, env, start):
        g = self.g
        ins = f.blocks[b]
        for s in ins[start:]:
            self.steps += 1
            if self.steps > self.limit:
                raise Stuck("too long")
            self.cur = s
            op = s.op
            if op in ir.BIN:
                if s.ty.k == "vec":
                    A, B = self.val(s.a[0], s.ty, env), self.val(s.a[1], s.ty, env)
                    env[s.res] = Vec([self.binop(op, x, y, s.ty.e.n) for x, y in zip(A.lanes, B.lanes)])
                elif s.ty.k == "i":
                    env[s.res] = self.binop(op, self.val(s.a[0], s.ty, env), self.val(s.a[1], s.ty, env), s.ty.n)
                else:
                    raise Stuck("floating point")
            elif op == "load":
                env[s.res] = self.load(self.val(s.a[0], ir.PTR, env), s.ty)
            elif op == "store":
                self.store(self.val(s.a[1], ir.PTR, env), self.val(s.a[0], s.ty, env), s.ty)
            elif op == "getelementptr":
                env[s.res] = self.gep(s.x, [(t, self.val(v, t, env)) for t, v in s.a])
            elif op in ir.CAST:
                env[s.res] = self.cast(s, self.val(s.a[0], s.x, env))
            elif op == "icmp":
                w = s.ty.n if s.ty.k == "i" else 64
                if s.ty.k == "vec":
                    raise Stuck("vector comparison")
                env[s.res] = self.icmp(s.x, self.val(s.a[0], s.ty, env), self.val(s.a[1], s.ty, env), w)
            elif op == "br":
                if len(s.x) == 1:
                    return ("go", s.x[0])
                c = self.val(s.a[0], ir.I[1], env)
                if isinstance(c, int):
                    return ("go", s.x[0] if c & 1 else s.x[1])
                if c is UNDEF:
                    raise Stuck("branch on an uninitialised value")
                return self.branch(f, b, c[0], s.x[0], s.x[1], env)
            elif op == "switch":
                c = self.val(s.a[0], s.ty, env)
                if not isinstance(c, int):
                    raise Stuck("input-dependent switch")
                M = (1 << s.ty.n) - 1
                for k, t in s.x[1]:
                    if k & M == c:
                        return ("go", t)
                return ("go", s.x[0])
            elif op == "ret":
                return ("ret", self.val(s.a[0], s.ty, env) if s.a else None)
            elif op == "call":
                r = self.docall(s, env)
                if s.res:
                    env[s.res] = r
            elif op == "select":
                c = self.val(s.a[0], s.x, env)
                x, y = self.val(s.a[1], s.ty, env), self.val(s.a[2], s.ty, env)
                if isinstance(c, int):
                    env[s.res] = x if c & 1 else y
                elif isinstance(c, tuple):
                    env[s.res] = self.fix(self.pick(c[0], x, y), s.ty)
                else:
                    raise Stuck("select")
            elif op == "alloca":
                n = 1
                if s.a:
                    n = self.val(s.a[0], ir.I[64], env)
                    if not isinstance(n, int):
                        raise Stuck("alloca")
                self.seqno += 1
                env[s.res] = Ptr(self.obj("%s.%s" % (f.name, s.res), s.x.size() * n))
            elif op == "extractvalue":
                v = self.val(s.a[0], ir.PTR, env)
                for k in s.x:
                    v = v[1][k]
                env[s.res] = v
            elif op == "freeze":
                env[s.res] = self.val(s.a[0], s.ty, env)
            elif op == "extractelement":
                v = self.val(s.a[0], s.x[0][0], env)
                i = self.val(s.a[1], s.x[1][0], env)
                if not isinstance(i, int):
                    raise Stuck("lane")
                env[s.res] = v.lanes[i]
            elif op == "insertelement":
                v = self.val(s.a[0], s.x[0][0], env)
                i = self.val(s.a[2], s.x[2][0], env)
                if not isinstance(i, int):
                    raise Stuck("lane")
                l = list(v.lanes)
                l[i] = self.val(s.a[1], s.x[1][0], env)
                env[s.res] = Vec(l)
            elif op == "shufflevector":
                a = self.val(s.a[0], s.x[0][0], env).lanes + self.val(s.a[1], s.x[1][0], env).lanes
                mk = s.a[2]
                n = s.x[2][0].n
                ix = [0] * n if mk[0] == "z" else [None] * n if mk[0] == "u" else [x[1] if x[0] == "c" else None for _t, x in mk[1]]
                env[s.res] = Vec([UNDEF if i is None else a[i] for i in ix])
            elif op == "unreachable":
                raise Stuck("unreachable code reached")
            elif op in ("nop", "phi"):
                pass
            else:
                raise Stuck("instruction " + op)
        raise Stuck("block without end")

    def cast(self, s, v):
        op, ft, ty = s.op, s.x, s.ty
        g = self.g
        if op == "bitcast":
            return self.recast(v, ft, ty)
        if isinstance(v, Vec):
            c = ir.Ins()
            c.op, c.x, c.ty = op, ft.e, ty.e
            return Vec([self.cast(c, x) for x in v.lanes])
        if op in ("ptrtoint", "inttoptr", "addrspacecast") or isinstance(v, (Ptr, Fn)):
            if op == "trunc":
                raise Stuck("truncated pointer")
            return v
        if v is UNDEF:
            return v
        if op == "trunc":
            return g.trunc(v, ty.n)
        if op == "zext":
            return v if isinstance(v, int) else v + (ZERO,) * (ty.n - len(v))
        if op == "sext":
            if isinstance(v, int):
                return v | (((1 << ty.n) - (1 << ft.n)) if v >> (ft.n - 1) & 1 else 0)
            return v + (v[-1],) * (ty.n - len(v))
        raise Stuck("conversion " + op)

    def tobits(self, v, ty):
        g = self.g
        if isinstance(v, Vec):
            out = ()
            for x in v.lanes:
                out += self.tobits(x, ty.e)
            return out
        if not isinstance(v, (int, tuple)):
            raise Stuck("bits of %r" % (v,))
        return g.word(v, width(ty))

    def frombits(self, bits, ty):
        if ty.k == "vec":
            w = width(ty.e)
            return Vec([self.g.norm(bits[i * w:(i + 1) * w]) for i in range(ty.n)])
        return self.g.norm(bits)

    def recast(self, v, ft, ty):
        if ft.k == "vec" or ty.k == "vec":
            if isinstance(v, Vec) and any(x is UNDEF for x in v.lanes):
                if all(x is UNDEF for x in v.lanes):
                    return Vec([UNDEF] * ty.n)
                raise Stuck("undefined lane")
            return self.frombits(self.tobits(v, ft), ty)
        return v

    def docall(self, s, env):
        if s.x[0] == "asm":
            return self.asm(s)
        if s.x[0] == "r":
            fv = env[s.x[1]]
            if not isinstance(fv, Fn):
                raise Stuck("indirect call")
            name = fv.name
        else:
            name = s.x[1]
        if name.startswith(("@llvm.dbg", "@llvm.lifetime", "@llvm.assume", "@llvm.prefetch", "@llvm.experimental")):
            return None
        args = [self.val(v, t, env) for t, v in s.a]
        if name.startswith("@llvm."):
            return self.intrinsic(name, args, s)
        return self.call(name, args)

    def asm(self, s):
        t = " ".join(s.x[1])
        if "cpuid" in t:
            return ("agg", self.cpuid)
        if s.ty.k == "void":
            return None
        raise Stuck("inline assembly")

    def intrinsic(self, name, args, s):
        g = self.g
        if name.startswith(("@llvm.memcpy", "@llvm.memmove")):
            return self.copy(args[0], args[1], args[2])
        if name.startswith("@llvm.memset"):
            return self.fillmem(args[0], args[1], args[2])
        if name.startswith(("@llvm.fshl", "@llvm.fshr")):
            w = s.ty.n
            a, b, n = args
            if not isinstance(n, int):
                raise Stuck("rotation by an input-dependent amount")
            n %= w
            if name.startswith("@llvm.fshr"):
                n = (w - n) % w if n else 0
                if n == 0:
                    return b
            if n == 0:
                return a
            return g.bitwise("or", g.shift("shl", a, n, w), g.shift("lshr", b, w - n, w), w)
        if name.startswith("@llvm.bswap"):
            w = s.ty.n
            a = g.word(args[0], w)
            return g.norm(sum([a[i:i + 8] for i in range(w - 8, -1, -8)], ()))
        for nm, fn in (("ctlz", lambda x, w: w - x.bit_length()), ("cttz", lambda x, w: (x & -x).bit_length() - 1 if x else w),
                       ("ctpop", lambda x, w: x.bit_count()), ("abs", lambda x, w: abs(_sg(x, w)) & ((1 << w) - 1))):
            if name.startswith("@llvm.%s." % nm):
                if not isinstance(args[0], int):
                    raise Stuck("intrinsic " + name)
                return fn(args[0], s.ty.n)
        for nm, cmp in (("umin", "ult"), ("umax", "ugt"), ("smin", "slt"), ("smax", "sgt")):
            if name.startswith("@llvm.%s." % nm):
                c = self.icmp(cmp, args[0], args[1], s.ty.n)
                if isinstance(c, int):
                    return args[0] if c else args[1]
                return self.fix(self.pick(c[0], args[0], args[1]), s.ty)
        if name.startswith("@llvm.bitreverse"):
            return g.norm(tuple(reversed(g.word(args[0], s.ty.n))))
        f = HW.get(name)
        if f is not None:
            return f(self, args, s)
        raise Stuck("intrinsic " + name)

    def extern(self, name, args):
        f = RUNTIME.get(name[1:])
        if f is None:
            raise Stuck("call of " + name)
        return f(self, *args)

    def where(self):
        return "%s %s" % (self.locs.loc(self.cur.dbg), self.cur.fn) if self.cur is not None else "?"


RUNTIME = {}


def rt(*names):
    def d(f):
        for n in names:
            RUNTIME[n] = f
        return f
    return d


@rt("sa_root")
def _root(vg, p, n):
    return None


@rt("sa_mark")
def _mark(vg):
    return 0


@rt("sa_leave", "sa_event", "sa_kernel", "sa_ghost", "sa_result", "caml_stat_free", "free", "caml_register_custom_operations",
    "sa_guard")
def _none(vg, *a):
    return None


@rt("caml_alloc_string", "caml_stat_alloc", "malloc", "caml_alloc_small", "sa_raw")
def _alloc(vg, n, *a):
    if not isinstance(n, int):
        raise Stuck("allocation size")
    vg.seqno += 1
    return Ptr(vg.obj("heap%d" % vg.seqno, n))


@rt("calloc")
def _calloc(vg, a, b):
    p = _alloc(vg, a * b)
    vg.fillmem(p, 0, a * b)
    return p


@rt("caml_alloc_custom")
def _custom(vg, ops, n, *a):
    p = _alloc(vg, n + 8)
    return p


@rt("caml_string_length", "sa_len")
def _len(vg, s):
    if not isinstance(s, Ptr) or s.off:
        raise Stuck("length of %r" % (s,))
    return s.obj.size


@rt("memcpy", "memmove")
def _memcpy(vg, d, s, n):
    vg.copy(d, s, n)
    return d


@rt("memset")
def _memset(vg, d, v, n):
    vg.fillmem(d, v, n)
    return d


# ---------------------------------------------------------------- AES and carry-less multiplication instructions
def gf_mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


def _sbox():
    inv = [0] * 256
    for x in range(1, 256):
        for y in range(1, 256):
            if gf_mul(x, y) == 1:
                inv[x] = y
                break
    out = []
    for x in range(256):
        b, r = inv[x], 0x63
        for i in range(5):
            r ^= ((b << i) | (b >> (8 - i))) & 255
        out.append(r)
    return out


SBOX = _sbox()
INVS = [SBOX.index(x) for x in range(256)]


def table(g, t, byte, w=8):
    """t[byte] in normal form"""
    if isinstance(byte, int):
        return t[byte]
    live = [i for i, b in enumerate(byte) if b and b != ONE]
    base = sum(1 << i for i, b in enumerate(byte) if b == ONE)
    ent = []
    for x in range(1 << len(live)):
        ent.append(t[base | sum((x >> j & 1) << i for j, i in enumerate(live))])
    return g.lookup(ent, [byte[i] for i in live], w)


def gfmul_const(g, byte, c):
    """multiplication by a constant of GF(2^8): linear"""
    b = g.word(byte, 8)
    out = [ZERO] * 8
    for i in range(8):
        p = gf_mul(1 << i, c)
        for j in range(8):
            if p >> j & 1:
                out[j] = out[j] ^ b[i]
    return g.norm(tuple(out))


def xorb(g, *bs):
    r = 0
    for b in bs:
        r = g.bitwise("xor", r, b, 8)
    return r


def mixcols(g, st, m=(2, 3, 1, 1)):
    out = []
    for c in range(4):
        col = st[4 * c:4 * c + 4]
        for r in range(4):
            out.append(xorb(g, *[gfmul_const(g, col[k], m[(k - r) % 4]) for k in range(4)]))
    return out


def shiftrows(st, inv=False):
    return [st[4 * ((c - r if inv else c + r) % 4) + r] for c in range(4) for r in range(4)]


def _bytes(vg, v, ty):
    bits = vg.tobits(v, ty)
    return [vg.g.norm(bits[i:i + 8]) for i in range(0, 128, 8)]


def _vec(vg, bs, ty):
    return vg.frombits(sum([vg.g.word(b, 8) for b in bs], ()), ty)


HW = {}


def _aes(name, f):
    def g(vg, args, s):
        t = s.ty
        a = _bytes(vg, args[0], t)
        k = _bytes(vg, args[1], t)
        return _vec(vg, f(vg.g, a, k), t)
    HW["@llvm.x86.aesni." + name] = g


def _sub(g, st, t=SBOX):
    return [table(g, t, b) for b in st]


def _ark(g, a, k):
    return [xorb(g, x, y) for x, y in zip(a, k)]


INVM = (14, 11, 13, 9)
_aes("aesenc", lambda g, a, k: _ark(g, mixcols(g, _sub(g, shiftrows(a))), k))
_aes("aesenclast", lambda g, a, k: _ark(g, _sub(g, shiftrows(a)), k))
_aes("aesdec", lambda g, a, k: _ark(g, mixcols(g, _sub(g, shiftrows(a, True), INVS), INVM), k))
_aes("aesdeclast", lambda g, a, k: _ark(g, _sub(g, shiftrows(a, True), INVS), k))


def _imc(vg, args, s):
    return _vec(vg, mixcols(vg.g, _bytes(vg, args[0], s.ty), INVM), s.ty)


def _kga(vg, args, s):
    g = vg.g
    a = _bytes(vg, args[0], s.ty)
    rc = args[1]
    out = []
    for k in (1, 3):
        w = [table(g, SBOX, b) for b in a[4 * k:4 * k + 4]]
        r = w[1:] + w[:1]
        out += w + [xorb(g, r[0], rc)] + r[1:]
    return _vec(vg, out, s.ty)


HW["@llvm.x86.aesni.aesimc"] = _imc
HW["@llvm.x86.aesni.aeskeygenassist"] = _kga


def _pclmul(vg, args, s):
    g = vg.g
    im = args[2]
    a = g.word(args[0].lanes[im & 1], 64)
    b = g.word(args[1].lanes[im >> 4 & 1], 64)
    out = [ZERO] * 128
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                if y:
                    out[i + j] = out[i + j] ^ g.band(x, y)
    return Vec([g.norm(tuple(out[:64])), g.norm(tuple(out[64:]))])


HW["@llvm.x86.pclmulqdq"] = _pclmul


def _vshift(op, w):
    def f(vg, args, s):
        n = args[1]
        if not isinstance(n, int):
            raise Stuck("vector shift")
        return Vec([vg.g.shift(op, x, n, w) if n < w else 0 for x in args[0].lanes])
    return f


for _w, _c in ((32, "d"), (64, "q"), (16, "w")):
    HW["@llvm.x86.sse2.pslli." + _c] = _vshift("shl", _w)
    HW["@llvm.x86.sse2.psrli." + _c] = _vshift("lshr", _w)


def _pshufb(vg, args, s):
    out = []
    for m in args[1].lanes:
        if not isinstance(m, int):
            raise Stuck("byte shuffle")
        out.append(0 if m & 0x80 else args[0].lanes[m & 15])
    return Vec(out)


HW["@llvm.x86.ssse3.pshuf.b.128"] = _pshufb
