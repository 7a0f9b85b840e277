"""Value graphs over the integers, for the arithmetic of Poly1305.

A machine word is an integer polynomial over atoms (input bits, state limbs, and the quotients floor(B / 2^k) that
shifts introduce), together with an interval.  The low part of a word is B - 2^k * quotient, so carries cancel when limbs are
recombined, and congruence modulo p is a comparison of coefficients.  A word is only identified with its polynomial when the
interval shows that nothing wraps; otherwise the wrapped part is a quotient too, and stays visible in the comparison."""
import random
from . import ir
from . import vg
from .vg import Ptr, Fn, UNDEF, Stuck, width

BIG = 60000


class V:
    __slots__ = ("p", "lo", "hi", "bits", "prov", "k")

    def __init__(self, p, lo, hi, bits=None, prov=None):
        self.p, self.lo, self.hi, self.bits, self.prov, self.k = p, lo, hi, bits, prov, None


class Fork(Exception):
    pass


class PV(vg.VG):
    """one path: `choices` decides the forks; new forks are appended to `todo`"""

    def __init__(self, mod, choices=(), **kw):
        vg.VG.__init__(self, mod, **kw)
        self.atoms = []                # descriptors: ("bit", name), ("in", name, lo, hi), ("hi", V, k)
        self.ab = []                   # bounds
        self.index = {}
        self.choices = list(choices)
        self.nfork = 0
        self.todo = []
        self.cons = []                 # (poly V, relation) relation in "<", ">=", "==", "!="
        self.ref = {}                  # refined bounds by polynomial
        self.dec = {}
        self.quo = {}                  # bounds of quotients that are not atoms

    # ------------------------------------------------ atoms and polynomials
    def atom(self, d, lo, hi):
        k = self.index.get(d)
        if k is None:
            k = self.index[d] = len(self.atoms)
            self.atoms.append(d)
            self.ab.append((lo, hi))
        return k

    def key(self, v):
        if v.k is None:
            v.k = frozenset(v.p.items())
        return v.k

    def mk(self, p, lo, hi, bits=None, prov=None):
        if not p:
            return 0
        if len(p) == 1 and () in p:
            lo = hi = p[()]
        if len(p) > BIG:
            raise Stuck("polynomial too large")
        if lo == hi and lo >= 0:
            return lo
        v = V(p, lo, hi, bits, prov)
        if self.ref:
            r = self.ref.get(self.key(v))
            if r:
                v.lo, v.hi = max(lo, r[0]), min(hi, r[1])
        return v

    def of(self, a):
        if isinstance(a, V):
            return a
        if isinstance(a, int):
            return V({(): a} if a else {}, a, a, None)
        raise Stuck("arithmetic on %r" % (a,))

    def inbits(self, items):
        """the word with these bits (0, 1 or atom number, least significant first)"""
        items = list(items)
        while items and items[-1] == ("c", 0):
            items.pop()
        p = {}
        lo = hi = 0
        for i, b in enumerate(items):
            if b[0] == "c":
                if b[1]:
                    p[()] = p.get((), 0) + (1 << i)
                    lo += 1 << i
                    hi += 1 << i
            else:
                p[(b[1],)] = p.get((b[1],), 0) + (1 << i)
                hi += 1 << i
        return self.mk(p, lo, hi, tuple(items))

    def getbits(self, a, w):
        if isinstance(a, int):
            return [("c", a >> i & 1) for i in range(w)]
        if a.bits is None:
            return None
        return (list(a.bits) + [("c", 0)] * w)[:w]

    def input(self, name, size):
        def fill(o):
            return self.inbits([("b", self.atom(("bit", name, 8 * o + i), 0, 1)) for i in range(8)])
        return self.obj(name, size, fill)

    def lin(self, a, b, s):
        """a + s*b"""
        a, b = self.of(a), self.of(b)
        p = dict(a.p)
        for m, c in b.p.items():
            n = p.get(m, 0) + s * c
            if n:
                p[m] = n
            else:
                p.pop(m, None)
        return self.mk(p, a.lo + (b.lo if s > 0 else -b.hi) * abs(s), a.hi + (b.hi if s > 0 else -b.lo) * abs(s))

    def times(self, a, b):
        a, b = self.of(a), self.of(b)
        if len(a.p) * len(b.p) > 40 * BIG:
            raise Stuck("product too large")
        p = {}
        for m, c in a.p.items():
            for n, d in b.p.items():
                k = tuple(sorted(m + n)) if m and n else m or n
                # a bit is its own square
                if len(k) > 1:
                    k = tuple([x for i, x in enumerate(k) if i == 0 or x != k[i - 1] or self.atoms[x][0] != "bit"])
                p[k] = p.get(k, 0) + c * d
        p = {k: c for k, c in p.items() if c}
        ps = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        return self.mk(p, min(ps), max(ps))

    def pbounds(self, p):
        lo = hi = 0
        for m, c in p.items():
            l, h = 1, 1
            for a in m:
                x, y = self.ab[a]
                ps = (l * x, l * y, h * x, h * y)
                l, h = min(ps), max(ps)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    def hi(self, a, k):
        """floor(a / 2^k)"""
        if isinstance(a, int):
            return a >> k
        if a.prov is not None:
            b, j = a.prov
            return self.hi(b, j + k)
        if a.bits is not None:
            return self.inbits(a.bits[k:])
        if 0 <= a.lo and a.hi < 1 << k:
            return 0
        M = (1 << k) - 1
        A, B = {}, {}
        for m, c in a.p.items():
            if c & M:
                B[m] = c
            else:
                A[m] = c >> k
        if not A:
            bl, bh = a.lo, a.hi
        else:
            bl, bh = self.pbounds(B)
        lo, hi = a.lo >> k, a.hi >> k
        if not B:
            return self.mk(A, lo, hi)
        t = 0
        for c in B.values():
            t |= c
        t = (t & -t).bit_length() - 1
        if t:
            B = {m: c >> t for m, c in B.items()}
            bl, bh = bl >> t, -(-bh >> t)
        if bl >> (k - t) == bh >> (k - t):
            q = bl >> (k - t)
            r = dict(A)
            if q:
                n = r.get((), 0) + q
                if n:
                    r[()] = n
                else:
                    r.pop((), None)
            return self.mk(r, lo, hi)
        bv = V(B, bl, bh)
        d = ("hi", self.key(bv), k - t)
        q = self.index.get(d)
        if q is None:
            q = self.atom(d, bl >> (k - t), bh >> (k - t))
        else:
            x, y = self.ab[q]
            self.ab[q] = (max(x, bl >> (k - t)), min(y, bh >> (k - t)))
        r = dict(A)
        r[(q,)] = r.get((q,), 0) + 1
        r = self.mk(r, lo, hi)
        if isinstance(r, V) and 1 < len(r.p) < 6:
            self.quo.setdefault(q, {})[self.key(r)] = (r.lo, r.hi)
        return r

    def low(self, a, k):
        """a mod 2^k"""
        if isinstance(a, int):
            return a & ((1 << k) - 1)
        if a.bits is not None:
            return self.inbits(a.bits[:k])
        if 0 <= a.lo and a.hi < 1 << k:
            return a
        q = self.hi(a, k)
        r = self.lin(a, q, -(1 << k))
        if isinstance(r, int):
            return r
        t = 1 << k
        for c in r.p.values():
            t |= c
        lo, hi = 0, (1 << k) - (t & -t)
        lo, hi = max(lo, r.lo) if r.lo > lo else lo, min(hi, r.hi)
        r.lo, r.hi = lo, hi
        self.ref[self.key(r)] = (lo, hi)
        return r

    # ------------------------------------------------ forks
    def fork(self, v, rels):
        """decide whether v satisfies rels[0] or rels[1]"""
        key = (self.key(v), rels)
        d = self.dec.get(key)
        if d is None:
            i = self.nfork
            self.nfork += 1
            if i < len(self.choices):
                d = self.choices[i]
            else:
                d = 0
                if i > 6:
                    raise Stuck("too many input-dependent branches")
                self.todo.append(self.choices[:i] + [1])
                self.choices.append(0)
            self.dec[key] = d
            self.cons.append((v, rels[d]))
        return d

    def canon(self, a, w):
        """the representative in [0, 2^w)"""
        if isinstance(a, int):
            return a & ((1 << w) - 1)
        if 0 <= a.lo and a.hi < 1 << w:
            return a
        if a.lo < 0 and a.lo >= -(1 << w) and a.hi < 1 << w:
            if a.hi < 0:
                return self.lin(a, 1 << w, 1)
            if self.fork(a, (">=", "<")) == 0:
                r = self.mk(dict(a.p), 0, a.hi)
                if isinstance(r, V):
                    self.ref[self.key(r)] = (0, a.hi)
                return r
            r = self.mk(dict(a.p), a.lo, -1)
            return self.lin(r, 1 << w, 1)
        return self.low(a, w)

    # ------------------------------------------------ instructions
    def binop(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int) or isinstance(a, Ptr) or isinstance(b, Ptr) or a is UNDEF or b is UNDEF:
            return vg.VG.binop(self, op, a, b, w)
        if not isinstance(a, (int, V)) or not isinstance(b, (int, V)):
            raise Stuck("operation on %r, %r" % (a, b))
        M = (1 << w) - 1
        if op in ("add", "sub"):
            if isinstance(b, int) and b >> (w - 1) and w > 1:
                b -= 1 << w
            return self.lin(a, b, 1 if op == "add" else -1)
        if op == "mul":
            if isinstance(b, int) and b >> (w - 1):
                b -= 1 << w
            if isinstance(a, int) and a >> (w - 1):
                a -= 1 << w
            if isinstance(a, V) and (a.lo < 0 or a.hi > M):
                a = self.canon(a, w)
            if isinstance(b, V) and (b.lo < 0 or b.hi > M):
                b = self.canon(b, w)
            return self.times(a, b)
        if op == "shl" and isinstance(b, int):
            x = self.getbits(a, w)
            if x is not None:
                return self.inbits(([("c", 0)] * b + x)[:w])
            return self.times(a, 1 << b)
        if op == "lshr" and isinstance(b, int):
            a = self.canon(a, w)
            if isinstance(a, int):
                return a >> b
            r = self.hi(a, b)
            if isinstance(r, V) and r.bits is None:
                pv = a.prov
                r.prov = (pv[0], pv[1] + b) if pv else (a, b)
            return r
        if op == "and":
            if isinstance(a, int):
                a, b = b, a
            x, y = self.getbits(a, w), self.getbits(b, w)
            if x is not None and y is not None:
                r = []
                for s, t in zip(x, y):
                    if s == ("c", 0) or t == ("c", 0):
                        r.append(("c", 0))
                    elif s == ("c", 1):
                        r.append(t)
                    elif t == ("c", 1) or s == t:
                        r.append(s)
                    else:
                        raise Stuck("product of input bits")
                return self.inbits(r)
            if not isinstance(b, int):
                raise Stuck("and of two unknown words")
            if b == M:
                return a
            # runs of ones
            r, i = 0, 0
            while i < w:
                if b >> i & 1:
                    j = i
                    while b >> j & 1:
                        j += 1
                    c = self.canon(a, w) if j >= w else a
                    x = self.low(self.hi(c, i) if i else c, j - i)
                    if i:
                        x = self.times(x, 1 << i)
                    r = self.lin(r, x, 1) if r else x
                    i = j
                else:
                    i += 1
            return r
        if op in ("or", "xor"):
            if isinstance(a, int):
                a, b = b, a
            if b == 0:
                return a
            if op == "xor" and b == M:
                return self.lin(M, a, -1)
            x, y = self.getbits(a, w), self.getbits(b, w)
            if x is not None and y is not None:
                r = []
                for s, t in zip(x, y):
                    if s == ("c", 0):
                        r.append(t)
                    elif t == ("c", 0):
                        r.append(s)
                    elif op == "or" and (s == t or ("c", 1) in (s, t)):
                        r.append(("c", 1) if ("c", 1) in (s, t) else s)
                    else:
                        raise Stuck("or of input bits")
                return self.inbits(r)
            a, b = self.canon(a, w), self.canon(b, w)
            if isinstance(a, int) or isinstance(b, int):
                if isinstance(a, int) and isinstance(b, int):
                    return a | b if op == "or" else a ^ b
                if b == 0 or a == 0:
                    return a or b
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and bin(b).count("1") <= 8:
                r = a
                for i in range(w):
                    if b >> i & 1:
                        x = self.times(self.low(self.hi(a, i) if i else a, 1), 1 << i)
                        r = self.lin(self.lin(r, 1 << i, 1), x, -2 if op == "xor" else -1)
                if isinstance(r, V):
                    r.lo, r.hi = max(r.lo, 0), min(r.hi, (1 << max(a.hi, b).bit_length()) - 1)
                return r
            A, B = self.of(a), self.of(b)
            for u, v in ((A, B), (B, A)):
                t = 0
                for c in u.p.values():
                    t |= c
                if v.hi < (t & -t) and v.lo >= 0:
                    return self.lin(a, b, 1)
            raise Stuck("or of overlapping words")
        if op == "udiv" and isinstance(b, int) and b & (b - 1) == 0:
            return self.binop("lshr", a, b.bit_length() - 1, w)
        if op == "urem" and isinstance(b, int) and b & (b - 1) == 0:
            return self.binop("and", a, b - 1, w)
        if op == "ashr" and isinstance(b, int) and isinstance(a, V):
            if -(1 << (w - 1)) <= a.lo and a.hi < 1 << (w - 1):
                if a.lo < 0 <= a.hi:
                    a = self.canon(a, w)
                    if isinstance(a, int):
                        return vg.VG.binop(self, op, a, b, w)
                    if a.hi >= 1 << (w - 1):
                        a = self.lin(a, 1 << w, -1)
                r = self.hi(a, b)
                return r if isinstance(r, V) else r & M
        raise Stuck("operation " + op)

    def icmp(self, p, a, b, w):
        if not isinstance(a, V) and not isinstance(b, V):
            return vg.VG.icmp(self, p, a, b, w)
        if p[0] == "s" and len(p) == 3:
            def sg(x):
                if isinstance(x, int):
                    return x - (1 << w) if x >> (w - 1) else x
                if -(1 << (w - 1)) <= x.lo and x.hi < 1 << (w - 1):
                    return x
                raise Stuck("signed comparison")
            a, b = sg(a), sg(b)
        else:
            a, b = self.canon(a, w), self.canon(b, w)
        d = self.lin(a, b, -1)
        q = p if len(p) == 2 else p[1:]
        if isinstance(d, int):
            lo = hi = d
        else:
            lo, hi = d.lo, d.hi
        if q in ("eq", "ne"):
            if lo > 0 or hi < 0:
                r = 0
            elif lo == hi == 0:
                r = 1
            else:
                r = 1 - self.fork(d, ("==", "!="))
            return r if q == "eq" else 1 - r
        if q in ("gt", "le"):
            r = self.neg(lambda: self.lt(self.lin(b, a, -1)))
            return r if q == "gt" else 1 - r
        r = self.lt(d)
        return r if q == "lt" else 1 - r

    def neg(self, f):
        return f()

    def lt(self, d):
        if isinstance(d, int):
            return int(d < 0)
        if d.hi < 0:
            return 1
        if d.lo >= 0:
            return 0
        return self.fork(d, (">=", "<"))

    def cast(self, s, v):
        op, ft, ty = s.op, s.x, s.ty
        if not isinstance(v, V):
            return vg.VG.cast(self, s, v)
        if op == "trunc":
            if v.bits is not None:
                return self.inbits(v.bits[:ty.n])
            if 0 <= v.lo and v.hi < 1 << ty.n:
                return v
            if v.prov is not None:
                return self.low(v, ty.n)
            return self.low(v, ty.n)
        if op == "zext":
            return self.canon(v, ft.n)
        if op == "sext":
            if -(1 << (ft.n - 1)) <= v.lo and v.hi < 1 << (ft.n - 1):
                return v
        raise Stuck("conversion " + op)

    # ------------------------------------------------ memory
    def load(self, p, ty):
        if not isinstance(p, Ptr) or p.idx is not None or ty.k == "vec":
            return vg.VG.load(self, p, ty)
        n, w = ty.size(), width(ty)
        cs = [self.cell(p.obj, p.off + i) for i in range(n)]
        if not any(isinstance(c, V) or isinstance(c, tuple) and c and c[0] == "v" for c in cs):
            return vg.VG.load(self, p, ty)
        if isinstance(cs[0], tuple) and cs[0][0] == "v" and all(isinstance(c, tuple) and c[0] == "v" and c[1] is cs[0][1] and c[2] == i and c[3] == n
                                                                 for i, c in enumerate(cs)):
            return cs[0][1]
        r = 0
        bits = []
        for i, c in enumerate(cs):
            if isinstance(c, tuple) and c and c[0] == "v":
                x = self.low(self.shr(c[1], 8 * c[2], 8 * c[3]), 8)
            elif isinstance(c, (int, V)):
                x = c
            else:
                raise Stuck("mixed load")
            if bits is not None:
                y = self.getbits(x, 8)
                bits = bits + y if y is not None else None
            r = self.lin(r, self.times(x, 1 << (8 * i)), 1)
        return self.inbits(bits) if bits is not None else r

    def shr(self, v, k, w):
        if not k:
            return v
        r = self.hi(v, k)
        if isinstance(r, V) and r.bits is None and v.prov is None:
            r.prov = (v, k)
        return r

    def store(self, p, v, ty):
        if not isinstance(v, V):
            return vg.VG.store(self, p, v, ty)
        n = ty.size()
        if p.idx is not None or p.obj.ro or p.off < 0 or p.off + n > p.obj.size:
            raise Stuck("store outside " + p.obj.name)
        v = self.canon(v, width(ty))
        if isinstance(v, int):
            return vg.VG.store(self, p, v, ty)
        c = p.obj.cells
        x = self.getbits(v, 8 * n)
        for i in range(n):
            c[p.off + i] = self.inbits(x[8 * i:8 * i + 8]) if x is not None else v if n == 1 else ("v", v, i, n)

    def fillmem(self, d, v, n):
        if isinstance(v, V):
            raise Stuck("memset")
        if not isinstance(n, int) or d.idx is not None or d.off < 0 or d.off + n > d.obj.size:
            raise Stuck("memset outside " + d.obj.name)
        for i in range(n):
            d.obj.cells[d.off + i] = v & 255

    def branch(self, f, b, cond, x, y, env):
        raise Stuck("branch on %r" % (cond,))

    # ------------------------------------------------ proofs
    def bound(self, a):
        """an interval for a polynomial, using 0 <= B - 2^k q < 2^k for the quotients, newest first"""
        p = dict(self.of(a).p)
        lo = hi = 0
        for q in range(len(self.atoms) - 1, -1, -1):
            d = self.atoms[q]
            if d[0] != "hi":
                continue
            c = p.get((q,))
            if c and c < 0 and (-c + (1 << d[2] >> 1)) >> d[2]:
                m = (-c + (1 << d[2] >> 1)) >> d[2]
                r = c + (m << d[2])
                for mo, x in d[1]:
                    n = p.get(mo, 0) - m * x
                    if n:
                        p[mo] = n
                    else:
                        p.pop(mo, None)
                if r:
                    p[(q,)] = r
                else:
                    p.pop((q,))
                hi += m * ((1 << d[2]) - 1)
        # differences of quotients with known bounds
        for q in range(len(self.atoms) - 1, -1, -1):
            c = p.get((q,))
            if not c:
                continue
            for F, (x, y) in self.quo.get(q, {}).items():
                f = dict(F)
                if c % f[(q,)] or any(mo not in p for mo in f if mo):
                    continue
                m = c // f[(q,)]
                for mo, k in F:
                    n = p.get(mo, 0) - m * k
                    if n:
                        p[mo] = n
                    else:
                        p.pop(mo, None)
                lo += m * (x if m > 0 else y)
                hi += m * (y if m > 0 else x)
                break
        l, h = self.pbounds(p)
        return lo + l, hi + h

    def within(self, a, lo, hi):
        l, h = self.bound(a)
        for x, rel in self.cons:
            if rel not in ("<", ">="):
                continue
            for k in [88, 104, 44, 78, 64, 96, 0] + list(range(1, 140)):
                if l >= lo and h <= hi:
                    return True
                L, H = self.bound(self.lin(a, x, -(1 << k)))
                if rel == "<":
                    h = min(h, H - (1 << k))
                else:
                    l = max(l, L)
        return l >= lo and h <= hi

    # ------------------------------------------------ valuation
    def value(self, a, env):
        """the value of a polynomial when the input atoms are given by env (a function)"""
        memo = {}

        def at(q):
            if q not in memo:
                d = self.atoms[q]
                memo[q] = (ev(dict(d[1]).items()) >> d[2]) if d[0] == "hi" else env(d)
            return memo[q]

        def ev(items):
            t = 0
            for m, c in items:
                x = c
                for q in m:
                    x *= at(q)
                    if not x:
                        break
                t += x
            return t
        return ev(self.of(a).p.items())

    def holds(self, env):
        for x, rel in self.cons:
            v = self.value(x, env)
            if not {"<": v < 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[rel]:
                return False
        return True


def paths(mod, run, limit=24):
    """run(pv) on every path"""
    todo = [[]]
    n = 0
    while todo:
        ch = todo.pop()
        n += 1
        if n > limit:
            raise Stuck("too many paths")
        pv = PV(mod, ch)
        r = run(pv)
        todo.extend(pv.todo)
        yield pv, r
