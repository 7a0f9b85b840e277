"""Transfer functions of the OCaml standard library, Zarith, Unix and of the
library's own C primitives (window contracts) for oeval.Interp."""
from .poly import Lin, Poly, fresh
from . import oeval as O


def exn(name, *args):
    return O.Con(name, args)


INVALID = ("Invalid_argument",)


def bad(st, name="Invalid_argument"):
    return O.Out(st, exn(name), True)


def guard(I, st, conds, k):
    """k(st) when all conds hold, otherwise Invalid_argument"""
    outs = []
    cur = [st]
    for c in conds:
        nxt = []
        for s in cur:
            outs.extend(bad(s1) for s1 in I.assume(s, c, False))
            nxt.extend(I.assume(s, c, True))
        cur = nxt
    for s in cur:
        outs.extend(k(s))
    return outs


def ge(e):
    return ("ge", e)


def need_lin(x, what="integer"):
    if isinstance(x, Lin):
        return x
    return None


# ----------------------------------------------------------------- ints
def anyv(I, st, ty="int"):
    v, s = I.unknown(st, ty, "x")
    return O.ok(s, v)


def lift2(f):
    def h(I, st, a, node):
        x, y = a
        if not isinstance(x, Lin) or not isinstance(y, Lin):
            return anyv(I, st)
        return f(I, st, x, y, node)
    return h


def prim_add(lo, hi, sign):
    def f(I, st, x, y, node):
        v, s = I.arith(st, x + y if sign > 0 else x - y, lo, hi, node)
        return O.ok(s, v)
    return lift2(f)


def prim_mul(lo, hi):
    def f(I, st, x, y, node):
        cx, cy = st.poly.const_of(x), st.poly.const_of(y)
        if cy is not None:
            e = x.scale(cy)
        elif cx is not None:
            e = y.scale(cx)
        else:
            bx, by = st.poly.bounds(x), st.poly.bounds(y)
            if None not in bx and None not in by:
                c = [a * b for a in bx for b in by]
                if lo <= min(c) and max(c) <= hi:
                    v, s = I.newvar(st, min(c), max(c), "mul")
                    return O.ok(s, v)
            v, s = I.newvar(st, lo, hi, "mul")
            return O.ok(s, v)
        v, s = I.arith(st, e, lo, hi, node)
        return O.ok(s, v)
    return lift2(f)


def floordiv(I, st, x, d, hint="q"):
    """q with x = d*q + r, 0 <= r < d -> (q, r, st)"""
    c = st.poly.const_of(x)
    if c is not None:
        return Lin(c // d), Lin(c % d), st
    cx = st.poly.canon(x)
    # x = d*e + c0 exactly?
    if all(k % d == 0 for _, k in cx.t) and all(not isinstance(k, float) for _, k in cx.t):
        try:
            q = Lin(cx.c // d, tuple((v, k // d) for v, k in cx.t))
            return q, Lin(cx.c % d), st
        except TypeError:
            pass
    key = ("%div", cx, d)
    q = st.known.get(key)
    if q is not None:
        return q, x - q.scale(d), st
    q = Lin.var(fresh(hint))
    r = x - q.scale(d)
    st = st.with_poly(st.poly.add_ge0(r).add_ge0(Lin(d - 1) - r))
    st.known[key] = q
    return q, r, st


def prim_div(mod):
    def f(I, st, x, y, node):
        d = st.poly.const_of(y)
        if d is None:
            outs = [O.Out(s, exn("Division_by_zero"), True) for s in I.assume(st, ("eq", y), True)]
            if mod:
                # x mod y for y > 0 and x >= 0
                for s in I.assume(st, ge(y - 1), True):
                    for s1 in I.assume(s, ge(x), True):
                        v = Lin.var(fresh("mod"))
                        p = s1.poly.add_ge0(v).add_ge0(y - v - 1).add_ge0(x - v)
                        outs.append(O.Out(s1.with_poly(p), v))
                    for s1 in I.assume(s, ge(x), False):
                        v, s2 = I.anyint(s1)
                        outs.append(O.Out(s2, v))
                for s in I.assume(st, ge(-y - 1), True):
                    v, s2 = I.anyint(s)
                    outs.append(O.Out(s2, v))
            else:
                for c in (ge(y - 1), ge(-y - 1)):
                    for s in I.assume(st, c, True):
                        v, s2 = I.anyint(s)
                        outs.append(O.Out(s2, v))
            return outs
        if d == 0:
            return [O.Out(st, exn("Division_by_zero"), True)]
        if d < 0:
            return anyv(I, st)
        outs = []
        for s in I.assume(st, ge(x), True):
            q, r, s = floordiv(I, s, x, d)
            outs.append(O.Out(s, r if mod else q))
        for s in I.assume(st, ge(x), False):
            q, r, s = floordiv(I, s, -x, d)
            outs.append(O.Out(s, -r if mod else -q))
        return outs
    return lift2(f)


def prim_and(lo, hi):
    def f(I, st, x, y, node):
        cx, cy = st.poly.const_of(x), st.poly.const_of(y)
        if cx is not None and cy is not None:
            return O.ok(st, Lin(cx & cy))
        if cx is not None:
            x, y, cx, cy = y, x, cy, cx
        if cy is not None:
            if cy == 0:
                return O.ok(st, Lin(0))
            if cy > 0 and (cy & (cy + 1)) == 0:
                q, r, s = floordiv(I, st, x, cy + 1)
                return O.ok(s, r)
            if cy > 0:
                low = cy & -cy
                v, s = I.newvar(st, 0, cy, "and")
                # single-bit mask: record as unknown with two values
                return O.ok(s, v)
            if cy < 0 and ((-cy) & (-cy - 1)) == 0:
                # clears the low bits
                q, r, s = floordiv(I, st, x, -cy)
                return O.ok(s, x - r)
        v, s = I.newvar(st, lo, hi, "and")
        for z in (x, y):
            if s.poly.entails_ge0(z):
                s = s.with_poly(s.poly.add_ge0(v).add_ge0(z - v))
        return O.ok(s, v)
    return lift2(f)


def prim_or(xor, lo, hi):
    def f(I, st, x, y, node):
        cx, cy = st.poly.const_of(x), st.poly.const_of(y)
        if cx is not None and cy is not None:
            return O.ok(st, Lin(cx ^ cy if xor else cx | cy))
        if cx == 0:
            return O.ok(st, y)
        if cy == 0:
            return O.ok(st, x)
        bx, by = st.poly.bounds(x), st.poly.bounds(y)
        if None not in bx and None not in by and bx[0] >= 0 and by[0] >= 0:
            n = max(bx[1], by[1]).bit_length()
            v, s = I.newvar(st, 0, (1 << n) - 1, "or")
            if not xor:
                s = s.with_poly(s.poly.add_ge0(v - x).add_ge0(v - y).add_ge0(x + y - v))
            return O.ok(s, v)
        v, s = I.newvar(st, lo, hi, "or")
        return O.ok(s, v)
    return lift2(f)


def prim_lsl(lo, hi, bits):
    def f(I, st, x, y, node):
        k = st.poly.const_of(y)
        if k is not None and 0 <= k < bits:
            v, s = I.arith(st, x.scale(1 << k), lo, hi, node)
            return O.ok(s, v)
        cx = st.poly.const_of(x)
        by = st.poly.bounds(y)
        if cx is not None and cx >= 0 and None not in by and by[0] >= 0 and (cx << by[1]) <= hi and by[1] < bits:
            if by[1] - by[0] <= 16:
                outs = []
                for k in range(by[0], by[1] + 1):
                    for s in I.assume(st, ("eq", y - k), True):
                        outs.append(O.Out(s, Lin(cx << k)))
                return outs
            v, s = I.newvar(st, cx << by[0], cx << by[1], "lsl")
            return O.ok(s, v)
        v, s = I.newvar(st, lo, hi, "lsl")
        return O.ok(s, v)
    return lift2(f)


def prim_lsr(arith, lo, hi, bits):
    def f(I, st, x, y, node):
        k = st.poly.const_of(y)
        if k is not None and 0 <= k < bits:
            if arith or st.poly.entails_ge0(x):
                q, r, s = floordiv(I, st, x, 1 << k)
                return O.ok(s, q)
            if k > 0:
                v, s = I.newvar(st, 0, (hi - lo) >> k, "lsr")
                return O.ok(s, v)
            return O.ok(st, x)
        if st.poly.entails_ge0(x):
            v, s = I.newvar(st, 0, hi, "lsr")
            return O.ok(s.with_poly(s.poly.add_ge0(x - v)), v)
        v, s = I.newvar(st, lo, hi, "lsr")
        return O.ok(s, v)
    return lift2(f)


def compare(op):
    def h(I, st, a, node):
        x, y = a
        if isinstance(x, Lin) and isinstance(y, Lin):
            d = x - y
            c = {"eq": ("eq", d), "ne": O.cnot(("eq", d)), "lt": ge(-d - 1), "le": ge(-d),
                 "gt": ge(d - 1), "ge": ge(d)}[op]
            return O.ok(st, O.B(c))
        if isinstance(x, O.B) and isinstance(y, O.B) and op in ("eq", "ne"):
            for u, v in ((x, y), (y, x)):
                if v.c in (O.TRUE, O.FALSE):
                    c = u.c if v.c == O.TRUE else O.cnot(u.c)
                    return O.ok(st, O.B(c if op == "eq" else O.cnot(c)))
        if isinstance(x, O.Con) and isinstance(y, O.Con) and op in ("eq", "ne") and not x.args and not y.args:
            return O.ok(st, O.B(O.TRUE if (x.name == y.name) == (op == "eq") else O.FALSE))
        h2 = I.hooks.get("compare")
        if h2:
            r = h2(I, st, op, x, y, node)
            if r is not None:
                return r
        if isinstance(x, O.S) and isinstance(y, O.S) and op in ("eq", "ne"):
            b = ("unk", fresh("streq"))
            outs = []
            d = I.length(st, x) - I.length(st, y)
            for s in I.assume(st, ("eq", d), True):
                outs.append(O.Out(s, O.B(b)))
            for s in I.assume(st, ("eq", d), False):
                outs.append(O.Out(s, O.B(O.FALSE if op == "eq" else O.TRUE)))
            return outs
        return O.ok(st, O.B(("unk", fresh("cmp"))))
    return h


def int_compare(I, st, a, node):
    x, y = a
    if isinstance(x, Lin) and isinstance(y, Lin):
        outs = []
        for c, r in ((("eq", x - y), 0), (ge(x - y - 1), 1), (ge(y - x - 1), -1)):
            outs += [O.Out(s, Lin(r)) for s in I.assume(st, c, True)]
        return outs
    v, s = I.newvar(st, -1, 1, "cmp")
    return O.ok(s, v)


# ----------------------------------------------------------------- bytes
def byteprov(st, v):
    """provenance atoms of a char value"""
    if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
        return st.known.get("chr:" + v.t[0][0])
    return None


def byteatoms(I, st, v, pos):
    """atoms describing the byte value v stored at pos"""
    if not isinstance(v, Lin):
        return I.junk(0, 1)[2]
    c = st.poly.const_of(v)
    if c is not None:
        c &= 255
        return frozenset([(("byte", c), Lin(0))]) if c else frozenset()
    p = byteprov(st, v)
    if p is not None:
        return O.shift(p, -pos)
    return I.junk(0, 1)[2]


def readbyte(I, st, s, i):
    """-> (value, st)"""
    segs = I.read(st, s.loc, i, Lin(1))
    if segs is not None and len(segs) == 1:
        at = segs[0][2]
        if not at:
            return Lin(0), st
        if len(at) == 1:
            q, d = next(iter(at))
            if q[0] == "byte":
                return Lin(q[1]), st
        # the same byte always gets the same variable
        key = ("rb", I.canon_atoms(st, at))
        v = st.known.get(key)
        if v is None:
            v, st = I.newvar(st, 0, 255, "ch")
            st = st.copy()
            st.known["chr:" + v.t[0][0]] = at
            st.known[key] = v
        return v, st
    v, st = I.newvar(st, 0, 255, "ch")
    return v, st


def safe_get(I, st, a, node):
    s, i = a
    if not isinstance(s, O.S) or not isinstance(i, Lin):
        return anyv(I, st, "char") + [bad(st)]

    def k(s1):
        v, s2 = readbyte(I, s1, s, i)
        return O.ok(s2, v)
    return guard(I, st, [ge(i), ge(I.length(st, s) - i - 1)], k)


def unsafe_get(I, st, a, node):
    s, i = a
    good = st.poly.entails_ge0(i) and st.poly.entails_ge0(I.length(st, s) - i - 1)
    I.oblige("bounds", good, node, "unchecked read at index %s" % st.poly.canon(i))
    v, s2 = readbyte(I, st, s, i)
    return O.ok(s2, v)


def setbyte(I, st, s, i, v):
    I.mutates(st, s, None)
    return I.write(st, s.loc, i, Lin(1), [(Lin(0), Lin(1), byteatoms(I, st, v, Lin(0)))])


def safe_set(I, st, a, node):
    s, i, v = a
    if not isinstance(s, O.S) or not isinstance(i, Lin):
        return O.ok(st) + [bad(st)]
    return guard(I, st, [ge(i), ge(I.length(st, s) - i - 1)], lambda s1: O.ok(store(I, s1, s, i, v, node)))


def store(I, st, s, i, v, node):
    st = I.mutates(st, s, node)
    return I.write(st, s.loc, i, Lin(1), [(Lin(0), Lin(1), byteatoms(I, st, v, Lin(0)))])


def unsafe_set(I, st, a, node):
    s, i, v = a
    good = st.poly.entails_ge0(i) and st.poly.entails_ge0(I.length(st, s) - i - 1)
    I.oblige("bounds", good, node, "unchecked write at index %s" % st.poly.canon(i))
    return O.ok(store(I, st, s, i, v, node))


def seqlen(I, st, a, node):
    if isinstance(a[0], O.S):
        return O.ok(st, I.length(st, a[0]))
    v, s = I.newvar(st, 0, O.MAXSTR, "len")
    return O.ok(s, v)


def create(I, st, a, node):
    n = a[0]

    def k(s):
        v, s = I.alloc(s, n, (I.junk(0, n),), origin="new", kind="bytes", line=node[1][0])
        return O.ok(s, v)
    return guard(I, st, [ge(n), ge(Lin(O.MAXSTR) - n)], k)


def make(kind):
    def h(I, st, a, node):
        n, c = a

        def k(s):
            at = byteatoms(I, s, c, Lin(0))
            if len(at) == 1 and next(iter(at))[0][0] not in ("byte",):
                segs = (I.junk(0, n),)
                if s.poly.const_of(n) == 1:
                    segs = ((Lin(0), Lin(1), at),)
            else:
                segs = ((Lin(0), n, at),)
            v, s = I.alloc(s, n, segs, origin="new", kind=kind, line=node[1][0])
            return O.ok(s, v)
        return guard(I, st, [ge(n), ge(Lin(O.MAXSTR) - n)], k)
    return h


def window_ok(I, st, s, o, n):
    """conditions for [o, o+n) inside s, as the stdlib checks them"""
    return [ge(o), ge(n), ge(I.length(st, s) - n - o)]


def fill(I, st, a, node):
    s, o, n, c = a

    def k(s1):
        s1 = I.mutates(s1, s, node)
        at = byteatoms(I, s1, c, Lin(0))
        if len(at) == 1 and next(iter(at))[0][0] != "byte":
            return O.ok(I.write(s1, s.loc, o, n, None))
        return O.ok(I.write(s1, s.loc, o, n, [(Lin(0), n, at)]))
    return guard(I, st, window_ok(I, st, s, o, n), k)


def blit(I, st, a, node):
    s1, o1, s2, o2, n = a

    def k(s):
        c = I.read(s, s1.loc, o1, n)
        s = I.mutates(s, s2, node)
        return O.ok(I.write(s, s2.loc, o2, n, c))
    return guard(I, st, [ge(n), ge(o1), ge(I.length(st, s1) - n - o1), ge(o2), ge(I.length(st, s2) - n - o2)], k)


def sub(kind):
    def h(I, st, a, node):
        s, o, n = a

        def k(s1):
            c = I.read(s1, s.loc, o, n)
            v, s2 = I.alloc(s1, n, tuple(c) if c is not None else (I.junk(0, n),), origin="new", kind=kind, line=node[1][0])
            return O.ok(s2, v)
        return guard(I, st, window_ok(I, st, s, o, n), k)
    return h


def copy(kind):
    def h(I, st, a, node):
        s = a[0]
        n = I.length(st, s)
        c = I.read(st, s.loc, Lin(0), n)
        v, st = I.alloc(st, n, tuple(c) if c is not None else (I.junk(0, n),), origin="new", kind=kind, line=node[1][0])
        return O.ok(st, v)
    return h


def concat(I, st, a, node):
    x, y = a
    lx, ly = I.length(st, x), I.length(st, y)
    outs = []
    for s in I.assume(st, ge(Lin(O.MAXSTR) - lx - ly), True):
        cx, cy = I.read(s, x.loc, Lin(0), lx), I.read(s, y.loc, Lin(0), ly)
        segs = None
        if cx is not None and cy is not None:
            segs = tuple(list(cx) + [(p + lx, q + lx, O.shift(at, -lx)) for p, q, at in cy])
        v, s = I.alloc(s, lx + ly, segs, origin="new", kind="string", line=node[1][0])
        outs.append(O.Out(s, v))
    for s in I.assume(st, ge(Lin(O.MAXSTR) - lx - ly), False):
        outs.append(bad(s))
    return outs


def set_int64(endian):
    def h(I, st, a, node):
        s, o, v = a

        def k(s1):
            s1 = I.mutates(s1, s, node)
            val = s1.poly.canon(v) if isinstance(v, Lin) else v
            c = s1.poly.const_of(v) if isinstance(v, Lin) else None
            if c is not None:
                b = (c & ((1 << 64) - 1)).to_bytes(8, "big" if endian == "be" else "little")
                segs = [(Lin(i), Lin(i + 1), frozenset([(("byte", x), Lin(0))]) if x else frozenset()) for i, x in enumerate(b)]
                return O.ok(I.write(s1, s.loc, o, Lin(8), segs))
            return O.ok(I.write(s1, s.loc, o, Lin(8), [(Lin(0), Lin(8), frozenset([(("int64", endian, val), Lin(0))]))]))
        return guard(I, st, [ge(o), ge(I.length(st, s) - o - 8)], k)
    return h


def minmax(mx):
    def h(I, st, a, node):
        x, y = a
        if not isinstance(x, Lin) or not isinstance(y, Lin):
            return anyv(I, st)
        outs = []
        c = ge(x - y)
        for s in I.assume(st, c, True):
            outs.append(O.Out(s, x if mx else y))
        for s in I.assume(st, c, False):
            outs.append(O.Out(s, y if mx else x))
        return outs
    return h


def char_chr(I, st, a, node):
    n = a[0]
    return guard(I, st, [ge(n), ge(Lin(255) - n)], lambda s: O.ok(s, n))


def string_iter(I, st, a, node):
    f, s = a
    n = I.length(st, s)
    exits = []

    def body(s1, vals):
        exits.clear()
        i = vals[0]
        backs = []
        for s2 in I.assume(s1, ge(n - i - 1), False):
            exits.append(O.Out(s2, O.UNIT))
        for s2 in I.assume(s1, ge(n - i - 1), True):
            v, s3 = readbyte(I, s2, s, i)
            for o in I.apply(f, [v], s3, node):
                if o.exn:
                    exits.append(o)
                else:
                    backs.append((o.st, [i + 1]))
        return backs
    I.fixpoint(st, [Lin(0)], body, "iter@%s" % node[1][0])
    return list(exits)


# ----------------------------------------------------------------- refs, arrays
def make_ref(I, st, a, node):
    v, s = I.alloc_ref(st, a[0])
    return O.ok(s, v)


def deref(I, st, a, node):
    if isinstance(a[0], O.Ref):
        return O.ok(st, st.heap[a[0].loc].val)
    raise O.Unsupported("field 0 of %r at line %s" % (a[0], node[1]))


def assign(I, st, a, node):
    s = st.copy()
    s.heap[a[0].loc] = O.RCell(a[1])
    return O.ok(s)


def incr(d):
    def h(I, st, a, node):
        x = st.heap[a[0].loc].val
        v, s = I.arith(st, x + d)
        s = s.copy()
        s.heap[a[0].loc] = O.RCell(v)
        return O.ok(s)
    return h


def arr_get(I, st, a, node):
    arr, i = a
    c = st.heap[arr.loc]

    def k(s):
        if isinstance(c.val, tuple):
            n = s.poly.const_of(i)
            if n is not None:
                return O.ok(s, c.val[n])
            if len(c.val) <= 8:
                outs = []
                for j in range(len(c.val)):
                    outs += [O.Out(s2, c.val[j]) for s2 in I.assume(s, ("eq", i - j), True)]
                return outs
        v, s = I.anyint(s, "elt")
        return O.ok(s, v)
    return guard(I, st, [ge(i), ge(c.len - i - 1)], k)


def arr_set(I, st, a, node):
    arr, i, v = a
    c = st.heap[arr.loc]

    def k(s):
        n = s.poly.const_of(i)
        if isinstance(c.val, tuple) and n is None and len(c.val) <= 8:
            outs = []
            for j in range(len(c.val)):
                for s2 in I.assume(s, ("eq", i - j), True):
                    s2 = s2.copy()
                    val = list(c.val)
                    val[j] = v
                    s2.heap[arr.loc] = O.RCell(tuple(val), c.len)
                    outs.append(O.Out(s2, O.UNIT))
            return outs
        s = s.copy()
        if isinstance(c.val, tuple) and n is not None:
            val = list(c.val)
            val[n] = v
            s.heap[arr.loc] = O.RCell(tuple(val), c.len)
        else:
            s.heap[arr.loc] = O.RCell(None, c.len)
        return O.ok(s)
    return guard(I, st, [ge(i), ge(c.len - i - 1)], k)


def arr_make(I, st, a, node):
    n, v = a

    def k(s):
        loc = fresh("A")
        s = s.copy()
        c = s.poly.const_of(n)
        s.heap[loc] = O.RCell((v,) * c if c is not None and c <= 16 else None, n)
        return O.ok(s, O.Arr(loc))
    return guard(I, st, [ge(n)], k)


def arr_fill(I, st, a, node):
    arr, o, n, v = a
    c = st.heap[arr.loc]

    def k(s):
        s = s.copy()
        co, cn = s.poly.const_of(o), s.poly.const_of(n)
        if isinstance(c.val, tuple) and co is not None and cn is not None:
            val = list(c.val)
            for j in range(co, co + cn):
                val[j] = v
            s.heap[arr.loc] = O.RCell(tuple(val), c.len)
        else:
            s.heap[arr.loc] = O.RCell(None, c.len)
        return O.ok(s)
    return guard(I, st, [ge(o), ge(n), ge(c.len - n - o)], k)


def arr_len(I, st, a, node):
    return O.ok(st, st.heap[a[0].loc].len)


# ----------------------------------------------------------------- channels
def chan_input(I, st, a, node):
    ch, b, o, n = a

    def k(s):
        s = I.mutates(s, b, node)
        r, s = I.newvar(s, 0, None, "nread")
        s = s.with_poly(s.poly.add_ge0(n - r))
        s2 = I.write(s, b.loc, o, r, [(Lin(0), r, frozenset([(("chan", fresh("ch")), Lin(0))]))])
        return [O.Out(s2, r), O.Out(s, exn("Sys_error"), True)]
    return guard(I, st, window_ok(I, st, b, o, n), k)


def chan_output(I, st, a, node):
    ch, b, o, n = a

    def k(s):
        h = I.hooks.get("output")
        if h:
            s = h(I, s, b, o, n, node)
        return [O.Out(s, O.UNIT), O.Out(s, exn("Sys_error"), True)]
    return guard(I, st, window_ok(I, st, b, o, n), k)


def unix_read(I, st, a, node):
    fd, b, o, n = a

    def k(s):
        s = I.mutates(s, b, node)
        r, s = I.newvar(s, 0, None, "nread")
        s = s.with_poly(s.poly.add_ge0(n - r))
        s2 = I.write(s, b.loc, o, r, [(Lin(0), r, frozenset([(("entropy", fresh("fd")), Lin(0))]))])
        return [O.Out(s2, r), O.Out(s, exn("Unix.Unix_error"), True)]
    return guard(I, st, window_ok(I, st, b, o, n), k)


# ----------------------------------------------------------------- Zarith
def zop(name, raises=None):
    def h(I, st, a, node):
        def t(x):
            if isinstance(x, O.Opq):
                return x.term if x.term is not None else x.id
            if isinstance(x, Lin):
                return ("int", st.poly.canon(x))
            return repr(x)
        v = O.Opq("Z.t", None, (name,) + tuple(t(x) for x in a))
        outs = [O.Out(st, v)]
        for r in (raises or ()):
            outs.append(O.Out(st, exn(r), True))
        return outs
    return h


def z_to_bits(I, st, a, node):
    x = a[0]
    n, st = I.newvar(st, 0, O.MAXSTR, "zlen")
    q, r, st = floordiv(I, st, n, 8)
    st = st.with_poly(st.poly.add_eq0(r))
    seq = ("zbits", getattr(x, "term", None) or getattr(x, "id", None))
    v, st = I.alloc(st, n, ((Lin(0), n, frozenset([(seq, Lin(0))])),), origin="new", kind="string", line=node[1][0])
    return O.ok(st, v)


def z_of_bits(I, st, a, node):
    s = a[0]
    t = I.window_term(st, s)
    return O.ok(st, O.Opq("Z.t", None, ("of_bits", t)))


def z_small(lo, hi):
    def h(I, st, a, node):
        v, s = I.newvar(st, lo, hi, "z")
        return O.ok(s, v)
    return h


# ----------------------------------------------------------------- C primitives
def oblige_win(I, st, node, cname, what, s, o, n):
    """obligation: [o, o+n) lies inside s"""
    p = st.poly
    L = I.length(st, s)
    good = p.entails_ge0(o) and p.entails_ge0(n) and p.entails_ge0(L - o - n)
    I.oblige("window", good, node, "%s: %s window [%s, +%s) within length %s" %
             (cname, what, p.canon(o), p.canon(n), p.canon(L)))
    if not good:
        # continue under the assumption, so that one defect is reported once
        q = p.add_ge0(o).add_ge0(n).add_ge0(L - o - n)
        return st.with_poly(q)
    return st


def oblige_cond(I, st, node, cname, what, conds):
    """disjunction of conjunctions of constraints e>=0 ; each alternative a list"""
    good = False
    if st.poly.is_bot():
        good = True
    for alt in conds:
        if all(st.poly.entails_ge0(e) for e in alt):
            good = True
    I.oblige("precond", good, node, "%s: %s" % (cname, what))
    return st


def oblige_tag(I, st, node, cname, v, tags):
    tag = None
    if isinstance(v, O.S):
        tag = st.heap[v.loc].meta.get("ctx")
    elif isinstance(v, O.Opq):
        tag = v.ty.split(".")[-1]
    I.oblige("context", tag in tags, node, "%s: context built by the matching initialiser (%s)" % (cname, tag))


def appseq(name, *terms):
    return (("app", name) + tuple(terms))


def content(seq, n):
    return [(Lin(0), Lin.of(n), frozenset([(seq, Lin(0))]))]


def ctxterm(I, st, v):
    if isinstance(v, O.S):
        m = st.heap[v.loc].meta
        if "term" in m:
            return m["term"]
        return ("loc", v.loc)
    if isinstance(v, O.Opq):
        return v.term or v.id
    return repr(v)


def x_xor(I, st, a, node):
    src, so, dst, do, n = a
    st = oblige_win(I, st, node, "xor", "source", src, so, n)
    st = oblige_win(I, st, node, "xor", "destination", dst, do, n)
    x, y = I.read(st, src.loc, so, n), I.read(st, dst.loc, do, n)
    st = I.mutates(st, dst, node)
    return O.ok(I.write(st, dst.loc, do, n, I.xor_segs(st, x, y)))


def x_cook(cname, tag, size, keyalts, keyname="key"):
    def h(I, st, a, node):
        key = a[0]
        L = I.length(st, key)
        oblige_cond(I, st, node, cname, "key length accepted by the primitive", keyalts(L))
        term = (cname, I.window_term(st, key)) + tuple(repr(x) for x in a[1:])
        v, st = I.alloc(st, size, tuple(content(appseq(*term), size)), origin="new", kind="bytes",
                        ctx=tag, term=term, line=node[1][0], secret=True)
        return O.ok(st, v)
    return h


def between(L, lo, hi):
    return [L - lo, Lin(hi) - L]


def oneof(*ns):
    return lambda L: [[L - n, Lin(n) - L] for n in ns]


def x_block(cname, tags, n):
    def h(I, st, a, node):
        ck, src, so, dst, do = a
        oblige_tag(I, st, node, cname, ck, tags)
        st = oblige_win(I, st, node, cname, "source", src, so, Lin(n))
        st = oblige_win(I, st, node, cname, "destination", dst, do, Lin(n))
        t = I.term(st, I.read(st, src.loc, so, Lin(n)))
        ct = ctxterm(I, st, ck)
        st = I.mutates(st, dst, node)
        return O.ok(I.write(st, dst.loc, do, Lin(n), content(appseq(cname, ct, t), n)))
    return h


def x_stream(cname, tag):
    def h(I, st, a, node):
        ck, src, so, dst, do, n = a
        oblige_tag(I, st, node, cname, ck, (tag,))
        st = oblige_win(I, st, node, cname, "source", src, so, n)
        st = oblige_win(I, st, node, cname, "destination", dst, do, n)
        x = I.read(st, src.loc, so, n)
        hk = I.hooks.get("keystream")
        ct = ctxterm(I, st, ck)
        pos = st.ghost.get(("ks", ck.loc), Lin(0))
        ks = [(Lin(0), n, frozenset([(appseq("keystream", ct), pos)]))]
        st = I.mutates(st, dst, node)
        st = I.write(st, dst.loc, do, n, I.xor_segs(st, x, ks))
        st = st.copy()
        st.ghost[("ks", ck.loc)] = pos + n
        return O.ok(st)
    return h


def x_init(cname, tag, size, check=None, opq=None):
    def h(I, st, a, node):
        if check:
            check(I, st, a, node)
        term = (cname,) + tuple(I.window_term(st, x) if isinstance(x, O.S) else repr(st.poly.canon(x) if isinstance(x, Lin) else x) for x in a)
        if opq:
            v = O.Opq(opq, None, term)
            st = st.copy()
            st.ghost[("absorbed", v.id)] = ()
            return O.ok(st, v)
        n = Lin(size)
        v, st = I.alloc(st, n, tuple(content(appseq(*term), n)), origin="new", kind="bytes", ctx=tag,
                        term=term, line=node[1][0], secret=True)
        st = st.copy()
        st.ghost[("absorbed", v.loc)] = ()
        return O.ok(st, v)
    return h


def ctxid(v):
    return v.loc if isinstance(v, O.S) else getattr(v, "id", None)


def x_update(cname, tags):
    def h(I, st, a, node):
        ctx, src, o, n = a
        oblige_tag(I, st, node, cname, ctx, tags)
        st = oblige_win(I, st, node, cname, "source", src, o, n)
        hk = I.hooks.get("absorb")
        if hk:
            st = hk(I, st, ctx, src, o, n, node)
        else:
            t = (st.poly.canon(n), I.term(st, I.read(st, src.loc, o, n)))
            k = ("absorbed", ctxid(ctx))
            st = st.copy()
            st.ghost[k] = tuple(st.ghost.get(k, ("?",))) + (t,)
        return O.ok(st)
    return h


def x_final(cname, tags, size, check=None, ctxpos=0):
    def h(I, st, a, node):
        ctx = a[ctxpos]
        oblige_tag(I, st, node, cname, ctx, tags)
        n = size(I, st, a, node) if callable(size) else Lin(size)
        term = (cname, ctxterm(I, st, ctx), st.ghost.get(("absorbed", ctxid(ctx)), ("?", fresh("abs"))))
        v, st = I.alloc(st, n, tuple(content(appseq(*term), n)), origin="new", kind="string", line=node[1][0], digest=cname)
        st = st.copy()
        st.ghost[("absorbed", ctxid(ctx))] = ("?", fresh("fin"))
        return O.ok(st, v)
    return h


def x_wipe(cname):
    def h(I, st, a, node):
        st = st.event("wipe", getattr(a[0], "id", None))
        s = st.copy()
        s.ghost[("wiped", ctxid(a[0]))] = O.B(O.TRUE)
        return O.ok(s)
    return h


def x_des_cook(I, st, a, node):
    key, o, d = a
    st = oblige_win(I, st, node, "des_cook_key", "key", key, o, Lin(8))
    t = I.term(st, I.read(st, key.loc, o, Lin(8)))
    dn = d.name if isinstance(d, O.Con) else repr(d)
    term = ("des_key", t, dn)
    v, st = I.alloc(st, Lin(128), tuple(content(appseq(*term), 128)), origin="new", kind="bytes", ctx="des",
                    term=term, line=node[1][0], secret=True)
    return O.ok(st, v)


def x_chacha_cook(I, st, a, node):
    key, iv, ctr = a
    oblige_cond(I, st, node, "chacha20_cook_key", "key length is 16 or 32", oneof(16, 32)(I.length(st, key)))
    oblige_cond(I, st, node, "chacha20_cook_key", "nonce length is 8 or 12", oneof(8, 12)(I.length(st, iv)))
    ct = st.poly.canon(ctr) if isinstance(ctr, Lin) else repr(ctr)
    term = ("chacha20_key", I.window_term(st, key), I.window_term(st, iv), ct)
    v, st = I.alloc(st, Lin(136), tuple(content(appseq(*term), 136)), origin="new", kind="bytes", ctx="chacha20",
                    term=term, line=node[1][0], secret=True)
    return O.ok(st, v)


def x_chacha_extract(I, st, a, node):
    ck, dst, o, n = a
    oblige_tag(I, st, node, "chacha20_extract", ck, ("chacha20",))
    st = oblige_win(I, st, node, "chacha20_extract", "destination", dst, o, n)
    ct = ctxterm(I, st, ck)
    pos = st.ghost.get(("ks", ck.loc), Lin(0))
    st = I.mutates(st, dst, node)
    st = I.write(st, dst.loc, o, n, [(Lin(0), n, frozenset([(appseq("keystream", ct), pos)]))])
    st = st.copy()
    st.ghost[("ks", ck.loc)] = pos + n
    return O.ok(st)


def x_ghash_init(I, st, a, node):
    b = a[0]
    oblige_cond(I, st, node, "ghash_init", "at least 16 bytes", [[I.length(st, b) - 16]])
    return O.ok(st, O.Opq("ghash_context", None, ("ghash_key", I.term(st, I.read(st, b.loc, Lin(0), Lin(16))))))


def x_ghash_mult(I, st, a, node):
    h, m = a
    oblige_tag(I, st, node, "ghash_mult", h, ("ghash_context",))
    oblige_cond(I, st, node, "ghash_mult", "at least 16 bytes", [[I.length(st, m) - 16]])
    t = I.term(st, I.read(st, m.loc, Lin(0), Lin(16)))
    st = I.mutates(st, m, node)
    return O.ok(I.write(st, m.loc, Lin(0), Lin(16), content(appseq("ghash_mult", ctxterm(I, st, h), t), 16)))


def x_poly1305_init(I, st, a, node):
    b = a[0]
    oblige_cond(I, st, node, "poly1305_init", "at least 32 bytes", [[I.length(st, b) - 32]])
    term = ("poly1305", I.term(st, I.read(st, b.loc, Lin(0), Lin(32))))
    v, st = I.alloc(st, Lin(136), tuple(content(appseq(*term), 136)), origin="new", kind="bytes", ctx="poly1305",
                    term=term, line=node[1][0], secret=True)
    st = st.copy()
    st.ghost[("absorbed", v.loc)] = ()
    return O.ok(st, v)


def x_rng(cname, off):
    def h(I, st, a, node):
        b, o, n = a[off:off + 3]
        st = oblige_win(I, st, node, cname, "destination", b, o, n)
        st = I.mutates(st, b, node)
        s1 = I.write(st, b.loc, o, n, [(Lin(0), n, frozenset([(("entropy", fresh("rng")), Lin(0))]))])
        s2 = I.write(st, b.loc, o, n, None)
        return [O.Out(s1, O.B(O.TRUE)), O.Out(s2, O.B(O.FALSE))]
    return h


def x_zlib(cname):
    def h(I, st, a, node):
        zs, src, so, sl, dst, do, dl, fl = a
        st = oblige_win(I, st, node, cname, "source", src, so, sl)
        st = oblige_win(I, st, node, cname, "destination", dst, do, dl)
        st = I.mutates(st, dst, node)
        ui, st = I.newvar(st, 0, None, "used_in")
        uo, st = I.newvar(st, 0, None, "used_out")
        st = st.with_poly(st.poly.add_ge0(sl - ui).add_ge0(dl - uo))
        st2 = I.write(st, dst.loc, do, uo, [(Lin(0), uo, frozenset([(("zout", fresh("z")), Lin(0))]))])
        st2 = st2.event("zlib", cname, fl.name if isinstance(fl, O.Con) else "?")
        b = O.B(("unk", fresh("zfinished")))
        return [O.Out(st2, O.Tup((b, ui, uo))), O.Out(st, exn("Error", exn("Compression_error")), True)]
    return h


def opaque_res(ty, may_raise=None):
    def h(I, st, a, node):
        v, s = I.unknown(st, ty, "r")
        outs = [O.Out(s, v)]
        if may_raise:
            outs.append(O.Out(st, exn(may_raise), True))
        return outs
    return h


def size_arg(i, hi):
    def h(I, st, a, node):
        oblige_cond(I, st, node, "digest extraction", "requested size between 1 and %s" % hi, [between(a[i], 1, hi)])
        return a[i]
    return h


def blake2_check(mx):
    def f(I, st, a, node):
        oblige_cond(I, st, node, "blake2_init", "digest size between 1 and %d" % mx, [between(a[0], 1, mx)])
        oblige_cond(I, st, node, "blake2_init", "key of at most %d bytes" % mx, [between(I.length(st, a[1]), 0, mx)])
    return f


def siphash_check(I, st, a, node):
    oblige_cond(I, st, node, "siphash_init", "16-byte key", oneof(16)(I.length(st, a[0])))
    oblige_cond(I, st, node, "siphash_init", "output size 8 or 16", oneof(8, 16)(a[1]))


def blake3_check(I, st, a, node):
    oblige_cond(I, st, node, "blake3_init", "empty or 32-byte key", oneof(0, 32)(I.length(st, a[0])))


def sha3_check(I, st, a, node):
    oblige_cond(I, st, node, "sha3_init", "size in {224,256,384,512}", oneof(224, 256, 384, 512)(a[0]))


def blake3_size(I, st, a, node):
    oblige_cond(I, st, node, "blake3_extract", "nonnegative size", [between(a[1], 0, O.MAXINT)])
    return a[1]


def sha3_size(I, st, a, node):
    t = a[1].term if isinstance(a[1], O.Opq) else None
    try:
        return Lin(int(t[1]) // 8)
    except Exception:
        v, _ = I.newvar(st, 28, 64, "sha3size")
        return v


# context sizes and digest sizes come from the C side (see cfacts); the
# values are only used as lengths of opaque blobs.
def install(I):
    P = I.prims
    mi, ma = O.MININT, O.MAXINT
    P["%addint"] = prim_add(mi, ma, 1)
    P["%subint"] = prim_add(mi, ma, -1)
    P["%mulint"] = prim_mul(mi, ma)
    P["%divint"] = prim_div(False)
    P["%modint"] = prim_div(True)
    P["%andint"] = prim_and(mi, ma)
    P["%orint"] = prim_or(False, mi, ma)
    P["%xorint"] = prim_or(True, mi, ma)
    P["%lslint"] = prim_lsl(mi, ma, 63)
    P["%lsrint"] = prim_lsr(False, mi, ma, 63)
    P["%asrint"] = prim_lsr(True, mi, ma, 63)
    P["%negint"] = lambda I, st, a, n: O.ok(*reversed(I.arith(st, -a[0])))
    P["%succint"] = lambda I, st, a, n: O.ok(*reversed(I.arith(st, a[0] + 1)))
    P["%predint"] = lambda I, st, a, n: O.ok(*reversed(I.arith(st, a[0] - 1)))
    P["Stdlib.succ"] = P["%succint"]
    P["Stdlib.pred"] = P["%predint"]
    P["Stdlib.abs"] = lambda I, st, a, n: [O.Out(s, a[0]) for s in I.assume(st, ge(a[0]), True)] + \
        [O.Out(s, -a[0]) for s in I.assume(st, ge(a[0]), False)]
    lo, hi = O.I64MIN, O.I64MAX
    for pre, l, h, b in (("%int64_", lo, hi, 64), ("%int32_", -(1 << 31), (1 << 31) - 1, 32), ("%nativeint_", lo, hi, 64)):
        P[pre + "add"] = prim_add(l, h, 1)
        P[pre + "sub"] = prim_add(l, h, -1)
        P[pre + "mul"] = prim_mul(l, h)
        P[pre + "div"] = prim_div(False)
        P[pre + "mod"] = prim_div(True)
        P[pre + "and"] = prim_and(l, h)
        P[pre + "or"] = prim_or(False, l, h)
        P[pre + "xor"] = prim_or(True, l, h)
        P[pre + "lsl"] = prim_lsl(l, h, b)
        P[pre + "lsr"] = prim_lsr(False, l, h, b)
        P[pre + "asr"] = prim_lsr(True, l, h, b)
        P[pre + "neg"] = lambda I, st, a, n, l=l, h=h: O.ok(*reversed(I.arith(st, -a[0], l, h)))
        P[pre + "of_int"] = lambda I, st, a, n, l=l, h=h: O.ok(*reversed(I.arith(st, a[0], l, h)))
        P[pre + "to_int"] = lambda I, st, a, n: O.ok(*reversed(I.arith(st, a[0])))
    P["Stdlib.Int64.pred"] = lambda I, st, a, n: O.ok(*reversed(I.arith(st, a[0] - 1, lo, hi)))
    P["Stdlib.Int64.succ"] = lambda I, st, a, n: O.ok(*reversed(I.arith(st, a[0] + 1, lo, hi)))
    for n in ("equal", "eq"):
        P["%" + n] = compare("eq")
    for n in ("notequal", "noteq"):
        P["%" + n] = compare("ne")
    for n, o in (("lessthan", "lt"), ("lessequal", "le"), ("greaterthan", "gt"), ("greaterequal", "ge")):
        P["%" + n] = compare(o)
    P["%compare"] = int_compare
    for m in ("Int", "Int64", "Char", "String", "Bytes"):
        P["Stdlib.%s.equal" % m] = compare("eq")
    for m in ("Int", "Int64", "Char"):
        P["Stdlib.%s.compare" % m] = int_compare
    P["caml_string_equal"] = compare("eq")
    P["caml_string_notequal"] = compare("ne")
    P["caml_bytes_equal"] = compare("eq")
    P["caml_bytes_notequal"] = compare("ne")
    P["%boolnot"] = lambda I, st, a, n: O.ok(st, O.B(O.cnot(I.tocond(a[0]))))
    P["%identity"] = lambda I, st, a, n: O.ok(st, a[0])
    P["%ignore"] = lambda I, st, a, n: O.ok(st)
    P["Stdlib.ignore"] = P["%ignore"]
    P["Stdlib.fst"] = lambda I, st, a, n: O.ok(st, a[0].vs[0])
    P["Stdlib.snd"] = lambda I, st, a, n: O.ok(st, a[0].vs[1])
    P["%field1"] = lambda I, st, a, n: O.ok(st, a[0].vs[1])
    P["%makemutable"] = make_ref
    P["%field0"] = lambda I, st, a, n: O.ok(st, a[0].vs[0]) if isinstance(a[0], O.Tup) else deref(I, st, a, n)
    P["%setfield0"] = assign
    P["%incr"] = incr(1)
    P["%decr"] = incr(-1)
    for r in ("%raise", "%reraise", "%raise_notrace"):
        P[r] = lambda I, st, a, n: [O.Out(st, a[0], True)]
    P["Stdlib.invalid_arg"] = lambda I, st, a, n: [bad(st)]
    P["Stdlib.failwith"] = lambda I, st, a, n: [O.Out(st, exn("Failure"), True)]
    P["Stdlib.min"] = minmax(False)
    P["Stdlib.max"] = minmax(True)
    P["Stdlib.Int.min"] = minmax(False)
    P["Stdlib.Int.max"] = minmax(True)
    for k in ("%string_length", "%bytes_length"):
        P[k] = seqlen
    for k in ("%string_safe_get", "%bytes_safe_get"):
        P[k] = safe_get
    for k in ("%string_unsafe_get", "%bytes_unsafe_get"):
        P[k] = unsafe_get
    for k in ("%bytes_safe_set", "%string_safe_set"):
        P[k] = safe_set
    for k in ("%bytes_unsafe_set", "%string_unsafe_set"):
        P[k] = unsafe_set
    P["Stdlib.Char.chr"] = char_chr
    P["caml_create_bytes"] = create
    P["Stdlib.Bytes.make"] = make("bytes")
    P["Stdlib.String.make"] = make("string")
    P["Stdlib.Bytes.fill"] = fill
    P["Stdlib.Bytes.blit"] = blit
    P["Stdlib.String.blit"] = blit
    P["Stdlib.Bytes.blit_string"] = blit
    P["Stdlib.Bytes.sub"] = sub("bytes")
    P["Stdlib.Bytes.sub_string"] = sub("string")
    P["Stdlib.String.sub"] = sub("string")
    P["Stdlib.Bytes.of_string"] = copy("bytes")
    P["Stdlib.Bytes.to_string"] = copy("string")
    P["Stdlib.Bytes.copy"] = copy("bytes")
    P["Stdlib.Bytes.unsafe_of_string"] = lambda I, st, a, n: O.ok(st, a[0])
    P["Stdlib.Bytes.unsafe_to_string"] = lambda I, st, a, n: O.ok(st, a[0])
    P["%bytes_to_string"] = P["%bytes_of_string"] = lambda I, st, a, n: O.ok(st, a[0])
    P["Stdlib.Bytes.empty"] = None
    P.pop("Stdlib.Bytes.empty")
    P["Stdlib.^"] = concat
    P["Stdlib.Bytes.cat"] = concat
    P["Stdlib.Bytes.set_int64_be"] = set_int64("be")
    P["Stdlib.Bytes.set_int64_le"] = set_int64("le")
    P["Stdlib.String.iter"] = string_iter
    P["Stdlib.Bytes.iter"] = string_iter
    P["%array_safe_get"] = arr_get
    P["%array_safe_set"] = arr_set
    P["%array_length"] = arr_len
    P["caml_make_vect"] = arr_make
    P["Stdlib.Array.make"] = arr_make
    P["Stdlib.Array.fill"] = arr_fill
    P["Stdlib.input"] = chan_input
    P["Stdlib.output"] = chan_output
    P["Unix.read"] = unix_read
    P["Unix.openfile"] = opaque_res("Unix.file_descr", "Unix_error")
    P["Unix.close"] = opaque_res("unit", "Unix_error")
    for z in ("add", "sub", "mul", "gcd", "lcm", "nextprime", "of_int"):
        P["Z." + z] = zop(z)
    for z in ("div", "rem", "invert"):
        P["Z." + z] = zop(z, ("Division_by_zero",))
    for z in ("powm", "powm_sec"):
        P["Z." + z] = zop(z, ("Invalid_argument",))
    P["Z.to_bits"] = z_to_bits
    P["Z.of_bits"] = z_of_bits
    P["Z.compare"] = z_small(-1, 1)
    P["Z.sign"] = z_small(-1, 1)
    P["Z.numbits"] = z_small(0, O.MAXINT)

    X = I.ext
    X["caml_xor_string"] = x_xor
    X["caml_aes_cook_encrypt_key"] = x_cook("aes_ekey", "aes_e", Lin(241), oneof(16, 24, 32))
    X["caml_aes_cook_decrypt_key"] = x_cook("aes_dkey", "aes_d", Lin(241), oneof(16, 24, 32))
    X["caml_aes_encrypt"] = x_block("aes_encrypt", ("aes_e",), 16)
    X["caml_aes_decrypt"] = x_block("aes_decrypt", ("aes_d",), 16)
    X["caml_blowfish_cook_key"] = x_cook("blowfish_key", "blowfish", Lin(4168), lambda L: [[L - 1, Lin(O.MAXSTR) - L]])
    X["caml_blowfish_encrypt"] = x_block("blowfish_encrypt", ("blowfish",), 8)
    X["caml_blowfish_decrypt"] = x_block("blowfish_decrypt", ("blowfish",), 8)
    X["caml_des_cook_key"] = x_des_cook
    X["caml_des_transform"] = x_block("des_transform", ("des",), 8)
    X["caml_arcfour_cook_key"] = x_cook("arcfour_key", "arcfour", Lin(258), lambda L: [[L - 1, Lin(256) - L]])
    X["caml_arcfour_transform_bytecode"] = X["caml_arcfour_transform"] = x_stream("arcfour", "arcfour")
    X["caml_chacha20_cook_key"] = x_chacha_cook
    X["caml_chacha20_transform_bytecode"] = X["caml_chacha20_transform"] = x_stream("chacha20", "chacha20")
    X["caml_chacha20_extract"] = x_chacha_extract
    for n, sz, dg in (("sha1", 96, 20), ("ripemd160", 96, 20), ("md5", 88, 16)):
        X["caml_%s_init" % n] = x_init(n + "_init", n, sz)
        X["caml_%s_update" % n] = x_update(n + "_update", (n,))
        X["caml_%s_final" % n] = x_final(n + "_final", (n,), dg)
    X["caml_sha256_init"] = x_init("sha256_init", "sha256", 112)
    X["caml_sha224_init"] = x_init("sha224_init", "sha224", 112)
    X["caml_sha256_update"] = x_update("sha256_update", ("sha256", "sha224"))
    X["caml_sha256_final"] = x_final("sha256_final", ("sha256",), 32)
    X["caml_sha224_final"] = x_final("sha224_final", ("sha224",), 28)
    X["caml_sha512_init"] = x_init("sha512_init", "sha512", 216)
    X["caml_sha384_init"] = x_init("sha384_init", "sha384", 216)
    X["caml_sha512_update"] = x_update("sha512_update", ("sha512", "sha384"))
    X["caml_sha512_final"] = x_final("sha512_final", ("sha512",), 64)
    X["caml_sha384_final"] = x_final("sha384_final", ("sha384",), 48)
    X["caml_sha3_init"] = x_init("sha3_init", "sha3", 0, sha3_check, "sha3_context")
    X["caml_sha3_absorb"] = x_update("sha3_absorb", ("sha3_context",))
    X["caml_sha3_extract"] = x_final("sha3_extract", ("sha3_context",), sha3_size, ctxpos=1)
    X["caml_sha3_wipe"] = x_wipe("sha3_wipe")
    for n, sz, mx in (("blake2b", 248, 64), ("blake2s", 128, 32)):
        X["caml_%s_init" % n] = x_init(n + "_init", n, sz, blake2_check(mx))
        X["caml_%s_update" % n] = x_update(n + "_update", (n,))
        X["caml_%s_final" % n] = x_final(n + "_final", (n,), size_arg(1, mx))
    X["caml_ghash_init"] = x_ghash_init
    X["caml_ghash_mult"] = x_ghash_mult
    X["caml_poly1305_init"] = x_poly1305_init
    X["caml_poly1305_update"] = x_update("poly1305_update", ("poly1305",))
    X["caml_poly1305_final"] = x_final("poly1305_final", ("poly1305",), 16)
    X["caml_siphash_init"] = x_init("siphash_init", "siphash", 48, siphash_check)
    X["caml_siphash_update"] = x_update("siphash_update", ("siphash",))
    X["caml_siphash_final"] = x_final("siphash_final", ("siphash",), size_arg(1, 16))
    X["caml_blake3_init"] = x_init("blake3_init", "blake3", 0, blake3_check, "blake3_context")
    X["caml_blake3_update"] = x_update("blake3_update", ("blake3_context",))
    X["caml_blake3_extract"] = x_final("blake3_extract", ("blake3_context",), blake3_size)
    X["caml_blake3_wipe"] = x_wipe("blake3_wipe")
    X["caml_get_system_rng"] = opaque_res("system_rng_handle", "Not_found")
    X["caml_close_system_rng"] = opaque_res("unit")
    X["caml_system_rng_random_bytes"] = x_rng("system_rng", 1)
    X["caml_hardware_rng_available"] = opaque_res("bool")
    X["caml_hardware_rng_random_bytes"] = x_rng("hardware_rng", 0)
    X["caml_zlib_deflateInit"] = opaque_res("Zlib.stream")
    X["caml_zlib_inflateInit"] = opaque_res("Zlib.stream")
    X["caml_zlib_deflate_bytecode"] = X["caml_zlib_deflate"] = x_zlib("deflate")
    X["caml_zlib_inflate_bytecode"] = X["caml_zlib_inflate"] = x_zlib("inflate")
    X["caml_zlib_deflateEnd"] = opaque_res("unit")
    X["caml_zlib_inflateEnd"] = opaque_res("unit")
    X["caml_wipe_z"] = x_wipe("wipe_z")

    def block_transform(I, st, o, a, node):
        src, so, dst, do = a[:4]
        bs = I.opq_attr(st, o, "blocksize")
        def inb(s, v, f):
            return [ge(f), ge(I.length(s, v) - bs - f)]
        outs = []
        def k(s):
            t = I.term(s, I.read(s, src.loc, so, bs))
            s = I.mutates(s, dst, node)
            s = s.event("transform", o.id, t)
            return O.ok(I.write(s, dst.loc, do, bs, content(appseq("E", o.id, t), bs)))
        r = guard(I, st, inb(st, src, so) + inb(st, dst, do), k)
        # a cipher may also raise for reasons of its own (message too long)
        r.append(O.Out(st, exn("Error", O.Opq("error")), True))
        return r
    I.opq_methods[("block_cipher", "transform")] = block_transform
    I.opq_methods[("block_cipher", "blocksize")] = lambda I, st, o, a, node: O.ok(st, I.opq_attr(st, o, "blocksize"))
    I.opq_methods[("block_cipher", "wipe")] = opq_wipe

    def stream_transform(I, st, o, a, node):
        src, so, dst, do, n = a[:5]

        def k(s):
            t = I.term(s, I.read(s, src.loc, so, n))
            s = I.mutates(s, dst, node)
            s = s.event("stransform", o.id, t)
            return O.ok(I.write(s, dst.loc, do, n, content(appseq("SE", o.id, t), n)))
        r = guard(I, st, [ge(n), ge(so), ge(I.length(st, src) - n - so), ge(do), ge(I.length(st, dst) - n - do)], k)
        r.append(O.Out(st, exn("Error", O.Opq("error")), True))
        return r
    I.opq_methods[("stream_cipher", "transform")] = stream_transform
    I.opq_methods[("stream_cipher", "wipe")] = opq_wipe

    def attr(name):
        def h(I, st, o, a, node):
            v = I.opq_attr(st, o, name)
            return O.ok(st.with_poly(st.poly.add_ge0(v).add_ge0(Lin(O.MAXSTR) - v)), v)
        return h

    def sized(name, what):
        """a string result whose length is the announced attribute"""
        def h(I, st, o, a, node):
            v = I.opq_attr(st, o, name)
            st = st.with_poly(st.poly.add_ge0(v).add_ge0(Lin(O.MAXSTR) - v))
            st = st.event("opq", o.id, what, node[1][0])
            r, s = I.alloc(st, v, ((Lin(0), v, frozenset([(("opqres", what, o.id, fresh("r")), Lin(0))])),), origin="new", kind="string")
            return [O.Out(s, r), O.Out(st, O.Opq("exn"), True)]
        return h
    I.opq_methods[("hash", "hash_size")] = attr("hash_size")
    I.opq_methods[("hash", "result")] = sized("hash_size", "result")
    I.opq_methods[("authenticated_transform", "tag_size")] = attr("tag_size")
    I.opq_methods[("authenticated_transform", "finish_and_get_tag")] = sized("tag_size", "finish_and_get_tag")
    for c in ("transform", "authenticated_transform"):
        for m in ("input_block_size", "output_block_size"):
            I.opq_methods[(c, m)] = attr(m)
    for c in ("transform", "hash", "authenticated_transform", "rng"):
        I.opq_methods[(c, "wipe")] = opq_wipe

    def pad(I, st, o, a, node):
        b, used = a[:2]
        st = I.mutates(st, b, node)
        L = I.length(st, b)
        s = I.write(st, b.loc, used, L - used, content(appseq("pad", o.id, st.poly.canon(L - used)), L - used)) \
            if st.poly.entails_ge0(used) and st.poly.entails_ge0(L - used) else I.write(st, b.loc, Lin(0), L, None)
        return [O.Out(s, O.UNIT), O.Out(I.write(st, b.loc, Lin(0), L, None), O.Opq("exn"), True)]

    def strip(I, st, o, a, node):
        # contract of Padding.scheme#strip: between 0 and the block length
        L = I.length(st, a[0])
        v, s = I.newvar(st, 0, None, "valid")
        s = s.with_poly(s.poly.add_ge0(L - v))
        return [O.Out(s, v), O.Out(st, O.Opq("exn"), True)]
    I.opq_methods[("scheme", "pad")] = pad
    I.opq_methods[("scheme", "strip")] = strip

    def get_substring(I, st, o, a, node):
        n, st = I.newvar(st, 0, O.MAXSTR, "blen")
        seq = ("opqbuf", fresh("ob"))
        b, st = I.alloc(st, n, ((Lin(0), n, frozenset([(seq, Lin(0))])),), origin="opaque", kind="bytes")
        of, st = I.newvar(st, 0, None, "of")
        ln, st = I.newvar(st, 0, None, "ln")
        st = st.with_poly(st.poly.add_ge0(n - of - ln))
        st = st.event("get_substring", o.id, b.loc)
        return [O.Out(st, O.Tup((b, of, ln))), O.Out(st, O.Opq("exn"), True)]
    I.opq_methods[("transform", "get_substring")] = get_substring

    def random_bytes(I, st, o, a, node):
        b, of, n = a[:3]

        def k(s):
            s = I.mutates(s, b, node)
            s1 = I.write(s, b.loc, of, n, [(Lin(0), n, frozenset([(("entropy", fresh("rng")), Lin(0))]))])
            return [O.Out(s1, O.UNIT), O.Out(s, O.Opq("exn"), True)]
        return guard(I, st, window_ok(I, st, b, of, n), k)
    I.opq_methods[("rng", "random_bytes")] = random_bytes


def opq_wipe(I, st, o, a, node):
    s = st.copy()
    s.ghost[("wiped", o.id)] = O.B(O.TRUE)
    return O.ok(s.event("wipe", o.id))
