"""Abstract interpreter for LLVM IR (the C primitives).

Numbers are affine expressions over a polyhedral state (sa/poly.py), machine
integers are kept modulo 2^w and normalised by range (splitting the state where
a wrap-around is possible), memory is a set of regions whose contents are
segments with symbolic boundaries: unknown, constant byte, scalar value, or
"the bytes name[x + delta]" (array segmentation).  Loops are decided by a
fixpoint with widening and narrowing (constant-trip loops may be unrolled).
"""
import itertools
import time

from ..poly import Lin, Poly, fresh, join_many as pjoin_many, widen as pwiden, leq as pleq
from . import ir

L = Lin.of
ZERO = Lin(0)


class Stuck(Exception):
    """the code uses something outside the analysed language"""


class Split(Exception):
    def __init__(self, alts):
        Exception.__init__(self)
        self.alts = alts         # list of lists of Lin (each >= 0)


class Dead(Exception):
    """this path cannot continue (noreturn, infeasible)"""


# ------------------------------------------------------------------ values
class Term:
    """an integer known only by its range and by how it was computed"""
    __slots__ = ("op", "args", "w", "lo", "hi", "var")

    def __repr__(self):
        return "%s%r:%d" % (self.op, self.args, self.w)


_terms = {}
VT = {}          # var -> Term
RNG = {}         # var -> (lo, hi): holds in every state
_uid = itertools.count(1)


def term(op, args, w, lo=0, hi=None):
    m = (1 << w) - 1
    if hi is None or hi > m:
        hi = m
        lo = 0
    k = (op, args, w)
    t = _terms.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.w, t.lo, t.hi, t.var = op, args, w, lo, hi, None
        _terms[k] = t
    return t


def top(w, lo=0, hi=None):
    return term("top", (next(_uid),), w, lo, hi)


def rand(w, bits=None):
    """a value whose low `bits` bits come from the entropy source"""
    return term("random", (next(_uid), bits or w), w, 0, (1 << min(w, bits or w)) - 1)


def elt(name, idx):
    return term("elt", (name, idx), 8)


class Ptr:
    __slots__ = ("r", "o", "lo", "hi", "ep")

    def __init__(self, r, o=ZERO, lo=None, hi=None, ep=0):
        self.r, self.o, self.lo, self.hi, self.ep = r, o, lo, hi, ep

    def at(self, o):
        return Ptr(self.r, o, self.lo, self.hi, self.ep)

    def __repr__(self):
        return "&%s+%r" % (self.r, self.o)


class AnyPtr:
    def __repr__(self):
        return "anyptr"


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, n):
        self.name = n


class Cond:
    """i1: op in ge (e>=0), eq (e==0), and, or, not, unk"""
    __slots__ = ("op", "e", "a", "b")

    def __init__(self, op, e=None, a=None, b=None):
        self.op, self.e, self.a, self.b = op, e, a, b

    def __repr__(self):
        return "%s(%r%s)" % (self.op, self.e if self.e is not None else self.a, "" if self.b is None else ", %r" % self.b)


class Agg:
    __slots__ = ("vs",)

    def __init__(self, vs):
        self.vs = vs


TRUE, FALSE = Cond("true"), Cond("false")
UNK = Cond("unk")


def cnot(c):
    if c.op == "true":
        return FALSE
    if c.op == "false":
        return TRUE
    if c.op == "not":
        return c.a
    if c.op == "ge":
        return Cond("ge", -c.e - 1)
    return Cond("not", a=c)


# ------------------------------------------------------------------ memory
class Reg:
    """static description of a region"""
    __slots__ = ("name", "size", "kind", "flags", "g")

    def __init__(self, name, size, kind, flags=0, g=None):
        self.name, self.size, self.kind, self.flags, self.g = name, size, kind, flags, g


T = ("T", "")
T_UNINIT = ("T", "uninit")


def is_const(e):
    return not e.t


class State:
    __slots__ = ("poly", "mem", "regs", "roots", "gcn", "blocking", "ghost", "trail", "tmpl")

    def __init__(self):
        self.poly = Poly()
        self.mem, self.regs = {}, {}
        self.roots, self.gcn, self.blocking = (), 0, False
        self.ghost = {}
        self.trail = ()
        self.tmpl = frozenset()      # shapes of constraints that case splits have specialised

    def clone(self):
        s = State.__new__(State)
        s.poly = self.poly
        s.mem, s.regs = dict(self.mem), dict(self.regs)
        s.roots, s.gcn, s.blocking = self.roots, self.gcn, self.blocking
        s.ghost = dict(self.ghost)
        s.trail = self.trail
        s.tmpl = self.tmpl
        return s

    # constraints
    def given(self, eq=(), ge=()):
        """this state under additional constraints, None if they contradict it"""
        q = self.clone()
        try:
            for e in eq:
                q.eq(e)
            for e in ge:
                q.ge(e)
        except Dead:
            return None
        return None if q.poly.is_bot() else q

    def ge(self, e):
        self.poly = self.poly.add_ge0(e)
        if self.poly.bot:
            raise Dead()

    def eq(self, e):
        self.poly = self.poly.add_eq0(e)
        if self.poly.bot:
            raise Dead()

    def canon(self, e):
        return self.poly.canon(e)

    def has_ge(self, e):
        return self.poly.entails_ge0(e)

    def has_eq(self, e):
        return self.poly.entails_eq0(e)

    def use(self, t):
        """the variable of a term, its range known to this state"""
        v = t.var
        if v is None:
            v = t.var = fresh("t")
            VT[v] = t
            RNG[v] = (t.lo, t.hi)
        p = self.poly
        if v not in p.eq:
            lo, hi = p.intervals()
            if v not in lo or v not in hi:
                self.ge(Lin(-t.lo, ((v, 1),)))
                self.ge(Lin(t.hi, ((v, -1),)))
        return self.poly.canon(Lin.var(v))

    def new(self, hint, lo=None, hi=None):
        v = fresh(hint)
        if lo is not None:
            self.ge(Lin.var(v) - lo)
        if hi is not None:
            self.ge(L(hi) - Lin.var(v))
        return Lin.var(v)

    def lin(self, v):
        if isinstance(v, Lin):
            return self.poly.canon(v)
        if isinstance(v, Term):
            if v.lo == v.hi:
                return Lin(v.lo)
            return self.use(v)
        raise Stuck("number expected, got %r" % (v,))

    def bounds(self, e):
        p = self.poly
        e = p.canon(e)
        if not e.t:
            return e.c, e.c
        a = p.quick_min(e)
        b = p.quick_min(-e)
        lo = a
        hi = None if b is None else -b
        return lo, hi

    def xbounds(self, e):
        p = self.poly
        return p.min_value(e), p.max_value(e)

    # modular normalisation
    def uns(self, v, w):
        return self.norm(v, w, 0, (1 << w) - 1)

    def sig(self, v, w):
        return self.norm(v, w, -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def norm(self, v, w, mn, mx):
        e = self.lin(v)
        if not e.t:
            c = e.c % (1 << w)
            if c > mx:
                c -= 1 << w
            return Lin(c)
        lo, hi = self.bounds(e)
        if lo is None or hi is None or lo < mn or hi > mx:
            lo, hi = self.xbounds(e)
            if self.poly.bot:
                raise Dead()
        if lo is None or hi is None:
            return self.use(term("mod", (e, mn), w)) + mn if mn else self.use(term("mod", (e, mn), w))
        m = 1 << w
        k0, k1 = (lo - mn) // m, (hi - mn) // m
        if k0 == k1:
            return e - k0 * m if k0 else e
        if k1 - k0 <= 2:
            raise Split([[e - (mn + k * m), L(mx + k * m) - e] for k in range(k0, k1 + 1)])
        if mn == 0:
            return self.div2(e, w)[1]
        _q, r = self.div2(e - mn, w)
        return r + mn

    # division by a power of two (floor)
    def vdiv(self, v, k):
        t = TREE.get(v)
        if t is None:
            t = TREE[v] = (k, fresh("lo"), fresh("hi"))
        d, lo, hi = t
        self.ensure(v, d, lo, hi)
        lo_, hi_ = Lin.var(lo), Lin.var(hi)
        if k == d:
            return hi_, lo_
        if k < d:
            q, r = self.vdiv(lo, k)
            return q + hi_.scale(1 << (d - k)), r
        q, r = self.vdiv(hi, k - d)
        return q, lo_ + r.scale(1 << d)

    def ensure(self, v, d, lo, hi):
        e = self.canon(Lin.var(v) - Lin.var(lo) - Lin(0, ((hi, 1 << d),)))
        if e.t or e.c:
            a, b = self.xbounds(Lin.var(v))
            self.eq(e)
            self.ge(Lin.var(lo))
            self.ge(L((1 << d) - 1) - Lin.var(lo))
            if a is not None:
                self.ge(Lin.var(hi) - (a >> d))
            if b is not None:
                self.ge(L(b >> d) - Lin.var(hi))
            # the quotient may already have a name
            cand = set()
            for c in self.poly.ge:
                for x, k in c.t:
                    if x != hi and k % (1 << d) == 0 and len(c.t) <= 6:
                        cand.add(x)
            h = Lin.var(hi)
            for x in sorted(cand):
                df = self.canon(h - Lin.var(x))
                if not df.t:
                    continue
                q1 = self.poly.min_value(df)
                if q1 is None or q1 < 0:
                    continue
                q2 = self.poly.max_value(df)
                if q2 == 0:
                    self.eq(df)
                    break

    def div2(self, e, k):
        """(q, r) with e = 2^k q + r and 0 <= r < 2^k"""
        e = self.canon(e)
        m = 1 << k
        q = Lin(e.c // m, tuple((v, c // m) for v, c in e.t if c % m == 0))
        cr = e.c % m
        rest = tuple((v, c) for v, c in e.t if c % m)
        if not rest:
            return q, Lin(cr)
        r = Lin(cr, rest)
        lo, hi = self.bounds(r)
        if lo is not None and hi is not None and lo >= 0 and hi < m:
            return q, r
        if len(rest) == 1:
            v, c = rest[0]
            if c > 0 and c & (c - 1) == 0:
                j = c.bit_length() - 1
                if cr < c:
                    q1, r1 = self.vdiv(v, k - j)
                    return q + q1, r1.scale(c) + cr
        if len(rest) >= 2:
            g = 0
            for _v, c in rest:
                g = gcd(g, c)
            if g & (g - 1) == 0 and cr % g == 0:
                want = Lin(cr // g, tuple((v, c // g) for v, c in rest))
                for u, x in self.poly.eq.items():
                    if x.t == want.t:
                        j = g.bit_length() - 1
                        if cr // g == x.c:
                            q1, r1 = self.vdiv(u, k - j)
                            return q + q1, r1.scale(g)
                        if e.c % g == 0 and e.c // g == x.c:
                            q1, r1 = self.vdiv(u, k - j)
                            return q - e.c // m + q1, r1.scale(g)
        if len(rest) == 2 and all(c > 0 and c & (c - 1) == 0 for _v, c in rest):
            rs = Lin(cr)
            for v, c in rest:
                q1, r1 = self.vdiv(v, k - (c.bit_length() - 1))
                q, rs = q + q1, rs + r1.scale(c)
            rs = self.canon(rs)
            lo, hi = self.xbounds(rs)
            if lo is None or hi is None:
                raise Dead()
            k0, k1 = lo // m, hi // m
            if k0 == k1:
                return q + k0, rs - k0 * m
            raise Split([[rs - i * m, L(i * m + m - 1) - rs] for i in range(k0, k1 + 1)])
        b = BASE.get(r)
        if b is None:
            b = BASE[r] = fresh("b")
        if self.canon(Lin.var(b) - r) != ZERO:
            self.eq(Lin.var(b) - r)
        q1, r1 = self.vdiv(b, k)
        return q + q1, r1


TREE = {}
BASE = {}


def nbytes(ty):
    return ty.size()


def svars(v, out):
    if isinstance(v, Lin):
        out.update(v.vars())
    elif isinstance(v, Ptr):
        out.update(v.o.vars())
        for x in (v.lo, v.hi):
            if isinstance(x, Lin):
                out.update(x.vars())
    elif isinstance(v, Cond):
        if v.e is not None:
            out.update(v.e.vars())
        if v.a is not None:
            svars(v.a, out)
        if v.b is not None:
            svars(v.b, out)
    elif isinstance(v, Term):
        if v.var is not None:
            out.add(v.var)
        if v.op == "elt":
            out.update(v.args[1].vars())
    elif isinstance(v, Agg):
        for x in v.vs:
            svars(x, out)


def cvars(c, out):
    if c[0] == "S":
        for _n, d in c[1]:
            out.update(d.vars())
    elif c[0] == "V":
        svars(c[1], out)


class Footprint:
    def __init__(self, name, n):
        self.name, self.n, self.ok = name, n, True
        self.empty = ((0,) * n,) * 3
        self.reads = self.writes = ()

    def access(self, st, i, lo, hi, write):
        if lo is None or hi is None or lo < 0 or hi - lo > 1 << 16:
            raise Stuck("no fixed footprint")
        x = st.ghost.get("fp", self.empty)
        if not isinstance(x, tuple):
            raise Stuck("no fixed footprint")
        r, w, m = x                 # may read before writing, may write, must have written
        k = self.bits(lo, hi)
        if write:
            if k & ~m[i]:
                st.ghost["fp"] = (r, w[:i] + (w[i] | k,) + w[i + 1:], m[:i] + (m[i] | k,) + m[i + 1:])
        else:
            k &= ~m[i]
            if k & ~r[i]:
                st.ghost["fp"] = (r[:i] + (r[i] | k,) + r[i + 1:], w, m)

    @staticmethod
    def union(a, b):
        if a is None or b is None:
            return None
        return (tuple(x | y for x, y in zip(a[0], b[0])), tuple(x | y for x, y in zip(a[1], b[1])),
                tuple(x & y for x, y in zip(a[2], b[2])))

    @staticmethod
    def bits(lo, hi):
        return ((1 << (hi - lo)) - 1) << lo

    def close(self):
        self.reads, self.writes = [runs(x) for x in self.r], [runs(x) for x in self.w]
        # bytes read and never written: the message, key and parameters
        self.inputs = [runs(x & ~y) for x, y in zip(self.r, self.w)]


def runs(xs):
    out = []
    for x in (i for i in range(xs.bit_length()) if xs >> i & 1):
        if out and out[-1][1] == x:
            out[-1][1] = x + 1
        else:
            out.append([x, x + 1])
    return [tuple(x) for x in out]


class LoopTag:
    def __init__(self, i):
        self.id, self.gen, self.own, self.paths = i, 0, {}, {}
        self.blurred = set()
        self.it = 0


class Interp:
    CAP = 10
    MAXITER = 40
    debug = None
    UNROLL = 140
    UNROLL_INS = 40000

    def __init__(self, mod, rules=None, externs=None, kernels=None, budget=3000000, unroll=None):
        self.m = mod
        self.locs = ir.Locs(mod)
        self.obs = {}
        self.record = True
        self.externs = dict(EXTERNS)
        if externs:
            self.externs.update(externs)
        self.kernels = kernels or {}
        self.stack = []         # callers: (function, env) for variable retention
        self.budget = budget
        self.steps = 0
        self.ins = None
        self.stats = {"calls": 0, "loops": 0, "fixpoint_iterations": 0, "accesses": 0, "functions": set(), "splits": 0, "merges": 0}
        self.written_globals = self._written_globals()
        self.gbytes = {}
        if unroll is not None:
            self.UNROLL = unroll
        self.trace = None
        self.hooks = {}
        self.events = {}
        self.headers = {}
        self.data, self.guardc, self.caps = False, {}, {}
        self.fp, self.fps, self.weights, self.summarise, self.nofix = None, {}, {}, True, False
        self.on_kernel = None
        self.opaque = None      # which functions may be summarised by their footprint (None: all)
        self.deadline = None
        self.after = {}
        self.sites = {}
        self.fine = False       # track message segments through loops (stream checks)
        self.tags = {}          # tags of allocated blocks
        self.on_return = None
        self.partial = False    # summarise functions that do not always access the same bytes
        self.apart = False      # keep the states that enter a loop apart
        self.cell, self.big = None, False
        self.sure = False       # report only accesses whose position and length are known
        self.script = None      # choices of the harness fixed in this cell of the input partition
        self.cpu = {}           # assumed behaviour of the processor (cpuid, rdrand)

    # ------------------------------------------------------------ obligations
    def where(self):
        i = self.ins
        return "%s %s" % (self.locs.loc(i.dbg) if i is not None else "?", i.fn[1:] if i is not None else "?")

    def ob(self, rule, ok, inst="", detail=""):
        if self.fp is not None and not ok:
            raise Stuck("needs its context")
        if not self.record:
            return ok
        self.stats["accesses"] += 1
        k = (rule, self.where(), inst)
        o = self.obs.get(k)
        if o is None:
            self.obs[k] = [bool(ok), detail if not ok else "", 1]
        else:
            o[2] += 1
            if o[0] and not ok:
                o[0], o[1] = False, detail
        return ok

    # ------------------------------------------------------------ globals
    def _written_globals(self):
        """globals that some store, memcpy or call may write or whose address escapes to unknown code"""
        w = set()
        for f in self.m.funcs.values():
            der = {}
            for b in f.order:
                for s in f.blocks[b]:
                    base = None
                    if s.op == "getelementptr":
                        base = self._gbase(s.a[0][1], der)
                    elif s.op in ("bitcast", "phi", "select"):
                        ops = [v for v, _p in s.x] if s.op == "phi" else s.a
                        for o in ops:
                            base = base or self._gbase(o, der)
                    elif s.op == "store":
                        g = self._gbase(s.a[1], der)
                        if g:
                            w.add(g)
                    elif s.op == "call" and s.a:
                        nm = s.x[1] if s.x[0] == "g" else ""
                        if nm.startswith("@llvm.mem"):
                            g = self._gbase(s.a[0][1], der)
                            if g:
                                w.add(g)
                    if base and s.res:
                        der[s.res] = base
        return w

    def _gbase(self, v, der):
        if v[0] == "g":
            return v[1] if v[1] in self.m.globals else None
        if v[0] == "r":
            return der.get(v[1])
        if v[0] == "gep":
            return self._gbase(v[2][0][1], der)
        if v[0] == "cast":
            return self._gbase(v[3], der)
        return None

    def capability(self, name):
        """is this static scalar only ever set from constants and from the processor, never from an input?
        Then every writer stores the same value and the write is harmless"""
        if name in self.caps:
            return self.caps[name]
        self.caps[name] = False
        g = self.m.globals[name]
        ok = g.ty.k in ("i", "ptr")
        for f in self.m.funcs.values():
            if not ok:
                break
            defs = {s.res: s for b in f.order for s in f.blocks[b] if s.res}
            stores = [(b, s) for b in f.order for s in f.blocks[b] if s.op == "store" and self._gbase(s.a[1], {}) == name]
            if not stores:
                continue
            preds = {}
            for b in f.order:
                t = f.blocks[b][-1]
                for x in (t.x if t.op == "br" else ()):
                    preds.setdefault(x, set()).add(b)
                if t.op == "switch":
                    ok = False
            for b, s in stores:
                src = defs.get(s.a[0][1]) if s.a[0][0] == "r" else None
                if src is not None and src.op == "call" and src.x == ("g", "@caml_named_value"):
                    continue          # a cached handle of the runtime's table: the same for all callers
                ok = ok and self.input_free(f, s.a[0], defs, name, set())
                todo, seen = [b], {b}
                while todo:
                    for q in preds.get(todo.pop(), ()):
                        t = f.blocks[q][-1]
                        if t.op == "br" and t.a:
                            ok = ok and self.input_free(f, t.a[0], defs, name, set())
                        if q not in seen:
                            seen.add(q)
                            todo.append(q)
        self.caps[name] = ok
        return ok

    def named(self, st):
        """pointer to a registered value of the runtime (or null when it is not registered)"""
        rid = "named"
        if rid not in st.regs:
            st.regs[rid] = Reg(rid, L(8), "groot", 0, rid + ":v")
            st.regs[rid + ":v"] = Reg(rid + ":v", L(8), "pinned")
        return Ptr(rid, ep=st.gcn)

    def input_free(self, f, o, defs, name, seen):
        if o[0] in ("c", "undef", "null"):
            return True
        if o[0] != "r" or o[1] not in defs:
            return False
        if o[1] in seen:
            return True
        seen.add(o[1])
        s = defs[o[1]]
        if s.op == "load":
            if self._gbase(s.a[0], {}) == name:
                return True
            a = s.a[0]
            if a[0] == "r" and a[1] in defs and defs[a[1]].op == "alloca":
                for b in f.order:
                    for t in f.blocks[b]:
                        if t.op == "store" and t.a[1] == a and not self.input_free(f, t.a[0], defs, name, seen):
                            return False
                        if t.op == "call" and any(v == a for _t, v in t.a) and not self.cpu_call(f, t, defs, name, seen):
                            return False
                        if t.op == "getelementptr" and t.a[0][1] == a:
                            return False
                return True
            return False
        if s.op == "call":
            return self.cpu_call(f, s, defs, name, seen)
        if s.op == "phi":
            return all(self.input_free(f, v, defs, name, seen) for v, _p in s.x)
        if s.op == "alloca":
            return True
        if s.op in ("getelementptr", "switch"):
            return False
        return all(self.input_free(f, v, defs, name, seen) for v in s.a)

    def cpu_call(self, f, s, defs, name, seen):
        return all(self.input_free(f, v, defs, name, seen) for _t, v in s.a)

    def gdata(self, name):
        """bytes of a constant initialiser, or None"""
        if name not in self.gbytes:
            g = self.m.globals[name]
            try:
                self.gbytes[name] = None if g.init is None else const_bytes(g.ty, g.init)
            except ValueError:
                self.gbytes[name] = None
        return self.gbytes[name]

    def gregion(self, st, name):
        r = "g:" + name
        if r not in st.regs:
            g = self.m.globals[name]
            st.regs[r] = Reg(name, Lin(g.ty.size()), "const" if g.const else "global", 0, name)
            if name in self.written_globals or g.external or not (g.const or g.init):
                if g.ty.k == "i" and g.ty.n in (8, 16, 32, 64):
                    st.mem[r] = ((Lin(g.ty.size()), ("V", st.new("g", -(1 << g.ty.n - 1), (1 << g.ty.n - 1) - 1), g.ty.size())),)
                else:
                    st.mem[r] = ((Lin(g.ty.size()), T),)
            else:
                st.mem[r] = None          # immutable: read from the initialiser
        return Ptr(r)

    # ------------------------------------------------------------ operands
    def val(self, st, env, o, ty):
        k = o[0]
        if k == "r":
            v = env.get(o[1])
            if v is None:
                raise Stuck("undefined %s" % o[1])
            return v
        if k == "c":
            if ty.k == "i" and ty.n == 1:
                return TRUE if o[1] & 1 else FALSE
            return Lin(o[1])
        if k == "z":
            if ty.k == "ptr":
                return Lin(0)
            if ty.k == "i":
                return FALSE if ty.n == 1 else Lin(0)
            if ty.k in ("struct", "arr"):
                return Agg([self.val(st, env, ("z",), t) for t in (ty.fs or [ty.e] * ty.n)])
            return top(ty.size() * 8)
        if k == "u":
            if ty.k == "ptr":
                return AnyPtr()
            if ty.k == "struct":
                return Agg([None] * len(ty.fs))
            if ty.k == "i" and ty.n == 1:
                return UNK
            return top(max(8, ty.size() * 8) if ty.k != "i" else ty.n)
        if k == "g":
            if o[1] in self.m.globals:
                return self.gregion(st, o[1])
            return FnPtr(o[1])
        if k == "gep":
            return self.gep(st, o[1], self.val(st, env, o[2][0][1], ir.PTR),
                            [(t, self.val(st, env, v, t)) for t, v in o[2][1:]])
        if k == "cast":
            return self.val(st, env, o[3], o[2])
        if k == "a":
            return top(ty.size() * 8)
        if k == "cexpr":
            return top(ty.n if ty.k == "i" else 64)
        if k == "f":
            return top(64)
        raise Stuck("operand %r" % (o,))

    def gep(self, st, bt, p, idx):
        if isinstance(p, Term) and p.op == "vec":
            raise Stuck("vector gep")
        if isinstance(p, AnyPtr):
            return p
        if isinstance(p, Lin):
            # offset from null: only the C idiom offsetof / an optional pointer
            e = p
            first = True
            t = bt
            for ty, i in idx:
                i = st.sig(i, ty.n)
                if first:
                    e = e + i.scale(t.size())
                    first = False
                elif t.k in ("struct", "pstruct"):
                    e = e + t.offs()[i.c]
                    t = t.fs[i.c]
                else:
                    e = e + i.scale(t.e.size())
                    t = t.e
            return e
        if isinstance(p, Term):
            return AnyPtr()
        if not isinstance(p, Ptr):
            raise Stuck("gep on %r" % (p,))
        o, lo, hi = p.o, p.lo, p.hi
        t = bt
        first = True
        for ty, i in idx:
            i = st.sig(i, ty.n)
            if first:
                o = o + i.scale(t.size())
                first = False
                continue
            if t.k in ("struct", "pstruct"):
                o = o + t.offs()[i.c]
                t = t.fs[i.c]
                if t.k == "arr":
                    lo, hi = o, o + t.size()
                else:
                    lo, hi = o, o + t.size()
            else:
                t = t.e
                o = o + i.scale(t.size())
        o = st.canon(o)
        return Ptr(p.r, o, lo, hi, p.ep)

    # ------------------------------------------------------------ memory access
    def check(self, st, p, n, what):
        """one access of n bytes through p; returns False if it cannot be located"""
        if isinstance(p, (Lin, AnyPtr, Term)):
            if isinstance(n, Lin) and st.has_eq(n):
                return False          # zero-length access: no memory touched
            self.ob("bounds", self.sure and not isinstance(p, Lin), what, "access through %s pointer" % ("a null" if isinstance(p, Lin) else "an unknown"))
            return False
        r = st.regs.get(p.r)
        if r is None:
            self.ob("bounds", False, what, "access to a region that no longer exists (%s)" % p.r)
            return False
        n = L(n)
        if r.kind == "arg" and self.fp is not None:
            a, b = st.bounds(p.o)
            self.fp.access(st, r.g, a, None if b is None or n.t else b + n.c, what.startswith("write"))
        lo = ZERO if p.lo is None else L(p.lo)
        hi = r.size if p.hi is None else L(p.hi)
        a = st.has_ge(p.o - lo)
        b = a and st.has_ge(hi - p.o - n)
        if b and not st.has_ge(n):
            b = False
        if not (a and b) and not st.has_eq(n):
            if st.poly.is_bot():
                raise Dead()
            obj = r.name if p.lo is None else "%s[%r..%r]" % (r.name, st.canon(lo), st.canon(hi))
            vague = self.sure and any(st.canon(x).t for x in (p.o, n, hi - lo))
            self.ob("bounds", vague, what + " " + self.reg_label(r),
                    "offset %r length %r in %s of size %r under %s" % (
                        st.canon(p.o), st.canon(n), obj, st.canon(hi - lo), show(st, [p.o, n, hi])))
        else:
            self.ob("bounds", True, what + " " + self.reg_label(r))
        if r.kind == "ml":
            self.ob("stale", p.ep >= st.gcn, what + " " + self.reg_label(r),
                    "heap pointer obtained before the last allocation is used after it")
            if st.blocking:
                self.ob("blocking", False, what, "OCaml heap accessed inside a blocking section")
        if r.kind == "freed":
            self.ob("bounds", False, what, "access to freed memory")
        return True

    def reg_label(self, r):
        return r.name.split("#")[0]

    def segs(self, st, rid):
        s = st.mem.get(rid)
        if s is None:
            r = st.regs[rid]
            if r.g is not None:
                return None
            s = ((r.size, T),)
        return s

    def cut(self, st, segs, o, k0=0):
        """split segs (from index k0 on) at offset o; returns (segs, index of the first
        segment starting at o) or None"""
        base = segs[k0 - 1][0] if k0 else ZERO
        if o == base or st.canon(o - base) == ZERO:
            return segs, k0
        start = base
        if is_const(o):
            for i in range(k0, len(segs)):
                e, c = segs[i]
                if is_const(e):
                    if e.c == o.c:
                        return segs, i + 1
                    if e.c > o.c:
                        if is_const(start) and start.c <= o.c:
                            return self.split_seg(st, segs, i, start, o)
                        break
                else:
                    break
                start = e
        for i in range(k0, len(segs)):
            e = segs[i][0]
            if e == o or st.canon(e - o) == ZERO:
                return segs, i + 1
        start = base
        for i in range(k0, len(segs)):
            e, c = segs[i]
            d = st.canon(e - o)
            if st.has_ge(d):
                if st.has_ge(-d):
                    return segs, i + 1
                return self.split_seg(st, segs, i, start, o)
            if st.has_ge(-d):
                start = e
                continue
            # where o lies relative to this boundary is not decided
            if self.may_split(st, segs, o):
                raise Split([[d], [-d - 1]])
            return None
        return segs, len(segs)

    def may_split(self, st, segs, o):
        n = 0
        for e, c in segs:
            d = st.canon(e - o)
            if not st.has_ge(d) and not st.has_ge(-d):
                n += 1
        return n <= 3

    def split_seg(self, st, segs, i, start, o):
        e, c = segs[i]
        if c[0] == "V":
            v, n = c[1], c[2]
            d = st.canon(o - start)
            if is_const(d) and 0 < d.c < n and isinstance(v, (Lin, Term)):
                k = d.c * 8
                if isinstance(v, Lin):
                    u = st.uns(v, n * 8)
                    q, r = st.div2(u, k)
                    a, b = r, q
                else:
                    a, b = term("field", (v, 0, k), k), term("field", (v, k, n * 8 - k), n * 8 - k)
                return segs[:i] + ((o, ("V", a, d.c)), (e, ("V", b, n - d.c))) + segs[i + 1:], i + 1
            return segs[:i] + ((o, T), (e, T)) + segs[i + 1:], i + 1
        return segs[:i] + ((o, c), (e, c)) + segs[i + 1:], i + 1

    def write(self, st, rid, o, n, news):
        """replace [o, o+n) by the segments news: list of (end offset, content)"""
        segs = self.segs(st, rid)
        if segs is None:
            g = self.m.globals[st.regs[rid].g]
            segs = ((st.regs[rid].size, T),)
        end = st.canon(o + n)
        r = self.cut(st, segs, o)
        if r is not None:
            segs1, i = r
            # the end must be searched from i on
            r2 = self.cut(st, segs1, end, i)
            if r2 is not None:
                segs2, j = r2
                out = list(segs2[:i]) + list(news) + list(segs2[j:])
                st.mem[rid] = self.coalesce(st, out)
                return
        self.smear(st, rid, segs, o, end)

    def smear(self, st, rid, segs, o, end):
        """weak update: everything that [o, end) may touch becomes unknown"""
        i0, start = 0, ZERO
        for i, (e, c) in enumerate(segs):
            if st.has_ge(o - e):
                i0 = i + 1
            else:
                break
        j = len(segs) - 1
        for k in range(len(segs) - 1, i0 - 1, -1):
            s = segs[k - 1][0] if k else ZERO
            if st.has_ge(s - end) and k > i0:
                j = k - 1
            else:
                break
        tag = T
        out = list(segs[:i0]) + [(segs[j][0], T)] + list(segs[j + 1:])
        st.mem[rid] = self.coalesce(st, out)

    def coalesce(self, st, segs):
        out = []
        start = ZERO
        for e, c in segs:
            e = st.canon(e)
            if e == start:
                continue          # empty
            if out and self.same_content(st, out[-1][1], c):
                out[-1] = (e, out[-1][1])
            else:
                out.append((e, c))
            start = e
        return tuple(out)

    def same_content(self, st, a, b):
        if a[0] != b[0] or a[0] == "V":
            return False
        if a == b:
            return True
        if a[0] == "S":
            if len(a[1]) != len(b[1]) or a[2] != b[2]:
                return False
            y = list(b[1])
            for n, d in a[1]:
                for k, (n2, d2) in enumerate(y):
                    if n == n2 and (d == d2 or st.has_eq(d - d2)):
                        del y[k]
                        break
                else:
                    return False
            return True
        return False

    def read_segs(self, st, rid, o, n):
        """segments of [o, o+n) as list of (start, end, content), or None if not locatable"""
        segs = self.segs(st, rid)
        if segs is None:
            return None
        r = self.cut(st, segs, o)
        if r is None:
            return None
        segs, i = r
        end = st.canon(o + n)
        r = self.cut(st, segs, end, i)
        if r is None:
            return None
        segs, j = r
        out = []
        s = st.canon(o)
        for e, c in segs[i:j]:
            out.append((s, e, c))
            s = e
        return out

    def load(self, st, p, ty, raw=False):
        n = ty.size()
        if isinstance(p, Ptr) and p.r in st.regs and st.regs[p.r].kind == "ml" and ty.k == "i":
            h = self.header(st, st.regs[p.r], st.canon(p.o), n)
            if h is not None:
                self.ob("stale", p.ep >= st.gcn, "read header " + self.reg_label(st.regs[p.r]),
                        "heap pointer obtained before the last allocation is used after it")
                return h
        if not self.check(st, p, n, "read"):
            return AnyPtr() if ty.k == "ptr" else top(n * 8 if ty.k != "i" else ty.n)
        reg = st.regs[p.r]
        if reg.kind == "groot":
            return Ptr(reg.g, ep=st.gcn) if reg.g in st.regs else AnyPtr()
        if ty.k == "vec":
            return term("vec", (next(_uid),), n * 8)
        w = n * 8
        segs = self.segs(st, p.r)
        if segs is None:
            return self.gload(st, p, ty)
        # fast path: exact scalar at a constant offset
        o = st.canon(p.o)
        v = parts = None
        if is_const(o):
            start = 0
            for e, c in segs:
                if not is_const(e):
                    break
                if e.c <= o.c:
                    start = e.c
                    continue
                if start == o.c and e.c == o.c + n and c[0] == "V":
                    v = c[1]
                break
        if v is None:
            parts = self.locate(st, segs, o, n)
            v = self.assemble(st, parts, o, n)
        if v is None and ty.k == "i" and parts and all(c == ("T", "random") for _s, _e, c in parts):
            v = rand(w)
        if v is None:
            if ty.k == "ptr":
                if reg.kind == "global" and reg.g and self.m.globals[reg.g].ty.k == "ptr" and self.capability(reg.g):
                    return self.named(st)
                return AnyPtr()
            v = top(w)
        if ty.k == "i" and ty.n == 1:
            return Cond("not", a=Cond("eq", st.lin(v))) if isinstance(v, (Lin, Term)) else UNK
        return v

    def header(self, st, reg, o, n):
        """the header word of an OCaml block (little endian: the tag is its first byte)"""
        if not is_const(o) or o.c != -8:
            return None
        nm = reg.name.split("#")[0]
        tag = 255 if nm == "custom" else 252
        if n == 1:
            return Lin(tag)
        if n != 8:
            return None
        if nm == "custom":
            q, _r = st.div2(reg.size, 3)
            return q.scale(1024) + tag
        q, _r = st.div2(reg.size, 3)
        return (q + 1).scale(1024) + tag

    def gload(self, st, p, ty):
        name = st.regs[p.r].g
        n = ty.size()
        g = self.m.globals[name]
        o = st.canon(p.o)
        if ty.k == "ptr":
            return AnyPtr()
        d = self.gdata(name)
        if d is None:
            return top(n * 8)
        if is_const(o) and 0 <= o.c and o.c + n <= len(d):
            return Lin(int.from_bytes(d[o.c:o.c + n], "little"))
        lo, hi = st.bounds(o)
        lo = 0 if lo is None or lo < 0 else lo
        hi = len(d) - n if hi is None or hi > len(d) - n else hi
        vs = [int.from_bytes(d[k:k + n], "little") for k in range(lo // n * n, hi + 1, n)]
        if not vs:
            return top(n * 8)
        return top(n * 8, min(vs), max(vs))

    def locate(self, st, segs, o, n):
        """contents covering [o,o+n): list of (start, end, content) possibly larger than the range"""
        end = o + n
        out = []
        start = ZERO
        for e, c in segs:
            if not out:
                if st.has_ge(o - e):
                    start = e
                    continue
                if not st.has_ge(e - o - 1):
                    # may start in this segment or later
                    if self.may_split(st, segs, o) and len(segs) <= 12:
                        raise Split([[o - e], [e - o - 1]])
                    return None
            out.append((start, e, c))
            start = e
            if st.has_ge(e - end):
                return out
            if not st.has_ge(end - e - 1) and len(segs) <= 12 and self.may_split(st, segs, end):
                raise Split([[e - end], [end - e - 1]])
        return out or None

    def assemble(self, st, parts, o, n):
        if not parts:
            return None
        if len(parts) == 1 and parts[0][2][0] in ("T",):
            return None
        if len(parts) == 1 and parts[0][2][0] == "V":
            s, e, c = parts[0]
            d = st.canon(o - s)
            if is_const(d):
                if d.c == 0 and c[2] == n:
                    return c[1]
                if isinstance(c[1], Lin):
                    u = st.uns(c[1], c[2] * 8)
                    q, _r = st.div2(u, d.c * 8) if d.c else (u, None)
                    _q, r = st.div2(q, n * 8)
                    return r
                if isinstance(c[1], Term):
                    return term("field", (c[1], d.c * 8, n * 8), n * 8)
            return None
        if self.data:
            bs = [self.byte_at(st, parts, o + k) for k in range(n)]
            if any(isinstance(b, Term) or b is None for b in bs):
                return bs[0] if n == 1 else None
        tot = ZERO
        for k in range(n):
            b = self.byte_at(st, parts, o + k)
            if b is None:
                return None
            if n == 1:
                return b
            tot = tot + st.lin(b).scale(1 << (8 * k))
        return st.canon(tot)

    def byte_at(self, st, parts, x):
        for s, e, c in parts:
            if not st.has_ge(e - x - 1):
                continue
            if not st.has_ge(x - s):
                return None
            if c[0] == "K":
                return Lin(c[1])
            if c[0] == "S":
                return self.seq_byte(st, c, x)
            if c[0] == "V":
                d = st.canon(x - s)
                if not is_const(d):
                    return None
                if isinstance(c[1], Lin):
                    u = st.uns(c[1], c[2] * 8)
                    q, _r = st.div2(u, d.c * 8) if d.c else (u, None)
                    return st.div2(q, 8)[1]
                if isinstance(c[1], Term):
                    return term("field", (c[1], d.c * 8, 8), 8)
                return None
            return None
        return None

    def seq_byte(self, st, c, x):
        ts = frozenset(elt(nm, st.canon(d + x)) for nm, d in c[1])
        return self.mkxor(st, ts, c[2])

    def mkxor(self, st, ts, k):
        if not ts:
            return Lin(k)
        if len(ts) == 1 and k == 0:
            return next(iter(ts))
        return term("xor", (ts, k), 8)

    def as_xor(self, st, v):
        """(set of elts, constant) of a byte value, or None"""
        if isinstance(v, Lin):
            if not v.t:
                return frozenset(), v.c & 255
            v = st.canon(v)
            if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
                v = VT.get(v.t[0][0])
                if v is None:
                    return None
            else:
                return None
        if isinstance(v, Term):
            if v.op == "zx" and isinstance(v.args[0], Term) and v.args[0].w == 8:
                v = v.args[0]
            if v.op == "elt":
                return frozenset([v]), 0
            if v.op == "xor" and v.w == 8:
                return v.args
            if v.op == "mod" or v.op == "field":
                return None
        return None

    def bytes_of(self, st, v, n):
        """little-endian byte values of an n-byte integer when they are separable, else None"""
        if n == 1:
            return [v]
        if isinstance(v, Term):
            if v.var is not None and v.op == "cat":
                pass
            if v.op == "cat":
                return list(v.args)
            if v.lo == 0 and v.hi < 256 and v.op in ("elt", "xor", "zx"):
                return [v.args[0] if v.op == "zx" else v] + [ZERO] * (n - 1)
            return None
        e = st.canon(v)
        lo, hi = st.bounds(e)
        if lo is None or hi is None or lo < 0 or hi >= 1 << (8 * n):
            return None
        out = []
        c = e.c
        left = dict(e.t)
        for k in range(n):
            ts = [(x, q) for x, q in left.items() if q < (1 << (8 * (k + 1))) and q >= (1 << (8 * k))]
            if not ts:
                out.append(Lin((c >> (8 * k)) & 255))
                continue
            if len(ts) == 1 and ts[0][1] == 1 << (8 * k) and (c >> (8 * k)) & 255 == 0:
                x = ts[0][0]
                a, b = st.bounds(Lin.var(x))
                if a is not None and b is not None and a >= 0 and b <= 255:
                    out.append(Lin.var(x))
                    del left[x]
                    continue
            return None
        if left:
            for x in left:
                return None
        return out

    def store(self, st, p, v, ty):
        n = ty.size()
        if not self.check(st, p, n, "write"):
            return
        reg = st.regs[p.r]
        self.wcheck(st, reg, p)
        o = st.canon(p.o)
        end = st.canon(o + n)
        if ty.k in ("vec", "arr", "struct"):
            self.write(st, p.r, o, L(n), [(end, T)])
            return
        if isinstance(v, Cond):
            v = self.cond_int(st, v)
        if isinstance(v, Lin) and v.t and ty.k == "i" and ty.n < 64:
            v = self.narrow(st, st.canon(v), ty.n)
        if isinstance(v, Term) and v.op == "random":
            c = ("T", "random") if v.args[1] >= 8 * n else T
        elif isinstance(v, Term) and v.op == "top" and v.lo == 0 and v.hi == (1 << 8 * n) - 1:
            c = T
        else:
            c = self.content(st, v, n, o)
        if isinstance(c, list):
            self.write(st, p.r, o, L(n), c)
        else:
            self.write(st, p.r, o, L(n), [(end, c)])

    def wcheck(self, st, reg, p):
        if reg.flags & 1 or reg.kind in ("ml",):
            self.ob("readonly", not (reg.flags & 1), "write " + self.reg_label(reg), "a buffer given as input is written")
        if reg.kind in ("global", "const"):
            self.ob("global-write", self.capability(reg.g), reg.name, "static data is written")

    def content(self, st, v, n, o):
        if n == 1:
            if isinstance(v, Lin) and not v.t:
                return ("K", v.c & 255)
            x = self.as_xor(st, v)
            if x is not None and x[0]:
                return ("S", frozenset((t.args[0], st.canon(t.args[1] - o)) for t in x[0]), x[1])
        elif isinstance(v, (Lin, Term)) and not (isinstance(v, Lin) and not v.t):
            bs = self.bytes_of(st, v, n)
            if bs is not None:
                cs = []
                for k, b in enumerate(bs):
                    x = self.as_xor(st, b)
                    if x is None or not x[0]:
                        cs = None
                        break
                    cs.append((st.canon(o + k + 1), ("S", frozenset((t.args[0], st.canon(t.args[1] - o - k)) for t in x[0]), x[1])))
                if cs:
                    return cs
            if isinstance(v, Lin) and len(v.t) >= (4 if n > 1 else 7):
                return T
        return ("V", v, n)

    def memcpy(self, st, d, s, n, what="memcpy"):
        n = st.uns(n, 64)
        a = self.check(st, s, n, "read (%s)" % what)
        b = self.check(st, d, n, "write (%s)" % what)
        if not b:
            return
        if st.has_eq(n):
            return
        reg = st.regs[d.r]
        self.wcheck(st, reg, d)
        do, so = st.canon(d.o), (st.canon(s.o) if a else None)
        news = None
        if a:
            if self.segs(st, s.r) is None:
                data = self.gdata(st.regs[s.r].g)
                if data is not None and is_const(so) and is_const(n):
                    news = [(st.canon(do + k + 1), ("K", data[so.c + k])) for k in range(n.c)] if n.c <= 64 else None
                parts = None
            else:
                parts = self.read_segs(st, s.r, so, n)
            if parts is not None:
                sh = do - so
                news = []
                for x, e, c in parts:
                    if c[0] == "S":
                        c = ("S", frozenset((nm, st.canon(dl - sh)) for nm, dl in c[1]), c[2])
                    elif c[0] == "V" and not (is_const(st.canon(e - x)) and st.canon(e - x).c == c[2]):
                        c = T
                    news.append((st.canon(e + sh), c))
        if news is None:
            news = [(st.canon(do + n), T)]
        self.write(st, d.r, do, n, news)

    def memset(self, st, d, v, n):
        n = st.uns(n, 64)
        if not self.check(st, d, n, "write (memset)"):
            return
        if st.has_eq(n):
            return
        self.wcheck(st, st.regs[d.r], d)
        do = st.canon(d.o)
        v = st.lin(v)
        c = ("K", v.c & 255) if not v.t else T
        self.write(st, d.r, do, n, [(st.canon(do + n), c)])

    def havoc(self, st, p, n, tag=""):
        self.write(st, p.r, st.canon(p.o), L(n), [(st.canon(p.o + n), ("T", tag))])

    def alloc(self, st, name, size, kind, flags=0, content=None):
        if kind in ("ml", "c"):
            # the same name on every path through the same allocation site
            ids = self.sites.setdefault((name, tuple(n for n, _e in self.stack), self.where()), [])
            k = next((k for k in ids if "%s#%d" % (name, k) not in st.regs), None)
            if k is None:
                k = next(_uid)
                ids.append(k)
        else:
            k = next(_uid)
        rid = "%s#%d" % (name, k)
        st.regs[rid] = Reg(rid, L(size), kind, flags)
        st.mem[rid] = ((L(size), content or T_UNINIT),)
        return rid

    def gc(self, st):
        """the collector may move every object: only registered roots are updated"""
        st.gcn += 1
        for rid, off, n in st.roots:
            if rid not in st.mem:
                continue
            for k in range(n):
                segs = self.segs(st, rid)
                start = 0
                for e, c in segs:
                    if is_const(e) and start == off + 8 * k and c[0] == "V" and isinstance(c[1], Ptr):
                        q = c[1]
                        if q.r in st.regs and st.regs[q.r].kind == "ml" and q.ep == st.gcn - 1:
                            self.write(st, rid, Lin(off + 8 * k), L(8),
                                       [(Lin(off + 8 * k + 8), ("V", Ptr(q.r, q.o, q.lo, q.hi, st.gcn), 8))])
                        break
                    start = e.c if is_const(e) else None

    # ------------------------------------------------------------ conditions
    def assume(self, st, c, sense):
        """list of states in which c == sense"""
        if c.op in ("true", "false"):
            return [st] if (c.op == "true") == sense else []
        if c.op == "unk":
            return [st.clone()]
        if c.op == "not":
            return self.assume(st, c.a, not sense)
        if c.op == "ge":
            s = st.clone()
            try:
                s.ge(c.e if sense else -c.e - 1)
            except Dead:
                return []
            if s.poly.is_bot():
                return []
            return [s]
        if c.op == "eq":
            e = st.canon(c.e)
            if not e.t:
                return [st] if (e.c == 0) == sense else []
            if sense:
                s = st.clone()
                try:
                    s.eq(e)
                except Dead:
                    return []
                return [] if s.poly.is_bot() else [s]
            out = []
            for x in (e - 1, -e - 1):
                s = st.clone()
                try:
                    s.ge(x)
                except Dead:
                    continue
                if not s.poly.is_bot():
                    out.append(s)
            return out
        if c.op == "and":
            if sense:
                return [t for s in self.assume(st, c.a, True) for t in self.assume(s, c.b, True)]
            return self.assume(st, c.a, False) + [t for s in self.assume(st, c.a, True) for t in self.assume(s, c.b, False)]
        if c.op == "or":
            if not sense:
                return [t for s in self.assume(st, c.a, False) for t in self.assume(s, c.b, False)]
            return self.assume(st, c.a, True) + [t for s in self.assume(st, c.a, False) for t in self.assume(s, c.b, True)]
        raise Stuck("condition %r" % c)

    def cond_alts(self, st, c):
        """case split: list of constraint lists for true and for false (atoms only)"""
        if c.op == "ge":
            return [[c.e]], [[-c.e - 1]]
        if c.op == "eq":
            return [[c.e, -c.e]], [[c.e - 1], [-c.e - 1]]
        if c.op == "not":
            a, b = self.cond_alts(st, c.a)
            return b, a
        if c.op in ("and", "or"):
            at, af = self.cond_alts(st, c.a)
            bt, bf = self.cond_alts(st, c.b)
            if c.op == "and":
                return [x + y for x in at for y in bt], af + [x + y for x in at for y in bf]
            return at + [x + y for x in af for y in bt], [x + y for x in af for y in bf]
        raise Stuck("condition %r" % c)

    def decide(self, st, c):
        """True/False if known, else raises Split (None for an unknowable condition)"""
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if self.has_unk(c):
            return None
        if not self.assume(st, c, True):
            return False
        if not self.assume(st, c, False):
            return True
        t, f = self.cond_alts(st, c)
        raise Split(t + f)

    def has_unk(self, c):
        return c.op == "unk" or (c.a is not None and self.has_unk(c.a)) or (c.b is not None and self.has_unk(c.b))

    def cond_int(self, st, c):
        d = self.decide(st, c)
        if d is None:
            return top(8, 0, 1)
        return Lin(1 if d else 0)

    def as_cond(self, st, v):
        if isinstance(v, Cond):
            return v
        if isinstance(v, (Lin, Term)):
            return Cond("not", a=Cond("eq", st.lin(v)))
        return UNK

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, a, b, ty):
        if ty.k == "vec":
            return term("vec", (next(_uid),), ty.size() * 8)
        if ty.k != "i":
            return top(64)
        w = ty.n
        if w == 1:
            a, b = self.as_cond(st, a), self.as_cond(st, b)
            if op == "and":
                return Cond("and", a=a, b=b)
            if op == "or":
                return Cond("or", a=a, b=b)
            if op == "xor":
                if b.op == "true":
                    return cnot(a)
                if a.op == "true":
                    return cnot(b)
                return Cond("or", a=Cond("and", a=a, b=cnot(b)), b=Cond("and", a=cnot(a), b=b))
            return UNK
        if isinstance(a, Cond):
            a = self.cond_int(st, a)
        if isinstance(b, Cond):
            b = self.cond_int(st, b)
        # pointers in integer clothing
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrop(st, op, a, b, w)
        if isinstance(a, AnyPtr) or isinstance(b, AnyPtr):
            return top(w)
        if isinstance(a, Term) and a.op == "random" and op in ("lshr", "xor", "add"):
            if op == "lshr":
                hi = st.bounds(st.uns(b, w))[1] if isinstance(b, (Lin, Term)) else None
                if hi is None or hi >= a.args[1] - 7:
                    hi = st.poly.max_value(st.uns(b, w)) if isinstance(b, (Lin, Term)) else None
                if hi is not None and hi < a.args[1]:
                    return rand(w, a.args[1] - int(hi))
            elif isinstance(b, Lin) or isinstance(b, Term) and b.op != "random":
                return rand(w, a.args[1])
            return top(w)
        ka = isinstance(a, Lin) and not a.t
        kb = isinstance(b, Lin) and not b.t
        if ka and kb:
            return Lin(const_op(op, a.c, b.c, w))
        if self.data and (isinstance(a, Term) or isinstance(b, Term)):
            return self.dbin(st, op, a, b, w)
        if op in ("add", "sub"):
            if isinstance(a, Term) or isinstance(b, Term):
                big = (isinstance(a, Term) and a.hi >= 1 << 24 and (kb or isinstance(b, Term))) or \
                      (isinstance(b, Term) and b.hi >= 1 << 24 and (ka or isinstance(a, Term)))
                if big and not (kb and a.hi < (1 << (w - 1))):
                    return self.tt(op, a, b, w)
            x, y = st.lin(a), st.lin(b)
            r = x + y if op == "add" else x - y
            return self.narrow(st, r, w) if w < 32 else r
        if op == "mul":
            if kb:
                k = signed(b.c, w)
                if isinstance(a, Lin) or a.hi * abs(k) < 1 << w:
                    return st.lin(a).scale(k)
            elif ka:
                k = signed(a.c, w)
                if isinstance(b, Lin) or b.hi * abs(k) < 1 << w:
                    return st.lin(b).scale(k)
            return self.tt(op, a, b, w)
        if op == "shl":
            if kb and 0 <= b.c < w:
                if isinstance(a, Lin):
                    return a.scale(1 << b.c)
                if a.op in ("elt", "zx", "cat"):
                    return st.lin(a).scale(1 << b.c)
                return term("shl", (a, b.c), w, a.lo << b.c, (a.hi << b.c) if (a.hi << b.c) < 1 << w else None)
            return self.tt(op, a, b, w)
        if op == "lshr":
            if kb and 0 <= b.c < w:
                if b.c == 0:
                    return a
                if isinstance(a, Lin):
                    return st.div2(st.uns(a, w), b.c)[0]
                return term("lshr", (a, b.c), w, a.lo >> b.c, a.hi >> b.c)
            return self.tt(op, a, b, w)
        if op == "ashr":
            if kb and 0 <= b.c < w:
                if b.c == 0:
                    return a
                if isinstance(a, Term) and a.hi >= 1 << (w - 1):
                    return self.tt(op, a, b, w)
                return st.div2(st.sig(a, w), b.c)[0]
            return self.tt(op, a, b, w)
        if op == "and":
            if ka:
                a, b, ka, kb = b, a, kb, ka
            if kb:
                m = b.c % (1 << w)
                if m == 0:
                    return ZERO
                if isinstance(a, Term):
                    if a.hi <= m and (m & (m + 1)) == 0:
                        return a
                    return term("and", (a, m), w, 0, min(m, a.hi))
                lowz = (m & -m).bit_length() - 1
                top_ = m.bit_length()
                if m == (1 << top_) - (1 << lowz):
                    u = st.uns(a, w)
                    lo, hi = st.bounds(u)
                    if lowz == 0 and hi is not None and hi <= m:
                        return u
                    q, r = st.div2(u, lowz) if lowz else (u, ZERO)
                    if top_ < w:
                        _q, r2 = st.div2(q, top_ - lowz)
                    else:
                        r2 = q
                    return r2.scale(1 << lowz)
                return top(w, 0, m)
            ha = a.hi if isinstance(a, Term) else None
            hb = b.hi if isinstance(b, Term) else None
            if isinstance(a, Lin):
                lo, hi = st.bounds(a)
                ha = hi if lo is not None and lo >= 0 else None
            if isinstance(b, Lin):
                lo, hi = st.bounds(b)
                hb = hi if lo is not None and lo >= 0 else None
            hs = [x for x in (ha, hb) if x is not None]
            return self.tt(op, a, b, w, min(hs) if hs else None)
        if op in ("or", "xor"):
            if ka:
                a, b, ka, kb = b, a, kb, ka
            if kb and b.c % (1 << w) == 0:
                return a
            if op == "xor" and kb and (b.c + 1) % (1 << w) == 0 and isinstance(a, Lin):
                return -a - 1
            if a is b and op == "xor":
                return ZERO
            n = w // 8
            if w % 8 == 0 and op == "xor":
                x = self.bytes_xor(st, a, b, n)
                if x is not None:
                    return x
            if isinstance(a, Lin) or isinstance(b, Lin):
                if not (isinstance(a, Term) and a.hi >= 1 << (w - 1)) and not (isinstance(b, Term) and b.hi >= 1 << (w - 1)):
                    r = self.disjoint(st, a, b, w)
                    if r is not None:
                        return r
            ha, hb = self.umax(st, a, w), self.umax(st, b, w)
            h = (1 << max(ha, hb).bit_length()) - 1
            return self.tt(op, a, b, w, h)
        if op in ("udiv", "urem"):
            if kb and b.c > 0:
                c = b.c
                if isinstance(a, Term) and a.hi >= 1 << 40:
                    return top(w, 0, a.hi // c if op == "udiv" else c - 1)
                u = st.uns(a, w)
                if c & (c - 1) == 0:
                    q, r = st.div2(u, c.bit_length() - 1)
                    return q if op == "udiv" else r
                key = (u, c)
                t = DIVC.get(key)
                if t is None:
                    t = DIVC[key] = (fresh("q"), fresh("r"))
                q, r = Lin.var(t[0]), Lin.var(t[1])
                if st.canon(u - q.scale(c) - r) != ZERO:
                    st.eq(u - q.scale(c) - r)
                    st.ge(r)
                    st.ge(L(c - 1) - r)
                    st.ge(q)
                return q if op == "udiv" else r
            if isinstance(b, (Lin, Term)):
                y = st.uns(b, w)
                if not st.has_ge(y - 1):
                    self.ob("div0", False, op, "divisor may be zero")
                x = st.uns(a, w)
                if op == "urem":
                    key = (x, y, "rem")
                    t = DIVC.get(key)
                    if t is None:
                        t = DIVC[key] = fresh("r")
                    r = Lin.var(t)
                    st.ge(r)
                    if st.has_ge(y - 1):
                        st.ge(y - r - 1)
                    st.ge(x - r)
                    return r
            return top(w)
        if op in ("sdiv", "srem"):
            if kb and signed(b.c, w) > 0:
                x = st.sig(a, w) if not (isinstance(a, Term) and a.hi >= 1 << 40) else None
                if x is not None and st.has_ge(x):
                    return self.binop(st, "udiv" if op == "sdiv" else "urem", x, b, ty)
                if x is not None:
                    c = signed(b.c, w)
                    key = (x, c, "s")
                    t = DIVC.get(key)
                    if t is None:
                        t = DIVC[key] = (fresh("q"), fresh("r"))
                    q, r = Lin.var(t[0]), Lin.var(t[1])
                    if st.canon(x - q.scale(c) - r) != ZERO:
                        st.eq(x - q.scale(c) - r)
                        st.ge(r + (c - 1))
                        st.ge(L(c - 1) - r)
                    return q if op == "sdiv" else r
            return top(w)
        return top(w)

    def narrow(self, st, r, w):
        """keep byte-sized quantities in range"""
        lo, hi = st.bounds(r)
        if lo is None or hi is None or lo < -(1 << (w - 1)) or hi >= 1 << w:
            if lo is None or hi is None:
                lo, hi = st.xbounds(r)
            if lo is not None and hi is not None and (lo >> w == hi >> w or w <= 16 and len(r.t) <= 1):
                return st.uns(r, w)
        return r

    def dbin(self, st, op, a, b, w):
        """operation on data whose relations do not matter: ranges only"""
        (al, ah), (bl, bh) = self.drange(st, a, w), self.drange(st, b, w)
        m = (1 << w) - 1
        lo, hi = 0, m
        kb = bl == bh
        if op == "add":
            lo, hi = al + bl, ah + bh
        elif op == "sub":
            lo, hi = al - bh, ah - bl
        elif op == "mul":
            lo, hi = al * bl, ah * bh
        elif op == "shl" and kb and bl < w:
            lo, hi = al << bl, ah << bl
        elif op == "lshr":
            lo, hi = (al >> bl, ah >> bl) if kb else (0, ah)
        elif op == "ashr":
            if ah <= m >> 1:
                lo, hi = (al >> bl, ah >> bl) if kb else (0, ah)
        elif op == "and":
            lo, hi = 0, min(ah, bh)
        elif op in ("or", "xor"):
            lo, hi = 0, (1 << max(ah, bh).bit_length()) - 1
        elif op == "udiv" and kb and bl:
            lo, hi = al // bl, ah // bl
        elif op == "urem" and kb and bl:
            lo, hi = 0, bl - 1
        elif op in ("sdiv", "srem") and kb and bl and bl <= m >> 1 and ah <= m >> 1:
            lo, hi = (al // bl, ah // bl) if op == "sdiv" else (0, min(ah, bl - 1))
        elif op in ("udiv", "urem", "sdiv", "srem") and bl == 0:
            self.ob("div0", False, op, "divisor may be zero")
        if lo < 0 or hi > m:
            lo, hi = 0, m
        return top(w, lo, hi)

    def drange(self, st, a, w):
        if isinstance(a, Term):
            return a.lo, a.hi
        if isinstance(a, Lin):
            if not a.t:
                return a.c % (1 << w), a.c % (1 << w)
            lo, hi = st.bounds(a)
            if lo is not None and hi is not None and lo >= 0 and hi < 1 << w:
                return lo, hi
        return 0, (1 << w) - 1

    def umax(self, st, a, w):
        if isinstance(a, Term):
            return a.hi
        lo, hi = st.bounds(a)
        if lo is not None and lo >= 0 and hi is not None:
            return min(hi, (1 << w) - 1)
        return (1 << w) - 1

    def tt(self, op, a, b, w, hi=None):
        ka = a if isinstance(a, (Term, Lin)) else None
        kb = b if isinstance(b, (Term, Lin)) else None
        if ka is None or kb is None:
            return top(w, 0, hi)
        return term(op, (a, b), w, 0, hi)

    def bytes_xor(self, st, a, b, n):
        x = self.bytes_of(st, a, n)
        if x is None:
            return None
        y = self.bytes_of(st, b, n)
        if y is None:
            return None
        out = []
        for p, q in zip(x, y):
            if isinstance(p, Lin) and p == ZERO:
                out.append(q)
                continue
            if isinstance(q, Lin) and q == ZERO:
                out.append(p)
                continue
            u, v = self.as_xor(st, p), self.as_xor(st, q)
            if u is None or v is None:
                return None
            out.append(self.mkxor(st, u[0] ^ v[0], u[1] ^ v[1]))
        if n == 1:
            return out[0]
        t = ZERO
        for k, o in enumerate(out):
            t = t + st.lin(o).scale(1 << (8 * k))
        return t

    def disjoint(self, st, a, b, w):
        """a + b when the set bits cannot overlap"""
        x, y = st.uns(a, w), st.uns(b, w)
        for p, q in ((x, y), (y, x)):
            g = 0
            for _v, k in p.t:
                g = gcd(g, k)
            g = gcd(g, p.c)
            if g:
                low = g & -g
                lo, hi = st.bounds(q)
                if lo is not None and hi is not None and lo >= 0 and hi < low:
                    return p + q
        return None

    def ptrop(self, st, op, a, b, w):
        if op == "add" and isinstance(a, Ptr) and isinstance(b, (Lin, Term)):
            return a.at(a.o + st.sig(b, 64))
        if op == "add" and isinstance(b, Ptr) and isinstance(a, (Lin, Term)):
            return b.at(b.o + st.sig(a, 64))
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, (Lin, Term)):
            return a.at(a.o - st.sig(b, 64))
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            return a.o - b.o
        if op == "and" and isinstance(b, Lin) and not b.t:
            m = b.c % (1 << w)
            if m == 1 and isinstance(a, Ptr) and st.regs[a.r].kind == "ml" and a.o == ZERO:
                return ZERO          # heap values are even
            if isinstance(a, Ptr) and m >= (1 << w) - 4096 and (1 << w) - m & ((1 << w) - m - 1) == 0:
                r = st.new("al", 0, (1 << w) - m - 1)
                return a.at(a.o - r)          # rounded down to a multiple of 2^w - m
            if m < 4096:
                return term("and", (("addr", a.r, st.canon(a.o)), m), w, 0, m)
        return top(w)

    def icmp(self, st, pred, a, b, ty):
        if ty.k == "vec":
            return UNK
        w = ty.n if ty.k == "i" else 64
        if ty.k == "i" and w == 1:
            a, b = self.as_cond(st, a), self.as_cond(st, b)
            same = Cond("or", a=Cond("and", a=a, b=b), b=Cond("and", a=cnot(a), b=cnot(b)))
            if b.op == "true":
                same = a
            elif b.op == "false":
                same = cnot(a)
            return same if pred == "eq" else cnot(same) if pred == "ne" else UNK
        if isinstance(a, Cond):
            a = self.cond_int(st, a)
        if isinstance(b, Cond):
            b = self.cond_int(st, b)
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa or pb:
            if pa and pb:
                if a.r == b.r:
                    return self.cmp_lin(pred, a.o, b.o)
                if pred in ("eq", "ne"):
                    return FALSE if pred == "eq" else TRUE
                return UNK
            o = b if pa else a
            if (a if pa else b).r == "named":
                return UNK
            if isinstance(o, Lin) and not o.t and o.c == 0 and pred in ("eq", "ne"):
                return FALSE if pred == "eq" else TRUE
            if isinstance(o, Lin) and not o.t and o.c % 2 == 1 and pred in ("eq", "ne"):
                p = a if pa else b
                if st.regs[p.r].kind == "ml" and p.o == ZERO:
                    return FALSE if pred == "eq" else TRUE      # a pointer is no immediate
            return UNK
        if isinstance(a, (AnyPtr, FnPtr)) or isinstance(b, (AnyPtr, FnPtr)):
            return UNK
        if self.data and (isinstance(a, Term) or isinstance(b, Term)):
            (al, ah), (bl, bh) = self.drange(st, a, w), self.drange(st, b, w)
            if ah < bl or bh < al:
                if pred in ("eq", "ne"):
                    return FALSE if pred == "eq" else TRUE
                if max(ah, bh) < 1 << (w - 1) or pred[0] == "u":
                    return TRUE if (pred[1:] in ("lt", "le")) == (ah < bl) else FALSE
            return UNK
        if pred in ("eq", "ne") and isinstance(a, (Lin, Term)) and isinstance(b, (Lin, Term)):
            if isinstance(a, Lin) and isinstance(b, Lin):
                d = st.canon(a - b)
                if not d.t and d.c == 0:
                    return TRUE if pred == "eq" else FALSE
        if pred[0] == "s":
            x, y = st.sig(a, w), st.sig(b, w)
        else:
            x, y = st.uns(a, w), st.uns(b, w)
        return self.cmp_lin(pred, x, y)

    def cmp_lin(self, pred, x, y):
        d = x - y
        if pred == "eq":
            c = Cond("eq", d)
        elif pred == "ne":
            c = cnot(Cond("eq", d))
        elif pred in ("ult", "slt"):
            c = Cond("ge", -d - 1)
        elif pred in ("ule", "sle"):
            c = Cond("ge", -d)
        elif pred in ("ugt", "sgt"):
            c = Cond("ge", d - 1)
        else:
            c = Cond("ge", d)
        if not d.t:
            if c.op == "eq":
                return TRUE if d.c == 0 else FALSE
            if c.op == "not":
                return FALSE if d.c == 0 else TRUE
            return TRUE if c.e.c >= 0 else FALSE
        return c

    def cast(self, st, op, v, st_ty, ty):
        if op == "bitcast":
            return v
        if op == "ptrtoint":
            if ty.n < 64 and isinstance(v, Ptr):
                return top(ty.n)
            return v
        if op == "inttoptr":
            if isinstance(v, Term):
                return AnyPtr()
            return v
        if ty.k == "vec" or st_ty.k == "vec":
            return term("vec", (next(_uid),), ty.size() * 8)
        if ty.k != "i" or st_ty.k != "i":
            return top(ty.size() * 8 if ty.k != "i" else ty.n)
        a, b = st_ty.n, ty.n
        if isinstance(v, Cond):
            if op == "trunc":
                return v
            d = self.decide(st, v)
            if d is None:
                return top(b, 0, 1)
            return Lin((1 if op == "zext" else -1) if d else 0)
        if isinstance(v, (Ptr, AnyPtr)):
            return top(b)
        if isinstance(v, Term) and v.op == "random" and b > 1:
            return rand(b, min(v.args[1], a)) if op != "sext" else top(b)
        if self.data and isinstance(v, Term):
            if op == "trunc":
                return UNK if b == 1 else top(b, v.lo, v.hi) if v.hi < 1 << b else top(b)
            if op == "zext":
                return top(b, v.lo, v.hi)
            if op == "sext":
                return top(b, v.lo, v.hi) if v.hi < 1 << (a - 1) else top(b)
        if op == "trunc":
            if b == 1:
                if isinstance(v, Lin):
                    q, r = st.div2(v, 1)
                    return cnot(Cond("eq", r))
                return cnot(Cond("eq", st.lin(term("and", (v, 1), a, 0, 1))))
            if isinstance(v, Lin):
                return self.narrow(st, v, b) if b < 32 else v
            if v.hi < 1 << b:
                return self.resize(v, b)
            return term("field", (v, 0, b), b)
        if op == "zext":
            if isinstance(v, Term):
                return self.resize(v, b)
            return st.uns(v, a)
        if op == "sext":
            if isinstance(v, Term):
                if v.hi < 1 << (a - 1):
                    return self.resize(v, b)
                return st.sig(v, a)
            return st.sig(v, a)
        return top(b)

    def resize(self, v, b):
        if v.w == b:
            return v
        if v.op in ("elt", "xor") and v.w == 8:
            return term("zx", (v,), b, v.lo, v.hi)
        if v.op == "zx" and b == 8:
            return v.args[0]
        if v.op == "zx":
            return term("zx", v.args, b, v.lo, v.hi)
        return term("rs", (v,), b, v.lo, v.hi)

    # ------------------------------------------------------------ control
    def call(self, name, args, st):
        """abstract call: list of (state, result)"""
        if name in self.hooks:
            r = self.hooks[name](self, st, args)
            if r is not None:
                return r
        f = self.m.funcs.get(name)
        if f is None:
            return self.extern(name, args, st)
        if not self.data and self.summarise and (self.opaque is None or self.opaque(name)):
            fp = self.footprint(name, args, st)
            if fp is not None:
                r = self.apply(name, fp, args, st)
                if r is not None:
                    return r
        if len(self.stack) > 60:
            raise Stuck("recursion too deep in %s" % name)
        if sum(1 for n, _e in self.stack if n == name) > 0:
            return self.recursive(name, args, st)
        self.stats["calls"] += 1
        self.stats["functions"].add(name)
        env = {}
        if len(args) < len(f.params):
            raise Stuck("too few arguments to %s" % name)
        for (ty, nm), a in zip(f.params, args):
            env[nm] = a
        mark = st.roots
        self.stack.append((name, {}))
        try:
            cf = ir.cfg(f)
            rets = []
            self.region(f, cf, set(cf.rpo), f.order[0], [(None, st, env)], None, {}, rets)
        finally:
            self.stack.pop()
        out = []
        for s, v in rets:
            if s.roots != mark:
                self.ob("roots", False, "function " + name[1:], "returns with local roots still registered")
                s.roots = mark
            # locals die
            for rid in [r for r, d in s.regs.items() if d.kind == "stack:" + name]:
                del s.regs[rid]
                s.mem.pop(rid, None)
            if self.on_return is not None:
                self.on_return(self, s, name, args, v)
            out.append((s, v))
        if len(out) > self.CAP:
            out = self.merge_returns(out)
        return out

    # ------------------------------------------------------------ kernels
    def weight(self, name):
        """(static size including callees, leaf): leaf = calls nothing but memcpy and the like"""
        if name not in self.weights:
            self.weights[name] = (0, False)
            f = self.m.funcs[name]
            n, leaf = 0, True
            for b in f.order:
                for i in f.blocks[b]:
                    n += 1
                    if i.op == "call":
                        if i.x[0] != "g":
                            leaf = False
                            continue
                        c = i.x[1]
                        if c.startswith("@llvm.") or c[1:] in ("memcpy", "memset", "memmove"):
                            continue
                        if c not in self.m.funcs:
                            leaf = False
                            continue
                        k, lf = self.weight(c)
                        n += k
                        leaf = leaf and lf
            self.weights[name] = (n, leaf)
        return self.weights[name]

    def footprint(self, name, cargs=None, cst=None):
        """what a kernel reads and writes through its arguments, when that is the same for every call"""
        consts = ()
        if cargs is not None and len(cargs) == len(self.m.funcs[name].params):
            consts = tuple((i, c.c) for i, a in enumerate(cargs) if isinstance(a, Lin) and self.m.funcs[name].params[i][0].k == "i"
                           for c in (cst.canon(a),) if not c.t)
        key = (name, consts)
        if key in self.fps:
            return self.fps[key]
        self.fps[key] = None
        n, leaf = self.weight(name)
        f = self.m.funcs[name]
        if not leaf or n < 100 or f.ret.k not in ("void", "i") or any(t.k not in ("ptr", "i") for t, _n in f.params):
            return None
        st = State()
        args = []
        for i, (ty, nm) in enumerate(f.params):
            if ty.k == "ptr":
                st.regs["arg%d" % i] = Reg("argument %d of %s" % (i, name[1:]), Lin(1 << 40), "arg", 0, i)
                st.mem["arg%d" % i] = ((Lin(1 << 40), T),)
                args.append(Ptr("arg%d" % i))
            else:
                args.append(Lin(dict(consts)[i]) if i in dict(consts) else top(ty.n))
        obs = {k: list(v) for k, v in self.obs.items()}
        save = (self.stack, self.ins, self.record, self.nofix, self.steps)
        fp = Footprint(name, len(args))
        self.stack, self.fp, self.nofix, self.record, self.data = [], fp, True, True, True
        try:
            out = self.call(name, args, st)
        except (Stuck, Dead, Split):
            out = None
        finally:
            self.fp, self.data = None, False
            self.stack, self.ins, self.record, self.nofix = save[:4]
        if not out or not fp.ok:
            self.obs = obs
            return None
        end = None
        hulls = set()
        for s, _v in out:
            e = s.ghost.get("fp", fp.empty)
            hulls.add(tuple((x | y).bit_length() for x, y in zip(e[0], e[1])))
            end = e if end is None else Footprint.union(end, e)
        if len(hulls) > 1 and not self.partial:
            self.obs = obs
            return None
        fp.r, fp.w = end[0], end[1]
        fp.inline = end[1] != end[2] or len(hulls) > 1 or self.partial
        fp.partial = len(hulls) > 1
        fp.close()
        fp.consts = None
        for s, _v in out:
            cs = set()
            for i in range(len(args)):
                start = ZERO
                for e, c in s.mem.get("arg%d" % i) or ():
                    if is_const(e) and is_const(start) and (c[0] == "K" or c[0] == "V" and isinstance(c[1], Lin) and not c[1].t):
                        cs.add((i, start.c, e.c, c))
                    start = e
            fp.consts = cs if fp.consts is None else fp.consts & cs
        rets = {v for _s, v in out if isinstance(v, Lin) and not v.t}
        fp.ret = next(iter(rets)) if len(rets) == 1 and all(isinstance(v, Lin) and not v.t for _s, v in out) else None
        self.fps[key] = fp
        return fp

    def apply(self, name, fp, args, st):
        if any(r and not isinstance(args[i], Ptr) for i, r in enumerate(fp.reads)) or \
                any(r and not isinstance(args[i], Ptr) for i, r in enumerate(fp.writes)):
            return None
        self.stats["functions"].add(name)
        self.stats["calls"] += 1
        for i, rs in enumerate(fp.reads if not fp.partial else ()):
            for lo, hi in rs:
                self.check(st, args[i].at(st.canon(args[i].o + lo)), L(hi - lo), "read by " + name[1:])
        for i, rs in enumerate(fp.writes if not fp.partial else ()):
            for lo, hi in rs:
                q = args[i].at(st.canon(args[i].o + lo))
                self.check(st, q, L(hi - lo), "write by " + name[1:])
                if q.r in st.regs:
                    self.wcheck(st, st.regs[q.r], q)
        if self.on_kernel is not None:
            self.on_kernel(self, st, name, fp, args)
        if fp.inline:
            self.data = True
            try:
                return self.call(name, args, st)
            finally:
                self.data = False
        for i, rs in enumerate(fp.writes):
            for lo, hi in rs:
                q = args[i].at(st.canon(args[i].o + lo))
                if q.r in st.regs:
                    self.write(st, q.r, q.o, L(hi - lo), [(st.canon(q.o + (hi - lo)), ("T", name[1:]))])
        for i, lo, hi, c in sorted(fp.consts, key=lambda x: x[:3]):
            q = args[i].at(st.canon(args[i].o + lo))
            if q.r in st.regs:
                self.write(st, q.r, q.o, L(hi - lo), [(st.canon(q.o + (hi - lo)), c)])
        f = self.m.funcs[name]
        return [(st, fp.ret if fp.ret is not None else top(f.ret.n) if f.ret.k == "i" else None)]

    def recursive(self, name, args, st):
        raise Stuck("recursive call of %s" % name)

    def merge_returns(self, out):
        acc = None
        for s, v in out:
            e = {"ret": v} if v is not None else {}
            acc = (s, e) if acc is None else self.join2(acc, (s, e))
        return [(acc[0], acc[1].get("ret"))]

    def region(self, f, cf, blocks, entry, incoming, head, exits, rets, first=False):
        """run the acyclic part of `blocks` from entry; edges leaving it go to exits[target];
        edges to head (if head given) are collected in exits[head]"""
        pend = {entry: list(incoming)}
        start_is_head = first
        for b in cf.rpo:
            if b not in blocks:
                continue
            inc = pend.pop(b, None)
            if not inc:
                continue
            outs = {}
            if b in cf.loops and not (b == head):
                self.loop(f, cf, b, inc, outs, rets)
            else:
                if b == head and start_is_head:
                    sts = [(s, e) for _p, s, e in inc]
                else:
                    sts = [self.phis(f, cf, b, p, s, e) for p, s, e in inc]
                    sts = [x for x in sts if x is not None]
                    if len(sts) > self.CAP:
                        self.stats["merges"] += 1
                        nm = cf.live[b] | {x.res for x in cf.phis[b]}
                        sts = [self.join_list(g, nm) for g in self.parts(sts, nm)]
                for s, e in sts:
                    self.block(f, b, s, e, outs, rets)
            for t, lst in outs.items():
                if t == head or t not in blocks:
                    exits.setdefault(t, []).extend(lst)
                else:
                    pend.setdefault(t, []).extend(lst)

    def phis(self, f, cf, b, pred, st, env):
        ph = cf.phis[b]
        if not ph:
            return st, env
        new = {}
        for s in ph:
            for v, p in s.x:
                if p == pred or (pred == "%entry%" and p not in f.blocks):
                    new[s.res] = self.val(st, env, v, s.ty)
                    break
            else:
                raise Stuck("phi")
        env = dict(env)
        env.update(new)
        return st, env

    def block(self, f, b, st, env, outs, rets):
        ins = f.blocks[b]
        work = [(st, env, 0)]
        while work:
            st, env, i = work.pop()
            try:
                n = len(ins)
                while i < n:
                    s = ins[i]
                    if s.op == "phi":
                        i += 1
                        continue
                    self.steps += 1
                    if self.deadline and not self.steps & 63 and time.time() > self.deadline:
                        raise Stuck('time limit')
                    if self.steps > self.budget:
                        raise Stuck("analysis budget exhausted")
                    self.ins = s
                    if self.trace:
                        self.trace(st, env, s)
                    try:
                        r = self.step(f, b, st, env, s, outs, rets)
                    except Split as sp:
                        self.stats["splits"] += 1
                        if len(st.tmpl) < 60:
                            sv = {v for alt in sp.alts for e in alt for v in st.canon(e).vars()}
                            st.tmpl = st.tmpl | {c for c in st.poly.ge if 1 < len(c.t) <= 4 and any(v in sv for v in c.vars())}
                        for alt in sp.alts:
                            q = st.clone()
                            try:
                                for e in alt:
                                    q.ge(e)
                            except Dead:
                                continue
                            if q.poly.is_bot():
                                continue
                            work.append((q, dict(env), i))
                        break
                    if r is None:
                        i += 1
                        continue
                    if r == "end":
                        break
                    # several successor states: list of (state, value)
                    if len(r) == 1:
                        st = r[0][0]
                        if s.res:
                            env[s.res] = r[0][1] if r[0][1] is not None else top(64)
                        i += 1
                        continue
                    for q, v in r:
                        e2 = dict(env)
                        if s.res:
                            e2[s.res] = v if v is not None else top(64)
                        work.append((q, e2, i + 1))
                    break
            except Dead:
                continue

    def step(self, f, b, st, env, s, outs, rets):
        op = s.op
        V = self.val
        if op in ir.BIN:
            env[s.res] = self.binop(st, op, V(st, env, s.a[0], s.ty), V(st, env, s.a[1], s.ty), s.ty)
        elif op == "load":
            env[s.res] = self.load(st, V(st, env, s.a[0], ir.PTR), s.ty)
        elif op == "store":
            self.store(st, V(st, env, s.a[1], ir.PTR), V(st, env, s.a[0], s.ty), s.ty)
        elif op == "getelementptr":
            env[s.res] = self.gep(st, s.x, V(st, env, s.a[0][1], ir.PTR), [(t, V(st, env, v, t)) for t, v in s.a[1:]])
        elif op in ir.CAST:
            env[s.res] = self.cast(st, op, V(st, env, s.a[0], s.x), s.x, s.ty)
        elif op == "icmp":
            env[s.res] = self.icmp(st, s.x, V(st, env, s.a[0], s.ty), V(st, env, s.a[1], s.ty), s.ty)
        elif op == "select":
            if s.x.k == "vec":
                env[s.res] = term("vec", (next(_uid),), s.ty.size() * 8)
                return None
            c = self.as_cond(st, V(st, env, s.a[0], ir.I[1]))
            x, y = V(st, env, s.a[1], s.ty), V(st, env, s.a[2], s.ty)
            if s.ty.k == "i" and s.ty.n == 1:
                x, y = self.as_cond(st, x), self.as_cond(st, y)
                if y.op == "false":
                    env[s.res] = Cond("and", a=c, b=x)
                elif x.op == "true":
                    env[s.res] = Cond("or", a=c, b=y)
                else:
                    env[s.res] = Cond("or", a=Cond("and", a=c, b=x), b=Cond("and", a=cnot(c), b=y))
                return None
            d = self.decide(st, c)
            if d is None:
                return [(st.clone(), x), (st.clone(), y)]
            env[s.res] = x if d else y
        elif op == "br":
            if not s.a:
                outs.setdefault(s.x[0], []).append((b, st, env))
                return "end"
            c = self.as_cond(st, V(st, env, s.a[0], ir.I[1]))
            t = self.assume(st, c, True)
            e = self.assume(st, c, False)
            n = len(t) + len(e)
            for k, (lst, tgt) in enumerate(((t, s.x[0]), (e, s.x[1]))):
                for q in lst:
                    if n > 1 and q is st:
                        q = st.clone()
                    outs.setdefault(tgt, []).append((b, q, dict(env) if n > 1 else env))
            return "end"
        elif op == "switch":
            x = V(st, env, s.a[0], s.ty)
            if isinstance(x, Cond):
                x = self.cond_int(st, x)
            u = st.uns(x, s.ty.n) if isinstance(x, (Lin, Term)) else None
            if u is None:
                raise Stuck("switch")
            rest = [st]
            for k, tgt in s.x[1]:
                c = self.cmp_lin("eq", u, L(k % (1 << s.ty.n)))
                nxt = []
                for q in rest:
                    for z in self.assume(q, c, True):
                        outs.setdefault(tgt, []).append((b, z.clone(), dict(env)))
                    nxt += [z.clone() for z in self.assume(q, c, False)]
                rest = nxt
            for q in rest:
                outs.setdefault(s.x[0], []).append((b, q, dict(env)))
            return "end"
        elif op == "ret":
            v = V(st, env, s.a[0], s.ty) if s.a else None
            if isinstance(v, Ptr) and v.r in st.regs and st.regs[v.r].kind == "ml" and s.ty.k == "i":
                self.ob("stale", v.ep >= st.gcn, "return value", "a stale heap value is returned")
            rets.append((st, v))
            return "end"
        elif op == "unreachable":
            return "end"
        elif op == "alloca":
            n = 1
            if s.a:
                k = V(st, env, s.a[0], ir.I[64])
                n = st.uns(k, 64)
                size = n.scale(s.x.size())
            else:
                size = L(s.x.size())
            nm = s.res
            rid = self.alloc(st, "%s:%s" % (f.name[1:], nm[1:]), size, "stack:" + f.name)
            env[s.res] = Ptr(rid)
        elif op == "call":
            return self.do_call(st, env, s)
        elif op == "freeze":
            env[s.res] = V(st, env, s.a[0], s.ty)
        elif op == "extractvalue":
            a = V(st, env, s.a[0], ir.PTR)
            for k in s.x:
                a = a.vs[k] if isinstance(a, Agg) else None
            if a is None:
                a = UNK if s.ty.k == "i" and s.ty.n == 1 else top(s.ty.n if s.ty.k == "i" else 64)
            env[s.res] = a
        elif op == "insertvalue":
            a = V(st, env, s.a[0], s.ty)
            env[s.res] = a
        elif op == "extractelement":
            env[s.res] = top(s.ty.size() * 8)
        elif op in ("insertelement", "shufflevector"):
            env[s.res] = term("vec", (next(_uid),), s.ty.size() * 8)
        elif op == "nop":
            pass
        else:
            raise Stuck("instruction %s" % op)
        return None

    def do_call(self, st, env, s):
        if s.x[0] == "asm":
            return self.asm(st, env, s)
        args = [self.val(st, env, v, t) if t.k != "metadata" else None for t, v in s.a]
        if s.x[0] == "g":
            name = s.x[1]
        else:
            fp = self.val(st, env, s.x, ir.PTR)
            if not isinstance(fp, FnPtr):
                raise Stuck("indirect call")
            name = fp.name
        if name.startswith("@llvm."):
            return self.intrinsic(st, env, s, name, args)
        save = self.ins
        # keep the caller's values alive in joins performed by the callee
        caller = self.stack[-1] if self.stack else None
        if self.stack:
            lv = self.live_after(s, env)
            self.stack[-1] = (caller[0], lv)
        # values the callee may need after a Split must be re-executable: work on a copy
        try:
            r = self.call(name, args, st.clone())
        finally:
            if self.stack:
                self.stack[-1] = caller
        self.ins = save
        return r if r else "end"

    def live_after(self, s, env):
        """the values of the frame that the code after this call can still use"""
        k = id(s)
        ls = self.after.get(k)
        if ls is None:
            f = self.m.funcs[s.fn]
            cf = ir.cfg(f)
            for b in cf.rpo:
                blk = f.blocks[b]
                live = set()
                for t in cf.succ[b]:
                    live |= cf.live[t]
                    for ph in cf.phis[t]:
                        for v, p in ph.x:
                            if p == b and v[0] == "r":
                                live.add(v[1])
                for x in reversed(blk):
                    if x.op == "call":
                        self.after[id(x)] = frozenset(live) - {x.res}
                    if x.res:
                        live.discard(x.res)
                    if x.op != "phi":
                        live.update(ir.operands(x))
            ls = self.after[k]
        return {n: v for n, v in env.items() if n in ls}

    def asm(self, st, env, s):
        """rdrand: either the carry is set and the register holds a fresh random number, or neither"""
        txt = " ".join(t for t in s.x[1])
        outs = [self.val(st, env, v, t) for t, v in s.a if t.k == "ptr"]
        if "cpuid" in txt and self.cpu.get("cpuid") is not None:
            v = Lin(self.cpu["cpuid"])
            for o in outs:
                self.store(st, o, v, ir.I[32])
            return [(st, v if s.ty.k not in ("struct", "pstruct") else Agg([v for _t in s.ty.fs]))]
        if "rdrand" in txt or "rdseed" in txt:
            s2 = st.clone()
            only = self.cpu.get("rdrand")
            ts = s.ty.fs if s.ty.k in ("struct", "pstruct") else [s.ty]
            out = []
            for rid, d in s2.regs.items():
                if d.kind.startswith("stack") and s2.mem.get(rid):
                    s2.mem[rid] = tuple((e, T if c == ("T", "random") else c) for e, c in s2.mem[rid])
            for x, good in ((st, True), (s2, False)):
                if only == "fails" and good or only == "ones" and not good:
                    continue
                word = (lambda n: Lin((1 << n) - 1)) if only == "ones" else rand
                vs = []
                for t in ts:
                    if t.k == "i" and t.n >= 16:
                        vs.append(word(t.n) if good else top(t.n))
                    else:
                        vs.append(Lin(1 if good else 0))
                for o in outs:
                    if "setc" in txt or "adc" in txt or "setb" in txt:
                        self.store(x, o, Lin(1 if good else 0), ir.I[8])
                    elif isinstance(o, Ptr):
                        self.store(x, o, word(64) if good else top(64), ir.I[64])
                out.append((x, vs[0] if s.ty.k not in ("struct", "pstruct") else Agg(vs)))
            return out
        for o in outs:
            if isinstance(o, Ptr) and is_const(st.canon(st.regs[o.r].size)) and st.regs[o.r].g is None:
                self.havoc(st, o.at(ZERO), st.canon(st.regs[o.r].size))
        return [(st, top(64) if s.ty.k not in ("struct", "pstruct") else Agg([top(t.n) for t in s.ty.fs]))]

    def intrinsic(self, st, env, s, name, args):
        if name.startswith("@llvm.memcpy") or name.startswith("@llvm.memmove"):
            self.memcpy(st, args[0], args[1], args[2], "memcpy")
            return None
        if name.startswith("@llvm.memset"):
            self.memset(st, args[0], args[1], args[2])
            return None
        if name.startswith(("@llvm.dbg", "@llvm.lifetime", "@llvm.experimental", "@llvm.assume", "@llvm.donothing")):
            return None
        if name.startswith("@llvm.stacksave") or name.startswith("@llvm.frameaddress"):
            env[s.res] = AnyPtr()
            return None
        if name.startswith("@llvm.stackrestore") or name.startswith("@llvm.prefetch"):
            return None
        if name.startswith("@llvm.objectsize"):
            env[s.res] = Lin(-1)
            return None
        if name.startswith("@llvm.expect"):
            env[s.res] = args[0]
            return None
        if name.startswith("@llvm.trap"):
            return "end"
        if ".with.overflow" in name:
            env[s.res] = Agg([top(s.ty.fs[0].n), UNK])
            return None
        if name.startswith(("@llvm.ctlz", "@llvm.cttz", "@llvm.ctpop")):
            env[s.res] = top(s.ty.n, 0, s.ty.n)
            return None
        if name.startswith(("@llvm.umin", "@llvm.umax", "@llvm.smin", "@llvm.smax")):
            w = s.ty.n
            x, y = (st.uns(args[0], w), st.uns(args[1], w)) if name[6] == "u" else (st.sig(args[0], w), st.sig(args[1], w))
            d = self.decide(st, self.cmp_lin("ule", x, y))
            small = x if d else y
            env[s.res] = small if name[7:10] == "min" else (y if d else x)
            return None
        if name.startswith(("@llvm.fshl", "@llvm.fshr")) and all(isinstance(a, Lin) and not a.t for a in args[:3]):
            w = s.ty.n
            m = (1 << w) - 1
            a, b, c = args[0].c & m, args[1].c & m, args[2].c % w
            x = (a << w) | b
            env[s.res] = Lin((x << c >> w) & m if "fshl" in name else (x >> c) & m)
            return None
        if name.startswith("@llvm.bswap") and isinstance(args[0], Lin):
            w = s.ty.n
            q = st.uns(args[0], w)
            t = ZERO
            for k in range(w // 8):
                q, r = st.div2(q, 8)
                t = t + r.scale(1 << (w - 8 - 8 * k))
            env[s.res] = t
            return None
        if name.startswith(("@llvm.fshl", "@llvm.fshr", "@llvm.bswap", "@llvm.bitreverse")):
            if name.startswith("@llvm.bswap") and isinstance(args[0], (Lin, Term)):
                n = s.ty.n // 8
                bs = self.bytes_of(st, args[0], n)
                if bs is not None:
                    t = ZERO
                    for k, x in enumerate(reversed(bs)):
                        t = t + st.lin(x).scale(1 << (8 * k))
                    env[s.res] = t
                    return None
                if isinstance(args[0], Lin):
                    u = st.uns(args[0], s.ty.n)
                    t = ZERO
                    for k in range(n):
                        u, r = st.div2(u, 8)
                        t = t + r.scale(1 << (8 * (n - 1 - k)))
                    env[s.res] = t
                    return None
            env[s.res] = term(name, tuple(a if isinstance(a, (Lin, Term)) else next(_uid) for a in args), s.ty.n)
            return None
        if s.res:
            env[s.res] = term("vec", (next(_uid),), s.ty.size() * 8) if s.ty.k == "vec" else top(s.ty.n if s.ty.k == "i" else 64)
            return None
        raise Stuck("intrinsic %s" % name)

    def extern(self, name, args, st):
        h = self.externs.get(name[1:])
        if h is None:
            raise Stuck("call of unmodelled function %s" % name[1:])
        r = h(self, st, args)
        if r is None:
            return [(st, Lin(0))]
        if isinstance(r, list):
            return r
        return [(st, r)]

    # ------------------------------------------------------------ loops
    def parts(self, sts, names):
        """states grouped by the objects their live pointers designate"""
        if self.apart and len(sts) <= 8:
            return [[x] for x in sts]
        gs = {}
        for s, e in sts:
            k = tuple(sorted((n, v.r if isinstance(v, Ptr) else type(v).__name__) for n, v in e.items()
                             if n in names and isinstance(v, (Ptr, AnyPtr, FnPtr))))
            if self.fine and "C" in s.ghost:
                k += (repr(s.canon(s.ghost["C"])),)
            gs.setdefault(k, []).append((s, e))
        return list(gs.values()) if len(gs) <= 6 else [list(sts)]

    def loop(self, f, cf, h, incoming, outs, rets):
        self.stats["loops"] += 1
        names = cf.live[h] | {x.res for x in cf.phis[h]}
        ent = []
        for p, s, e in incoming:
            s2, e2 = self.phis(f, cf, h, p, s, e)
            ent.append((s2, {k: v for k, v in e2.items() if k in names}))
        for g in self.parts(ent, names):
            self.loop1(f, cf, h, g, names, outs, rets)

    def loop1(self, f, cf, h, ent, names, outs, rets):
        lp = LoopTag(next(_uid))
        cur = self.join_list(ent, names, lp) if len(ent) > 1 else ent[0]
        body = cf.loops[h]
        if self.UNROLL and self.unroll(f, cf, h, body, cur, names, outs, rets):
            return
        if self.nofix or self.sure:
            raise Stuck("loop with a variable trip count in a kernel")
        rec = self.record
        self.record = False
        base = cur
        hist = {}

        def iterate(c):
            ex = {}
            self.region(f, cf, body, h, [(None, c[0].clone(), dict(c[1]))], h, ex, [], first=True)
            bl = []
            for p, s2, e2 in ex.pop(h, []):
                s3, e3 = self.phis(f, cf, h, p, s2, e2)
                bl.append((s3, {k: v for k, v in e3.items() if k in names}))
            return bl
        try:
            for it in range(self.MAXITER):
                self.stats["fixpoint_iterations"] += 1
                lp.it = it
                bl = iterate(cur)
                if not bl:
                    break
                own = lp.own
                j = self.join_list([cur] + bl, names, lp)
                old = self.rebase(cur, own, lp.own)
                same = self.same_shape(j, old)
                if self.debug:
                    self.debug(self, f, h, it, same, j, old)
                if same and pleq(j[0].poly, old[0].poly):
                    lp.own = own
                    # narrowing: a few decreasing steps
                    for _n in range(2):
                        own = lp.own
                        nb = self.join_list([base] + bl, names, lp)
                        old = self.rebase(cur, own, lp.own)
                        if not self.same_shape(nb, old) or not pleq(nb[0].poly, old[0].poly) or pleq(old[0].poly, nb[0].poly):
                            lp.own = own
                            break
                        cur = nb
                        bl = iterate(cur)
                        if not bl:
                            break
                    break
                if it >= 2 and same:
                    ns = j[0].clone()
                    inv = {p: v for v, p in lp.own.items()}
                    m = {v: inv[lp.paths[v]] for k in hist for v, _c in k if v in lp.paths and lp.paths[v] in inv}
                    hist = {Lin(0, k).rename(m).t: n for k, n in hist.items()}
                    ns.poly = pwiden(old[0].poly, j[0].poly, self.templates(j, lp), hist, self.guards(f, body))
                    ns.poly = reorient(ns.poly)
                    j = (ns, j[1])
                elif it >= 12:
                    j = self.blur(j, old, lp)
                cur = j
            else:
                raise Stuck("no fixpoint for the loop at %s in %s" % (h, f.name))
        finally:
            self.record = rec
        # the decisive pass
        ex = {}
        self.region(f, cf, body, h, [(None, cur[0].clone(), dict(cur[1]))], h, ex, rets, first=True)
        ex.pop(h, None)
        for t, lst in ex.items():
            outs.setdefault(t, []).extend(lst)

    def guards(self, f, body):
        """constants a loop compares with: bounds worth trying when widening"""
        k = (f.name, id(body))
        r = self.guardc.get(k)
        if r is None:
            r = set()
            for b in body:
                for i in f.blocks[b]:
                    if i.op == "icmp":
                        for o in i.a:
                            if o[0] == "c" and isinstance(o[1], int):
                                r |= {-o[1] - 1, -o[1], -o[1] + 1, o[1] - 1, o[1], o[1] + 1}
            r = self.guardc[k] = sorted((x for x in r if abs(x) < 1 << 62), reverse=True)
        return r

    def rebase(self, x, own, now):
        """the earlier iterate with its slot variables renamed to the ones of the current generation"""
        inv = {p: v for v, p in now.items()}
        m = {v: inv[p] for v, p in own.items() if p in inv}
        return self.rename(x[0], x[1], m)

    def blur(self, j, old, lp):
        """force convergence of the memory shape: forget the contents that keep changing"""
        a, b = self.shape(j)[1], self.shape(old)[1]
        s = j[0].clone()
        for r, segs in s.mem.items():
            if segs is not None and a.get(r) != b.get(r):
                lp.blurred.add(r)
                s.mem[r] = ((s.regs[r].size, T),)
        return s, j[1]

    def unroll(self, f, cf, h, body, cur, names, outs, rets):
        """full unrolling when every exit decision is definite; False = not applicable"""
        if self.apart:
            return self.unroll_apart(f, cf, h, body, cur, names, outs, rets)
        start = self.steps
        acc, accr = {}, []
        s, e = cur[0].clone(), dict(cur[1])
        obs = {k: list(v) for k, v in self.obs.items()} if self.record else None
        for it in range(self.UNROLL):
            ex, rt = {}, []
            rec = self.record
            if it == 0:
                self.record = False       # dry first step: most loops are decided here
            try:
                self.region(f, cf, body, h, [(None, s.clone(), dict(e))], h, ex, rt, first=True)
            finally:
                self.record = rec
            back = ex.pop(h, [])
            if back and (ex or rt):
                if obs is not None:
                    self.obs = obs
                return False
            if it == 0 and rec:
                ex, rt = {}, []
                self.region(f, cf, body, h, [(None, s.clone(), dict(e))], h, ex, rt, first=True)
                back = ex.pop(h, [])
            if not back:
                for t, lst in ex.items():
                    outs.setdefault(t, []).extend(lst)
                rets.extend(rt)
                return True
            bl = []
            for p, s2, e2 in back:
                s3, e3 = self.phis(f, cf, h, p, s2, e2)
                bl.append((s3, {k: v for k, v in e3.items() if k in names}))
            s, e = self.join_list(bl, names) if len(bl) > 1 else bl[0]
            if len(s.poly.ge) > 100:
                s, e = self.tidy((s, e))
            if self.steps - start > self.UNROLL_INS:
                break
        if obs is not None:
            self.obs = obs
        return False

    def unroll_apart(self, f, cf, h, body, cur, names, outs, rets):
        """the same, without joining the states of different paths"""
        start = self.steps
        obs = {k: list(v) for k, v in self.obs.items()} if self.record else None
        work, acc, accr = [(cur[0].clone(), dict(cur[1]))], {}, []
        for it in range(self.UNROLL):
            nxt = []
            for s, e in work:
                ex, rt = {}, []
                self.region(f, cf, body, h, [(None, s.clone(), dict(e))], h, ex, rt, first=True)
                back = ex.pop(h, [])
                if back and (ex or rt):
                    if obs is not None:
                        self.obs = obs
                    return False
                for t, lst in ex.items():
                    acc.setdefault(t, []).extend(lst)
                accr += rt
                for p, s2, e2 in back:
                    s3, e3 = self.phis(f, cf, h, p, s2, e2)
                    nxt.append((s3, {k: v for k, v in e3.items() if k in names}))
            if not nxt:
                for t, lst in acc.items():
                    outs.setdefault(t, []).extend(lst)
                rets.extend(accr)
                return True
            if len(nxt) > 24:
                nxt = [self.join_list(nxt, names)]
            work = nxt
            if self.steps - start > self.UNROLL_INS:
                break
        if obs is not None:
            self.obs = obs
        return False

    # ------------------------------------------------------------ joins
    def join_list(self, lst, names=None, lp=None):
        acc = lst[0]
        if names is not None:
            acc = (acc[0], {k: v for k, v in acc[1].items() if k in names})
        if len(lst) == 1:
            return self.tidy(acc)
        for x in lst[1:]:
            acc = self.join2(acc, x, lp)
        return acc

    def tidy(self, x):
        s, e = x
        s = s.clone()
        self.drop_unreachable(s, e)
        keep = self.keepvars(s, e)
        s.poly = s.poly.project(lambda v: v in keep)
        return s, e

    def reach(self, s, e):
        seen, todo = set(), []

        def add(v):
            if isinstance(v, Ptr) and v.r not in seen:
                seen.add(v.r)
                todo.append(v.r)
            elif isinstance(v, Agg):
                for x in v.vs:
                    add(x)
        for v in e.values():
            add(v)
        for _n, env in self.stack:
            for v in env.values():
                add(v)
        for rid, _o, _n in s.roots:
            if rid not in seen:
                seen.add(rid)
                todo.append(rid)
        for r, d in s.regs.items():
            if d.kind in ("global", "const", "groot", "c", "pinned") and r not in seen:
                seen.add(r)
                todo.append(r)
        while todo:
            r = todo.pop()
            for _e, c in s.mem.get(r) or ():
                if c[0] == "V":
                    add(c[1])
        return seen

    def drop_unreachable(self, s, e):
        ok = self.reach(s, e)
        for r in [r for r in s.regs if r not in ok]:
            del s.regs[r]
            s.mem.pop(r, None)

    def keepvars(self, s, e):
        out = set()
        for v in e.values():
            svars(v, out)
        for _n, env in self.stack:
            for v in env.values():
                svars(v, out)
        for r, segs in s.mem.items():
            if segs is None:
                continue
            for en, c in segs:
                out.update(en.vars())
                cvars(c, out)
        for d in s.regs.values():
            out.update(d.size.vars())
        for g in s.ghost.values():
            svars(g, out)
        return out

    def join2(self, A, B, lp=None):
        (s1, e1), (s2, e2) = A, B
        s1, s2 = s1.clone(), s2.clone()
        eqs = []            # (name, lin1, lin2)
        solos = []
        own = lp.own if lp is not None else {}

        def owns(segs):
            if not own:
                return False
            out = set()
            for en, c in segs:
                out.update(en.vars())
                cvars(c, out)
            return any(v in own for v in out)
        r = State()
        env = {}

        def jnum(a, b, slot):
            if isinstance(a, Lin) and isinstance(b, Lin):
                if not any(v in own for v in a.vars()):
                    if a == b or s2.canon(b - a) == ZERO:
                        return a
                    if not any(v in own for v in b.vars()) and s1.canon(b - a) == ZERO:
                        return b
                    a, b = s1.canon(a), s2.canon(b)
                    if a == b:
                        # identical expressions; meaningful in both
                        return a
                v = fresh("j")
                eqs.append((v, a, b))
                return Lin.var(v)
            if isinstance(a, Term) and isinstance(b, Term) and a is b:
                return a
            if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == "random":
                return rand(a.w, min(a.args[1], b.args[1]))
            w = a.w if isinstance(a, Term) else b.w

            def rng(s, x, other):
                if isinstance(x, Term):
                    return x.lo, x.hi
                lo, hi = s.bounds(x)
                if lo is None or hi is None or lo < other.lo or hi > other.hi:
                    lo, hi = s.xbounds(x)
                return lo, hi
            lo1, hi1 = rng(s1, a, b)
            lo2, hi2 = rng(s2, b, a)
            if None in (lo1, hi1, lo2, hi2) or min(lo1, lo2) < 0:
                return top(w)
            return top(w, min(lo1, lo2), max(hi1, hi2))

        def jsolo(d, side):
            """a number that exists on one side only (free on the other)"""
            if lp is None:
                return d
            v = fresh("j")
            solos.append((v, d, side))
            return Lin.var(v)

        def jval(a, b, slot):
            if a is b and not own:
                return a
            if isinstance(a, (Lin, Term)) and isinstance(b, (Lin, Term)):
                return jnum(a, b, slot)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r != b.r:
                    return AnyPtr()
                o = jnum(a.o, b.o, slot + ".o")
                lo = a.lo if a.lo == b.lo and not isinstance(a.lo, Lin) else None
                hi = a.hi if a.hi == b.hi and not isinstance(a.hi, Lin) else None
                if lo is None and a.lo is not None and b.lo is not None:
                    lo = jnum(L(a.lo), L(b.lo), slot + ".lo")
                if hi is None and a.hi is not None and b.hi is not None:
                    hi = jnum(L(a.hi), L(b.hi), slot + ".hi")
                g = max(s1.gcn, s2.gcn)
                stale = a.ep < s1.gcn or b.ep < s2.gcn
                return Ptr(a.r, o, lo, hi, (g if not stale else min(a.ep, b.ep, g - 1)))
            if isinstance(a, Cond) and isinstance(b, Cond):
                if a.op == b.op and a.op in ("true", "false"):
                    return a
                if repr(a) == repr(b):
                    return a
                return UNK
            if isinstance(a, Agg) and isinstance(b, Agg):
                return Agg([jval(x, y, slot) if x is not None and y is not None else None for x, y in zip(a.vs, b.vs)])
            if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
                return a
            if isinstance(a, tuple) and a == b:
                return a
            return AnyPtr()

        for k in e1:
            if k in e2:
                env[k] = jval(e1[k], e2[k], k)
        self.drop_unreachable(s1, e1)
        self.drop_unreachable(s2, e2)
        for k in set(s1.regs) & set(s2.regs):
            r.regs[k] = s1.regs[k]
            a, b = s1.mem.get(k), s2.mem.get(k)
            if a is None and b is None:
                r.mem[k] = None
                continue
            a, b = self.segs(s1, k) or ((s1.regs[k].size, T),), self.segs(s2, k) or ((s1.regs[k].size, T),)
            if lp is not None and k in lp.blurred:
                r.mem[k] = ((s1.regs[k].size, T),)
            elif a == b and not owns(a):
                r.mem[k] = a
            else:
                r.mem[k] = self.join_segs(s1, s2, a, b, jnum, jval, jsolo, lp)
        r.roots = s1.roots
        r.gcn = max(s1.gcn, s2.gcn)
        r.blocking = s1.blocking or s2.blocking
        if self.fp is not None:
            for x in (s1, s2):
                x.ghost.setdefault("fp", self.fp.empty)
        for k in set(s1.ghost) & set(s2.ghost):
            r.ghost[k] = jval(s1.ghost[k], s2.ghost[k], "g" + k) if k != "fp" else Footprint.union(s1.ghost[k], s2.ghost[k])
        r.trail = s1.trail
        # numeric part
        p1, p2 = s1.poly, s2.poly
        for v, a, b in eqs:
            p1 = p1.add_eq0(Lin.var(v) - a)
            p2 = p2.add_eq0(Lin.var(v) - b)
        keep = self.keepvars(r, env)
        for v, d, side in solos:
            # on the other side choose the value by the same relation to the other slots
            p = (p1, p2)[side]
            stay = {x for x in keep if x != v and x not in {w for w, _d, _s in solos}}
            q = p.add_eq0(Lin.var(v) - d).project(lambda x: x in stay or x == v)
            e = q.canon(Lin.var(v))
            if e == Lin.var(v):
                e = next((solve_for(eq, v) for eq in [Lin.var(w) - x for w, x in q.eq.items()] if any(x == v for x in eq.vars())), None)
            if side == 0:
                p1 = p1.add_eq0(Lin.var(v) - d)
                if e is not None:
                    p2 = p2.add_eq0(Lin.var(v) - e)
            else:
                p2 = p2.add_eq0(Lin.var(v) - d)
                if e is not None:
                    p1 = p1.add_eq0(Lin.var(v) - e)
            eqs.append((v, None, None))
        # ranges of shared terms
        p1 = p1.project(lambda v: v in keep)
        p2 = p2.project(lambda v: v in keep)
        xs = [Lin.var(v) for v, _a, _b in eqs]
        extra = xs + [-x for x in xs]
        if len(xs) <= 8:
            for i, x in enumerate(xs):
                for y in xs[i + 1:]:
                    extra += [x - y, y - x]
            kv = [v for v in keep if v not in {q for q, _a, _b in eqs}]
            if len(kv) <= 8:
                for x in xs:
                    for v in kv:
                        extra += [x - Lin.var(v), Lin.var(v) - x]
        extra += self.room(r, env, {v for v, _a, _b in eqs})
        both = s1.tmpl | s2.tmpl
        if both:
            both = frozenset(c for c in both if all(v in keep for v in c.vars()))
            extra += sorted(both, key=repr)
            if lp is None:
                r.tmpl = both
        r.poly = pjoin_many([p1, p2], extra)
        if lp is not None:
            r.poly = reorient(r.poly)
        if lp is None:
            return r, env
        return self.canonical((r, env), lp, {v for v, _a, _b in eqs})

    def canonical(self, x, lp, new):
        """name the variables introduced at a loop head by their position"""
        s, e = x
        lp.gen += 1
        m, own = {}, {}

        def visit(v, path):
            if isinstance(v, Lin):
                if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0] in new and v.t[0][0] not in m:
                    n = "L%d.%d|%s" % (lp.id, lp.gen, path)
                    m[v.t[0][0]] = n
                    own[n] = path
            elif isinstance(v, Ptr):
                visit(v.o, path + ".o")
                if isinstance(v.lo, Lin):
                    visit(v.lo, path + ".l")
                if isinstance(v.hi, Lin):
                    visit(v.hi, path + ".h")
            elif isinstance(v, Agg):
                for i, y in enumerate(v.vs):
                    visit(y, path + ".%d" % i)
        for k in sorted(e):
            visit(e[k], k)
        for r in sorted(s.mem):
            if s.mem[r] is None:
                continue
            for i, (en, c) in enumerate(s.mem[r]):
                visit(en, "%s.%d" % (r, i))
                if c[0] == "V":
                    visit(c[1], "%s.%dv" % (r, i))
                elif c[0] == "S":
                    for j, (_n, d) in enumerate(sorted(c[1], key=lambda q: q[0])):
                        visit(d, "%s.%ds%d" % (r, i, j))
        for g in sorted(s.ghost):
            visit(s.ghost[g], "$" + g)
        lp.own = own
        lp.paths.update(own)
        if not m:
            return x
        return self.rename(s, e, m)

    def rename(self, s, e, m):
        s = s.clone()

        def rv(v):
            if isinstance(v, Lin):
                return v.rename(m)
            if isinstance(v, Ptr):
                return Ptr(v.r, v.o.rename(m), v.lo.rename(m) if isinstance(v.lo, Lin) else v.lo,
                           v.hi.rename(m) if isinstance(v.hi, Lin) else v.hi, v.ep)
            if isinstance(v, Cond):
                return Cond(v.op, v.e.rename(m) if v.e is not None else None, rv(v.a) if v.a is not None else None,
                            rv(v.b) if v.b is not None else None)
            if isinstance(v, Agg):
                return Agg([rv(y) if y is not None else None for y in v.vs])
            return v

        def rc(c):
            if c[0] == "V":
                return ("V", rv(c[1]), c[2])
            if c[0] == "S":
                return ("S", frozenset((n, d.rename(m)) for n, d in c[1]), c[2])
            return c
        s.poly = s.poly.rename(m)
        for r, segs in s.mem.items():
            if segs is not None:
                s.mem[r] = tuple((en.rename(m), rc(c)) for en, c in segs)
        for r, d in list(s.regs.items()):
            if any(v in m for v in d.size.vars()):
                s.regs[r] = Reg(d.name, d.size.rename(m), d.kind, d.flags, d.g)
        s.ghost = {k: rv(v) for k, v in s.ghost.items()}
        return s, {k: rv(v) for k, v in e.items()}

    def join_segs(self, s1, s2, a, b, jnum, jval, jsolo, lp):
        # 1. scalars: make both sides expose the same scalar cells
        a, b = self.expose(s1, a, b), self.expose(s2, b, a)
        a, b = self.expose(s1, a, b), self.expose(s2, b, a)
        # 2. chunks between common constant boundaries
        ca = {e.c for e, _c in a if is_const(e)}
        cb = {e.c for e, _c in b if is_const(e)}
        common = ca & cb
        out = []
        i = j = 0
        if not common and not (a[-1][0] == b[-1][0]):
            return ((a[-1][0], T),)
        while i < len(a) or j < len(b):
            ka, kb = [], []
            while i < len(a):
                ka.append(a[i])
                i += 1
                if is_const(ka[-1][0]) and ka[-1][0].c in common:
                    break
            while j < len(b):
                kb.append(b[j])
                j += 1
                if is_const(kb[-1][0]) and kb[-1][0].c in common:
                    break
            if not ka or not kb:
                end = (ka or kb)[-1][0]
                out.append((end, T))
                break
            out += self.align(s1, s2, ka, kb, jnum, jval, out[-1][0] if out else ZERO, jsolo, lp)
        return tuple(out)

    def expose(self, st, a, b):
        """cut a so that the scalar cells of b at constant positions are cells of a too"""
        start = ZERO
        for e, c in b:
            if c[0] == "V" and is_const(e) and is_const(start):
                a = self.expose1(st, a, start.c, e.c)
            start = e
        return a

    def expose1(self, st, a, lo, hi):
        start = ZERO
        for i, (e, c) in enumerate(a):
            if not is_const(e) or not is_const(start):
                start = e
                continue
            if start.c == lo and e.c == hi:
                return a
            if start.c <= lo and e.c >= hi:
                if c[0] in ("K", "T"):
                    new = []
                    if start.c < lo:
                        new.append((Lin(lo), c))
                    v = ("V", Lin(sum(c[1] << (8 * k) for k in range(hi - lo))), hi - lo) if c[0] == "K" else \
                        ("V", top((hi - lo) * 8), hi - lo)
                    new.append((Lin(hi), v))
                    if e.c > hi:
                        new.append((e, c))
                    return a[:i] + tuple(new) + a[i + 1:]
                return a
            start = e
        return a

    def align(self, s1, s2, ka, kb, jnum, jval, begin, jsolo, lp):
        """pairwise alignment of two segment lists over the same interval"""
        n, m = len(ka), len(kb)
        if n == 1 and m == 1:
            return [(jnum(ka[0][0], kb[0][0], ""), self.jcontent(s1, s2, ka[0][1], kb[0][1], jnum, jval))]

        def cost(x, y):
            if x[0] == y[0]:
                if x[0] == "K":
                    return 0 if x[1] == y[1] else 22
                if x[0] == "S":
                    if sorted(q for q, _d in x[1]) == sorted(q for q, _d in y[1]) and x[2] == y[2]:
                        return 0 if x == y or not self.fine or self.same_content(s2, x, y) else 2
                    return 22
                if x[0] == "V":
                    return 0 if x[2] == y[2] else 30
                return 16 if x[1] != y[1] and x[1] and y[1] else 0
            if "V" in (x[0], y[0]):
                return 30
            return 10 if "T" in (x[0], y[0]) else 22
        late = lp is not None and lp.it >= 3
        first = self.fine and lp is not None and lp.it == 0
        rich = sum(1 for x in ka if x[1][0] in "SK") > 0
        D = [[None] * (m + 1) for _ in range(n + 1)]
        D[0][0] = (0, None)
        for i in range(n + 1):
            for j in range(m + 1):
                best = D[i][j]
                if i and j and D[i - 1][j - 1] is not None:
                    c = D[i - 1][j - 1][0] + cost(ka[i - 1][1], kb[j - 1][1])
                    if (i == 1) != (j == 1):
                        c += 1        # the starts differ
                    if best is None or c < best[0]:
                        best = (c, "m")
                if i and D[i - 1][j] is not None:
                    c = D[i - 1][j][0] + (15 if ka[i - 1][1][0] != "V" else 40)
                    if best is None or c < best[0]:
                        best = (c, "a")
                if j and D[i][j - 1] is not None:
                    c = D[i][j - 1][0] + (40 if late or kb[j - 1][1][0] == "V" else 7 if first else 15)
                    if best is None or c < best[0]:
                        best = (c, "b")
                if rich and j and D[i][j - 1] is not None and kb[j - 1][1][0] != "V" and \
                        ((i < n and ka[i][1][0] == "T") or (i and ka[i - 1][1][0] == "T")):
                    c = D[i][j - 1][0] + 8
                    if best is None or c < best[0]:
                        best = (c, "t")
                if rich and i and D[i - 1][j] is not None and ka[i - 1][1][0] != "V" and \
                        ((j < m and kb[j][1][0] == "T") or (j and kb[j - 1][1][0] == "T")) and len(ka) > 2:
                    c = D[i - 1][j][0] + 14
                    if best is None or c < best[0]:
                        best = (c, "s")
                D[i][j] = best
        ops = []
        i, j = n, m
        while i or j:
            o = D[i][j][1]
            ops.append(o)
            if o in "mas":
                i -= 1
            if o in "mbt":
                j -= 1
        ops.reverse()
        out = []
        i = j = 0
        ea = eb = None
        prevA = prevB = begin
        for o in ops:
            if o == "m":
                x, y = ka[i], kb[j]
                i, j = i + 1, j + 1
                prevA, prevB = x[0], y[0]
                c = self.jcontent(s1, s2, x[1], y[1], jnum, jval)
            elif o == "a":
                x = ka[i]
                i += 1
                prevA = x[0]
                c = self.solo(x[1], jsolo, 0)
            elif o == "s":
                prevA = ka[i][0]
                i += 1
                c = T
            elif o == "t":
                prevB = kb[j][0]
                j += 1
                c = T
            else:
                y = kb[j]
                j += 1
                prevB = y[0]
                c = self.solo(y[1], jsolo, 1)
            if out and out[-1][2] == T and c == T:
                out.pop()
            out.append([prevA, prevB, c])
        return [(jnum(A_, B_, ""), c) for A_, B_, c in out]

    def solo(self, c, jsolo, side):
        """the content of a segment that is empty on the other side"""
        if c[0] == "S":
            return ("S", frozenset((n, jsolo(d, side)) for n, d in c[1]), c[2])
        return c if c[0] != "V" else T

    def jcontent(self, s1, s2, a, b, jnum, jval):
        if a == b and a[0] in "KT":
            return a
        if a[0] == "V" and b[0] == "V" and a[2] == b[2]:
            return ("V", jval(self.reduced(s1, a[1], a[2]), self.reduced(s2, b[1], b[2]), ""), a[2])
        if a[0] == "S" and b[0] == "S" and a[2] == b[2] and len(a[1]) == 1 and len(b[1]) == 1:
            (n1, d1), (n2, d2) = next(iter(a[1])), next(iter(b[1]))
            if n1 == n2:
                return ("S", frozenset([(n1, jnum(d1, d2, ""))]), a[2])
        if a[0] == "S" and b[0] == "S" and a[2] == b[2] and len(a[1]) == len(b[1]):
            x, y = sorted(a[1], key=lambda q: (q[0], repr(q[1]))), sorted(b[1], key=lambda q: (q[0], repr(q[1])))
            if [q for q, _d in x] == [q for q, _d in y] and len({q for q, _d in x}) == len(x):
                return ("S", frozenset((n1, jnum(d1, d2, "")) for (n1, d1), (_n, d2) in zip(x, y)), a[2])
        if a[0] == "T" and b[0] == "T":
            return T
        return T

    def reduced(self, st, v, n):
        """the stored integer without a carry out of its n bytes, when there certainly is one"""
        if isinstance(v, Lin):
            lo, hi = (v.c, v.c) if not v.t else st.bounds(v)
            m = 1 << (8 * n)
            if lo is not None and hi is not None and lo >= m and int(lo) // m == int(hi) // m:
                return v - (int(lo) // m) * m
        return v

    def room(self, s, env, own):
        """what is left of a buffer after a pointer, against the other moving quantities"""
        out = []
        nums = sorted({v for x in env.values() if isinstance(x, Lin) for v, _k in x.t if v in own})
        for p in env.values():
            if isinstance(p, Ptr) and p.r in s.regs and any(v in own for v, _k in p.o.t):
                left = s.regs[p.r].size - p.o
                out.append(left)
                for v in nums[:6]:
                    out.append(left - Lin.var(v))
        return out

    def templates(self, x, lp):
        s, e = x
        kv = self.keepvars(s, e)
        out = self.room(s, e, lp.own)
        xs = [Lin.var(v) for v in sorted(kv) if v in lp.own]
        for v in xs:
            out += [v, -v]
        if len(xs) <= 8:
            for i, a in enumerate(xs):
                for b in xs[i + 1:]:
                    out += [a - b, b - a]
            ys = [Lin.var(v) for v in sorted(kv) if v not in lp.own]
            if len(ys) <= 8:
                for a in xs:
                    for b in ys:
                        out += [a - b, b - a]
        return out

    def shape(self, x):
        s, e = x

        def sv(v):
            if isinstance(v, Lin):
                return v
            if isinstance(v, Term):
                return ("t", v.w, v.lo, v.hi)
            if isinstance(v, Ptr):
                return ("p", v.r, v.o, v.lo, v.hi, v.ep >= s.gcn)
            if isinstance(v, Cond):
                return ("c", repr(v))
            if isinstance(v, AnyPtr):
                return "any"
            if isinstance(v, FnPtr):
                return v.name
            if isinstance(v, Agg):
                return tuple(sv(y) if y is not None else None for y in v.vs)
            return v

        def sc(c):
            return ("V", sv(c[1]), c[2]) if c[0] == "V" else c
        return (tuple(sorted((k, sv(v)) for k, v in e.items())) if False else {k: sv(v) for k, v in e.items()},
                {r: (None if g is None else tuple((en, sc(c)) for en, c in g)) for r, g in s.mem.items()},
                {k: sv(v) for k, v in s.ghost.items()}, s.roots)

    def same_shape(self, a, b):
        return self.shape(a) == self.shape(b)

    def subsumed(self, new, old):
        return self.same_shape(new, old) and pleq(new[0].poly, old[0].poly)


def reorient(p):
    """solve the equalities for the memory slots first, for the program variables last"""
    if p.bot or not p.eq:
        return p

    def rank(v):
        i = v.find("|")
        if i < 0:
            return 0
        q = v[i + 1:]
        return 1 if q[0] == "%" else 2 if q[0] == "$" else 3
    rows = [Lin.var(v) - x for v, x in p.eq.items()]
    solved = {}
    while rows:
        best = None
        for i, r in enumerate(rows):
            for v, c in r.t:
                if c in (1, -1):
                    k = (rank(v), v)
                    if best is None or k > best[0]:
                        best = (k, i, v, c)
        if best is None:
            return p
        _k, i, v, c = best
        r = rows.pop(i)
        x = r - Lin(0, ((v, c),))
        x = -x if c == 1 else x
        m = {v: x}
        rows = [q.subst(m) for q in rows]
        rows = [q for q in rows if q.t]
        solved = {u: y.subst(m) for u, y in solved.items()}
        solved[v] = x
    q = Poly(solved)
    for e in p.ge:
        q = q.add_ge0(e)
    return q


def solve_for(eq, v):
    c = next(c for x, c in eq.t if x == v)
    if c not in (1, -1):
        return None
    r = eq - Lin(0, ((v, c),))
    return -r if c == 1 else r


DIVC = {}


def gcd(a, b):
    a, b = abs(a), abs(b)
    while b:
        a, b = b, a % b
    return a


def signed(c, w):
    c %= 1 << w
    return c - (1 << w) if c >> (w - 1) else c


def const_op(op, a, b, w):
    m = (1 << w) - 1
    a, b = a & m, b & m
    if op == "add":
        return (a + b) & m
    if op == "sub":
        return (a - b) & m
    if op == "mul":
        return (a * b) & m
    if op == "and":
        return a & b
    if op == "or":
        return a | b
    if op == "xor":
        return a ^ b
    if op == "shl":
        return (a << b) & m if b < w else 0
    if op == "lshr":
        return a >> b if b < w else 0
    if op == "ashr":
        return (signed(a, w) >> min(b, w - 1)) & m
    if op == "udiv":
        return a // b if b else 0
    if op == "urem":
        return a % b if b else 0
    sa_, sb = signed(a, w), signed(b, w)
    if op == "sdiv":
        return (abs(sa_) // abs(sb) * (1 if (sa_ < 0) == (sb < 0) else -1)) & m if sb else 0
    if op == "srem":
        return (abs(sa_) % abs(sb) * (1 if sa_ >= 0 else -1)) & m if sb else 0
    raise Stuck("const %s" % op)


def const_bytes(ty, init):
    k = init[0]
    if k == "z":
        return bytes(ty.size())
    if k == "c":
        return (init[1] & ((1 << (8 * ty.size())) - 1)).to_bytes(ty.size(), "little")
    if k == "s":
        return init[1]
    if k == "u":
        return bytes(ty.size())
    if k == "a":
        if ty.k in ("struct", "pstruct"):
            out = bytearray(ty.size())
            for (t, v), o in zip(init[1], ty.offs()):
                b = const_bytes(t, v)
                out[o:o + len(b)] = b
            return bytes(out)
        return b"".join(const_bytes(t, v) for t, v in init[1])
    raise ValueError("non-constant initialiser")


def show(st, es):
    vs = set()
    for e in es:
        vs.update(st.canon(L(e)).vars())
    cs = [repr(x) + ">=0" for x in st.poly.ge if any(v in vs for v in x.vars())]
    return "; ".join(cs[:12])


EXTERNS = {}


def extern(name):
    def d(f):
        EXTERNS[name] = f
        return f
    return d
