"""Abstract interpreter for the typed OCaml tree (front.load_ocaml).

Numeric part: polyhedra (poly.py) over SSA-like integer variables.
Heap part: byte sequences with immutable length expressions and an
array-segmentation content domain (segments with affine bounds whose content
is a XOR-set of uninterpreted sequences); refs; object fields.
Functions, methods and helpers are analysed inline (context-sensitively);
loops and recursion by fixpoint with widening; branches are kept partitioned
and joined at loop heads.
"""
import sys
from .poly import Lin, Poly, fresh, join as pjoin, join_many as pjoin_many, widen as pwiden, leq as pleq
from .front import load_ocaml, strip, ToolError

sys.setrecursionlimit(20000)

MAXINT = (1 << 62) - 1
MININT = -(1 << 62)
MAXSTR = (1 << 57) - 9          # Sys.max_string_length on 64 bits
I64MAX = (1 << 63) - 1
I64MIN = -(1 << 63)


class Unsupported(ToolError):
    pass


# ---------------------------------------------------------------- values
class V:
    __slots__ = ()


class B(V):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "B%r" % (self.c,)


class S(V):
    """byte sequence (bytes or string)"""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return "S(%s)" % self.loc


class Tup(V):
    __slots__ = ("vs",)

    def __init__(self, vs):
        self.vs = tuple(vs)

    def __repr__(self):
        return "Tup%r" % (self.vs,)


class Con(V):
    __slots__ = ("name", "args")

    def __init__(self, name, args=()):
        self.name = name
        self.args = tuple(args)

    def __repr__(self):
        return self.name + (repr(self.args) if self.args else "")


class Rec(V):
    __slots__ = ("d", "ty")

    def __init__(self, d, ty=None):
        self.d = d
        self.ty = ty

    def __repr__(self):
        return "Rec(%s)" % self.ty


class Ref(V):
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class Arr(V):
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class Clo(V):
    __slots__ = ("node", "env", "self_")

    def __init__(self, node, env):
        self.node = node
        self.env = env


class PrimV(V):
    __slots__ = ("name", "arity", "args", "node", "ty")

    def __init__(self, name, arity, args=(), node=None, ty=None):
        self.name, self.arity, self.args, self.node, self.ty = name, arity, args, node, ty

    def __repr__(self):
        return "Prim(%s)" % self.name


class NewV(V):
    __slots__ = ("cdef", "args", "n")

    def __init__(self, cdef, n, args=()):
        self.cdef, self.n, self.args = cdef, n, args


class Obj(V):
    """a known object: method table with environments; fields live in the state"""
    __slots__ = ("oid", "cname", "methods", "private", "captured", "selfnames", "mut")

    def __init__(self, oid, cname):
        self.oid = oid
        self.cname = cname
        self.methods = {}
        self.private = set()
        self.captured = []
        self.mut = set()      # names of mutable instance variables

    def __repr__(self):
        return "Obj(%s,%s)" % (self.cname, self.oid)


class Opq(V):
    """opaque value (object of unknown class, abstract type, channel, ...)"""
    __slots__ = ("ty", "id", "term")

    def __init__(self, ty, id=None, term=None):
        self.ty = ty
        self.id = id or fresh("opq")
        self.term = term

    def __repr__(self):
        return "Opq(%s,%s)" % (self.ty, self.id)


class Unk(V):
    """value of a known data type, not yet inspected"""
    __slots__ = ("ty", "id")

    def __init__(self, ty, id=None):
        self.ty = ty
        self.id = id or fresh("unk")

    def __repr__(self):
        return "Unk(%s,%s)" % (self.ty, self.id)


UNIT = Con("()")
TRUE = ("T",)
FALSE = ("F",)


def cnot(c):
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    if c[0] == "not":
        return c[1]
    return ("not", c)


# ---------------------------------------------------------------- env
class Env:
    __slots__ = ("d", "up")

    def __init__(self, up=None, d=None):
        self.d = d if d is not None else {}
        self.up = up

    def get(self, k):
        e = self
        while e is not None:
            if k in e.d:
                return e.d[k]
            e = e.up
        return None

    def ext(self, d):
        return Env(self, d)


class Thunk:
    __slots__ = ("pat", "node", "env", "mod")

    def __init__(self, pat, node, env):
        self.pat, self.node, self.env = pat, node, env


class ClassDef:
    __slots__ = ("name", "node", "env", "loc", "qual")

    def __init__(self, name, node, env, loc, qual):
        self.name, self.node, self.env, self.loc, self.qual = name, node, env, loc, qual


class Mod:
    __slots__ = ("name", "members", "env")

    def __init__(self, name, env):
        self.name = name
        self.members = {}
        self.env = env


class Functor:
    __slots__ = ("param", "body", "env", "name")

    def __init__(self, param, body, env, name):
        self.param, self.body, self.env, self.name = param, body, env, name


# ---------------------------------------------------------------- state
class Cell:
    """bytes cell: length, content segments (or None), meta"""
    __slots__ = ("len", "segs", "meta", "_vars")

    def __init__(self, len, segs=None, meta=None):
        self.len = len
        self.segs = segs
        self.meta = meta or {}
        self._vars = None

    def vars(self):
        """all the variables mentioned"""
        if self._vars is None:
            acc = set(self.len.vars())
            for lo, hi, at in self.segs or ():
                acc.update(lo.vars())
                acc.update(hi.vars())
                for q, d in at:
                    acc.update(d.vars())
                    seq_vars(q, acc)
            for v in self.meta.values():
                seq_vars(v, acc)
            self._vars = frozenset(acc)
        return self._vars

    def with_segs(self, segs):
        return Cell(self.len, segs, self.meta)

    def with_meta(self, **kw):
        m = dict(self.meta)
        m.update(kw)
        return Cell(self.len, self.segs, m)


class RCell:
    """ref cell / array cell summary"""
    __slots__ = ("val", "len")

    def __init__(self, val, len=None):
        self.val = val
        self.len = len


class St:
    __slots__ = ("poly", "heap", "fields", "known", "trace", "ghost")

    def __init__(self):
        self.poly = Poly()
        self.heap = {}
        self.fields = {}
        self.known = {}
        self.trace = ()
        self.ghost = {}

    def copy(self):
        s = St.__new__(St)
        s.poly = self.poly
        s.heap = dict(self.heap)
        s.fields = dict(self.fields)
        s.known = dict(self.known)
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        return s

    def with_poly(self, p):
        s = self.copy()
        s.poly = p
        return s

    def event(self, *ev):
        s = self.copy()
        s.trace = self.trace + (ev,)
        return s


class Out:
    __slots__ = ("st", "val", "exn")

    def __init__(self, st, val, exn=False):
        self.st, self.val, self.exn = st, val, exn


def ok(st, v=UNIT):
    return [Out(st, v)]


# -------------------------------------------------------------- type strings
def parse_arrow(ty):
    """'(a->(b->c))' -> ([a,b], c)"""
    args = []
    t = ty
    while True:
        if not (t.startswith("(") and t.endswith(")")):
            return args, t
        depth = 0
        pos = -1
        for i in range(len(t)):
            c = t[i]
            if c == "(":
                depth += 1
            elif c == ")":
                depth -= 1
                if depth == 0 and i != len(t) - 1:
                    return args, t
            elif c == "-" and depth == 1 and t[i:i + 2] == "->" and pos < 0:
                pos = i
        if pos < 0:
            return args, t
        args.append(t[1:pos])
        t = t[pos + 2:-1]


def parse_tuple(ty):
    if not (ty.startswith("(") and ty.endswith(")")):
        return None
    depth = 0
    parts = []
    cur = ""
    for c in ty[1:-1]:
        if c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
            if depth < 0:
                return None
        if c == "*" and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += c
    parts.append(cur)
    return parts if len(parts) > 1 else None


class Program:
    """Resolved modules of the library."""

    def __init__(self, tree=None):
        self.tree = tree or load_ocaml()
        self.types = {}        # short type name -> ('variant', [(name, arity)]) | ('record', [(l, mut, ty)])
        self.externals = {}    # uid -> info
        self.ext_list = []
        self.root = Env()
        self.file = {}
        self.classes = {}      # qualified name -> ClassDef
        for name in ("CryptokitBignum", "Cryptokit"):
            m = self.load_struct(name, self.tree[name], self.root, name)
            self.root.d[name] = m

    def load_struct(self, qual, items, env, modname):
        env = Env(env)
        m = Mod(qual, env)
        for it in items:
            k = it[0]
            if k == "value":
                rec = it[2]
                for vb in it[3]:
                    self.bind_top(vb[1], vb[2], env, m)
            elif k == "external":
                uid = it[2]
                info = dict(uid=uid, arity=it[3], byte=it[4], native=it[5] or it[4], noalloc=not it[6],
                            ty=it[7], tys=it[8], reprs=it[9], loc=it[1], mod=modname, name=strip(uid))
                self.externals[uid] = info
                self.ext_list.append(info)
                env.d[uid] = PrimV(it[4], it[3], ty=it[7])
                m.members[strip(uid)] = env.d[uid]
            elif k == "class":
                for cd in it[2]:
                    c = ClassDef(cd[2], cd[4], env, cd[5], qual + "." + cd[2])
                    env.d[cd[1]] = c
                    m.members["class " + cd[2]] = c
                    self.classes[qual + "." + cd[2]] = c
            elif k == "type":
                for d in it[2]:
                    n = strip(d[1])
                    kind = d[2]
                    if kind[0] == "variant":
                        self.types.setdefault(n, ("variant", [(c[1], c[2]) for c in kind[1]]))
                    elif kind[0] == "record":
                        self.types.setdefault(qual + "." + n, ("record", [(l[1], l[2], l[3]) for l in kind[1]]))
                        self.types.setdefault(n, ("record", [(l[1], l[2], l[3]) for l in kind[1]]))
            elif k == "module":
                uid = it[2]
                v = self.load_mexpr(qual + "." + strip(uid), it[3], env, modname)
                env.d[uid] = v
                m.members[strip(uid)] = v
            elif k in ("eval", "exn", "classtype", "skip", "open"):
                pass
            else:
                raise Unsupported("structure item %s at %s" % (k, it[1]))
        return m

    def load_mexpr(self, qual, me, env, modname):
        k = me[0]
        if k == "mstruct":
            return self.load_struct(qual, me[1], env, modname)
        if k == "mident":
            v = self.lookup(me[1], env)
            if v is None:
                return Mod(me[1], env)
            return v
        if k == "mfunctor":
            return Functor(me[1], me[2], env, qual)
        if k == "mapply":
            f = self.load_mexpr(qual, me[1], env, modname)
            a = self.load_mexpr(qual + ".arg", me[2], env, modname)
            if not isinstance(f, Functor):
                raise Unsupported("functor application " + qual)
            return self.load_mexpr(qual, f.body, Env(f.env, {f.param: a}), modname)
        raise Unsupported("module expression " + k)

    def bind_top(self, pat, node, env, m):
        if pat[0] == "var":
            t = Thunk(pat, node, env)
            env.d[pat[1]] = t
            m.members[strip(pat[1])] = t
        elif pat[0] == "alias":
            t = Thunk(pat, node, env)
            env.d[pat[2]] = t
            m.members[strip(pat[2])] = t
        elif pat[0] == "any" or pat[0] == "constr":
            pass
        elif pat[0] == "tuple":
            t = Thunk(pat, node, env)
            for i, p in enumerate(pat[1]):
                if p[0] == "var":
                    env.d[p[1]] = ("proj", t, i)
                    m.members[strip(p[1])] = env.d[p[1]]
        else:
            raise Unsupported("toplevel pattern " + pat[0])

    def lookup(self, path, env):
        parts = path.split(".")
        v = env.get(parts[0])
        if v is None:
            return None
        for i, p in enumerate(parts[1:]):
            if isinstance(v, Mod):
                w = v.members.get(p)
                if w is None:
                    w = v.members.get("class " + p)
                v = w
            else:
                return None
        return v

    def member(self, path):
        """'Cryptokit.Block.cipher' -> member (value)"""
        parts = path.split(".")
        v = self.root.d[parts[0]]
        for p in parts[1:]:
            if not isinstance(v, Mod) or p not in v.members:
                return None
            v = v.members[p]
        return v

    def get_class(self, path):
        c = self.classes.get(path)
        if c is not None:
            return c
        parts = path.split(".")
        v = self.root.d[parts[0]]
        for p in parts[1:-1]:
            v = v.members.get(p) if isinstance(v, Mod) else None
        return v.members.get("class " + parts[-1]) if isinstance(v, Mod) else None


# =====================================================================
class Frame:
    __slots__ = ("key", "node", "entry", "backs", "results", "tail", "depth")

    def __init__(self, key, node):
        self.key = key
        self.node = node
        self.backs = []
        self.results = None


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.frames = []
        self.obligations = []      # (kind, ok, where, detail)
        self.ext = {}              # external name -> handler
        self.prims = {}
        self.opq_methods = {}      # (type, method) -> handler
        self.unmodelled = {}
        self.max_outs = 40
        self.type_ctx = ""         # module in whose scope type names are read
        self.check_overflow = True
        self.hooks = {}
        self.stack = []            # names for reports
        self.notes = []
        from . import stdmodel
        stdmodel.install(self)

    # ----------------------------------------------------- helpers
    def oblige(self, kind, good, node, detail):
        loc = node[1] if node and len(node) > 1 else [0, 0]
        self.obligations.append((kind, bool(good), self.where(loc), detail))

    def where(self, loc):
        return "%s:%s" % ("src/cryptokit.ml" if not self.stack or not self.stack[-1][2] else self.stack[-1][2], loc[0] if loc else "?")

    def newvar(self, st, lo=None, hi=None, hint="v"):
        v = Lin.var(fresh(hint))
        p = st.poly
        if lo is not None:
            p = p.add_ge0(v - lo)
        if hi is not None:
            p = p.add_ge0(Lin.of(hi) - v)
        return v, st.with_poly(p)

    def anyint(self, st, hint="i"):
        return self.newvar(st, MININT, MAXINT, hint)

    def alloc(self, st, length, segs=None, **meta):
        loc = fresh("L")
        s = st.copy()
        s.heap[loc] = Cell(Lin.of(length), segs, meta)
        return S(loc), s

    def junk(self, lo, hi):
        return (Lin.of(lo), Lin.of(hi), frozenset([(("junk", fresh("j")), Lin(0))]))

    def alloc_ref(self, st, v):
        loc = fresh("R")
        s = st.copy()
        s.heap[loc] = RCell(v)
        return Ref(loc), s

    def length(self, st, v):
        return st.heap[v.loc].len

    # ----------------------------------------------------- unknown values
    def unknown(self, st, ty, hint="u"):
        """-> (value, st)"""
        t = ty
        if t == "int":
            return self.anyint(st, hint)
        if t == "char":
            return self.newvar(st, 0, 255, hint)
        if t in ("int64", "Int64.t"):
            return self.newvar(st, I64MIN, I64MAX, hint)
        if t in ("int32",):
            return self.newvar(st, -(1 << 31), (1 << 31) - 1, hint)
        if t == "bool":
            return B(("unk", fresh("b_" + hint))), st
        if t == "unit":
            return UNIT, st
        if t in ("bytes", "string"):
            n, st = self.newvar(st, 0, MAXSTR, "len_" + hint)
            seq = ("in", fresh(hint))
            return self.alloc(st, n, ((Lin(0), n, frozenset([(seq, Lin(0))])),), origin="param", kind=t, seq=seq)
        if t == "exn":
            return Opq("exn"), st
        tp = parse_tuple(t)
        args, res = parse_arrow(t)
        if args:
            return PrimV("%opaque_fun", len(args), ty=t), st
        if tp:
            vs = []
            for x in tp:
                v, st = self.unknown(st, x, hint)
                vs.append(v)
            return Tup(vs), st
        base = t.split("(")[0]
        if base == "array":
            n, st = self.newvar(st, 0, MAXSTR, "alen")
            loc = fresh("A")
            s = st.copy()
            s.heap[loc] = RCell(None, n)
            return Arr(loc), s
        short = base.split(".")[-1]
        if base in ("option", "list"):
            return Unk(t), st
        ti = self.find_type(base)
        if ti is not None:
            if ti[0] == "variant":
                return Unk(short), st
            if ti[0] == "record":
                d = {}
                for (l, mut, lt) in ti[1]:
                    v, st = self.unknown(st, lt, hint + "." + l)
                    d[l] = v
                return Rec(d, short), st
        return Opq(t), st

    def find_type(self, base):
        ts = self.prog.types
        ctx = self.type_ctx.split(".") if self.type_ctx else []
        while ctx:
            ti = ts.get(".".join(ctx + [base]))
            if ti is not None:
                return ti
            ctx.pop()
        return ts.get("Cryptokit." + base) or ts.get(base) or ts.get(base.split(".")[-1])

    def force_unk(self, st, u):
        """split an Unk into constructors -> list of (st, Con)"""
        if u.id in st.known:
            return [(st, st.known[u.id])]
        base = u.ty.split("(")[0]
        out = []
        if base == "option":
            inner = u.ty[len("option("):-1] if "(" in u.ty else "'a"
            s = st.copy()
            s.known[u.id] = Con("None")
            out.append((s, s.known[u.id]))
            v, s = self.unknown(st, inner, "some")
            s = s.copy()
            s.known[u.id] = Con("Some", (v,))
            out.append((s, s.known[u.id]))
            return out
        ti = self.prog.types.get(u.ty)
        if ti and ti[0] == "variant":
            for name, ar in ti[1]:
                s = st.copy()
                args = []
                for i in range(ar):
                    # argument types of variant constructors: ints in this library
                    v, s = self.unknown(s, "int" if u.ty == "chaining_mode" else "string", name)
                    s = s.copy()
                    args.append(v)
                s.known[u.id] = Con(name, args)
                out.append((s, s.known[u.id]))
            return out
        raise Unsupported("cannot split value of type " + u.ty)

    # ----------------------------------------------------- conditions
    def assume(self, st, c, pol=True):
        """-> list of states"""
        k = c[0]
        if k == "T":
            return [st] if pol else []
        if k == "F":
            return [] if pol else [st]
        if k == "not":
            return self.assume(st, c[1], not pol)
        if k == "ge":
            e = c[1] if pol else (-c[1] - 1)
            p = st.poly.add_ge0(e)
            if p.bot or p.is_bot():
                return []
            return [st.with_poly(p)]
        if k == "eq":
            if pol:
                p = st.poly.add_eq0(c[1])
                return [] if p.bot or p.is_bot() else [st.with_poly(p)]
            out = []
            for e in (c[1] - 1, -c[1] - 1):
                p = st.poly.add_ge0(e)
                if not (p.bot or p.is_bot()):
                    out.append(st.with_poly(p))
            return out
        if k == "and":
            if pol:
                return [s2 for s in self.assume(st, c[1], True) for s2 in self.assume(s, c[2], True)]
            return self.assume(st, c[1], False) + \
                [s2 for s in self.assume(st, c[1], True) for s2 in self.assume(s, c[2], False)]
        if k == "or":
            if not pol:
                return [s2 for s in self.assume(st, c[1], False) for s2 in self.assume(s, c[2], False)]
            return self.assume(st, c[1], True) + \
                [s2 for s in self.assume(st, c[1], False) for s2 in self.assume(s, c[2], True)]
        if k == "unk":
            if c[1] in st.known:
                return [st] if st.known[c[1]] == pol else []
            s = st.copy()
            s.known[c[1]] = pol
            return [s]
        raise Unsupported("condition " + repr(c))

    def decide(self, st, c):
        """True / False / None without splitting"""
        t = self.assume(st, c, True)
        if not t:
            return False
        f = self.assume(st, c, False)
        if not f:
            return True
        return None

    # ----------------------------------------------------- integer arithmetic
    def arith(self, st, e, lo=MININT, hi=MAXINT, node=None):
        """result of a machine operation whose exact value is e: e itself when
        it provably does not overflow, otherwise an arbitrary machine integer"""
        if e.is_const():
            c = e.c
            if lo <= c <= hi:
                return e, st
            w = hi - lo + 1
            return Lin((c - lo) % w + lo), st
        if not self.check_overflow:
            return e, st
        p = st.poly
        if p.entails_ge0(e - lo) and p.entails_ge0(Lin(hi) - e):
            return e, st
        v, st = self.newvar(st, lo, hi, "ovf")
        return v, st

    # ----------------------------------------------------- content segments
    def find_split(self, st, segs, pos):
        """split list of segs at pos; -> (left, right) or None"""
        p = st.poly
        left = []
        n = len(segs)
        for i, (lo, hi, at) in enumerate(segs):
            if p.entails_eq0(pos - lo):
                return left, list(segs[i:])
            if p.entails_eq0(pos - hi):
                return left + [(lo, hi, at)], list(segs[i + 1:])
            if p.entails_ge0(pos - hi):
                left.append((lo, hi, at))
                continue
            if p.entails_ge0(pos - lo) and p.entails_ge0(hi - pos):
                return left + [(lo, pos, at)], [(pos, hi, at)] + list(segs[i + 1:])
            return None
        return None

    def read(self, st, loc, lo, n):
        """content of window [lo, lo+n): list of (rlo, rhi, atoms) relative, or None"""
        c = st.heap[loc]
        lo, n = Lin.of(lo), Lin.of(n)
        if st.poly.entails_eq0(n):
            return []
        if c.segs is None:
            return None
        a = self.find_split(st, c.segs, lo)
        if a is None:
            return None
        b = self.find_split(st, a[1], lo + n)
        if b is None:
            return None
        out = []
        for (x, y, at) in b[0]:
            if st.poly.entails_eq0(y - x):
                continue
            out.append((x - lo, y - lo, shift(at, lo)))
        return self.merge_segs(st, out)

    def merge_segs(self, st, segs):
        out = []
        for s in segs:
            if out and st.poly.entails_eq0(out[-1][1] - s[0]) and self.atoms_eq(st, out[-1][2], s[2]):
                out[-1] = (out[-1][0], s[1], out[-1][2])
            else:
                out.append(s)
        return out

    def canon_atoms(self, st, at):
        return frozenset((q, Lin(0) if q[0] in ("byte", "junkbyte") else st.poly.canon(d)) for q, d in at)

    def atoms_eq(self, st, a, b):
        return self.canon_atoms(st, a) == self.canon_atoms(st, b)

    def write(self, st, loc, lo, n, rsegs):
        """store relative segments (None = unknown) in window [lo, lo+n)"""
        c = st.heap[loc]
        lo, n = Lin.of(lo), Lin.of(n)
        if st.poly.entails_eq0(n):
            return st
        s = st.copy()
        if rsegs is None:
            rsegs = [self.junk(0, n)]
        if c.segs is None:
            if st.poly.entails_eq0(lo) and st.poly.entails_eq0(n - c.len):
                s.heap[loc] = c.with_segs(tuple((a, b, at) for a, b, at in rsegs))
            return s
        a = self.find_split(st, c.segs, lo)
        b = self.find_split(st, a[1], lo + n) if a is not None else None
        if b is None:
            s.heap[loc] = c.with_segs(None)
            return s
        mid = [(x + lo, y + lo, shift(at, -lo)) for x, y, at in rsegs]
        new = [q for q in a[0] + mid + b[1] if not st.poly.entails_eq0(q[1] - q[0])]
        s.heap[loc] = c.with_segs(tuple(self.merge_segs(st, new)))
        return s

    def is_zero(self, st, loc):
        c = st.heap[loc]
        if st.poly.entails_eq0(c.len):
            return True
        if c.segs is None:
            return False
        return all(not at or st.poly.entails_ge0(lo - hi) for lo, hi, at in c.segs)

    def term(self, st, rsegs):
        """canonical hashable term of a window"""
        if rsegs is None:
            return ("top", fresh("t"))
        return tuple((st.poly.canon(hi), self.canon_atoms(st, at)) for lo, hi, at in rsegs)

    def window_term(self, st, v, lo=None, n=None):
        if lo is None:
            lo, n = Lin(0), self.length(st, v)
        return self.term(st, self.read(st, v.loc, lo, n))

    def xor_segs(self, st, a, b):
        """pointwise xor of two relative segment lists covering the same window"""
        if a is None or b is None:
            return None
        p = st.poly
        out = []
        a, b = list(a), list(b)
        while a and b:
            (xl, xh, xa), (yl, yh, ya) = a[0], b[0]
            at = xa ^ ya if not (set(q for q, d in xa) & set(q for q, d in ya)) else self.canon_atoms(st, xa) ^ self.canon_atoms(st, ya)
            bytesat = [q for q, d in at if q[0] == "byte"]
            if len(bytesat) > 1:
                c = 0
                for q in bytesat:
                    c ^= q[1]
                at = frozenset((q, d) for q, d in at if q[0] != "byte") | (frozenset([(("byte", c), Lin(0))]) if c else frozenset())
            if p.entails_eq0(xh - yh):
                out.append((xl, xh, at))
                a.pop(0)
                b.pop(0)
            elif p.entails_ge0(yh - xh):
                out.append((xl, xh, at))
                a.pop(0)
                b[0] = (xh, yh, ya)
            elif p.entails_ge0(xh - yh):
                out.append((xl, yh, at))
                b.pop(0)
                a[0] = (yh, xh, xa)
            else:
                return None
        if a or b:
            return None
        return out

    def mutates(self, st, s, node):
        """hook point: the bytes of s are about to be written"""
        h = self.hooks.get("mutate")
        if h:
            r = h(self, st, s, node)
            if r is not None:
                return r
        return st

    def opq_attr(self, st, o, name):
        return Lin.var("%s.%s" % (name, o.id))

    # ----------------------------------------------------- outcomes
    def bind(self, outs, f):
        res = []
        for o in outs:
            if o.exn:
                res.append(o)
            else:
                res.extend(f(o.st, o.val))
        return self.compact(res)

    def compact(self, outs):
        oks = [o for o in outs if not o.exn]
        exs = [o for o in outs if o.exn]
        if len(exs) > 12:
            by = {}
            for o in exs:
                k = repr(o.val)
                k = k.split("#")[0]
                by.setdefault(k, []).append(o)
            exs = []
            for k, l in by.items():
                exs.append(self.join_outs(l) if len(l) > 4 else None)
                if exs[-1] is None:
                    exs.pop()
                    exs.extend(l)
        if len(oks) > self.max_outs:
            groups = {}
            for o in oks:
                groups.setdefault(self.shape(o.val), []).append(o)
            oks = [self.join_outs(l) for l in groups.values()]
        return oks + exs

    def shape(self, v):
        if isinstance(v, Con):
            return ("con", v.name, tuple(self.shape(x) for x in v.args))
        if isinstance(v, B):
            return ("b", v.c if v.c in (TRUE, FALSE) else "?")
        if isinstance(v, Tup):
            return tuple(self.shape(x) for x in v.vs)
        if isinstance(v, Obj):
            return ("obj", v.oid)
        return type(v).__name__

    def join_outs(self, outs):
        if len(outs) == 1:
            return outs[0]
        exn = outs[0].exn
        st, vals = self.merge([(o.st, [o.val]) for o in outs], {}, "j")
        return Out(st, vals[0], exn)

    # ----------------------------------------------------- merging states
    def merge(self, items, phi, tag):
        """items: list of (st, [vals]).  phi: slot -> var name (stable across
        iterations; extended in place).  Returns (st, vals)."""
        m = Merger(self, [i[0] for i in items], phi, tag)
        vals = []
        for i in range(len(items[0][1])):
            vals.append(m.val(("arg", i), [it[1][i] for it in items]))
        st = m.finish()
        return st, vals

    def fixpoint(self, st0, vals0, body, tag):
        """body(st, vals) -> list of (st, vals) back-edge states (and it records
        its own exits).  Returns when stable; the last call of body is the one
        whose recorded exits are valid."""
        phi = {}
        hist = {}
        cur = (st0, vals0)
        for it in range(40):
            backs = body(cur[0], cur[1])
            backs = [b for b in backs if not b[0].poly.is_bot()]
            if not backs:
                return
            rn = {v: fresh(v.split("#")[0] + "'") for v in phi.values()}
            backs = [(rename_state(s, rn), [rename_val(v, rn) for v in vs]) for s, vs in backs]
            before = dict(phi)
            items = [(st0, vals0)] + backs
            m = Merger(self, [i[0] for i in items], phi, tag)
            if it > 0:
                m.prev = (cur[0].poly, len(phi))
            vals = [m.val(("arg", i), [x[1][i] for x in items]) for i in range(len(vals0))]
            st = m.finish()
            if len(before) == len(phi) and pleq(st.poly, cur[0].poly) and same_shape(self, st, vals, cur[0], cur[1], phi):
                return
            if it >= 2 and len(before) == len(phi):
                st = st.with_poly(pwiden(cur[0].poly, st.poly, m.extra, hist))
            cur = (st, vals)
        raise Unsupported("no fixpoint reached for " + tag)

    # ----------------------------------------------------- evaluation
    def eval(self, e, env, st, tail=False):
        k = e[0]
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise Unsupported("expression %s at line %s" % (k, e[1]))
        return f(e, env, st, tail)

    def e_const(self, e, env, st, tail):
        c = e[2]
        if c[0] in ("int", "char"):
            return ok(st, Lin(c[1]))
        if c[0] in ("int64", "int32", "nativeint"):
            return ok(st, Lin(int(c[1])))
        if c[0] == "string":
            # a literal is one immutable static value: the same location each time
            loc = "K%d.%d" % tuple(e[1])
            if loc in st.heap:
                return ok(st, S(loc))
            return ok(*self.conststr(st, c[1], loc)[::-1])
        return ok(st, Opq(c[0]))

    def conststr(self, st, s, loc=None):
        segs = []
        b = s.encode("latin-1", "replace")
        i = 0
        while i < len(b):
            j = i
            while j < len(b) and b[j] == b[i]:
                j += 1
            segs.append((Lin(i), Lin(j), frozenset([(("byte", b[i]), Lin(0))]) if b[i] else frozenset()))
            i = j
        if loc is not None:
            st = st.copy()
            st.heap[loc] = Cell(Lin(len(b)), tuple(segs), dict(origin="const", text=s, kind="string"))
            return S(loc), st
        return self.alloc(st, len(b), tuple(segs), origin="const", text=s)

    def e_ident(self, e, env, st, tail):
        path, kind, prim = e[2], e[3], e[4]
        v = self.prog.lookup(path, env)
        if v is None:
            if path.startswith("Stdlib.") or path.startswith("Unix.") or path.startswith("Z."):
                return self.stdval(path, prim, e[5], st, e)
            head = path.split(".")[0]
            m = env.get(head)
            if isinstance(m, Mod) and not m.members:
                return self.stdval(m.name + path[len(head):], prim, e[5], st, e)
            raise Unsupported("unbound identifier %s at line %s" % (path, e[1]))
        return self.deref(v, st, e)

    def deref(self, v, st, e):
        if isinstance(v, Thunk):
            if v.node[0] == "fun":
                return ok(st, Clo(v.node, v.env))
            key = ("thunk", id(v.node))
            if v.node[0] == "ident":
                return self.eval(v.node, v.env, st)
            return self.eval(v.node, v.env, st)
        if isinstance(v, tuple) and v[0] == "proj":
            return self.bind(self.deref(v[1], st, e), lambda s, t: ok(s, t.vs[v[2]]))
        if isinstance(v, PrimV):
            if v.args or v.node is not None or v.name.startswith("%o"):
                return ok(st, v)
            return ok(st, PrimV(v.name, v.arity, (), e, v.ty))
        return ok(st, v)

    def stdval(self, path, prim, ty, st, e):
        if prim and not path.startswith("Z."):
            return ok(st, PrimV(prim[0], int(prim[2]), (), e, ty))
        consts = {"Stdlib.Sys.max_string_length": Lin(MAXSTR), "Stdlib.max_int": Lin(MAXINT),
                  "Stdlib.min_int": Lin(MININT), "Stdlib.Int64.max_int": Lin(I64MAX),
                  "Stdlib.Int64.min_int": Lin(I64MIN), "Stdlib.Int64.zero": Lin(0),
                  "Stdlib.Int64.one": Lin(1), "Stdlib.Int64.minus_one": Lin(-1)}
        if path in consts:
            return ok(st, consts[path])
        if path.startswith("Z.") and path not in ("Z.zero", "Z.one", "Z.minus_one"):
            args, res = parse_arrow(ty)
            return ok(st, PrimV(path, len(args), (), e, ty))
        if path in ("Z.zero", "Z.one", "Z.minus_one"):
            return ok(st, Opq("Z.t", "const:" + path, ("zconst", path)))
        args, res = parse_arrow(ty)
        if not args:
            v, st = self.unknown(st, ty, path.split(".")[-1])
            return ok(st, v)
        return ok(st, PrimV(path, len(args), (), e, ty))

    def e_let(self, e, env, st, tail):
        rec, vbs, body = e[2], e[3], e[4]
        if rec:
            env2 = Env(env, {})
            for vb in vbs:
                if vb[1][0] != "var" or vb[2][0] != "fun":
                    raise Unsupported("let rec of a non-function at line %s" % e[1])
                env2.d[vb[1][1]] = Clo(vb[2], env2)
            return self.eval(body, env2, st, tail)
        outs = [(st, [])]
        exns = []
        for vb in vbs:
            nxt = []
            for s, vals in outs:
                for o in self.eval(vb[2], env, s):
                    if o.exn:
                        exns.append(o)
                    else:
                        nxt.append((o.st, vals + [o.val]))
            outs = nxt
        res = list(exns)
        for s, vals in outs:
            cur = [(s, {})]
            for vb, v in zip(vbs, vals):
                nxt = []
                for s1, bd in cur:
                    ms, _no = self.match(s1, vb[1], v)
                    for s2, b2 in ms:
                        d = dict(bd)
                        d.update(b2)
                        nxt.append((s2, d))
                cur = nxt
            for s1, bd in cur:
                res.extend(self.eval(body, env.ext(bd), s1, tail))
        return self.compact(res)

    def e_fun(self, e, env, st, tail):
        return ok(st, Clo(e, env))

    def e_seq(self, e, env, st, tail):
        return self.bind(self.eval(e[2], env, st), lambda s, v: self.eval(e[3], env, s, tail))

    def e_if(self, e, env, st, tail):
        def k(s, v):
            c = self.tocond(v)
            res = []
            for s1 in self.assume(s, c, True):
                res.extend(self.eval(e[3], env, s1, tail))
            for s1 in self.assume(s, c, False):
                if e[4] is None:
                    res.append(Out(s1, UNIT))
                else:
                    res.extend(self.eval(e[4], env, s1, tail))
            return res
        return self.bind(self.eval(e[2], env, st), k)

    def tocond(self, v):
        if isinstance(v, B):
            return v.c
        if isinstance(v, Con) and v.name in ("true", "false"):
            return TRUE if v.name == "true" else FALSE
        return ("unk", getattr(v, "id", None) or fresh("b"))

    def e_constr(self, e, env, st, tail):
        name = e[2]
        if name == "true":
            return ok(st, B(TRUE))
        if name == "false":
            return ok(st, B(FALSE))
        if not e[3]:
            return ok(st, Con(name))
        return self.bind(self.evlist(e[3], env, st), lambda s, vs: ok(s, Con(name, vs.vs)))

    def evlist(self, es, env, st):
        outs = [Out(st, Tup(()))]
        for x in es:
            outs = self.bind(outs, lambda s, t: self.bind(self.eval(x, env, s), lambda s2, v: ok(s2, Tup(t.vs + (v,)))))
        return outs

    def e_tuple(self, e, env, st, tail):
        return self.evlist(e[2], env, st)

    def e_array(self, e, env, st, tail):
        def k(s, t):
            loc = fresh("A")
            s = s.copy()
            s.heap[loc] = RCell(tuple(t.vs), Lin(len(t.vs)))
            return ok(s, Arr(loc))
        return self.bind(self.evlist(e[2], env, st), k)

    def e_record(self, e, env, st, tail):
        def go(s, base):
            outs = [Out(s, Tup(()))]
            fl = [f for f in e[2] if f[0] == "set"]
            for f in fl:
                outs = self.bind(outs, lambda s1, t, f=f: self.bind(self.eval(f[2], env, s1), lambda s2, v: ok(s2, Tup(t.vs + (v,)))))

            def fin(s1, t):
                d = dict(base.d) if isinstance(base, Rec) else {}
                for f, v in zip(fl, t.vs):
                    d[f[1]] = v
                return ok(s1, Rec(d, e[4]))
            return self.bind(outs, fin)
        if e[3] is not None:
            return self.bind(self.eval(e[3], env, st), go)
        return go(st, None)

    def e_field(self, e, env, st, tail):
        def k(s, v):
            if isinstance(v, Rec) and e[3] in v.d:
                return ok(s, v.d[e[3]])
            raise Unsupported("field %s of %r at line %s" % (e[3], v, e[1]))
        return self.bind(self.eval(e[2], env, st), k)

    def e_setfield(self, e, env, st, tail):
        raise Unsupported("mutable record field at line %s" % e[1])

    def e_assert(self, e, env, st, tail):
        def k(s, v):
            c = self.tocond(v)
            res = [Out(s1, UNIT) for s1 in self.assume(s, c, True)]
            res += [Out(s1, Con("Assert_failure"), True) for s1 in self.assume(s, c, False)]
            return res
        return self.bind(self.eval(e[2], env, st), k)

    def e_lazy(self, e, env, st, tail):
        return ok(st, Opq("lazy"))

    def e_unreachable(self, e, env, st, tail):
        return []

    def e_match(self, e, env, st, tail):
        res = []
        for o in self.eval(e[2], env, st):
            if o.exn:
                cases = [(c[1][1], c) for c in e[3] if c[1][0] == "exception"]
                res.extend(self.cases(o.st, o.val, cases, env, tail, reraise=o))
            else:
                cases = [(c[1], c) for c in e[3] if c[1][0] != "exception"]
                res.extend(self.cases(o.st, o.val, cases, env, tail))
        return self.compact(res)

    def cases(self, st, v, cases, env, tail, reraise=None):
        res = []
        rest = [st]
        for pat, c in cases:
            nxt = []
            for s in rest:
                ms, no = self.match(s, pat, v)
                nxt.extend(no)
                for s1, bd in ms:
                    env1 = env.ext(bd)
                    if c[2] is not None:
                        for o in self.eval(c[2], env1, s1):
                            if o.exn:
                                res.append(o)
                                continue
                            cc = self.tocond(o.val)
                            for s2 in self.assume(o.st, cc, True):
                                res.extend(self.eval(c[3], env1, s2, tail))
                            nxt.extend(self.assume(o.st, cc, False))
                    else:
                        res.extend(self.eval(c[3], env1, s1, tail))
            rest = nxt
        if reraise is not None:
            for s in rest:
                res.append(Out(s, v, True))
        return res

    def e_try(self, e, env, st, tail):
        res = []
        for o in self.eval(e[2], env, st):
            if not o.exn:
                res.append(o)
            else:
                res.extend(self.cases(o.st, o.val, [(c[1], c) for c in e[3]], env, tail, reraise=o))
        return self.compact(res)

    # pattern matching: -> ([(st, bindings)], [st not matched])
    def match(self, st, p, v):
        k = p[0]
        if k == "any":
            return [(st, {})], []
        if k == "var":
            return [(st, {p[1]: v})], []
        if k == "alias":
            ms, no = self.match(st, p[1], v)
            return [(s, dict(b, **{p[2]: v})) for s, b in ms], no
        if k == "const":
            c = p[1]
            if c[0] in ("int", "char", "int64", "int32"):
                if isinstance(v, Lin):
                    cond = ("eq", v - int(c[1]))
                    return [(s, {}) for s in self.assume(st, cond, True)], self.assume(st, cond, False)
            return [(st, {})], [st]
        if k == "or":
            consts = self.const_set(p)
            if consts is not None and isinstance(v, Lin):
                return self.match_ranges(st, consts, v)
            ms, no = self.match(st, p[1], v)
            no2 = []
            for s in no:
                m2, n2 = self.match(s, p[2], v)
                ms = ms + m2
                no2.extend(n2)
            return ms, no2
        if k == "tuple":
            if isinstance(v, Tup):
                return self.match_seq(st, p[1], v.vs)
            raise Unsupported("tuple pattern on %r" % (v,))
        if k == "record":
            if isinstance(v, Rec):
                return self.match_seq(st, [f[2] for f in p[1]], [v.d[f[1]] for f in p[1]])
            raise Unsupported("record pattern on %r" % (v,))
        if k == "constr":
            name = p[1]
            if name in ("true", "false"):
                c = self.tocond(v)
                t = self.assume(st, c, name == "true")
                f = self.assume(st, c, name != "true")
                return [(s, {}) for s in t], f
            if isinstance(v, Unk):
                ms, no = [], []
                for s, c in self.force_unk(st, v):
                    a, b = self.match(s, p, c)
                    ms += a
                    no += b
                return ms, no
            if isinstance(v, Con):
                if v.name != name:
                    return [], [st]
                if len(p[2]) != len(v.args):
                    if len(p[2]) == 1 and p[2][0][0] == "any":
                        return [(st, {})], []
                return self.match_seq(st, p[2], v.args)
            if isinstance(v, Opq):
                # unknown exception / abstract value: may or may not match
                bd = {}
                s = st
                for sub in p[2]:
                    bd.update(self.havoc_pat(sub))
                return [(s, bd)], [st]
            raise Unsupported("constructor pattern %s on %r" % (name, v))
        raise Unsupported("pattern " + k)

    def havoc_pat(self, p):
        if p[0] == "var":
            return {p[1]: Opq(p[2])}
        d = {}
        for x in p[1:]:
            if isinstance(x, list) and x and isinstance(x[0], str):
                d.update(self.havoc_pat(x))
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, list) and y and isinstance(y[0], str):
                        d.update(self.havoc_pat(y))
        return d

    def match_seq(self, st, ps, vs):
        cur = [(st, {})]
        no = []
        for p, v in zip(ps, vs):
            nxt = []
            for s, b in cur:
                m, n = self.match(s, p, v)
                no.extend(n)
                for s2, b2 in m:
                    d = dict(b)
                    d.update(b2)
                    nxt.append((s2, d))
            cur = nxt
        return cur, no

    def const_set(self, p):
        if p[0] == "or":
            a = self.const_set(p[1])
            b = self.const_set(p[2])
            return None if a is None or b is None else a | b
        if p[0] == "const" and p[1][0] in ("int", "char"):
            return {int(p[1][1])}
        return None

    def match_ranges(self, st, consts, v):
        l = sorted(consts)
        ranges = []
        for c in l:
            if ranges and ranges[-1][1] == c - 1:
                ranges[-1][1] = c
            else:
                ranges.append([c, c])
        ms, no = [], []
        prev = None
        for a, b in ranges:
            p = st.poly.add_ge0(v - a).add_ge0(Lin(b) - v)
            if not p.is_bot():
                ms.append((st.with_poly(p), {}))
            q = st.poly.add_ge0(Lin(a - 1) - v)
            if prev is not None:
                q = q.add_ge0(v - prev - 1)
            if not q.is_bot():
                no.append(st.with_poly(q))
            prev = b
        q = st.poly.add_ge0(v - prev - 1)
        if not q.is_bot():
            no.append(st.with_poly(q))
        return ms, no

    # ------------------------------------------------------- loops
    def e_while(self, e, env, st, tail):
        exits = []

        def body(s, vals):
            exits.clear()
            backs = []
            for o in self.eval(e[2], env, s):
                if o.exn:
                    exits.append(o)
                    continue
                c = self.tocond(o.val)
                for s1 in self.assume(o.st, c, False):
                    exits.append(Out(s1, UNIT))
                for s1 in self.assume(o.st, c, True):
                    for o2 in self.eval(e[3], env, s1):
                        if o2.exn:
                            exits.append(o2)
                        else:
                            backs.append((o2.st, []))
            return backs
        self.fixpoint(st, [], body, "while@%s" % e[1][0])
        return self.compact(exits)

    def e_for(self, e, env, st, tail):
        var, upto, bodyn = e[2], e[5], e[6]

        def go(s, t):
            lo, hi = t.vs
            if not isinstance(lo, Lin) or not isinstance(hi, Lin):
                raise Unsupported("for bounds at line %s" % e[1])
            c0, c1 = s.poly.const_of(lo), s.poly.const_of(hi)
            exits = []
            step = 1 if upto else -1
            if c0 is not None and c1 is not None and abs(c1 - c0) <= 16:
                outs = [Out(s, UNIT)]
                for i in range(c0, c1 + step, step):
                    outs = self.bind(outs, lambda s1, v, i=i: self.eval(bodyn, env.ext({var: Lin(i)}), s1))
                return outs

            def body(s1, vals):
                exits.clear()
                i = vals[0]
                backs = []
                cond = ("ge", hi - i) if upto else ("ge", i - hi)
                for s2 in self.assume(s1, cond, False):
                    exits.append(Out(s2, UNIT))
                for s2 in self.assume(s1, cond, True):
                    for o in self.eval(bodyn, env.ext({var: i}), s2):
                        if o.exn:
                            exits.append(o)
                        else:
                            backs.append((o.st, [i + step]))
                return backs
            self.fixpoint(s, [lo], body, "for@%s" % e[1][0])
            return list(exits)
        return self.bind(self.evlist([e[3], e[4]], env, st), go)

    # ------------------------------------------------------- application
    def e_apply(self, e, env, st, tail):
        args = e[3]
        for a in args:
            if a[2] is None:
                return self.partial_apply(e, env, st)
        name = None
        f = e[2]
        # short-circuit operators
        if f[0] == "ident" and f[4]:
            name = f[4][0]
            if name in ("%sequand", "%sequor"):
                def k(s, a):
                    ca = self.tocond(a)
                    res = []
                    isand = name == "%sequand"
                    # evaluate the right operand only where it is reached
                    for s1 in self.assume(s, ca, isand):
                        for o in self.eval(args[1][2], env, s1):
                            res.append(o)
                    for s1 in self.assume(s, ca, not isand):
                        res.append(Out(s1, B(FALSE if isand else TRUE)))
                    return res
                # keep the condition symbolic when the right side is pure
                return self.bind(self.eval(args[0][2], env, st), lambda s, a: self.sc(name, a, args[1][2], env, s, k))
        if f[0] == "ident" and f[2] in ("Stdlib.@@", "Stdlib.|>"):
            pass
        # OCaml evaluates arguments right to left
        order = list(range(len(args)))[::-1]
        outs = [Out(st, {})]
        for i in order:
            nxt = []
            for o in outs:
                if o.exn:
                    nxt.append(o)
                    continue
                for o2 in self.eval(args[i][2], env, o.st):
                    if o2.exn:
                        nxt.append(o2)
                    else:
                        d = dict(o.val)
                        d[i] = o2.val
                        nxt.append(Out(o2.st, d))
            outs = nxt
        res = []
        for o in outs:
            if o.exn:
                res.append(o)
                continue
            vals = [o.val[i] for i in range(len(args))]
            if f[0] == "send":
                res.extend(self.do_send(f, env, o.st, vals, e, tail))
                continue
            for o2 in self.eval(f, env, o.st):
                if o2.exn:
                    res.append(o2)
                else:
                    res.extend(self.apply(o2.val, vals, o2.st, e, tail))
        return self.compact(res)

    def sc(self, name, a, right, env, st, k):
        ca = self.tocond(a)
        isand = name == "%sequand"
        d = self.decide(st, ca)
        if d is not None:
            if d != isand:
                return ok(st, B(TRUE if d else FALSE))
            return self.eval(right, env, st)
        if pure(right):
            # analyse the right operand in the state where it is evaluated
            sts = self.assume(st, ca, isand)
            if len(sts) == 1:
                outs = self.eval(right, env, sts[0])
                if len(outs) == 1 and not outs[0].exn and outs[0].st is sts[0]:
                    cb = self.tocond(outs[0].val)
                    return ok(st, B(("and" if isand else "or", ca, cb)))
        return k(st, a)

    def partial_apply(self, e, env, st):
        raise Unsupported("partial application with omitted labels at line %s" % e[1])

    def apply(self, f, vals, st, node, tail=False):
        vals = list(vals)
        if not vals:
            return ok(st, f)
        if isinstance(f, Clo):
            return self.apply_clo(f, vals, st, node, tail)
        if isinstance(f, PrimV):
            need = f.arity - len(f.args)
            if len(vals) < need:
                return ok(st, PrimV(f.name, f.arity, f.args + tuple(vals), f.node, f.ty))
            full = list(f.args) + vals[:need]
            outs = self.call_prim(f, full, st, node)
            if len(vals) > need:
                outs = self.bind(outs, lambda s, v: self.apply(v, vals[need:], s, node, tail))
            return outs
        if isinstance(f, NewV):
            al = list(f.args) + vals
            if len(al) < f.n:
                return ok(st, NewV(f.cdef, f.n, tuple(al)))
            outs = self.new_object(f.cdef, al[:f.n], st, node)
            return outs
        if isinstance(f, Opq):
            args, res = parse_arrow(f.ty)
            return self.call_prim(PrimV("%opaque_fun", len(vals), ty=f.ty if args else "('a->'a)"), vals, st, node)
        raise Unsupported("application of %r at line %s" % (f, node[1]))

    def apply_clo(self, f, vals, st, node, tail):
        fn = f.node
        # collect the curried parameters so that recursion is detected on full calls
        params = []
        n = fn
        while n[0] == "fun" and len(params) < len(vals):
            if len(n[4]) == 1 and n[4][0][2] is None:
                params.append((n[3], n[4][0][1]))
                n = n[4][0][3]
            else:
                break
        if len(params) < len(vals) and n[0] == "fun":
            # a multi-case function
            k = len(params)
            def fin(s, env):
                res = []
                v = vals[k]
                env = env.ext({n[3]: v})
                outs = self.cases(s, v, [(c[1], c) for c in n[4]], env, tail and len(vals) == k + 1)
                if len(vals) > k + 1:
                    outs = self.bind(outs, lambda s2, g: self.apply(g, vals[k + 1:], s2, node, tail))
                return outs
            return self.enter(f, fn, params, vals[:k], vals, st, node, tail, fin)
        if len(params) == len(vals):
            def fin(s, env):
                return self.eval(n, env, s, True)
            return self.enter(f, fn, params, vals, vals, st, node, tail, fin)
        k = len(params)

        def fin(s, env):
            return self.bind(self.eval(n, env, s, False), lambda s2, g: self.apply(g, vals[k:], s2, node, tail))
        return self.enter(f, fn, params, vals[:k], vals, st, node, tail, fin)

    def enter(self, f, fn, params, pvals, allvals, st, node, tail, fin):
        selfobj = f.env.get("%self")
        key = (id(fn), selfobj.oid if isinstance(selfobj, Obj) else None, len(allvals))
        # recursive call?
        idx = None
        for i in range(len(self.frames) - 1, -1, -1):
            if self.frames[i].key == key:
                idx = i
                break
        if idx is not None:
            fr = self.frames[idx]
            istail = tail and all(x.tail for x in self.frames[idx + 1:])
            fr.backs.append((st, list(allvals)))
            if istail:
                return []
            raise Unsupported("non-tail recursion at line %s" % node[1])
        fr = Frame(key, fn)
        fr.tail = tail
        result = []

        def run(s, vals):
            fr.backs = []
            cur = [(s, {})]
            for (pname, pat), v in zip(params, vals):
                nxt = []
                for s1, bd in cur:
                    ms, no = self.match(s1, pat, v)
                    for s2, b2 in ms:
                        d = dict(bd)
                        d[pname] = v
                        d.update(b2)
                        nxt.append((s2, d))
                cur = nxt
            outs = []
            for s1, bd in cur:
                outs.extend(fin(s1, f.env.ext(bd)))
            result[:] = outs
            return fr.backs
        self.frames.append(fr)
        try:
            backs = run(st, list(allvals))
            if backs:
                # loop: iterate on the entry state; fin must use updated values
                if len(params) != len(allvals):
                    raise Unsupported("recursion through a partial application at line %s" % node[1])
                self.fixpoint(st, list(allvals), lambda s, vs: list(run(s, vs)), "rec@%s" % fn[1][0])
        finally:
            self.frames.pop()
        return self.compact(list(result))

    # ------------------------------------------------------- objects
    def e_send(self, e, env, st, tail):
        return self.do_send(e, env, st, [], e, tail)

    def do_send(self, e, env, st, vals, node, tail):
        target, meth = e[2], e[3]
        mname = meth[1]
        if meth[0] == "anc":
            obj = env.get("%self")
            anc = env.get(target[2])
            m = anc.get(mname) if anc else None
            if m is None:
                raise Unsupported("super method %s at line %s" % (mname, e[1]))
            return self.call_method(obj, m, vals, st, node, tail, mname)

        def k(s, o):
            if isinstance(o, Obj):
                m = o.methods.get(mname)
                if m is None:
                    raise Unsupported("no method %s in %r" % (mname, o))
                return self.call_method(o, m, vals, s, node, tail, mname)
            if isinstance(o, dict):      # ancestor table used as a value
                return self.call_method(env.get("%self"), o[mname], vals, s, node, tail, mname)
            return self.opaque_send(o, mname, e[4], vals, s, node)
        return self.bind(self.eval(target, env, st), k)

    def call_method(self, obj, m, vals, st, node, tail, mname):
        mnode, menv = m
        h = self.hooks.get("method")
        if h:
            r = h(self, obj, mname, vals, st, node)
            if r is not None:
                return r
        env = menv.ext({"%self": obj})
        clo = Clo(mnode, env)
        return self.apply_clo(clo, [obj] + list(vals), st, node, tail)

    def opaque_send(self, o, mname, ty, vals, st, node):
        base = o.ty if isinstance(o, Opq) else "?"
        base = base.strip("<>").split("(")[0].split(".")[-1]
        h = self.opq_methods.get((base, mname)) or self.opq_methods.get(("*", mname))
        args, res = parse_arrow(ty)
        if res in ("'a", "?"):
            res = METHOD_RESULT.get(mname, res)
        if h is not None and len(vals) >= len(args):
            return h(self, st, o, vals, node)
        if len(vals) < len(args):
            return ok(st, PrimV("%opq_method", len(args), tuple(vals), (o, mname, ty, node)))
        return self.default_opaque(st, o, mname, args, res, vals, node)

    def default_opaque(self, st, o, mname, args, res, vals, node):
        st = st.event("opq", o.id if isinstance(o, Opq) else "?", mname, node[1][0])
        for v in vals:
            if isinstance(v, S):
                pass
        outs = []
        v, s = self.unknown(st, res, mname)
        outs.append(Out(s, v))
        outs.append(Out(st, Opq("exn"), True))
        return outs

    def e_instvar(self, e, env, st, tail):
        v = env.get(e[3])
        if v is not None:
            return self.deref(v, st, e)
        obj = env.get("%self")
        key = (obj.oid, e[2])
        if key not in st.fields:
            raise Unsupported("uninitialised instance variable %s at line %s" % (e[2], e[1]))
        return ok(st, st.fields[key])

    def e_setinstvar(self, e, env, st, tail):
        def k(s, v):
            obj = env.get("%self")
            s = s.copy()
            s.fields[(obj.oid, e[2])] = v
            return ok(s)
        return self.bind(self.eval(e[4], env, st), k)

    def e_new(self, e, env, st, tail):
        c = self.prog.lookup(e[2], env)
        if c is None:
            parts = e[2].split(".")
            v = self.prog.lookup(".".join(parts[:-1]), env)
            c = v.members.get("class " + parts[-1]) if isinstance(v, Mod) else None
        if not isinstance(c, ClassDef):
            # value and class of the same name: prefer the class
            parts = e[2].split(".")
            v = self.prog.lookup(".".join(parts[:-1]), env) if len(parts) > 1 else None
            c = v.members.get("class " + parts[-1]) if isinstance(v, Mod) else None
        if c is None:
            raise Unsupported("unknown class " + e[2])
        n = self.class_arity(c)
        if n == 0:
            return self.new_object(c, [], st, e)
        return ok(st, NewV(c, n))

    def find_class(self, path, env):
        parts = path.split(".")
        if len(parts) == 1:
            c = env.get(path)
        else:
            m = self.prog.lookup(".".join(parts[:-1]), env)
            c = m.members.get("class " + parts[-1]) if isinstance(m, Mod) else None
        if not isinstance(c, ClassDef):
            raise Unsupported("unknown class " + path)
        return c

    def class_arity(self, c):
        def ar(ce, env):
            k = ce[0]
            if k == "cfun":
                return 1 + ar(ce[5], env)
            if k == "clet":
                return ar(ce[5], env)
            if k == "capply":
                return ar(ce[2], env) - len(ce[3])
            if k == "cident":
                d = self.find_class(ce[2], env)
                return ar(d.node, d.env)
            return 0
        return ar(c.node, c.env)

    def class_params(self, c):
        """[(label, name, type)]"""
        def pr(ce, env):
            k = ce[0]
            if k == "cfun":
                ty = "'a"
                for v in ce[4]:
                    ty = v[2][5] if v[2][0] == "ident" else ty
                name = ce[3][1] if ce[3][0] == "var" else (ce[3][2] if ce[3][0] == "alias" else "arg")
                if ce[3][0] == "var":
                    ty = ce[3][2]
                return [(ce[2], strip(name), ty)] + pr(ce[5], env)
            if k == "clet":
                return pr(ce[5], env)
            if k == "capply":
                return pr(ce[2], env)[len(ce[3]):]
            if k == "cident":
                d = self.find_class(ce[2], env)
                return pr(d.node, d.env)
            return []
        return pr(c.node, c.env)

    def new_object(self, c, args, st, node):
        oid = fresh("O")
        obj = Obj(oid, c.qual)
        return self.build(c.node, c.env, list(args), st, obj, node, top=True)

    def build(self, ce, env, args, st, obj, node, top):
        """instantiate class expression into obj; outs with val=(obj', table)"""
        k = ce[0]
        if k == "cident":
            c = self.find_class(ce[2], env)
            return self.build(c.node, c.env, args, st, obj, node, top)
        if k == "capply":
            def f(s, t):
                return self.build(ce[2], env, list(t.vs) + args, s, obj, node, top)
            return self.bind(self.evlist([a[2] for a in ce[3]], env, st), f)
        if k == "cfun":
            if not args:
                raise Unsupported("class partially applied at line %s" % ce[1])
            res = []
            ms, _ = self.match(st, ce[3], args[0])
            for s, bd in ms:
                e1 = env.ext(bd)
                outs = [Out(s, e1)]
                for v in ce[4]:
                    outs = self.bind(outs, lambda s1, en, v=v: self.bind(self.eval(v[2], en, s1), lambda s2, x: ok(s2, en.ext({v[1]: x}))))
                res.extend(self.bind(outs, lambda s1, en: self.build(ce[5], en, args[1:], s1, obj, node, top)))
            return res
        if k == "clet":
            if ce[2]:
                env2 = Env(env, {})
                for vb in ce[3]:
                    env2.d[vb[1][1]] = Clo(vb[2], env2)
                outs = [Out(st, env2)]
            else:
                outs = [Out(st, env)]
                for vb in ce[3]:
                    def f(s, en, vb=vb):
                        r = []
                        for o in self.eval(vb[2], env, s):
                            if o.exn:
                                r.append(o)
                                continue
                            ms, _ = self.match(o.st, vb[1], o.val)
                            for s2, bd in ms:
                                r.append(Out(s2, en.ext(bd)))
                        return r
                    outs = self.bind(outs, f)
            for v in ce[4]:
                outs = self.bind(outs, lambda s1, en, v=v: self.bind(self.eval(v[2], en, s1), lambda s2, x: ok(s2, en.ext({v[1]: x}))))
            return self.bind(outs, lambda s1, en: self.build(ce[5], en, args, s1, obj, node, top))
        if k == "cstruct":
            return self.build_struct(ce[2], env, st, obj, node, top)
        raise Unsupported("class expression " + k)

    def build_struct(self, cs, env, st, obj, node, top):
        # own copy per outcome
        o0 = Obj(obj.oid, obj.cname)
        o0.methods = dict(obj.methods)
        o0.private = set(obj.private)
        o0.captured = list(obj.captured)
        o0.mut = set(obj.mut)
        selfnames = []
        p = cs[1]
        while p and p[0] == "alias":
            selfnames.append(p[2])
            p = p[1]
        if p and p[0] == "var":
            selfnames.append(p[1])
        outs = [Out(st, (o0, env, []))]
        for f in cs[2]:
            kind = f[0]
            if kind == "skip":
                continue
            if kind == "inherit":
                def g(s, t, f=f):
                    ob, en, inits = t
                    r = []
                    for o in self.build(f[2], env, [], s, ob, node, False):
                        if o.exn:
                            r.append(o)
                            continue
                        ob2 = o.val
                        en2 = en
                        if f[3]:
                            table = dict(ob2.methods)
                            en2 = en.ext({"%super " + f[3]: table})
                        r.append(Out(o.st, (ob2, en2, inits)))
                    return r
                outs = self.bind(outs, g)
            elif kind == "val":
                if f[5] is None:
                    continue

                def g(s, t, f=f):
                    ob, en, inits = t

                    if f[3]:
                        ob.mut.add(f[2])

                    def h(s2, v):
                        s3 = s2.copy()
                        s3.fields[(ob.oid, f[2])] = v
                        return ok(s3, t)
                    return self.bind(self.eval(f[5], env, s), h)
                outs = self.bind(outs, g)
            elif kind == "method":
                if f[4] is None:
                    continue

                def g(s, t, f=f):
                    ob, en, inits = t
                    ob2 = Obj(ob.oid, ob.cname)
                    ob2.methods = dict(ob.methods)
                    ob2.private = set(ob.private)
                    ob2.captured = ob.captured
                    ob2.mut = ob.mut
                    ob2.methods[f[2]] = (f[4], SuperEnv(en, selfnames))
                    if f[3]:
                        ob2.private.add(f[2])
                    else:
                        ob2.private.discard(f[2])
                    return ok(s, (ob2, en, inits))
                outs = self.bind(outs, g)
            elif kind == "init":
                def g(s, t, f=f):
                    ob, en, inits = t
                    return ok(s, (ob, en, inits + [(f[2], SuperEnv(en, selfnames))]))
                outs = self.bind(outs, g)

        def fin(s, t):
            ob, en, inits = t
            ob.captured = list(ob.captured) + [en]
            r = [Out(s, ob)]
            if inits:
                # initialisers run once the whole object is built
                INITS.setdefault(ob.oid, []).extend(inits) if not top else None
            if top:
                todo = INITS.pop(ob.oid, []) + inits
                for nd, ie in todo:
                    r = self.bind(r, lambda s2, o2, nd=nd, ie=ie: self.bind(
                        self.apply_clo(Clo(nd, ie.ext({"%self": o2})), [o2], s2, nd, False),
                        lambda s3, _v: ok(s3, o2)))
            return r
        return self.bind(outs, fin)

    def e_object(self, e, env, st, tail):
        obj = Obj(fresh("O"), "object@%s" % e[1][0])
        return self.build_struct(e[2], env, st, obj, e, True)

    def e_letmodule(self, e, env, st, tail):
        raise Unsupported("local module at line %s" % e[1])

    def e_override(self, e, env, st, tail):
        raise Unsupported("object override at line %s" % e[1])

    # ------------------------------------------------------- primitives
    def call_prim(self, f, args, st, node):
        name = f.name
        h = self.prims.get(name)
        if h is not None:
            return h(self, st, args, node)
        h = self.ext.get(name)
        if h is not None:
            return h(self, st, args, node)
        if name == "%opaque_fun":
            ats, res = parse_arrow(f.ty or "('a->'a)")
            st = st.event("opqfun", node[1][0])
            v, s = self.unknown(st, res, "res")
            return [Out(s, v), Out(st, Opq("exn"), True)]
        if name == "%opq_method":
            o, mname, ty, nd = f.node
            return self.opaque_send(o, mname, ty, args, st, node)
        # unmodelled library function: result unknown, byte arguments clobbered
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        ats, res = parse_arrow(f.ty or "?")
        s = st
        for a in args:
            if isinstance(a, S):
                c = s.heap[a.loc]
                if c.meta.get("kind") != "string":
                    s = s.copy()
                    s.heap[a.loc] = c.with_segs(None)
        v, s = self.unknown(s, res, name.split(".")[-1])
        return [Out(s, v), Out(s, Opq("exn"), True)]


# result types of the public class types' methods (used when a function is
# polymorphic in the object it is given)
METHOD_RESULT = {"get_string": "string", "result": "string", "finish_and_get_tag": "string",
                 "tag_size": "int", "hash_size": "int", "blocksize": "int", "available_output": "int",
                 "input_block_size": "int", "output_block_size": "int", "get_char": "char",
                 "get_byte": "int", "get_substring": "(bytes*int*int)", "wipe": "unit",
                 "put_string": "unit", "put_substring": "unit", "put_char": "unit", "put_byte": "unit",
                 "add_string": "unit", "add_substring": "unit", "add_char": "unit", "add_byte": "unit",
                 "flush": "unit", "finish": "unit", "transform": "unit", "random_bytes": "unit"}
INITS = {}
PEND = {}


class SuperEnv(Env):
    """environment of a method: knows the super tables and self names"""
    __slots__ = ("selfnames",)

    def __init__(self, en, selfnames):
        Env.__init__(self, en, {})
        self.selfnames = selfnames

    def get(self, k):
        e = self.up
        v = e.get(k)
        if v is None and k in self.selfnames:
            return e.get("%self")
        if v is None and k:
            v = e.get("%super " + strip(k))
        return v


def _envget(self, k):
    e = self
    sup = None
    while e is not None:
        if k in e.d:
            return e.d[k]
        if isinstance(e, SuperEnv):
            v = e.up.get(k)
            if v is not None:
                return v
            if k in e.selfnames:
                return self.get("%self")
            return e.up.get("%super " + strip(k))
        e = e.up
    return None


Env.get = _envget
SuperEnv.get = _envget
Obj.__slots__  # keep


def shift(at, d):
    """move atoms when the window origin moves by d (delta += d)"""
    d = Lin.of(d)
    if d.is_const() and d.c == 0:
        return at
    return frozenset((q, Lin(0) if q[0] == "byte" else x + d) for q, x in at)


PURE_PRIMS = {"%equal", "%notequal", "%lessthan", "%lessequal", "%greaterthan", "%greaterequal",
              "%addint", "%subint", "%string_length", "%bytes_length", "%boolnot", "%sequand", "%sequor",
              "%andint", "%mulint", "%modint", "%compare"}


def pure(e):
    k = e[0]
    if k in ("const", "ident", "instvar"):
        return True
    if k == "apply":
        f = e[2]
        return f[0] == "ident" and f[4] is not None and f[4][0] in PURE_PRIMS and \
            all(a[2] is not None and pure(a[2]) for a in e[3])
    if k == "field":
        return pure(e[2])
    if k == "constr":
        return all(pure(x) for x in e[3])
    return False


# ------------------------------------------------------------ renaming
def rename_val(v, rn):
    if not rn:
        return v
    if isinstance(v, Lin):
        return v.rename(rn)
    if isinstance(v, B):
        return B(rename_cond(v.c, rn))
    if isinstance(v, Tup):
        return Tup([rename_val(x, rn) for x in v.vs])
    if isinstance(v, Con):
        return Con(v.name, [rename_val(x, rn) for x in v.args]) if v.args else v
    if isinstance(v, tuple):
        return tuple(rename_val(x, rn) for x in v)
    return v


def rename_cond(c, rn):
    k = c[0]
    if k in ("ge", "eq"):
        return (k, c[1].rename(rn))
    if k in ("and", "or"):
        return (k, rename_cond(c[1], rn), rename_cond(c[2], rn))
    if k == "not":
        return (k, rename_cond(c[1], rn))
    return c


def rename_seq(q, rn):
    """terms mention integer variables: rename inside"""
    if isinstance(q, Lin):
        return q.rename(rn)
    if isinstance(q, tuple):
        return tuple(rename_seq(x, rn) for x in q)
    if isinstance(q, frozenset):
        return frozenset(rename_seq(x, rn) for x in q)
    return q


def seq_vars(q, acc):
    if isinstance(q, Lin):
        acc.update(q.vars())
    elif isinstance(q, (tuple, frozenset)):
        for x in q:
            seq_vars(x, acc)
    return acc


def rename_state(st, rn):
    if not rn:
        return st
    s = st.copy()
    s.poly = st.poly.rename(rn)
    for k, v in st.fields.items():
        s.fields[k] = rename_val(v, rn)
    for k, c in st.heap.items():
        if isinstance(c, Cell):
            if c.vars().isdisjoint(rn):
                continue
            segs = c.segs
            if segs is not None:
                segs = tuple((a.rename(rn), b.rename(rn), frozenset((rename_seq(q, rn), d.rename(rn)) for q, d in at)) for a, b, at in segs)
            s.heap[k] = Cell(c.len.rename(rn), segs, {a: rename_seq(b, rn) for a, b in c.meta.items()})
        else:
            s.heap[k] = RCell(rename_val(c.val, rn), c.len.rename(rn) if c.len is not None else None)
    for k, v in st.ghost.items():
        s.ghost[k] = rename_val(v, rn) if not isinstance(v, tuple) else rename_seq(v, rn)
    known = {}
    for k, v in st.known.items():
        if isinstance(k, tuple):
            k = rename_seq(k, rn)
        elif k.startswith("chr:"):
            k = "chr:" + rn.get(k[4:], k[4:])
        known[k] = rename_val(v, rn) if isinstance(v, (V, Lin)) else rename_seq(v, rn)
    s.known = known
    return s


class Merger:
    """Join of several states; integers that differ become phi variables."""

    def __init__(self, interp, states, phi, tag):
        self.I = interp
        self.sts = [s.copy() for s in states]
        self.polys = [s.poly for s in states]
        self.phi = phi
        self.tag = tag
        self.locmap = {}
        self.newheap = {}
        self.done = set()
        self.phivars = []
        self.relvars = set()
        self.prev = None

    def lin(self, slot, es):
        cs = [p.canon(e) for p, e in zip(self.polys, es)]
        if slot not in self.phi:
            if all(e == es[0] for e in es):
                return es[0]
            if all(c == cs[0] for c in cs) and all(v in s.poly.vars() or True for s in self.sts for v in cs[0].vars()):
                if cs[0].is_const():
                    return cs[0]
            self.phi[slot] = fresh("p_%s" % "_".join(str(x).split("#")[0] for x in slot[:3]))
        v = self.phi[slot]
        for i, e in enumerate(es):
            self.polys[i] = self.polys[i].add_eq0(Lin.var(v) - e)
            self.relvars.update(e.vars())
        self.phivars.append(v)
        return Lin.var(v)

    def val(self, slot, vs):
        v0 = vs[0]
        if all(v is v0 for v in vs):
            if isinstance(v0, S):
                self.cell(v0.loc, [v.loc for v in vs])
            return v0
        if all(isinstance(v, Lin) for v in vs):
            return self.lin(slot, vs)
        if all(isinstance(v, S) for v in vs):
            locs = tuple(v.loc for v in vs)
            if all(l == locs[0] for l in locs):
                return v0
            return S(self.philoc(slot, locs))
        if all(isinstance(v, Tup) for v in vs) and len(set(len(v.vs) for v in vs)) == 1:
            return Tup([self.val(slot + (i,), [v.vs[i] for v in vs]) for i in range(len(v0.vs))])
        if all(isinstance(v, Con) for v in vs) and all(v.name == v0.name and len(v.args) == len(v0.args) for v in vs):
            if not v0.args:
                return v0
            return Con(v0.name, [self.val(slot + (i,), [v.args[i] for v in vs]) for i in range(len(v0.args))])
        if all(isinstance(v, B) for v in vs):
            if all(v.c == v0.c for v in vs):
                return v0
            key = slot + ("bool",)
            if key not in self.phi:
                self.phi[key] = fresh("b_phi")
            return B(("unk", self.phi[key]))
        if all(isinstance(v, Obj) for v in vs) and len(set(v.oid for v in vs)) == 1:
            return v0
        if all(isinstance(v, (Ref, Arr)) for v in vs) and len(set(v.loc for v in vs)) == 1:
            return v0
        if all(isinstance(v, Clo) and v.node is v0.node for v in vs):
            return v0
        if all(isinstance(v, (Opq,)) for v in vs):
            if len(set(v.id for v in vs)) == 1:
                return v0
            return Opq(v0.ty, "phi:" + str(slot))
        if all(isinstance(v, PrimV) and v.name == v0.name for v in vs):
            return v0
        if all(isinstance(v, Rec) for v in vs):
            return Rec({l: self.val(slot + (l,), [v.d[l] for v in vs]) for l in v0.d}, v0.ty)
        if all(isinstance(v, (Con, Unk)) for v in vs):
            if all(isinstance(v, Unk) and v.id == v0.id for v in vs):
                return v0
        return Opq("?", "phi:" + str(slot))

    def philoc(self, slot, locs):
        key = locs
        if key in self.locmap:
            return self.locmap[key]
        skey = slot + ("loc",)
        if skey not in self.phi:
            self.phi[skey] = fresh("LP")
        m = self.phi[skey]
        self.locmap[key] = m
        cells = [s.heap[l] for s, l in zip(self.sts, locs)]
        ln = self.lin(slot + ("len",), [c.len for c in cells])
        segs = self.segs(slot, [c.segs for c in cells], ln)
        meta = {k: v for k, v in cells[0].meta.items() if all(c.meta.get(k) == v for c in cells)}
        self.newheap[m] = Cell(ln, segs, meta)
        return m

    def segs(self, slot, ss, ln):
        if any(x is None for x in ss):
            return None
        if all(x == ss[0] for x in ss):
            return ss[0]
        I = self.I
        norm = []
        for s, p, x in zip(self.sts, self.polys, ss):
            l = [q for q in x if not p.entails_eq0(q[1] - q[0])]
            norm.append(l)
        shapes = [tuple(frozenset(q for q, d in at) for lo, hi, at in l) for l in norm]
        if any(sh != shapes[0] for sh in shapes):
            al = self.align(norm, shapes)
            if al is None:
                return None
            norm = al
        out = []
        lo = Lin(0)
        n = len(norm[0])
        for i in range(n):
            hi = ln if i == n - 1 else self.lin(slot + ("seg", i), [l[i][1] for l in norm])
            ats = [l[i][2] for l in norm]
            at = set()
            for q in sorted(set(q for q, d in ats[0]), key=repr):
                ds = [dict(a)[q] for a in ats]
                if q[0] in ("byte", "junk"):
                    at.add((q, Lin(0)))
                else:
                    at.add((q, self.lin(slot + ("d", i, repr(q)), ds)))
            out.append((lo, hi, frozenset(at)))
            lo = hi
        return tuple(out)

    def align(self, norm, shapes):
        """junk segments (unknown bytes) may be renamed; other differences fail"""
        def key(at):
            return "junk" if any(q[0] == "junk" for q, d in at) else frozenset(q for q, d in at)
        ks = [tuple(key(s[2]) for s in l) for l in norm]
        if all(k == ks[0] for k in ks):
            j = [frozenset([(("junk", "jphi"), Lin(0))]) if k == "junk" else None for k in ks[0]]
            return [[(s[0], s[1], j[i] if j[i] is not None else s[2]) for i, s in enumerate(l)] for l in norm]
        return None

    def cell(self, loc, locs):
        pass

    def finish(self):
        sts = self.sts
        base = sts[0].copy()
        base.trace = common_prefix([s.trace for s in sts])
        # object fields
        keys = set(sts[0].fields)
        for s in sts[1:]:
            keys &= set(s.fields)
        allkeys = set()
        for s in sts:
            allkeys |= set(s.fields)
        fields = {}
        for k in sorted(keys):
            fields[k] = self.val(("f",) + k, [s.fields[k] for s in sts])
        for k in allkeys - keys:
            for s in sts:
                if k in s.fields:
                    fields[k] = s.fields[k]
                    break
        gk = set(sts[0].ghost)
        for s in sts[1:]:
            gk &= set(s.ghost)
        ghost = {}
        for k in sorted(gk, key=str):
            gv = [s.ghost[k] for s in sts]
            if any(isinstance(v, tuple) for v in gv):
                ghost[k] = gv[0] if all(v == gv[0] for v in gv) else ("?", "phi", k)
            else:
                ghost[k] = self.val(("g", k), gv)
        heap = {}
        hk = set()
        for s in sts:
            hk |= set(s.heap)
        for l in sorted(hk):
            have = [s.heap.get(l) for s in sts]
            if all(h is have[0] for h in have):
                heap[l] = have[0]
                continue
            if any(h is None for h in have):
                heap[l] = next(h for h in have if h is not None)
                continue
            if isinstance(have[0], Cell):
                ln = have[0].len if all(h.len == have[0].len for h in have) else self.lin(("hl", l), [h.len for h in have])
                meta = {k: v for k, v in have[0].meta.items() if all(h.meta.get(k) == v for h in have)}
                heap[l] = Cell(ln, self.segs(("h", l), [h.segs for h in have], ln), meta)
            else:
                if have[0].len is not None:
                    heap[l] = RCell(self.arrval(("ra", l), [h.val for h in have]), have[0].len)
                else:
                    heap[l] = RCell(self.val(("r", l), [h.val for h in have]), None)
        heap.update(self.newheap)
        known = {}
        for k, v in sts[0].known.items():
            if all(k in s.known and (s.known[k] is v or s.known[k] == v) for s in sts):
                known[k] = v
        base.fields, base.ghost, base.heap, base.known = fields, ghost, heap, known
        # polyhedra
        extra = []
        pv = list(dict.fromkeys(self.phivars))
        rel = set(self.relvars)
        for c in heap.values():
            if isinstance(c, Cell):
                rel.update(c.len.vars())
        common = None
        rel = [v for v in rel if v not in pv]
        rel = sorted(rel)[:24]
        for i, v in enumerate(pv):
            x = Lin.var(v)
            extra += [x, -x]
            for w in pv[i + 1:] + rel:
                extra += [x - Lin.var(w), Lin.var(w) - x]
        self.extra = extra
        ps = self.polys
        if self.prev is not None and self.prev[1] == len(self.phi):
            old = self.prev[0]
            ps = [old] + [p for p in ps if not pleq(p, old)]
        base.poly = pjoin_many(ps, extra) if len(ps) > 1 else ps[0]
        return base

    def arrval(self, slot, vs):
        if all(isinstance(v, tuple) and len(v) == len(vs[0]) for v in vs):
            return tuple(self.val(slot + (i,), [v[i] for v in vs]) for i in range(len(vs[0])))
        if all(v is vs[0] for v in vs):
            return vs[0]
        return None


def common_prefix(ts):
    n = min(len(t) for t in ts)
    i = 0
    while i < n and all(t[i] is ts[0][i] or t[i] == ts[0][i] for t in ts):
        i += 1
    t = ts[0][:i]
    if any(len(x) > i for x in ts):
        t = t + (("merge",),)
    return t


def same_shape(I, st, vals, st2, vals2, phi):
    """the abstract values (other than integers, which the polyhedra compare) coincide"""
    own = set(phi.values())
    for k in st.fields:
        if k in st2.fields and not sv(st.fields[k], st2.fields[k]):
            return False
    for a, b in zip(vals, vals2):
        if not sv(a, b):
            return False
    for l, c in st.heap.items():
        d = st2.heap.get(l)
        if d is None:
            if l in own:
                return False
            continue
        if isinstance(c, Cell) and (c.segs is None) != (d.segs is None):
            return False
        if isinstance(c, Cell) and c.segs is not None and c.segs != d.segs:
            return False
    for k in st.ghost:
        if k in st2.ghost:
            a, b = st.ghost[k], st2.ghost[k]
            if isinstance(a, tuple) or isinstance(b, tuple):
                if a != b:
                    return False
            elif not sv(a, b):
                return False
    return True


def sv(a, b):
    if a is b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return a == b
    if isinstance(a, S) and isinstance(b, S):
        return a.loc == b.loc
    if isinstance(a, B) and isinstance(b, B):
        return a.c == b.c
    if isinstance(a, Con) and isinstance(b, Con):
        return a.name == b.name and len(a.args) == len(b.args) and all(sv(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, Tup) and isinstance(b, Tup):
        return all(sv(x, y) for x, y in zip(a.vs, b.vs))
    if isinstance(a, Opq) and isinstance(b, Opq):
        return a.id == b.id
    if isinstance(a, Rec) and isinstance(b, Rec):
        return all(sv(a.d[k], b.d.get(k)) for k in a.d)
    if type(a) is type(b):
        return True
    return False
