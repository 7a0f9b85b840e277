"""The public surface of the library, read from the compiled interface, and the
analysis tasks that cover it."""
import re
from . import oeval as O, classes as C
from .front import ToolError


def surface(prog):
    """-> (classes, values): qualified names exported by cryptokit.mli"""
    cls, vals = [], []

    def walk(q, items):
        for it in items:
            if it[0] == "val":
                vals.append((q + "." + it[1], it[2]))
            elif it[0] == "class":
                for n in it[1]:
                    cls.append(q + "." + n)
            elif it[0] == "module":
                walk(q + "." + it[1], it[2])
    walk("Cryptokit", prog.tree["Cryptokit:intf"])
    if not cls or not vals:
        raise ToolError("the compiled interface exports no classes or no values")
    return cls, vals


def call_value(I, name, ty, st=None, args=None, hook=None):
    """apply an exported function to unknown arguments -> (st, args, outs)"""
    st = st or O.St()
    f = I.prog.member(name)
    if f is None:
        raise ToolError("exported value %s has no definition" % name)
    I.type_ctx = name.rpartition(".")[0]
    outs = eval_value(I, f, st)
    tys, res = O.parse_arrow(ty)
    res_outs = []
    out_args = None
    for o in outs:
        if o.exn:
            res_outs.append(o)
            continue
        s = o.st
        if not tys:
            res_outs.append(O.Out(s, o.val))
            out_args = []
            continue
        if args is None:
            vs = []
            for i, t in enumerate(tys):
                s, v = C.unknown_arg(I, s, t, "%s_%d" % (name.split(".")[-1], i))
                vs.append(v)
        else:
            vs = args
        if hook:
            s, vs = hook(I, s, vs)
        out_args = vs
        node = value_node(I, f)
        res_outs += I.apply(o.val, vs, s, node)
    return st, out_args, res_outs


def value_node(I, f):
    if isinstance(f, O.Thunk):
        return f.node
    return ["ident", [0, 0]]


def eval_value(I, f, st):
    if isinstance(f, O.Thunk):
        return I.eval(f.node, f.env, st)
    return O.ok(st, f)


def norm(s):
    return re.sub(r"(#\d+)|(')", "", s)


class Sites:
    """line -> enclosing definition (module path, class, method)"""

    def __init__(self, prog):
        self.tab = []
        for mod in ("Cryptokit",):
            self.walk(mod, prog.tree[mod])
        self.tab.sort()

    def walk(self, q, items):
        for it in items:
            if it[0] == "value":
                for vb in it[3]:
                    p = vb[1]
                    n = O.strip(p[1]) if p[0] == "var" else "_"
                    self.tab.append((vb[2][1][0], q + "." + n))
            elif it[0] == "class":
                for cd in it[2]:
                    self.cls(q + "." + cd[2], cd[4])
            elif it[0] == "module":
                self.mod(q + "." + O.strip(it[2]), it[3])

    def mod(self, q, me):
        if me[0] == "mstruct":
            self.walk(q, me[1])
        elif me[0] == "mfunctor":
            self.mod(q, me[2])

    def cls(self, q, ce):
        if isinstance(ce, list):
            if ce and ce[0] == "cstruct":
                self.tab.append((ce[1][0] if isinstance(ce[1], list) and ce[1] else 0, q))
                self.fields(q, ce[2])
                return
            if ce and isinstance(ce[0], str) and len(ce) > 1 and isinstance(ce[1], list) and len(ce[1]) == 2 and all(isinstance(x, int) for x in ce[1]):
                self.tab.append((ce[1][0], q))
            for x in ce:
                if isinstance(x, list):
                    self.cls(q, x)

    def fields(self, q, cs):
        for f in cs[2]:
            if f[0] == "method" and f[4] is not None:
                self.tab.append((f[1][0] if isinstance(f[1], list) else f[4][1][0], q + "#" + f[2]))
            elif f[0] in ("val", "init", "inherit") and isinstance(f[1], list):
                self.tab.append((f[1][0], q))

    def at(self, where):
        m = re.match(r"(.*):(\d+)$", where)
        if not m:
            return where
        ln = int(m.group(2))
        best = "?"
        for l, n in self.tab:
            if l <= ln:
                best = n
            else:
                break
        return best


def sources(prog):
    """ways a user obtains objects: exported classes and exported functions"""
    cls, vals = surface(prog)
    return [("class", c, "") for c in cls] + [("value", n, t) for n, t in vals]


def objects(I, kind, name, ty):
    """[(obj, state, args, exns)] outcomes that yield an object"""
    if kind == "class":
        oks, exs, args = C.construct(I, name)
        return [(o.val, o.st, args) for o in oks if isinstance(o.val, O.Obj)], exs
    st, args, outs = call_value(I, name, ty)
    return [(o.val, o.st, args) for o in outs if not o.exn and isinstance(o.val, O.Obj)], [o for o in outs if o.exn]


def returns_object(prog, ty):
    """may a value of this (arrow) type return an object of the library?"""
    args, res = O.parse_arrow(ty)
    return res.split(".")[-1] in ("transform", "hash", "authenticated_transform", "rng", "block_cipher",
                                  "stream_cipher", "scheme", "length", "_8000") or res.startswith("<")
