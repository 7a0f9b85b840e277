"""Class-level analysis: constructor states, then a fixpoint over every public
method called in any order with any arguments (the class invariant)."""
from .poly import Lin, Poly, fresh
from . import oeval as O

BSMAX = 1 << 20      # blocksize of an abstract block cipher


def reach(I, st, roots):
    """heap locations, object ids and values reachable from roots"""
    locs, objs, envs, lins = set(), {}, set(), set()
    vals = set()
    work = list(roots)
    while work:
        v = work.pop()
        if isinstance(v, Lin):
            lins.update(v.vars())
        elif isinstance(v, O.S):
            if v.loc in locs:
                continue
            locs.add(v.loc)
        elif isinstance(v, (O.Ref, O.Arr)):
            if v.loc in locs:
                continue
            locs.add(v.loc)
            c = st.heap.get(v.loc)
            if c is not None:
                if isinstance(c.val, tuple):
                    work.extend(c.val)
                elif c.val is not None:
                    work.append(c.val)
        elif isinstance(v, O.Tup):
            work.extend(v.vs)
        elif isinstance(v, O.Con):
            work.extend(v.args)
        elif isinstance(v, O.Rec):
            work.extend(v.d.values())
        elif isinstance(v, O.PrimV):
            work.extend(v.args)
            if isinstance(v.node, tuple):
                work.append(v.node[0])
        elif isinstance(v, O.NewV):
            work.extend(v.args)
        elif isinstance(v, O.Clo):
            work.append(v.env)
        elif isinstance(v, O.Env):
            e = v
            while e is not None and id(e) not in envs:
                envs.add(id(e))
                for k, x in e.d.items():
                    if isinstance(x, (O.V, Lin, dict, O.Env)):
                        work.append(x)
                e = e.up
        elif isinstance(v, dict):
            for m in v.values():
                if isinstance(m, tuple):
                    work.append(m[1])
        elif isinstance(v, O.Obj):
            if v.oid in objs:
                continue
            objs[v.oid] = v
            for (oid, f), x in st.fields.items():
                if oid == v.oid:
                    work.append(x)
            for m in v.methods.values():
                work.append(m[1])
        elif isinstance(v, (O.Opq,)):
            vals.add(v.id)
            lins.add("blocksize." + v.id)
        elif isinstance(v, O.Unk):
            k = st.known.get(v.id)
            vals.add(v.id)
            if k is not None:
                work.append(k)
        elif isinstance(v, O.B):
            lins.update(condvars(v.c))
            if v.c[0] == "unk":
                vals.add(v.c[1])
    return locs, objs, vals, lins


def condvars(c):
    if c[0] in ("ge", "eq"):
        return c[1].vars()
    out = []
    for x in c[1:]:
        if isinstance(x, tuple):
            out += condvars(x)
    return out


def gc(I, st, roots):
    locs, objs, vals, lins = reach(I, st, roots)
    s = st.copy()
    s.heap = {l: c for l, c in st.heap.items() if l in locs}
    s.fields = {k: v for k, v in st.fields.items() if k[0] in objs}
    s.trace = ()
    keep = set(lins)
    for c in s.heap.values():
        if isinstance(c, O.Cell):
            keep.update(c.len.vars())
            for lo, hi, at in c.segs or ():
                keep.update(lo.vars())
                keep.update(hi.vars())
                for q, d in at:
                    keep.update(d.vars())
                    O.seq_vars(q, keep)
    g = {}
    for k, v in st.ghost.items():
        if isinstance(k, tuple) and k[0] in ("ks", "absorbed", "wiped") and k[1] not in locs and k[1] not in vals:
            continue
        g[k] = v
        if isinstance(v, Lin):
            keep.update(v.vars())
        elif isinstance(v, tuple):
            O.seq_vars(v, keep)
    s.ghost = g
    s.known = {k: v for k, v in st.known.items() if not isinstance(k, tuple) and (k in vals)}
    for v in s.known.values():
        if isinstance(v, Lin):
            keep.update(v.vars())
    s.poly = st.poly.project(lambda v: v in keep)
    return s


class Analysed:
    def __init__(self, cname):
        self.cname = cname
        self.instances = []      # (obj, invariant state, init state, args)
        self.ctor_exn = []
        self.results = {}        # method -> list of (inst index, entry st, args, outs)


def method_sig(obj, m):
    """argument types of a method, result type"""
    node = obj.methods[m][0]
    ty = node[5] if node[0] == "fun" else "?"
    args, res = O.parse_arrow(ty)
    return args[1:], res      # drop self


def unknown_arg(I, st, ty, hint):
    v, st = I.unknown(st, ty, hint)
    return assume_attr(I, st, v), v


def assume_attr(I, st, v):
    if isinstance(v, O.Opq):
        base = v.ty.strip("<>").split("(")[0].split(".")[-1]
        if base == "block_cipher":
            bs = I.opq_attr(st, v, "blocksize")
            st = st.with_poly(st.poly.add_ge0(bs - 1).add_ge0(Lin(BSMAX) - bs))
    return st


def construct(I, cname, prep=None):
    """-> (ok outcomes [(obj, st, args)], exn outcomes, args)"""
    c = I.prog.get_class(cname)
    if c is None:
        raise O.ToolError("class %s not found" % cname)
    st = O.St()
    args = []
    params = I.class_params(c)
    for label, name, ty in params:
        st, v = unknown_arg(I, st, ty, name)
        args.append(v)
    if prep:
        st, args = prep(I, st, args, params)
    outs = I.new_object(c, args, st, c.node)
    # force option arguments inspected
    return [o for o in outs if not o.exn], [o for o in outs if o.exn], args


def public(obj):
    return sorted(m for m in obj.methods if m not in obj.private)


def call(I, obj, m, st, args=None):
    tys, res = method_sig(obj, m)
    if args is None:
        args = []
        for i, t in enumerate(tys):
            st, v = unknown_arg(I, st, t, "%s_%d" % (m, i))
            args.append(v)
    outs = I.call_method(obj, obj.methods[m], args, st, obj.methods[m][0], False, m)
    return st, args, outs


def invariant(I, obj, st0, methods=None, entry=None, after=None, maxit=30):
    """fixpoint; -> invariant state.  entry(I,obj,m,st)->(st,args) customises the
    call; after(I,obj,m,st,args,outs) inspects every outcome (called on every
    iteration: the last one is definitive)."""
    ms = methods or public(obj)
    final = {}

    def body(st, vals):
        final.clear()
        final["st"] = st
        final["calls"] = []
        backs = []
        for m in ms:
            s, args = st, None
            if entry:
                r = entry(I, obj, m, st)
                if r is None:
                    continue
                s, args = r
            s1, args, outs = call(I, obj, m, s, args)
            if after:
                after(I, obj, m, s1, args, outs)
            final["calls"].append((m, s1, args, outs))
            for o in outs:
                if o.st.poly.is_bot():
                    continue
                backs.append((gc(I, o.st, [obj]), []))
        return backs
    st0 = gc(I, st0, [obj])
    body0 = body

    def body(st, vals):
        return body0(gc(I, st, [obj]), vals)
    I.fixpoint(st0, [], body, "class " + obj.cname)
    return final["st"], final["calls"]


def havoc(I, st, obj, contents=True):
    """over-approximation of every state reachable from st through the object's
    methods: mutable integers, references and byte contents become unknown"""
    st = gc(I, st, [obj])
    locs, objs, vals, lins = reach(I, st, [obj])
    s = st.copy()
    for (oid, f), v in list(s.fields.items()):
        ob = objs.get(oid)
        if ob is not None and f in ob.mut:
            s.fields[(oid, f)] = None
            nv, s = havoc_val(I, s, v, f)
            s.fields[(oid, f)] = nv
    for l in list(s.heap):
        c = s.heap[l]
        if isinstance(c, O.RCell) and c.len is None:
            nv, s = havoc_val(I, s, c.val, "ref")
            s = s.copy()
            s.heap[l] = O.RCell(nv)
        elif isinstance(c, O.RCell):
            s = s.copy()
            s.heap[l] = O.RCell(None, c.len)
        elif contents and c.meta.get("kind") != "string" and c.meta.get("origin") != "const":
            s = s.copy()
            s.heap[l] = c.with_segs((I.junk(Lin(0), c.len),))
    for k in list(s.ghost):
        if isinstance(k, tuple) and k[0] in ("absorbed",):
            s.ghost[k] = ("?", fresh("hv"))
    return s


def havoc_val(I, s, v, hint):
    s = s.copy()
    if isinstance(v, Lin):
        return I.newvar(s, O.I64MIN, O.I64MAX, hint)
    if isinstance(v, O.B):
        return O.B(("unk", fresh("b_" + hint))), s
    if isinstance(v, O.S):
        # a buffer that the object may replace: some buffer of unknown length
        n, s = I.newvar(s, 0, O.MAXSTR, "len_" + hint)
        return I.alloc(s, n, (I.junk(Lin(0), n),), origin="new", kind="bytes")
    return v, s
