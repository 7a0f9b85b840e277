"""P14: OCaml declarations and C definitions of the primitives agree."""
from .. import front
from ..c import ir, native, units
from ..c.interp import Interp, Lin, L, Ptr, AnyPtr, State, Stuck, Dead, Split, Reg, term


def externals():
    """[(module, line, OCaml name, arity, bytecode symbol, native symbol, may allocate, argument types, result type, representations)]"""
    out = []
    def walk(mod, items):
        for it in items:
            if not isinstance(it, list) or not it:
                continue
            if it[0] == "external":
                _k, loc, name, ar, byte, native, alloc, _ty, tys, reps = it
                out.append((mod, loc[0], front.strip(name), ar, byte, native or byte, alloc, tys[:-1], tys[-1], reps))
            elif it[0] == "module":
                for x in it[3:]:
                    if isinstance(x, list):
                        sub(mod, x)
    def sub(mod, x):
        if x and isinstance(x[0], list):
            walk(mod, x)
        for y in x:
            if isinstance(y, list) and y and y[0] in ("mstruct", "mconstraint", "struct"):
                sub(mod, y)
            elif isinstance(y, list) and y and isinstance(y[0], list):
                walk(mod, y)
    for mod, items in front.load_ocaml().items():
        if not mod.endswith(":intf"):
            walk(mod, items)
    return out


def definitions():
    """symbol -> (harness, function) over all native sources"""
    defs = {}
    for h in units.harnesses():
        for f, d in units.module(h).funcs.items():
            if d.blocks and f.startswith("@caml_"):
                defs.setdefault(f[1:], []).append((h, d))
    return defs


def loc(m, f):
    for b in f.order:
        for i in f.blocks[b]:
            s = ir.Locs(m).loc(i.dbg)
            if s and ":" in s and not s.startswith("?"):
                return s.split(":")[0]
    return "?"


def values_of(f):
    return len(f.params)


def forwards(r, h, native, byte, arity):
    """the bytecode entry point passes argv[0 .. arity) in order and returns the result"""
    m = units.module(h)
    I = Interp(m)
    I.summarise = False
    st = State()
    st.regs["argv"] = Reg("argv", L(8 * arity), "c")
    toks = [term("arg", (k,), 64) for k in range(arity)]
    st.mem["argv"] = tuple((Lin(8 * k + 8), ("V", toks[k], 8)) for k in range(arity))
    seen = []
    res = term("result", (), 64)

    def hook(I_, s, args):
        seen.append(list(args))
        return [(s, res)]
    I.hooks["@" + native] = hook
    f = m.funcs["@" + byte]
    try:
        out = I.call("@" + byte, [Ptr("argv"), Lin(arity)][:len(f.params)], st)
    except Stuck as e:
        r.ob("forward", False, byte, "arguments", "the bytecode entry point does not just forward its arguments: %s" % e)
        return
    r.ob("forward", len(f.params) == 2, byte, "signature", "takes %d parameters instead of (argv, argn)" % len(f.params))
    bad = [o for k, o in I.obs.items() if not o[0]]
    r.ob("forward", not bad, byte, "reads argv within its %d entries" % arity, str(bad[:1]))
    r.ob("forward", len(seen) >= 1, byte, "calls " + native, "the bytecode entry point never calls it")
    for args in seen:
        for k in range(arity):
            ok = k < len(args) and args[k] is toks[k] or k < len(args) and args[k] == toks[k]
            r.ob("forward", ok, byte, "argument %d" % k, "passes %s" % (args[k] if k < len(args) else "nothing",))
        r.ob("forward", len(args) == arity, byte, "argument count", "passes %d arguments" % len(args))
    for _s, v in out:
        r.ob("forward", v == res, byte, "result", "does not return the result of " + native)


ALLOC = ("caml_alloc", "caml_raise", "caml_copy_", "caml_failwith", "caml_invalid_arg", "caml_callback", "caml_enter_blocking", "caml_check_urgent")


def allocates(h, f, seen=None):
    seen = seen if seen is not None else set()
    m = units.module(h)
    for b in f.order:
        for i in f.blocks[b]:
            if i.op == "call" and isinstance(i.x, tuple) and i.x[0] == "g":
                n = i.x[1]
                if n[1:].startswith(ALLOC):
                    return n[1:]
                if n not in seen and n in m.funcs and m.funcs[n].blocks:
                    seen.add(n)
                    q = allocates(h, m.funcs[n], seen)
                    if q:
                        return q
    return None


def t_decl(r):
    exts, defs = externals(), definitions()
    for mod, line, name, ar, byte, native, alloc, args, res, reps in exts:
        where = "%s.ml:%d" % (mod[0].lower() + mod[1:], line)
        r.stats["primitives"] = r.stats.get("primitives", 0) + 1
        ds = defs.get(native, [])
        r.ob("defined", bool(ds), where, native, "primitive %s has no native definition" % name)
        for h, f in ds:
            if ar == 1 and len(f.params) == 0:
                pass
            r.ob("arity", len(f.params) == ar, where, "%s in %s" % (native, h),
                 "declared with %d parameters, defined with %d" % (ar, len(f.params)))
            r.ob("signature", all(t.k in ("i", "ptr") and (t.k == "ptr" or t.n == 64) for t, _n in f.params), where, "%s in %s" % (native, h),
                 "a parameter is not an OCaml value")
            if not alloc:
                q = allocates(h, f)
                r.ob("noalloc", q is None, where, "%s in %s" % (native, h), "declared [@@noalloc] but calls %s" % q)
        r.ob("representation", all(x == "value" for x in reps), where, native, "unboxed or untagged representation is not that of the C code") \
            if any(x != "value" for x in reps) else None
        if ar > 5:
            r.ob("bytecode", byte != native, where, native, "more than five parameters but no bytecode entry point")
            bs = defs.get(byte, [])
            r.ob("defined", bool(bs), where, byte, "the bytecode entry point is not defined")
            for h, f in bs:
                forwards(r, h, native, byte, ar)
                r.stats["bytecode entry points"] = r.stats.get("bytecode entry points", 0) + 1
        elif byte != native:
            r.ob("bytecode", False, where, native, "separate bytecode entry point for at most five parameters") if byte not in defs else None


def is_imm(st, v):
    return isinstance(v, Lin) and v.c % 2 == 1 and all(c % 2 == 0 for _x, c in v.t)


def t_results(r, h, fn, limit, table):
    def on_return(I, st, name, args, v):
        ty = table.get(name[1:])
        if ty is None:
            return
        if isinstance(v, Lin):
            v = st.canon(v)
        if ty == "unit":
            I.ob("result", isinstance(v, Lin) and st.has_eq(v - 1), name[1:] + ": unit", "returns %r instead of Val_unit" % (v,))
        elif ty == "bool":
            ok = is_imm(st, v) and st.has_ge(v - 1) and st.has_ge(-v + 3)
            I.ob("result", ok, name[1:] + ": bool", "returns %r, not a tagged boolean" % (v,))
        elif ty == "int":
            I.ob("result", is_imm(st, v), name[1:] + ": int", "returns %r, not a tagged integer" % (v,))
        else:
            ok = isinstance(v, Ptr) and v.r in st.regs and st.regs[v.r].kind == "ml" and st.has_eq(v.o)
            if ok and ty in ("bytes", "string"):
                ok = not v.r.startswith(("block#", "custom#", "boxed#"))
            if ty.endswith("system_rng_handle") and is_imm(st, v):
                ok = True
            I.ob("result", ok, name[1:] + ": " + ty.split(".")[-1], "returns %r, not a heap block" % (v,))

    def prep(I):
        I.on_return = on_return
        I.record = True
    I = units.analyse(h, fn, limit, prep)
    units.collect(r, I, h, fn, {"result"})


def error_type():
    """constructors of the error type: constants by index, others by tag with arity"""
    for it in front.load_ocaml()["Cryptokit"]:
        if it[0] == "type":
            for d in it[2]:
                if d[0] == "decl" and front.strip(d[1]) == "error" and d[2][0] == "variant":
                    cs = [(c[1], c[2]) for c in d[2][1]]
                    return [n for n, a in cs if a == 0], [(n, a) for n, a in cs if a]
    return [], []


def registered():
    """names of the exceptions registered by the OCaml side"""
    out = set()
    def walk(x):
        if isinstance(x, list):
            if len(x) > 3 and x[0] == "apply" and "register_exception" in repr(x[2])[:200]:
                for s in strings(x):
                    out.add(s)
            for y in x:
                walk(y)
    def strings(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "string" and isinstance(x[1], str):
                yield x[1]
            for y in x:
                yield from strings(y)
    walk(front.load_ocaml()["Cryptokit"])
    return out


def t_errors(r, h, fn, want, limit, ctors, names):
    consts, blocks = ctors

    def prep(I):
        I.CAP = 400

        def raised(st, a):
            if I.raising == "caml_invalid_argument":
                return
            if I.raising in ("caml_raise_with_arg", "caml_raise_with_args", "caml_raise_constant"):
                exn, arg = a[0], (a[1] if I.raising == "caml_raise_with_arg" else None)
            elif I.raising == "caml_raise" and isinstance(a[0], Ptr):
                exn, arg = [I.load(st, Ptr(a[0].r, a[0].o + 8 * k, ep=st.gcn), ir.I[64]) for k in range(2)]
                I.ob("error", I.tags.get(a[0].r) == 0, "exception bucket", "the exception value has tag %s" % I.tags.get(a[0].r))
            else:
                I.ob("error", False, I.raising, "does not raise the library's error")
                return
            I.ob("error", isinstance(exn, Ptr) and exn.r.startswith("named"), "exception", "is not the registered exception")
            if isinstance(arg, Lin) and is_imm(st, arg) and not st.canon(arg).t:
                k = (st.canon(arg).c - 1) // 2
                got = consts[k] if 0 <= k < len(consts) else "constant %d" % k
            elif isinstance(arg, Ptr):
                t = I.tags.get(arg.r)
                n, ar = blocks[t] if t is not None and 0 <= t < len(blocks) else ("tag %s" % t, None)
                sz = st.regs[arg.r].size if arg.r in st.regs else None
                got = n if ar is not None and sz == Lin(8 * ar) else "%s with a block of %r bytes" % (n, sz)
                if got == n:
                    for k in range(ar):
                        v = I.load(st, Ptr(arg.r, arg.o + 8 * k, ep=st.gcn), ir.I[64])
                        I.ob("error", isinstance(v, Ptr) and v.r.startswith(("copy#", "result#")), "argument %d of %s" % (k, n), "is not a string")
            else:
                got = repr(arg)
            I.ob("error", got == want, "raises " + want, "the native code raises %s" % got)
        I.raised = raised

        def on_named(I, st, a):
            I.ob("error", a[0] in names, "registered exception name", "%r is not registered by the OCaml code (%s)" % (a[0], sorted(names)))

        def on_ret(I, st, a):
            I.ob("error", False, "raises " + want, "returns normally although compression is not supported")
        I.events = {"named-value": on_named, "returned": on_ret}
    I = units.analyse(h, fn, limit, prep)
    units.collect(r, I, h, fn, {"error"})


def check(ctx):
    exts = externals()
    table = {}
    for e in exts:
        table[e[5]] = e[8]
    ctors, names = error_type(), registered()
    if not ctors[0] or not names:
        ctx.errors.append("the error type or its registration was not found in cryptokit.ml")
    tasks = [(t_decl, ())]
    tasks += [(t_errors, ("zlib", fn, "Compression_error", 100, ctors, names)) for _h, fn in units.units(["zlib"])]
    tasks += [(t_errors, ("nozlib", fn, "Compression_not_supported", 100, ctors, names)) for _h, fn in units.units(["nozlib"])]
    tasks += [(t_results, (h, fn, 150, table)) for h, fn in units.units() if h not in ("nozlib",) + native.SPECIAL]
    ctx.run(tasks)
    ctx.need("primitives", 50)
    ctx.need("bytecode entry points", 3)
    ctx.need("rule result", 40)
    ctx.need("rule error", 6)
    ctx.explanation = ("every external declaration of the OCaml sources against the C definition of its symbol (arity, parameter kinds, "
                       "bytecode forwarding, noalloc), the value returned on every path of every primitive against its declared result "
                       "type, and every exception raised by the native code against the error type")
