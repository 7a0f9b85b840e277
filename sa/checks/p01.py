"""P01: windows handed to native code, proved by class invariants."""
from .. import run, oeval as O, classes as C, surface as S


def harvest(r, I):
    for kind, good, where, detail in I.obligations:
        r.ob(kind, good, where, S.norm(detail).split(" window")[0].split(":")[0] if kind == "window" else S.norm(detail),
             S.norm(detail))
    r.count("evaluated obligations", len(I.obligations))
    for k, n in I.unmodelled.items():
        r.count("unmodelled " + k, n)


def key_detail(kind, detail):
    return detail


def t_class(r, name):
    I = O.Interp(run.program())
    oks, exs, args = C.construct(I, name)
    if not oks:
        raise O.ToolError("class %s has no successful constructor outcome" % name)
    for o in oks:
        inv, calls = C.invariant(I, o.val, o.st)
        r.count("method invocations", len(calls))
    r.count("classes")
    harvest(r, I)


def t_value(r, name, ty, exported, part=0, parts=1):
    I = O.Interp(run.program())
    if any(m in name for m in (".RSA.", ".Paillier.", ".DH.")):
        I.max_outs = 3      # many irrelevant branches: join early
    st, args, outs = S.call_value(I, name, ty)
    objs = [o for o in outs if not o.exn and isinstance(o.val, O.Obj) and o.val.cname not in exported]
    for i, o in enumerate(objs):
        if i % parts == part:
            inv, calls = C.invariant(I, o.val, o.st)
            r.count("method invocations", len(calls))
    if part == 0:
        r.count("functions")
    harvest(r, I)


HEAVY = ["Base64", "aes_gcm", "Hexa", "RSA.new_key", "chapoly", "Paillier", "DH.new", "Block.cipher", "Zlib", "cmac"]


def parts(n):
    return 4 if ".AEAD." in n else 2 if ".Cipher." in n else 1


def check(ctx):
    prog = run.program()
    cls, vals = S.surface(prog)
    tasks = [(t_class, (c,)) for c in cls] + [
        (t_value, (n, ty, frozenset(cls), i, parts(n))) for n, ty in vals for i in range(parts(n))]
    tasks.sort(key=lambda t: min([i for i, h in enumerate(HEAVY) if h in t[1][0]] + [99]))
    ctx.run(tasks)
    ctx.need("classes", 12)
    ctx.need("functions", 50)
    ctx.explanation = (
        "Abstract interpretation of the typed tree: every exported class is constructed with arbitrary arguments and its public "
        "methods are applied in any order, any number of times, with arbitrary arguments (class invariant, polyhedra with widening, "
        "63-bit overflow modelled); every exported function is applied to arbitrary arguments. At every call of a native primitive or "
        "unchecked access the window/size/context precondition must be entailed.")
