"""Models of the functions the primitives call but the repository does not define:
OCaml runtime, C library, zlib, and the analyser's own intrinsics."""
from ..poly import Lin
from .interp import (EXTERNS, extern, Ptr, AnyPtr, Term, Cond, Dead, Stuck, Split, L, ZERO, T, T_UNINIT, top, term, UNK, TRUE, FALSE,
                     FnPtr, elt)


def cstring(I, st, p):
    if isinstance(p, Ptr) and st.regs[p.r].g:
        d = I.gdata(st.regs[p.r].g)
        if d is not None and not p.o.t:
            return d[p.o.c:].split(b"\0")[0].decode("latin1")
    return "?"


# ------------------------------------------------------------------ analyser intrinsics
@extern("sa_any")
def _(I, st, a):
    return top(64)


@extern("sa_flip")
def _(I, st, a):
    v = scripted(I, st)
    if v is not None:
        return Lin(v)
    s2 = st.clone()
    return [(st, Lin(0)), (s2, Lin(1))]


def scripted(I, st):
    """the choice of the current cell of the input partition, None = any"""
    if I.script is None:
        return None
    k = st.canon(st.ghost.get("#", Lin(0)))
    if k.t or k.c >= len(I.script):
        return None
    st.ghost["#"] = Lin(k.c + 1)
    return I.script[k.c]


@extern("sa_range")
def _(I, st, a):
    v = scripted(I, st)
    v = st.new("n") if v is None else Lin(v)
    st.ge(v - st.sig(a[0], 64))
    st.ge(st.sig(a[1], 64) - v)
    if st.poly.is_bot():
        raise Dead()
    return v


@extern("sa_assume")
def _(I, st, a):
    c = I.as_cond(st, a[0])
    return [(s, Lin(0)) for s in I.assume(st, c, True)] or dead()


def dead():
    raise Dead()


@extern("sa_prove")
def _(I, st, a):
    c = I.as_cond(st, a[0])
    I.ob(cstring(I, st, a[1]), not I.assume(st, c, False), "")


@extern("sa_bytes")
def _(I, st, a):
    n = st.sig(a[0], 64)
    rid = I.alloc(st, cstring(I, st, a[2]), n, "ml", st.sig(a[1], 32).c, T)
    return Ptr(rid, ep=st.gcn)


@extern("sa_seq")
def _(I, st, a):
    n = st.sig(a[0], 64)
    name = cstring(I, st, a[1])
    rid = I.alloc(st, name, n, "ml", st.sig(a[3], 32).c, ("S", frozenset([(name, st.canon(st.sig(a[2], 64)))]), 0))
    return Ptr(rid, ep=st.gcn)


@extern("sa_len")
def _(I, st, a):
    if isinstance(a[0], Ptr):
        return st.regs[a[0].r].size
    return top(64)


@extern("sa_expect_seq")
def _(I, st, a):
    """bytes [ofs, ofs+len) of v are name[base ..]"""
    v, o, n = a[0], st.sig(a[1], 64), st.sig(a[2], 64)
    name, base, rule = cstring(I, st, a[3]), st.sig(a[4], 64), cstring(I, st, a[5])
    ok, why = is_seq(I, st, v.r, st.canon(v.o + o), n, name, base)
    I.ob(rule, ok, name, why)


@extern("sa_stream")
def _(I, st, a):
    v, o, n = a[0], st.sig(a[1], 64), st.sig(a[2], 64)
    name, base, pos, rule = cstring(I, st, a[3]), st.sig(a[4], 64), st.sig(a[5], 64), cstring(I, st, a[6])
    want = {"KS": pos}
    if name:
        want[name] = base
    o = st.canon(v.o + o)
    parts = [] if st.has_eq(n) else I.read_segs(st, v.r, o, n)
    ok, why = parts is not None, "contents not determined"
    for s, e, c in parts or ():
        if st.has_ge(s - e):
            continue
        if I.cell is not None and (c == T or c[0] == "V"):
            continue
        if c[0] != "S" or len(c[1]) != len(want) or c[2]:
            ok, why = False, "bytes [%r,%r) of the output are %s" % (st.canon(s - o), st.canon(e - o), desc(c))
            break
        for nm, d in c[1]:
            if nm not in want or not st.has_eq(d + o - want[nm]):
                ok, why = False, "bytes [%r,%r) of the output use %s[%r..] instead of %s" % (
                    st.canon(s - o), st.canon(e - o), nm, st.canon(d + s), {k: st.canon(x + s - o) for k, x in want.items()})
    I.ob(rule, ok, "key stream", why)


def is_seq(I, st, rid, o, n, name, base, xor=None):
    """do the bytes [o, o+n) of the region equal name[base ..]?"""
    if st.has_eq(n):
        return True, ""
    parts = I.read_segs(st, rid, o, n)
    if parts is None:
        return False, "contents not determined"
    for s, e, c in parts:
        if st.has_ge(s - e):
            continue
        if c[0] != "S" or len(c[1]) != 1 or c[2]:
            return False, "bytes [%r,%r) are %s" % (st.canon(s - o), st.canon(e - o), desc(c))
        nm, d = next(iter(c[1]))
        if nm != name or not st.has_eq(d + o - base):
            return False, "bytes [%r,%r) are %s[%r..] instead of %s[%r..]" % (
                st.canon(s - o), st.canon(e - o), nm, st.canon(d + s), name, st.canon(base + s - o))
    return True, ""


def desc(c):
    if c[0] == "T":
        return "unknown"
    if c[0] == "K":
        return "constant 0x%02x" % c[1]
    if c[0] == "S":
        return " xor ".join("%s[.%+r]" % (n, d) for n, d in c[1])
    return "a computed value"


# ------------------------------------------------------------------ roots and the OCaml heap
@extern("sa_mark")
def _(I, st, a):
    return Lin(len(st.roots))


@extern("sa_root")
def _(I, st, a):
    p, n = a
    if isinstance(p, Ptr) and not p.o.t:
        k = st.sig(n, 64)
        st.roots = st.roots + ((p.r, p.o.c, k.c if not k.t else 1),)
        segs = I.segs(st, p.r)
        # registering a stale value does not refresh it


@extern("sa_leave")
def _(I, st, a):
    k = st.sig(a[0], 64)
    if k.t:
        raise Stuck("roots")
    st.roots = st.roots[:k.c]


def ml_alloc(I, st, name, size, content=T_UNINIT):
    I.gc(st)
    rid = I.alloc(st, name, size, "ml", 0, content)
    return Ptr(rid, ep=st.gcn)


def use_value(I, st, v, what):
    """an OCaml value handed to the runtime"""
    if isinstance(v, Ptr) and v.r in st.regs and st.regs[v.r].kind == "ml":
        I.ob("stale", v.ep >= st.gcn, what, "a stale heap value is passed to the runtime")


@extern("caml_alloc_string")
def _(I, st, a):
    n = st.sig(a[0], 64)
    if not st.has_ge(n):
        I.ob("alloc-size", False, "caml_alloc_string", "the size may be negative")
    return ml_alloc(I, st, "result", n)


@extern("caml_alloc_initialized_string")
def _(I, st, a):
    n = st.sig(a[0], 64)
    p = ml_alloc(I, st, "result", n)
    I.memcpy(st, p, a[1], n, "caml_alloc_initialized_string")
    return p


@extern("caml_copy_string")
def _(I, st, a):
    if isinstance(a[0], Ptr) and st.regs[a[0].r].kind == "ml":
        I.ob("stale", a[0].ep >= st.gcn, "caml_copy_string", "stale pointer")
    n = st.new("strlen", 0, 1 << 40)
    return ml_alloc(I, st, "copy", n, T)


@extern("caml_alloc_custom")
def _(I, st, a):
    n = st.sig(a[1], 64)
    return ml_alloc(I, st, "custom", n + 8)


EXTERNS["caml_alloc_custom_mem"] = EXTERNS["caml_alloc_custom"]


def _alloc_words(I, st, a):
    n = st.sig(a[0], 64)
    p = ml_alloc(I, st, "block", n.scale(8))
    t = st.sig(a[1], 32) if len(a) > 1 else ZERO
    I.tags[p.r] = t.c if not t.t else None
    return p


for _n in ("caml_alloc", "caml_alloc_small", "caml_alloc_tuple", "caml_alloc_shr"):
    EXTERNS[_n] = _alloc_words


def _alloc_boxed(I, st, a):
    return ml_alloc(I, st, "boxed", L(16))


for _n in ("caml_copy_int64", "caml_copy_int32", "caml_copy_nativeint", "caml_copy_double"):
    EXTERNS[_n] = _alloc_boxed


@extern("caml_string_length")
def _(I, st, a):
    use_value(I, st, a[0], "caml_string_length")
    if isinstance(a[0], Ptr) and a[0].r in st.regs:
        return st.regs[a[0].r].size
    return st.new("len", 0, (1 << 57) - 9)


@extern("caml_modify")
def _(I, st, a):
    use_value(I, st, a[1], "caml_modify")
    I.store(st, a[0], a[1], I64)


EXTERNS["caml_initialize"] = EXTERNS["caml_modify"]


def _raise(n):
    def f(I, st, a):
        for x in a:
            use_value(I, st, x, "raise")
        I.raising = n
        I.raised(st, a) if hasattr(I, "raised") else None
        raise Dead()
    return f


for _n in ("caml_raise", "caml_raise_constant", "caml_raise_with_arg", "caml_raise_with_args", "caml_raise_with_string",
           "caml_failwith", "caml_invalid_argument", "caml_raise_out_of_memory", "caml_raise_end_of_file", "caml_raise_not_found",
           "caml_raise_sys_error", "caml_array_bound_error", "caml_failwith_value", "caml_invalid_argument_value"):
    EXTERNS[_n] = _raise(_n)


def _abort(I, st, a):
    raise Dead()


for _n in ("abort", "exit", "_exit"):
    EXTERNS[_n] = _abort


@extern("__assert_fail")
def _(I, st, a):
    I.ob("assert", False, cstring(I, st, a[0]), "the assertion can fail")
    raise Dead()


@extern("caml_named_value")
def _(I, st, a):
    if "named-value" in I.events:
        I.events["named-value"](I, st, (cstring(I, st, a[0]),))
    return I.named(st)


@extern("sa_live")
def _(I, st, a):
    """the caller (OCaml code) keeps the value alive and sees it where the collector moved it"""
    v = a[0]
    return Ptr(v.r, v.o, v.lo, v.hi, st.gcn) if isinstance(v, Ptr) else v


@extern("caml_enter_blocking_section")
def _(I, st, a):
    if st.blocking:
        I.ob("blocking", False, "enter", "nested blocking section")
    st.blocking = True


@extern("caml_leave_blocking_section")
def _(I, st, a):
    st.blocking = False
    I.gc(st)


@extern("caml_process_pending_actions")
def _(I, st, a):
    I.gc(st)


@extern("caml_register_generational_global_root")
def _(I, st, a):
    return None


EXTERNS["caml_register_global_root"] = EXTERNS["caml_register_generational_global_root"]


@extern("caml_stat_alloc")
def _(I, st, a):
    n = st.uns(a[0], 64)
    return Ptr(I.alloc(st, "malloc", n, "c"))


EXTERNS["caml_stat_alloc_noexc"] = lambda I, st, a: EXTERNS["malloc"](I, st, a)


@extern("malloc")
def _(I, st, a):
    s2 = st.clone()
    n = st.uns(a[0], 64)
    return [(st, Ptr(I.alloc(st, "malloc", n, "c"))), (s2, Lin(0))]


@extern("calloc")
def _(I, st, a):
    s2 = st.clone()
    x, y = st.uns(a[0], 64), st.uns(a[1], 64)
    n = x.scale(y.c) if not y.t else y.scale(x.c) if not x.t else st.new("sz", 0)
    return [(st, Ptr(I.alloc(st, "malloc", n, "c", 0, ("K", 0)))), (s2, Lin(0))]


@extern("free")
def _(I, st, a):
    p = a[0]
    if isinstance(p, Ptr):
        r = st.regs.get(p.r)
        if r is None or r.kind != "c":
            I.ob("bounds", False, "free", "freed twice or not allocated by malloc")
        else:
            I.on_free(st, p, r) if hasattr(I, "on_free") else None
            from .interp import Reg
            st.regs[p.r] = Reg(r.name, r.size, "freed", r.flags, r.g)


EXTERNS["caml_stat_free"] = EXTERNS["free"]


@extern("strlen")
def _(I, st, a):
    return st.new("strlen", 0, 1 << 40)


@extern("memcmp")
def _(I, st, a):
    n = st.uns(a[2], 64)
    I.check(st, a[0], n, "read (memcmp)")
    I.check(st, a[1], n, "read (memcmp)")
    return top(32)


@extern("memcpy")
def _(I, st, a):
    I.memcpy(st, a[0], a[1], a[2])
    return a[0]


EXTERNS["memmove"] = EXTERNS["memcpy"]


@extern("memset")
def _(I, st, a):
    I.memset(st, a[0], a[1], a[2])
    return a[0]


EXTERNS["explicit_bzero"] = lambda I, st, a: I.memset(st, a[0], ZERO, a[1])


@extern("__builtin_cpu_supports")
def _(I, st, a):
    return top(32)


from .ir import I as ITY     # noqa
I64 = ITY[64]


# ------------------------------------------------------------------ MD5 of the runtime
@extern("caml_MD5Init")
def _(I, st, a):
    if I.check(st, a[0], 88, "write (MD5Init)"):
        I.havoc(st, a[0], 88)


@extern("caml_MD5Update")
def _(I, st, a):
    n = st.uns(a[2], 64)
    I.check(st, a[0], 88, "write (MD5Update)")
    I.check(st, a[1], n, "read (MD5Update)")


@extern("caml_MD5Final")
def _(I, st, a):
    if I.check(st, a[0], 16, "write (MD5Final)"):
        I.wcheck(st, st.regs[a[0].r], a[0])
        I.havoc(st, a[0], 16)
    I.check(st, a[1], 88, "write (MD5Final)")


# ------------------------------------------------------------------ entropy
@extern("getentropy")
def _(I, st, a):
    n = st.uns(a[1], 64)
    if not st.has_ge(L(256) - n):
        I.ob("entropy-request", False, "getentropy", "more than 256 bytes requested")
    I.check(st, a[0], n, "write (getentropy)")
    s2 = st.clone()
    if isinstance(a[0], Ptr):
        I.wcheck(st, st.regs[a[0].r], a[0])
        I.write(st, a[0].r, st.canon(a[0].o), n, [(st.canon(a[0].o + n), ("T", "random"))])
    return [(st, Lin(0)), (s2, Lin(-1))]


@extern("getpid")
def _(I, st, a):
    return top(32, 1, 1 << 22)


@extern("sa_ghost")
def _(I, st, a):
    st.ghost[cstring(I, st, a[0])] = st.sig(a[1], 64)


@extern("sa_result")
def _(I, st, a):
    v = a[0]
    use_value(I, st, v, "result")
    if isinstance(v, Ptr) and v.r in st.regs:
        st.ghost["len"] = st.regs[v.r].size
        st.ghost["res"] = v
    return None


@extern("sa_event")
def _(I, st, a):
    tag = cstring(I, st, a[0])
    f = getattr(I, "events", {}).get(tag)
    if f:
        return f(I, st, a[1:])
    return None


@extern("sa_int64")
def _(I, st, a):
    rid = I.alloc(st, "int64", Lin(16), "ml", 1, T)
    I.write(st, rid, Lin(8), Lin(8), [(Lin(16), ("V", a[0], 8))])
    return Ptr(rid, ep=st.gcn)


@extern("sa_custom")
def _(I, st, a):
    n = st.sig(a[0], 64)
    rid = I.alloc(st, "custom", n.scale(8), "ml", 0, T)
    I.headers[rid.split("#")[0]] = 255
    return Ptr(rid, ep=st.gcn)


# ------------------------------------------------------------------ zlib
I32 = ITY[32]
PTY = __import__("sa.c.ir", fromlist=["PTR"]).PTR


def _z_init(I, st, a):
    zs = a[0]
    if not I.check(st, zs, 112, "write (zlib init)"):
        return top(32)
    if "zlib-init" in I.events:
        I.events["zlib-init"](I, st, a)
    I.store(st, zs.at(zs.o + 48), ZERO, I64)
    I.store(st, zs.at(zs.o + 56), top(64), I64)
    r = st.new("zret", -6, 2)
    st.ghost["zret"] = r
    st.ghost["zop"] = Lin(0)
    return r


for _n in ("deflateInit2_", "inflateInit2_", "deflateInit_", "inflateInit_"):
    EXTERNS[_n] = _z_init


def _z_step(which):
    def f(I, st, a):
        zs = a[0]
        if not I.check(st, zs, 112, "write (zlib)"):
            return top(32)
        ni, no = I.load(st, zs, PTY), I.load(st, zs.at(zs.o + 24), PTY)
        ai = st.uns(I.load(st, zs.at(zs.o + 8), I32), 32)
        ao = st.uns(I.load(st, zs.at(zs.o + 32), I32), 32)
        I.check(st, ni, ai, "read (zlib)")
        if I.check(st, no, ao, "write (zlib)"):
            I.wcheck(st, st.regs[no.r], no)
            I.write(st, no.r, st.canon(no.o), ao, [(st.canon(no.o + ao), T)]) if not st.has_eq(ao) else None
        if "zlib-call" in I.events:
            I.events["zlib-call"](I, st, (which, ni, no, ai, ao, a[1]))
        c, p = st.new("zin", 0), st.new("zout", 0)
        st.ge(ai - c)
        st.ge(ao - p)
        I.store(st, zs.at(zs.o + 8), ai - c, I32)
        I.store(st, zs.at(zs.o + 32), ao - p, I32)
        if isinstance(ni, Ptr):
            I.store(st, zs, ni.at(ni.o + c), I64)
        if isinstance(no, Ptr):
            I.store(st, zs.at(zs.o + 24), no.at(no.o + p), I64)
        r = st.new("zret", -6, which)        # Z_NEED_DICT: inflate only
        st.ghost.update(zret=r, zin=c, zout=p, zai=ai, zao=ao, zflush=a[1] if isinstance(a[1], Lin) else st.lin(a[1]))
        st.ghost["zop"] = Lin(which)
        return r
    return f


EXTERNS["deflate"] = _z_step(1)
EXTERNS["inflate"] = _z_step(2)


def _z_end(I, st, a):
    I.check(st, a[0], 112, "write (zlib end)")
    r = st.new("zret", -6, 2)
    st.ghost["zret"] = r
    st.ghost["zop"] = Lin(3)
    return r


EXTERNS["deflateEnd"] = EXTERNS["inflateEnd"] = _z_end
