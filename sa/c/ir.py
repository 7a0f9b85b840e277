"""Front end for the C part: compile /repo's sources to LLVM IR and parse it.

Nothing is executed: clang produces -O0 IR, `opt -passes=sroa,simplifycfg`
puts it in SSA form, and this module turns the text into Python objects.
"""
import os
import re
import shutil
import subprocess
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "clang-18"
OPT = "opt-18"


def ocaml_where():
    for c in (["ocamlfind", "ocamlc", "-where"], ["ocamlc", "-where"]):
        try:
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if r.returncode == 0:
                return r.stdout.decode().strip()
        except FileNotFoundError:
            pass
    return "/usr/lib/ocaml"


def cflags():
    """the preprocessor configuration of the build"""
    return ["-DCAML_NAME_SPACE", "-DEXPORT=static", "-DBLAKE3_NO_SSE2", "-DBLAKE3_NO_SSE41", "-DBLAKE3_NO_AVX2",
            "-DBLAKE3_NO_AVX512", "-DBLAKE3_USE_NEON=0", "-DHAVE_GETENTROPY", "-DHAVE_ZLIB", "-maes", "-mpclmul"]


class CompileError(Exception):
    pass


def compile_ll(src, extra=(), override=True, passes="function(sroa,simplifycfg)", opt="-O0"):
    d = tempfile.mkdtemp(prefix="verif-ir-")
    try:
        o = os.path.join(d, "a.ll")
        cmd = [CLANG] + cflags() + (["-I" + os.path.join(HERE, "include")] if override else []) + \
              ["-I" + os.path.join(REPO, "src"), "-I" + ocaml_where(), opt, "-Xclang", "-disable-O0-optnone",
               "-gline-tables-only", "-fno-discard-value-names", "-S", "-emit-llvm", "-w"] + list(extra) + [src, "-o", o]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CompileError("%s: %s" % (src, r.stdout.decode("utf-8", "replace")[:800]))
        r = subprocess.run([OPT, "-S", "-passes=" + passes, o, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CompileError("opt: " + r.stdout.decode("utf-8", "replace")[:800])
        return open(o).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "e", "fs", "_sz", "_al", "_offs")

    def __init__(self, k, n=0, e=None, fs=None):
        self.k, self.n, self.e, self.fs = k, n, e, fs
        self._sz = self._al = self._offs = None

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.e)
        if self.k == "vec":
            return "<%d x %r>" % (self.n, self.e)
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.fs))
        return self.k

    def size(self):
        if self._sz is None:
            k = self.k
            if k == "i":
                n = (self.n + 7) // 8
                p = 1
                while p < n:
                    p *= 2
                self._sz, self._al = p, min(p, 16)
            elif k == "ptr":
                self._sz = self._al = 8
            elif k == "double":
                self._sz = self._al = 8
            elif k == "float":
                self._sz = self._al = 4
            elif k == "arr":
                self._sz, self._al = self.n * self.e.size(), self.e.align()
            elif k == "vec":
                self._sz = self.n * self.e.size()
                self._al = self._sz
            elif k in ("struct", "pstruct"):
                o, al, offs = 0, 1, []
                for f in self.fs:
                    a = 1 if k == "pstruct" else f.align()
                    o = (o + a - 1) // a * a
                    offs.append(o)
                    o += f.size()
                    al = max(al, a)
                self._offs = offs
                self._sz, self._al = (o + al - 1) // al * al, al
            else:
                self._sz, self._al = 0, 1
        return self._sz

    def align(self):
        self.size()
        return self._al

    def offs(self):
        self.size()
        return self._offs


I = {n: Ty("i", n) for n in (1, 8, 16, 32, 64, 128)}
PTR = Ty("ptr")
VOID = Ty("void")


class Mod:
    def __init__(self):
        self.types, self.globals, self.funcs, self.decls, self.md = {}, {}, {}, {}, {}


class Global:
    __slots__ = ("name", "ty", "init", "const", "external")


class Func:
    __slots__ = ("name", "ret", "params", "blocks", "order", "internal", "line", "file", "sub", "varargs", "cfg", "attrs")


class Ins:
    __slots__ = ("op", "res", "ty", "a", "x", "dbg", "fn")
    # op: opcode, res: result name, ty: type, a: operands, x: extra

    def __repr__(self):
        return "%s = %s %r %r %r" % (self.res, self.op, self.ty, self.a, self.x)


TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|("(?:[^"\\]|\\.)*")|(%"(?:[^"])*"|%[-\w$.]+)|(@"(?:[^"])*"|@[-\w$.]+)|(![-\w.]*)|(#\d+)|(-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+|-?\d+)|([A-Za-z_][\w.]*)|(\.\.\.|[\[\]{}()<>,=*:|]))''')


def lex(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise ValueError("lex: %r" % s[i:i + 60])
        out.append(m.group(m.lastindex))
        i = m.end()
        while i < n and s[i] in " \t":
            i += 1
        if i < n and s[i] == ";":
            break
    return out


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ValueError("expected %r got %r in %r" % (x, y, " ".join(self.t[:80])))

    def type(self):
        x = self.next()
        if x[0] == "i" and x[1:].isdigit():
            n = int(x[1:])
            if n not in I:
                I[n] = Ty("i", n)
            t = I[n]
        elif x == "ptr":
            t = PTR
        elif x in ("void", "double", "float", "label", "metadata", "token", "x86_fp80"):
            t = Ty(x) if x != "void" else VOID
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("arr", n, e)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                fs = self.types("}")
                self.expect(">")
                t = Ty("pstruct", fs=fs)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("vec", n, e)
        elif x == "{":
            t = Ty("struct", fs=self.types("}"))
        elif x[0] == "%":
            t = self.m.types.get(x)
            if t is None:
                t = self.m.types[x] = Ty("opaque")
        else:
            raise ValueError("type %r in %r" % (x, " ".join(self.t[:60])))
        if self.peek() == "(" and self.t[self.i - 1] != ")":
            # function type in a call
            save = self.i
            self.next()
            try:
                self.types(")")
            except ValueError:
                self.i = save
                return t
            if self.peek() and self.peek()[0] in "@%":
                return t
            self.i = save
        return t

    def types(self, end):
        fs = []
        while self.peek() != end:
            if self.eat("..."):
                continue
            fs.append(self.type())
            self.eat(",")
        self.next()
        return fs

    def const(self, t):
        """a constant or operand of type t"""
        x = self.next()
        if x[0] == "%":
            return ("r", x)
        if x[0] == "@":
            return ("g", x)
        if x in ("true", "false"):
            return ("c", 1 if x == "true" else 0)
        if x in ("null", "zeroinitializer", "none"):
            return ("z",)
        if x in ("undef", "poison"):
            return ("u",)
        if x[0] == "c" and x[1:2] == '"':
            return ("s", cstr(x[2:-1]))
        if x[0].isdigit() or x[0] == "-":
            if t.k == "i":
                return ("c", int(x))
            return ("f", x)
        if x == "[":
            return ("a", self.elems("]"))
        if x == "{":
            return ("a", self.elems("}"))
        if x == "<":
            if self.eat("{"):
                e = self.elems("}")
                self.expect(">")
                return ("a", e)
            return ("a", self.elems(">"))
        if x == "getelementptr":
            while self.peek() in ("inbounds", "inrange", "nuw", "nusw"):
                self.next()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            ops = self.elems(")")
            return ("gep", bt, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            st = self.type()
            v = self.const(st)
            self.expect("to")
            dt = self.type()
            self.expect(")")
            return ("cast", x, st, v, dt)
        if x in ("add", "sub", "mul", "xor", "shl"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            e = self.elems(")")
            return ("cexpr", x, e)
        if x in ("dso_local_equivalent", "no_cfi"):
            return self.const(t)
        raise ValueError("const %r in %r" % (x, " ".join(self.t[:60])))

    def elems(self, end):
        out = []
        while self.peek() != end:
            t = self.type()
            out.append((t, self.const(t)))
            self.eat(",")
        self.next()
        return out


def cstr(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


ATTRS = {"elementtype", "noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "writeonly", "inreg", "byval", "sret",
         "returned", "immarg", "dereferenceable", "align", "fastcc", "ccc", "tail", "musttail", "notail", "readnone", "inbounds",
         "nuw", "nsw", "exact", "disjoint", "volatile", "nneg", "samesign", "swiftself", "allocptr", "noreturn", "fast", "atomic"}
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc",
        "addrspacecast"}


def skip_attrs(p):
    while p.peek() in ATTRS:
        x = p.next()
        if x == "align":
            if p.peek() and p.peek().isdigit():
                p.next()
            elif p.peek() == "(":
                _paren(p)
        elif x in ("byval", "sret", "dereferenceable", "elementtype") and p.peek() == "(":
            _paren(p)


def _paren(p):
    d = 0
    while True:
        x = p.next()
        if x == "(":
            d += 1
        elif x == ")":
            d -= 1
            if d == 0:
                return


def parse(text):
    m = Mod()
    lines = text.split("\n")
    i, n = 0, len(lines)
    for l in lines:                      # named types first (forward references)
        if l.startswith("%") and " = type " in l:
            m.types[l.split(" = type ")[0].strip()] = Ty("opaque")
    for l in lines:
        if l.startswith("%") and " = type " in l:
            nm, body = l.split(" = type ", 1)
            if body.strip() == "opaque":
                continue
            t = P(lex(body), m).type()
            o = m.types[nm.strip()]
            o.k, o.n, o.e, o.fs = t.k, t.n, t.e, t.fs
    while i < n:
        l = lines[i]
        i += 1
        if not l or l[0] in ";" or l.startswith(("source_filename", "target", "attributes", "declare", "%")):
            if l.startswith("declare"):
                mm = re.search(r"@([-\w$.]+)\(", l)
                if mm:
                    m.decls["@" + mm.group(1)] = l
            continue
        if l[0] == "!":
            a, _, b = l.partition(" = ")
            m.md[a] = b
            continue
        if l[0] == "@":
            p_global(l, m)
            continue
        if l.startswith("define"):
            body = []
            while lines[i] != "}":
                body.append(lines[i])
                i += 1
            i += 1
            p_func(l, body, m)
    return m


def p_global(l, m):
    p = P(lex(l), m)
    g = Global()
    g.name = p.next()
    p.expect("=")
    g.external = False
    while True:
        x = p.next()
        if x in ("external", "extern_weak"):
            g.external = True
        if x in ("global", "constant"):
            g.const = x == "constant"
            break
        if x == "alias":
            return
    g.ty = p.type()
    g.init = None
    if not g.external:
        g.init = p.const(g.ty)
    m.globals[g.name] = g


def p_func(head, body, m):
    f = Func()
    f.internal = " internal " in head
    h = head
    p = P(lex(h[:h.rindex("{")]), m)
    p.expect("define")
    while True:
        x = p.peek()
        if x[0] == "i" and x[1:].isdigit() or x in ("ptr", "void", "double", "float") or x[0] in "<{[%":
            break
        p.next()
        if p.peek() == "(":
            _paren(p)
    f.ret = p.type()
    f.name = p.next()
    p.expect("(")
    f.params, f.varargs = [], False
    while p.peek() != ")":
        if p.eat("..."):
            f.varargs = True
            continue
        t = p.type()
        skip_attrs(p)
        nm = p.next() if p.peek()[0] == "%" else "%%%d" % len(f.params)
        f.params.append((t, nm))
        p.eat(",")
    dbg = re.search(r"!dbg (!\d+)", head)
    f.sub = dbg.group(1) if dbg else None
    f.blocks, f.order = {}, []
    cur = None
    k, nb = 0, len(body)
    while k < nb:
        l = body[k]
        k += 1
        if not l.strip() or l.lstrip().startswith(";"):
            continue
        if not l.startswith(" "):
            cur = "%" + l.split(":")[0].strip('"')
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = "%entry%"
            f.blocks[cur] = []
            f.order.append(cur)
        if l.lstrip().startswith("switch"):
            while "]" not in l:
                l += " " + body[k].strip()
                k += 1
        f.blocks[cur].append(p_ins(l, m, f))
    f.cfg = None
    m.funcs[f.name] = f


def p_ins(l, m, f):
    p = P(lex(l), m)
    s = Ins()
    s.fn = f.name
    s.res, s.dbg, s.x, s.ty, s.a = None, None, None, None, ()
    if len(p.t) > 2 and p.t[1] == "=":
        s.res = p.next()
        p.next()
    for j in range(len(p.t) - 2, 0, -1):
        if p.t[j] == "!dbg":
            s.dbg = p.t[j + 1]
            break
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    s.op = op
    if op in BIN:
        skip_attrs(p)
        s.ty = p.type()
        a = p.const(s.ty)
        p.expect(",")
        s.a = (a, p.const(s.ty))
    elif op in CAST:
        skip_attrs(p)
        s.x = p.type()
        a = p.const(s.x)
        p.expect("to")
        s.ty = p.type()
        s.a = (a,)
    elif op == "icmp" or op == "fcmp":
        skip_attrs(p)
        s.x = p.next()
        t = p.type()
        a = p.const(t)
        p.expect(",")
        s.ty, s.a = t, (a, p.const(t))
    elif op == "load":
        skip_attrs(p)
        s.ty = p.type()
        p.expect(",")
        p.type()
        s.a = (p.const(PTR),)
    elif op == "store":
        skip_attrs(p)
        s.ty = p.type()
        v = p.const(s.ty)
        p.expect(",")
        p.type()
        s.a = (v, p.const(PTR))
    elif op == "getelementptr":
        skip_attrs(p)
        s.x = p.type()
        ops = []
        while p.eat(","):
            if p.peek().startswith("!"):
                break
            t = p.type()
            ops.append((t, p.const(t)))
        s.ty, s.a = PTR, tuple(ops)
    elif op == "alloca":
        s.x = p.type()
        s.ty = PTR
        s.a = ()
        if p.eat(",") and p.peek() not in ("align",) and not p.peek().startswith("!"):
            t = p.type()
            s.a = (p.const(t),)
    elif op == "br":
        t = p.type()
        if t.k == "label":
            s.a, s.x = (), (p.next(),)
        else:
            c = p.const(t)
            p.expect(",")
            p.type()
            x = p.next()
            p.expect(",")
            p.type()
            s.a, s.x = (c,), (x, p.next())
    elif op == "switch":
        t = p.type()
        c = p.const(t)
        p.expect(",")
        p.type()
        d = p.next()
        p.expect("[")
        cases = []
        while p.peek() != "]":
            tt = p.type()
            k = p.const(tt)
            p.expect(",")
            p.type()
            cases.append((k[1], p.next()))
        s.ty, s.a, s.x = t, (c,), (d, cases)
    elif op == "ret":
        s.ty = p.type()
        s.a = () if s.ty.k == "void" else (p.const(s.ty),)
    elif op == "unreachable":
        pass
    elif op == "phi":
        skip_attrs(p)
        s.ty = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.const(s.ty)
            p.expect(",")
            inc.append((v, p.next()))
            p.expect("]")
            if not p.eat(",") or p.peek() != "[":
                break
        s.x = inc
    elif op == "select":
        skip_attrs(p)
        ct = p.type()
        c = p.const(ct)
        p.expect(",")
        s.ty = p.type()
        a = p.const(s.ty)
        p.expect(",")
        p.type()
        s.a, s.x = (c, a, p.const(s.ty)), ct
    elif op == "call":
        skip_attrs(p)
        s.ty = p.type()
        skip_attrs(p)
        callee = p.const(PTR) if p.peek()[0] in "%@" else ("asm",)
        if callee == ("asm",):
            toks = []
            while p.peek() and p.peek() != "(":
                toks.append(p.next())
            callee = ("asm", toks)
        p.expect("(")
        args = []
        while p.peek() != ")":
            t = p.type()
            skip_attrs(p)
            if t.k == "metadata":
                while p.peek() not in (",", ")"):
                    if p.peek() == "(":
                        _paren(p)
                    else:
                        p.next()
                args.append((t, ("u",)))
            else:
                args.append((t, p.const(t)))
            p.eat(",")
        s.x, s.a = callee, tuple(args)
    elif op == "extractvalue":
        t = p.type()
        a = p.const(t)
        idx = []
        while p.eat(","):
            if not p.peek().isdigit():
                break
            idx.append(int(p.next()))
        u = t
        for k in idx:
            u = u.fs[k] if u.k in ("struct", "pstruct") else u.e
        s.ty, s.a, s.x = u, (a,), idx
    elif op == "insertvalue":
        t = p.type()
        a = p.const(t)
        p.expect(",")
        t2 = p.type()
        b = p.const(t2)
        idx = []
        while p.eat(","):
            if not p.peek().isdigit():
                break
            idx.append(int(p.next()))
        s.ty, s.a, s.x = t, (a, b), idx
    elif op == "freeze":
        s.ty = p.type()
        s.a = (p.const(s.ty),)
    elif op in ("extractelement", "insertelement", "shufflevector"):
        t0 = p.type()
        ops = [(t0, p.const(t0))]
        while p.eat(","):
            if p.peek().startswith("!"):
                break
            t = p.type()
            ops.append((t, p.const(t)))
        s.x = ops
        s.a = tuple(v for _t, v in ops)
        if op == "extractelement":
            s.ty = t0.e
        elif op == "insertelement":
            s.ty = t0
        else:
            s.ty = Ty("vec", ops[2][0].n, t0.e)
    elif op == "fneg":
        skip_attrs(p)
        s.ty = p.type()
        s.a = (p.const(s.ty),)
    elif op in ("fence",):
        s.op = "nop"
    else:
        raise ValueError("instruction %r" % l)
    return s


# ---------------------------------------------------------------- locations
class Locs:
    def __init__(self, m):
        self.m = m
        self.c = {}

    def _f(self, d, k):
        mm = re.search(r"\b%s: (\"[^\"]*\"|!?\d+)" % k, d)
        return mm.group(1).strip('"') if mm else None

    def file(self, ref):
        d = self.m.md.get(ref, "")
        if "DIFile" in d:
            return os.path.basename(self._f(d, "filename") or "?")
        fl = self._f(d, "file")
        if fl:
            return self.file(fl)
        sc = self._f(d, "scope")
        return self.file(sc) if sc else "?"

    def loc(self, dbg, fn=None):
        if dbg is None:
            return "?"
        r = self.c.get(dbg)
        if r is None:
            d = self.m.md.get(dbg, "")
            r = self.c[dbg] = "%s:%s" % (self.file(self._f(d, "scope") or ""), self._f(d, "line") or "0")
        return r

    def funloc(self, f):
        d = self.m.md.get(f.sub, "") if f.sub else ""
        return "%s:%s" % (self.file(f.sub) if f.sub else "?", self._f(d, "line") or "0")


# ---------------------------------------------------------------- control flow
class CFG:
    """reducible control flow: reverse postorder, natural loops, liveness"""

    def __init__(self, f):
        self.f = f
        succ, pred = {}, {b: [] for b in f.order}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == "br":
                s = list(dict.fromkeys(t.x))
            elif t.op == "switch":
                s = list(dict.fromkeys([t.x[0]] + [c for _k, c in t.x[1]]))
            else:
                s = []
            succ[b] = s
            for x in s:
                pred.setdefault(x, []).append(b)
        self.succ, self.pred = succ, pred
        entry = f.order[0]
        seen, post = set(), []
        stack = [(entry, iter(succ[entry]))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
                elif self.idx[s] <= self.idx[b]:
                    raise ValueError("irreducible control flow in %s" % f.name)
        # innermost loop of each block
        self.inner = {}
        for h, body in sorted(self.loops.items(), key=lambda kv: -len(kv[1])):
            for b in body:
                self.inner[b] = h
        # liveness of SSA names at block entry
        use, defs, phiuse = {}, {}, {}
        for b in self.rpo:
            u, d = set(), set()
            for s in f.blocks[b]:
                if s.op == "phi":
                    for v, p in s.x:
                        if v[0] == "r":
                            phiuse.setdefault(p, set()).add(v[1])
                else:
                    for r in operands(s):
                        if r not in d:
                            u.add(r)
                if s.res:
                    d.add(s.res)
            use[b], defs[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set(phiuse.get(b, ()))
                for s in succ[b]:
                    out |= live[s]
                n = use[b] | (out - defs[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live          # names live on entry (phi results of the block not included)
        self.phis = {b: [s for s in f.blocks[b] if s.op == "phi"] for b in self.rpo}

    def _inter(self, idom, a, b):
        i = self.idx
        while a != b:
            while i[a] > i[b]:
                a = idom[a]
            while i[b] > i[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            p = self.idom.get(b)
            if p is None or p == b:
                return False
            b = p


def _ops(v, out):
    if v[0] == "r":
        out.append(v[1])
    elif v[0] == "a":
        for _t, e in v[1]:
            _ops(e, out)


def operands(s):
    out = []
    if s.op == "getelementptr":
        for _t, v in s.a:
            _ops(v, out)
    elif s.op == "call":
        if s.x and s.x[0] == "r":
            out.append(s.x[1])
        for _t, v in s.a:
            _ops(v, out)
    else:
        for v in s.a:
            _ops(v, out)
    return out


def cfg(f):
    if f.cfg is None:
        f.cfg = CFG(f)
    return f.cfg
