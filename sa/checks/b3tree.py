"""BLAKE3 as a tree: value graphs of the streaming code in which the compression function is an
uninterpreted symbol and complete subtrees have a canonical name.

Names (normal forms; all of them are definitions of the standard, so rewriting is sound):
  chain(a, k, c)   the chaining value after the first k blocks of the chunk of the message at byte a, number c
  cv(a, n, c)      the chaining value of the complete subtree of n chunks (a power of two) at byte a, first chunk c
  comp(...)        any other application of the compression function
Rules:  chain(a,15,c) + last block = cv(a,1,c);   parent(cv(a,n,c), cv(a+1024n,n,c+n)) = cv(a,2n,c).
The message is a stream of bytes m0, m1, ... handed over in pieces; lengths up to 2^50 are followed
because blake3_compress_subtree_wide is replaced by its contract, which is established by induction on
the number of chunks (its body is analysed for every power of two, with the inner calls replaced).
"""
import gc
import random

from ..c import ir, std, vg
from ..c.vg import Graph, Ptr, Stuck, VG
from . import p22

COMP = "@blake3_compress_in_place_portable"
XOF = "@blake3_compress_xof_portable"
WIDE = "@blake3_compress_subtree_wide"
V = p22.V
START, END, PARENT, ROOT, KEYED = 1, 2, 4, 8, 16
IVB = tuple(b for x in std.IV256 for b in x.to_bytes(4, "little"))


class Tree:
    def __init__(self, v):
        self.v, self.g = v, v.g
        self.ids, self.rev, self.msg, self.pos = {}, {}, {}, {}
        self.comps = 0

    # names
    def node(self, key):
        """the 64 bytes named key"""
        n = self.ids.get(key)
        if n is None:
            i = len(self.ids)
            n = tuple([tuple([self.g.var(("fun", "b3", i, j, k)) for k in range(8)]) for j in range(64)])
            self.ids[key] = n
            self.rev[n[0]] = (key, n)
        return n

    def byte(self, a):
        c = self.msg.get(a)
        if c is None:
            c = self.msg[a] = tuple([self.g.var(("in", "msg", a, k)) for k in range(8)])
            self.pos[c] = a
        return c

    def piece(self, a, n, before=0):
        """a string whose bytes from offset before on are the message from position a on"""
        other = self.v.string("other", max(before, 1)).obj
        o = self.v.obj("piece", before + n, lambda k: self.byte(a + k - before) if k >= before else self.v.cell(other, k))
        return Ptr(o)

    def at(self, blk):
        """position of 64 consecutive bytes of the message, or None"""
        a = self.pos.get(blk[0]) if isinstance(blk[0], tuple) else None
        if a is not None and all(self.msg.get(a + i) == b for i, b in enumerate(blk)):
            return a

    def named(self, bs):
        """the key of 32 bytes that are a name"""
        r = self.rev.get(bs[0]) if isinstance(bs[0], tuple) else None
        if r is not None and tuple(bs) == r[1][:32]:
            return r[0]

    # the compression function
    def comp(self, cv, blk, blen, ctr, flags):
        self.comps += 1
        if any(not isinstance(x, (int, tuple)) for x in tuple(cv) + tuple(blk)):
            raise Stuck("uninitialised block")
        cv, blk = tuple(cv), tuple(blk)
        if not flags & ROOT:
            if flags & PARENT:
                x, y = self.named(blk[:32]), self.named(blk[32:])
                if x and y and x[0] == y[0] == "cv" and ctr == 0 and blen == 64:
                    _k, a, n, c, K, base = x
                    if y == ("cv", a + 1024 * n, n, c + n, K, base) and K == cv and flags == base | PARENT:
                        return self.node(("cv", a, 2 * n, c, K, base))
            elif blen == 64:
                a = self.at(blk)
                base = flags & ~(START | END)
                if a is not None:
                    if flags & START:
                        if not flags & END:
                            return self.node(("chain", a, 1, ctr, cv, base))
                    else:
                        x = self.named(cv)
                        if x and x[0] == "chain":
                            _k, a0, k, c, K, b0 = x
                            if a == a0 + 64 * k and c == ctr and b0 == base and k < 16:
                                if flags & END and k == 15:
                                    return self.node(("cv", a0, 1, c, K, base))
                                if not flags & END:
                                    return self.node(("chain", a0, k + 1, c, K, base))
        return self.node(("comp", cv, blk, blen, ctr, flags))

    def install(self, wide=None):
        v = self.v

        def args(blen, ctr, flags):
            if not all(isinstance(x, int) for x in (blen, ctr, flags)):
                raise Stuck("input-dependent parameters of the compression function")
            return blen & 255, ctr, flags & 255

        def inplace(v_, cv, block, blen, ctr, flags):
            r = self.comp(p22.cells(v, cv, 32), p22.cells(v, block, 64), *args(blen, ctr, flags))
            self.put(cv, r[:32])

        def xof(v_, cv, block, blen, ctr, flags, out):
            r = self.comp(p22.cells(v, cv, 32), p22.cells(v, block, 64), *args(blen, ctr, flags))
            self.put(out, r)
        v.override[COMP] = inplace
        v.override[XOF] = xof
        if wide:
            v.override[WIDE] = wide

    def put(self, p, bs):
        if p.off < 0 or p.off + len(bs) > p.obj.size:
            raise self.v.outside("store outside %s at %d" % (p.obj.name, p.off))
        for i, b in enumerate(bs):
            p.obj.cells[p.off + i] = b

    def wide(self, v_, inp, n, key, ctr, flags, out):
        """the contract of the subtree function, for a complete subtree of 2^k chunks, k >= 1"""
        if not isinstance(n, int) or n < 2048 or n & (n - 1) or not isinstance(ctr, int) or not isinstance(flags, int):
            return NotImplemented
        v = self.v
        K = tuple(p22.cells(v, key, 32))
        a = self.pos.get(v.cell(inp.obj, inp.off))
        if a is None or v.cell(inp.obj, inp.off + n - 1) != self.byte(a + n - 1):
            return NotImplemented
        h = n // 2048
        L = self.node(("cv", a, h, ctr, K, flags))
        R = self.node(("cv", a + 1024 * h, h, ctr + h, K, flags))
        self.put(out, L[:32] + R[:32])
        return 2

    # the standard
    def spec(self, K, base, n, out):
        def chunk(a, m, c):
            cv, nb = K, max(1, -(-m // 64))
            for k in range(nb):
                blk = [self.byte(a + 64 * k + i) for i in range(min(64, m - 64 * k))]
                b = tuple(blk + [0] * (64 - len(blk)))
                fl = base | (START if k == 0 else 0) | (END if k == nb - 1 else 0)
                if k == nb - 1:
                    return cv, b, len(blk), c, fl
                cv = self.comp(cv, b, 64, c, fl)[:32]

        def cvof(a, m, c):
            if m % 1024 == 0 and m and (m // 1024) & (m // 1024 - 1) == 0:
                return self.node(("cv", a, m // 1024, c, K, base))[:32]
            return self.comp(*tree(a, m, c))[:32]

        def tree(a, m, c):
            if m <= 1024:
                return chunk(a, m, c)
            left = 1 << (((m - 1) // 1024).bit_length() - 1)
            return K, cvof(a, 1024 * left, c) + cvof(a + 1024 * left, m - 1024 * left, c + left), 64, 0, base | PARENT
        cv, b, blen, c, fl = tree(0, n, 0)
        res, k = [], 0
        while len(res) < out:
            res += self.comp(cv, b, blen, k, fl | ROOT)
            k += 1
        return res[:out]


_tree = []


def fresh():
    """a new memory; the names are shared by all runs of a process"""
    if not _tree:
        _tree.append(Tree(VG(p22.module("blake3"), Graph())))
    t = _tree[0]
    v = t.v = VG(p22.module("blake3"), t.g)
    t.comps = 0
    return v, t


def c_comp(v, name):
    """value graph of the compression function, for any counter, block length and flags"""
    f = v.m.funcs.get(name)
    if f is None or not f.blocks or len(f.params) != (5 if name == COMP else 6):
        raise Stuck("%s not found" % name[1:])
    g = v.g
    cv, blk, out, par = v.string("cv", 32), v.string("block", 64), v.string("out", 64), v.string("params", 10)
    C, B, P = p22.cells(v, cv), p22.cells(v, blk), p22.cells(v, par)

    def word(bs):
        return g.norm(sum([tuple(g.word(x, 8)) for x in bs], ()))

    def ext(b):
        return g.norm(tuple(g.word(b, 8)) + (vg.ZERO,) * 24)
    v.call(name, [cv, blk, P[8], word(P[:8]), P[9]] + ([out] if name == XOF else []))
    want = std._b3(g, [word(C[4 * i:4 * i + 4]) for i in range(8)], B, [word(P[:4]), word(P[4:8])], ext(P[8]), ext(P[9]))
    bs = sum([std.to_le(g, x, 4) for x in want], [])
    got = p22.cells(v, out) if name == XOF else p22.cells(v, cv)
    return [("output", got, bs[:len(got)])]


def comp_cases():
    return [("blake3", "BLAKE3 compression (%s), any counter, length and flags" % n[1:], c_comp, (n,), 0, 64) for n in (COMP, XOF)]


def compression_exact():
    """the functions replaced by a symbol are the compression function of the standard"""
    for name in (COMP, XOF):
        v = VG(p22.module("blake3"), Graph())
        try:
            _w, got, want = c_comp(v, name)[0]
        except (Stuck, RecursionError) as e:
            return "%s: %s" % (name[1:], str(e)[:120])
        if got != want:
            return "%s is not the compression function of the standard" % name[1:]
    return None


def contract(top=44):
    """the subtree function meets its contract, by induction on the number of chunks; the largest n proved"""
    f = p22.module("blake3").funcs.get(WIDE)
    if f is None or len(f.params) != 6:
        return 0
    done = 0
    for k in range(1, top + 1):
        for c in (0, 3 << 34):
            v, t = fresh()
            def inner(v_, *a):
                r = t.wide(v_, *a) if k > 1 else NotImplemented
                return v.call_body(WIDE, a) if r is NotImplemented else r
            t.install()
            n = 1024 << k
            key, out = v.string("key", 32), v.obj("out", 64)
            inp = t.piece(0, n)
            v.override[WIDE] = inner
            try:
                r = v.call_body(WIDE, [inp, n, key, c, 16, Ptr(out)])
            except (Stuck, RecursionError):
                return done
            w, u = t.node(("cv", 0, n // 2048, c, tuple(p22.cells(v, key, 32)), 16)), \
                t.node(("cv", n // 2, n // 2048, c + n // 2048, tuple(p22.cells(v, key, 32)), 16))
            if r != 2 or tuple(p22.cells(v, Ptr(out))) != w[:32] + u[:32]:
                return done
        done = n
    return done


def run(pieces, keyed, out, wide_ok, box=None):
    """(got, want, graph interpreter) for a message handed over in pieces"""
    v, t = fresh()
    if box is not None:
        box.append(v)

    def wide(v_, *a):
        r = t.wide(v_, *a) if isinstance(a[1], int) and a[1] <= wide_ok else NotImplemented
        return v.call_body(WIDE, a) if r is NotImplemented else r
    t.install(wide)
    key = v.string("key", 32 if keyed else 0)
    K = tuple(p22.cells(v, key)) if keyed else IVB
    ctx = v.call("@caml_blake3_init", [key])
    a = 0
    for i, n in enumerate(pieces):
        b = (0, 5, 1)[i % 3]
        v.call("@caml_blake3_update", [ctx, t.piece(a, n, b), V(b), V(n)])
        a += n
    res = v.call("@caml_blake3_extract", [ctx, V(out)])
    t.used = t.comps
    return p22.cells(v, res), t.spec(K, KEYED if keyed else 0, a, out), v, t


# ---------------------------------------------------------------- the partition of the inputs
SMALL = [0, 1, 63, 64, 65, 128, 1023, 1024, 1025, 1088, 2047, 2048, 2049, 3072, 3073, 4096, 4097]


def short_lists(thorough):
    rnd = random.Random(7)
    L = [(x,) for x in SMALL + [5120, 6145, 7168, 7169, 8191, 8192, 8193, 15 * 1024, 16384, 16385, 31 * 1024 + 5]]
    L += [(x, y) for x in SMALL for y in SMALL]
    L += [(1024 * x, 1024 * y + z) for x in range(1, 18 if thorough else 10) for y in (1, 2, 3, 4, 7, 8, 13) for z in (0, 1)]
    L += [(1024 * x + 1, 1024 * y + z) for x in range(1, 18 if thorough else 10) for y in (2, 4, 8) for z in (0, 1023, 1)]
    L += [tuple(rnd.choice(SMALL + [rnd.randrange(9000)]) for _ in range(rnd.randint(3, 6))) for _ in range(1500 if thorough else 250)]
    return L


def long_lists(thorough):
    rnd = random.Random(11)
    L = [((1 << k) + d,) for k in range(14, 53, 1 if thorough else 3) for d in (-1024, 0, 1, 1024)]
    L += [(1, 1 << 41), (1024, 1 << 43), ((1 << 42) + 1024, 1 << 42), ((1 << 53) - 1024, 1), ((1 << 50) - 1, 1 << 50),
          ((1 << 44) - 1024, 1024, 1)]
    L += [tuple(rnd.getrandbits(rnd.randrange(10, 48)) for _ in range(rnd.randint(1, 4))) for _ in range(400 if thorough else 24)]
    return L


_state = []


def prepare():
    """shown once, before the workers start"""
    if not _state:
        why = compression_exact()
        _state.append((why, 0 if why else contract()))
    return _state[0]


def t_batch(*a):
    gc.disable()           # millions of small immutable objects
    try:
        batch(*a)
    finally:
        gc.enable()


def batch(r, rule, lists, keyed, only_bounds):
    try:
        m = p22.module("blake3")
    except Exception as e:
        r.unexplored.append("stubs-blake3.c: %s" % str(e)[:200])
        return
    why, wide_ok = prepare()
    if why:
        r.unexplored.append("BLAKE3 tree: " + why)
        return
    f = m.funcs.get("@blake3_hasher_update") or m.funcs.get("@caml_blake3_update")
    locs = ir.Locs(m)
    bad, stuck, n = None, None, 0
    for ps in lists:
        if not wide_ok and sum(ps) > 40000:
            stuck = stuck or (ps, "the contract of the subtree function is not established")
            continue
        box = []
        try:
            got, want, v, t = run(ps, keyed, 33 + 32 * (len(ps) % 2), wide_ok, box)
        except vg.Outside as e:
            bad = (ps, "%s at %s" % (str(e)[:120], box[0].where()))
            break
        except (Stuck, RecursionError) as e:
            stuck = stuck or (ps, "%s at %s" % (str(e)[:100], box[0].where()))
            continue
        n += 1
        r.stats["instructions followed"] = r.stats.get("instructions followed", 0) + v.steps
        r.stats["compressions named"] = r.stats.get("compressions named", 0) + t.comps
        if not t.used:
            stuck = stuck or (ps, "the compression function is not called by its name")
        elif not only_bounds and got != want:
            bad = (ps, "the digest is not the standard's function of the message (normal forms over the compression function differ)")
            break
    r.count("message lengths and splittings", n)
    if stuck:
        r.unexplored.append("BLAKE3 of pieces %s: %s" % (list(stuck[0]), stuck[1]))
    if n or bad:
        site = locs.funloc(f) if f else "blake3.c"
        r.ob(rule, bad is None, "%s blake3_hasher_update" % site, "BLAKE3%s tree of the pieces %s" % (
            " keyed" if keyed else "", list(bad[0]) if bad else "(%d lists from %s)" % (len(lists), list(lists[0]))),
            bad[1] if bad else "equal to the standard's tree" if not only_bounds else "every access inside its object")


def tasks(rule, lists, only_bounds=False, size=40, keyed=(0, 1)):
    try:
        prepare()
    except Exception:
        pass              # reported by the tasks
    out = []
    for k in keyed:
        ls = lists if not k else lists[::7]
        out += [(t_batch, (rule, ls[i::-(-len(ls) // size)], k, only_bounds)) for i in range(-(-len(ls) // size))]
    return out
