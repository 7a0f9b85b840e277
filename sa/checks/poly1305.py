"""Poly1305 (part of P23): the native functions compute ((sum of blocks * powers of r) mod p + s) mod 2^128."""
import random
from ..c import ir
from ..c.vg import Ptr, Stuck, UNDEF
from ..c.poly import PV, V, paths

P = (1 << 130) - 5
INV = pow(P, -1, 1 << 128)
CLAMP = 0x0ffffffc0ffffffc0ffffffc0fffffff


def TV(n):
    return 2 * n + 1


def start(pv):
    pv.cpuid = (0,) * 4
    key = Ptr(pv.input("key", 32))
    return pv.call("@caml_poly1305_init", [key])


def feed(pv, ctx, n, cuts=()):
    msg = Ptr(pv.input("msg", max(n, 1)))
    a = 0
    for b in list(cuts) + [n]:
        pv.call("@caml_poly1305_update", [ctx, msg, TV(a), TV(b - a)])
        a = b


def words(pv, ctx, before):
    """the words of the context an update with a block computes from the message"""
    out = []
    for o in sorted(ctx.obj.cells):
        c = ctx.obj.cells[o]
        if isinstance(c, tuple) and c and c[0] == "v" and c[2] == 0 and not (before.get(o) is not None and before[o] == c):
            out.append((o, c[3]))
    return out


def setstate(pv, ctx, hw, inv):
    hs = []
    for i, (o, n) in enumerate(hw):
        if inv[i] == 0:
            for j in range(n):
                ctx.obj.cells[o + j] = 0
            hs.append(0)
            continue
        a = pv.atom(("in", "h", i), 0, inv[i])
        v = V({(a,): 1}, 0, inv[i])
        for j in range(n):
            ctx.obj.cells[o + j] = ("v", v, j, n)
        hs.append(v)
    return hs


def word(pv, ctx, o, n):
    return pv.load(Ptr(ctx.obj, o), ir.I[8 * n])


def nbits(pv, name, a, b, mask=None):
    return pv.inbits([("c", 0) if mask is not None and not mask >> i & 1 else ("b", pv.atom(("bit", name, 8 * a + i), 0, 1))
                      for i in range(8 * (b - a))])


def total(pv, vs, rad):
    r = 0
    for i, v in enumerate(vs):
        r = pv.lin(r, pv.times(v, 1 << rad * i), 1)
    return r


def addblock(pv, H, n):
    """(H + block + 2^(8n)) * r"""
    m = pv.lin(nbits(pv, "msg", 0, n), 1 << 8 * n, 1)
    return pv.times(pv.lin(H, m, 1), nbits(pv, "key", 0, 16, CLAMP))


def congruent(pv, a, b):
    d = pv.of(pv.lin(a, b, -1))
    return all(c % P == 0 for c in d.p.values())


def ref(key, msg):
    r = int.from_bytes(key[:16], "little") & CLAMP
    h = 0
    for i in range(0, len(msg), 16):
        h = (h + int.from_bytes(msg[i:i + 16] + b"\1", "little")) * r % P
    return ((h + int.from_bytes(key[16:], "little")) & ((1 << 128) - 1)).to_bytes(16, "little")


class Model:
    """the paths of the block step and of the completion"""

    def __init__(self, m):
        self.m = m
        pv = PV(m)
        ctx = start(pv)
        before = dict(ctx.obj.cells)
        feed(pv, ctx, 16)
        self.hw = words(pv, ctx, before)
        self.steps = pv.steps
        self.funcs = set(pv.cover)
        if not self.hw:
            raise Stuck("no word of the context depends on the processed block")
        self.init = []
        for o, n in self.hw:
            cs = [before.get(o + j, 0) for j in range(n)]
            if any(not isinstance(c, int) for c in cs):
                raise Stuck("initial state")
            self.init.append(int.from_bytes(bytes(cs), "little"))
        self.inv = list(self.init)
        self.blk = None
        self.fin = {}

    def block(self, inv):
        out = []

        def run(pv):
            ctx = start(pv)
            hs = setstate(pv, ctx, self.hw, inv)
            before = dict(ctx.obj.cells)
            feed(pv, ctx, 16)
            new = [word(pv, ctx, o, n) for o, n in self.hw]
            hc = {o + j for o, n in self.hw for j in range(n)}
            kept = True
            for o, c in before.items():
                if o in hc or c is UNDEF:
                    continue
                x = ctx.obj.cells[o]
                if x is c or isinstance(x, int) and x == c or isinstance(x, V) and isinstance(c, V) and pv.key(x) == pv.key(c):
                    continue
                kept = False
            return hs, new, kept
        for pv, r in paths(self.m, run):
            self.steps += pv.steps
            self.funcs |= pv.cover
            out.append((pv,) + r)
        return out

    def invariant(self):
        """bounds of the state words that every block step preserves"""
        for it in range(12):
            b = self.block(self.inv)
            new = list(self.inv)
            for pv, hs, vs, kept in b:
                for i, v in enumerate(vs):
                    h = v if isinstance(v, int) else v.hi
                    if h > new[i]:
                        new[i] = (1 << h.bit_length()) - 1
            if new == self.inv:
                self.blk = b
                return True
            self.inv = [min(x, (1 << 8 * n) - 1) for x, (_o, n) in zip(new, self.hw)]
        return False

    def finish(self, n, cuts=()):
        k = (n, tuple(cuts))
        if k not in self.fin:
            def run(pv):
                ctx = start(pv)
                hs = setstate(pv, ctx, self.hw, self.inv)
                if n:
                    feed(pv, ctx, n, cuts)
                res = pv.call("@caml_poly1305_final", [ctx])
                t = 0
                if not isinstance(res, Ptr) or res.obj.size < 16:
                    raise Stuck("result")
                for i in range(16):
                    c = pv.load(Ptr(res.obj, res.off + i), ir.I[8])
                    if c is UNDEF:
                        raise Stuck("byte %d of the tag is not written" % i)
                    t = pv.lin(t, pv.times(c, 1 << 8 * i), 1)
                return hs, t
            out = []
            for pv, r in paths(self.m, run):
                self.steps += pv.steps
                self.funcs |= pv.cover
                out.append((pv,) + r)
            self.fin[k] = out
        return self.fin[k]

    # -------------------------------------------- evaluation of the extracted step functions
    def env(self, key, msg, h):
        def e(d):
            if d[0] == "bit":
                s = key if d[1] == "key" else msg
                return s[d[2] >> 3] >> (d[2] & 7) & 1
            return h[d[2]]
        return e

    def tag(self, key, msg):
        h = list(self.init)
        n = len(msg) // 16
        blk = self.blk
        for i in range(n):
            e = self.env(key, msg[16 * i:16 * i + 16], h)
            for pv, hs, vs, kept in blk:
                if pv.holds(e):
                    h = [pv.value(v, e) for v in vs]
                    break
            else:
                return None
        rest = msg[16 * n:]
        e = self.env(key, rest, h)
        for pv, hs, t in self.finish(len(rest)):
            if pv.holds(e):
                return (pv.value(t, e) & ((1 << 128) - 1)).to_bytes(16, "little")
        return None


def pins(m):
    """settings of the message bits that equality conditions of the extracted paths ask for"""
    out = []
    for pv, hs, vs, kept in m.blk or ():
        for x, rel in pv.cons:
            if rel != "==":
                continue
            c = -x.p.get((), 0)
            bits = {}
            for mo, k in sorted(x.p.items(), key=lambda t: -abs(t[1])):
                if len(mo) == 1 and pv.atoms[mo[0]][0] == "bit" and pv.atoms[mo[0]][1] == "msg":
                    on = int(c >= k) if k > 0 else 0
                    c -= k * on
                    bits[pv.atoms[mo[0]][2]] = on
            if bits:
                out.append(bits)
    return out


def witness(m, lens):
    rnd = random.Random(7)

    def le(x):
        return (x & ((1 << 128) - 1)).to_bytes(16, "little")

    def trials():
        for bits in pins(m):
            for i in range(4):
                s = bytearray(rnd.randbytes(32))
                for b, x in bits.items():
                    s[b >> 3] = s[b >> 3] & ~(1 << (b & 7)) | x << (b & 7)
                yield rnd.randbytes(32), bytes(s)
        for n in lens:
            for i in range(3):
                yield rnd.randbytes(32), rnd.randbytes(n)
                yield rnd.randbytes(32), rnd.randbytes(32 + n)
            yield b"\xff" * 32, b"\xff" * (48 + n)
            yield b"\xff" * 16 + bytes(16), b"\xff" * (80 + n)
        # r = 1: the sum of the blocks is the state
        for t in [P - 1, P, P + 1, P + 4, (1 << 130) - 1, 1 << 130, (1 << 130) + 1, P - 2] + \
                 [(1 << 130) - (1 << k) for k in (26, 44, 52, 88, 104)] + [P + (1 << k) for k in (26, 44, 88, 104)] + \
                 [rnd.randrange(3 << 128, 1 << 130) for _ in range(4)]:
            s = t - (3 << 128)
            a = s // 3
            for pad in (bytes(16), b"\xff" * 16, rnd.randbytes(16)):
                yield le(1) + pad, le(a) + le(a) + le(s - 2 * a)
                b = min(s, (1 << 128) - 1)
                c = min(s - b, (1 << 128) - 1)
                yield le(1) + pad, le(b) + le(c) + le(s - b - c)
        # a last product next to a multiple of 2^130
        for r in (2, 4, 1, 3, 5, 8, 12):
            for k in range(1, r + 1):
                for e in (-1, 0, -4, -2, -5, 1, 4, -3, -8, 8):
                    t = -((-(k << 130) - e) // r)
                    for m1 in (0, (1 << 128) - 1, rnd.randrange(1 << 128)):
                        m2 = t - (1 << 128) - r * (m1 + (1 << 128)) % P
                        if 0 <= m2 < 1 << 128:
                            yield le(r) + bytes(16), le(m1) + le(m2)
                            break
        for i in range(6):
            yield rnd.randbytes(32), rnd.randbytes(64)
            yield b"\xff" * 16 + rnd.randbytes(16), b"\xff" * 64
            k = le(rnd.randrange(1 << 128) & rnd.randrange(1 << 128) & rnd.randrange(1 << 128))
            yield k + bytes(16), b"\xff" * 48
    for key, msg in trials():
        g = m.tag(key, msg)
        if g is not None and g != ref(key, msg):
            return key, msg, g
    return None


def radix(m):
    for rad in [44, 26] + list(range(20, 65)):
        ok = True
        for pv, hs, vs, kept in m.blk:
            if not congruent(pv, total(pv, vs, rad), addblock(pv, total(pv, hs, rad), 16)):
                ok = False
                break
        if ok:
            return rad
        if len(m.hw) not in (3, 5) and rad > 26:
            pass
    return None


def tag_ok(m, rad, n, cuts=()):
    """every path of the completion after n further bytes: None, or why it is not shown"""
    for pv, hs, t in m.finish(n, cuts):
        H = total(pv, hs, rad)
        R = addblock(pv, H, n) if n else H
        pad = nbits(pv, "key", 16, 32)
        d = pv.of(pv.lin(pv.lin(t, R, -1), pad, -1))
        q = {}
        for mo, c in d.p.items():
            # c = a * p + b * 2^128 with the smallest a
            a = c * INV % (1 << 128)
            if a >> 127:
                a -= 1 << 128
            if c != a * P:
                q[mo] = c - a * P
            if abs(a) >> 120:
                return "a term of the tag is not a small multiple of p modulo 2^128"
        red = pv.lin(pv.lin(t, V(q, 0, 0) if q else 0, -1), pad, -1)
        if not pv.within(red, 0, P - 1):
            return "the value before the addition of s is not shown to be reduced modulo p"
    return None


def t_poly(r, mod, cases, blk):
    name = "Poly1305"
    try:
        m = Model(mod)
        stable = m.invariant()
        if m.blk is None:
            m.blk = m.block([(1 << 8 * n) - 1 for _o, n in m.hw])
    except (Stuck, RecursionError) as e:
        r.unexplored.append("Poly1305: %s" % str(e)[:160])
        return
    f = mod.funcs.get("@caml_poly1305_update")
    L = ir.Locs(mod)
    sites = {k: "%s caml_poly1305_%s" % (L.funloc(mod.funcs["@caml_poly1305_" + k]), k) for k in ("update", "final")}
    lens = [n for n, _c in cases] or [0]
    todo = []
    if not stable:
        todo.append(("update", "one block step", "no bound of the state words is preserved"))
    rad = radix(m)
    ok = rad is not None and all(k for _p, _h, _v, k in m.blk)
    if not ok:
        todo.append(("update", "one block step", "the new state is not shown to be congruent to (state + block + 2^128) * r modulo 2^130 - 5"))
    elif stable and blk:
        r.ob("standard", True, sites["update"], "Poly1305, one block from any state",
             "%d words of radix 2^%d, bounds %s: congruent to (h + m + 2^128) * r modulo 2^130 - 5" % (
                 len(m.hw), rad, ", ".join("2^%d" % x.bit_length() for x in m.inv)))
    for n, cuts in cases:
        why = None
        if ok and stable:
            try:
                why = tag_ok(m, rad, n, cuts)
            except (Stuck, RecursionError) as e:
                why = str(e)[:120]
        else:
            why = "the block step is not shown"
        if why is None:
            r.ob("standard", True, sites["final"], "Poly1305 tag after %d further bytes%s" % (n, " in pieces" if cuts else ""),
                 "equals ((h * ...) mod 2^130 - 5 + s) mod 2^128 on each of %d paths" % len(m.finish(n, cuts)))
        else:
            todo.append(("final", "tag after %d further bytes%s" % (n, " (in pieces)" if cuts else ""), why))
    r.count("cells compared", 16 * len(cases))
    r.stats["instructions followed"] = r.stats.get("instructions followed", 0) + m.steps
    r.stats["functions"] = r.stats.get("functions", 0) + len(m.funcs)
    if todo:
        w = None
        try:
            ns = sorted({int(t[1].split()[2]) for t in todo if t[0] == "final"}) or lens
            if len(ns) > 6:
                ns = [0, 1, 7, 8, 15]
            w = witness(m, ns)
        except (Stuck, RecursionError) as e:
            r.unexplored.append("Poly1305: %s" % str(e)[:160])
        if w:
            r.ob("standard", False, sites["update" if todo[0][0] == "update" else "final"], name,
                 "%s; for key=%s message=%s the code's value is %s, the standard's %s" % (
                     todo[0][2], w[0].hex(), w[1].hex()[:200], w[2].hex(), ref(w[0], w[1]).hex()))
        else:
            for k, what, why in todo[:3]:
                r.unexplored.append("Poly1305, %s: %s" % (what, why))
