"""P22: the native primitives compute the functions of their standards, on every
processor.  The value graph of the code (sa/c/vg.py) is compared with the value
graph of the standard (sa/c/std.py), for all keys, messages and blocks at once."""
import gc, random
import os
import time

from ..c import ir, std, vg
from ..c.vg import ONE, ZERO, Graph, Ptr, Stuck, VG
from ..c import units

FILES = ["aes", "ghash", "des", "blowfish", "sha1", "sha256", "sha512", "sha3", "ripemd160", "blake2", "blake3",
         "siphash", "chacha20", "misc"]
_mods = {}


def module(f):
    if f not in _mods:
        _mods[f] = ir.parse(ir.compile_ll(os.path.join(ir.REPO, "src", "stubs-%s.c" % f)))
    return _mods[f]


def V(n):
    return 2 * n + 1          # an OCaml integer


def cells(v, p, n=None):
    o = p.obj
    return [v.cell(o, p.off + i) for i in range(o.size - p.off if n is None else n)]


# ---------------------------------------------------------------- cases: each returns [(what, actual bytes, expected bytes)]
def block(v, cook, prim, spec, n, B, extra=()):
    g = v.g
    key = v.string("key", n)
    src, dst = v.string("src", B + 9), v.string("dst", B + 11)
    S, D = cells(v, src), cells(v, dst)
    ck = v.call(cook, [key] + list(extra))
    v.call(prim, [ck, src, V(5), dst, V(3)])
    want = D[:3] + spec(g, cells(v, key), S[5:5 + B]) + D[3 + B:]
    return [("output block", cells(v, dst), want)]


def block_inplace(v, cook, prim, spec, n, B, extra=()):
    g = v.g
    key = v.string("key", n)
    buf = v.string("buf", B)
    S = cells(v, buf)
    ck = v.call(cook, [key] + list(extra))
    v.call(prim, [ck, buf, V(0), buf, V(0)])
    return [("output block", cells(v, buf), spec(g, cells(v, key), S))]


def c_aes(v, n, d, inplace):
    f = block_inplace if inplace else block
    return f(v, "@caml_aes_cook_%s_key" % d, "@caml_aes_" + d, std.aes_enc if d == "encrypt" else std.aes_dec, n, 16)


def c_ghash(v):
    key, x = v.string("key", 16), v.string("x", 16)
    K, X = cells(v, key), cells(v, x)
    c = v.call("@caml_ghash_init", [key])
    v.call("@caml_ghash_mult", [c, x])
    return [("product", cells(v, x), std.ghash_mul(v.g, X, K))]


def c_des(v, d, inplace):
    f = block_inplace if inplace else block
    return f(v, "@caml_des_cook_key", "@caml_des_transform", lambda g, k, b: std.des(g, k[:8], b, d == 1), 8, 8, (V(0), V(d)))


def c_des_ofs(v):
    key = v.string("key", 24)
    buf = v.string("buf", 8)
    S = cells(v, buf)
    ck = v.call("@caml_des_cook_key", [key, V(16), V(0)])
    v.call("@caml_des_transform", [ck, buf, V(0), buf, V(0)])
    return [("output block", cells(v, buf), std.des(v.g, cells(v, key)[16:], S))]


def blowfish_core(g, P, S, l, r, decrypt=False):
    """P: 18 words; S: four tables of 256 words"""
    def F(x):
        b = std.to_be(g, x, 4)
        t = [vg.table(g, S[i], b[i], 32) for i in range(4)]
        return std.add(g, 32, std.xor(g, 32, std.add(g, 32, t[0], t[1]), t[2]), t[3])
    Q = P[::-1] if decrypt else P
    for i in range(16):
        l = std.xor(g, 32, l, Q[i])
        r = std.xor(g, 32, r, F(l))
        l, r = r, l
    l, r = r, l
    return std.xor(g, 32, l, Q[17]), std.xor(g, 32, r, Q[16])


def c_blowfish(v, d):
    g = v.g
    ck = v.string("schedule", 4 * (18 + 1024))
    C = cells(v, ck)
    src, dst = v.string("src", 13), v.string("dst", 12)
    S, D = cells(v, src), cells(v, dst)
    v.call("@caml_blowfish_" + d, [ck, src, V(2), dst, V(1)])
    W = std._words(g, C, 4, std.le)
    l, r = blowfish_core(g, W[:18], [W[18 + 256 * i:18 + 256 * (i + 1)] for i in range(4)], std.be(g, S[2:6]),
                         std.be(g, S[6:10]), d == "decrypt")
    return [("output block", cells(v, dst), D[:1] + std.to_be(g, l, 4) + std.to_be(g, r, 4) + D[9:])]


def c_blowfish_inplace(v, d):
    g = v.g
    ck, buf = v.string("schedule", 4 * (18 + 1024)), v.string("buf", 8)
    C, S = cells(v, ck), cells(v, buf)
    v.call("@caml_blowfish_" + d, [ck, buf, V(0), buf, V(0)])
    W = std._words(g, C, 4, std.le)
    l, r = blowfish_core(g, W[:18], [W[18 + 256 * i:18 + 256 * (i + 1)] for i in range(4)], std.be(g, S[:4]), std.be(g, S[4:]), d == "decrypt")
    return [("output block", cells(v, buf), std.to_be(g, l, 4) + std.to_be(g, r, 4))]


class Ident:
    """an uninterpreted block encryption, a function of the whole schedule"""

    def __init__(self, g):
        self.g, self.ids = g, {}

    def __call__(self, sched, l, r):
        k = self.ids.setdefault(sched, len(self.ids))
        out = []
        for s in (0, 1):
            out.append(tuple([self.g.var(("fun", k, l, r, s, i)) for i in range(32)]))
        return out


def c_blowfish_key(v, n):
    """the key schedule, the block encryption being uninterpreted"""
    g = v.g
    E = Ident(g)

    def enc(vg_, ctx, xl, xr):
        w = tuple(v.load(Ptr(ctx.obj, ctx.off + 4 * i), ir.I[32]) for i in range(18 + 1024))
        l, r = E(w, v.load(xl, ir.I[32]), v.load(xr, ir.I[32]))
        v.store(xl, l, ir.I[32])
        v.store(xr, r, ir.I[32])
    if "@Blowfish_Encrypt" not in v.m.funcs:
        raise Stuck("no function Blowfish_Encrypt")
    v.override["@Blowfish_Encrypt"] = enc
    key = v.string("key", n)
    K = cells(v, key)
    ck = v.call("@caml_blowfish_cook_key", [key])
    W = std.pi_words(18 + 1024)
    for i in range(18):
        W[i] = std.xor(g, 32, W[i], std.be(g, [K[(4 * i + j) % n] for j in range(4)]))
    l, r = 0, 0
    for i in range(0, 18 + 1024, 2):
        l, r = E(tuple(W), l, r)
        W[i], W[i + 1] = l, r
    return [("schedule", cells(v, ck), sum([std.to_le(g, x, 4) for x in W], []))]


def pieces(n, cut):
    return [n] if not cut else [min(cut, n), n - min(cut, n)]


def c_hash(v, init, args, update, final, fargs, spec, n, cut):
    """one message of n bytes, given at once or in two pieces"""
    msg = v.string("msg", n + 3)
    M = cells(v, msg)[3:]
    ctx = v.call(init, [x(v) if callable(x) else x for x in args])
    o = 3
    for k in pieces(n, cut):
        v.call(update, [ctx, msg, V(o), V(k)])
        o += k
    res = v.call(final, [ctx] + list(fargs) if final != "@caml_sha3_extract" else list(fargs) + [ctx])
    return [("digest", cells(v, res), spec(v.g, M))]


def c_blake2(v, w, klen, n, out):
    b = "blake2b" if w == 64 else "blake2s"
    key = v.string("key", klen)
    K = cells(v, key)
    msg = v.string("msg", n)
    M = cells(v, msg)
    ctx = v.call("@caml_%s_init" % b, [V(out), key])
    v.call("@caml_%s_update" % b, [ctx, msg, V(0), V(n)])
    res = v.call("@caml_%s_final" % b, [ctx, V(out)])
    return [("digest", cells(v, res), std.blake2(v.g, K, M, w, out))]


def c_blake3(v, keyed, n, out):
    key = v.string("key", 32 if keyed else 0)
    K = cells(v, key)
    msg = v.string("msg", n)
    M = cells(v, msg)
    ctx = v.call("@caml_blake3_init", [key])
    v.call("@caml_blake3_update", [ctx, msg, V(0), V(n)])
    res = v.call("@caml_blake3_extract", [ctx, V(out)])
    return [("digest", cells(v, res), std.blake3(v.g, K if keyed else None, M, out))]


def c_siphash(v, n, out):
    key = v.string("key", 16)
    K = cells(v, key)
    msg = v.string("msg", n)
    M = cells(v, msg)
    ctx = v.call("@caml_siphash_init", [key, V(out)])
    v.call("@caml_siphash_update", [ctx, msg, V(0), V(n)])
    res = v.call("@caml_siphash_final", [ctx, V(out)])
    return [("tag", cells(v, res), std.siphash(v.g, K, M, out))]


def boxed(v, bits):
    o = v.obj("int64", 16)
    v.store(Ptr(o, 8), bits, ir.I[64])
    return Ptr(o)


def c_chacha(v, klen, ivlen, counter, n, how):
    """counter: a number, or None for any"""
    g = v.g
    key, iv = v.string("key", klen), v.string("iv", ivlen)
    K, N = cells(v, key), cells(v, iv)
    if counter is None:
        cb = tuple([g.var(("in", "counter", i // 8, i % 8)) for i in range(32 if ivlen == 12 else 64)])
        if ivlen == 12:
            cb = cb + (ZERO,) * 32
        ctr = cb
    else:
        ctr = counter
    ck = v.call("@caml_chacha20_cook_key", [key, iv, boxed(v, ctr)])
    src, dst = v.string("src", n + 4), v.string("dst", n + 4)
    S, D = cells(v, src), cells(v, dst)
    if how == "extract":
        v.call("@caml_chacha20_extract", [ck, dst, V(1), V(n)])
    elif how == "transform":
        v.call("@caml_chacha20_transform", [ck, src, V(2), dst, V(1), V(n)])
    else:
        v.call("@caml_chacha20_transform", [ck, dst, V(1), dst, V(1), V(n)])
        S = [0] + D
    ks = []
    for b in range(-(-n // 64)):
        if counter is None:
            assert b == 0
            c = cb[:32] if ivlen == 12 else cb
        else:
            c = (counter + b) & ((1 << (32 if ivlen == 12 else 64)) - 1)
        ks += std.chacha_block(g, K, N, c)
    out = ks[:n] if how == "extract" else [vg.xorb(g, a, b) for a, b in zip(ks, S[2:2 + n])]
    return [("output", cells(v, dst), D[:1] + out + D[1 + n:])]


# ---------------------------------------------------------------- comparison
def witness(v, a, b):
    """a valuation of the inputs under which two cells differ: {input: value}, or None"""
    g = v.g
    A, B = g.word(a, 8), g.word(b, 8)
    diff = [x ^ y for x, y in zip(A, B)]

    def show(val, lane):
        vals = {}
        for at, x in val.items():
            d = g.atoms[at]
            if d[0] == "in":
                vals.setdefault(d[1], {}).setdefault(d[2], 0)
                vals[d[1]][d[2]] |= (x >> lane & 1) << d[3]
        return {k: "".join("%02x" % t.get(i, 0) for i in range(max(t) + 1)) for k, t in vals.items()}

    def attempt(**kw):
        r, val = g.valuate(diff, **kw)
        for x in r:
            if x:
                return show(val, (x & -x).bit_length() - 1)
        return None
    try:
        for seed, lanes in ((1, 64), (2, 1024)):
            w = attempt(seed=seed, lanes=lanes)
            if w:
                return w
        # aim at the equality tests of the code
        eqs = list(v.eqs)
        for grp in [eqs] + [[e] for e in eqs[:6]] if eqs else []:
            for seed in (1, 2):
                force = solve(g, grp, seed)
                if force:
                    w = attempt(force=force, lanes=128, seed=seed)
                    if w:
                        return w
        # aim at single monomials of the difference
        for d in diff:
            for m in sorted(d, key=lambda m: len(g.monos[m]))[:8]:
                for rest in (True, False):
                    force = {}
                    if aim(g, m, force):
                        w = attempt(force=force, zero=rest, lanes=128)
                        if w:
                            return w
    except (Stuck, RecursionError):
        return None
    return None


def solve(g, eqs, seed):
    """an assignment of input bits that satisfies as many of these equalities (linear in the inputs) as possible"""
    rnd = random.Random(seed)
    piv, order = {}, []
    for A, B in eqs:
        for x, y in zip(A, B):
            d, c = set(), 0
            ok = True
            for m in x ^ y:
                t = g.monos[m]
                if not t:
                    c ^= 1
                elif len(t) == 1 and g.atoms[t[0]][0] == "in":
                    d ^= {t[0]}
                else:
                    ok = False
            if not ok:
                continue
            for p in [q for q in order if q in d]:
                e, k = piv[p]
                d ^= e
                c ^= k
            if d:
                p = min(d)
                for q in order:
                    if p in piv[q][0]:
                        piv[q] = (piv[q][0] ^ d, piv[q][1] ^ c)
                piv[p] = (d, c)
                order.append(p)
    force = {}
    for p, (d, c) in piv.items():
        v = c
        for a in d:
            if a != p:
                if a not in force:
                    force[a] = rnd.getrandbits(1)
                v ^= force[a]
        force[p] = v
    return force


def aim(g, m, force):
    for at in g.monos[m]:
        if not aim_atom(g, at, 1, force, 0):
            return False
    return True


def aim_atom(g, at, want, force, depth):
    if at in force:
        return force[at] == want
    d = g.atoms[at]
    if d[0] == "in":
        force[at] = want
        return True
    if d[0] == "def" and depth < 200:
        # a product: every factor; a sum: its first free factor, the others kept at 0
        b = d[1]
        if len(b) == 1:
            (m,) = b
            if want:
                return all(aim_atom(g, x, 1, force, depth + 1) for x in g.monos[m])
        got = 0
        free = None
        for m in b:
            if m == 0:
                got ^= 1
                continue
            t = g.monos[m]
            if len(t) == 1 and t[0] in force:
                got ^= force[t[0]]
            elif len(t) == 1 and free is None and g.atoms[t[0]][0] == "in":
                free = t[0]
            elif any(force.get(x) == 0 for x in t):
                pass
            else:
                if not aim_atom(g, t[0], 0, force, depth + 1):
                    got ^= 1
        if free is not None:
            force[free] = got ^ want
            return True
        return got == want
    return True


def t_case(r, *a):
    gc.disable()           # millions of small immutable objects: collected once, at the end
    try:
        one_case(r, *a)
    finally:
        gc.collect()
        gc.enable()


def one_case(r, f, name, fn, args, hw, distribute):
    try:
        m = module(f)
    except Exception as e:
        r.unexplored.append("stubs-%s.c: %s" % (f, str(e)[:200]))
        return
    v = VG(m, Graph(distribute=distribute, dense=f == "sha3"))
    v.cpuid = (0xFFFFFFFF if hw else 0,) * 4
    try:
        res = fn(v, *args)
    except vg.Outside as e:
        r.ob("standard", False, "%s %s" % tuple(v.where().rsplit(" ", 1)), name, str(e)[:160])
        return
    except (Stuck, RecursionError) as e:
        r.unexplored.append("%s: %s at %s" % (name, str(e)[:160], v.where()))
        return
    r.stats["instructions followed"] = r.stats.get("instructions followed", 0) + v.steps
    r.stats["atoms"] = r.stats.get("atoms", 0) + len(v.g.atoms)
    r.stats["functions"] = r.stats.get("functions", 0) + len(v.cover)
    entry = sorted(x[1:] for x in v.cover if x.startswith("@caml_"))[-1:]
    loc = v.locs.funloc(m.funcs["@" + entry[0]]) if entry else "?"
    for what, got, want in res:
        r.count("cells compared", len(want))
        bad = None
        if len(got) != len(want):
            bad = "%d bytes instead of %d" % (len(got), len(want))
        else:
            unk, t0 = None, time.time()
            for i, (a, b) in enumerate(zip(got, want)):
                if a is vg.UNDEF:
                    bad = "byte %d of the %s is never written" % (i, what)
                    break
                if a != b and what == "context":
                    bad = "byte %d of the freed context still depends on the key or the data" % i
                    break
                if a != b:
                    if unk is not None and time.time() - t0 > 60:
                        break
                    w = witness(v, a, b) if isinstance(a, (int, tuple)) and not (isinstance(a, tuple) and a[:1] == ("p",)) else {}
                    if w is None:
                        unk = i
                        continue
                    bad = "byte %d of the %s differs from the standard, for instance for %s" % (
                        i, what, ", ".join("%s=%s" % (k, x[:80]) for k, x in sorted(w.items())) or "every input")
                    break
            if bad is None and unk is not None:
                r.unexplored.append("%s: byte %d of the %s: the normal forms differ, no input found on which the values do" %
                                    (name, unk, what))
                continue
        r.ob("standard", bad is None, "%s %s" % (loc, entry[0] if entry else f), name, bad or
             "normal form of the %s equals the standard's (%d bytes)" % (what, len(want)))


def cases(thorough):
    out = []

    def c(f, name, fn, args, hw=0, distribute=64):
        out.append((f, name, fn, args, hw, distribute))
    for hw in (0, 1):
        nm = "AES instructions" if hw else "portable"
        for n in (16, 24, 32):
            for d in ("encrypt", "decrypt"):
                c("aes", "AES-%d %s, %s" % (8 * n, d, nm), c_aes, (n, d, False), hw)
                if thorough or n == 16:
                    c("aes", "AES-%d %s in place, %s" % (8 * n, d, nm), c_aes, (n, d, True), hw)
        c("ghash", "GHASH, %s" % ("carry-less multiplication" if hw else "portable"), c_ghash, (), hw, 10 ** 9)
    for d in (0, 1):
        for ip in (False, True):
            c("des", "DES %s%s" % (("encryption", "decryption")[d], " in place" if ip else ""), c_des, (d, ip))
    c("des", "DES third key", c_des_ofs, ())
    for d in ("encrypt", "decrypt"):
        c("blowfish", "Blowfish " + d, c_blowfish, (d,))
    for n in (range(4, 57) if thorough else (4, 5, 7, 8, 16, 55, 56)):
        c("blowfish", "Blowfish key of %d bytes" % n, c_blowfish_key, (n,))
    L64 = list(range(0, 132)) if thorough else [0, 1, 3, 55, 56, 63, 64, 65, 119, 128]
    L128 = list(range(0, 260)) if thorough else [0, 1, 111, 112, 127, 128, 129, 240]
    for h, spec, fin in (("sha1", std.sha1, "sha1"), ("sha256", std.sha256, "sha256"), ("sha224", std.sha224, "sha256"),
                         ("ripemd160", std.ripemd160, "ripemd160")):
        for n in L64:
            c(fin, "%s of %d bytes" % (h, n), c_hash, ("@caml_%s_init" % h, [1], "@caml_%s_update" % fin, "@caml_%s_final" % h, (),
                                                       spec, n, 7 if n % 2 else 0))
    for h, spec in (("sha512", std.sha512), ("sha384", std.sha384)):
        for n in L128:
            c("sha512", "%s of %d bytes" % (h, n), c_hash, ("@caml_%s_init" % h, [1], "@caml_sha512_update", "@caml_%s_final" % h, (),
                                                            spec, n, 7 if n % 2 else 0))
    for bits in (224, 256, 384, 512):
        rate = 200 - bits // 4
        for off, suf in ((1, 6), (0, 1)):
            for n in (([1, rate - 1] + ([rate] if bits == (256 if off else 512) else [])) if not thorough else [0, 1, 8, rate - 2, rate - 1, rate, rate + 1, 2 * rate - 1, 2 * rate]):
                c("sha3", "%s-%d of %d bytes" % ("SHA3" if off else "Keccak", bits, n), c_hash,
                  ("@caml_sha3_init", [V(bits)], "@caml_sha3_absorb", "@caml_sha3_extract", [V(off)],
                   Sha3(bits, suf), n, 5 if n % 2 else 0), 0, 1)
    for w, B in ((64, 128), (32, 64)):
        for klen in (0, 1, B // 2):
            for n in ([0, 1, B - 1, B, B + 1, 2 * B] if not thorough else [0, 1, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B]):
                for out_ in ((B // 2,) if n else (B // 2, 1, 20)):
                    c("blake2", "BLAKE2%s, key of %d bytes, %d bytes, digest of %d" % ("b" if w == 64 else "s", klen, n, out_),
                      c_blake2, (w, klen, n, out_))
    for keyed in (0, 1):
        for n, o in [(0, 32), (1, 32), (64, 32), (65, 64), (1023, 32), (1024, 65), (1025, 32), (2049, 32)] + \
                ([(2048, 130), (3073, 32), (4096, 32), (5121, 32), (7169, 32), (8193, 32), (15 * 1024 + 1, 32), (16384, 32), (16385, 32), (31745, 32)] if thorough else []):
            if not thorough and keyed and n not in (0, 65, 1025):
                continue
            c("blake3", "BLAKE3%s of %d bytes, %d bytes of output" % (" keyed" if keyed else "", n, o), c_blake3, (keyed, n, o))
    for out_ in (8, 16):
        for n in (range(0, 33) if thorough else list(range(0, 10)) + [15, 16, 17]):
            c("siphash", "SipHash-2-4 of %d bytes, tag of %d" % (n, out_), c_siphash, (n, out_))
    for k in (16, 32):
        for iv in (8, 12):
            for how in ("extract", "transform", "in place"):
                c("chacha20", "ChaCha20 key %d iv %d any counter %s" % (k, iv, how), c_chacha, (k, iv, None, 64, how))
            for ctr in (0, 1, (1 << 32) - 2) + (((1 << 32) - 1, 1 << 32, (1 << 64) - 2) if iv == 8 else ()):
                c("chacha20", "ChaCha20 key %d iv %d from block %d" % (k, iv, ctr), c_chacha, (k, iv, ctr, 128 if ctr else 100, "transform"))
    return out


class Sha3:
    def __init__(self, bits, suf):
        self.bits, self.suf = bits, suf

    def __call__(self, g, m):
        return std.sha3(g, m, self.bits, self.suf)


def t_load(r, f):
    module(f)


def preload(ctx):
    """compile the sources once, before the workers are started"""
    for f in FILES:
        try:
            module(f)
        except Exception:
            pass


def check(ctx):
    order = ["blake3", "sha3", "aes"]
    tasks = [(t_case, c) for c in sorted(cases(ctx.tier == "thorough"), key=lambda c: (order + [c[0]]).index(c[0]))]
    preload(ctx)
    from . import b3tree
    th = ctx.tier == "thorough"
    tasks += [(t_case, c) for c in b3tree.comp_cases()]
    tasks += b3tree.tasks("standard", [x for x in b3tree.short_lists(th) + b3tree.long_lists(th) if len(x) == 1])
    ctx.run(tasks)
    ctx.need("cells compared", 1000)
    ctx.explanation = (
        "Value numbering of the native primitives: every output byte of the code is put in algebraic normal form over the bits of "
        "the key, message and block and compared with the normal form of the standard's definition, in the portable and in the "
        "accelerated code path. Table look-ups are replaced by the normal form of the table; loops are followed while their "
        "conditions do not depend on the input; input-dependent branches are merged at their join.")
