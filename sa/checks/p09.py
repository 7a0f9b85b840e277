"""P09: constructors accept exactly the documented parameters.

The table below is the documentation (cryptokit.mli) written as a partition of
the parameter space of every constructor into pieces: on a valid piece no
exceptional outcome may be feasible, on an invalid piece no normal outcome."""
from .. import run, oeval as O, classes as C, surface as S
from ..poly import Lin, fresh

MAX = O.MAXSTR
KEY, IVS = ("Wrong_key_size",), ("Wrong_IV_size",)
ANYEXN = None


# --- argument builders: (I, st) -> (st, value)
def Str(lo, hi=None):
    hi = lo if hi is None else hi

    def f(I, st):
        v, st = I.unknown(st, "string", "s")
        n = I.length(st, v)
        return st.with_poly(st.poly.add_ge0(n - lo).add_ge0(Lin(hi) - n)), v
    return f


def Int(lo, hi):
    def f(I, st):
        v, st = I.newvar(st, lo, hi, "n")
        return st, v
    return f


def Mul8(lo, hi, r=0, r2=None):
    """8k + r, lo <= k <= hi (r in [r, r2])"""
    def f(I, st):
        k, st = I.newvar(st, lo, hi, "k")
        if r2 is None:
            return st, k.scale(8) + r
        x, st = I.newvar(st, r, r2, "r")
        return st, k.scale(8) + x
    return f


def No(I, st):
    return st, O.Con("None")


def Some(b):
    def f(I, st):
        st, v = b(I, st)
        return st, O.Con("Some", (v,))
    return f


def K(name, *bs):
    def f(I, st):
        vs = []
        for b in bs:
            st, v = b(I, st)
            vs.append(v)
        return st, O.Con(name, tuple(vs))
    return f


def Any(ty):
    def f(I, st):
        return C.unknown_arg(I, st, ty, "a")
    return f


def Cipher(I, st):
    return C.unknown_arg(I, st, "block_cipher", "c")


def Pad(I, st):
    v, st = I.unknown(st, "Padding.scheme", "p")
    return st, v


DIR = [K("Encrypt"), K("Decrypt")]
I64 = Int(O.I64MIN, O.I64MAX)
BIG = O.MAXINT // 16


def pieces(valid):
    """valid: list of (lo, hi); -> [(builder, good)] covering all string lengths"""
    out, at = [], 0
    for lo, hi in valid:
        if at < lo:
            out.append((Str(at, lo - 1), False, "%d..%d" % (at, lo - 1)))
        out.append((Str(lo, hi), True, "%d..%d" % (lo, hi)))
        at = hi + 1
    if at <= MAX:
        out.append((Str(at, MAX), False, "%d.." % at))
    return out


AES = [(16, 16), (24, 24), (32, 32)]
BF = [(4, 56)]
DES = [(8, 8)]
TDES = [(16, 16), (24, 24)]
CHA = [(16, 16), (32, 32)]


def ints(valid):
    out, at = [], O.MININT
    for lo, hi in valid:
        if at < lo:
            out.append((Int(at, lo - 1), False, "%d..%d" % (at, lo - 1)))
        out.append((Int(lo, hi), True, "%d..%d" % (lo, hi)))
        at = hi + 1
    if at <= O.MAXINT:
        out.append((Int(at, O.MAXINT), False, "%d.." % at))
    return out


def bits(lo8, hi8):
    """digest sizes in bits: multiples of 8 with 8*lo8 <= size <= 8*hi8"""
    top = hi8 if hi8 is not None else BIG
    out = [(Mul8(lo8, top), True, "%d..%s step 8" % (8 * lo8, 8 * top)),
           (Mul8(0, top, 1, 7), False, "not a multiple of 8"),
           (Int(O.MININT, 8 * lo8 - 1), False, "below %d" % (8 * lo8))]
    if hi8 is not None:
        out.append((Int(8 * hi8 + 1, O.MAXINT), False, "above %d" % (8 * hi8)))
    return out


def ivs(bs, ignored=False):
    out = [(No, True, "no IV")]
    for b, good, d in pieces([(bs, bs)]):
        out.append((Some(b), good or ignored, "IV length " + d))
    return out


def modes(bs):
    """(mode builder, good, description, iv ignored)"""
    out = [(No, True, "default mode", False), (Some(K("ECB")), True, "ECB", True), (Some(K("CBC")), True, "CBC", False),
           (Some(K("CTR")), True, "CTR", False)]
    for c in ("CFB", "OFB", "CTR_N"):
        for b, good, d in ints([(1, bs)]):
            out.append((Some(K(c, b)), good, "%s %s" % (c, d), False))
    return out


def cipher_cases(keys, bs):
    cs = []
    kgood = [k for k in pieces(keys) if k[1]]
    # every key piece with default mode
    for kb, kg, kd in pieces(keys):
        for d in DIR:
            cs.append(([No, No, No, kb, d], kg, KEY, "key length " + kd))
    kb = kgood[0][0]
    for m, mg, md, ign in modes(bs):
        for iv, ig, idd in ivs(bs, ign):
            for i, d in enumerate(DIR):
                for pad in (No, Some(Pad)):
                    if pad is not No and not (mg and ig):
                        continue
                    cs.append(([m, pad, iv, kb, d], mg and ig, ANYEXN if not mg else IVS,
                               "%s, %s, %s" % (md, idd, "Encrypt" if i == 0 else "Decrypt")))
    return cs


def key_cases(keys, exn=KEY, pre=(), post=()):
    return [(list(pre) + [kb] + list(post), kg, exn, "key length " + kd) for kb, kg, kd in pieces(keys)]


def opt_iv_cases(keys, bs, withpad):
    cs = []
    p = [[No], [Some(Pad)]] if withpad else [[]]
    for pp in p:
        cs += [([No] + pp + [kb], kg, KEY, "key length " + kd) for kb, kg, kd in pieces(keys)]
        k = [x for x in pieces(keys) if x[1]][0][0]
        for iv, ig, d in ivs(bs):
            cs.append(([iv] + pp + [k], ig, IVS, d))
    return cs


def chacha_cases(post=()):
    cs = []
    for kb, kg, kd in pieces(CHA):
        cs.append(([No, No, kb], kg, KEY, "key length " + kd))
        cs.append(([Some(Str(8)), Some(I64), kb], kg, KEY, "key length " + kd + " with IV"))
    k = Str(32)
    for iv, ig, d in pieces([(8, 8), (12, 12)]):
        cs.append(([Some(iv), No, k], ig, IVS, "IV length " + d))
    cs.append(([Some(Str(8)), Some(I64), k], True, IVS, "8-byte IV, any 64-bit counter"))
    cs.append(([No, Some(I64), k], True, IVS, "no IV, any 64-bit counter"))
    cs.append(([Some(Str(12)), Some(Int(0, (1 << 32) - 1)), k], True, IVS, "12-byte IV, 32-bit counter"))
    cs.append(([Some(Str(12)), Some(Int(O.I64MIN, -1)), k], False, IVS, "12-byte IV, negative counter"))
    cs.append(([Some(Str(12)), Some(Int(1 << 32, O.I64MAX)), k], False, IVS, "12-byte IV, counter above 32 bits"))
    return [(a + list(post), g, e, d) for a, g, e, d in cs]


def aead_cases(keys, ivp):
    cs = []
    for d in DIR:
        for hd in (No, Some(Str(0, MAX))):
            giv = [x for x in ivp if x[1]]
            for kb, kg, kd in pieces(keys):
                for ib, ig, idd in giv:
                    cs.append(([hd, ib, kb, d], kg, KEY, "key length " + kd + ", IV " + idd))
            k = [x for x in pieces(keys) if x[1]][0][0]
            for ib, ig, idd in ivp:
                if not ig:
                    cs.append(([hd, ib, k, d], ig, IVS, "IV length " + idd))
    return cs


def mode_class(nargs, chunk):
    """?iv [chunk | ?inc] cipher, for an arbitrary block cipher"""
    def rel(f):
        return f
    cs = []
    for ivk in ("none", "eq", "lt", "gt"):
        for ck in (("in", "zero", "above") if chunk else ("-",)):
            def post(I, st, args, ivk=ivk, ck=ck):
                c = args[-1]
                bs = I.opq_attr(st, c, "blocksize")
                p = st.poly
                if ivk != "none":
                    n = I.length(st, args[0].args[0])
                    p = {"eq": lambda: p.add_eq0(n - bs), "lt": lambda: p.add_ge0(bs - n - 1),
                         "gt": lambda: p.add_ge0(n - bs - 1)}[ivk]()
                if chunk:
                    x = args[1].args[0] if isinstance(args[1], O.Con) else args[1]
                    p = {"in": lambda: p.add_ge0(x - 1).add_ge0(bs - x), "zero": lambda: p.add_ge0(-x),
                         "above": lambda: p.add_ge0(x - bs - 1)}[ck]()
                return st.with_poly(p)
            iv = No if ivk == "none" else Some(Str(0, MAX))
            mid = []
            if chunk:
                b = Int(O.MININT, O.MAXINT)
                mid = [Some(b) if chunk == "opt" else b]
            cs.append(([iv] + mid + [Cipher], ivk in ("none", "eq") and ck in ("-", "in"),
                       IVS if ck in ("-", "in") else ANYEXN, "IV %s, chunk %s" % (ivk, ck), post))
    if chunk == "opt":
        cs.append(([No, No, Cipher], True, IVS, "defaults"))
    return cs


def mac_class(n):
    """?iv ?pad and n ciphers with the same (or different) block sizes"""
    cs = []
    for ivk in ("none", "eq", "lt", "gt"):
        for pad in (No, Some(Pad)):
            for bsk in (("same",) if n == 1 else ("same", "diff12", "diff23")):
                def post(I, st, args, ivk=ivk, bsk=bsk):
                    cs_ = args[2:]
                    b = [I.opq_attr(st, c, "blocksize") for c in cs_]
                    p = st.poly
                    if ivk != "none":
                        ln = I.length(st, args[0].args[0])
                        p = {"eq": lambda: p.add_eq0(ln - b[0]), "lt": lambda: p.add_ge0(b[0] - ln - 1),
                             "gt": lambda: p.add_ge0(ln - b[0] - 1)}[ivk]()
                    if n == 3:
                        if bsk == "same":
                            p = p.add_eq0(b[0] - b[1]).add_eq0(b[1] - b[2])
                        elif bsk == "diff12":
                            p = p.add_ge0(b[0] - b[1] - 1).add_eq0(b[1] - b[2])
                        else:
                            p = p.add_eq0(b[0] - b[1]).add_ge0(b[2] - b[1] - 1)
                    return st.with_poly(p)
                iv = No if ivk == "none" else Some(Str(0, MAX))
                good = ivk in ("none", "eq") and bsk == "same"
                cs.append(([iv, pad] + [Cipher] * n, good, IVS if bsk == "same" else ("Incompatible_block_size",),
                           "IV %s, block sizes %s" % (ivk, bsk), post))
    return cs


SHA = [(224, 224), (256, 256), (384, 384), (512, 512)]
SPEC = {}


def spec(name, cases):
    SPEC["Cryptokit." + name] = cases


for c, ks in (("aes", AES), ("blowfish", BF), ("des", DES), ("triple_des", TDES)):
    for d in ("encrypt", "decrypt"):
        spec("Block.%s_%s" % (c, d), key_cases(ks))
spec("Block.cbc_encrypt", mode_class(2, None))
spec("Block.cbc_decrypt", mode_class(2, None))
spec("Block.cfb_encrypt", mode_class(3, "req"))
spec("Block.cfb_decrypt", mode_class(3, "req"))
spec("Block.ofb", mode_class(3, "req"))
spec("Block.ctr", mode_class(3, "opt"))
spec("Block.mac", mac_class(1))
spec("Block.mac_final_triple", mac_class(3))
spec("Stream.arcfour", key_cases([(1, 256)]))
spec("Stream.chacha20", chacha_cases())
spec("Cipher.aes", cipher_cases(AES, 16))
spec("Cipher.blowfish", cipher_cases(BF, 8))
spec("Cipher.des", cipher_cases(DES, 8))
spec("Cipher.triple_des", cipher_cases(TDES, 8))
for d in DIR:
    SPEC.setdefault("Cryptokit.Cipher.arcfour", []).extend(key_cases([(1, 256)], post=(d,)))
    SPEC.setdefault("Cryptokit.Cipher.chacha20", []).extend(chacha_cases((d,)))
spec("AEAD.aes_gcm", aead_cases(AES, pieces([(0, 11), (12, 12), (13, MAX)])))
spec("AEAD.chacha20_poly1305", aead_cases(CHA, pieces([(8, 8), (12, 12)])))
for h in ("sha2", "sha3", "keccak"):
    spec("Hash." + h, [([b], g, KEY, "size " + d) for b, g, d in ints(SHA)])
spec("Hash.blake2b", [([b], g, KEY, "size " + d) for b, g, d in bits(1, 64)])
spec("Hash.blake2s", [([b], g, KEY, "size " + d) for b, g, d in bits(1, 32)])
spec("Hash.blake3", [([b], g, KEY, "size " + d) for b, g, d in bits(1, None)])
for h, hi, ks in (("blake2b", 64, [(0, 64)]), ("blake2s", 32, [(0, 32)]), ("blake3", None, [(32, 32)])):
    spec("MAC." + h, [([b, kb], g and kg, KEY, "size %s, key length %s" % (d, kd))
                      for b, g, d in bits(1, hi) for kb, kg, kd in pieces(ks)])
spec("MAC.blake2b512", key_cases([(0, 64)]))
spec("MAC.blake2s256", key_cases([(0, 32)]))
spec("MAC.blake3_256", key_cases([(32, 32)]))
for h in ("sha1", "sha256", "sha384", "sha512", "ripemd160", "md5"):
    spec("MAC.hmac_" + h, key_cases([(0, 0), (1, 63), (64, 64), (65, 128), (129, MAX)]))
spec("MAC.aes", opt_iv_cases(AES, 16, True))
spec("MAC.des", opt_iv_cases(DES, 8, True))
spec("MAC.triple_des", opt_iv_cases(TDES, 8, True))
spec("MAC.des_final_triple_des", opt_iv_cases(TDES, 8, True))
spec("MAC.aes_cmac", opt_iv_cases(AES, 16, False))
spec("MAC.siphash", key_cases([(16, 16)]))
spec("MAC.siphash128", key_cases([(16, 16)]))
for g_ in ("pseudo_rng", "pseudo_rng_aes_ctr"):
    spec("Random." + g_, key_cases([(16, MAX)], ("Seed_too_short",)))
for h in ("sha1", "sha224", "sha256", "sha384", "sha512", "blake2b512", "blake2s256", "blake3_256", "ripemd160", "md5"):
    spec("Hash." + h, [([Any("unit")], True, None, "no parameter")])
# key generation: only the rejection of invalid sizes is a matter of parameters
ODD = Mul8(0, BIG, 1, 1), Mul8(0, BIG, 3, 3), Mul8(0, BIG, 5, 5), Mul8(0, BIG, 7, 7)
RNG = (No, Some(Any("Random.rng")))
for m in ("RSA", "Paillier"):
    cs = []
    for rng in RNG:
        for b, d in [(Int(O.MININT, 31), "below 32")] + [(o, "odd size") for o in ODD]:
            cs.append(([rng] + ([No] if m == "RSA" else []) + [b], False, KEY, d))
    spec(m + ".new_key", cs)
spec("DH.new_parameters", [([rng, No, Int(O.MININT, 160)], False, KEY, "not above the default private length") for rng in RNG] +
     [([rng, Some(Int(O.MININT, 31)), Int(O.MININT, 31)], False, KEY, "below 32") for rng in RNG] +
     [([rng, Some(Int(32, O.MAXINT)), Int(32, O.MAXINT)], False, KEY, "not above privlen",
       lambda I, st, a: st.with_poly(st.poly.add_ge0(a[1].args[0] - a[2]))) for rng in RNG])


def exn_name(v):
    if isinstance(v, O.Con):
        if v.name == "Error" and v.args and isinstance(v.args[0], O.Con):
            return v.args[0].name
        return v.name
    return repr(v)


def t_case(r, name, idx, ty):
    args_b, good, exn, desc = SPEC[name][idx][:4]
    post = SPEC[name][idx][4] if len(SPEC[name][idx]) > 4 else None
    I = O.Interp(run.program())
    I.max_outs = 12

    def build(I, st, _old=None):
        vs = []
        for b in args_b:
            st, v = b(I, st)
            vs.append(v)
        if post:
            st = post(I, st, vs)
        return st, vs
    if ty is None:
        st, vs = build(I, O.St())
        c = run.program().get_class(name)
        where = "src/cryptokit.ml:%d" % c.loc[0]
        outs = I.new_object(c, vs, st, c.node)
    else:
        f = run.program().member(name)
        where = "src/cryptokit.ml:%d" % f.node[1][0]
        st, vs = build(I, O.St())
        _, _, outs = S.call_value(I, name, ty, st=st, args=vs)
    outs = [o for o in outs if not o.st.poly.is_bot()]
    oks = [o for o in outs if not o.exn]
    exs = [exn_name(o.val) for o in outs if o.exn]
    inst = "%s %s" % (name, desc)
    if good:
        r.ob("valid-accepted", oks and not exs, where, inst,
             "documented as valid, but " + ("raises " + ", ".join(sorted(set(exs))) if exs else "never returns"))
    else:
        bad = [x for x in exs if exn is not None and x not in exn]
        r.ob("invalid-rejected", not oks and exs and not bad, where, inst,
             "documented as invalid, but " + ("is accepted" if oks else "raises %s instead of %s" % (sorted(set(bad)), exn)))
    r.count("parameter pieces")


def check(ctx):
    prog = run.program()
    cls, vals = S.surface(prog)
    vt = dict(vals)
    tasks = []
    for n, cases in SPEC.items():
        if n in vt:
            ty = vt[n]
        elif n in cls:
            ty = None
        else:
            raise O.ToolError("constructor %s is no longer exported" % n)
        ctx.count("constructors")
        for i in range(len(cases)):
            tasks.append((t_case, (n, i, ty)))
    tasks.sort(key=lambda t: 0 if "new_" in t[1][0] or "AEAD" in t[1][0] or "cmac" in t[1][0] else 1)
    ctx.run(tasks)
    ctx.need("constructors", 60)
    ctx.explanation = (
        "The documented parameter sets (key, IV, nonce, counter, digest, chunk sizes) partition each constructor's parameter space "
        "into symbolic pieces of unbounded length; abstract interpretation of the constructor on a valid piece must have no "
        "exceptional outcome, on an invalid piece no normal outcome and only the documented exception.")
