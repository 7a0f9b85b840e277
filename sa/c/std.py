"""The standards, written over value graphs (sa/c/vg.py): every function takes a
Graph and bytes in normal form and returns bytes in normal form.  Nothing here is
taken from the sources under analysis; constants are derived where the standard
derives them (primes, pi, sines, linear-feedback registers)."""
import math

from .vg import SBOX, INVS, INVM, ONE, ZERO, table, xorb, gf_mul, mixcols, shiftrows, _ark, _sub


# ---------------------------------------------------------------- words
def le(g, bs):
    return g.norm(sum([g.word(b, 8) for b in bs], ()))


def be(g, bs):
    return le(g, bs[::-1])


def to_le(g, v, n):
    w = g.word(v, 8 * n)
    return [g.norm(w[8 * i:8 * i + 8]) for i in range(n)]


def to_be(g, v, n):
    return to_le(g, v, n)[::-1]


def xor(g, w, *vs):
    r = vs[0]
    for v in vs[1:]:
        r = g.bitwise("xor", r, v, w)
    return r


def add(g, w, *vs):
    return g.linear([(1, v) for v in vs], w)


def primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out if p * p <= k):
            out.append(k)
        k += 1
    return out


def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


def frac_root(p, k, bits):
    """the first bits of the fractional part of the k-th root of p"""
    return iroot(p << (k * bits), k) & ((1 << bits) - 1)


# ---------------------------------------------------------------- AES
def aes_keys(g, key):
    nk = len(key) // 4
    nr = nk + 6
    w = [key[4 * i:4 * i + 4] for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = [table(g, SBOX, b) for b in t[1:] + t[:1]]
            t[0] = xorb(g, t[0], rc)
            rc = gf_mul(rc, 2)
        elif nk > 6 and i % nk == 4:
            t = [table(g, SBOX, b) for b in t]
        w.append([xorb(g, a, b) for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]


def aes_enc(g, key, st):
    rk = aes_keys(g, key)
    st = _ark(g, st, rk[0])
    for r in range(1, len(rk) - 1):
        st = _ark(g, mixcols(g, shiftrows(_sub(g, st))), rk[r])
    return _ark(g, shiftrows(_sub(g, st)), rk[-1])


def aes_dec(g, key, st):
    rk = aes_keys(g, key)
    st = _ark(g, st, rk[-1])
    for r in range(len(rk) - 2, 0, -1):
        st = mixcols(g, _ark(g, _sub(g, shiftrows(st, True), INVS), rk[r]), INVM)
    return _ark(g, _sub(g, shiftrows(st, True), INVS), rk[0])


def ghash_mul(g, X, Y):
    """product in GF(2^128), bit 0 = most significant bit of byte 0"""
    xb = [g.word(X[i // 8], 8)[7 - i % 8] for i in range(128)]
    V = [g.word(Y[i // 8], 8)[7 - i % 8] for i in range(128)]
    Z = [ZERO] * 128
    for i in range(128):
        Z = [z ^ g.band(xb[i], b) for z, b in zip(Z, V)]
        l = V[127]
        V = [ZERO] + V[:127]
        for k in (0, 1, 2, 7):
            V[k] = V[k] ^ l
    return [g.norm(tuple([Z[8 * i + 7 - j] for j in range(8)])) for i in range(16)]


# ---------------------------------------------------------------- DES
IP = [58 - 8 * j + 2 * i for i in range(4) for j in range(8)] + [57 - 8 * j + 2 * i for i in range(4) for j in range(8)]
E = [32 if (4 * i + j) == 0 else (4 * i + j - 1) % 32 + 1 for i in range(8) for j in range(6)]
PP = [16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25]
PC1 = [57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
       63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4]
PC2 = [14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
       41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32]
ROT = [1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1]
DES_S = [
    "e4d12fb83a6c5907 0f74e2d1a6cb9538 41e8d62bfc973a50 fc8249175b3ea06d",
    "f18e6b34972dc05a 3d47f28ec01a69b5 0e7ba4d158c6932f d8a13f42b67c05e9",
    "a09e63f51dc7b428 d709346a285ecbf1 d6498f30b12c5ae7 1ad069874fe3b52c",
    "7de3069a1285bc4f d8b56f03472c1ae9 a690cb7df13e5284 3f06a1d8945bc72e",
    "2c417ab6853fd0e9 eb2c47d150fa3986 421bad78f9c5630e b8c71e2d6f09a453",
    "c1af92680d34e75b af427c9561de0b38 9ef528c3704a1db6 432c95fabe17608d",
    "4b2ef08d3c975a61 d0b7491ae35c2f86 14bdc37eaf680592 6bd814a7950fe23c",
    "d2846fb1a93e50c7 1fd8a374c56b0e92 7b419ce206adf358 21e74a8dfc90356b"]
DES_S = [[int(x, 16) for x in s.replace(" ", "")] for s in DES_S]


def des(g, key, block, decrypt=False):
    kb = [b for x in key for b in g.word(x, 8)[::-1]]
    cd = [kb[i - 1] for i in PC1]
    c, d = cd[:28], cd[28:]
    ks = []
    for r in ROT:
        c, d = c[r:] + c[:r], d[r:] + d[:r]
        x = c + d
        ks.append([x[i - 1] for i in PC2])
    if decrypt:
        ks.reverse()
    bb = [b for x in block for b in g.word(x, 8)[::-1]]
    bb = [bb[i - 1] for i in IP]
    l, r = bb[:32], bb[32:]
    for k in ks:
        e = [r[i - 1] ^ k[j] for j, i in enumerate(E)]
        out = []
        for s in range(8):
            v = e[6 * s:6 * s + 6]
            # index bits, least significant first, in the order row(1,6) column(2..5)
            tb = [DES_S[s][((x >> 5 & 1) << 1 | x & 1) * 16 + (x >> 1 & 15)] for x in range(64)]
            w = table(g, tb, g.norm(tuple(v[::-1])), 4)
            out += list(g.word(w, 4))[::-1]
        f = [out[i - 1] for i in PP]
        l, r = r, [a ^ b for a, b in zip(l, f)]
    x = r + l
    res = [None] * 64
    for j, i in enumerate(IP):
        res[i - 1] = x[j]
    return [g.norm(tuple(res[8 * i:8 * i + 8][::-1])) for i in range(8)]


# ---------------------------------------------------------------- Merkle-Damgaard hashes
def _pad(g, msg, block, lenbytes, big):
    n = len(msg)
    z = (-(n + 1 + lenbytes)) % block
    L = (8 * n).to_bytes(lenbytes, "big" if big else "little")
    return list(msg) + [0x80] + [0] * z + list(L)


def _words(g, bs, n, f):
    return [f(g, bs[i:i + n]) for i in range(0, len(bs), n)]


def sha1(g, msg):
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
    K = [int(2 ** 30 * math.sqrt(x)) for x in (2, 3, 5, 10)]
    m = _pad(g, msg, 64, 8, True)
    for o in range(0, len(m), 64):
        W = _words(g, m[o:o + 64], 4, be)
        for t in range(16, 80):
            W.append(g.rot(xor(g, 32, W[t - 3], W[t - 8], W[t - 14], W[t - 16]), 1, 32))
        a, b, c, d, e = h
        for t in range(80):
            if t < 20:
                f = xor(g, 32, g.bitwise("and", b, c, 32), g.bitwise("and", g.neg_bits(b, 32), d, 32))
            elif 40 <= t < 60:
                f = xor(g, 32, g.bitwise("and", b, c, 32), g.bitwise("and", b, d, 32), g.bitwise("and", c, d, 32))
            else:
                f = xor(g, 32, b, c, d)
            x = add(g, 32, g.rot(a, 5, 32), f, e, K[t // 20], W[t])
            a, b, c, d, e = x, a, g.rot(b, 30, 32), c, d
        h = [add(g, 32, x, y) for x, y in zip(h, (a, b, c, d, e))]
    return sum([to_be(g, x, 4) for x in h], [])


def sha2(g, msg, w, iv, outlen):
    rounds = 64 if w == 32 else 80
    K = [frac_root(p, 3, w) for p in primes(rounds)]
    S0, S1, s0, s1 = ((2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10)) if w == 32 else \
        ((28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6))

    def ror(x, n):
        return g.rot(x, w - n, w)

    def big(x, t):
        return xor(g, w, ror(x, t[0]), ror(x, t[1]), ror(x, t[2]))

    def small(x, t):
        return xor(g, w, ror(x, t[0]), ror(x, t[1]), g.shift("lshr", x, t[2], w))
    n = w // 8
    m = _pad(g, msg, 16 * n, 2 * n, True)
    h = list(iv)
    for o in range(0, len(m), 16 * n):
        W = _words(g, m[o:o + 16 * n], n, be)
        for t in range(16, rounds):
            W.append(add(g, w, small(W[t - 2], s1), W[t - 7], small(W[t - 15], s0), W[t - 16]))
        a, b, c, d, e, f, gg, hh = h
        for t in range(rounds):
            ch = xor(g, w, g.bitwise("and", e, f, w), g.bitwise("and", g.neg_bits(e, w), gg, w))
            mj = xor(g, w, g.bitwise("and", a, b, w), g.bitwise("and", a, c, w), g.bitwise("and", b, c, w))
            T1 = add(g, w, hh, big(e, S1), ch, K[t], W[t])
            T2 = add(g, w, big(a, S0), mj)
            a, b, c, d, e, f, gg, hh = add(g, w, T1, T2), a, b, c, add(g, w, d, T1), e, f, gg
        h = [add(g, w, x, y) for x, y in zip(h, (a, b, c, d, e, f, gg, hh))]
    return sum([to_be(g, x, n) for x in h], [])[:outlen]


IV256 = [frac_root(p, 2, 32) for p in primes(8)]
IV512 = [frac_root(p, 2, 64) for p in primes(8)]
IV384 = [frac_root(p, 2, 64) for p in primes(16)[8:]]
IV224 = [x & 0xFFFFFFFF for x in IV384]


def sha256(g, m):
    return sha2(g, m, 32, IV256, 32)


def sha224(g, m):
    return sha2(g, m, 32, IV224, 28)


def sha512(g, m):
    return sha2(g, m, 64, IV512, 64)


def sha384(g, m):
    return sha2(g, m, 64, IV384, 48)


def md5(g, msg):
    T = [int(abs(math.sin(i + 1)) * 2 ** 32) for i in range(64)]
    S = [(7, 12, 17, 22), (5, 9, 14, 20), (4, 11, 16, 23), (6, 10, 15, 21)]
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476]
    m = _pad(g, msg, 64, 8, False)
    w = 32
    for o in range(0, len(m), 64):
        X = _words(g, m[o:o + 64], 4, le)
        a, b, c, d = h
        for i in range(64):
            r = i // 16
            if r == 0:
                f, k = xor(g, w, g.bitwise("and", b, c, w), g.bitwise("and", g.neg_bits(b, w), d, w)), i
            elif r == 1:
                f, k = xor(g, w, g.bitwise("and", d, b, w), g.bitwise("and", g.neg_bits(d, w), c, w)), (5 * i + 1) % 16
            elif r == 2:
                f, k = xor(g, w, b, c, d), (3 * i + 5) % 16
            else:
                f, k = xor(g, w, c, g.bitwise("or", b, g.neg_bits(d, w), w)), 7 * i % 16
            x = add(g, w, b, g.rot(add(g, w, a, f, X[k], T[i]), S[r][i % 4], w))
            a, b, c, d = d, x, b, c
        h = [add(g, w, x, y) for x, y in zip(h, (a, b, c, d))]
    return sum([to_le(g, x, 4) for x in h], [])


RMD_RHO = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
RMD_SH = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8], [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
          [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9], [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
          [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5]]


def ripemd160(g, msg):
    w = 32
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
    KL = [0] + [int(2 ** 30 * math.sqrt(x)) for x in (2, 3, 5, 7)]
    KR = [iroot(x << 90, 3) for x in (2, 3, 5, 7)] + [0]
    zl = [list(range(16))]
    zr = [[(9 * i + 5) % 16 for i in range(16)]]
    for _ in range(4):
        zl.append([RMD_RHO[i] for i in zl[-1]])
        zr.append([RMD_RHO[i] for i in zr[-1]])

    def F(j, x, y, z):
        n = g.neg_bits
        if j == 0:
            return xor(g, w, x, y, z)
        if j == 1:
            return g.bitwise("or", g.bitwise("and", x, y, w), g.bitwise("and", n(x, w), z, w), w)
        if j == 2:
            return xor(g, w, g.bitwise("or", x, n(y, w), w), z)
        if j == 3:
            return g.bitwise("or", g.bitwise("and", x, z, w), g.bitwise("and", y, n(z, w), w), w)
        return xor(g, w, x, g.bitwise("or", y, n(z, w), w))
    m = _pad(g, msg, 64, 8, False)
    for o in range(0, len(m), 64):
        X = _words(g, m[o:o + 64], 4, le)
        L, R = list(h), list(h)
        for j in range(5):
            for i in range(16):
                for st, z, k, fj in ((L, zl, KL, j), (R, zr, KR, 4 - j)):
                    a, b, c, d, e = st
                    r = z[j][i]
                    t = add(g, w, g.rot(add(g, w, a, F(fj, b, c, d), X[r], k[j]), RMD_SH[j][r], w), e)
                    st[:] = [e, t, b, g.rot(c, 10, w), d]
        h = [add(g, w, h[(i + 1) % 5], L[(i + 2) % 5], R[(i + 3) % 5]) for i in range(5)]
    return sum([to_le(g, x, 4) for x in h], [])


# ---------------------------------------------------------------- Keccak
def keccak_f(g, A):
    """A: 25 lanes A[x + 5 y]"""
    w = 64
    rc, R = [], 1
    for _r in range(24):
        v = 0
        for j in range(7):
            if R & 1:
                v |= 1 << ((1 << j) - 1)
            R = (R << 1) ^ (0x171 if R & 0x80 else 0)
        rc.append(v)
    for r in range(24):
        C = [xor(g, w, *[A[x + 5 * y] for y in range(5)]) for x in range(5)]
        D = [xor(g, w, C[(x - 1) % 5], g.rot(C[(x + 1) % 5], 1, w)) for x in range(5)]
        A = [xor(g, w, A[i], D[i % 5]) for i in range(25)]
        B = [0] * 25
        x, y = 1, 0
        B[0] = A[0]
        for t in range(24):
            nx, ny = y, (2 * x + 3 * y) % 5
            B[nx + 5 * ny] = g.rot(A[x + 5 * y], (t + 1) * (t + 2) // 2 % 64, w)
            x, y = nx, ny
        A = [xor(g, w, B[i], g.bitwise("and", g.neg_bits(B[(i + 1) % 5 + i // 5 * 5], w), B[(i + 2) % 5 + i // 5 * 5], w))
             for i in range(25)]
        A[0] = xor(g, w, A[0], rc[r])
    return A


def sha3(g, msg, bits, suffix):
    n = bits // 8
    rate = 200 - 2 * n
    m = list(msg) + [suffix] + [0] * ((-(len(msg) + 1)) % rate)
    m[-1] = g.bitwise("xor", m[-1], 0x80, 8)
    A = [0] * 25
    for o in range(0, len(m), rate):
        ws = _words(g, m[o:o + rate], 8, le)
        A = [xor(g, 64, A[i], ws[i]) if i < len(ws) else A[i] for i in range(25)]
        A = keccak_f(g, A)
    return sum([to_le(g, x, 8) for x in A], [])[:n]


# ---------------------------------------------------------------- BLAKE2, BLAKE3
SIGMA = [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
         [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4], [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
         [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
         [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
         [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5], [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]]


def _G(g, w, rs, v, a, b, c, d, x, y):
    v[a] = add(g, w, v[a], v[b], x)
    v[d] = g.rot(xor(g, w, v[d], v[a]), w - rs[0], w)
    v[c] = add(g, w, v[c], v[d])
    v[b] = g.rot(xor(g, w, v[b], v[c]), w - rs[1], w)
    v[a] = add(g, w, v[a], v[b], y)
    v[d] = g.rot(xor(g, w, v[d], v[a]), w - rs[2], w)
    v[c] = add(g, w, v[c], v[d])
    v[b] = g.rot(xor(g, w, v[b], v[c]), w - rs[3], w)


def _round(g, w, rs, v, m):
    for i in range(4):
        _G(g, w, rs, v, i, 4 + i, 8 + i, 12 + i, m[2 * i], m[2 * i + 1])
    for i in range(4):
        _G(g, w, rs, v, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4, m[8 + 2 * i], m[9 + 2 * i])


def blake2(g, key, msg, w, outlen):
    n = w // 8
    B = 16 * n
    iv, rs, rounds = (IV512, (32, 24, 16, 63), 12) if w == 64 else (IV256, (16, 12, 8, 7), 10)
    h = list(iv)
    h[0] ^= 0x01010000 ^ (len(key) << 8) ^ outlen
    data = (list(key) + [0] * (B - len(key)) if key else []) + list(msg)
    nb = max(1, -(-len(data) // B))
    for k in range(nb):
        blk = data[k * B:(k + 1) * B]
        t = min((k + 1) * B, len(data))
        blk = blk + [0] * (B - len(blk))
        m = _words(g, blk, n, le)
        v = h + list(iv)
        M = (1 << w) - 1
        v[12] ^= t & M
        v[13] ^= t >> w
        if k == nb - 1:
            v[14] ^= M
        for r in range(rounds):
            s = SIGMA[r % 10]
            _round(g, w, rs, v, [m[i] for i in s])
        h = [xor(g, w, h[i], v[i], v[i + 8]) for i in range(8)]
    return sum([to_le(g, x, n) for x in h], [])[:outlen]


B3PERM = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8]


def _b3(g, cv, blk, counter, blen, flags):
    m = _words(g, blk + [0] * (64 - len(blk)), 4, le)
    c = [counter & 0xFFFFFFFF, counter >> 32] if isinstance(counter, int) else counter
    v = list(cv) + IV256[:4] + list(c) + [blen, flags]
    for r in range(7):
        _round(g, 32, (16, 12, 8, 7), v, m)
        m = [m[i] for i in B3PERM]
    return [xor(g, 32, v[i], v[i + 8]) for i in range(8)] + [xor(g, 32, v[i + 8], cv[i]) for i in range(8)]


def blake3(g, key, msg, outlen):
    """key: None or 32 bytes"""
    base = 16 if key is not None else 0
    kw = _words(g, list(key), 4, le) if key is not None else list(IV256)

    def chunk(data, i):
        """(cv, block, counter, length, flags) of the last block"""
        cv = kw
        nb = max(1, -(-len(data) // 64))
        for k in range(nb):
            b = data[64 * k:64 * k + 64]
            fl = base | (1 if k == 0 else 0) | (2 if k == nb - 1 else 0)
            if k == nb - 1:
                return cv, b, i, len(b), fl
            cv = _b3(g, cv, b, i, len(b), fl)[:8]

    def tree(data, i):
        if len(data) <= 1024:
            return chunk(data, i)
        n = (len(data) - 1) // 1024
        left = 1 << (n.bit_length() - 1)
        a = _b3(g, *tree(data[:1024 * left], i))[:8]
        b = _b3(g, *tree(data[1024 * left:], i + left))[:8]
        return kw, sum([to_le(g, x, 4) for x in a + b], []), 0, 64, base | 4
    cv, b, i, n, fl = tree(list(msg), 0)
    out, k = [], 0
    while len(out) < outlen:
        out += sum([to_le(g, x, 4) for x in _b3(g, cv, b, k, n, fl | 8)], [])
        k += 1
    return out[:outlen]


# ---------------------------------------------------------------- ChaCha20, SipHash
def chacha_block(g, key, nonce, counter):
    """nonce: 8 bytes (64-bit counter) or 12 bytes (32-bit counter); counter: a word"""
    k = _words(g, list(key), 4, le)
    c = b"expand 32-byte k" if len(k) == 8 else b"expand 16-byte k"
    st = [int.from_bytes(c[i:i + 4], "little") for i in range(0, 16, 4)]
    st += k if len(k) == 8 else k + k
    if len(nonce) == 8:
        cw = g.word(counter, 64)
        st += [g.norm(cw[:32]), g.norm(cw[32:])]
    else:
        st += [counter]
    st += _words(g, list(nonce), 4, le)
    v = list(st)

    def qr(a, b, c, d):
        w = 32
        v[a] = add(g, w, v[a], v[b])
        v[d] = g.rot(xor(g, w, v[d], v[a]), 16, w)
        v[c] = add(g, w, v[c], v[d])
        v[b] = g.rot(xor(g, w, v[b], v[c]), 12, w)
        v[a] = add(g, w, v[a], v[b])
        v[d] = g.rot(xor(g, w, v[d], v[a]), 8, w)
        v[c] = add(g, w, v[c], v[d])
        v[b] = g.rot(xor(g, w, v[b], v[c]), 7, w)
    for _ in range(10):
        for i in range(4):
            qr(i, 4 + i, 8 + i, 12 + i)
        for i in range(4):
            qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4)
    return sum([to_le(g, add(g, 32, x, y), 4) for x, y in zip(v, st)], [])


def siphash(g, key, msg, outlen):
    w = 64
    k0, k1 = le(g, list(key[:8])), le(g, list(key[8:16]))
    v = [xor(g, w, k0, int.from_bytes(b"somepseu", "big")), xor(g, w, k1, int.from_bytes(b"dorandom", "big")),
         xor(g, w, k0, int.from_bytes(b"lygenera", "big")), xor(g, w, k1, int.from_bytes(b"tedbytes", "big"))]
    if outlen == 16:
        v[1] = xor(g, w, v[1], 0xee)

    def rnd():
        v[0] = add(g, w, v[0], v[1])
        v[1] = g.rot(v[1], 13, w)
        v[1] = xor(g, w, v[1], v[0])
        v[0] = g.rot(v[0], 32, w)
        v[2] = add(g, w, v[2], v[3])
        v[3] = g.rot(v[3], 16, w)
        v[3] = xor(g, w, v[3], v[2])
        v[0] = add(g, w, v[0], v[3])
        v[3] = g.rot(v[3], 21, w)
        v[3] = xor(g, w, v[3], v[0])
        v[2] = add(g, w, v[2], v[1])
        v[1] = g.rot(v[1], 17, w)
        v[1] = xor(g, w, v[1], v[2])
        v[2] = g.rot(v[2], 32, w)
    n = len(msg)
    data = list(msg) + [0] * ((-(n + 1)) % 8) + [n & 255]
    for o in range(0, len(data), 8):
        m = le(g, data[o:o + 8])
        v[3] = xor(g, w, v[3], m)
        rnd()
        rnd()
        v[0] = xor(g, w, v[0], m)
    v[2] = xor(g, w, v[2], 0xee if outlen == 16 else 0xff)
    for _ in range(4):
        rnd()
    out = to_le(g, xor(g, w, *v), 8)
    if outlen == 16:
        v[1] = xor(g, w, v[1], 0xdd)
        for _ in range(4):
            rnd()
        out += to_le(g, xor(g, w, *v), 8)
    return out


# ---------------------------------------------------------------- Blowfish
def pi_words(n):
    """the first n 32-bit words of the fractional part of pi"""
    bits = 32 * n + 64

    def atan(x):
        t = (1 << bits) // x
        s, k, sg = t, 3, -1
        while t:
            t //= x * x
            s += sg * (t // k)
            k += 2
            sg = -sg
        return s
    pi = 4 * (4 * atan(5) - atan(239))
    f = (pi - (3 << bits)) >> 64
    return [(f >> (32 * (n - 1 - i))) & 0xFFFFFFFF for i in range(n)]
