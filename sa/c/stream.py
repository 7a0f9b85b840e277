"""The data fed to the compression functions: which bytes of the message each
call consumes, in which order, and how the message is completed at the end.

A call of a compression function (a kernel with a constant footprint) is
matched with the next block of the padded message: the abstract memory
describes the bytes it reads as slices of the message S, constants and
numbers; the ghost C counts the bytes of S consumed so far, T the length of S."""
from . import units
from .interp import Lin, L, Ptr, ZERO, Term, T


class Spec:
    """B: block size; length: (bytes, 'big'|'little') of the bit count that ends the last block"""

    def __init__(self, B, length=None, pad=0x80):
        self.B, self.length, self.pad = B, length, pad


MD = {"sa_sha1": Spec(64, (8, "big")), "sa_sha256": Spec(64, (8, "big")), "sa_sha224": Spec(64, (8, "big")),
      "sa_sha512": Spec(128, (16, "big")), "sa_sha384": Spec(128, (16, "big")), "sa_ripemd160": Spec(64, (8, "little"))}


def reads(I, st, fp, args):
    """[(argument, lo, hi, parts)] of what the kernel reads"""
    out = []
    for i, rs in enumerate(fp.reads):
        p = args[i]
        for lo, hi in rs:
            sg = I.read_segs(st, p.r, st.canon(p.o + lo), L(hi - lo))
            out.append((i, lo, hi, None if sg is None else [(st.canon(s - p.o), st.canon(e - p.o), c) for s, e, c in sg if not st.has_ge(s - e)]))
    return out


def message(parts):
    return parts is not None and any(c[0] == "S" for _s, _e, c in parts)


class Blocks:
    """finds the data block among the reads of the compression function"""

    def __init__(self, B):
        self.B = B
        self.where = {}         # kernel -> (argument, lo)

    def block(self, I, st, name, fp, args):
        """the parts of the data block, positions relative to its start; None if the kernel reads no message"""
        rs = reads(I, st, fp, args)
        w = self.where.get(name)
        if w is None:
            hits = [(i, lo) for i, lo, hi, ps in rs if message(ps) and hi - lo == self.B]
            if len(hits) != 1:
                if any(message(ps) for _i, _l, _h, ps in rs):
                    return "?"
                return None
            w = self.where[name] = hits[0]
        if not hasattr(I, "consumers"):
            I.consumers = set()
        I.consumers.add(name.lstrip("@"))
        for i, lo, hi, ps in rs:
            if (i, lo) == w:
                return None if ps is None else [(st.canon(s - lo), st.canon(e - lo), c) for s, e, c in ps]
        return "?"


def show(c):
    if c[0] == "T":
        return "undetermined bytes" + (" (%s)" % c[1] if c[1] else "")
    if c[0] == "K":
        return "the byte 0x%02x" % c[1]
    if c[0] == "S":
        return " xor ".join("%s[%r + i]" % (n, d) for n, d in sorted(c[1], key=str))
    return "the number %s" % (c[1],)


def vague(I, c):
    """contents the analysis lost track of on a single cell: nothing is concluded from them"""
    return I is not None and I.cell is not None and (c[0] == "T" and c[1] not in getattr(I, "consumers", ()) or c[0] == "V" and not (isinstance(c[1], Lin) and not c[1].t))


def in_order(st, parts, C, B, origin, I=None):
    """is the whole block S[C .. C+B)?  origin: address of position 0 of the block in the coordinates of S deltas"""
    for s, e, c in parts:
        if vague(I, c):
            continue
        if c[0] != "S" or len(c[1]) != 1 or c[2]:
            return False, "bytes [%r, %r) of the block are %s" % (s, e, show(c))
        n, d = next(iter(c[1]))
        if n != "S" or not st.has_eq(d + origin - C):
            return False, "bytes [%r, %r) of the block are %s[%r ..) instead of S[%r ..)" % (s, e, n, st.canon(d + origin + s), st.canon(C + s))
    return True, ""


def number(st, parts, lo, hi, order):
    """the integer held by bytes [lo, hi) of the block, as an affine expression"""
    es = []
    for s, e, c in parts:
        if st.has_ge(s - lo):
            es.append((s, e, c))
        elif st.has_ge(e - lo - 1) and c[0] == "K":
            es.append((L(lo), e, c))
    tot, at = ZERO, lo
    for s, e, c in es:
        if s.t or e.t or s.c != at:
            return None
        n = e.c - s.c
        at = e.c
        w = 256 ** (hi - e.c) if order == "big" else 256 ** (s.c - lo)
        if c[0] == "K":
            v = L(sum(c[1] << (8 * k) for k in range(n)))
        elif c[0] == "V" and c[2] == n and (n == 1 or order == "little"):
            v = c[1] if isinstance(c[1], Lin) else st.lin(c[1])
            lo_, hi_ = st.bounds(v)
            if lo_ is None or lo_ < 0 or hi_ is None or hi_ >> (8 * n):
                v = st.uns(c[1], 8 * n)
        elif c[0] == "V" and c[2] == n:
            return None
        else:
            return None
        tot = tot + v.scale(w)
    return tot if at == hi else None


# ------------------------------------------------------------------ refinement of alarms
# Where the general argument (all lengths at once) does not go through, the
# unit is analysed again on single cells of the partition of its inputs by the
# lengths of the pieces: there positions and lengths are constants and the
# contents of the blocks are exact.  A rule that fails on a cell is a violation
# with that cell as its witness; one that fails on no cell is reported as not
# proved.


def script(ls, before=(), after=()):
    out = list(before)
    for x in ls:
        out += [1, x, 0, x]
    return out + [0] + list(after)


def cells(B, nl=0, small=False):
    """lists of piece lengths around the block size B and the padding limit B - nl"""
    ends = [0, 1, 7, B // 2, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B + 5]
    if nl:
        ends += [B - nl - 2, B - nl - 1, B - nl, B - nl + 1, 2 * B - nl - 1, 2 * B - nl]
    out = [[x] for x in sorted(set(x for x in ends if x > 0))] + [[0]]
    for a in (1, B // 2 + 1, B - 1, B, B + 1):
        r = -a % B
        for b in sorted({0, 1, r - 1, r, r + 1, r + B - 1, r + B, r + B + 1, r + 2 * B}):
            if b >= 0:
                out.append([a, b])
    for a, b, c in ((1, 1, 1), (1, B - 2, 1), (1, B - 1, B), (B - 1, 1, B - 1), (3, B - 1, B), (B, B, B), (B - 1, 2, B - 1), (5, 2 * B, 7), (B + 1, B - 1, 1), (B // 2, B // 2, 3)):
        out.append([a, b, c])
    return out


BIG = [[1 << 29], [(1 << 29) - 1, 1], [(1 << 29) + 77], [1 << 32], [(1 << 32) - 1, 1], [(1 << 32) + 5, 3], [1 << 31, 1 << 31, 9],
       [(1 << 28) + 1, 1 << 28, 1 << 28], [(1 << 35) + 1], [1 << 33, 1 << 40, 11], [(1 << 60) + 3], [(1 << 56) + 1, (1 << 59) + 7, 65]]


def run_cells(r, h, fn, prep, rules, cs, mk, fps=None):
    """cs: [(piece lengths, is it a big one)]; number of violated obligations"""
    hit = 0
    fps = {} if fps is None else fps
    for ls, isbig in cs:
        def pr(I):
            prep(I)
            I.script, I.cell, I.fine, I.big = mk(ls), ls, False, isbig
            I.fps = fps
            if not isbig:
                I.UNROLL, I.UNROLL_INS = 4000, 2000000
        J = units.analyse(h, fn, 60, pr)
        r.count("cells of the input partition")
        if J.error:
            r.unexplored.append("%s: pieces of %s bytes: %s" % (fn, ls, J.error))
        for k, v in sorted(J.obs.items()):
            if k[0] in rules and not v[0]:
                hit += 1
                site, func = k[1].rsplit(" ", 1)
                r.ob(k[0], False, site, "%s: %s" % (func, k[2]), "for pieces of %s bytes: %s" % (" + ".join(map(str, ls)), v[1]))
        if hit > 6:
            break
        yield J, hit
    yield None, hit


def only_cells(r, h, fn, prep, rules, cs, mk=script):
    """a bounded argument: the rules on the cells, no general proof attempted"""
    for J, hit in run_cells(r, h, fn, prep, rules, cs, mk):
        if J is not None:
            units.collect(r, J, h, fn, rules)


def decide(r, h, fn, prep, rules, cs, limit=200, big=(), mk=script):
    """the rules on the unit fn of harness h: in general, else cell by cell"""
    I = units.analyse(h, fn, limit, prep)
    bad = {k: v for k, v in I.obs.items() if k[0] in rules and not v[0]}
    if not bad and not I.error:
        units.collect(r, I, h, fn, rules)
        return True
    hit = 0
    for _j, hit in run_cells(r, h, fn, prep, rules, [(c, False) for c in cs] + [(c, True) for c in big], mk, I.fps):
        pass
    if hit:
        return False
    for k, v in bad.items():
        I.obs.pop(k)
    units.collect(r, I, h, fn, rules)
    for k, v in sorted(bad.items())[:3]:
        r.unexplored.append("%s: not proved in general (%s at %s: %s), held on %d cells of the input partition" % (fn, k[0], k[1], v[1][:120], len(cs) + len(big)))
    return True
