"""Linear-inequality abstract domain (polyhedra with a weak join) over integers.

Constraints are  e >= 0  or  e == 0  with e an integer affine expression.
Entailment is decided by an exact rational simplex with integer tightening
of the negated goal; no external solver is involved.
"""
from fractions import Fraction
from math import gcd
import itertools


class Lin:
    """Immutable affine expression  c + sum k_i * v_i  (k_i may be Fractions)."""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t          # tuple of (var, coef) sorted by var, coef != 0
        self._h = None

    @staticmethod
    def of(x):
        return x if isinstance(x, Lin) else Lin(x)

    @staticmethod
    def var(v):
        return Lin(0, ((v, 1),))

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def is_const(self):
        return not self.t

    def vars(self):
        return [v for v, _ in self.t]

    def coef(self, v):
        for w, k in self.t:
            if w == v:
                return k
        return 0

    def __add__(self, o):
        o = Lin.of(o)
        if not o.t:
            return Lin(self.c + o.c, self.t) if o.c else self
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for v, k in o.t:
            n = d.get(v, 0) + k
            if n:
                d[v] = n
            else:
                d.pop(v, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((v, -k) for v, k in self.t))

    def __sub__(self, o):
        return self + (-Lin.of(o))

    def __radd__(self, o):
        return self + o

    def __rsub__(self, o):
        return Lin.of(o) - self

    def scale(self, k):
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, tuple((v, c * k) for v, c in self.t))

    def subst(self, m):
        """m: var -> Lin"""
        hit = False
        for v, _ in self.t:
            if v in m:
                hit = True
                break
        if not hit:
            return self
        d = {}
        c = self.c
        for v, k in self.t:
            e = m.get(v)
            if e is None:
                d[v] = d.get(v, 0) + k
            else:
                c += e.c * k
                for w, q in e.t:
                    d[w] = d.get(w, 0) + q * k
        return Lin(c, tuple(sorted((v, k) for v, k in d.items() if k)))

    def rename(self, m):
        hit = False
        for v, _ in self.t:
            if v in m:
                hit = True
                break
        if not hit:
            return self
        return Lin(self.c, tuple(sorted((m.get(v, v), k) for v, k in self.t)))

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = ""
        for v, k in self.t:
            if k == 1:
                p = str(v)
            elif k == -1:
                p = "-" + str(v)
            else:
                p = "%s*%s" % (k, v)
            s += ("" if not s or p.startswith("-") else "+") + p
        if self.c:
            s += ("+" if self.c > 0 else "") + str(self.c)
        return s


def norm_ge(e):
    """Normalise e >= 0: integer coefficients, gcd-reduced, constant floored."""
    if not e.t:
        return e
    den = 1
    for _, k in e.t:
        if isinstance(k, Fraction) and k.denominator != 1:
            den = den * k.denominator // gcd(den, k.denominator)
    if isinstance(e.c, Fraction) and e.c.denominator != 1:
        den = den * e.c.denominator // gcd(den, e.c.denominator)
    if den != 1:
        e = e.scale(den)
    e = Lin(int(e.c), tuple((v, int(k)) for v, k in e.t))
    g = 0
    for _, k in e.t:
        g = gcd(g, abs(k))
    if g > 1:
        e = Lin(e.c // g, tuple((v, k // g) for v, k in e.t))
    return e


_fresh = itertools.count(1)


def fresh(hint="v"):
    return "%s#%d" % (hint, next(_fresh))


class Infeasible(Exception):
    pass


STATS = {"lp": 0, "entail": 0}


_lib = None


def _load():
    """build the simplex kernel (tools/lp.c) in a private scratch directory"""
    global _lib
    import ctypes, os, subprocess, tempfile, shutil
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools", "lp.c")
    d = tempfile.mkdtemp(prefix="verif-lp-")
    try:
        so = os.path.join(d, "lp.so")
        r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so, src, "-lgmp"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("cannot build tools/lp.c: " + r.stdout.decode("utf-8", "replace"))
        lib = ctypes.CDLL(so)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    lib.lp_open.restype = ctypes.c_void_p
    lib.lp_open.argtypes = [ctypes.c_char_p]
    lib.lp_ok.argtypes = [ctypes.c_void_p]
    lib.lp_ok.restype = ctypes.c_int
    lib.lp_close.argtypes = [ctypes.c_void_p]
    lib.lp_min.argtypes = [ctypes.c_void_p, ctypes.c_char_p]
    lib.lp_min.restype = ctypes.c_char_p
    lib.lp_redundant.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int]
    lib.lp_redundant.restype = ctypes.c_int
    _lib = lib
    return lib


class _LP:
    """Feasibility and minimisation over a list of constraints e >= 0."""
    __slots__ = ("h", "ok", "xs", "rowidx")

    def __init__(self, cons):
        STATS["lp"] += 1
        self.h = None
        xs = {}
        best = {}
        for e in cons:
            if not e.t:
                if e.c < 0:
                    self.ok = False
                    return
                continue
            for v, _ in e.t:
                if v not in xs:
                    xs[v] = len(xs)
            if e.t not in best or e.c < best[e.t]:
                best[e.t] = e.c
        self.xs = xs
        nx = len(xs)
        lo, hi = {}, {}
        rows, rowidx = [], {}
        for t, c in best.items():
            if len(t) == 1:
                v, k = t[0]
                j = xs[v]
                b = Fraction(-c, k)
                if k > 0:
                    if j not in lo or b > lo[j]:
                        lo[j] = b
                elif j not in hi or b < hi[j]:
                    hi[j] = b
            else:
                neg = tuple((v, -k) for v, k in t)
                if neg in rowidx:
                    s = rowidx[neg]
                    if s not in hi or c < hi[s]:
                        hi[s] = c
                    continue
                s = nx + len(rows)
                rowidx[t] = s
                lo[s] = -c
                rows.append("%d %s" % (len(t), " ".join("%d %s" % (xs[v], k) for v, k in t)))
        txt = "%d %d %d %s %d %s %s" % (nx, len(rows), len(lo), " ".join("%d %s" % x for x in lo.items()),
                                        len(hi), " ".join("%d %s" % x for x in hi.items()), " ".join(rows))
        lib = _lib or _load()
        self.h = lib.lp_open(txt.encode())
        self.ok = lib.lp_ok(self.h) != 0
        self.rowidx = rowidx

    def redundant(self, t):
        """is the constraint with variable part t implied by the others (it is
        then removed)?  Only for constraints on several variables."""
        if not self.ok:
            return False
        if t in self.rowidx:
            return _lib.lp_redundant(self.h, self.rowidx[t], 0) == 1
        n = tuple((v, -k) for v, k in t)
        if n in self.rowidx:
            return _lib.lp_redundant(self.h, self.rowidx[n], 1) == 1
        return False

    def minimize(self, e):
        """minimum of Lin e, or None if unbounded / unknown variable"""
        if not self.ok:
            return None
        for v, _ in e.t:
            if v not in self.xs:
                return None
        r = _lib.lp_min(self.h, ("%d %s" % (len(e.t), " ".join("%d %s" % (self.xs[v], k) for v, k in e.t))).encode())
        if not r:
            return None
        return Fraction(r.decode()) + e.c

    def __del__(self):
        if self.h is not None and _lib is not None:
            _lib.lp_close(self.h)
            self.h = None


_LPS = {}


def _lp(cons):
    """cached LP of a tuple of constraints"""
    r = _LPS.get(cons)
    if r is None:
        if len(_LPS) > 6000:
            for k in list(_LPS)[:3000]:
                del _LPS[k]
        r = _LPS[cons] = _CLP(cons)
    return r


class _CLP:
    """LP of one connected component, with memoised minima of variable parts"""
    __slots__ = ("lp", "ok", "memo")

    def __init__(self, cons):
        self.lp = _LP(cons)
        self.ok = self.lp.ok
        self.memo = {}

    def minimize(self, t):
        m = self.memo.get(t, 0)
        if m == 0:
            m = self.memo[t] = (self.lp.minimize(Lin(0, t)),)
        return m[0]


def _components(ge):
    """connected components of the constraint graph -> {var: tuple of constraints}"""
    par = {}

    def find(v):
        r = v
        while par[r] != r:
            r = par[r]
        while par[v] != r:
            par[v], v = r, par[v]
        return r
    for e in ge:
        t = e.t
        v0 = t[0][0]
        if v0 not in par:
            par[v0] = v0
        if len(t) > 1:
            r0 = find(v0)
            for v, _ in t[1:]:
                if v not in par:
                    par[v] = r0
                else:
                    r = find(v)
                    if r != r0:
                        par[r] = r0
    groups = {}
    for e in ge:
        groups.setdefault(find(e.t[0][0]), []).append(e)
    comp = {r: tuple(g) for r, g in groups.items()}
    return {v: comp[find(v)] for v in par}, list(comp.values())


def feasible(cons):
    return _LP(cons).ok


class Poly:
    """Conjunction of affine constraints. Immutable from the outside."""
    __slots__ = ("eq", "ge", "bot", "_cache", "_itv")

    def __init__(self, eq=None, ge=(), bot=False):
        self.eq = eq or {}      # var -> Lin (solved form)
        self.ge = ge            # tuple of Lin, e >= 0, none mention solved vars
        self.bot = bot
        self._cache = {}
        self._itv = None

    # --- canonical form -------------------------------------------------
    def canon(self, e):
        e = Lin.of(e)
        return e.subst(self.eq)

    # --- adding constraints ----------------------------------------------
    def add_eq0(self, e):
        """assume e == 0"""
        if self.bot:
            return self
        e = self.canon(e)
        if not e.t:
            return self if e.c == 0 else Poly(bot=True)
        n = norm_ge(e)
        # gcd test
        g = 0
        for _, k in n.t:
            g = gcd(g, abs(k))
        m = norm_ge(Lin(0, n.t))
        # find unit-coefficient variable; prefer the most recent name
        cand = [v for v, k in n.t if abs(k) == 1]
        ee = e
        den = 1
        for _, k in ee.t:
            if isinstance(k, Fraction):
                den = den * k.denominator // gcd(den, k.denominator)
        ee = ee.scale(den)
        ee = Lin(ee.c, tuple((v, int(k)) for v, k in ee.t))
        if isinstance(ee.c, Fraction):
            if ee.c.denominator != 1:
                return Poly(bot=True)
            ee = Lin(int(ee.c), ee.t)
        g = 0
        for _, k in ee.t:
            g = gcd(g, abs(k))
        if ee.c % g:
            return Poly(bot=True)
        if g > 1:
            ee = Lin(ee.c // g, tuple((v, k // g) for v, k in ee.t))
        cand = [v for v, k in ee.t if abs(k) == 1]
        if not cand:
            return self._with_ge([ee, -ee])
        v = max(cand, key=_age)
        k = ee.coef(v)
        rest = (ee - Lin(0, ((v, k),))).scale(-1 if k == 1 else 1)
        m = {v: rest}
        eq = {w: x.subst(m) for w, x in self.eq.items()}
        eq[v] = rest
        ge = []
        for x in self.ge:
            y = x.subst(m)
            if y is not x:
                y = norm_ge(y)
                if not y.t:
                    if y.c < 0:
                        return Poly(bot=True)
                    continue
            ge.append(y)
        return Poly(eq, tuple(dict.fromkeys(ge)))

    def _with_ge(self, es):
        ge = list(self.ge)
        d = {x.t: i for i, x in enumerate(ge)}
        for x in es:
            if not x.t:
                if x.c < 0:
                    return Poly(bot=True)
                continue
            i = d.get(x.t)
            if i is not None:
                if x.c < ge[i].c:
                    ge[i] = x
            else:
                d[x.t] = len(ge)
                ge.append(x)
        return Poly(self.eq, tuple(ge))

    def add_ge0(self, e):
        """assume e >= 0"""
        if self.bot:
            return self
        e = norm_ge(self.canon(e))
        if not e.t:
            return self if e.c >= 0 else Poly(bot=True)
        p = self._with_ge([e])
        if p.bot:
            return p
        # opposite constraint -> equality
        neg = tuple((v, -k) for v, k in e.t)
        for x in p.ge:
            if x.t == neg:
                if x.c + e.c < 0:
                    return Poly(bot=True)
                if x.c + e.c == 0:
                    q = Poly(p.eq, tuple(y for y in p.ge if y is not x and y != e))
                    return q.add_eq0(e)
        return p

    # --- queries ----------------------------------------------------------
    def _relevant(self, goal):
        vs = set(goal.vars())
        out = []
        rest = list(self.ge)
        changed = True
        while changed:
            changed = False
            nxt = []
            for e in rest:
                if any(v in vs for v, _ in e.t):
                    out.append(e)
                    for v, _ in e.t:
                        vs.add(v)
                    changed = True
                else:
                    nxt.append(e)
            rest = nxt
        return out

    def intervals(self):
        if self._itv is None:
            lo, hi = {}, {}
            for e in self.ge:
                if len(e.t) == 1:
                    v, k = e.t[0]
                    if k > 0:
                        b = -(e.c // k)
                        if v not in lo or b > lo[v]:
                            lo[v] = b
                    else:
                        b = e.c // (-k)
                        if v not in hi or b < hi[v]:
                            hi[v] = b
            self._itv = (lo, hi)
        return self._itv

    def quick_min(self, e):
        """lower bound of canonical e from intervals, or None"""
        lo, hi = self.intervals()
        s = e.c
        for v, k in e.t:
            if k > 0:
                b = lo.get(v)
            else:
                b = hi.get(v)
            if b is None:
                return None
            s += k * b
        return s

    def entails_ge0(self, e):
        if self.bot:
            return True
        STATS["entail"] += 1
        e = self.canon(e)
        if not e.t:
            return e.c >= 0
        q = self.quick_min(e)
        if q is not None and q >= 0:
            return True
        r = self._cache.get(e)
        if r is None:
            if self.is_bot():
                r = True
            else:
                m = self._min(e)
                r = m is not None and m > -1
            self._cache[e] = r
        return r

    def comps(self):
        c = self._cache.get("comps")
        if c is None:
            c = self._cache["comps"] = _components(self.ge)
        return c

    def _min(self, e):
        """exact minimum of the canonical e over the (non-empty) relaxation, or
        None: minima over independent components add up"""
        cm = self.comps()[0]
        if len(e.t) == 1:
            c = cm.get(e.t[0][0])
            m = None if c is None else _lp(c).minimize(e.t)
            return None if m is None else m + e.c
        groups = {}
        for v, k in e.t:
            c = cm.get(v)
            if c is None:
                return None
            groups.setdefault(id(c), (c, []))[1].append((v, k))
        tot = e.c
        for c, t in groups.values():
            m = _lp(c).minimize(tuple(t))
            if m is None:
                return None
            tot += m
        return tot

    def entails_eq0(self, e):
        if self.bot:
            return True
        e = self.canon(e)
        if not e.t:
            return e.c == 0
        return self.entails_ge0(e) and self.entails_ge0(-e)

    def is_bot(self):
        if self.bot:
            return True
        r = self._cache.get("bot")
        if r is None:
            r = not all(_lp(c).ok for c in self.comps()[1])
            self._cache["bot"] = r
            if r:
                self.bot = True
        return r

    def const_of(self, e):
        """the integer value of e if the constraints fix it, else None"""
        e = self.canon(e)
        if not e.t:
            return e.c
        lo, hi = self.intervals()
        a = self.quick_min(e)
        b = self.quick_min(-e)
        if a is not None and b is not None and a == -b:
            return a
        return None

    def bounds(self, e):
        """(lo, hi) by interval reasoning only (None = unbounded)"""
        e = self.canon(e)
        a = self.quick_min(e)
        b = self.quick_min(-e)
        return a, (None if b is None else -b)

    def min_value(self, e):
        """greatest integer k such that e >= k holds (LP relaxation), or None"""
        e = self.canon(e)
        if not e.t:
            return e.c
        key = ("min", e)
        if key in self._cache:
            return self._cache[key]
        m = None if self.is_bot() else self._min(e)
        r = None if m is None else -((-m.numerator) // m.denominator)
        self._cache[key] = r
        return r

    def max_value(self, e):
        m = self.min_value(-Lin.of(e))
        return None if m is None else -m

    # --- conversions -------------------------------------------------------
    def constraints(self):
        """list of ('eq'|'ge', Lin)"""
        return [("eq", Lin.var(v) - x) for v, x in self.eq.items()] + [("ge", x) for x in self.ge]

    def rename(self, m):
        eq = {m.get(v, v): x.rename(m) for v, x in self.eq.items()}
        return Poly(eq, tuple(x.rename(m) for x in self.ge), self.bot)

    def vars(self):
        s = set(self.eq)
        for x in self.eq.values():
            s.update(x.vars())
        for x in self.ge:
            s.update(x.vars())
        return s

    def project(self, keep, budget=400):
        """Eliminate every variable not satisfying keep(v) (Fourier-Motzkin;
        drops constraints when the elimination would blow up: sound)."""
        if self.bot:
            return self
        p = self
        eq = dict(p.eq)
        ge = list(p.ge)
        # solved variables that are dropped: just forget
        eq = {v: x for v, x in eq.items() if keep(v)}
        # free variables to drop, used in eq of kept vars: try to re-solve
        drop = set()
        for x in eq.values():
            drop.update(v for v in x.vars() if not keep(v))
        for x in ge:
            drop.update(v for v in x.vars() if not keep(v))
        ge = _itv_prune(ge)
        if len(drop) > 8:
            # variables that only have bounds of their own go at once
            busy = set()
            for x in eq.values():
                busy.update(x.vars())
            for x in ge:
                vs = list(x.vars())
                if len(vs) > 1:
                    busy.update(vs)
            lone = drop - busy
            if lone:
                ge = [x for x in ge if not any(v in lone for v in x.vars())]
                drop = drop - lone
        drop = sorted(drop)
        while drop:
            if len(drop) > 1:
                def cost(d):
                    if any(x.coef(d) in (1, -1) for x in eq.values()):
                        return -1
                    a = sum(1 for x in ge if x.coef(d) > 0)
                    b = sum(1 for x in ge if x.coef(d) < 0)
                    return a * b - a - b
                d = min(drop, key=cost)
            else:
                d = drop[0]
            drop.remove(d)
            # use an equality to substitute d
            sub = None
            for v, x in eq.items():
                k = x.coef(d)
                if k in (1, -1):
                    # v = k*d + r  ->  d = k*(v - r)
                    r = x - Lin(0, ((d, k),))
                    sub = (v, (Lin.var(v) - r).scale(k))
                    break
            if sub:
                v, dx = sub
                del eq[v]
                m = {d: dx}
                eq = {w: x.subst(m) for w, x in eq.items()}
                # keep v unsolved (free)
                ge = [norm_ge(x.subst(m)) for x in ge]
                continue
            for v in [v for v, x in eq.items() if x.coef(d)]:
                x = Lin.var(v) - eq.pop(v)
                ge += [norm_ge(x), norm_ge(-x)]
            pos = [x for x in ge if x.coef(d) > 0]
            neg = [x for x in ge if x.coef(d) < 0]
            oth = [x for x in ge if x.coef(d) == 0]
            if len(pos) * len(neg) > budget:
                ge = oth
                continue
            for a in pos:
                for b in neg:
                    y = norm_ge(a.scale(-b.coef(d)) + b.scale(a.coef(d)))
                    if y.t:
                        oth.append(y)
                    elif y.c < 0:
                        return Poly(bot=True)
            best = {}
            for x in oth:
                if x.t not in best or x.c < best[x.t].c:
                    best[x.t] = x
            ge = _itv_prune(best.values())
            if len(ge) > 40:
                ge = _prune(ge)
        q = Poly()
        for v, x in eq.items():
            q = q.add_eq0(Lin.var(v) - x)
        for x in ge:
            if x.t:
                q = q.add_ge0(x)
            elif x.c < 0:
                return Poly(bot=True)
        return q

    def __repr__(self):
        if self.bot:
            return "BOT"
        return "{" + ", ".join(["%s=%s" % (v, x) for v, x in self.eq.items()] +
                               ["%s>=0" % x for x in self.ge]) + "}"


def _age(v):
    # prefer eliminating the youngest variable
    i = v.rfind("#")
    try:
        return (1, int(v[i + 1:]))
    except ValueError:
        return (0, v and 0)


def _itv_prune(ge):
    """drop constraints on several variables already implied by the bounds of
    the single variables"""
    lo, hi = {}, {}
    for e in ge:
        if len(e.t) == 1:
            v, k = e.t[0]
            if k > 0:
                b = -(e.c // k)
                if v not in lo or b > lo[v]:
                    lo[v] = b
            else:
                b = e.c // (-k)
                if v not in hi or b < hi[v]:
                    hi[v] = b
    out = []
    for e in ge:
        if len(e.t) > 1:
            m = e.c
            for v, k in e.t:
                b = lo.get(v) if k > 0 else hi.get(v)
                if b is None:
                    m = -1
                    break
                m += k * b
            if m >= 0:
                continue
        out.append(e)
    return out


def _prune(ge):
    """remove constraints on several variables implied by the others"""
    best = {}
    for e in ge:
        if e.t and (e.t not in best or e.c < best[e.t].c):
            best[e.t] = e
    ge = sorted(best.values(), key=lambda e: -len(e.t))
    out = []
    for c in _components(ge)[1]:
        if len(c) < 3:
            out.extend(c)
            continue
        r = _PRUNED.get(c)
        if r is None:
            lp = _LP(c)
            r = list(c) if not lp.ok else [e for e in c if len(e.t) < 2 or not lp.redundant(e.t)]
            if len(_PRUNED) > 20000:
                _PRUNED.clear()
            _PRUNED[c] = r
        out.extend(r)
    return out


_PRUNED = {}


def affine_hull(p, q, vs):
    """Equalities over variables vs valid in both p and q (Karr join)."""
    # represent each as (basis point + directions) would be heavy; instead
    # collect equality rows of p over vs and test/adjust against q.
    eqs = []
    rows_p = _eq_rows(p)
    rows_q = _eq_rows(q)
    # linear combinations: solve for combos of rows_p entailed by q.
    allv = sorted(set(v for r in rows_p + rows_q for v in r.vars()))
    # residual of each p-row in q (canonical): vector over q's free vars + const
    res = [q.canon(r) for r in rows_p]
    # null space of residuals -> equalities valid in both
    dims = sorted(set(v for r in res for v in r.vars()))
    m = []
    for i, r in enumerate(res):
        m.append([Fraction(r.coef(v)) for v in dims] + [Fraction(r.c)])
    combos = _left_null(m)
    for cb in combos:
        e = Lin(0)
        for k, r in zip(cb, rows_p):
            if k:
                e = e + r.scale(k)
        if e.t:
            eqs.append(_int(e))
    return eqs


def _int(e):
    den = 1
    for _, k in e.t:
        k = Fraction(k)
        den = den * k.denominator // gcd(den, k.denominator)
    c = Fraction(e.c)
    den = den * c.denominator // gcd(den, c.denominator)
    return Lin(int(e.c * den), tuple((v, int(k * den)) for v, k in e.t))


def _eq_rows(p):
    return [Lin.var(v) - x for v, x in p.eq.items()]


def _left_null(m):
    """basis of { y : y^T m = 0 }"""
    n = len(m)
    if n == 0:
        return []
    rows = [list(r) + [Fraction(1 if i == j else 0) for j in range(n)] for i, r in enumerate(m)]
    w = len(m[0])
    r = 0
    for c in range(w):
        p = next((i for i in range(r, n) if rows[i][c]), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        for i in range(r + 1, n):
            if rows[i][c]:
                f = rows[i][c] / rows[r][c]
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[r])]
        r += 1
    return [row[w:] for row in rows[r:]]


def join(p, q, extra=()):
    return join_many([p, q], extra)


def join_many(ps, extra=()):
    """Weak join: constraints of any side entailed by all others, the affine
    hull of the equalities, and the extra candidate templates (e >= const)."""
    ps = [p for p in ps if not p.is_bot()]
    if not ps:
        return Poly(bot=True)
    uniq = []
    for p in ps:
        if not any(p is u or (p.eq == u.eq and p.ge == u.ge) for u in uniq):
            uniq.append(p)
    ps = uniq
    if len(ps) == 1:
        return ps[0]
    r = Poly()
    eqs = Poly(ps[0].eq)
    for q in ps[1:]:
        h = Poly()
        for e in affine_hull(eqs, q, None):
            h = h.add_eq0(e)
        eqs = Poly(h.eq)
    r = eqs
    seen = set()
    cands = []
    for i, a in enumerate(ps):
        for kind, e in a.constraints():
            for x in ((e, -e) if kind == "eq" else (e,)):
                x = norm_ge(r.canon(x))
                if x.t and x.t not in seen:
                    seen.add(x.t)
                    cands.append(x)
    for x in extra:
        x = norm_ge(r.canon(x))
        if x.t and x.t not in seen:
            seen.add(x.t)
            cands.append(x)
    found = []
    common = None
    for b in ps:
        d = set(b.ge)
        common = d if common is None else common & d
    for e in cands:
        e0 = Lin(0, e.t)
        if e in common:
            found.append(e)
            continue
        lows = []
        for b in ps:
            m = b.min_value(e0)
            if m is None:
                break
            lows.append(m)
        else:
            found.append(e0 - min(lows))
    # drop constraints implied by the others (cheap redundancy elimination)
    found.sort(key=lambda e: len(e.t))
    for e in found:
        if len(e.t) > 1 and r.quick_min(r.canon(e)) is not None and r.quick_min(r.canon(e)) >= 0:
            continue
        r = r.add_ge0(e)
    return r.minimize_cons()


def _quick(self, e):
    e = self.canon(e)
    if not e.t:
        return e.c >= 0
    e = norm_ge(e)
    for x in self.ge:
        if x.t == e.t and x.c <= e.c:
            return True
    return False


Poly.entails_ge0_quick = _quick


def _minimize(self):
    """remove constraints entailed by the remaining ones"""
    if self.bot or len(self.ge) < 8:
        return self
    kept = set(_prune(self.ge))
    if len(kept) == len(self.ge):
        return self
    return Poly(self.eq, tuple(x for x in self.ge if x in kept))


Poly.minimize_cons = _minimize


THRESH = sorted([1, 0, -1, -8, -16, -64, -128, -255, -256, -4096, -(1 << 20), -(1 << 32) + 1, -(1 << 32), -(1 << 38), -(1 << 61) + 1,
                 -144115188075855863, -(1 << 59), -4611686018427387903, -4611686018427387904,
                 -(1 << 63), -(1 << 64)], reverse=True)


THRESH1 = [0, -144115188075855863, -4611686018427387903, -4611686018427387904, -(1 << 63), -(1 << 64)]
THRESH2 = [1, 0, -1, -16, -128, -256]


def widen(old, new, extra=(), hist=None, guards=()):
    """keep the constraints of old that new entails; for the template
    directions in extra, keep the old bound if stable, else the next threshold"""
    if old.is_bot():
        return new
    if new.is_bot():
        return old
    r = Poly()
    for e in affine_hull(old, new, None):
        r = r.add_eq0(e)
    seen = set()
    found = []
    for x in extra:
        x = norm_ge(r.canon(x))
        if not x.t or x.t in seen:
            continue
        seen.add(x.t)
        one = len(x.t) == 1 and bool(guards)
        cap = 7 if one else 3
        if hist is not None and hist.get(x.t, 0) >= cap:
            continue
        e0 = Lin(0, x.t)
        a = old.min_value(e0)
        if a is None:
            continue
        b = new.min_value(e0)
        if b is None:
            continue
        m = min(a, b)
        if b < a:
            n = hist[x.t] = hist.get(x.t, 0) + 1 if hist is not None else 1
            m = None
            if one and n <= 4:
                m = next((t for t in guards if t <= b), None)
            if m is None:
                k = n - 4 if one and n > 4 else n
                lad = THRESH2 if len(x.t) > 1 else THRESH if k <= 1 else THRESH1
                m = next((t for t in lad if t <= b), None) if n < cap else None
            if m is None:
                continue
        found.append(e0 - m)
    found.sort(key=lambda e: len(e.t))
    for e in found:
        q = r.quick_min(r.canon(e))
        if q is None or q < 0:
            r = r.add_ge0(e)
    for kind, e in old.constraints():
        for x in ([e, -e] if kind == "eq" else [e]):
            if new.entails_ge0(x):
                q = r.quick_min(r.canon(x))
                if q is None or q < 0:
                    r = r.add_ge0(x)
    return r.minimize_cons()


def leq(p, q):
    """p included in q"""
    if p.is_bot():
        return True
    for kind, e in q.constraints():
        if kind == "eq":
            if not p.entails_eq0(e):
                return False
        elif not p.entails_ge0(e):
            return False
    return True
