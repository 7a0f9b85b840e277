"""The native side of the library as analysis units: one abstract run of every
harness function over the current C sources (never executed)."""
import glob
import os
import time

from . import ir
from . import interp as _i
from . import models as _m          # noqa: F401  (registers the models)
from .interp import Interp, State, Stuck

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")

# the most expensive units first, so that the pool stays busy
HEAVY = ["arcfour", "blake2", "blake3", "poly1305", "des", "sha512", "siphash", "misc", "zlib", "chacha20"]


def units(only=None):
    """[(harness, function)] of every harness"""
    out = []
    for p in sorted(glob.glob(os.path.join(HARNESS, "*.c"))):
        b = os.path.basename(p)[:-2]
        if only is not None and b not in only:
            continue
        for line in functions(p):
            out.append((b, line))
    out.sort(key=lambda u: (HEAVY.index(u[0]) if u[0] in HEAVY else 99, u))
    return out


def harnesses():
    return sorted(os.path.basename(p)[:-2] for p in glob.glob(os.path.join(HARNESS, "*.c")))


BROKEN = {}      # harnesses that do not compile against the current sources: reported as not explored


def functions(path):
    try:
        m = module(os.path.basename(path)[:-2])
    except Exception as e:
        BROKEN[os.path.basename(path)] = str(e)[:200]
        return []
    return [f[1:] for f in m.funcs if f.startswith("@sa_") and m.funcs[f].blocks]


_mods = {}


def module(h):
    if h not in _mods:
        _mods[h] = ir.parse(ir.compile_ll(os.path.join(HARNESS, h + ".c"), ["-I" + HARNESS]))
    return _mods[h]


def analyse(h, fn, limit=150, prepare=None, until=None):
    """abstract interpretation of one harness function; returns the interpreter"""
    m = module(h)
    I = Interp(m)
    I.deadline = time.time() + limit
    if until:
        I.deadline = min(I.deadline, until)
    if prepare:
        prepare(I)
    I.error = None
    try:
        I.call("@" + fn, [], State())
    except Stuck as e:
        I.error = "%s at %s" % (e, I.where())
    return I


def collect(result, I, h, fn, rules):
    """obligations of the given rules into the result of a check"""
    n = 0
    for (rule, where, inst), (ok, detail, cnt) in sorted(I.obs.items()):
        if rule in rules:
            n += 1
            site, func = where.rsplit(" ", 1)
            result.ob(rule, ok, site, "%s: %s" % (func, inst), detail)
    result.count("native entry sequences", 1)
    result.count("native functions analysed", len(I.stats["functions"]))
    result.count("abstract steps", I.steps)
    result.count("sites", n)
    if I.error:
        result.unexplored.append("%s.%s: %s" % (h, fn, I.error))
    return n


def compile_all(result):
    """every harness compiles; a harness that no longer does is reported as unexplored"""
    ok = []
    for p in sorted(glob.glob(os.path.join(HARNESS, "*.c"))):
        h = os.path.basename(p)[:-2]
        try:
            module(h)
            ok.append(h)
        except Exception as e:
            result.unexplored.append("%s: %s" % (h, str(e)[:300]))
    return ok
