"""Checks that read their obligations off the plain abstract runs of all harnesses."""
import time

from . import stream, units


def t_unit(r, h, fn, rules, limit, until):
    I = units.analyse(h, fn, limit, until=until)
    if "bounds" in rules and (I.error or any(k[0] in rules and not v[0] for k, v in I.obs.items())):
        cs = cells_of(fn)
        if cs is not None:
            refine(r, I, h, fn, rules, *cs)
            return
    units.collect(r, I, h, fn, rules)


def cells_of(fn):
    """the partition of the inputs of a hash by the lengths of the pieces"""
    from ..checks import p11
    if fn not in p11.KINDS:
        return None
    k = p11.KINDS[fn](fn)
    return k.cells, getattr(k, "mk", stream.script)


LONG = [(1 << 31) - 1, 1 << 31, (1 << 31) + 9, (1 << 32) - 1, 1 << 32, (1 << 32) + 9, 1 << 40, (1 << 57) - 9]


def refine(r, I, h, fn, rules, cs, mk):
    """an obligation that fails for all lengths at once is examined again cell by
    cell, where positions and lengths are constants: what fails there is a
    violation, what fails nowhere is reported as not proved"""
    bad = {k: v for k, v in I.obs.items() if k[0] in rules and not v[0]}
    hit = done = 0
    until = time.time() + 350
    for ls in [[x] for x in LONG] + [[y, x] for x in LONG for y in (1, 7)] + list(cs):
        def prep(J):
            J.script, J.cell, J.sure = mk(ls), ls, True
            if max(ls) < LONG[0]:
                J.UNROLL, J.UNROLL_INS = 4000, 2000000
        J = units.analyse(h, fn, 60, prep, until=until)
        done += not J.error
        r.count("cells of the input partition")
        for k, v in sorted(J.obs.items()):
            if k[0] in rules and not v[0]:
                hit += 1
                site, func = k[1].rsplit(" ", 1)
                r.ob(k[0], False, site, "%s: %s" % (func, k[2]), "for pieces of %s bytes: %s" % (" + ".join(map(str, ls)), v[1]))
        if hit or time.time() > until:
            break
    if not hit:
        for k in bad:
            I.obs.pop(k)
        for k, v in sorted(bad.items())[:3]:
            r.unexplored.append("%s: not proved in general (%s at %s: %s), held on %d cells of the input partition" % (fn, k[0], k[1], v[1][:120], done))
    units.collect(r, I, h, fn, rules)


SPECIAL = ("keystream", "blake2_counter")       # the same code as other harnesses, for other rules


def limits(ctx):
    return (150, time.time() + 600) if ctx.tier == "quick" else (600, time.time() + 3000)


def simple(ctx, rules, only=None, skip=(), more=()):
    hs = units.compile_all(ctx)
    limit, until = limits(ctx)
    us = [u for u in units.units(hs) if u[0] not in SPECIAL and (only is None or u[0] in only) and u[1] not in skip]
    ctx.run([(t_unit, (h, f, rules, limit, until)) for h, f in us] + list(more))
    ctx.need("native entry sequences", 1)
    ctx.need("sites", 1)
