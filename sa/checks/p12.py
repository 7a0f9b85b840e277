"""P12: message lengths and counters are counted in full."""
from ..c import units, stream
from ..c.interp import Lin, L, ZERO, Ptr
from . import b3tree, p11, p22


# values of the counter around its carries: low word (or signed distance to 2^64), high word, bytes of the block, choices
COUNTERS = {"sa_blake2s_counter": [[a, b, n, f] for a in (0, 64, (1 << 32) - 65, (1 << 32) - 64, (1 << 32) - 1, 1 << 31) for b in (0, 9) for n in (0, 1, 64) for f in (0, 1)],
            "sa_blake2b_counter": [[d, b, n, w, f] for d in (-129, -128, -1, 0, 5, 1 << 62) for b in (0, 9) for n in (0, 1, 128) for w in (0, 1) for f in (0, 1)]}


def t_counter(r, h, fn, rules):
    def prep(I):
        I.apart = I.partial = True
    stream.decide(r, h, fn, prep, rules, COUNTERS[fn], 100, (), lambda c: c)


def check(ctx):
    rules = {"length", "counter"}
    p22.preload(ctx)
    ctx.run(p11.tasks(rules) + b3tree.tasks("length", b3tree.long_lists(ctx.tier == "thorough")) +
            [(p22.t_case, c) for c in b3tree.comp_cases()] + [(t_counter, (h, fn, rules)) for h, fn in units.units(["blake2_counter"])])
    ctx.need("rule length", 5)
    ctx.explanation = ("the number at the end of the last block equals 8 times the sum of the lengths of all updates, for all lengths; the last block is always hashed")
