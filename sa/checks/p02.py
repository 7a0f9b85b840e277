"""P02: native code stays inside its buffers (abstract interpretation of the LLVM IR)."""
from ..c import native
from . import b3tree

RULES = {"bounds", "assert", "div0", "alloc-size", "entropy-request"}


def check(ctx):
    th = ctx.tier == "thorough"
    native.simple(ctx, RULES, more=b3tree.tasks("bounds", b3tree.short_lists(th) + b3tree.long_lists(th), True))
    ctx.explanation = ("every memory access, assertion, division and allocation of the native primitives, over all lengths, "
                       "offsets and histories of calls admitted by the contracts of the OCaml layer (harnesses in sa/c/harness), "
                       "both in the portable and the accelerated paths")
