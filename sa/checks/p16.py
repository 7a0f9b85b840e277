"""P16: input buffers are never written by native code."""
from ..c import native

RULES = {"readonly"}


def check(ctx):
    native.simple(ctx, RULES)
    ctx.explanation = "every store of the native primitives through a pointer that may designate a buffer given as input"
