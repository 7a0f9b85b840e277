"""P17: no mutable static data."""
from ..c import native

RULES = {"global-write"}


def check(ctx):
    native.simple(ctx, RULES)
    ctx.explanation = "every store of the native primitives to static storage"
