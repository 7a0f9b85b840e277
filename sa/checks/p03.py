"""P03: no stale heap pointer after a possible collection."""
from ..c import native

RULES = {"stale", "roots", "blocking"}


def check(ctx):
    native.simple(ctx, RULES)
    ctx.explanation = ("every use of an OCaml value or of a pointer into the OCaml heap, on every path of the native entry points, "
                       "against the last point where the runtime may have moved it (allocation, raise, blocking section)")
