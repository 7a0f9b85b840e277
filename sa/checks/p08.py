"""P08: entropy failures are reported, successes fill the whole window."""
from ..c import native, units
from ..c.interp import Ptr, Lin, L


def on_rng(I, st, a):
    """at the return of a random_bytes primitive: false, or true with every byte of the window from the source"""
    buf, r = a
    o, l = st.ghost["o"], st.ghost["l"]
    if isinstance(r, Lin) and st.has_eq(r - 1):
        I.ob("entropy", True, "failure is reported", "")
        return
    if not (isinstance(r, Lin) and st.has_eq(r - 3)):
        I.ob("entropy", False, "result", "the primitive returns neither true nor false")
        return
    if st.has_eq(l):
        I.ob("entropy", True, "empty request", "")
        return
    parts = I.read_segs(st, buf.r, st.canon(o), l)
    ok = parts is not None and all(c == ("T", "random") or st.has_ge(s - e) for s, e, c in parts)
    I.ob("entropy", ok, "window filled from the entropy source when true is returned",
         "returns true although the window is %s" % ([c for _s, _e, c in parts] if parts else "not covered",))


def on_window(I, st, a):
    """name the three parts of the buffer"""
    o, l = st.ghost["o"], st.ghost["l"]
    st.mem[a[0].r] = ((st.canon(o), ("T", "before")), (st.canon(o), ("T", "random")), (st.canon(o + l), ("T", "unfilled")), (st.regs[a[0].r].size, ("T", "after")))


def t_rng(r, fn, limit):
    def prep(I):
        I.events = {"rng": on_rng, "window": on_window}
    I = units.analyse("rng", fn, limit, prep)
    units.collect(r, I, "rng", fn, {"entropy", "entropy-request"})


CPUS = {"a processor without rdrand": {"cpuid": 0xFFFFFFFF ^ (1 << 30)},
        "an rdrand instruction that always fails": {"cpuid": 0xFFFFFFFF, "rdrand": "fails"},
        "an rdrand instruction that always returns ones": {"cpuid": 0xFFFFFFFF, "rdrand": "ones"}}


def t_avail(r, cpu, limit):
    def prep(I):
        def on_available(I, st, a):
            v = a[0]
            ok = isinstance(v, Lin) and st.has_eq(v - 1)
            I.ob("availability", ok, cpu, "the hardware generator is declared available")
        I.cpu = CPUS[cpu]
        I.events = {"available": on_available}
    I = units.analyse("rng", "sa_hardware_rng_available", limit, prep)
    units.collect(r, I, "rng", "sa_hardware_rng_available", {"availability"})


def check(ctx):
    ctx.run([(t_avail, (c, 100)) for c in CPUS] +
            [(t_rng, (fn, 200)) for _h, fn in units.units(["rng"]) if fn != "sa_hardware_rng_available"])
    ctx.need("native entry sequences", 2)
    ctx.need("rule entropy", 4)
    ctx.need("rule availability", 1)
    ctx.explanation = ("every return of the system and hardware random primitives, for all window lengths and all failure "
                       "patterns of getentropy and rdrand: false is returned, or all bytes of the window come from the source")
