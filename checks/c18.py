"""C18 VHDL real and integer conversions."""
import math
from hypothesis import strategies as st
import core, gen, model as M, vhd
from core import Sub, Violation
import vops as V


@st.composite
def real_case(draw):
    r = draw(gen.fmts(max_w=200))
    return dict(r=r, x=draw(st.lists(gen.real(r), min_size=1, max_size=8)), sat=draw(st.sampled_from(["Sat_s", "SatWarn_s"])),
                default=draw(st.booleans()))


def cmp_raw(x, n, F):
    """sign of x - n*2**-F, exactly"""
    from fractions import Fraction
    d = Fraction(x) - Fraction(n) * Fraction(2) ** -F
    return (d > 0) - (d < 0)


def run_real(c):
    r, sat = tuple(c["r"]), c["sat"]
    variant = 1 if c["default"] else 0
    if variant:
        sat = "SatWarn_s"
    what = f"VHDL cl_fix_from_real -> {r} {sat}" + " (default mode)" * variant
    reps = V.ask(what, [vhd.header(0, variant=variant, r=r, sat=V.SAT[sat])] + [("R " + vhd.real_token(x), 1) for x in c["x"]])
    over = tie = False
    for x, rep in zip(c["x"], reps):
        n = M.real_raw(x, r[2])
        exp = min(max(n, M.lo(r)), M.hi(r))
        V.check_bits(what, rep, exp, r, repr(x))
        out = cmp_raw(x, M.hi(r), r[2]) > 0 or cmp_raw(x, M.lo(r), r[2]) < 0
        V.check_warn(what, rep, out and sat == "SatWarn_s", repr(x))
        over |= out
        tie |= not out and cmp_raw(x, 2 * n - 1, r[2] + 1) == 0
    return [f"elems={len(reps)}", sat] + ["out-of-range"] * over + ["tie"] * tie + ["wide"] * (M.width(r) > 53) + \
        ["nontrivial"] * (over or any(cmp_raw(x, M.real_raw(x, r[2]), r[2]) for x in c["x"]))


@st.composite
def to_real_case(draw):
    a = draw(gen.fmts(max_w=53))
    return dict(op="to_real", a=a, da=draw(V.dirs), x_=draw(gen.raws(a, max_n=12)))


def run_to_real(c):
    a = tuple(c["a"])
    what = V.name(c)
    reps = V.ask(what, [V.head(c)] + [V.vec(a, x) for x in c["x_"]])
    for x, rep in zip(c["x_"], reps):
        got = vhd.token_real(rep.text)
        if got != math.ldexp(x, -a[2]):
            raise Violation(f"{what}: raw {x}: got {got!r}, expected {math.ldexp(x, -a[2])!r}")
    back = V.ask(what, [vhd.header(0, r=a, sat=V.SAT["SatWarn_s"])] + [("R " + r.text, 1) for r in reps])
    for x, rep in zip(c["x_"], back):
        V.check_bits(what + " and back", rep, x, a, x)
        V.check_warn(what + " and back", rep, False, x)
    return [f"elems={2 * len(reps)}", "multi-chunk" if M.width(a) > 30 else "one-chunk"] + ["nontrivial"] * any(c["x_"])


IMAX, IMIN = (1 << 31) - 1, -(1 << 31)


@st.composite
def int_case(draw):
    f = draw(gen.fmts(max_w=90))
    a, b = max(M.lo(f), IMIN), min(M.hi(f), IMAX)
    xs = [min(max(x, a), b) for x in draw(gen.raws(f, max_n=8))]
    xs += draw(st.lists(st.one_of(gen.ints(a, b), st.sampled_from([a, b])), max_size=3))
    return dict(op="to_integer", a=f, da=draw(V.dirs), x_=xs)


def run_int(c):
    a = tuple(c["a"])
    what = f"VHDL integer conversion {a}"
    n = len(c["x_"])
    reps = V.ask(what, [V.head(c, r=a)] + [V.vec(a, x) for x in c["x_"]] + [(f"I {x}", 1) for x in c["x_"]])
    for x, rep in zip(c["x_"], reps[:n]):
        if rep.text != str(x):
            raise Violation(f"cl_fix_to_integer of raw {x} in {a} = {rep.text}")
    for x, rep in zip(c["x_"], reps[n:]):
        V.check_bits("cl_fix_from_integer", rep, x, a, x)
        V.check_warn("cl_fix_from_integer", rep, False, x)
    return [f"elems={2 * n}", "wide" if M.width(a) > 32 else "le32"] + ["nontrivial"] * any(c["x_"])


SUBS = [
    Sub("from_real", real_case(), run_real, 12000, 200000),
    Sub("to_real", to_real_case(), run_to_real, 4000, 60000),
    Sub("integer", int_case(), run_int, 4000, 60000),
]
RULE = ("distinct cases with an input that is out of range or not representable (from_real), or a non-zero value (to_real with "
        "round trip, integer)")

if __name__ == "__main__":
    raise SystemExit(core.main("C18", SUBS, RULE, ["GHDL 4.1 implements VHDL-2008 correctly and its reals are IEEE doubles",
                                                  "to_real is only claimed exact up to 53 bits"], prepare=V.prepare))
