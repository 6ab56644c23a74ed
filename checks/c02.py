"""C02 Python saturation and wrapping."""
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation
from pyapi import *


@st.composite
def case(draw):
    a = draw(gen.fmts(max_w=180))
    r = draw(gen.rel_fmts(a, max_w=180, same_f=True))
    return dict(a=a, r=r, x=draw(gen.raws(a, r, long=True)), lay=draw(gen.layouts))


def tags(c):
    a, r = tuple(c["a"]), tuple(c["r"])
    out = [f"elems={4 * len(c['x'])}", wtag(a, r)]
    if any(not M.fits(n, r) for n in c["x"]):
        out.append("nontrivial")
    if any(n in (M.lo(r), M.hi(r), M.lo(r) - 1, M.hi(r) + 1) for n in c["x"]):
        out.append("at-limit")
    if r[1] < a[1] or r[0] < a[0]:
        out.append("reduced")
    return out


def run_fn(c):
    a, r = tuple(c["a"]), tuple(c["r"])
    xs = expect_n(c["x"], c["lay"])
    for sat in M.SAT:
        x = api(c["x"], a, c["lay"])
        what = f"cl_fix_saturate {a}->{r} {sat} [{c['lay']}]"
        out = call(what, K.cl_fix_saturate, x, fmt(a), fmt(r), SAT[sat])
        got, shp = decode(what, out, r)
        compare(what, got, [M.sat_raw(n, r, sat) for n in xs], r, xs)
        if shp != shape_of(x):
            raise Violation(f"{what}: result shape {shp}, input shape {shape_of(x)}")
    return tags(c)


def run_class(c):
    a, r = tuple(c["a"]), tuple(c["r"])
    lay = "0d" if c["lay"] == "scalar" else c["lay"]
    xs = expect_n(c["x"], lay)
    for sat in M.SAT:
        exp = [M.sat_raw(n, r, sat) for n in xs]
        what = f"WideFix.saturate {a}->{r} {sat} [{lay}]"
        o = call(what, wclass(c["x"], a, lay).saturate, fmt(r), SAT[sat])
        obj_fmt(what, o, r)
        got, _ = decode(what, o.data, r, wide=True)
        compare(what, got, exp, r, xs)
        if not M.is_wide(a) and not M.is_wide(r):
            what = f"NarrowFix.saturate {a}->{r} {sat} [{lay}]"
            o = call(what, nclass(c["x"], a, lay).saturate, fmt(r), SAT[sat])
            obj_fmt(what, o, r)
            got, _ = decode(what, o.data, r)
            compare(what, got, exp, r, xs)
    return tags(c)


@st.composite
def case_reject(draw):
    a = draw(gen.fmts(max_w=100))
    r = draw(gen.rel_fmts(a, max_w=100))
    if r[2] == a[2]:
        d = draw(gen.ints(1, 4))
        r = (r[0], r[1], r[2] + d)
    return dict(a=a, r=r, sat=draw(gen.sats), x=draw(gen.raws(a, r, max_n=3)))


def run_reject(c):
    a, r = tuple(c["a"]), tuple(c["r"])
    what = f"{a}->{r} {c['sat']}"
    rejected("cl_fix_saturate " + what, K.cl_fix_saturate, api(c["x"], a), fmt(a), fmt(r), SAT[c["sat"]])
    rejected("WideFix.saturate " + what, wclass(c["x"], a).saturate, fmt(r), SAT[c["sat"]])
    if not M.is_wide(a) and not M.is_wide(r):
        rejected("NarrowFix.saturate " + what, nclass(c["x"], a).saturate, fmt(r), SAT[c["sat"]])
    return ["nontrivial", wtag(a, r)]


SUBS = [
    Sub("saturate-fn", case(), run_fn, 12000, 400000),
    Sub("saturate-class", case(), run_class, 12000, 300000),
    Sub("saturate-reject", case_reject(), run_reject, 2000, 20000),
]
RULE = ("a case is one (format pair, values, layout) evaluated in all 4 saturation modes; non-trivial when at least one value "
        "does not fit the result format (reject: the number of fractional bits changes)")

if __name__ == "__main__":
    raise SystemExit(core.main("C02", SUBS, RULE, ["Python 3.12, numpy 2.3 float64"]))
