"""C03 Python resize."""
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation
from pyapi import *


@st.composite
def case(draw):
    a = draw(gen.fmts(max_w=180))
    r = draw(gen.rel_fmts(a, max_w=180))
    return dict(a=a, r=r, rnd=draw(gen.rounds), sat=draw(gen.sats), x=draw(gen.raws(a, r, long=True)), lay=draw(gen.layouts))


def tags(c, exp=None):
    a, r = tuple(c["a"]), tuple(c["r"])
    out = [f"elems={len(c['x'])}", wtag(a, r), "mid-" + wtag(M.round_fmt(a, r[2], c["rnd"]))]
    d = a[2] - r[2]
    lossy = d > 0 and any(n % (1 << d) for n in c["x"])
    over = any(not M.in_range(n, a[2], r, c["rnd"]) for n in c["x"])
    out += ["lossy"] * lossy + ["overflow"] * over
    if lossy or over:
        out.append("nontrivial")
    return out


def run_fn(c):
    a, r = tuple(c["a"]), tuple(c["r"])
    xs = expect_n(c["x"], c["lay"])
    x = api(c["x"], a, c["lay"])
    what = f"cl_fix_resize {a}->{r} {c['rnd']} {c['sat']} [{c['lay']}]"
    out = call(what, K.cl_fix_resize, x, fmt(a), fmt(r), RND[c["rnd"]], SAT[c["sat"]])
    got, shp = decode(what, out, r)
    compare(what, got, [M.resize_raw(n, a[2], r, c["rnd"], c["sat"]) for n in xs], r, xs)
    if shp != shape_of(x):
        raise Violation(f"{what}: result shape {shp}, input shape {shape_of(x)}")
    what = f"cl_fix_resize {a}->{r} (defaults)"
    got, _ = decode(what, call(what, K.cl_fix_resize, x, fmt(a), fmt(r)), r)
    compare(what, got, [M.resize_raw(n, a[2], r, "Trunc_s", "None_s") for n in xs], r, xs)
    return tags(c)


def run_class(c):
    a, r = tuple(c["a"]), tuple(c["r"])
    lay = "0d" if c["lay"] == "scalar" else c["lay"]
    xs = expect_n(c["x"], lay)
    exp = [M.resize_raw(n, a[2], r, c["rnd"], c["sat"]) for n in xs]
    dexp = [M.resize_raw(n, a[2], r, "Trunc_s", "None_s") for n in xs]
    objs = [("WideFix", wclass(c["x"], a, lay), True)]
    if not M.is_wide(a) and not M.is_wide(r) and not M.is_wide(M.round_fmt(a, r[2], c["rnd"])):
        objs.append(("NarrowFix", nclass(c["x"], a, lay), False))
    for name, o, w in objs:
        what = f"{name}.resize {a}->{r} {c['rnd']} {c['sat']} [{lay}]"
        p = call(what, o.resize, fmt(r), RND[c["rnd"]], SAT[c["sat"]])
        obj_fmt(what, p, r)
        compare(what, decode(what, p.data, r, wide=w)[0], exp, r, xs)
        what = f"{name}.resize {a}->{r} (defaults) [{lay}]"
        if w or not M.is_wide(M.round_fmt(a, r[2], "Trunc_s")):
            p = call(what, o.resize, fmt(r))
            compare(what, decode(what, p.data, r, wide=w)[0], dexp, r, xs)
    return tags(c)


@st.composite
def case_rt(draw):
    a = draw(gen.fmts(max_w=120))
    S = max(a[0], draw(gen.ints(0, 1)))
    r = (S, a[1] + draw(gen.ints(0, 60)), a[2] + draw(gen.ints(0, 60)))
    return dict(a=a, r=r, rnd=draw(gen.rounds), sat=draw(gen.sats), x=draw(gen.raws(a)))


def run_rt(c):
    """Resize to a containing format and back, with any modes, changes nothing."""
    a, r = tuple(c["a"]), tuple(c["r"])
    x = api(c["x"], a)
    what = f"cl_fix_resize {a}->{r}->{a} {c['rnd']} {c['sat']}"
    y = call(what, K.cl_fix_resize, x, fmt(a), fmt(r), RND[c["rnd"]], SAT[c["sat"]])
    got, _ = decode(what, y, r)
    compare(what, got, [n << (r[2] - a[2]) for n in c["x"]], r, c["x"])
    z = call(what, K.cl_fix_resize, y, fmt(r), fmt(a), RND[c["rnd"]], SAT[c["sat"]])
    got, _ = decode(what, z, a)
    compare(what, got, c["x"], a, c["x"])
    return [f"elems={len(c['x'])}", wtag(a, r)] + ["nontrivial"] * (a != r and any(c["x"]))


SUBS = [
    Sub("resize-fn", case(), run_fn, 20000, 700000),
    Sub("resize-class", case(), run_class, 14000, 400000),
    Sub("resize-roundtrip", case_rt(), run_rt, 3000, 60000),
]
RULE = ("a case is one (format pair, modes, values, layout); non-trivial when at least one value loses fractional bits or is out of "
        "range (round trip: the formats differ and a value is non-zero)")

if __name__ == "__main__":
    raise SystemExit(core.main("C03", SUBS, RULE, ["Python 3.12, numpy 2.3 float64"]))
