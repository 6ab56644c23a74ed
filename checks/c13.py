"""C13 comparisons, bounds, binary point alignment."""
from fractions import Fraction
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation
from pyapi import *


@st.composite
def case_cmp(draw):
    a = draw(gen.fmts(max_w=150))
    b = draw(gen.rel_fmts(a, max_w=150)) if draw(gen.ints(0, 3)) else draw(gen.fmts(max_w=150))
    n = draw(gen.ints(1, 6))
    xs = draw(st.lists(gen.raw(a, b), min_size=n, max_size=n))
    ys = []
    for x in xs:
        d = b[2] - a[2]
        y = x << d if d >= 0 else x >> -d
        if draw(gen.ints(0, 3)):
            y += draw(gen.ints(-1, 1))
        else:
            y = draw(gen.raw(b))
        ys.append(min(max(y, M.lo(b)), M.hi(b)))
    xs, ys = gen.big(draw, xs, ys)
    return dict(a=a, b=b, x=xs, y=ys, lay=draw(st.sampled_from(["1d", "1d", "0d", "2d", "rev"])), bc=draw(gen.ints(0, 4)) == 0)


def rels(o, p):
    return {"==": o == p, "!=": o != p, "<": o < p, "<=": o <= p, ">": o > p, ">=": o >= p}


def run_cmp(c):
    a, b = tuple(c["a"]), tuple(c["b"])
    xs, ys = expect_n(c["x"], c["lay"]), expect_n(c["y"], c["lay"])
    F = max(a[2], b[2])
    pairs = []
    ylay, yn = c["lay"], c["y"]
    if c["bc"]:
        ylay, yn = "0d", c["y"][:1]
        ys = [ys[0]] * len(xs)
    for x, y in zip(xs, ys):
        pairs.append((x << (F - a[2]), y << (F - b[2])))
    exp = {"==": [p == q for p, q in pairs], "!=": [p != q for p, q in pairs], "<": [p < q for p, q in pairs],
           "<=": [p <= q for p, q in pairs], ">": [p > q for p, q in pairs], ">=": [p >= q for p, q in pairs]}
    kinds = [("WideFix", wclass)]
    if not M.is_wide(a) and not M.is_wide(b):
        kinds.append(("NarrowFix", nclass))
    for name, mk in kinds:
        o, p = mk(c["x"], a, c["lay"]), mk(yn, b, ylay)
        res = call(f"{name} comparison {a} {b} [{c['lay']}]", rels, o, p)
        for rel, e in exp.items():
            g = [bool(v) for v in np.asarray(res[rel]).flat]
            if g != e:
                raise Violation(f"{name}: {list(zip(xs, ys))} in {a} {rel} {b}: {g}, expected {e}")
    eq = any(exp["=="])
    return [f"elems={6 * len(pairs)}", wtag(a, b)] + ["equal"] * eq + ["F-differ"] * (a[2] != b[2]) + ["S-differ"] * (a[0] != b[0]) + \
           ["nontrivial"] * (a != b)


@st.composite
def case_bound(draw):
    return dict(f=draw(gen.fmts(max_w=400)))


def run_bound(c):
    f = tuple(c["f"])
    for name, fn, e in (("max", K.cl_fix_max_value, M.hi(f)), ("min", K.cl_fix_min_value, M.lo(f))):
        g, _ = decode(f"cl_fix_{name}_value", call(f"cl_fix_{name}_value({f})", fn, fmt(f)), f)
        compare(f"cl_fix_{name}_value({f})", g, [e], f)
        o = call("WideFix", getattr(WideFix, name + "_value"), fmt(f))
        obj_fmt(f"WideFix.{name}_value", o, f)
        compare(f"WideFix.{name}_value({f})", decode("", o.data, f, wide=True)[0], [e], f)
        if not M.is_wide(f):
            o = call("NarrowFix", getattr(NarrowFix, name + "_value"), fmt(f))
            obj_fmt(f"NarrowFix.{name}_value", o, f)
            compare(f"NarrowFix.{name}_value({f})", decode("", o.data, f)[0], [e], f)
    return ["elems=2", wtag(f)] + ["nontrivial"] * (M.width(f) > 1)


@st.composite
def case_align(draw):
    k = draw(gen.ints(1, 5))
    items = []
    for _ in range(k):
        f = draw(gen.fmts(max_w=120))
        items.append([f, draw(gen.raws(f, max_n=4))])
    return dict(v=items)


def run_align(c):
    src = [wclass(x, f) for f, x in c["v"]]
    F = max(f[2] for f, _ in c["v"])
    out = call("align_binary_points", WideFix.align_binary_points, src)
    if len(out) != len(src):
        raise Violation(f"align_binary_points returned {len(out)} values for {len(src)}")
    for (f, x), o, s in zip(c["v"], out, src):
        if o.fmt.F != F:
            raise Violation(f"align_binary_points: {o.fmt} does not have {F} fractional bits")
        if [int(v) for v in o.data.flat] != [n << (F - f[2]) for n in x]:
            raise Violation(f"align_binary_points changed a value: {x} in {f} -> {o.data} in {o.fmt}")
        if decode("align", s.data, f, wide=True)[0] != list(x) or tup(s.fmt) != tuple(f):
            raise Violation(f"align_binary_points modified its input {x} in {f}")
    return [f"elems={sum(len(x) for _, x in c['v'])}"] + ["nontrivial"] * (len({f[2] for f, _ in c["v"]}) > 1)


SUBS = [
    Sub("compare", case_cmp(), run_cmp, 12000, 300000),
    Sub("bounds", case_bound(), run_bound, 4000, 60000),
    Sub("align", case_align(), run_align, 4000, 80000),
]
RULE = "compare: formats differ; bounds: width above 1; align: at least two different numbers of fractional bits"

if __name__ == "__main__":
    raise SystemExit(core.main("C13", SUBS, RULE, ["Python 3.12, numpy 2.3"]))
