"""C08 real -> fixed conversion."""
import math, struct
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation
from pyapi import *

FORMS = ["1d", "1d", "py", "np64", "0d", "2d", "list", "rev", "strided", "f32", "f16", "f32-scalar", "f16-scalar"]


real, step, to_double = gen.real, gen.step, gen.to_double


@st.composite
def case(draw):
    r = draw(gen.fmts(max_w=200))
    xs = gen.big(draw, draw(st.lists(real(r), min_size=1, max_size=8)))
    return dict(r=r, x=xs, form=draw(st.sampled_from(FORMS)), sat=draw(st.sampled_from(["Sat_s", "SatWarn_s"])))


def mk(xs, form):
    if form == "py":
        return float(xs[0]), xs[:1]
    if form == "np64":
        return np.float64(xs[0]), xs[:1]
    if form == "list":
        return [float(x) for x in xs], xs
    if form[0] == "f" and form[1:3] in ("32", "16"):      # single and half precision
        t = np.float32 if form.startswith("f32") else np.float16
        with np.errstate(all="ignore"):
            xs = [float(v) for v in np.array(xs).astype(t) if np.isfinite(v)] or [0.0, 0.5]
        return (t(xs[0]), xs[:1]) if form.endswith("scalar") else (np.array(xs, dtype=t), xs)
    a = np.array(xs, dtype=np.float64)
    return shaped(a, form), (xs[:1] if form == "0d" else xs)


def expect(x, r):
    return min(max(M.real_raw(x, r[2]), M.lo(r)), M.hi(r))


def run(c):
    r = tuple(c["r"])
    arg, xs = mk(c["x"], c["form"])
    exp = [expect(x, r) for x in xs]
    what = f"cl_fix_from_real -> {r} {c['sat']} [{c['form']}]"
    out = call(what, K.cl_fix_from_real, arg, fmt(r), SAT[c["sat"]])
    got, shp = decode(what, out, r)
    compare(what, got, exp, r, xs)
    ishp = (len(xs),) if c["form"] == "list" else shape_of(arg)
    if shp != ishp:
        raise Violation(f"{what}: result shape {shp}, input shape {ishp}")
    compare(what + " default mode", decode(what, call(what, K.cl_fix_from_real, arg, fmt(r)), r)[0], exp, r, xs)
    if c["form"] not in ("list",):
        o = call("WideFix.from_real", WideFix.from_real, arg, fmt(r), SAT[c["sat"]])
        obj_fmt(what, o, r)
        compare("WideFix.from_real [" + c["form"] + "]", decode(what, o.data, r, wide=True)[0], exp, r, xs)
        if not M.is_wide(r):
            o = call("NarrowFix.from_real", NarrowFix.from_real, arg, fmt(r), SAT[c["sat"]])
            obj_fmt(what, o, r)
            compare("NarrowFix.from_real [" + c["form"] + "]", decode(what, o.data, r)[0], exp, r, xs)
    return tags(c, xs, exp)


def tags(c, xs, exp):
    from fractions import Fraction
    r = tuple(c["r"])
    out = [f"elems={2 * len(xs)}", wtag(r), "form-" + c["form"]]
    nt = False
    for x, e in zip(xs, exp):
        v = Fraction(x) * Fraction(2) ** r[2]
        if v.denominator == 2:
            out.append("tie")
            nt = True
        elif v.denominator > 2:
            nt = True
        if v > M.hi(r) or v < M.lo(r):
            out.append("clipped")
            nt = True
        if abs(x) > 1e100:
            out.append("huge")
        if not nt and abs(e) > 2**52:
            nt = True
    return out + ["nontrivial"] * nt


@st.composite
def case_int(draw):
    r = draw(gen.fmts(max_w=200))
    n = st.one_of(gen.ints(-100, 100), gen.ints(-2**31, 2**31 - 1), gen.ints(-2**53, 2**53),
                  st.just(int(min(max(M.hi(r) >> max(r[2], 0), 0), 2**53))), st.just(-int(min(M.hi(r) >> max(r[2], 0), 2**53))))
    return dict(r=r, x=draw(st.lists(n, min_size=1, max_size=5)), form=draw(st.sampled_from(["py", "int64", "list", "int32"])))


def run_int(c):
    """Integers are real numbers too."""
    r = tuple(c["r"])
    xs = c["x"]
    if c["form"] == "int32":
        xs = [max(min(x, 2**31 - 1), -2**31) for x in xs]
    if c["form"] == "py":
        arg, xs = xs[0], xs[:1]
    elif c["form"] == "list":
        arg = list(xs)
    else:
        arg = np.array(xs, dtype=c["form"])
    exp = [expect(x, r) for x in xs]
    what = f"cl_fix_from_real of integers -> {r} [{c['form']}]"
    got, _ = decode(what, call(what, K.cl_fix_from_real, arg, fmt(r), SAT["Sat_s"]), r)
    compare(what, got, exp, r, xs)
    return [f"elems={len(xs)}", wtag(r), "form-" + c["form"]] + ["nontrivial"] * (any(xs))


@st.composite
def case_refuse(draw):
    r = draw(gen.fmts(max_w=120))
    return dict(r=r, x=draw(st.lists(real(r), min_size=1, max_size=3)), form=draw(st.sampled_from(FORMS)),
                sat=draw(st.sampled_from(["None_s", "Warn_s"])))


def run_refuse(c):
    r = tuple(c["r"])
    arg, xs = mk(c["x"], c["form"])
    rejected(f"cl_fix_from_real -> {r} {c['sat']}", K.cl_fix_from_real, arg, fmt(r), SAT[c["sat"]])
    return ["nontrivial", wtag(r)]


SUBS = [
    Sub("from-real", case(), run, 20000, 600000),
    Sub("from-integers", case_int(), run_int, 3000, 50000),
    Sub("refuse", case_refuse(), run_refuse, 1500, 15000),
]
RULE = ("a case is one (format, doubles, input form); non-trivial when an element needs rounding, is clipped or exceeds 52 bits "
        "(from-integers: a non-zero element)")

if __name__ == "__main__":
    raise SystemExit(core.main("C08", SUBS, RULE, ["finite IEEE doubles; Python 3.12, numpy 2.3"]))
