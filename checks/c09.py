"""C09 integer and real conversions."""
from fractions import Fraction
import math
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation
from pyapi import *

FORMS = ["int64", "int64", "object", "py", "0d", "list", "2d", "int32", "int16", "uint8", "int8", "uint32", "uint64"]


def mk(ns, form):
    """Integers as the given input form (None if not representable there)."""
    if form == "py":
        return int(ns[0]), ns[:1]
    if form == "object":
        return wide_arr(ns), ns
    if form == "list":
        if not all(-2**63 <= n < 2**63 for n in ns):
            return wide_arr(ns), ns
        return [int(n) for n in ns], ns
    dt = {"0d": "int64", "2d": "int64"}.get(form, form)
    ii = np.iinfo(dt)
    if not all(ii.min <= n <= ii.max for n in ns):
        return wide_arr(ns), ns
    a = np.array(ns, dtype=dt)
    if form in ("0d", "2d"):
        a = shaped(a, form)
    return a, (ns[:1] if form == "0d" else ns)


def shape_in(arg):
    return (len(arg),) if isinstance(arg, list) else shape_of(arg)


@st.composite
def case(draw):
    f = draw(gen.fmts(max_w=200))
    return dict(f=f, x=draw(gen.raws(f, long=True)), form=draw(st.sampled_from(FORMS)))


def run(c):
    f = tuple(c["f"])
    arg, ns = mk(c["x"], c["form"])
    what = f"cl_fix_from_integer {f} [{c['form']}]"
    v = call(what, K.cl_fix_from_integer, arg, fmt(f))
    got, shp = decode(what, v, f)
    compare(what, got, ns, f, ns)
    if shp != shape_in(arg):
        raise Violation(f"{what}: result shape {shp}, input shape {shape_in(arg)}")
    what = f"cl_fix_to_integer {f} [{c['form']}]"
    back = call(what, K.cl_fix_to_integer, v, fmt(f))
    bl = list(back.flat) if isinstance(back, np.ndarray) else [back]
    for b in bl:
        if not isinstance(b, (int, np.integer)) or isinstance(b, bool):
            raise Violation(f"{what}: not an integer: {b!r} ({type(b).__name__})")
    if [int(b) for b in bl] != [int(n) for n in ns] or shape_of(back) != shp:
        raise Violation(f"{what}: {ns} -> {bl}")
    # the converted data is usable by the operations
    z = call(f"cl_fix_add of converted integers {f} [{c['form']}]", K.cl_fix_add, v, fmt(f), v, fmt(f), None)
    af = M.add_fmt(f, f)
    compare("cl_fix_add of converted integers", decode("add", z, af)[0], [2 * n for n in ns], af, ns)
    if not M.is_wide(f):
        o = call(f"NarrowFix.from_integer {f}", NarrowFix.from_integer, np.array(arg) if isinstance(arg, list) else arg, fmt(f))
        obj_fmt("NarrowFix.from_integer", o, f)
        compare("NarrowFix.from_integer", decode("NarrowFix.from_integer", o.data, f)[0], ns, f, ns)
        t = call("NarrowFix.to_integer", o.to_integer)
        if [int(q) for q in np.asarray(t).flat] != [int(n) for n in ns]:
            raise Violation(f"NarrowFix.to_integer {f}: {ns} -> {t}")
    return [f"elems={2 * len(ns)}", wtag(f), "form-" + c["form"]] + ["nontrivial"] * (any(abs(n) > 1 for n in ns))


@st.composite
def case_oor(draw):
    f = draw(gen.fmts(max_w=150))
    k = draw(gen.ints(0, 4))
    span = 1 << M.width(f)
    if k == 0:
        bad = M.hi(f) + draw(gen.ints(1, 3))
    elif k == 1:
        bad = M.lo(f) - draw(gen.ints(1, 3))
    elif k == 2:
        bad = draw(gen.ints(M.hi(f) + 1, M.hi(f) + 4 * span))
    elif k == 3:
        bad = draw(gen.ints(M.lo(f) - 4 * span, M.lo(f) - 1))
    else:
        bad = draw(st.sampled_from([span, -span, 2 * span, -2 * span, M.hi(f) + span, M.lo(f) - span]))
    ns = draw(st.lists(gen.raw(f), max_size=4))
    i = draw(gen.ints(0, len(ns)))
    return dict(f=f, x=ns[:i] + [bad] + ns[i:], i=i, form=draw(st.sampled_from(FORMS)))


def run_oor(c):
    f = tuple(c["f"])
    ns = c["x"]
    if c["form"] in ("py", "0d"):
        ns = [ns[c["i"]]]
    if M.fits(ns[c["i"] if len(ns) > 1 else 0], f):
        return []
    arg, _ = mk(ns, c["form"])
    rejected(f"cl_fix_from_integer of {ns} in {f} [{c['form']}]", K.cl_fix_from_integer, arg, fmt(f))
    if not M.is_wide(f):
        rejected(f"NarrowFix.from_integer of {ns} in {f}", NarrowFix.from_integer,
                 np.array(arg) if isinstance(arg, list) else arg, fmt(f))
    return ["nontrivial", wtag(f), "form-" + c["form"], "one-bad-of-many" if len(ns) > 1 else "single"]


@st.composite
def case_real(draw):
    f = draw(gen.fmts(max_w=300))
    return dict(f=f, x=draw(gen.raws(f, long=True)), lay=draw(gen.layouts))


def run_real(c):
    f = tuple(c["f"])
    ns = expect_n(c["x"], c["lay"])
    x = api(c["x"], f, c["lay"])
    what = f"cl_fix_to_real {f} [{c['lay']}]"
    with Warned() as wn:
        out = call(what, K.cl_fix_to_real, x, fmt(f))
    vals = [float(v) for v in out.flat] if isinstance(out, np.ndarray) else [float(out)]
    if isinstance(out, np.ndarray) and out.dtype != np.float64:
        raise Violation(f"{what}: dtype {out.dtype}")
    if shape_of(out) != shape_of(x) or len(vals) != len(ns):
        raise Violation(f"{what}: shape {shape_of(out)}")
    lossy = False
    for n, v in zip(ns, vals):
        exact = Fraction(n) / Fraction(2) ** f[2]
        err = abs(Fraction(v) - exact)
        m = n
        while m and m % 2 == 0:
            m //= 2
        if abs(m) < 1 << 53:
            if err:
                raise Violation(f"{what}: raw {n} -> {v!r}, must be exact", key="inexact")
        else:
            lossy = True
            if err > Fraction(math.ulp(v)):
                raise Violation(f"{what}: raw {n} -> {v!r}, off by more than one ulp")
    if not M.is_wide(f):
        back = call("cl_fix_from_real", K.cl_fix_from_real, out, fmt(f))
        compare(f"from_real(to_real) {f} [{c['lay']}]", decode("from_real(to_real)", back, f)[0], ns, f, ns)
    with Warned() as ww:
        o = call("WideFix.to_real", wclass(c["x"], f, "0d" if c["lay"] == "scalar" else c["lay"]).to_real)
    if any(Fraction(v) != Fraction(n) / Fraction(2) ** f[2] for n, v in zip(ns, vals)):
        if not wn.fired or not ww.fired:
            raise Violation(f"{'WideFix.to_real' if wn.fired else what} lost bits of {ns} without a warning")
    if [float(v) for v in np.asarray(o).flat] != vals:
        raise Violation(f"WideFix.to_real differs from cl_fix_to_real for {ns} in {f}: {o} vs {vals}")
    return [f"elems={len(ns)}", wtag(f)] + ["inexact-ok"] * lossy + ["nontrivial"] * any(abs(n) > 1 for n in ns)


SUBS = [
    Sub("integer", case(), run, 12000, 300000),
    Sub("out-of-range", case_oor(), run_oor, 5000, 100000),
    Sub("to-real", case_real(), run_real, 8000, 200000),
]
RULE = ("integer/to-real: at least one element with magnitude above 1; out-of-range: at least one element outside the format")

if __name__ == "__main__":
    raise SystemExit(core.main("C09", SUBS, RULE, ["numpy integer dtypes and Python ints; empty arrays excluded"]))
