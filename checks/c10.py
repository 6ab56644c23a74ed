"""C10 range test and saturation warnings."""
from fractions import Fraction
from hypothesis import strategies as st
import core, gen, ops, model as M
import importlib.util, os
from core import Sub, Violation
from pyapi import *

spec = importlib.util.spec_from_file_location("c08", os.path.join(os.path.dirname(os.path.abspath(__file__)), "c08.py"))
c08 = importlib.util.module_from_spec(spec)
spec.loader.exec_module(c08)


@st.composite
def case_range(draw):
    a = draw(gen.fmts(max_w=150))
    r = draw(gen.rel_fmts(a, max_w=150))
    return dict(a=a, r=r, rnd=draw(gen.rounds), x=draw(gen.raws(a, r, long=True)), lay=draw(gen.layouts))


def bools(what, out, n, shp):
    if isinstance(out, np.ndarray):
        if out.dtype != np.bool_ or out.shape != shp:
            raise Violation(f"{what}: expected booleans of shape {shp}, got {out.dtype} {out.shape}")
        return [bool(v) for v in out.flat]
    if not isinstance(out, (bool, np.bool_)) or shp != ():
        raise Violation(f"{what}: expected booleans of shape {shp}, got {out!r}")
    return [bool(out)]


def run_range(c):
    a, r = tuple(c["a"]), tuple(c["r"])
    xs = expect_n(c["x"], c["lay"])
    exp = [M.in_range(n, a[2], r, c["rnd"]) for n in xs]
    x = api(c["x"], a, c["lay"])
    what = f"cl_fix_in_range {a}->{r} {c['rnd']} [{c['lay']}]"
    got = bools(what, call(what, K.cl_fix_in_range, x, fmt(a), fmt(r), RND[c["rnd"]]), len(xs), shape_of(x))
    if got != exp:
        raise Violation(f"{what}: {got}, expected {exp} for {xs}")
    what = f"cl_fix_in_range {a}->{r} (default rounding) [{c['lay']}]"
    got = bools(what, call(what, K.cl_fix_in_range, x, fmt(a), fmt(r)), len(xs), shape_of(x))
    dexp = [M.in_range(n, a[2], r, "Trunc_s") for n in xs]
    if got != dexp:
        raise Violation(f"{what}: {got}, expected {dexp} for {xs}")
    mid = M.round_fmt(a, r[2], c["rnd"])
    if not (M.is_wide(a) or M.is_wide(r) or M.is_wide(mid)):
        o = nclass(c["x"], a, "0d" if c["lay"] == "scalar" else c["lay"])
        what = f"NarrowFix.in_range {a}->{r} {c['rnd']}"
        got = bools(what, call(what, o.in_range, fmt(r), RND[c["rnd"]]), len(xs), shape_of(o.data))
        if got != exp:
            raise Violation(f"{what}: {got}, expected {exp} for {xs}")
    t = [f"elems={2 * len(xs)}", wtag(a, r), "mid-" + wtag(mid)]
    if len(set(exp)) == 2:
        t.append("both-answers")
    if not all(exp) or exp != dexp:
        t.append("nontrivial")
    return t


@st.composite
def case_warn(draw):
    a = draw(gen.fmts(max_w=150))
    r = draw(gen.rel_fmts(a, max_w=150))
    # mostly in-range values, at most a few out of range, so that "exactly when" is tested both ways
    x = draw(gen.raws(a, r, max_n=5))
    if draw(gen.ints(0, 2)) > 0:
        keep = [n for n in x if M.in_range(n, a[2], r, "Trunc_s") and M.in_range(n, a[2], r, "NonSymPos_s")]
        bad = [n for n in x if n not in keep]
        x = keep[:4] + (bad[:1] if draw(st.booleans()) else [])
        x = x or [0]
        p = draw(gen.ints(0, len(x) - 1))
        x = x[p:] + x[:p]
    if draw(gen.ints(0, 9)) == 9:       # few values out of range among many
        x = sorted(x, key=lambda n: not M.in_range(n, a[2], r, "Trunc_s"))
        out = [n for n in (M.hi(a), M.lo(a)) if not M.in_range(n, a[2], r, "Trunc_s")]
        if draw(st.booleans()):
            x = (x if M.in_range(x[0], a[2], r, "Trunc_s") else [0]) + out[:draw(gen.ints(0, 1))]
        x = gen.big(draw, x, rare=1)
    return dict(a=a, r=r, rnd=draw(gen.rounds), sat=draw(gen.sats), x=x, lay=draw(gen.layouts))


def run_warn(c):
    a, r, rnd, sat = tuple(c["a"]), tuple(c["r"]), c["rnd"], c["sat"]
    xs = expect_n(c["x"], c["lay"])
    x = api(c["x"], a, c["lay"])
    oor = [not M.in_range(n, a[2], r, rnd) for n in xs]
    should = M.warns(sat) and any(oor)

    def chk(what, w):
        if w.fired != should:
            raise Violation(f"{what}: {'no warning' if should else 'warned ' + repr(w.msgs)} for {xs} (out of range: {oor})")
    what = f"cl_fix_resize {a}->{r} {rnd} {sat} [{c['lay']}]"
    with Warned() as w:
        out = call(what, K.cl_fix_resize, x, fmt(a), fmt(r), RND[rnd], SAT[sat])
    chk(what, w)
    compare(what, decode(what, out, r)[0], [M.resize_raw(n, a[2], r, rnd, sat) for n in xs], r, xs)
    lay = "0d" if c["lay"] == "scalar" else c["lay"]
    with Warned() as w:
        call("WideFix.resize", wclass(c["x"], a, lay).resize, fmt(r), RND[rnd], SAT[sat])
    chk("WideFix.resize " + what, w)
    mid = M.round_fmt(a, r[2], rnd)
    if not (M.is_wide(a) or M.is_wide(r) or M.is_wide(mid)):
        with Warned() as w:
            call("NarrowFix.resize", nclass(c["x"], a, lay).resize, fmt(r), RND[rnd], SAT[sat])
        chk("NarrowFix.resize " + what, w)
    # saturation alone, at the same number of fractional bits
    s = gen.legal(r[0], r[1] if r[1] + a[2] > 0 else 1 - a[2], a[2])
    oor2 = [not M.fits(n, s) for n in xs]
    with Warned() as w:
        out = call("cl_fix_saturate", K.cl_fix_saturate, x, fmt(a), fmt(s), SAT[sat])
    if w.fired != (M.warns(sat) and any(oor2)):
        raise Violation(f"cl_fix_saturate {a}->{s} {sat}: warned={w.fired} {w.msgs} for {xs} (out of range: {oor2})")
    # rounding alone never warns
    with Warned() as w:
        call("cl_fix_round", K.cl_fix_round, x, fmt(a), fmt(mid), RND[rnd])
    if w.fired:
        raise Violation(f"cl_fix_round {a}->{mid} {rnd} warned {w.msgs}")
    return [f"elems={2 * len(xs)}", wtag(a, r), sat] + ["should-warn"] * should + ["nontrivial"] * (M.warns(sat) or any(oor)) + \
           ["one-of-many"] * (sum(oor) == 1 and len(oor) > 1)


def run_opwarn(c):
    """Arithmetic with a result format warns exactly when an exact result is out of range after rounding."""
    if not ops.legal_case(c) or c["r"] is None:
        return []
    r, rows, exp = ops.expected(c)
    oor = [not M.fits(M.round_raw(e, F, r[2], c["rnd"]), r) for _, e, F in rows]
    should = M.warns(c["sat"]) and any(oor)
    args = ops.fn_args(c)
    what = f"cl_fix_{c['op']} a={tuple(c['a'])} b={c.get('b')} s={c.get('s')} r={r} {c['rnd']} {c['sat']} [{c['lay']}]"
    with Warned() as w:
        call(what, getattr(K, "cl_fix_" + c["op"]), *args, fmt(r), RND[c["rnd"]], SAT[c["sat"]])
    if w.fired != should:
        raise Violation(f"{what}: {'no warning' if should else 'warned ' + repr(w.msgs)} for {[q[0] for q in rows]} (out of range: {oor})")
    for name, wide in [("WideFix", True)] + ([("NarrowFix", False)] if ops.narrow_ok(c) else []):
        o = ops.class_obj(None, c, "x", "a", wide)
        args = []
        if c["op"] in ops.BINARY:
            args.append(ops.class_obj(None, c, "y", "b", wide))
            if c["op"] == "addsub":
                args.append(ops.selector(c, None, c["lay"]))
        if c["op"] == "shift":
            args.append(ops.shift_arg(c, c["lay"]))
        with Warned() as w:
            call(f"{name}: {what}", getattr(o, c["op"]), *args, fmt(r), RND[c["rnd"]], SAT[c["sat"]])
        if w.fired != should:
            raise Violation(f"{name}: {what}: {'no warning' if should else 'warned ' + repr(w.msgs)} for {[q[0] for q in rows]} (out of range: {oor})")
    return [f"elems={len(rows)}", c["op"]] + ["should-warn"] * should + ["nontrivial"] * (M.warns(c["sat"]))


@st.composite
def case_real(draw):
    c = draw(c08.case())
    r = c["r"]
    if draw(gen.ints(0, 2)) == 0:
        inside = [x for x in c["x"] if M.lo(r) <= Fraction(x) * Fraction(2) ** r[2] <= M.hi(r)]
        c["x"] = inside or [0.0]
    elif draw(gen.ints(0, 9)) == 9:     # few values out of range among many
        inside = [x for x in c["x"] if M.lo(r) <= Fraction(x) * Fraction(2) ** r[2] <= M.hi(r)] or [0.0]
        try:
            out = [float(Fraction(n) / Fraction(2) ** r[2]) for n in (M.hi(r) * 2 + 2, M.lo(r) * 2 - 2)]
        except OverflowError:
            out = []
        k = draw(gen.ints(0, 2))
        c["x"] = gen.big(draw, inside[:2] + out[k:k + 1], rare=1)
        c["form"] = draw(st.sampled_from(["1d", "1d", "2d", "rev", "list"]))
    return c


def run_real(c):
    r = tuple(c["r"])
    arg, xs = c08.mk(c["x"], c["form"])
    sc = Fraction(2) ** r[2]
    oor = [not (M.lo(r) <= Fraction(x) * sc <= M.hi(r)) for x in xs]
    should = c["sat"] == "SatWarn_s" and any(oor)
    what = f"cl_fix_from_real -> {r} {c['sat']} [{c['form']}]"
    with Warned() as w:
        call(what, K.cl_fix_from_real, arg, fmt(r), SAT[c["sat"]])
    if w.fired != should:
        raise Violation(f"{what}: {'no warning' if should else 'warned ' + repr(w.msgs)} for {xs} (out of range: {oor})")
    return [f"elems={len(xs)}", wtag(r)] + ["should-warn"] * should + ["nontrivial"] * (c["sat"] == "SatWarn_s")


ALL = ("add", "sub", "addsub", "mult", "neg", "abs", "shift")
SUBS = [
    Sub("in-range", case_range(), run_range, 14000, 400000),
    Sub("resize-warning", case_warn(), run_warn, 10000, 250000),
    Sub("op-warning", ops.op_case(ALL), run_opwarn, 8000, 150000),
    Sub("real-warning", case_real(), run_real, 8000, 150000),
]
RULE = ("in-range: an element is out of range or the answer depends on rounding; resize-warning: a warning mode or an element out of "
        "range; op-/real-warning: a warning mode")

if __name__ == "__main__":
    raise SystemExit(core.main("C10", SUBS, RULE, ["numpy RuntimeWarning/DeprecationWarning are not library warnings"]))
