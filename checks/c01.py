"""C01 Python rounding."""
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation
from pyapi import *


@st.composite
def case_fn(draw):
    a = draw(gen.fmts(max_w=180))
    w = M.width(a)
    k = draw(gen.ints(0, 3))
    rF = draw(gen.ints(a[2] - w - 3, a[2] + 3)) if k == 0 else draw(gen.ints(a[2] - min(w + 1, 12), a[2] + 1)) if k < 3 \
        else draw(gen.ints(a[2] - 70, a[2] + 70))
    r = (a[0], a[1], rF)
    return dict(a=a, rF=rF, x=draw(gen.raws(a, r, long=True)), lay=draw(gen.layouts))


def expected(c, rnd):
    a = tuple(c["a"])
    r = M.round_fmt(a, c["rF"], rnd)
    xs = expect_n(c["x"], c["lay"])
    return a, r, xs, [M.round_raw(n, a[2], r[2], rnd) for n in xs]


def tags(c):
    a = tuple(c["a"])
    out = [f"elems={7 * len(c['x'])}"]
    d = a[2] - c["rF"]
    if d > 0:
        rem = [n % (1 << d) for n in c["x"]]
        if any(rem):
            out.append("nontrivial")
        if any(x == 1 << (d - 1) for x in rem):
            out.append("tie")
        if d > M.width(a):
            out.append("below-lsb")
    else:
        out.append("not-reduced")
    out.append(wtag(a, M.round_fmt(a, c["rF"], "NonSymPos_s")))
    return out


def run_fn(c):
    for rnd in M.ROUND:
        a, r, xs, exp = expected(c, rnd)
        x = api(c["x"], a, c["lay"])
        what = f"cl_fix_round {a}->{r} {rnd} [{c['lay']}]"
        adv = call("cl_fix_round_fmt", K.cl_fix_round_fmt, fmt(a), c["rF"], RND[rnd])
        if tup(adv) != r:
            raise Violation(f"cl_fix_round_fmt({a}, {c['rF']}, {rnd}) = {adv}, expected {r}")
        out = call(what, K.cl_fix_round, x, fmt(a), fmt(r), RND[rnd])
        got, shp = decode(what, out, r)
        compare(what, got, exp, r, xs)
        if shp != shape_of(x):
            raise Violation(f"{what}: result shape {shp}, input shape {shape_of(x)}")
    return tags(c)


def run_class(c):
    lay = "0d" if c["lay"] == "scalar" else c["lay"]
    for rnd in M.ROUND:
        a, r, xs, exp = expected(c, rnd)
        what = f"WideFix.round {a}->{r} {rnd} [{lay}]"
        o = call(what, wclass(c["x"], a, lay).round, fmt(r), RND[rnd])
        obj_fmt(what, o, r)
        got, _ = decode(what, o.data, r, wide=True)
        compare(what, got, exp, r, xs)
        if not M.is_wide(a) and not M.is_wide(r):
            what = f"NarrowFix.round {a}->{r} {rnd} [{lay}]"
            o = call(what, nclass(c["x"], a, lay).round, fmt(r), RND[rnd])
            obj_fmt(what, o, r)
            got, _ = decode(what, o.data, r)
            compare(what, got, exp, r, xs)
    return tags(c)


@st.composite
def case_reject(draw):
    a = draw(gen.fmts(max_w=100))
    rnd = draw(gen.rounds)
    rF = draw(gen.ints(a[2] - 10, a[2] + 5))
    r = M.round_fmt(a, rF, rnd)
    S = draw(gen.ints(0, 1))
    I = r[1] + draw(gen.ints(-3, 3))
    bad = gen.legal(S, I, rF)
    if bad == r:
        bad = (1 - r[0], r[1] + 1, r[2])
    return dict(a=a, r=bad, rnd=rnd, x=draw(gen.raws(a, r, max_n=3)))


def run_reject(c):
    a, r = tuple(c["a"]), tuple(c["r"])
    if M.round_fmt(a, r[2], c["rnd"]) == r:
        return []
    what = f"{a}->{r} {c['rnd']}"
    rejected("cl_fix_round " + what, K.cl_fix_round, api(c["x"], a), fmt(a), fmt(r), RND[c["rnd"]])
    rejected("WideFix.round " + what, wclass(c["x"], a).round, fmt(r), RND[c["rnd"]])
    if not M.is_wide(a) and not M.is_wide(r):
        rejected("NarrowFix.round " + what, nclass(c["x"], a).round, fmt(r), RND[c["rnd"]])
    return ["nontrivial", wtag(a, r)]


SUBS = [
    Sub("round-fn", case_fn(), run_fn, 12000, 400000),
    Sub("round-class", case_fn(), run_class, 12000, 300000),
    Sub("round-reject", case_reject(), run_reject, 2000, 20000),
]
RULE = ("a case is one (format, fractional bits, values, layout) evaluated in all 7 modes; non-trivial when at least one value "
        "has non-zero dropped bits (reject: the requested format violates the growth rule)")

if __name__ == "__main__":
    raise SystemExit(core.main("C01", SUBS, RULE, ["Python 3.12, numpy 2.3 float64"]))
