"""C14 zeros and random data."""
import random
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation
from pyapi import *

shapes = st.one_of(gen.ints(1, 9), st.lists(gen.ints(1, 4), min_size=0, max_size=4))


def as_shape(s, rep):
    if isinstance(s, int):
        return s, (s,)
    return (tuple(s) if rep != "list" or not s else list(s)), tuple(s)


@st.composite
def case_zero(draw):
    return dict(f=draw(gen.fmts(max_w=250)), shape=draw(shapes), rep=draw(st.sampled_from(["tuple", "list"])))


def run_zero(c):
    f = tuple(c["f"])
    arg, shp = as_shape(c["shape"], c["rep"])
    what = f"cl_fix_zeros({arg}, {f})"
    g, s = decode(what, call(what, K.cl_fix_zeros, arg, fmt(f)), f)
    if any(g) or s != shp:
        raise Violation(f"{what}: values {g}, shape {s}")
    return [f"elems={len(g)}", wtag(f), f"ndim-{len(shp)}", "nontrivial"]


@st.composite
def case_rand(draw):
    return dict(f=draw(gen.fmts(max_w=250)), shape=draw(shapes), rep=draw(st.sampled_from(["tuple", "list"])), seed=draw(gen.ints(0, 2**32 - 1)))


def seeded(seed, fn):
    s1, s2 = np.random.get_state(), random.getstate()
    try:
        np.random.seed(seed)
        random.seed(seed)
        return fn()
    finally:
        np.random.set_state(s1)
        random.setstate(s2)


def run_rand(c):
    f = tuple(c["f"])
    arg, shp = as_shape(c["shape"], c["rep"])
    what = f"cl_fix_random({arg}, {f})"
    g, s = decode(what, seeded(c["seed"], lambda: call(what, K.cl_fix_random, arg, fmt(f))), f)
    if s != shp:
        raise Violation(f"{what}: shape {s}")
    h, _ = decode(what, seeded(c["seed"], lambda: call(what, K.cl_fix_random, arg, fmt(f))), f)
    if g != h:
        raise Violation(f"{what}: the same seed gives {g} and then {h}")
    return [f"elems={len(g)}", wtag(f), f"ndim-{len(shp)}"] + ["nontrivial"] * (len(g) > 1)


@st.composite
def case_cover(draw):
    k = draw(gen.ints(0, 3))
    if k == 0:
        S = draw(gen.ints(0, 1))
        w = draw(gen.ints(1, 6))
        F = draw(gen.ints(-3, w + 3))
        f = (S, w - S - F, F)
        f = gen.legal(*f)
    else:
        f = draw(gen.fmts(max_w=200))
    return dict(f=f, seed=draw(gen.ints(0, 2**32 - 1)))


def run_cover(c):
    """Every part of the range is in play.  Thresholds leave < 1e-12 for a uniform generator."""
    f = tuple(c["f"])
    w = M.width(f)
    n = 3000
    what = f"cl_fix_random(({n},), {f}) seed {c['seed']}"
    g, _ = decode(what, seeded(c["seed"], lambda: call(what, K.cl_fix_random, (n,), fmt(f))), f)
    if w <= 6 and len(set(g)) != 1 << w:
        raise Violation(f"{what}: only {len(set(g))} of {1 << w} values occur")
    span = 1 << w
    bins = [0] * 8
    if w >= 3:
        for v in g:
            bins[(v - M.lo(f)) * 8 // span] += 1
        chi = sum((b - n / 8) ** 2 / (n / 8) for b in bins)
        if chi > 85:
            raise Violation(f"{what}: not uniform over the range, counts in eighths of the range: {bins}")
    for b in range(w):
        ones = sum((v >> b) & 1 for v in g)
        if abs(ones - n / 2) > 220:      # 8 sigma
            raise Violation(f"{what}: bit {b} is one in {ones} of {n} values")
    return [f"elems={n}", wtag(f), "nontrivial"] + ["all-values"] * (w <= 6)


SUBS = [
    Sub("zeros", case_zero(), run_zero, 4000, 50000),
    Sub("random", case_rand(), run_rand, 5000, 80000),
    Sub("random-coverage", case_cover(), run_cover, 800, 12000),
]
RULE = "zeros: every case; random: more than one element; random-coverage: 3000 draws from one format"

if __name__ == "__main__":
    raise SystemExit(core.main("C14", SUBS, RULE, ["shapes with at least one element; statistical thresholds at 8 sigma"]))
