"""C11 uint64 packing."""
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation
from pyapi import *

SHAPES = ["1d", "1d", "2d", "2df", "3d", "0d", "scalar", "rev", "strided"]


@st.composite
def wide_fmt(draw):
    k = draw(gen.ints(0, 2))
    w = draw(gen.ints(54, 70)) if k == 0 else draw(gen.ints(54, 330)) if k == 1 else 64 * draw(gen.ints(1, 4)) + draw(gen.ints(-1, 1))
    S = draw(gen.ints(0, 1))
    F = draw(gen.ints(-20, w))
    return (S, w - S - F, F)


@st.composite
def case(draw):
    f = draw(wide_fmt())
    return dict(f=f, x=draw(gen.raws(f, long=True)), lay=draw(st.sampled_from(SHAPES)))


def words(n, f):
    u = n % (1 << M.width(f))
    return [(u >> (64 * i)) & (2**64 - 1) for i in range((M.width(f) + 63) // 64)]


def run_fn(c):
    f = tuple(c["f"])
    ns = expect_n(c["x"], c["lay"])
    x = api(c["x"], f, c["lay"], wide=True)
    keep = x.copy() if isinstance(x, np.ndarray) else x
    shp = shape_of(x)
    what = f"to_uint64_array {f} [{c['lay']}]"
    p = call(what, K.to_uint64_array, x, fmt(f))
    nw = (M.width(f) + 63) // 64
    ishp = shp or (1,)      # documented: at least one dimension
    if not isinstance(p, np.ndarray) or p.dtype != np.uint64 or p.shape != ishp + (nw,):
        raise Violation(f"{what}: got {getattr(p, 'dtype', None)} {getattr(p, 'shape', None)}, expected uint64 {ishp + (nw,)}")
    flat = p.reshape(-1, nw)
    for i, n in enumerate(ns):
        if [int(v) for v in flat[i]] != words(n, f):
            raise Violation(f"{what}: words of {n} are {[hex(int(v)) for v in flat[i]]}, expected {[hex(v) for v in words(n, f)]}")
    if isinstance(x, np.ndarray) and not np.array_equal(x, keep):
        raise Violation(f"{what}: the caller's data was modified from {keep.tolist()} to {x.tolist()}")
    what = f"from_uint64_array {f} [{c['lay']}]"
    q = p.copy()
    y = call(what, K.from_uint64_array, p, fmt(f))
    if not np.array_equal(p, q):
        raise Violation(f"{what}: the packed data was modified")
    got, s2 = decode(what, y, f, wide=True)
    compare(what, got, ns, f, ns)
    if s2 != ishp:
        raise Violation(f"{what}: shape {s2}, expected {ishp}")
    return tags(c, f, ns)


def tags(c, f, ns):
    return [f"elems={len(ns)}", "shape-" + c["lay"], "signed" if f[0] else "unsigned", f"words-{(M.width(f) + 63) // 64}"] + \
           ["nontrivial"] * any(n < 0 or n >= 2**64 for n in ns)


@st.composite
def case_cls(draw):
    f = draw(wide_fmt()) if draw(gen.ints(0, 2)) else draw(gen.fmts(max_w=53))
    return dict(f=f, x=draw(gen.raws(f, long=True)), lay=draw(st.sampled_from([s for s in SHAPES if s != "scalar"])))


def run_cls(c):
    f = tuple(c["f"])
    ns = expect_n(c["x"], c["lay"])
    o = wclass(c["x"], f, c["lay"])
    shp = o.data.shape
    what = f"WideFix.to_uint64_array {f} [{c['lay']}]"
    p = call(what, o.to_uint64_array)
    nw = (M.width(f) + 63) // 64
    if p.dtype != np.uint64 or p.shape != (nw,) + shp:
        raise Violation(f"{what}: got {p.dtype} {p.shape}, expected uint64 {(nw,) + shp}")
    flat = p.reshape(nw, -1)
    for i, n in enumerate(ns):
        if [int(v) for v in flat[:, i]] != words(n, f):
            raise Violation(f"{what}: words of {n} are {[hex(int(v)) for v in flat[:, i]]}, expected {[hex(v) for v in words(n, f)]}")
    if decode(what, o.data, f, wide=True)[0] != ns:
        raise Violation(f"{what}: the object was modified")
    what = f"WideFix.from_uint64_array {f} [{c['lay']}]"
    y = call(what, WideFix.from_uint64_array, p, fmt(f))
    obj_fmt(what, y, f)
    got, s2 = decode(what, y.data, f, wide=True)
    compare(what, got, ns, f, ns)
    if s2 != shp:
        raise Violation(f"{what}: shape {s2}, expected {shp}")
    return tags(c, f, ns)


@st.composite
def case_bad(draw):
    k = draw(gen.ints(0, 3))
    f = draw(gen.fmts(max_w=53)) if k <= 1 else draw(wide_fmt())
    return dict(kind=["pack-narrow", "unpack-narrow", "pack-dtype", "unpack-dtype"][k], f=f, x=draw(gen.raws(f, max_n=3)),
                dt=draw(st.sampled_from(["float64", "int64", "uint64", "int32", "list"])), n=draw(gen.ints(1, 3)))


def run_bad(c):
    f, k = tuple(c["f"]), c["kind"]
    if k == "pack-narrow":
        rejected(f"to_uint64_array of narrow {f}", K.to_uint64_array, wide_arr(c["x"]), fmt(f))
        rejected(f"to_uint64_array of narrow {f}", K.to_uint64_array, narrow_arr(c["x"], f), fmt(f))
        rejected(f"to_uint64_array of narrow scalar {f}", K.to_uint64_array, int(c["x"][0]), fmt(f))
    elif k == "unpack-narrow":
        rejected(f"from_uint64_array of narrow {f}", K.from_uint64_array, np.zeros((2, 1), dtype=np.uint64), fmt(f))
    elif k == "pack-dtype":
        if c["dt"] == "list":
            rejected(f"to_uint64_array of float scalar, {f}", K.to_uint64_array, 1.5, fmt(f))
        else:
            rejected(f"to_uint64_array of {c['dt']}, {f}", K.to_uint64_array, np.zeros(c["n"], dtype=c["dt"]), fmt(f))
    else:
        if c["dt"] == "uint64":
            return []
        bad = [[1, 2]] if c["dt"] == "list" else np.zeros((c["n"], 2), dtype=c["dt"])
        rejected(f"from_uint64_array of {c['dt']}, {f}", K.from_uint64_array, bad, fmt(f))
    return ["nontrivial", k]


SUBS = [
    Sub("pack-last-axis", case(), run_fn, 10000, 250000),
    Sub("pack-first-axis", case_cls(), run_cls, 10000, 250000),
    Sub("reject", case_bad(), run_bad, 1500, 10000),
]
RULE = "a case is one (format, values, shape); non-trivial when a value is negative or needs more than one word"

if __name__ == "__main__":
    raise SystemExit(core.main("C11", SUBS, RULE, ["values are representable in the format; at least one element"]))
