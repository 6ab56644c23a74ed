"""C06 advertised formats."""
import copy as cp
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation
from pyapi import *

OPS2 = ["add", "sub", "addsub", "mult"]


any_fmt = gen.any_fmt


@st.composite
def case(draw):
    a = draw(any_fmt())
    b = draw(any_fmt())
    if draw(gen.ints(0, 3)) == 0:
        # b close to a's range and resolution (interaction cases of the minimal rules)
        F = a[2] + draw(gen.ints(-2, 2))
        b = gen.legal(draw(gen.ints(0, 1)), a[1] + draw(gen.ints(-2, 2)), F)
    elif draw(gen.ints(0, 3)) == 0:
        # b's top meets a's bottom
        m = draw(gen.ints(0, 3))
        I = -a[2] + draw(gen.ints(-2, 2))
        b = gen.legal(draw(gen.ints(0, 1)), I, -I + m)
    s0 = draw(gen.ints(-80, 80))
    return dict(a=a, b=b, s0=s0, s1=s0 + draw(gen.ints(0, 40)), rF=a[2] + draw(gen.ints(-40, 8)), rnd=draw(gen.rounds))


def chk(what, got, exp):
    if tup(got) != tuple(exp):
        raise Violation(f"{what} = {got}, expected {exp}")


def run(c):
    a, b = tuple(c["a"]), tuple(c["b"])
    A, B = fmt(a), fmt(b)
    for op in OPS2:
        fn = getattr(K, f"cl_fix_{op}_fmt")
        chk(f"{op} format of {a}, {b}", call(op + "_fmt", fn, A, B), M.full_fmt(op, a, b))
        chk(f"FixFormat.for_{op} of {a}, {b}", call("for_" + op, getattr(FF, "for_" + op), A, B), M.full_fmt(op, a, b))
    for op in ("neg", "abs"):
        chk(f"{op} format of {a}", call(op + "_fmt", getattr(K, f"cl_fix_{op}_fmt"), A), M.full_fmt(op, a))
    chk(f"shift format of {a} by {c['s0']}..{c['s1']}", call("shift_fmt", K.cl_fix_shift_fmt, A, c["s0"], c["s1"]),
        M.shift_fmt(a, c["s0"], c["s1"]))
    chk(f"shift format of {a} by {c['s0']}", call("shift_fmt", K.cl_fix_shift_fmt, A, c["s0"]), M.shift_fmt(a, c["s0"], c["s0"]))
    chk(f"round format of {a} to {c['rF']} {c['rnd']}", call("round_fmt", K.cl_fix_round_fmt, A, c["rF"], RND[c["rnd"]]),
        M.round_fmt(a, c["rF"], c["rnd"]))
    chk(f"union of {a}, {b}", call("union_fmt", K.cl_fix_union_fmt, A, B), M.union(a, b))
    for f, F in ((a, A), (b, B)):
        if tup(F) != f:
            raise Violation(f"format {f} was modified to {F} by a format calculation")
        if K.cl_fix_width(F) != M.width(f) or F.width != M.width(f):
            raise Violation(f"width of {f}: {K.cl_fix_width(F)}")
        if bool(K.cl_fix_is_wide(F)) != M.is_wide(f):
            raise Violation(f"cl_fix_is_wide({f}) = {K.cl_fix_is_wide(F)}")
    # the round format really holds the rounded extremes (independent of the growth rule)
    r = M.round_fmt(a, c["rF"], c["rnd"])
    for n in (M.lo(a), M.hi(a)):
        if a[2] - c["rF"] < 5000 and not M.fits(M.round_raw(n, a[2], c["rF"], c["rnd"]), r):
            raise core.HarnessError(f"model: {n} {a} {r}")
    return ["elems=12", "nontrivial"] + (["one-bit-operand"] if 1 in (M.width(a), M.width(b)) else []) + \
           (["no-growth"] if max(a[1], b[1]) == M.add_fmt(a, b)[1] else [])


@st.composite
def case_bounds(draw):
    """Operands drawn from the formats: results must fit the advertised format, extremes must need it."""
    a, b = draw(any_fmt()), draw(any_fmt())
    a = (a[0], min(a[1], 150 - a[2]), a[2])
    b = (b[0], min(b[1], 150 - b[2]), b[2])
    s0 = draw(gen.ints(-20, 20))
    s1 = s0 + draw(gen.ints(0, 8))
    return dict(a=a, b=b, x=draw(gen.raw(a)), y=draw(gen.raw(b)), s0=s0, s1=s1, s=draw(gen.ints(s0, s1)))


def run_bounds(c):
    a, b, x, y = tuple(c["a"]), tuple(c["b"]), c["x"], c["y"]
    A, B = fmt(a), fmt(b)
    jobs = []
    for op in ("add", "sub", "mult"):
        jobs.append((op, tup(getattr(K, f"cl_fix_{op}_fmt")(A, B)), M.op_exact(op, a, x, b, y)))
    for sel in (True, False):
        jobs.append(("addsub", tup(K.cl_fix_addsub_fmt(A, B)), M.op_exact("addsub", a, x, b, y, sel)))
    for op in ("neg", "abs"):
        jobs.append((op, tup(getattr(K, f"cl_fix_{op}_fmt")(A)), M.op_exact(op, a, x)))
    jobs.append(("shift", tup(K.cl_fix_shift_fmt(A, c["s0"], c["s1"])), M.op_exact("shift", a, x, b=c["s"])))
    jobs.append(("union", tup(K.cl_fix_union_fmt(A, B)), (x, a[2])))
    jobs.append(("union", tup(K.cl_fix_union_fmt(A, B)), (y, b[2])))
    for op, f, (e, F) in jobs:
        if f[2] < F:
            q, rem = divmod(e, 1 << (F - f[2]))
            ok = rem == 0
        else:
            q, ok = e << (f[2] - F), True
        if not ok or not M.fits(q, f):
            raise Violation(f"{op} of x={x} {a}, y={y} {b} (shift {c['s']}): result {e}*2**-{F} does not fit the advertised {f}")
    return ["elems=9"] + ["nontrivial"] * (x in (M.lo(a), M.hi(a)) or y in (M.lo(b), M.hi(b)))


@st.composite
def case_value(draw):
    n = draw(gen.ints(1, 6)) if draw(gen.ints(0, 7)) else draw(gen.ints(7, 60))
    fs = [draw(any_fmt(min_w=0)) for _ in range(min(n, 6))]
    if n > 6:       # many formats: copies or neighbours of a few, one other somewhere
        g = draw(st.sampled_from([0, 5, 40]))
        fs = [(fs[i][0], fs[i][1] + k, fs[i][2]) for i, k in draw(st.lists(st.tuples(gen.ints(0, 5), gen.ints(0, g)), min_size=n, max_size=n))]
        fs[draw(gen.ints(0, n - 1))] = draw(any_fmt(min_w=0))
    other = list(draw(st.sampled_from(fs)))
    k = draw(gen.ints(0, 3))
    if k < 3:
        other[k] = (1 - other[0]) if k == 0 else other[k] + draw(gen.ints(1, 3))
    return dict(fs=fs, other=other, coll=draw(st.sampled_from(["list", "tuple"])))


def run_value(c):
    fs = [tuple(f) for f in c["fs"]]
    Fs = [fmt(f) for f in fs]
    u = call("union_fmt of a collection", K.cl_fix_union_fmt, tuple(Fs) if c["coll"] == "tuple" else list(Fs))
    chk(f"union of {fs}", u, M.union(*fs))
    if [tup(F) for F in Fs] != fs:
        raise Violation(f"union modified its inputs: {fs} -> {[tup(F) for F in Fs]}")
    if any(u is F for F in Fs):
        raise Violation(f"union of {fs} returned one of its inputs, not an independent format")
    o, O = tuple(c["other"]), fmt(c["other"])
    for f, F in zip(fs, Fs):
        same = f == o
        if bool(F == O) != same or bool(F != O) != (not same) or bool(O == F) != same:
            raise Violation(f"{f} == {o}: {F == O}, != : {F != O}")
        if str(F) != f"({f[0]}, {f[1]}, {f[2]})" or K.cl_fix_format_to_string(F) != str(F):
            raise Violation(f"string of {f} is {str(F)!r}")
        if tup(eval(repr(F), {"FixFormat": FF})) != f:
            raise Violation(f"repr of {f} is {repr(F)!r}")
        C = cp.copy(F)
        C.I += 1
        if tup(F) != f or not (cp.copy(F) == F) or not (cp.deepcopy(F) == F):
            raise Violation(f"copy of {f} is not an independent equal value")
        N = FF(np.int64(f[0]), np.int32(f[1]), np.int64(f[2]))
        if not (N == F) or str(N) != str(F):
            raise Violation(f"format {f} built from numpy integers differs: {N!r}")
    return ["nontrivial"] * (len(fs) > 1)


DT = ["int", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]


def typed(n, d):
    return n if d == "int" else np.dtype(d).type(n)


@st.composite
def case_numpy(draw):
    """Sizes given as numpy integers of any type."""
    v = st.one_of(gen.ints(-12, 12), gen.ints(-130, 130), gen.ints(-300, 300), gen.ints(-70000, 70000))
    I = draw(v)
    F = draw(v) if draw(gen.ints(0, 2)) == 0 else -I + draw(gen.ints(-3, 300))
    s = sorted([draw(v), draw(v)])

    def types(*ns):
        return [draw(st.sampled_from([d for d in DT if d == "int" or np.iinfo(d).min <= n <= np.iinfo(d).max])) for n in ns]
    a = draw(any_fmt())
    rF = a[2] + draw(gen.ints(-40, 40))
    f = [draw(gen.ints(0, 1)), I, F]
    return dict(f=f, ft=types(*f), a=a, s=s, st=types(*s), rF=rF, rt=types(rF), rnd=draw(gen.rounds))


def run_numpy(c):
    f, a = c["f"], tuple(c["a"])
    args = [typed(n, d) for n, d in zip(f, c["ft"])]
    what = f"FixFormat({', '.join(f'{d}({n})' for n, d in zip(f, c['ft']))})"
    if f[1] + f[2] < 0:
        rejected(what, FF, *args)
    else:
        F = call(what, FF, *args)
        chk(what, F, f)
        if any(type(v) is not int for v in (F.S, F.I, F.F)) or F.width != sum(f):
            raise Violation(f"{what}: fields {F.S!r}, {F.I!r}, {F.F!r}, width {F.width!r}")
    s = [typed(n, d) for n, d in zip(c["s"], c["st"])]
    chk(f"shift format of {a} by {c['s']} as {c['st']}", call("shift_fmt", K.cl_fix_shift_fmt, fmt(a), *s), M.shift_fmt(a, *c["s"])) \
        if M.shift_fmt(a, *c["s"])[1] + M.shift_fmt(a, *c["s"])[2] >= 0 else None
    chk(f"round format of {a} to {c['rt'][0]}({c['rF']}) {c['rnd']}", call("round_fmt", K.cl_fix_round_fmt, fmt(a), typed(c["rF"], c["rt"][0]), RND[c["rnd"]]),
        M.round_fmt(a, c["rF"], c["rnd"]))
    return ["nontrivial"] * (set(c["ft"] + c["st"] + c["rt"]) != {"int"}) + ["invalid" if f[1] + f[2] < 0 else "valid"]


@st.composite
def case_invalid(draw):
    k = draw(gen.ints(0, 3))
    if k == 0:
        S = draw(st.sampled_from([-3, -2, -1, 2, 3, 4, 100]))
        I = draw(gen.ints(-50, 50))
        return dict(kind="sign", f=[S, I, -I + draw(gen.ints(0, 50))])
    if k == 1:
        I = draw(gen.ints(-200, 200))
        return dict(kind="negative", f=[draw(gen.ints(0, 1)), I, -I - draw(gen.ints(1, 100))])
    if k == 2:
        I = draw(gen.ints(-100, 100))
        return dict(kind="null", f=[0, I, -I], other=draw(gen.fmts(max_w=60)), s=draw(gen.ints(-5, 5)), rnd=draw(gen.rounds))
    s = draw(gen.ints(-50, 50))
    return dict(kind="shift", f=draw(gen.fmts(max_w=60)), s0=s, s1=s - draw(gen.ints(1, 20)))


def run_invalid(c):
    f = c["f"]
    if c["kind"] in ("sign", "negative"):
        rejected(f"FixFormat{tuple(f)}", FF, *f)
    elif c["kind"] == "null":
        N, O = fmt(f), fmt(c["other"])
        for op in OPS2:
            fn = getattr(K, f"cl_fix_{op}_fmt")
            rejected(f"{op} format of empty {f}, {c['other']}", fn, N, O)
            rejected(f"{op} format of {c['other']}, empty {f}", fn, O, N)
        for op in ("neg", "abs"):
            rejected(f"{op} format of empty {f}", getattr(K, f"cl_fix_{op}_fmt"), N)
        rejected(f"shift format of empty {f}", K.cl_fix_shift_fmt, N, c["s"])
        rejected(f"round format of empty {f}", K.cl_fix_round_fmt, N, f[2], RND[c["rnd"]])
    else:
        rejected(f"shift format of {f} by {c['s0']}..{c['s1']}", K.cl_fix_shift_fmt, fmt(f), c["s0"], c["s1"])
    return ["nontrivial", c["kind"]]


SUBS = [
    Sub("formats", case(), run, 24000, 900000),
    Sub("bounds", case_bounds(), run_bounds, 10000, 300000),
    Sub("value", case_value(), run_value, 4000, 60000),
    Sub("numpy-integers", case_numpy(), run_numpy, 5000, 80000),
    Sub("invalid", case_invalid(), run_invalid, 3000, 40000),
]
RULE = ("formats/value/invalid: every case computes formats from distinct operand formats (value: more than one format); "
        "bounds: an operand is at an extreme of its format")

if __name__ == "__main__":
    raise SystemExit(core.main("C06", SUBS, RULE, ["Python 3.12"]))
