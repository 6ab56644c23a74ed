"""C24 MATLAB wrappers, executed by the interpreter in lib/mat.py."""
import os, sys
import numpy as np
from hypothesis import strategies as st
import core, gen, mat, model as M
from core import Sub, Violation
from pyapi import *

DIR = os.path.join(core.REPO, "bittrue", "models", "matlab")
_interp = []


def interp():
    if not _interp:
        i = mat.Interp([DIR], {"en_cl_fix_pkg": K})
        _interp.append((i, i.run_script(os.path.join(DIR, "cl_fix_constants.m"))))
    return _interp[0][0]


def enum(kind, name):
    interp()
    v = _interp[0][1].get(kind)
    if not isinstance(v, mat.Struct) or name not in v.d:
        raise Violation(f"cl_fix_constants does not define {kind}.{name}")
    return v.d[name]


class NotInterpreted(Exception):
    pass


def m(what, fn, *args, nout=1):
    try:
        return interp().call(fn, *args, nout=nout)
    except mat.Unsupported as e:
        raise NotInterpreted(f"{fn}: {e}")
    except mat.MError as e:
        raise Violation(f"{what} raised an error: {e}")


def static(what, name, *args, nout=1):
    """wide.name(args)"""
    i = interp()
    env = {"a__": mat.Cell.row(list(args))}
    node = ("index", ("field", ("id", "wide"), name), "(", [("index", ("id", "a__"), "{", [("colon",)])])
    try:
        r = i.multi(node, mat.Frame(env, None, None), nout)
    except mat.Unsupported as e:
        raise NotInterpreted(f"wide.{name}: {e}")
    except mat.MError as e:
        raise Violation(f"{what} raised an error: {e}")
    if len(r) < nout:
        raise Violation(f"{what}: {len(r)} outputs, expected {nout}")
    return r if nout > 1 else r[0]


def guarded(run):
    def f(c):
        try:
            return run(c)
        except NotInterpreted as e:
            print("NOT-COVERED (MATLAB construct unknown to the interpreter):", e, flush=True)
            return ["not-interpreted"]
    return f


def fmtm(f):
    r = m(f"cl_fix_format{tuple(f)}", "cl_fix_format", *[mat.dbl(float(v)) for v in f])
    if not isinstance(r, mat.Py) or not isinstance(r.o, FF) or tup(r.o) != tuple(f) or not all(type(v) is int for v in tup(r.o)):
        raise Violation(f"cl_fix_format{tuple(f)} returned {getattr(r, 'o', r)!r}")
    return r


def tom(ns, f, shape):
    """MATLAB data of raw values, in column-major order"""
    if M.is_wide(f):
        return mat.Fi(wide_arr(ns).reshape(shape, order="F"), f[0], M.width(f), f[2])
    return narrow_arr(ns, f).reshape(shape, order="F")


def fromm(what, v, f, shape):
    """raw values of a MATLAB result, in column-major order; checks class, type and shape"""
    if mat.shape_of(v) != tuple(shape):
        raise Violation(f"{what}: result has size {mat.shape_of(v)}, expected {tuple(shape)}")
    if M.is_wide(f):
        if not isinstance(v, mat.Fi):
            raise Violation(f"{what}: result of wide format {f} is of class {mat.clsname(v)}")
        if (v.s, v.w, v.f) != (f[0], M.width(f), f[2]):
            raise Violation(f"{what}: result is numerictype{(v.s, v.w, v.f)}, expected {(f[0], M.width(f), f[2])}")
        return [int(x) for x in v.raw.reshape(-1, order="F")]
    if not isinstance(v, np.ndarray) or v.dtype != np.float64:
        raise Violation(f"{what}: result of narrow format {f} is of class {mat.clsname(v)}")
    return [raw_of(what, float(x), f) for x in v.reshape(-1, order="F")]


def raw_of(what, x, f):
    s = math.ldexp(x, f[2])
    if s != math.floor(s):
        raise Violation(f"{what}: {x!r} is not in format {f}")
    return int(s)


SHAPES = ["scalar", "row", "row", "col", "col", "mat", "mat", "3d", "deep"]


def shape(lay, n):
    if lay == "scalar":
        return (1, 1)
    if lay == "row":
        return (1, n)
    if lay == "col":
        return (n, 1)
    if lay == "mat":
        return (2, n // 2) if n % 2 == 0 else (n, 1)
    if lay == "3d":
        return (2, 1, n // 2) if n % 2 == 0 and n > 2 else (1, n)
    return (1, 1, n) if n > 1 else (1, 1)


OPS = ["abs", "neg", "shift", "add", "sub", "addsub", "mult", "resize", "round", "saturate", "in_range"]
TWO = ("add", "sub", "addsub", "mult")


@st.composite
def op_case(draw):
    op = draw(st.sampled_from(OPS))
    a = draw(gen.fmts(max_w=150, far=False))
    c = dict(op=op, a=a, lay=draw(st.sampled_from(SHAPES)), nopt=draw(gen.ints(0, 2)), rnd=draw(gen.rounds), sat=draw(gen.sats))
    b, s = None, None
    n = draw(gen.ints(1, 3)) * draw(gen.ints(1, 2))
    if op in TWO:
        b = draw(gen.rel_fmts(a, max_w=150)) if draw(st.booleans()) else draw(gen.fmts(max_w=150, far=False))
        c["b"] = b
        c["y"] = draw(st.lists(gen.raw(b), min_size=n, max_size=n))
        c["bc"] = draw(st.sampled_from(["no", "no", "no", "a", "b"]))
        if op == "addsub":
            c["sel"] = draw(st.lists(st.booleans(), min_size=n, max_size=n)) if draw(gen.ints(0, 2)) else draw(st.booleans())
    if op == "shift":
        c["s"] = s = draw(gen.ints(-12, 12))
    if op in ("add", "sub", "addsub", "mult", "abs", "neg", "shift"):
        full = gen.legal(*M.full_fmt(op, a, b, s, s))
        r = full if draw(gen.ints(0, 2)) == 0 else draw(gen.rel_fmts(full, max_w=200))
    elif op == "round":
        rF = draw(gen.rel_fmts(a))[2]
        r = None if a[1] + rF < -1 else M.round_fmt(a, rF, c["rnd"])
        if r is None or M.width(r) < 1 or r[1] + r[2] < 0:
            r = M.round_fmt(a, a[2], c["rnd"])
    elif op == "saturate":
        r = draw(gen.rel_fmts(a, max_w=200, same_f=True))
    else:
        r = draw(gen.rel_fmts(a, max_w=200))
    c["r"] = r
    c["x"] = draw(st.lists(gen.raw(a, r if op in ("resize", "round", "saturate", "in_range") else None), min_size=n, max_size=n))
    return c


def run_ops(c):
    op, a, r = c["op"], tuple(c["a"]), tuple(c["r"])
    ns = c["x"][:1] if c["lay"] == "scalar" else c["x"]
    shp = shape(c["lay"], len(ns))
    n = len(ns)
    what = f"cl_fix_{op} a={a} b={c.get('b')} s={c.get('s')} r={r} {c['rnd']} {c['sat']} options={c['nopt']} size {shp}"
    py = [flat_arr(ns, a), fmt(a)]
    ma = [tom(ns, a, shp), fmtm(a)]
    if op in TWO:
        b = tuple(c["b"])
        y = c["y"][:n]
        py += [flat_arr(y, b), fmt(b)]
        ma += [tom(y, b, shp), fmtm(b)]
        if c["bc"] == "a":
            py[0] = flat_arr(ns[:1] * n, a)
            ma[0] = tom(ns[:1], a, (1, 1))
        elif c["bc"] == "b":
            py[2] = flat_arr(y[:1] * n, b)
            ma[2] = tom(y[:1], b, (1, 1))
        if c["bc"] != "no":
            what += f" (operand {c['bc']} is a scalar)"
        if op == "addsub":
            if isinstance(c["sel"], list) and c["bc"] == "no":
                py.append(np.array(c["sel"][:n]))
                ma.append(np.array(c["sel"][:n]).reshape(shp, order="F"))
            else:
                v = c["sel"][0] if isinstance(c["sel"], list) else c["sel"]
                py.append(v)
                ma.append(mat.boolean(v))
    if op == "shift":
        py.append(c["s"])
        ma.append(mat.dbl(float(c["s"])))
    py.append(fmt(r))
    ma.append(fmtm(r))
    if op == "round":
        opt = ["rnd"]      # the format depends on it
    elif op == "saturate":
        opt = ["sat"][:c["nopt"]] if M.is_wide(a) or True else []
    elif op == "in_range":
        opt = ["rnd"][:c["nopt"]]
    else:
        opt = ["rnd", "sat"][:c["nopt"]]
    for o in opt:
        py.append(RND[c["rnd"]] if o == "rnd" else SAT[c["sat"]])
        ma.append(enum("Round" if o == "rnd" else "Sat", c["rnd"] if o == "rnd" else c["sat"]))
    try:
        exp = getattr(K, "cl_fix_" + op)(*py)
    except Exception:
        return ["python-refuses"]
    got = m(what, "cl_fix_" + op, *ma)
    if op == "in_range":
        if not isinstance(got, np.ndarray) or got.dtype != bool or got.shape != shp:
            raise Violation(f"{what}: result is {mat.clsname(got)} of size {mat.shape_of(got)}, expected logical {shp}")
        g = [bool(v) for v in got.reshape(-1, order="F")]
        e = [bool(v) for v in np.asarray(exp).reshape(-1)]
        if g != e:
            raise Violation(f"{what}: {g}, Python gives {e} for {ns}")
    else:
        e, _ = decode(what, exp, r)
        compare(what, fromm(what, got, r, shp), e, r, ns)
    return [f"elems={n}", "op-" + op, "size-" + c["lay"], wtag(*([a] + ([tuple(c["b"])] if "b" in c else []) + [r]))] + \
           ["nontrivial"] * (len(set(e)) > 1 or n == 1 and e[0] != 0)


@st.composite
def conv_case(draw):
    op = draw(st.sampled_from(["from_real", "to_integer", "from_integer", "limits", "zeros", "random", "text"]))
    f = draw(gen.fmts(max_w=200, far=draw(st.booleans())))
    n = draw(gen.ints(1, 3)) * draw(gen.ints(1, 2))
    c = dict(op=op, f=f, lay=draw(st.sampled_from(SHAPES)), sat=draw(gen.sats))
    if op == "from_real":
        c["v"] = draw(st.lists(gen.real(f), min_size=n, max_size=n))
    elif op in ("zeros", "random"):
        c["shape"] = draw(st.sampled_from([[1], [3], [1, 4], [4, 1], [2, 3], [1, 1], [2, 1, 3], [1, 2, 2]]))
    else:
        c["x"] = draw(st.lists(gen.raw(f), min_size=n, max_size=n))
    return c


def run_conv(c):
    op, f = c["op"], tuple(c["f"])
    F = fmtm(f)
    w = M.is_wide(f)
    tags = ["op-" + op, "wide" if w else "narrow"]
    if op == "from_real":
        v = c["v"][:1] if c["lay"] == "scalar" else c["v"]
        shp = shape(c["lay"], len(v))
        what = f"cl_fix_from_real({v}) {f} {c['sat']} size {shp}"
        try:
            exp = K.cl_fix_from_real(np.array(v, dtype=float), fmt(f), SAT[c["sat"]])
        except Exception:
            return ["python-refuses"]
        got = m(what, "cl_fix_from_real", np.array(v, dtype=float).reshape(shp, order="F"), F, enum("Sat", c["sat"]))
        e, _ = decode(what, exp, f)
        compare(what, fromm(what, got, f, shp), e, f, v)
        return tags + [f"elems={len(v)}", "size-" + c["lay"], "nontrivial"]
    if op in ("to_integer", "from_integer"):
        ns = c["x"][:1] if c["lay"] == "scalar" else c["x"]
        shp = shape(c["lay"], len(ns))
        what = f"cl_fix_{op} {f} of {ns} size {shp}"
        i = (f[0], f[1] + f[2], 0)
        if op == "to_integer":
            got = m(what, "cl_fix_to_integer", tom(ns, f, shp), F)
            if w:
                g = fromm(what, got, i, shp)
            else:
                if not isinstance(got, np.ndarray) or got.dtype.kind not in "if" or got.shape != shp:
                    raise Violation(f"{what}: result is {mat.clsname(got)} of size {mat.shape_of(got)}, expected {shp}")
                g = [int(x) for x in got.reshape(-1, order="F")]
        else:
            src = tom(ns, i, shp) if w else np.array(ns, dtype=np.int64).reshape(shp, order="F")
            g = fromm(what, m(what, "cl_fix_from_integer", src, F), f, shp)
        compare(what, g, ns, f, ns)
        return tags + [f"elems={len(ns)}", "size-" + c["lay"]] + ["nontrivial"] * any(ns)
    if op == "limits":
        for fn, e in (("cl_fix_max_value", M.hi(f)), ("cl_fix_min_value", M.lo(f))):
            compare(fn, fromm(fn + f" {f}", m(fn, fn, F), f, (1, 1)), [e], f)
        x = m("cl_fix_width", "cl_fix_width", F)
        if not isinstance(x, np.ndarray) or x.size != 1 or int(x[0, 0]) != M.width(f):
            raise Violation(f"cl_fix_width {f} returned {x}")
        x = m("cl_fix_is_wide", "cl_fix_is_wide", F)
        if not isinstance(x, np.ndarray) or x.dtype != bool or x.size != 1 or bool(x[0, 0]) != w:
            raise Violation(f"cl_fix_is_wide {f} returned {x}")
        return tags + ["elems=4", "nontrivial"]
    if op == "text":
        x = m("cl_fix_format_to_string", "cl_fix_format_to_string", F)
        e = K.cl_fix_format_to_string(fmt(f))
        if not isinstance(x, (mat.Char, mat.Str)) or x.s != e:
            raise Violation(f"cl_fix_format_to_string {f} returned {getattr(x, 's', x)}, Python gives {e}")
        return tags + ["nontrivial"]
    s = c["shape"]
    what = f"cl_fix_{op}({s}, {f})"
    got = m(what, "cl_fix_" + op, np.array([s], dtype=float), F)
    shp = (s[0], 1) if len(s) == 1 else tuple(s)
    ns = fromm(what, got, f, shp)
    for x in ns:
        if not M.fits(x, f) or op == "zeros" and x:
            raise Violation(f"{what}: element {x}")
    if op == "random" and len(ns) > 2 and M.width(f) > 40 and len(set(ns)) < len(ns):
        raise Violation(f"{what}: repeated elements {ns}")
    return tags + [f"elems={len(ns)}", "nontrivial"]


@st.composite
def fmt_case(draw):
    op = draw(st.sampled_from(["abs", "neg", "add", "sub", "addsub", "mult", "round", "shift1", "shift2", "union"]))
    a = draw(gen.fmts())
    c = dict(op=op, a=a, b=draw(gen.rel_fmts(a)), rnd=draw(gen.rounds), k=draw(gen.ints(-20, 20)), d=draw(gen.ints(0, 9)),
             more=draw(st.lists(gen.fmts(), max_size=2)))
    return c


def run_fmt(c):
    op, a, b = c["op"], tuple(c["a"]), tuple(c["b"])
    A, B = fmtm(a), fmtm(b)
    fn = "cl_fix_" + op.rstrip("12") + "_fmt"
    if op in ("abs", "neg"):
        py, ma = [fmt(a)], [A]
    elif op == "round":
        py, ma = [fmt(a), c["k"], RND[c["rnd"]]], [A, mat.dbl(float(c["k"])), enum("Round", c["rnd"])]
    elif op == "shift1":
        py, ma = [fmt(a), c["k"]], [A, mat.dbl(float(c["k"]))]
    elif op == "shift2":
        py, ma = [fmt(a), c["k"], c["k"] + c["d"]], [A, mat.dbl(float(c["k"])), mat.dbl(float(c["k"] + c["d"]))]
    elif op == "union":
        py, ma = [fmt(a), fmt(b)] + [fmt(x) for x in c["more"]], [A, B] + [fmtm(x) for x in c["more"]]
    else:
        py, ma = [fmt(a), fmt(b)], [A, B]
    try:
        exp = getattr(K, fn)(*py)
    except Exception:
        return ["python-refuses"]
    what = f"{fn} of {c}"
    got = m(what, fn, *ma)
    if not isinstance(got, mat.Py) or not isinstance(got.o, FF) or tup(got.o) != tup(exp):
        raise Violation(f"{what}: {getattr(got, 'o', got)}, Python gives {exp}")
    if not all(type(v) is int for v in tup(got.o)):
        raise Violation(f"{what}: the fields {tup(got.o)} are not integers")
    return ["op-" + op, "elems=1", "nontrivial"]


@st.composite
def fi_case(draw):
    w = draw(gen.ints(54, 70)) if draw(gen.ints(0, 2)) == 0 else draw(gen.ints(54, 330)) if draw(st.booleans()) else \
        64 * draw(gen.ints(1, 4)) + draw(gen.ints(-1, 1))
    S = draw(gen.ints(0, 1))
    F = draw(gen.ints(-20, w))
    f = (S, w - S - F, F)
    n = draw(gen.ints(1, 3)) * draw(gen.ints(1, 2))
    return dict(f=f, x=draw(st.lists(gen.raw(f), min_size=n, max_size=n)), lay=draw(st.sampled_from(SHAPES)))


def run_fi(c):
    f = tuple(c["f"])
    ns = c["x"][:1] if c["lay"] == "scalar" else c["x"]
    shp = shape(c["lay"], len(ns))
    F = fmtm(f)
    x = tom(ns, f, shp)
    what = f"wide.mat2py {f} size {shp}"
    p = static(what, "mat2py", x, F)
    if not isinstance(p, mat.Py) or not isinstance(p.o, np.ndarray):
        raise Violation(f"{what} returned {mat.clsname(p)}")
    vals, s = decode(what, p.o.reshape(-1, order="F"), f, wide=True)
    compare(what, vals, ns, f, ns)
    if p.o.shape != shp:
        raise Violation(f"{what}: Python shape {p.o.shape}")
    what = f"wide.py2mat {f} size {shp}"
    y = static(what, "py2mat", p, F)
    compare(what, fromm(what, y, f, shp), ns, f, ns)
    s_, w_, f_, i_ = [mat.scalar(v) for v in static("wide.fmt2swf", "fmt2swf", F, nout=4)]
    if (s_, i_, f_, w_) != (*f, M.width(f)):
        raise Violation(f"wide.fmt2swf {f} returned s={s_} w={w_} f={f_} i={i_}")
    s_, w_, f_, i_ = [mat.scalar(v) for v in static("wide.fi2swf", "fi2swf", x, nout=4)]
    if (s_, i_, f_, w_) != (*f, M.width(f)):
        raise Violation(f"wide.fi2swf of {f} returned s={s_} w={w_} f={f_} i={i_}")
    for nm, args in (("fi2fmt", [x]), ("swf2fmt", [mat.dbl(float(v)) for v in (f[0], M.width(f), f[2])])):
        g = static("wide." + nm, nm, *args)
        if not isinstance(g, mat.Py) or tup(g.o) != f:
            raise Violation(f"wide.{nm} of {f} returned {getattr(g, 'o', g)}")
    return [f"elems={len(ns)}", "size-" + c["lay"], f"words-{(M.width(f) + 63) // 64}"] + ["nontrivial"] * any(n < 0 or n >= 2**52 for n in ns)


SUBS = [
    Sub("ops", op_case(), guarded(run_ops), 5000, 80000),
    Sub("conversions", conv_case(), guarded(run_conv), 2500, 40000),
    Sub("formats", fmt_case(), guarded(run_fmt), 1200, 15000),
    Sub("fi", fi_case(), guarded(run_fi), 1500, 25000),
]
RULE = ("ops: at least two different result values (or a non-zero single one); conversions/formats: every case, integers not all zero; "
        "fi: a negative value or one of more than 52 bits")

if __name__ == "__main__":
    sys.exit(core.main("C24", SUBS, RULE, [
        "MATLAB itself is not available: the wrapper files are executed by the interpreter in /verif/lib/mat.py, which models MATLAB's documented "
        "semantics (column-major arrays, dropped trailing singleton dimensions, saturating and rounding integer arithmetic, fi with local fimath) "
        "and its Python bridge (scalars become Python scalars, 1-by-N vectors one-dimensional buffers, other arrays N-D buffers; Python int results "
        "stay py.int, bool and float are converted)",
        "a MATLAB construct unknown to the interpreter is reported as NOT-COVERED and gives no verdict for that case"]))
