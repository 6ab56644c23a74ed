"""Cases and runners for the arithmetic operations (C04, C05; reused by C10 and C12)."""
from hypothesis import strategies as st
import numpy as np
import gen, model as M
from core import Violation
from pyapi import *

INTS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
BINARY = ("add", "sub", "addsub", "mult")


@st.composite
def op_case(draw, ops, max_w=130, long=True):
    op = draw(st.sampled_from(ops))
    a = draw(gen.fmts(max_w=max_w, far=False))
    c = dict(op=op, a=a)
    lay = draw(gen.layouts)
    b = s0 = s1 = None
    if op in BINARY:
        k = draw(gen.ints(0, 3))
        if k == 0:
            b = a
        elif k == 1:      # near a's binary point or range, so operands interact
            b = draw(gen.rel_fmts(a, max_w=max_w))
        else:
            b = draw(gen.fmts(max_w=max_w, far=False))
        c["b"] = b
    if op == "shift":
        s0 = draw(gen.ints(-12, 12)) if draw(st.booleans()) else draw(gen.ints(-70, 70))
        c["array"] = draw(st.booleans())
        s1 = s0 + (draw(gen.ints(0, 9) if draw(gen.ints(0, 11)) else gen.ints(0, 280)) if c["array"] else 0)
    full = M.full_fmt(op, a, b, s0, s1)
    if M.width(full) < 1:
        full = gen.legal(*full)
    r = None if draw(gen.ints(0, 4)) == 0 else draw(gen.rel_fmts(full, max_w=200))
    c.update(r=r, rnd=draw(gen.rounds), sat=draw(gen.sats), lay=lay)
    n = draw(gen.ints(1, 6))
    if op in BINARY:
        c["x"] = draw(st.lists(gen.raw(a), min_size=n, max_size=n))
        c["y"] = draw(st.lists(gen.raw(b), min_size=n, max_size=n))
        c["bc"] = draw(st.sampled_from(["no", "no", "no", "a", "b"]))     # broadcast one operand
        if op == "addsub":
            c["sel"] = draw(st.lists(st.booleans(), min_size=n, max_size=n)) if draw(gen.ints(0, 2)) else draw(st.booleans())
            if isinstance(c["sel"], list) and draw(gen.ints(0, 3)) == 0:
                c["bc"] = draw(st.sampled_from(["ab", "ab", "a", "b"]))     # an array of selectors, perhaps for two scalars
                if draw(st.booleans()):
                    c["sel"] = [c["sel"][0]] * n
    else:
        if r is None:
            c["x"] = draw(gen.raws(a, None, max_n=8))
        else:
            # bring rounding ties and limits of r back to a's binary point
            back = (r[0], r[1] - (s0 or 0), r[2] + (s0 or 0))
            c["x"] = draw(gen.raws(a, back, max_n=8))
        if op == "shift":
            if c["array"]:
                m = len(c["x"])
                k = draw(gen.ints(0, 3))
                if k == 0:        # opposite amounts, all equal amounts or only two different ones
                    s1 = draw(st.sampled_from([-s0, -s0, s0, 0, s1]))
                pick = gen.ints(min(s0, s1), max(s0, s1)) if k else st.sampled_from([s0, s1])
                c["s"] = [s0, s1][:m] + draw(st.lists(pick, min_size=max(m - 2, 0), max_size=max(m - 2, 0)))
                if k == 0:
                    c["s"] = draw(st.permutations(c["s"]))
                c["s0"], c["s1"] = min(c["s"]), max(c["s"])
                if lay == "scalar":
                    c["lay"] = "1d"
            else:
                c["s"] = s0
                c["s0"] = c["s1"] = s0
            lo, hi = c["s0"], c["s1"]
            c["sdt"] = draw(st.sampled_from(["int"] + [d for d in INTS if lo >= np.iinfo(d).min and hi <= np.iinfo(d).max]))
    if long:
        keys = [k for k in ("x", "y", "sel", "s") if isinstance(c.get(k), list)]
        if len(keys) == 1:
            c["x"] = gen.big(draw, c["x"])
        else:
            m = len(c["s"]) if "s" in keys else len(c["x"])
            for k, v in zip(keys, gen.big(draw, *[c[k][:m] for k in keys])):
                c[k] = v
    return c


def shift_arg(c, lay):
    """The shift amount(s), as Python or numpy integers of some type."""
    s, d = c["s"], c.get("sdt", "int")
    if isinstance(s, list):
        return shaped(np.array(s, dtype=np.int64 if d == "int" else d), lay)
    return s if d == "int" else np.dtype(d).type(s)


def elementwise(c):
    """Aligned operand lists and exact results: [(args..., exact raw, exact F)]"""
    op, a = c["op"], tuple(c["a"])
    lay = c["lay"]
    single = lay in ("scalar", "0d")
    if op in BINARY:
        b = tuple(c["b"])
        n = 1 if single else len(c["x"])
        xs = [c["x"][0]] * n if "a" in c["bc"] else c["x"][:n]
        ys = [c["y"][0]] * n if "b" in c["bc"] else c["y"][:n]
        sel = c.get("sel")
        sels = sel[:n] if isinstance(sel, list) else [sel] * n
        return [((x, y, s), *M.op_exact(op, a, x, b, y, s)) for x, y, s in zip(xs, ys, sels)]
    n = 1 if single else len(c["x"])
    if op == "shift":
        s = c["s"] if isinstance(c["s"], list) else [c["s"]] * len(c["x"])
        return [((x, k), *M.op_exact(op, a, x, b=k)) for x, k in list(zip(c["x"], s))[:n]]
    return [((x,), *M.op_exact(op, a, x)) for x in c["x"][:n]]


def full_format(c):
    if c["op"] == "shift":
        s = c["s"] if isinstance(c["s"], list) else [c["s"]]
        if c["lay"] in ("scalar", "0d"):
            s = s[:1]
        return M.shift_fmt(tuple(c["a"]), min(s), max(s))
    return M.full_fmt(c["op"], tuple(c["a"]), tuple(c["b"]) if "b" in c else None)


def legal_case(c):
    f = full_format(c)
    return f[1] + f[2] >= 0 and M.width(f) >= 1


def expected(c):
    full = full_format(c)
    r = full if c["r"] is None else tuple(c["r"])
    rows = elementwise(c)
    if c["r"] is None:
        exp = [e << (full[2] - F) for _, e, F in rows]      # exact; must fit, the property says so
    else:
        exp = [M.resize_raw(e, F, r, c["rnd"], c["sat"]) for _, e, F in rows]
    return r, rows, exp


def selector(c, arr_shape, lay):
    sel = c["sel"]
    if isinstance(sel, list) and lay == "list":
        return list(sel)
    if isinstance(sel, list):
        return shaped(np.array(sel, dtype=bool), "1d" if lay == "scalar" else lay) if lay not in ("scalar",) else bool(sel[0])
    return sel


def fn_args(c):
    """Arguments for the function interface."""
    op, a, lay = c["op"], tuple(c["a"]), c["lay"]
    x = api(c["x"], a, lay)
    if op in BINARY:
        b = tuple(c["b"])
        y = api(c["y"], b, lay)
        if "a" in c["bc"]:
            x = api(c["x"][:1], a, "scalar")
        if "b" in c["bc"]:
            y = api(c["y"][:1], b, "scalar")
        args = [x, fmt(a), y, fmt(b)]
        if op == "addsub":
            args.append(selector(c, None, lay))
        return args
    args = [x, fmt(a)]
    if op == "shift":
        args.append(shift_arg(c, lay))
    return args


def run_fn(c):
    if not legal_case(c):
        return []
    op = c["op"]
    r, rows, exp = expected(c)
    fn = getattr(K, "cl_fix_" + op)
    args = fn_args(c)
    what = f"cl_fix_{op} a={tuple(c['a'])} b={c.get('b')} s={c.get('s')} r={c['r']} {c['rnd']} {c['sat']} [{c['lay']}]"
    if c["r"] is None:
        out = call(what, fn, *args, None)
    else:
        out = call(what, fn, *args, fmt(r), RND[c["rnd"]], SAT[c["sat"]])
    got, shp = decode(what, out, r, check_range=True)
    compare(what, got, exp, r, [row[0] for row in rows])
    exps = {"scalar": (), "0d": ()}.get(c["lay"])
    if exps is None and not (op in BINARY and False):
        exps = shape_of(api(c["x"], tuple(c["a"]), c["lay"]))
    if shp != exps:
        raise Violation(f"{what}: result shape {shp}, expected {exps}")
    if c["r"] is not None:
        # default modes: truncate and wrap
        out = call(what, fn, *args, fmt(r))
        dexp = [M.resize_raw(e, F, r, "Trunc_s", "None_s") for _, e, F in rows]
        compare(what + " (default modes)", decode(what, out, r)[0], dexp, r, [row[0] for row in rows])
    return tags(c)


def narrow_ok(c):
    """True when operands, full-precision format and all stages fit the narrow class."""
    fs = [tuple(c["a"]), full_format(c)]
    if "b" in c:
        b = tuple(c["b"])
        fs.append(b)
        if c["op"] == "addsub":
            fs += [M.add_fmt(fs[0], b), M.sub_fmt(fs[0], b)]
    if c["op"] == "abs":
        fs.append(M.neg_fmt(fs[0]))
    mids = list(fs)
    if c["r"] is not None:
        r = tuple(c["r"])
        fs.append(r)
        for m in mids:
            fs.append(M.round_fmt(m, r[2], c["rnd"]))
    return not any(M.is_wide(f) for f in fs)


def class_obj(cls, c, key, fk, wide):
    lay = "0d" if c["lay"] == "scalar" else c["lay"]
    ns = c[key]
    if ("a" if key == "x" else "b") in c.get("bc", "no"):
        ns, lay = ns[:1], "0d"
    f = tuple(c[fk])
    return wclass(ns, f, lay) if wide else nclass(ns, f, lay)


def run_class(c):
    if not legal_case(c):
        return []
    op = c["op"]
    r, rows, exp = expected(c)
    classes = [("WideFix", WideFix, True)]
    if narrow_ok(c):
        classes.append(("NarrowFix", NarrowFix, False))
    for name, cls, wide in classes:
        what = f"{name}.{op} a={tuple(c['a'])} b={c.get('b')} s={c.get('s')} r={c['r']} {c['rnd']} {c['sat']} [{c['lay']}]"
        o = class_obj(cls, c, "x", "a", wide)
        args = []
        if op in BINARY:
            args.append(class_obj(cls, c, "y", "b", wide))
            if op == "addsub":
                args.append(selector(c, None, c["lay"]))
        if op == "shift":
            args.append(shift_arg(c, c["lay"]))
        if c["r"] is None:
            p = call(what, getattr(o, op), *args)
        else:
            p = call(what, getattr(o, op), *args, fmt(r), RND[c["rnd"]], SAT[c["sat"]])
        obj_fmt(what, p, r)
        got, _ = decode(what, p.data, r, wide=wide)
        compare(what, got, exp, r, [row[0] for row in rows])
        if c["r"] is None and op in ("add", "sub", "mult", "neg", "shift"):
            sym = {"add": lambda: o + args[0], "sub": lambda: o - args[0], "mult": lambda: o * args[0],
                   "neg": lambda: -o, "shift": lambda: o << args[0]}[op]
            p = call(what + " (operator)", sym)
            obj_fmt(what, p, r)
            compare(what + " (operator)", decode(what, p.data, r, wide=wide)[0], exp, r, [row[0] for row in rows])
    return tags(c)


def tags(c):
    full = full_format(c)
    fs = [tuple(c["a"])] + ([tuple(c["b"])] if "b" in c else [])
    rows = elementwise(c)
    out = [f"elems={len(rows)}", c["op"], "in-" + wtag(*fs), "full-" + wtag(full)]
    if c["r"] is None:
        out.append("no-resize")
        if any(e for _, e, F in rows):
            out.append("nontrivial")
    else:
        r = tuple(c["r"])
        over = any(not M.fits(M.round_raw(e, F, r[2], c["rnd"]), r)
                   for _, e, F in rows)
        loss = any(F > r[2] and e % (1 << (F - r[2])) for _, e, F in rows)
        out += ["overflow"] * over + ["lossy"] * loss + ["r-" + wtag(r)]
        if over or loss:
            out.append("nontrivial")
    return out
