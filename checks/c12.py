"""C12 element-wise, shape-preserving, no mutation, no aliasing."""
from hypothesis import strategies as st
import core, gen, ops, model as M
from core import Sub, Violation
from pyapi import *

ALL = ("add", "sub", "addsub", "mult", "neg", "abs", "shift")
UNARY = ["round", "saturate", "resize", "in_range", "from_real", "to_real", "from_integer", "to_integer"]


def snapshot(args):
    out = []
    for a in args:
        if isinstance(a, np.ndarray):
            out.append(("arr", a.dtype, a.shape, [v for v in a.flat]))
        elif isinstance(a, FF):
            out.append(("fmt", tup(a)))
        elif isinstance(a, list):
            out.append(("list", list(a)))
        else:
            out.append(("val", a))
    return out


def vals(x):
    return [v for v in x.flat] if isinstance(x, np.ndarray) else [x]


def poke(x):
    """Changes every element of an array (used to detect aliasing)."""
    if isinstance(x, np.ndarray) and x.flags.writeable:
        if x.dtype == np.bool_:
            np.logical_not(x, out=x)
        else:
            x[...] = x + 1
        return True
    return False


def check_fn(what, fn, args, data_idx, compare_single):
    """Shape, purity and aliasing of fn(*args); compare_single(i) gives the result for element i alone."""
    before = snapshot(args)
    out = call(what, fn, *args)
    if snapshot(args) != before:
        raise Violation(f"{what}: an input was modified: {before} -> {snapshot(args)}")
    datas = [args[i] for i in data_idx]
    shp = np.broadcast_shapes(*[d.shape if isinstance(d, np.ndarray) else (len(d),) if isinstance(d, list) else () for d in datas])
    if shape_of(out) != shp:
        raise Violation(f"{what}: result shape {shape_of(out)}, expected {shp}")
    got = vals(out)
    for i in range(len(got)):
        s = compare_single(i, shp)
        if vals(s)[0] != got[i]:
            raise Violation(f"{what}: element {i} is {got[i]!r} in the array but {vals(s)[0]!r} alone")
    # no shared storage, in either direction
    keep = list(got)
    if isinstance(out, np.ndarray):
        for d in datas:
            if isinstance(d, np.ndarray) and np.may_share_memory(out, d) and np.shares_memory(out, d):
                raise Violation(f"{what}: the result shares storage with an input")
        for d in datas:
            poke(d)
        if vals(out) != keep:
            raise Violation(f"{what}: changing an input afterwards changed the result")
        now = snapshot(args)
        if poke(out) and snapshot(args) != now:
            raise Violation(f"{what}: changing the result changed an input")
    return out, got


def bcast(d, shp):
    return [v for v in np.broadcast_to(np.asarray(d, dtype=object if not isinstance(d, np.ndarray) else d.dtype), shp).flat]


def single(v):
    """One element as the scalar a caller would pass."""
    if isinstance(v, np.floating):
        return float(v)
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    return v


def run_ops(c):
    if not ops.legal_case(c):
        return []
    op = c["op"]
    args = ops.fn_args(c)
    rest = [None] if c["r"] is None else [fmt(c["r"]), RND[c["rnd"]], SAT[c["sat"]]]
    fn = getattr(K, "cl_fix_" + op)
    data_idx = [0] if op in ("neg", "abs") else [0, 2]
    if op == "addsub":
        data_idx = [0, 2, 4]
    what = f"cl_fix_{op} a={tuple(c['a'])} b={c.get('b')} s={c.get('s')} r={c['r']} {c['rnd']} {c['sat']} [{c['lay']}, bc={c.get('bc')}]"
    if c["r"] is None:      # fix the format: element-wise shifts alone have another full format
        rest = [fmt(ops.full_format(c)), RND["Trunc_s"], SAT["None_s"]]
    full = list(args) + rest
    origs = {i: bcast(args[i], np.broadcast_shapes(*[np.shape(args[j]) for j in data_idx])) for i in data_idx}

    def alone(i, shp):
        a = list(full)
        for j in data_idx:
            a[j] = single(origs[j][i])
        return call(what + f" element {i} alone", fn, *a)
    out, got = check_fn(what, fn, full, data_idx, alone)
    return [f"elems={len(got)}", op, "lay-" + c["lay"]] + ["broadcast"] * (c.get("bc", "no") != "no") + \
           ["nontrivial"] * (c["lay"] not in ("scalar", "0d") and len(got) > 1)


@st.composite
def case_bcast(draw):
    """Binary operands of different but broadcastable shapes."""
    op = draw(st.sampled_from(["add", "sub", "mult", "addsub"]))
    a, b = draw(gen.fmts(max_w=90, far=False)), draw(gen.fmts(max_w=90, far=False))
    nd = draw(gen.ints(1, 3))
    shp = [draw(gen.ints(1, 3)) for _ in range(nd)]
    sa = [d if draw(st.booleans()) else 1 for d in shp]
    sb = [d if (x == 1 and d != 1) or draw(st.booleans()) else 1 for d, x in zip(shp, sa)]
    while len(sa) > 1 and sa[0] == 1 and draw(st.booleans()):
        sa = sa[1:]
    na, nb = int(np.prod(sa)), int(np.prod(sb))
    full = M.full_fmt(op, a, b)
    c = dict(op=op, a=a, b=b, sa=sa, sb=sb, x=draw(st.lists(gen.raw(a), min_size=na, max_size=na)),
             y=draw(st.lists(gen.raw(b), min_size=nb, max_size=nb)), r=draw(gen.rel_fmts(full, max_w=150)),
             rnd=draw(gen.rounds), sat=draw(gen.sats))
    if op == "addsub":
        k = draw(gen.ints(0, 3))
        ss = sb if k == 0 else sa if k == 1 else shp        # the selector has a shape of its own
        c["ss"] = ss
        n = int(np.prod(ss))
        c["sel"] = draw(st.lists(st.booleans(), min_size=n, max_size=n)) if draw(gen.ints(0, 3)) else [draw(st.booleans())] * n
    return c


def run_bcast(c):
    op, a, b, r = c["op"], tuple(c["a"]), tuple(c["b"]), tuple(c["r"])
    x = flat_arr(c["x"], a).reshape(c["sa"])
    y = flat_arr(c["y"], b).reshape(c["sb"])
    args = [x, fmt(a), y, fmt(b)]
    if op == "addsub":
        args.append(np.array(c["sel"]).reshape(c["ss"]))
    args += [fmt(r), RND[c["rnd"]], SAT[c["sat"]]]
    shp = np.broadcast_shapes(x.shape, y.shape, tuple(c.get("ss", ())))
    what = f"cl_fix_{op} {a}{tuple(c['sa'])} {b}{tuple(c['sb'])} -> {r} {c['rnd']} {c['sat']}"
    before = snapshot(args)
    out = call(what, getattr(K, "cl_fix_" + op), *args)
    if snapshot(args) != before:
        raise Violation(f"{what}: an input was modified")
    got, s = decode(what, out, r)
    if s != shp:
        raise Violation(f"{what}: result shape {s}, expected {shp}")
    ix = np.broadcast_to(np.arange(len(c["x"])).reshape(c["sa"]), shp).reshape(-1)
    iy = np.broadcast_to(np.arange(len(c["y"])).reshape(c["sb"]), shp).reshape(-1)
    iz = np.broadcast_to(np.arange(len(c["sel"])).reshape(c["ss"]), shp).reshape(-1) if op == "addsub" else ix
    exp = []
    for i, j, k in zip(ix, iy, iz):
        e, F = M.op_exact(op, a, c["x"][i], b, c["y"][j], c["sel"][k] if op == "addsub" else None)
        exp.append(M.resize_raw(e, F, r, c["rnd"], c["sat"]))
    compare(what, got, exp, r)
    return [f"elems={len(exp)}", op] + ["nontrivial"] * (x.shape != y.shape and len(exp) > 1)


@st.composite
def case_unary(draw):
    a = draw(gen.fmts(max_w=130))
    return dict(fn=draw(st.sampled_from(UNARY)), a=a, r=draw(gen.rel_fmts(a, max_w=130)), rF=a[2] + draw(gen.ints(-6, 2)),
                rnd=draw(gen.rounds), sat=draw(gen.sats), x=draw(gen.raws(a, long=True)), lay=draw(gen.layouts))


def unary_args(c):
    f, a, r = c["fn"], tuple(c["a"]), tuple(c["r"])
    x = api(c["x"], a, c["lay"])
    rnd, sat = RND[c["rnd"]], SAT[c["sat"]]
    if f == "round":
        rest = [fmt(a), fmt(M.round_fmt(a, c["rF"], c["rnd"])), rnd]
    elif f == "saturate":
        rest = [fmt(a), fmt(gen.legal(r[0], r[1], a[2])), sat]
    elif f == "resize":
        rest = [fmt(a), fmt(r), rnd, sat]
    elif f == "in_range":
        rest = [fmt(a), fmt(r), rnd]
    elif f == "from_real":
        x = shaped(np.array([n * 2.0 ** -(a[2] + 1) for n in c["x"]], dtype=np.float64), c["lay"])
        rest = [fmt(r), SAT["Sat_s"]]
    elif f == "from_integer":
        x = shaped(wide_arr(c["x"]), c["lay"])
        if not M.is_wide(a) and c["lay"] not in ("scalar",):
            x = x.astype(np.int64)
        rest = [fmt(a)]
    else:
        rest = [fmt(a)]
    return getattr(K, "cl_fix_" + f), x, rest, f"cl_fix_{f} {a} r={r} {c['rnd']} {c['sat']} [{c['lay']}]"


def run_unary(c):
    f = c["fn"]
    fn, x, rest, what = unary_args(c)
    orig = list(x) if isinstance(x, list) else vals(x.copy() if isinstance(x, np.ndarray) else x)
    out, got = check_fn(what, fn, [x] + rest, [0], lambda i, shp: call(what, fn, single(orig[i]), *rest))
    return [f"elems={len(got)}", f, "lay-" + c["lay"]] + ["nontrivial"] * (c["lay"] not in ("scalar", "0d") and len(got) > 1)


def run_objects(c):
    """Value objects: constructor and accessors copy, methods leave operands unchanged, results are independent."""
    if not ops.legal_case(c):
        return []
    op = c["op"]
    for name, wide in [("WideFix", True)] + ([("NarrowFix", False)] if ops.narrow_ok(c) else []):
        lay = "0d" if c["lay"] == "scalar" else c["lay"]
        a = tuple(c["a"])
        src = shaped(wide_arr(c["x"]) if wide else narrow_arr(c["x"], a), lay)
        f0 = fmt(a)
        o = (WideFix if wide else NarrowFix)(src, f0)
        st0 = (vals(o.data), o.data.shape, tup(o.fmt))
        what = f"{name} {a} {op} [{c['lay']}]"

        def same(when):
            if (vals(o.data), o.data.shape, tup(o.fmt)) != st0:
                raise Violation(f"{what}: value object changed {when}: {st0} -> {(vals(o.data), tup(o.fmt))}")
        poke(src)
        f0.I += 1
        same("after its constructor arguments were modified")
        d, g = o.data, o.fmt
        poke(d)
        g.F += 1
        same("after data returned by its accessors was modified")
        args = []
        if op in ops.BINARY:
            p = ops.class_obj(None, c, "y", "b", wide)
            args.append(p)
            pst = (vals(p.data), tup(p.fmt))
            if op == "addsub":
                args.append(ops.selector(c, None, c["lay"]))
        if op == "shift":
            args.append(ops.shift_arg(c, lay))
        if c["r"] is not None:
            args += [fmt(c["r"]), RND[c["rnd"]], SAT[c["sat"]]]
        res = call(what, getattr(o, op), *args)
        same(f"by {op}")
        if op in ops.BINARY and (vals(p.data), tup(p.fmt)) != pst:
            raise Violation(f"{what}: right operand changed by {op}")
        for m in ("resize", "round", "saturate"):
            if m == "round":
                r = M.round_fmt(a, a[2], "Trunc_s")
                call(what, o.round, fmt(r), RND["Trunc_s"])
            else:
                call(what, getattr(o, m), fmt(a), *([SAT[c["sat"]]] if m == "saturate" else [RND[c["rnd"]], SAT[c["sat"]]]))
            same(f"by {m}")
        if wide:
            call(what, o.to_uint64_array)
            same("by to_uint64_array")
            call(what, o.to_real)
            call(what, lambda: WideFix.align_binary_points([o, WideFix(3, fmt(gen.legal(0, 2, a[2] + 3)))]))
            same("by align_binary_points")
        call(what, lambda: (o == o, o < o, o >= o, str(o), repr(o)))
        same("by comparison or printing")
        n = call(what + " len", len, o) if o.data.ndim else None
        if n is not None and n != len(o.data):
            raise Violation(f"{what}: len {n}, data has {len(o.data)}")
        rd = res.data
        keep = vals(res.data)
        poke(rd)
        if vals(res.data) != keep:
            raise Violation(f"{what}: data returned by the result's accessor is not a copy")
    return [f"elems={len(c['x'])}", op] + ["nontrivial"] * (c["lay"] not in ("scalar", "0d") and len(c["x"]) > 1)


LENGTHS = [13, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 5000]


@st.composite
def case_gather(draw):
    """Long arrays made of a few distinct elements."""
    unary = draw(gen.ints(0, 2)) == 0
    c = dict(kind="unary", u=draw(case_unary())) if unary else dict(kind="op", u=draw(ops.op_case(ALL)))
    c["u"]["lay"] = "1d"
    c["u"].pop("bc", None)
    c["n"] = draw(st.one_of(st.sampled_from(LENGTHS), gen.ints(9, 600)))
    c["rows"] = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 7, 40]))
    c["seed"] = draw(gen.ints(0, 10**6))
    c["order"] = draw(st.sampled_from(["C", "C", "F", "step"]))
    return c


def gathered(x, ix, order):
    if not isinstance(x, np.ndarray):
        return x
    y = x[ix]
    if order == "F":
        return np.asfortranarray(y)
    if order == "step":
        return np.repeat(y, 2, axis=-1)[..., ::2]
    return y


def run_gather(c):
    """f(x[ix]) == f(x)[ix], for long arrays."""
    u, kind = c["u"], c["kind"]
    rng = np.random.RandomState(c["seed"])
    m = len(u["x"])
    shp = (c["n"],) if not c["rows"] else (c["rows"], max(c["n"] // c["rows"], 1))
    ix = rng.randint(0, m, size=shp)
    ix.reshape(-1)[:m] = np.arange(m)[:ix.size]     # every element is present (formats of shifts depend on it)
    ix.reshape(-1)[-m:] = np.arange(m)[-ix.size:]
    what = f"{u.get('op') or u.get('fn')} {u['a']} {u.get('b')} -> {u['r']} {u['rnd']} {u['sat']} on an array of shape {shp} [{c['order']}]"
    runs = []
    if kind == "op":
        u = dict(u, bc="no")
        if not ops.legal_case(u):
            return []
        op = u["op"]
        args = ops.fn_args(u)
        rest = [None] if u["r"] is None else [fmt(u["r"]), RND[u["rnd"]], SAT[u["sat"]]]
        runs.append(("function", lambda g: getattr(K, "cl_fix_" + op)(*[g(v) for v in args], *rest)))
        a = tuple(u["a"])
        for cls, mk in [(WideFix, wide_arr)] + ([(NarrowFix, None)] if ops.narrow_ok(u) else []):
            def obj(g, cls=cls, mk=mk):
                def o(key, f):
                    return cls(g(mk(u[key]) if mk else narrow_arr(u[key], tuple(u[f]))), fmt(u[f]))
                more = []
                if op in ops.BINARY:
                    more.append(o("y", "b"))
                    if op == "addsub":
                        more.append(g(np.array(u["sel"])) if isinstance(u["sel"], list) else u["sel"])
                elif op == "shift":
                    more.append(g(ops.shift_arg(u, "1d")))
                return getattr(o("x", "a"), op)(*more, *([] if u["r"] is None else rest)).data
            runs.append((cls.__name__, obj))
    else:
        fn, x, rest, what_u = unary_args(dict(u, lay="1d"))
        runs.append(("function", lambda g: fn(g(x), *rest)))
        a = tuple(u["a"])
        w = wide_arr(u["x"])
        runs.append(("to_uint64_array", lambda g: K.to_uint64_array(g(w), fmt(a))) if M.is_wide(a) else
                    ("WideFix.to_uint64_array", lambda g: np.moveaxis(WideFix(g(w), fmt(a)).to_uint64_array(), 0, -1)))
        runs.append(("WideFix.from_uint64_array", lambda g: WideFix.from_uint64_array(WideFix(g(w), fmt(a)).to_uint64_array(), fmt(a)).data))
        runs.append(("WideFix.to_real", lambda g: WideFix(g(w), fmt(a)).to_real()))
        reals = np.array([n * 2.0 ** -(min(max(a[2], -500), 500) + 1) for n in u["x"]])
        runs.append(("WideFix.from_real", lambda g: WideFix.from_real(g(reals), fmt(u["r"]), SAT["Sat_s"]).data))
    for name, f in runs:
        base = call(f"{name}: {what} (few elements)", f, lambda v: v)
        out = call(f"{name}: {what}", f, lambda v: gathered(v, ix, c["order"]))
        exp = base[ix]
        if shape_of(out) != exp.shape or out.dtype != exp.dtype:
            raise Violation(f"{name}: {what}: result {out.dtype} {shape_of(out)}, expected {exp.dtype} {exp.shape}")
        if not np.array_equal(out, exp):
            bad = np.argwhere(out != exp)
            i = tuple(bad[0])
            raise Violation(f"{name}: {what}: {len(bad)} elements differ from the result alone, first at {i[:len(shp)]}: {out[i]!r}, alone {exp[i]!r} "
                            f"(input {u['x'][ix[i[:len(shp)]]]})")
    return [f"elems={ix.size}", kind, "long" if ix.size > 100 else "short", "nontrivial"]


SUBS = [
    Sub("arithmetic", ops.op_case(ALL), run_ops, 5000, 100000),
    Sub("broadcast", case_bcast(), run_bcast, 4000, 80000),
    Sub("conversions", case_unary(), run_unary, 6000, 120000),
    Sub("gather", case_gather(), run_gather, 2500, 40000),
    Sub("objects", ops.op_case(ALL), run_objects, 4000, 80000),
]
RULE = "non-trivial when more than one element is processed (broadcast: operand shapes differ)"

if __name__ == "__main__":
    raise SystemExit(core.main("C12", SUBS, RULE, ["arrays have at least one element"]))
