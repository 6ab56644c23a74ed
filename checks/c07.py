"""C07 narrow and wide value classes agree; representation rule."""
from hypothesis import strategies as st
import core, gen, ops, model as M
from core import Sub, Violation
from pyapi import *

OPS = ["add", "sub", "addsub", "mult", "neg", "abs", "shift", "resize", "round", "saturate", "cmp"]
RELS = ["==", "!=", "<", "<=", ">", ">="]


@st.composite
def case_prog(draw):
    n = draw(gen.ints(1, 4))
    init = []
    for _ in range(draw(gen.ints(1, 3))):
        f = draw(gen.fmts(max_w=53, far=False))
        init.append([f, draw(st.lists(gen.raw(f), min_size=n, max_size=n))])
    fm = [tuple(i[0]) for i in init]
    steps = []
    for _ in range(draw(gen.ints(1, 7))):
        op = draw(st.sampled_from(OPS))
        i, j = draw(gen.ints(0, len(fm) - 1)), draw(gen.ints(0, len(fm) - 1))
        a, b = fm[i], fm[j]
        st_ = dict(op=op, i=i, j=j, rnd=draw(gen.rounds), sat=draw(gen.sats))
        if op == "cmp":
            steps.append(st_)
            continue
        if op == "round":
            rF = a[2] + draw(gen.ints(-10, 2))
            st_["r"] = M.round_fmt(a, rF, st_["rnd"])
        elif op == "saturate":
            st_["r"] = draw(gen.rel_fmts(a, max_w=53, same_f=True))
        elif op == "resize":
            st_["r"] = draw(gen.rel_fmts(a, max_w=53))
        else:
            if op == "shift":
                st_["s"] = draw(st.lists(gen.ints(-6, 6), min_size=n, max_size=n)) if draw(st.booleans()) else draw(gen.ints(-30, 30))
                s = st_["s"] if isinstance(st_["s"], list) else [st_["s"]]
                full = M.shift_fmt(a, min(s), max(s))
            else:
                full = M.full_fmt(op, a, b)
            if op == "addsub":
                st_["sel"] = draw(st.lists(st.booleans(), min_size=n, max_size=n))
            st_["r"] = None if draw(st.booleans()) else draw(gen.rel_fmts(gen.legal(*full), max_w=53))
            if not narrow_step(st_, a, b, full):
                # bring the operand down instead so that the program stays narrow
                w = draw(gen.ints(1, 24))
                F = draw(gen.ints(-3, w))
                st_ = dict(op="resize", i=i, j=j, rnd=st_["rnd"], sat=st_["sat"], r=gen.legal(a[0], w - a[0] - F, F))
                full = a
            st_full = full
        if st_["op"] in ("resize", "round", "saturate"):
            if not narrow_step(st_, a, b, a):
                continue
        fm.append(tuple(st_["r"]) if st_["r"] is not None else st_full)
        steps.append(st_)
    return dict(n=n, init=init, steps=steps)


def narrow_step(s, a, b, full):
    if full[1] + full[2] < 0 or M.width(full) < 1:
        return False
    fs = [a, full]
    mids = [a, full]
    if s["op"] == "addsub":
        mids += [M.add_fmt(a, b), M.sub_fmt(a, b)]
    if s["op"] == "abs":
        mids.append(M.neg_fmt(a))
    if s["r"] is not None:
        r = tuple(s["r"])
        fs.append(r)
        for m in mids:
            fs.append(M.round_fmt(m, r[2], s["rnd"]))
    return not any(M.is_wide(f) for f in fs + mids)


def model_step(s, A, B):
    (a, xs), (b, ys) = A, B
    op = s["op"]
    n = len(xs)
    if op in ("resize", "round", "saturate"):
        r = tuple(s["r"])
        if op == "round":
            return r, [M.round_raw(x, a[2], r[2], s["rnd"]) for x in xs]
        if op == "saturate":
            return r, [M.sat_raw(x, r, s["sat"]) for x in xs]
        return r, [M.resize_raw(x, a[2], r, s["rnd"], s["sat"]) for x in xs]
    if op == "shift":
        sh = s["s"] if isinstance(s["s"], list) else [s["s"]] * n
        full = M.shift_fmt(a, min(sh), max(sh))
        ex = [M.op_exact("shift", a, x, b=k) for x, k in zip(xs, sh)]
    elif op in ("neg", "abs"):
        full = M.full_fmt(op, a)
        ex = [M.op_exact(op, a, x) for x in xs]
    else:
        full = M.full_fmt(op, a, b)
        sel = s.get("sel") or [None] * n
        ex = [M.op_exact(op, a, x, b, y, q) for x, y, q in zip(xs, ys, sel)]
    if s["r"] is None:
        return full, [e << (full[2] - F) for e, F in ex]
    r = tuple(s["r"])
    return r, [M.resize_raw(e, F, r, s["rnd"], s["sat"]) for e, F in ex]


def apply(s, o, p):
    op = s["op"]
    if op == "round":
        return o.round(fmt(s["r"]), RND[s["rnd"]])
    if op == "saturate":
        return o.saturate(fmt(s["r"]), SAT[s["sat"]])
    if op == "resize":
        return o.resize(fmt(s["r"]), RND[s["rnd"]], SAT[s["sat"]])
    args = []
    if op in ("add", "sub", "addsub", "mult"):
        args.append(p)
    if op == "addsub":
        args.append(np.array(s["sel"]))
    if op == "shift":
        args.append(np.array(s["s"]) if isinstance(s["s"], list) else s["s"])
    if s["r"] is not None:
        args += [fmt(s["r"]), RND[s["rnd"]], SAT[s["sat"]]]
    return getattr(o, op)(*args)


def relate(rel, a, b):
    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[rel]


def six(a, b):
    return [[bool(v) for v in np.atleast_1d(f())] for f in
            (lambda: a == b, lambda: a != b, lambda: a < b, lambda: a <= b, lambda: a > b, lambda: a >= b)]


def run_prog(c):
    mod = [(tuple(f), list(x)) for f, x in c["init"]]
    nar = [nclass(x, f) for f, x in mod]
    wid = [call("WideFix.from_narrowfix", WideFix.from_narrowfix, o) for o in nar]
    done = set()
    for (f, x), w in zip(mod, wid):
        compare("from_narrowfix", decode("from_narrowfix", w.data, f, wide=True)[0], x, f)
    for k, s in enumerate(c["steps"]):
        i, j = s["i"] % len(mod), s["j"] % len(mod)
        what = f"step {k} {s}"
        if s["op"] == "cmp":
            cn, cw = call("Narrow " + what, six, nar[i], nar[j]), call("Wide " + what, six, wid[i], wid[j])
            if cn != cw:
                raise Violation(f"{what}: comparison differs: narrow {cn}, wide {cw}")
            continue
        f, exp = model_step(s, mod[i], mod[j])
        no = call("NarrowFix " + what, apply, s, nar[i], nar[j])
        wo = call("WideFix " + what, apply, s, wid[i], wid[j])
        if tup(no.fmt) != tup(wo.fmt):
            raise Violation(f"{what}: formats differ: narrow {no.fmt}, wide {wo.fmt}")
        obj_fmt(what, no, f)
        gn, sn = decode("NarrowFix " + what, no.data, f)
        gw, sw = decode("WideFix " + what, wo.data, f, wide=True)
        if gn != gw or sn != sw:
            raise Violation(f"{what} on {mod[i]} / {mod[j]}: narrow {gn}, wide {gw} in {f}")
        compare(what, gn, exp, f)
        back = call("from_narrowfix", WideFix.from_narrowfix, no)
        if decode("from_narrowfix", back.data, f, wide=True)[0] != exp:
            raise Violation(f"from_narrowfix of {exp} in {f} gives {back.data}")
        real = call("WideFix.to_real", wo.to_real)
        compare("WideFix.to_real", decode("WideFix.to_real", real, f)[0], exp, f)
        mod.append((f, exp))
        nar.append(no)
        wid.append(wo)
        done.add(s["op"])
    return [f"elems={len(c['steps']) * c['n']}"] + sorted(done) + ["nontrivial"] * (len(done) >= 2)


ALL = ("add", "sub", "addsub", "mult", "neg", "abs", "shift")


def run_repr(c):
    """Representation of function results: float64 up to 53 bits, exact Python integers beyond."""
    if not ops.legal_case(c):
        return []
    r, rows, exp = ops.expected(c)
    args = ops.fn_args(c)
    what = f"cl_fix_{c['op']} result in {r}"
    rest = [None] if c["r"] is None else [fmt(r), RND[c["rnd"]], SAT[c["sat"]]]
    out = call(what, getattr(K, "cl_fix_" + c["op"]), *args, *rest)
    decode(what, out, r, check_range=False)
    full = ops.full_format(c)
    x = flat_arr([0], full)
    for name, f, call_ in (
            ("cl_fix_resize", r, lambda: K.cl_fix_resize(x, fmt(full), fmt(r), RND[c["rnd"]], SAT[c["sat"]])),
            ("cl_fix_max_value", r, lambda: K.cl_fix_max_value(fmt(r))),
            ("cl_fix_min_value", r, lambda: K.cl_fix_min_value(fmt(r))),
            ("cl_fix_zeros", r, lambda: K.cl_fix_zeros((2,), fmt(r))),
            ("cl_fix_random", r, lambda: K.cl_fix_random((2,), fmt(r))),
            ("cl_fix_from_real", r, lambda: K.cl_fix_from_real(np.array([0.25, 3.0]), fmt(r), SAT["Sat_s"]))):
        decode(name + f" in {f}", call(name, call_), f, check_range=False)
    w = M.width(r)
    return [f"elems={len(rows)}", wtag(r), "op-" + c["op"]] + ["nontrivial"] * (50 <= w <= 58 or M.is_wide(full) != M.is_wide(r))


@st.composite
def case_conv(draw):
    a = draw(gen.fmts(max_w=53))
    r = draw(gen.fmts(max_w=120))
    r = (max(a[0], r[0]), max(a[1], r[1]) + 1, max(a[2], r[2]))
    if M.width(r) < 54:
        r = (r[0], 54 - r[0] - r[2], r[2])
    return dict(a=a, r=r, x=draw(gen.raws(a, long=True)), lay=draw(gen.layouts))


def run_conv(c):
    a, r = tuple(c["a"]), tuple(c["r"])
    lay = c["lay"]
    xs = expect_n(c["x"], lay)
    x = api(c["x"], a, lay)
    w = call("cl_fix_resize narrow->wide", K.cl_fix_resize, x, fmt(a), fmt(r))
    compare("narrow->wide", decode("narrow->wide", w, r)[0], [n << (r[2] - a[2]) for n in xs], r, xs)
    n = call("cl_fix_resize wide->narrow", K.cl_fix_resize, w, fmt(r), fmt(a))
    compare("wide->narrow", decode("wide->narrow", n, a)[0], xs, a, xs)
    o = nclass(c["x"], a, "0d" if lay == "scalar" else lay)
    wo = call("from_narrowfix", WideFix.from_narrowfix, o)
    obj_fmt("from_narrowfix", wo, a)
    compare("from_narrowfix", decode("from_narrowfix", wo.data, a, wide=True)[0], xs, a, xs)
    with Warned() as wn:
        re = call("to_real", wo.to_real)
    compare("WideFix.to_real", decode("to_real", re, a)[0], xs, a, xs)
    if wn.fired:
        raise Violation(f"WideFix.to_real of {xs} in {a} (at most 53 bits) warned: {wn.msgs}")
    return [f"elems={len(xs)}"] + ["nontrivial"] * (max(map(abs, xs)) > 2**20)


SUBS = [
    Sub("programs", case_prog(), run_prog, 8000, 200000),
    Sub("representation", ops.op_case(ALL), run_repr, 6000, 100000),
    Sub("conversion", case_conv(), run_conv, 4000, 80000),
]
RULE = ("programs: at least two different operations executed in both representations; representation: result width within 50..58 or "
        "full-precision and result representation differ; conversion: magnitude above 2**20")

if __name__ == "__main__":
    raise SystemExit(core.main("C07", SUBS, RULE, ["Python 3.12, numpy 2.3 float64"]))
