"""C28 Misuse is refused: wrong widths, formats, modes, texts and data representations never produce a result."""
import copy, operator, os, subprocess, sys
from hypothesis import strategies as st
import core, gen, model as M, vhd
from core import Sub, Violation
import vops as V
import pyapi as P
from pyapi import K, np, NarrowFix, WideFix
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c19

UNARY = ["round", "saturate", "resize", "in_range", "neg", "abs", "shift", "sign", "to_real", "to_integer", "to_string"]
BINARY = ["add", "sub", "addsub", "mult", "compare"]


def prepare():
    V.prepare()
    c19.prepare()


def stops(what, good, bad):
    """The server answers the request(s) good, and stops at the request(s) bad."""
    try:
        r = vhd.server(V.EXE).ask(good + bad)
    except vhd.Died as e:
        if e.output.startswith("no reply"):
            raise Violation(f"{what}: {e.output}")
        n = sum(k for _, k in good)
        if len(e.done) != n:
            raise Violation(f"{what}: the simulation already stopped at the legal request: {e.output[-400:]}")
        return
    raise Violation(f"{what}: the simulation did not stop but returned {r[-1].text}")


# ---- VHDL: vectors whose length is not that of their format --------------------------------------

@st.composite
def deform(draw, v):
    """A bit string of another length made from v."""
    how = draw(st.sampled_from(["sign", "zero", "right", "drop-left", "drop-right", "any", "one-more", "one-less"]))
    k = draw(st.one_of(gen.ints(1, 3), gen.ints(1, 70)))
    if how == "one-more":
        how, k = "sign", 1
    if how in ("drop-left", "drop-right", "one-less"):
        k = 1 if how == "one-less" else min(k, len(v) - 1)
        if len(v) > 1:
            return v[k:] if how != "drop-right" else v[:len(v) - k]
        how, k = "sign", 1
    if how == "any":
        n = draw(gen.ints(1, 100))
        n += n >= len(v)
        return (v * n)[:n]
    return {"sign": v[0] * k + v, "zero": "0" * k + v, "right": v + "0" * k}[how]


@st.composite
def width_case(draw):
    op = draw(st.sampled_from(UNARY + BINARY))
    a = draw(gen.fmts(max_w=90, far=False) if op != "to_integer" else gen.fmts(max_w=31))
    c = dict(op=op, a=a, rnd=draw(gen.rounds), sat=draw(gen.sats), da=draw(V.dirs), db=draw(V.dirs), variant=draw(st.sampled_from([0, 0, 0, 1, 2, 3])))
    b = None
    if op in BINARY:
        b = c["b"] = a if draw(gen.ints(0, 2)) == 0 else draw(gen.rel_fmts(a, max_w=90))
    if op == "addsub":
        c["x"] = draw(gen.ints(0, 3))
    if op == "compare":
        c["x"] = draw(gen.ints(0, 5))
    if op == "shift":
        c["x"] = draw(gen.ints(-8, 8))
    if op == "round":
        rF = a[2] - draw(gen.ints(-2, 6))
        c["r"] = M.round_fmt(a, rF, "Trunc_s" if c["variant"] == 1 else c["rnd"])
    elif op == "saturate":
        c["r"] = draw(gen.rel_fmts(a, max_w=90, same_f=True))
    elif op in BINARY or op in ("neg", "abs"):
        full = gen.legal(*M.full_fmt("sub" if op == "compare" else op, a, b))
        c["r"] = draw(gen.rel_fmts(full, max_w=120))
        if c["variant"] == 2:       # result in the full-precision format, which must exist
            c["variant"] = 0
    else:
        c["r"] = draw(gen.rel_fmts(a, max_w=90))
    c["va"] = M.bits(draw(gen.raw(a)), M.width(a))
    c["vb"] = M.bits(draw(gen.raw(b)), M.width(b)) if b else "0"
    who = draw(st.sampled_from(["a", "b", "ab"])) if b else "a"
    c["wa"] = draw(deform(c["va"])) if "a" in who else c["va"]
    c["wb"] = draw(deform(c["vb"])) if "b" in who else c["vb"]
    if who == "ab" and draw(st.booleans()) and len(c["vb"]) > 1:      # one operand gains what the other loses
        c["wa"], c["wb"] = c["va"][0] + c["va"], c["vb"][1:]
    return c


def run_width(c):
    what = V.name(dict(c, x=None)) + f" with vectors {c['wa']} {c['wb'] if 'b' in c else ''} of the wrong length"
    stops(what, [V.head(c), (f"V {c['va']} {c['vb']}", 1)], [V.head(c), (f"V {c['wa']} {c['wb']}", 1)])
    la, lb = len(c["wa"]) - len(c["va"]), len(c["wb"]) - len(c["vb"])
    return [c["op"], "nontrivial"] + ["too-long"] * (la > 0 or lb > 0) + ["too-short"] * (la < 0 or lb < 0) + \
        ["second-operand-only"] * (la == 0) + ["same-total"] * (la + lb == 0)


# ---- VHDL: text -----------------------------------------------------------------------------------

MODES = {50: None, 51: [m.lower() for m in M.ROUND], 52: [m.lower() for m in M.SAT]}
CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ =<>!/()-+.,"


@st.composite
def text_case(draw):
    op = draw(st.sampled_from([50, 50, 51, 52, 53, 53]))
    a, b = draw(gen.fmts(max_w=20, far=False)), draw(gen.fmts(max_w=20, far=False))
    x = draw(st.sampled_from([0, 0, 1, 7, 100]))
    if op == 50:
        good = draw(st.sampled_from(["", " ", "fmt "])) + f"({a[0]}, {a[1]},{a[2]})".replace(", ", draw(st.sampled_from([",", ", "])))
        i, s = good.index("("), good.rindex(",")
        how = draw(st.sampled_from(["(", ",", ",", ",,", ")", "sign", "cut"]))
        if how == "sign":
            bad = good[:i + 1] + draw(st.sampled_from(list("23456789 -+xU,)."))) + good[i + 2:]
        elif how == ",,":
            bad = good.replace(",", "")
        elif how == "cut":
            bad = good[:draw(gen.ints(0, len(good) - 1))]
        else:
            k = {"(": i, ")": len(good) - 1, ",": draw(st.sampled_from([s, good.index(",")]))}[how]
            bad = good[:k] + good[k + 1:]
        tag = "format-" + how
    elif op == 53:
        good = draw(st.sampled_from(V.REL))
        if draw(st.booleans()):
            bad = draw(st.sampled_from(["==", "/=", "<>", "=<", "=>", "!", "", "<<", ">>", "eq", "=!", " =", "= ", "< ", " >", "<= ", " >=", "!==", "===", "<=>"]))
        else:
            bad = draw(st.text(st.sampled_from("=<>!/ e"), max_size=3))
        if bad in V.REL:
            bad += draw(st.sampled_from(list("=!/ x"))) + "="
        tag = "comparison"
    else:
        good = draw(st.sampled_from(M.ROUND if op == 51 else M.SAT))
        k = draw(gen.ints(0, len(good)))
        how = draw(gen.ints(0, 4))
        ch = draw(st.sampled_from(CHARS))
        if how == 0:
            bad = good[:k] + good[k + 1:]
        elif how == 1:
            bad = good[:k] + ch + good[k:]
        elif how == 2:
            bad = good[:k] + ch + good[k + 1:]
        elif how == 3:
            bad = draw(st.sampled_from(["", "Floor", "Round", "Nearest", "Wrap", good[:-2], good + good, "Half", "NonSym_s", "Sym_s", "Conv_s", "Saturate_s"]))
        else:
            bad = draw(st.sampled_from(M.SAT if op == 51 else M.ROUND))     # a mode of the other kind
        if bad.lower() in MODES[op]:
            bad = good + "_"
        tag = "mode"
    return dict(op=op, a=a, b=b, x=x, good=good, bad=bad, tag=tag)


def run_text(c):
    h = vhd.header(c["op"], a=tuple(c["a"]), b=tuple(c["b"]), x=c["x"])
    name = {50: "cl_fix_format_from_string", 51: "cl_fix_round_from_string", 52: "cl_fix_saturate_from_string", 53: "cl_fix_compare with operator"}[c["op"]]
    stops(f"{name} {c['bad']!r}", [h, ("T " + c["good"], 1)], [h, ("T " + c["bad"], 1)])
    return [c["tag"], "nontrivial"]


# ---- VHDL: formats and modes that the function does not support -----------------------------------

@st.composite
def rule_case(draw):
    kind = draw(st.sampled_from(["shift_fmt", "saturate", "pipe-saturate", "round", "pipe-round", "from_real", "rtl-round", "rtl-saturate"]))
    a = draw(gen.fmts(max_w=60, far=False))
    c = dict(kind=kind, a=a, rnd=draw(gen.rounds), sat=draw(gen.sats), x=draw(gen.raw(a)), da=draw(V.dirs))
    if kind == "shift_fmt":
        c["s0"] = draw(gen.ints(-40, 40))
        c["s1"] = c["s0"] - draw(st.one_of(gen.ints(1, 2), gen.ints(1, 30)))
    elif kind.endswith("saturate"):
        d = draw(st.sampled_from([-1, 1, -2, 2, -5, 5]))
        g = draw(gen.rel_fmts(a, max_w=70, same_f=True))
        c["g"] = g
        c["r"] = gen.legal(g[0], g[1], g[2] + d)
    elif kind.endswith("round"):
        g = c["g"] = M.round_fmt(a, a[2] - draw(gen.ints(-2, 6)), c["rnd"])
        dS, dI = draw(st.sampled_from([(0, -1), (0, 1), (1, 0), (0, -2), (0, 3), (1, 1), (1, -1)]))
        r = gen.legal((g[0] + dS) % 2, g[1] + dI, g[2])
        c["r"] = (r[0], r[1] + 1, r[2]) if r == g else r
    elif kind == "from_real":
        c["g"] = c["r"] = a
        c["sat"] = draw(st.sampled_from(["None_s", "Warn_s"]))
        c["v"] = draw(gen.real(a))
    c["mode"] = draw(st.sampled_from(c19.MODES))
    return c


def rtl(c, r):
    a = tuple(c["a"])
    w = M.width(a)
    g = dict(block_g=c19.BLOCKS.index(c["kind"][4:]), as_g=a[0], ai_g=a[1], af_g=a[2], rs_g=r[0], ri_g=r[1], rf_g=r[2], rnd_g=V.RND[c["rnd"]],
             sat_g=V.SAT[c["sat"]], mode_g=c19.MODES.index(c["mode"]))
    req = "".join(f'0 01 " "{M.bits(c["x"], w)}\n' for _ in range(3))
    p = subprocess.run([c19.EXE, "--max-stack-alloc=0", *(f"-g{k}={v}" for k, v in g.items())], input=req.encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, cwd=core.scratch_private(), timeout=60)
    rows = [l for l in p.stdout.decode("latin1").splitlines() if l.startswith("= ")]
    return p.returncode != 0 or len(rows) != 3, p.stdout.decode("latin1")[-400:]


def run_rule(c):
    a, kind = tuple(c["a"]), c["kind"]
    r, g = tuple(c.get("r", a)), tuple(c.get("g", a))
    h = dict(rnd=V.RND[c["rnd"]], sat=V.SAT[c["sat"]])
    what = f"{kind} {a} -> {r} {c['rnd']} {c['sat']}"
    if kind.startswith("rtl"):
        if rtl(c, g)[0]:
            raise Violation(f"{what} {c['mode']}: the simulation with the legal format {g} stopped: {rtl(c, g)[1]}")
        stopped, text = rtl(c, r)
        if not stopped:
            raise Violation(f"{what} {c['mode']}: the block was simulated with an illegal format: {text}")
        return [kind, "nontrivial"]
    if kind == "shift_fmt":
        good = [vhd.header(36, a=a, x=c["s1"]), (f"F {c['s0']}", 1)]
        stops(what + f" shift {c['s0']}..{c['s1']}", good, [vhd.header(36, a=a, x=c["s0"]), (f"F {c['s1']}", 1)])
    elif kind == "from_real":
        good = [vhd.header(0, r=a, sat=V.SAT["Sat_s"]), ("R " + vhd.real_token(c["v"]), 1)]
        stops(what + f" of {c['v']!r}", good, [vhd.header(0, r=a, **h), ("R " + vhd.real_token(c["v"]), 1)])
    elif kind in ("round", "saturate"):
        k = dict(c, op=kind, variant=0, x=None)
        v = V.vec(a, c["x"])
        stops(what, [V.head(dict(k, r=g)), v], [V.head(dict(k, r=r)), v])
    else:
        op = 43 if kind == "pipe-saturate" else 42
        stops(what, [vhd.header(op, a=a, r=g, **h), ("F 0", 1)], [vhd.header(op, a=a, r=r, **h), ("F 0", 1)])
    return [kind, "nontrivial"]


# ---- Python: data that is not in the representation of its format ----------------------------------

NARROW_BAD = ["int64", "int32", "float32", "object", "object-float", "bool", "py", "npint", "list", "uint64"]
WIDE_BAD = ["int64", "int32", "float32", "float64", "object-float", "object-npint", "bool", "float", "npint", "npfloat", "list", "list-float", "uint64"]
PY_UNARY = ["round", "saturate", "resize", "in_range", "neg", "abs", "shift", "convert"]
PY_BINARY = ["add", "sub", "addsub", "mult"]


def bad_data(kind, ns):
    ns = [n % 100 for n in ns]
    if kind in ("py", "float", "npint", "npfloat"):
        return {"py": int, "float": float, "npint": np.int64, "npfloat": np.float64}[kind](ns[0])
    if kind == "list":
        return [int(n) for n in ns]
    if kind == "list-float":
        return [float(n) for n in ns]
    if kind.startswith("object"):
        x = np.empty(len(ns), dtype=object)
        t = {"object": int, "object-float": float, "object-npint": np.int64}[kind]
        for i, n in enumerate(ns):
            x[i] = t(n)
        return x
    return np.array(ns).astype(kind)


@st.composite
def kind_case(draw):
    op = draw(st.sampled_from(PY_UNARY + PY_BINARY))
    a = draw(gen.fmts(max_w=90, far=False))
    n = draw(gen.ints(1, 4))
    c = dict(op=op, a=a, rnd=draw(gen.rounds), sat=draw(gen.sats), x=[draw(gen.raw(a)) for _ in range(n)], s=draw(gen.ints(-6, 6)))
    b = a
    if op in PY_BINARY:
        b = c["b"] = draw(gen.fmts(max_w=90, far=False))
        c["y"] = [draw(gen.raw(b)) for _ in range(n)]
        c["who"] = draw(st.sampled_from(["a", "b"]))
        full = gen.legal(*M.full_fmt(op, a, b))
    elif op in ("neg", "abs"):
        full = gen.legal(*M.full_fmt(op, a))
    else:
        full = a
    if op == "round":
        c["r"] = M.round_fmt(a, a[2] - draw(gen.ints(-2, 6)), c["rnd"])
    elif op == "saturate":
        c["r"] = draw(gen.rel_fmts(a, max_w=90, same_f=True))
    else:
        c["r"] = draw(gen.rel_fmts(full, max_w=120))
    f = b if c.get("who") == "b" else a
    c["bad"] = draw(st.sampled_from(WIDE_BAD if M.is_wide(f) else NARROW_BAD))
    return c


def same(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, np.ndarray):
        return x.dtype == y.dtype and x.shape == y.shape and all(type(p) is type(q) and p == q for p, q in zip(x.flat, y.flat))
    return x == y


def refused(what, fn, *args):
    """Refused, and the arguments are as before."""
    before = copy.deepcopy([x for x in args if isinstance(x, (np.ndarray, list))])
    P.rejected(what, fn, *args)
    for x, y in zip([x for x in args if isinstance(x, (np.ndarray, list))], before):
        if not same(x, y):
            raise Violation(f"{what}: the refused call changed its argument from {y!r} to {x!r}")


def run_kind(c):
    op, a, r = c["op"], tuple(c["a"]), tuple(c["r"])
    A, R, rnd, sat = P.fmt(a), P.fmt(r), P.RND[c["rnd"]], P.SAT[c["sat"]]
    x = P.api(c["x"], a)
    y = b = None
    if op in PY_BINARY:
        b = tuple(c["b"])
        y = P.api(c["y"], b)
    f = b if c.get("who") == "b" else a

    def args(x, y):
        if op == "convert":
            return (K.cl_fix_to_real if M.is_wide(a) else K.cl_fix_to_integer, x, A)
        if op == "in_range":
            return (K.cl_fix_in_range, x, A, R, rnd)
        fn = getattr(K, "cl_fix_" + op)
        if op == "round":
            return (fn, x, A, R, rnd)
        if op == "saturate":
            return (fn, x, A, R, sat)
        if op == "shift":
            return (fn, x, A, c["s"], R, rnd, sat)
        if op == "addsub":
            return (fn, x, A, y, P.fmt(b), True, R, rnd, sat)
        if op in PY_BINARY:
            return (fn, x, A, y, P.fmt(b), R, rnd, sat)
        return (fn, x, A, R, rnd, sat)

    what = f"cl_fix_{op} {a} {b} -> {r} {c['rnd']} {c['sat']}"
    P.call(what, *args(x, y))
    bad = bad_data(c["bad"], c["x"])
    what += f" with operand {c.get('who', 'a')} = {bad!r} ({c['bad']})"
    refused(what, *(args(x, bad) if c.get("who") == "b" else args(bad, y)))
    return [op, P.wtag(f), c["bad"], "nontrivial"]


# ---- Python: value objects ------------------------------------------------------------------------

REL = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
ARITH = {"+": operator.add, "-": operator.sub, "*": operator.mul}


@st.composite
def object_case(draw):
    kind = draw(st.sampled_from(["construct", "mixed", "mixed", "mixed", "number", "shift-size", "narrow-width"]))
    a = draw(gen.fmts(max_w=53, far=False))
    n = draw(gen.ints(1, 4))
    c = dict(kind=kind, a=a, x=[draw(gen.raw(a)) for _ in range(n)], lay=draw(st.sampled_from(["1d", "1d", "0d", "2d"])))
    if kind == "construct":
        c["cls"] = draw(st.sampled_from(["narrow", "wide"]))
        c["bad"] = draw(st.sampled_from([k for k in (NARROW_BAD if c["cls"] == "narrow" else WIDE_BAD) if k not in ("list", "list-float")]))
    elif kind == "narrow-width":
        c["w"] = draw(gen.fmts(min_w=54, max_w=120, far=False))
    elif kind == "shift-size":
        c["w"] = draw(gen.fmts(max_w=90, far=False))
        n = draw(gen.ints(2, 5))
        c["x"] = [draw(gen.raw(c["w"])) for _ in range(n)]
        m = draw(gen.ints(2, 6))
        c["s"] = [draw(gen.ints(-3, 3)) for _ in range(m + (m >= n))]
    else:
        c["op"] = draw(st.sampled_from(list(REL) * 2 + list(ARITH) + ["add", "sub", "addsub", "mult"]))
        c["b"] = a if draw(st.booleans()) else draw(gen.fmts(max_w=90))
        c["y"] = c["x"] if c["b"] == a else [draw(gen.raw(c["b"])) for _ in c["x"]]
        c["first"] = draw(st.sampled_from(["narrow", "wide"]))
        c["num"] = draw(st.sampled_from(["array", "number"]))
        c["side"] = draw(st.sampled_from(["left", "right"]))
    return c


def run_object(c):
    kind, a = c["kind"], tuple(c["a"])
    if kind == "construct":
        cls = NarrowFix if c["cls"] == "narrow" else WideFix
        bad = bad_data(c["bad"], c["x"])
        for copy_ in (True, False):
            refused(f"{cls.__name__}({bad!r} of {type(bad).__name__}, copy={copy_})", cls, bad, P.fmt(a), copy_)
        return [kind, c["cls"], c["bad"], "nontrivial"]
    if kind == "narrow-width":
        refused(f"NarrowFix with format {c['w']}", NarrowFix, P.narrow_arr(c["x"], a), P.fmt(tuple(c["w"])))
        return [kind, "nontrivial"]
    if kind == "shift-size":
        w, s = tuple(c["w"]), np.array(c["s"])
        what = f"of {len(c['x'])} values in {w} by {len(s)} amounts"
        refused(f"cl_fix_shift {what}", K.cl_fix_shift, P.api(c["x"], w), P.fmt(w), s)
        refused(f"WideFix.shift {what}", P.wclass(c["x"], w).shift, s)
        return [kind, P.wtag(w), "nontrivial"]
    op, b = c["op"], tuple(c["b"])
    n = P.nclass(c["x"], a, c["lay"])
    w = P.wclass(c["y"], b, c["lay"])
    if kind == "mixed":
        p, q = (n, w) if c["first"] == "narrow" else (w, n)
    else:
        p = n if c["first"] == "narrow" else P.wclass(c["x"], a, c["lay"])
        q = p.data if c["num"] == "array" else p.data.flat[0]
        if op in REL or op in ARITH:
            p, q = (q, p) if c["side"] == "left" else (p, q)
    before = [(x, copy.deepcopy(x.data), P.tup(x.fmt)) for x in (p, q) if isinstance(x, (NarrowFix, WideFix))]
    what = f"{type(p).__name__} {op} {type(q).__name__} of {a} {c['x']} and {b} {c['y']}"
    if op == "addsub":
        P.rejected(what, p.addsub, q, True)
    elif op in REL or op in ARITH:
        P.rejected(what, {**REL, **ARITH}[op], p, q)
    else:
        P.rejected(what, getattr(p, op), q)
    for x, d, f in before:
        if not same(x.data, d) or P.tup(x.fmt) != f:
            raise Violation(f"{what}: the refused operation changed an operand to {x.data!r}")
    return [kind, "compare" if op in REL else "arithmetic", c["first"] + "-first", "nontrivial"]


SUBS = [
    Sub("vhdl-width", width_case(), run_width, 600, 20000),
    Sub("vhdl-text", text_case(), run_text, 300, 8000),
    Sub("vhdl-rules", rule_case(), run_rule, 300, 8000),
    Sub("python-data", kind_case(), run_kind, 6000, 200000),
    Sub("python-objects", object_case(), run_object, 4000, 120000),
]
RULE = "every case is non-trivial: one refused call (each VHDL call after the same call with legal arguments was answered)"

if __name__ == "__main__":
    raise SystemExit(core.main("C28", SUBS, RULE, [
        "GHDL 4.1 implements VHDL-2008 correctly; a refused VHDL call stops the simulation",
        "Python assertions are enabled (no -O)",
        "an object array's elements are all of one type; cl_fix_to_real of narrow and cl_fix_to_integer of wide formats pass their data through"],
        prepare=prepare))
