"""C17 VHDL format calculations and bounds agree with Python and with the model."""
from hypothesis import strategies as st
import core, gen, model as M, vhd
from core import Sub, Violation
import pyapi as P
import vops as V


@st.composite
def case(draw):
    a = draw(gen.any_fmt())
    k = draw(gen.ints(0, 4))
    if k == 0:        # b close to a's range and resolution
        b = gen.legal(draw(gen.ints(0, 1)), a[1] + draw(gen.ints(-2, 2)), a[2] + draw(gen.ints(-2, 2)))
    elif k == 1:      # b's top meets a's bottom
        I = -a[2] + draw(gen.ints(-2, 2))
        b = gen.legal(draw(gen.ints(0, 1)), I, -I + draw(gen.ints(0, 3)))
    else:
        b = draw(gen.any_fmt())
    s0 = draw(gen.ints(-80, 80))
    return dict(a=a, b=b, s0=s0, s1=s0 + draw(gen.ints(0, 40)), rF=a[2] + draw(gen.ints(-40, 8)), rnd=draw(gen.rounds),
                sat=draw(gen.sats))


def run(c):
    a, b = tuple(c["a"]), tuple(c["b"])
    A, B = P.fmt(a), P.fmt(b)
    K = P.K
    rnd = V.RND[c["rnd"]]
    py = [getattr(K, f"cl_fix_{op}_fmt") for op in ("add", "sub", "addsub", "mult", "neg", "abs")]
    rows = []       # (what, request, model, python)
    for op, fn, code in zip(("add", "sub", "addsub", "mult"), py, range(30, 34)):
        rows.append((op + " format", dict(op=code, a=a, b=b), 0, M.full_fmt(op, a, b), (fn, A, B)))
    for op, fn, code in zip(("neg", "abs"), py[4:], (34, 35)):
        rows.append((op + " format", dict(op=code, a=a), 0, M.full_fmt(op, a), (fn, A)))
    rows.append(("shift format", dict(op=36, a=a, x=c["s0"]), c["s1"], M.shift_fmt(a, c["s0"], c["s1"]),
                 (K.cl_fix_shift_fmt, A, c["s0"], c["s1"])))
    rows.append(("shift format", dict(op=37, a=a, x=c["s0"]), 0, M.shift_fmt(a, c["s0"], c["s0"]), (K.cl_fix_shift_fmt, A, c["s0"])))
    rows.append(("round format", dict(op=38, a=a, x=c["rF"], rnd=rnd), 0, M.round_fmt(a, c["rF"], c["rnd"]),
                 (K.cl_fix_round_fmt, A, c["rF"], P.RND[c["rnd"]])))
    reps = V.ask("format functions", sum(([vhd.header(**h), (f"F {y}", 1)] for _, h, y, _, _ in rows), []) +
                 [vhd.header(39, a=a), ("F 0", 1), vhd.header(40, a=a), ("F 0", 1), vhd.header(41, a=a), ("F 0", 1),
                  vhd.header(48, a=a, b=b, x=0), ("F 0", 1), vhd.header(48, a=a, b=b, x=1), ("F 0", 1)])
    for (what, h, y, exp, (fn, *args)), rep in zip(rows, reps):
        got = tuple(map(int, rep.text.split()))
        pyv = P.tup(P.call(what, fn, *args))
        if got != tuple(exp) or pyv != got:
            raise Violation(f"{what} for {c}: VHDL {got}, Python {pyv}, expected {tuple(exp)}")
    w, mx, mn, ch0, ch1 = [r.text for r in reps[len(rows):]]
    if int(w) != M.width(a) or K.cl_fix_width(A) != int(w):
        raise Violation(f"width of {a}: VHDL {w}, Python {K.cl_fix_width(A)}, expected {M.width(a)}")
    for what, got, raw, fn in (("maximum", mx, M.hi(a), K.cl_fix_max_value), ("minimum", mn, M.lo(a), K.cl_fix_min_value)):
        if got != M.bits(raw, M.width(a)):
            raise Violation(f"{what} of {a}: VHDL {got}, expected {M.bits(raw, M.width(a))}")
        pyn, _ = P.decode(what, P.call(what, fn, A), a)
        if pyn[0] != raw:
            raise Violation(f"{what} of {a}: Python {pyn[0]}, expected {raw}")
    if tuple(map(int, ch0.split())) != b or tuple(map(int, ch1.split())) != a:
        raise Violation(f"choose between {a} and {b}: {ch1}, {ch0}")
    return ["elems=14", "nontrivial"] + ["one-bit-operand"] * (1 in (M.width(a), M.width(b)))


# ---- recommended pipelining --------------------------------------------------------------------

@st.composite
def pipe_case(draw):
    a = draw(gen.any_fmt())
    d = draw(gen.ints(-3, 6))
    r = gen.legal(draw(gen.ints(0, 1)), a[1] + draw(gen.ints(-3, 3)), a[2] - d)
    return dict(a=a, r=r, rnd=draw(gen.rounds), sat=draw(gen.sats))


def run_pipe(c):
    a, r, rnd, sat = tuple(c["a"]), tuple(c["r"]), c["rnd"], c["sat"]
    rf = M.round_fmt(a, r[2], rnd)
    sf = gen.legal(r[0], r[1], a[2])     # saturation keeps the fractional bits
    h = dict(rnd=V.RND[rnd], sat=V.SAT[sat])
    reps = V.ask("recommended pipelining", [
        vhd.header(42, a=a, r=rf, **h), ("F 0", 1), vhd.header(42, variant=2, a=a, r=r, **h), ("F 0", 1),
        vhd.header(43, a=a, r=sf, **h), ("F 0", 1), vhd.header(44, a=a, r=r, **h), ("F 0", 1)])
    exp = [M.pipe_round(a, r[2], rnd), M.pipe_round(a, r[2], rnd), M.pipe_sat(a, sf, sat), M.pipe_round(a, r[2], rnd) + M.pipe_sat(rf, r, sat)]
    for what, rep, e in zip(("round", "round (unchecked format)", "saturate", "resize"), reps, exp):
        if rep.text != str(e):
            raise Violation(f"recommended pipelining of {what} for {c}: got {rep.text}, expected {e}")
    return ["elems=4", f"sum{exp[3]}"] + ["nontrivial"] * (any(exp) and not all(exp))


# ---- a wrong rounding result format stops the simulation ---------------------------------------

@st.composite
def bad_case(draw):
    a = draw(gen.fmts(max_w=60))
    rnd = draw(gen.rounds)
    g = M.round_fmt(a, a[2] - draw(gen.ints(-2, 6)), rnd)
    dS, dI = draw(st.sampled_from([(0, -1), (0, 1), (1, 0), (0, -2), (0, 3), (1, 1), (1, -1)]))
    r = ((g[0] + dS) % 2, g[1] + dI, g[2])
    r = gen.legal(*r)
    if r == g:
        r = (r[0], r[1] + 1, r[2])
    return dict(op="round", a=a, r=r, rnd=rnd, x=draw(gen.raw(a)), da=0)


def run_bad(c):
    a, r = tuple(c["a"]), tuple(c["r"])
    for variant in (0, 3):
        k = dict(c, variant=variant, x=None)
        V.must_stop(f"cl_fix_round {a}->{r} {c['rnd']} with an invalid result format", [V.head(k), V.vec(a, c["x"])])
    h = vhd.header(42, a=a, r=r, rnd=V.RND[c["rnd"]])
    V.must_stop(f"recommended pipelining {a}->{r} {c['rnd']} with an invalid result format", [h, ("F 0", 1)])
    if r[0] + r[1] + a[2] > 0:
        k = dict(c, variant=2, x=None)
        rep = V.ask("cl_fix_round with the check switched off", [V.head(k), V.vec(a, c["x"])])[0]
        exp = M.sat_raw(M.round_raw(c["x"], a[2], r[2], c["rnd"]), r, "None_s")
        V.check_bits("cl_fix_round with the check switched off", rep, exp, r, c["x"])
    return ["elems=4", "nontrivial"]


SUBS = [
    Sub("formats", case(), run, 8000, 200000),
    Sub("pipelining", pipe_case(), run_pipe, 5000, 100000),
    Sub("format-check", bad_case(), run_bad, 80, 3000),
]
RULE = ("every format case is non-trivial (14 calculations on two formats); pipelining cases in which some stages are zero and "
        "some are one; every rejected format is one case")

if __name__ == "__main__":
    raise SystemExit(core.main("C17", SUBS, RULE, ["GHDL 4.1 implements VHDL-2008 correctly", "formats up to 400 bits"],
                               prepare=V.prepare))
