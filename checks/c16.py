"""C16 VHDL arithmetic, comparison and sign."""
from hypothesis import strategies as st
import core, gen, model as M, vhd
from core import Sub, Violation
from vops import *


@st.composite
def cmp_case(draw):
    a = draw(gen.fmts(max_w=140))
    b = a if draw(gen.ints(0, 3)) == 0 else draw(gen.rel_fmts(a, max_w=140))
    pairs = []
    for _ in range(draw(gen.ints(1, 8))):
        x = draw(gen.raw(a, b))
        if draw(st.booleans()):      # (nearly) equal values
            d = b[2] - a[2]
            y = (x << d if d >= 0 else x >> -d) + draw(gen.ints(-1, 1))
            y = min(max(y, M.lo(b)), M.hi(b))
        else:
            y = draw(gen.raw(b))
        pairs.append((x, y))
    return dict(op="compare", a=a, b=b, da=draw(dirs), db=draw(dirs), x_=pairs)


def run_cmp(c):
    a, b = tuple(c["a"]), tuple(c["b"])
    what = name(c)
    F, da, db = M.align(a, b)
    lines = []
    for k in range(6):
        lines += [head(c, x=k)] + [vec(a, x, b, y) for x, y in c["x_"]]
    reps = ask(what, lines)
    n = len(c["x_"])
    eq = neg = False
    for k, rel in enumerate(REL):
        for (x, y), rep in zip(c["x_"], reps[k * n:(k + 1) * n]):
            p, q = x << da, y << db
            exp = [p == q, p != q, p < q, p > q, p <= q, p >= q][k]
            eq |= p == q
            neg |= p < 0 or q < 0
            if rep.text != ("1" if exp else "0"):
                raise Violation(f"{what}: {x} {rel} {y}: got {rep.text}, expected {int(exp)}")
            check_warn(what, rep, False, (x, y))
    return [f"elems={6 * n}"] + ["equal"] * eq + ["negative"] * neg + ["mixed-sign"] * (a[0] != b[0]) + \
        ["nontrivial"] * (a != b or eq)


@st.composite
def sign_case(draw):
    a = draw(gen.fmts(max_w=180))
    return dict(op="sign", a=a, da=draw(dirs), x_=draw(gen.raws(a, max_n=12)))


def run_sign(c):
    a = tuple(c["a"])
    what = name(c)
    reps = ask(what, [head(c)] + [vec(a, x) for x in c["x_"]])
    for x, rep in zip(c["x_"], reps):
        if rep.text != ("1" if x < 0 else "0"):
            raise Violation(f"{what}: sign of {x} is {rep.text}")
    return [f"elems={len(reps)}"] + ["nontrivial"] * any(x < 0 for x in c["x_"])


SUBS = [
    Sub("add", arith_case(["add"]), run_arith, 2500, 50000),
    Sub("sub", arith_case(["sub"]), run_arith, 2500, 50000),
    Sub("addsub", arith_case(["addsub"]), run_arith, 2000, 40000),
    Sub("mult", arith_case(["mult"]), run_arith, 2500, 50000),
    Sub("unary", arith_case(["neg", "abs"]), run_arith, 2500, 50000),
    Sub("shift", arith_case(["shift"], 180), run_arith, 2000, 40000),
    Sub("compare", cmp_case(), run_cmp, 1500, 30000),
    Sub("sign", sign_case(), run_sign, 500, 10000),
]
RULE = ("distinct cases in which the exact result loses bits or overflows in the result format, or no result format is given "
        "and an operand is non-zero; comparisons of different formats or equal values; negative signs")

if __name__ == "__main__":
    raise SystemExit(core.main("C16", SUBS, RULE, ["GHDL 4.1 implements VHDL-2008 correctly",
                                                  "operands up to 180 bits; vectors contain only 0 and 1"], prepare=prepare))
