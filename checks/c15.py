"""C15 VHDL rounding, saturation, resize and range test."""
from hypothesis import strategies as st
import core, gen, model as M, vhd
from core import Sub, Violation
from vops import *


@st.composite
def round_case(draw):
    a = draw(gen.fmts(max_w=180))
    w = M.width(a)
    rF = draw(gen.ints(a[2] - w - 3, a[2] + 3)) if draw(st.booleans()) else draw(gen.ints(a[2] - min(w + 1, 12), a[2] + 1))
    v = draw(st.sampled_from([0, 0, 0, 1, 2, 2, 3]))
    rnd = draw(gen.rounds)
    r = M.round_fmt(a, rF, "Trunc_s" if v == 1 else rnd)
    if v == 2:      # the worst-case format is not enforced: any result format
        r = gen.legal(draw(st.sampled_from([a[0], a[0], 1 - a[0]])), r[1] + draw(gen.ints(-3, 2)), r[2])
    return dict(op="round", a=a, r=r, rnd=rnd, variant=v, da=draw(dirs), x_=draw(gen.raws(a, r, max_n=16)))


def run_round(c):
    a, r = tuple(c["a"]), tuple(c["r"])
    rnd = "Trunc_s" if c["variant"] == 1 else c["rnd"]
    what = name(c)
    reps = ask(what, [head(c)] + [vec(a, x) for x in c["x_"]])
    for x, rep in zip(c["x_"], reps):
        exp = M.round_raw(x, a[2], r[2], rnd)
        if c["variant"] == 2:
            exp = M.sat_raw(exp, r, "None_s")
        check_bits(what, rep, exp, r, x)
        check_warn(what, rep, False, x)
    tags = [f"elems={len(reps)}", f"variant{c['variant']}", rnd, "wide" if M.width(a) > 64 else "le64"]
    d = a[2] - r[2]
    if d > 0:
        rem = [x % (1 << d) for x in c["x_"]]
        tags += ["nontrivial"] * any(rem) + ["tie"] * any(x == 1 << (d - 1) for x in rem)
    return tags


@st.composite
def sat_case(draw):
    a = draw(gen.fmts(max_w=180))
    r = draw(gen.rel_fmts(a, max_w=190, same_f=True))
    return dict(op="saturate", a=a, r=r, sat=draw(gen.sats), variant=draw(st.sampled_from([0, 0, 0, 1])), da=draw(dirs),
                x_=draw(gen.raws(a, r, max_n=16)))


@st.composite
def resize_case(draw, op):
    a = draw(gen.fmts(max_w=180))
    r = draw(gen.rel_fmts(a, max_w=190))
    return dict(op=op, a=a, r=r, rnd=draw(gen.rounds), sat=draw(gen.sats),
                variant=draw(st.sampled_from([0, 0, 0, 1, 3])), da=draw(dirs), x_=draw(gen.raws(a, r, max_n=16)))


def run_resize(c):
    a, r, v, op = tuple(c["a"]), tuple(c["r"]), c["variant"], c["op"]
    rnd = c["rnd"] if "rnd" in c and v != 1 else "Trunc_s"
    sat = c["sat"] if v == 0 else "Warn_s"
    what = name(c)
    reps = ask(what, [head(c)] + [vec(a, x) for x in c["x_"]])
    over = loss = 0
    for x, rep in zip(c["x_"], reps):
        ok = M.in_range(x, a[2], r, rnd)
        over += not ok
        loss += a[2] > r[2] and x % (1 << (a[2] - r[2])) != 0
        if op == "in_range":
            if rep.text != ("1" if ok else "0"):
                raise Violation(f"{what}: value {x}: got {rep.text}, expected {int(ok)}")
            check_warn(what, rep, False, x)
        else:
            check_bits(what, rep, M.resize_raw(x, a[2], r, rnd, sat), r, x)
            check_warn(what, rep, not ok and M.warns(sat), x)
    n = len(reps)
    tags = [f"elems={n}", f"variant{v}", "wide" if M.width(a) > 64 else "le64"] + ["lossy"] * (loss > 0)
    if op != "in_range":
        tags.append(sat)
    if over:
        tags.append("all-out" if over == n else "some-out")
    if over or loss:
        tags.append("nontrivial")
    return tags


SUBS = [
    Sub("round", round_case(), run_round, 3000, 60000),
    Sub("saturate", sat_case(), run_resize, 3000, 60000),
    Sub("resize", resize_case("resize"), run_resize, 4000, 80000),
    Sub("in_range", resize_case("in_range"), run_resize, 2000, 40000),
]
RULE = ("distinct cases in which at least one value loses fractional bits or leaves the result format, so that rounding, "
        "saturation or wrapping changes it")

if __name__ == "__main__":
    raise SystemExit(core.main("C15", SUBS, RULE, ["GHDL 4.1 implements VHDL-2008 correctly",
                                                  "formats up to 190 bits; vectors contain only 0 and 1"], prepare=prepare))
