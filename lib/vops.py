"""Cases and runners for the VHDL functions of en_cl_fix_pkg, answered by the compiled server srv_fix."""
from hypothesis import strategies as st
import gen, model as M, vhd, core
from core import Violation

OP = {"round": 0, "saturate": 1, "resize": 2, "in_range": 3, "add": 10, "sub": 11, "addsub": 12, "mult": 13, "neg": 14,
      "abs": 15, "shift": 16, "compare": 17, "sign": 18, "to_real": 20, "to_integer": 21, "to_string": 22}
RND = {r: i for i, r in enumerate(M.ROUND)}
SAT = {s: i for i, s in enumerate(M.SAT)}
REL = ["=", "!=", "<", ">", "<=", ">="]
EXE = None
dirs = st.sampled_from([0, 0, 1, 2, 3, 4])


def prepare():
    global EXE
    EXE = vhd.build_fix("srv_fix")


def ask(what, lines):
    """Replies of the server; the simulation stopping on a legal request is a violation."""
    try:
        return vhd.server(EXE).ask(lines)
    except vhd.Died as e:
        k = len(e.done)
        reqs = [t for t, n in lines if n]
        raise Violation(f"{what}: the simulation stopped at request {reqs[k] if k < len(reqs) else '?'}: {e.output[-600:]}")


def must_stop(what, lines):
    try:
        r = vhd.server(EXE).ask(lines)
    except vhd.Died as e:
        if e.output.startswith("no reply"):
            raise Violation(f"{what}: {e.output}")
        return e.output
    raise Violation(f"{what}: the simulation did not stop but returned {r[-1].text}")


def head(c, **kw):
    d = dict(op=OP[c["op"]], variant=c.get("variant", 0), da=c.get("da", 0), db=c.get("db", 0), a=tuple(c["a"]))
    if "b" in c:
        d["b"] = tuple(c["b"])
    if c.get("r") is not None:
        d["r"] = tuple(c["r"])
    if "rnd" in c:
        d["rnd"] = RND[c["rnd"]]
    if "sat" in c:
        d["sat"] = SAT[c["sat"]]
    if c.get("x") is not None:
        d["x"] = c["x"]
    d.update(kw)
    return vhd.header(**d)


def vec(f, x, fb=None, y=0):
    return ("V " + M.bits(x, M.width(f)) + " " + (M.bits(y, M.width(fb)) if fb else "0"), 1)


def name(c):
    return (f"VHDL cl_fix_{c['op']} a={tuple(c['a'])} b={c.get('b')} r={c.get('r')} {c.get('rnd')} {c.get('sat')} "
            f"x={c.get('x')} variant={c.get('variant')} ranges={c.get('da', 0)},{c.get('db', 0)}")


def check_bits(what, rep, exp, f, args):
    w = M.width(f)
    if rep.text != M.bits(exp, w):
        raise Violation(f"{what}: operands {args}: got {rep.text}, expected {M.bits(exp, w)}")


def check_warn(what, rep, exp, args):
    if vhd.warned(rep) != exp:
        raise Violation(f"{what}: operands {args}: warning {'missing' if exp else 'unexpected'}: {rep.warnings[:2]}")
    if vhd.errors(rep):
        raise Violation(f"{what}: operands {args}: reports {vhd.errors(rep)[:2]}")


# ---- arithmetic --------------------------------------------------------------------------------

@st.composite
def arith_case(draw, ops, max_w=140):
    op = draw(st.sampled_from(ops))
    binary = op in ("add", "sub", "addsub", "mult")
    a = draw(gen.fmts(max_w=max_w, far=False))
    c = dict(op=op, a=a, da=draw(dirs), db=draw(dirs), rnd=draw(gen.rounds), sat=draw(gen.sats),
             variant=draw(st.sampled_from([0, 0, 0, 1, 2, 3])))
    b = s = None
    if binary:
        k = draw(gen.ints(0, 3))
        b = a if k == 0 else draw(gen.rel_fmts(a, max_w=max_w)) if k == 1 else draw(gen.fmts(max_w=max_w, far=False))
        c["b"] = b
    if op == "addsub":
        c["x"] = draw(gen.ints(0, 3))
    if op == "shift":
        s = c["x"] = draw(gen.ints(-12, 12)) if draw(st.booleans()) else draw(gen.ints(-80, 80))
        if c["variant"] == 2:
            c["variant"] = 0
    full = M.full_fmt(op, a, b, s, s)
    if M.width(full) < 1 or full[1] + full[2] < 0:
        full = gen.legal(*full)
    c["r"] = draw(gen.rel_fmts(full, max_w=200)) if c["variant"] != 2 else None
    if binary:
        if M.width(a) <= 3 and M.width(b) <= 3:
            pairs = [(x, y) for x in range(M.lo(a), M.hi(a) + 1) for y in range(M.lo(b), M.hi(b) + 1)]
        else:
            n = draw(gen.ints(1, 12))
            pairs = [(draw(gen.raw(a)), draw(gen.raw(b))) for _ in range(n)]
            if c["r"] is not None and op != "mult" and draw(st.booleans()):
                # aim the exact result at a tie or limit of the result format
                F, da, db = M.align(a, b)
                target = draw(gen.raw((1, full[1] + 1, F), c["r"]))
                y = pairs[0][1]
                x = (target - (y << db) if op == "add" or c.get("x") in (1, 2) else target + (y << db)) >> da
                if M.fits(x, a):
                    pairs[0] = (x, y)
        c["x_"] = pairs
    else:
        back = None if c["r"] is None else (c["r"][0], c["r"][1] - (s or 0), c["r"][2] + (s or 0))
        c["x_"] = [(x, 0) for x in draw(gen.raws(a, back, max_n=12))]
    return c


def run_arith(c):
    op, a = c["op"], tuple(c["a"])
    b = tuple(c["b"]) if "b" in c else None
    s = c["x"] if op == "shift" else None
    full = M.full_fmt(op, a, b, s, s)
    v = c["variant"]
    rnd = c["rnd"] if v in (0, 3) else "Trunc_s"
    sat = c["sat"] if v == 0 else "Warn_s"
    if c["r"] is None and (full[1] + full[2] < 0 or M.width(full) < 1):
        return []
    r = full if c["r"] is None else tuple(c["r"])
    what = name(c)
    reps = ask(what, [head(c)] + [vec(a, x, b, y) for x, y in c["x_"]])
    over = loss = False
    for (x, y), rep in zip(c["x_"], reps):
        sel = c["x"] in (1, 2) if op == "addsub" else None
        e, F = M.op_exact(op, a, x, b, s if op == "shift" else y, sel)
        if c["r"] is None:
            exp, out = e << (r[2] - F), False
        else:
            exp = M.resize_raw(e, F, r, rnd, sat)
            out = not M.in_range(e, F, r, rnd)
        over |= out
        loss |= F > r[2] and e % (1 << (F - r[2])) != 0
        check_bits(what, rep, exp, r, (x, y))
        check_warn(what, rep, out and M.warns(sat), (x, y))
    n = len(c["x_"])
    tags = [f"elems={n}", op, f"variant{v}"] + ["overflow"] * over + ["lossy"] * loss + ["wide"] * (M.width(full) > 64)
    if over or loss or (c["r"] is None and any(x for x, _ in c["x_"])):
        tags.append("nontrivial")
    return tags
