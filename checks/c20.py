"""C20 Strings of formats, modes and values; format files."""
import os
from hypothesis import strategies as st
import core, gen, model as M, vhd
from core import Sub, Violation
from pyapi import K, fmt, call, RND as PRND, SAT as PSAT
import vops as V
import tbops as T


def prepare():
    V.prepare()
    T.prepare()


any_format = st.one_of(gen.any_fmt(), st.builds(gen.legal, gen.ints(0, 1), gen.ints(-12000, 12000), gen.ints(-12000, 12000)),
                       st.builds(gen.legal, gen.ints(0, 1), gen.ints(-999999, 999999), gen.ints(-999999, 999999)))
# anything without "(" may stand before a format
before = st.sampled_from(["", "", " ", "# ", "fmt = ", "a,b,1) ", "-7,3 ", "x" * 40])
after = st.sampled_from(["", "", " ", ",", ";  ", " (0,1,2)", ")(", "abc", "9", "\t"])


@st.composite
def format_case(draw):
    f = draw(any_format)
    s = st.sampled_from(["", "", " ", "  "])
    # a number may be followed by spaces
    free = f"({f[0]}{draw(s)},{draw(s)}{f[1]}{draw(s)},{draw(s)}{f[2]}{draw(s)})"
    return dict(f=f, text=draw(before) + free + draw(after), pre=draw(before), post=draw(after), low=draw(st.sampled_from([0, 0, 1, 7])))


def run_format(c):
    f = tuple(c["f"])
    py = call("cl_fix_format_to_string", K.cl_fix_format_to_string, fmt(f))
    h = vhd.header(50, x=c["low"])
    reps = V.ask(f"format string of {f}", [vhd.header(45, a=f), ("F 0", 1), h, ("T " + c["text"], 1), ("T " + c["pre"] + py + c["post"], 1)])
    out = reps[0].text
    back = V.ask(f"parsing {out!r}", [h, ("T " + out, 1)])[0].text
    exp = " ".join(map(str, f))
    for text, got in ((out, back), (c["text"], reps[1].text), (c["pre"] + py + c["post"], reps[2].text)):
        if got != exp:
            raise Violation(f"VHDL cl_fix_format_from_string({text!r}) = ({got}), expected ({exp})")
    if out.replace(" ", "") != py.replace(" ", ""):
        raise Violation(f"format {f} prints as {out!r} in VHDL but {py!r} in Python")
    return ["elems=3"] + ["negative"] * (f[1] < 0 or f[2] < 0) + ["multi-digit"] * (abs(f[1]) > 9 or abs(f[2]) > 9) + ["nontrivial"]


# ---- modes -------------------------------------------------------------------------------------

@st.composite
def mode_case(draw):
    rnd, sat = draw(gen.rounds), draw(gen.sats)
    up = st.integers(0, (1 << 12) - 1)
    mix = lambda s, m: "".join(ch.upper() if m >> i & 1 else ch.lower() for i, ch in enumerate(s))
    return dict(rnd=rnd, sat=sat, rt=mix(rnd, draw(up)), st=mix(sat, draw(up)), low=draw(st.sampled_from([0, 0, 3])))


def run_mode(c):
    r, s, x = V.RND[c["rnd"]], V.SAT[c["sat"]], c["low"]
    pr, ps = PRND[c["rnd"]], PSAT[c["sat"]]
    H = vhd.header
    reps = V.ask("mode strings", [
        H(46, rnd=r), ("F 0", 1), H(47, sat=s), ("F 0", 1),
        H(51, x=x), ("T " + c["rnd"], 1), ("T " + c["rt"], 1), ("T " + pr.name, 1),
        H(52, x=x), ("T " + c["sat"], 1), ("T " + c["st"], 1), ("T " + ps.name, 1)])
    t = [k.text for k in reps]
    for i, name in ((0, c["rnd"]), (1, c["sat"])):
        if t[i] != name:
            raise Violation(f"to_string of mode {name} = {t[i]!r}")
    for got, text, e in zip(t[2:], [c["rnd"], c["rt"], pr.name, c["sat"], c["st"], ps.name], [r, r, r, s, s, s]):
        if got != str(e):
            raise Violation(f"parsing mode name {text!r} gave mode number {got}, expected {e}")
    # mode numbers are exchanged in files: enumeration position in VHDL, value in Python
    if pr.value != r or ps.value != s:
        raise Violation(f"Python values {pr} = {pr.value}, {ps} = {ps.value}, VHDL positions {r}, {s}")
    return ["elems=8", c["rnd"], c["sat"], "nontrivial"]


# ---- printed vectors ---------------------------------------------------------------------------

@st.composite
def vector_case(draw):
    k = draw(gen.ints(0, 3))
    if k == 0:
        a = draw(gen.fmts(max_w=80))
    else:
        S, I, F = draw(gen.ints(0, 1)), draw(gen.ints(-9, 9)), draw(gen.ints(-9, 9))
        a = gen.legal(S, I, F)
    w = M.width(a)
    x = M.bits(draw(gen.raw(a)), w)
    if draw(gen.ints(0, 5)) == 0:
        x = "".join(draw(st.lists(st.sampled_from("01UXZWLH-"), min_size=w, max_size=w)))
    return dict(op="to_string", a=a, da=draw(V.dirs), x=x)


def printed(bits, f):
    S, I, F = f
    if S + I >= 0 and F >= 0:
        return bits[:S + I] + "." + bits[S + I:]
    s = bits
    if S + I < 0:
        s = ".(" + (bits[0] if S else "0") * -(S + I) + ")" + s
    if F < 0:
        s = s + "(" + "0" * -F + ")."
    return s


def run_vector(c):
    a = tuple(c["a"])
    if -(a[0] + a[1]) > 5000 or -a[2] > 5000:
        return []
    rep = V.ask(f"to_string of {c['x']} in {a}", [vhd.header(22, da=c["da"], a=a), ("V " + c["x"] + " 0", 1)])[0]
    if rep.text != printed(c["x"], a):
        raise Violation(f"to_string of {c['x']} in {a} (index range {c['da']}) = {rep.text!r}, expected {printed(c['x'], a)!r}")
    kind = "implied-sign" if a[0] + a[1] < 0 else "implied-zeros" if a[2] < 0 else "explicit"
    return ["elems=1", kind] + ["metavalues"] * (set(c["x"]) > {"0", "1"}) + ["nontrivial"] * (kind != "explicit" or "1" in c["x"])


# ---- format files ------------------------------------------------------------------------------

names = st.sampled_from(["a", "x1", "result", "(", "1", "", "a b", "9,9"])


@st.composite
def file_case(draw):
    fs = draw(st.lists(any_format, max_size=9))
    return dict(f=fs, names=draw(st.lists(names, min_size=0, max_size=4)), scalar=len(fs) == 1 and draw(st.booleans()),
                as_array=draw(st.booleans()), skip=draw(gen.ints(0, 2)), close=draw(gen.ints(0, 1)), dflt=draw(gen.ints(0, 1)),
                pre=draw(st.sampled_from([None, "", "fmt: "])), low=draw(st.sampled_from([0, 0, 1, 3, 100])))


def run_file(c):
    import numpy as np
    fs = [tuple(f) for f in c["f"]]
    p, q = T.path("pf.txt"), T.path("vf.txt")
    pf = [fmt(f) for f in fs]
    if c["scalar"]:
        pf = pf[0]
    elif c["as_array"] and pf:
        pf = np.array(pf, dtype=object)
    call("cl_fix_write_formats", K.cl_fix_write_formats, pf, c["names"], p)
    show = [" ".join(map(str, f)) for f in fs]
    exp = " ".join([str(len(fs))] + show)
    text = open(p).read()
    lines = [T.req(55, text=p, dflt=c["dflt"], skip=1), T.req(1)] + [T.req(2, text=s) for s in show]
    lines += [T.req(54, text=q, dir=c["low"]), T.req(55, text=q, skip=0)]
    r = T.ask(f"format files of {fs}", lines)
    if r[0] != exp:
        raise Violation(f"formats {fs} written by Python as {text!r} are read in VHDL as {r[0]}")
    if r[-1] != exp:
        raise Violation(f"formats {fs} written by VHDL as {open(q).read()!r} are read in VHDL as {r[-1]}")
    n = 2 * len(fs)
    if fs:
        # one by one: from an open file (optionally skipping lines before each), through a text line
        with open(q, "w") as f:
            for s in pf if not c["scalar"] else [pf]:
                f.write("(0,0,0)\n" * c["skip"] + K.cl_fix_format_to_string(s) + "\n")
        lines = [T.req(30, text=q)]
        lines += [T.req(53, skip=c["skip"], cls=int(c["close"] and k == len(fs) - 1), dflt=int(c["skip"] == 0 and not c["close"]))
                  for k in range(len(fs))]
        r = T.ask(f"reading {fs} one by one", lines)
        if r[1:] != show:
            raise Violation(f"formats {fs}, each preceded by {c['skip']} lines to skip, are read one by one as {r[1:]}")
        s = T.ask("reopening", ([] if c["close"] else [T.req(37)]) + [T.req(30, text=q), T.req(35)])
        if c["close"] and s[0] != "open_ok" or not c["close"] and (s[0] != "1" or s[1] != "status_error"):
            raise Violation(f"after reading {len(fs)} formats with close_after={bool(c['close'])}: {s}")
        f = fs[0]
        r = T.ask(f"format {f} on a line", [T.req(20) if c["pre"] is None else T.req(21, text=c["pre"]), T.req(50, fmt=f), T.req(23), T.req(51)])
        if not r[2].startswith('"' + (c["pre"] or "") + "(") or r[3] != show[0]:
            raise Violation(f"format {f} appended to a line holding {c['pre']!r}: line {r[2]}, read back as {r[3]}")
        T.ask("writing formats to a file", [T.req(31, text=q)] + [T.req(52, fmt=f) for f in fs] + [T.req(35)])
        r = T.ask(f"reading {fs}", [T.req(55, text=q, skip=0)])
        if r[0] != exp:
            raise Violation(f"formats {fs} written one by one to a file are read as {r[0]}: {open(q).read()!r}")
        n += 3 * len(fs)
    return [f"elems={n}", f"n{min(len(fs), 4)}{'+' * (len(fs) >= 4)}"] + ["scalar"] * bool(c["scalar"]) + ["nontrivial"] * (len(fs) > 1)


SUBS = [
    Sub("formats", format_case(), run_format, 8000, 150000),
    Sub("modes", mode_case(), run_mode, 1500, 20000),
    Sub("vectors", vector_case(), run_vector, 6000, 120000),
    Sub("format-files", file_case(), run_file, 2000, 40000),
]
RULE = "distinct cases; vectors only with an implied position or a '1' bit, format files only with two or more formats"

if __name__ == "__main__":
    raise SystemExit(core.main("C20", SUBS, RULE, ["GHDL 4.1 implements VHDL-2008 correctly"], prepare=prepare))
