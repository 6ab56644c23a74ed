"""C22 Fixed-point data files between Python and VHDL."""
import numpy as np
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation
from pyapi import K, fmt, call, api, decode, compare
import tbops as T

modes = st.sampled_from(["dec", "dec", "bin", "hex"])


@st.composite
def data(draw, max_n=12):
    f = draw(gen.fmts(max_w=150))
    n = draw(gen.ints(1, 40)) if draw(gen.ints(0, 9)) == 0 else max_n
    return f, draw(gen.raws(f, max_n=n))


def check(what, got, xs, f):
    exp = f"{len(xs)}" + "".join(" " + M.bits(x, M.width(f)) for x in xs)
    if got != exp:
        raise Violation(f"{what} {f}: read {got[:500]}, expected {exp[:500]} ({xs[:12]})")


def tags(f, xs, *more):
    w = M.width(f)
    return [f"elems={len(xs)}", "signed" if f[0] else "unsigned", "w>64" if w > 64 else "w>53" if w > 53 else "w>32" if w > 32 else "w<=32"] + \
        list(more) + ["nontrivial"] * any(xs)


# ---- Python -> VHDL ----------------------------------------------------------------------------

@st.composite
def py_case(draw):
    f, xs = draw(data())
    h = draw(gen.ints(0, 2))
    return dict(f=f, x=xs, headers=h, dflt=int(h == 1 and draw(st.booleans())), stream=draw(gen.ints(0, 1)), close=draw(gen.ints(0, 1)))


def run_py(c):
    f, xs = tuple(c["f"]), c["x"]
    p = T.path("p.txt")
    v = call("cl_fix_from_integer", K.cl_fix_from_integer, np.array(xs, dtype=object), fmt(f))
    ints = call("cl_fix_to_integer", K.cl_fix_to_integer, v, fmt(f))
    np.savetxt(p, ints, fmt="%i", header="\n".join([f"data {fmt(f)}"] * c["headers"]), comments="# " if c["headers"] else "")
    if c["headers"] == 0:       # savetxt writes no header line for an empty header
        pass
    text = open(p).read()
    r = T.ask(f"reading a data file of {f}", [T.req(45, fmt=f, skip=c["headers"], dflt=c["dflt"], text=p)])
    check(f"data written by Python ({text[:200]!r})", r[0], xs, f)
    n = len(xs)
    if c["stream"]:
        lines = [T.req(30, text=p)]
        lines += [T.req(43, fmt=f, skip=c["headers"] if k == 0 else 0, cls=int(c["close"] and k == n - 1),
                        dflt=int(k > 0 and not (c["close"] and k == n - 1))) for k in range(n)]
        r = T.ask(f"reading values of {f} one by one", lines)
        check("values read one by one", " ".join([str(n)] + r[1:]), xs, f)
        s = T.ask("reopening", ([] if c["close"] else [T.req(37)]) + [T.req(30, text=p), T.req(35)])
        if c["close"] and s[0] != "open_ok" or not c["close"] and (s[0] != "1" or s[1] != "status_error"):
            raise Violation(f"after reading all {n} values with close_after={bool(c['close'])}: {s}")
    return tags(f, xs, f"headers{c['headers']}", *["one-by-one"] * c["stream"])


# ---- VHDL -> VHDL and Python -------------------------------------------------------------------

@st.composite
def vhd_case(draw):
    f, xs = draw(data())
    m = draw(modes)
    h = draw(st.sampled_from(["", "# data", "(1,2,3) | x"]))
    dw = int(m == "dec" and h == "" and draw(st.booleans()))
    return dict(f=f, x=xs, mode=m, header=h, dflt_w=dw, dflt_r=int(m == "dec" and h != "" and draw(st.booleans())),
                low=draw(st.sampled_from([0, 0, 1, 3, 100])))


def run_vhd(c):
    f, xs, m = tuple(c["f"]), c["x"], c["mode"]
    w = M.width(f)
    p = T.path("v.txt")
    skip = 1 if c["header"] else 0
    lines = [T.req(1)] + [T.req(2, text=M.bits(x, w)) for x in xs]
    lines += [T.req(44, fmt=f, mode=m, w=w, dir=c["low"], dflt=c["dflt_w"], text=p + "|" + c["header"]),
              T.req(45, fmt=f, mode=m, skip=skip, dflt=c["dflt_r"], text=p)]
    r = T.ask(f"data file of {f} ({m})", lines)
    text = open(p).read()
    check(f"{m} file {text[:200]!r} written by VHDL:", r[-1], xs, f)
    rows = text.split("\n")[skip:-1]
    got = [T.value(s, w, m, f[0] == 1) for s in rows]
    if got != xs:
        raise Violation(f"{m} file of {f} written by VHDL holds {rows[:12]} for {xs[:12]}")
    if skip and text.split("\n")[0] != c["header"]:
        raise Violation(f"header {c['header']!r} written as {text.split(chr(10))[0]!r}")
    if m == "dec" and all(-2 ** 63 <= x < 2 ** 63 for x in xs):
        ints = np.loadtxt(p, dtype=np.int64, skiprows=skip, ndmin=1)
        v = call("cl_fix_from_integer", K.cl_fix_from_integer, ints, fmt(f))
        got, _ = decode("cl_fix_from_integer", v, f)
        compare(f"data of {f} written by VHDL and loaded in Python", got, xs, f)
    return tags(f, xs, m, *["header"] * skip)


# ---- single values on a line and to a file -----------------------------------------------------

@st.composite
def line_case(draw):
    items = []
    m = draw(modes)
    for _ in range(draw(gen.ints(1, 4))):
        f = draw(gen.fmts(max_w=100))
        items.append(dict(f=f, x=draw(gen.raw(f)), dir=draw(gen.ints(0, 4)), rdir=draw(gen.ints(0, 1)),
                          dflt=int(m == "dec" and draw(st.booleans()))))
    return dict(items=items, mode=m, delim=draw(st.sampled_from([" ", "  ", "\t"])))


def run_line(c):
    p, m = T.path("l.txt"), c["mode"]
    lines = [T.req(20)]
    for it in c["items"]:
        f = it["f"]
        lines += [T.req(1), T.req(2, text=M.bits(it["x"], M.width(f))), T.req(40, fmt=f, mode=m, dir=it["dir"], dflt=it["dflt"]), T.req(22, text=c["delim"])]
    r = T.ask("writing fixed-point values to a line", lines + [T.req(23)])
    text = r[-1][1:]
    cols = text.split()
    if [T.value(s, M.width(it["f"]), m, it["f"][0] == 1) for s, it in zip(cols, c["items"])] != [it["x"] for it in c["items"]] or \
            len(cols) != len(c["items"]):
        raise Violation(f"values {[(it['f'], it['x']) for it in c['items']]} written to a line ({m}): {text!r}")
    r = T.ask(f"reading line {text!r}", [T.req(41, fmt=it["f"], mode=m, w=M.width(it["f"]), dir=it["rdir"], dflt=it["dflt"]) for it in c["items"]])
    for it, got in zip(c["items"], r):
        if got != M.bits(it["x"], M.width(it["f"])):
            raise Violation(f"reading {it['f']} from line {text!r} ({m}): got {got}, expected {M.bits(it['x'], M.width(it['f']))}")
    lines = [T.req(31, text=p)]
    for it in c["items"]:
        lines += [T.req(1), T.req(2, text=M.bits(it["x"], M.width(it["f"]))), T.req(42, fmt=it["f"], mode=m, dir=it["dir"], dflt=it["dflt"])]
    T.ask("writing fixed-point values to a file", lines + [T.req(35)])
    rows = open(p).read().split("\n")
    if len(rows) != len(c["items"]) + 1 or [T.value(s, M.width(it["f"]), m, it["f"][0] == 1) for s, it in zip(rows, c["items"])] != \
            [it["x"] for it in c["items"]]:
        raise Violation(f"values {[(it['f'], it['x']) for it in c['items']]} written to a file ({m}): {rows}")
    r = T.ask("reading values of different formats", [T.req(30, text=p)] + [T.req(43, fmt=it["f"], mode=m, dflt=it["dflt"]) for it in c["items"]] + [T.req(35)])
    for it, got in zip(c["items"], r[1:]):
        if got != M.bits(it["x"], M.width(it["f"])):
            raise Violation(f"reading {it['f']} from file lines {rows} ({m}): got {got}, expected {M.bits(it['x'], M.width(it['f']))}")
    n = len(c["items"])
    return [f"elems={2 * n}", m, f"items{n}"] + ["nontrivial"] * any(it["x"] for it in c["items"])


SUBS = [
    Sub("python-to-vhdl", py_case(), run_py, 3000, 60000),
    Sub("vhdl-files", vhd_case(), run_vhd, 3000, 60000),
    Sub("values", line_case(), run_line, 2000, 40000),
]
RULE = "distinct cases with a non-zero value"

if __name__ == "__main__":
    raise SystemExit(core.main("C22", SUBS, RULE, ["GHDL 4.1 implements VHDL-2008, its text I/O included, correctly",
                                                  "numpy.savetxt and numpy.loadtxt are correct for integers"], prepare=T.prepare))
