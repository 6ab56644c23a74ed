"""C21 Text file I/O of the en_tb packages."""
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation
import tbops as T

ARR = ["sg", "us", "bs", "bu", "ii", "sl", "bv", "su"]
widths = st.one_of(gen.ints(1, 9), gen.ints(1, 9), gen.ints(10, 40), gen.ints(41, 130), st.sampled_from([4, 8, 12, 16, 32, 33, 63, 64, 65]),
                   # the largest numbers have one decimal digit more than those of one bit less
                   st.sampled_from([k for k in range(4, 260) if str(2**k)[0] == "1"]))
headers = st.sampled_from(["", "", "# header", "x", "1,2,3", "(1,2,-3) | y", " ", "-7"])


def fmt_of(signed, w):
    return (1, w - 1, 0) if signed else (0, w, 0)


@st.composite
def typed(draw, kinds):
    t = draw(st.sampled_from(kinds))
    w = 32 if t == "ii" else 1 if t in ("st", "bt") else draw(widths)
    sgn = draw(gen.ints(0, 1)) if t in ("sl", "bv", "su") else 0
    return dict(t=t, w=w, sgn=sgn, mode=draw(st.sampled_from(["bin", "dec", "dec", "hex"])))


def values(c, n0=1, n=6):
    signed = T.is_signed(c["t"], c["sgn"])
    raw = gen.raw(fmt_of(signed, c["w"]))
    top = 2**(c["w"] - signed) - 1
    if c["mode"] == "dec" and top >= 9:
        near = [x for k in range(1, len(str(top)) + 1) for x in (10**k - 1, 10**k) if x <= top]
        near = near[-4:] + near
        raw = st.one_of(raw, raw, raw, st.sampled_from(near + [-x for x in near] * signed))
    return st.lists(raw, min_size=n0, max_size=n)


def base(c, **kw):
    d = dict(t=c["t"], mode=c["mode"], sgn=c["sgn"], w=c["w"])
    d.update(kw)
    return d


def what(c):
    return f"{T.NAMES[c['t']]} ({'signed' if T.is_signed(c['t'], c['sgn']) else 'unsigned'}, {c['w']} bits, {c['mode']})"


def check_rows(w, got, exp, width):
    e = f"{len(exp)}" + "".join(" " + T.bits(x, width) for x in exp)
    if got != e:
        raise Violation(f"{w}: read {got[:400]}, expected {e[:400]} ({exp[:12]})")


def tags(c, n, *more):
    return [f"elems={n}", c["t"], c["mode"], "w>64" if c["w"] > 64 else "w>32" if c["w"] > 32 else "w<=32"] + \
        ["w%4"] * (c["w"] % 4 != 0) + list(more)


low = st.sampled_from([0, 0, 1, 3, 100])       # first index of an array that is written


# ---- whole files written and read by VHDL ------------------------------------------------------

@st.composite
def file_case(draw):
    c = draw(typed(ARR))
    c["x"] = draw(values(c, 0, 8))
    c["header"] = draw(headers)
    c["dflt_w"] = int(draw(gen.ints(0, 4)) == 0)
    c["dflt_r"] = int(draw(gen.ints(0, 2)) == 0)
    if c["dflt_w"]:
        c["mode"], c["header"] = "dec", ""
    if c["dflt_r"] and not c["dflt_w"]:
        c["mode"] = "dec"
        c["header"] = c["header"] or "# h"
    if c["dflt_w"]:
        c["dflt_r"] = 0
    c["read_w"] = c["w"]
    c["low"] = draw(low)
    return c


def run_file(c):
    p = T.path("f.txt")
    w, signed = c["w"], T.is_signed(c["t"], c["sgn"])
    skip = 1 if c["header"] else 0
    lines = [T.req(1)] + [T.req(2, text=T.bits(x, w)) for x in c["x"]]
    lines += [T.req(10, **base(c, dflt=c["dflt_w"], dir=c["low"]), text=p + "|" + c["header"]), T.req(12, text=p),
              T.req(13, **base(c, skip=skip), text=p), T.req(11, **base(c, skip=skip, dflt=c["dflt_r"]), text=p)]
    r = T.ask(what(c), lines)
    text = open(p).read()
    rows = text.split("\n")
    n = len(c["x"])
    if rows and rows[-1] == "":
        rows.pop()
    if c["header"]:
        if not rows or rows[0] != c["header"]:
            raise Violation(f"{what(c)}: header {c['header']!r} was written as {rows[:1]}")
        rows = rows[1:]
    got = [T.value(s, w, c["mode"], signed) for s in rows]
    if got != c["x"]:
        raise Violation(f"{what(c)}: file holds {rows[:12]} for the values {c['x']}")
    if r[-3] != str(n + skip) or r[-2] != ("1" if n else "0"):
        raise Violation(f"{what(c)}: reported {r[-3]} lines and {r[-2]} columns of a file with {n + skip} lines of one number")
    check_rows(what(c), r[-1], c["x"], w)
    return tags(c, n, *["header"] * skip, *["empty"] * (n == 0), *["default-arguments"] * (c["dflt_w"] or c["dflt_r"]),
                *["nontrivial"] * any(c["x"]))


# ---- files made elsewhere: columns, delimiters, headers ----------------------------------------

@st.composite
def columns_case(draw):
    c = draw(typed(ARR))
    cols, rows = draw(gen.ints(1, 5)), draw(gen.ints(1, 5))
    c["x"] = [draw(values(c, cols, cols)) for _ in range(rows)]
    signed = T.is_signed(c["t"], c["sgn"])
    if c["mode"] == "dec":
        delim = st.sampled_from([" ", ",", ", ", ";", "\t", "  ", " ; ", " | ", ":", " /"])
        trail = st.sampled_from(["", "", "", " ", ",", ";  "])
    else:
        delim, trail = st.sampled_from([" ", "\t", "   ", " \t "]), st.just("")
    lead = st.sampled_from(["", "", " ", "\t ", "  "]) if signed or c["mode"] != "dec" else st.just("")
    c["delim"] = [[draw(lead)] + [draw(delim) for _ in range(cols - 1)] + [draw(trail)] for _ in range(rows)]
    c["zeros"] = draw(gen.ints(0, 3)) if c["mode"] == "dec" else 0
    c["lower"] = draw(st.booleans())
    c["headers"] = draw(st.lists(st.sampled_from(["# a,b", "", "time 1 2 3", "-"]), max_size=3))
    c["dflt"] = int(c["mode"] == "dec" and len(c["headers"]) == 1 and draw(st.booleans()))
    c["newline"] = draw(gen.ints(0, 5)) > 0
    return c


def number(c, x):
    s = T.numeral(x, c["w"], c["mode"])
    if c["zeros"]:
        s = s.replace("-", "")
        s = ("-" if x < 0 else "") + "0" * c["zeros"] + s
    return s.lower() if c["lower"] else s


def run_columns(c):
    p = T.path("c.txt")
    skip = len(c["headers"])
    text = [*c["headers"]]
    for xs, ds in zip(c["x"], c["delim"]):
        text.append(ds[0] + "".join(number(c, x) + d for x, d in zip(xs, ds[1:])))
    with open(p, "w") as f:
        f.write("\n".join(text) + ("\n" if c["newline"] else ""))
    cols = len(c["x"][0])
    r = T.ask(what(c), [T.req(12, text=p), T.req(13, **base(c, skip=skip, dflt=c["dflt"]), text=p),
                        T.req(11, **base(c, skip=skip, dflt=c["dflt"]), text=p)])
    if r[0] != str(len(text)):
        raise Violation(f"get_file_size_lines = {r[0]}, expected {len(text)} for {text}")
    if r[1] != str(cols):
        raise Violation(f"get_file_size_columns = {r[1]}, expected {cols} ({c['mode']}) for {text[skip:skip + 1]}")
    flat = [x for xs in c["x"] for x in xs]
    check_rows(what(c) + f" text {text}", r[2], flat, c["w"])
    return tags(c, len(flat), f"cols{cols}", f"headers{skip}", *["no-final-newline"] * (not c["newline"]),
                *["nontrivial"] * (cols > 1 and any(flat)))


# ---- single values on a text line --------------------------------------------------------------

@st.composite
def line_case(draw):
    items = []
    for _ in range(draw(gen.ints(1, 5))):
        c = draw(typed(["sg", "us", "bs", "bu", "ii", "sl", "bv"]))
        c["x"] = draw(values(c, 1, 1))[0]
        c["dir"] = draw(gen.ints(0, 4))
        c["rdir"] = draw(gen.ints(0, 2))
        c["dflt"] = int(draw(gen.ints(0, 3)) == 0)
        if c["dflt"]:
            c["mode"] = "dec"
        if c["t"] == "ii" or c["t"] in ("bs", "bu", "bv"):
            c["dir"] = c["dir"] if c["t"] != "ii" else 0
        items.append(c)
    # numbers of one line are read back if they are all in one base (a decimal read skips everything up to the next decimal digit)
    if draw(gen.ints(0, 3)):
        for c in items:
            c["mode"] = items[0]["mode"]
            c["dflt"] = c["dflt"] if c["mode"] == "dec" else 0
    # binary and hexadecimal numbers are read behind white space only
    delim = st.sampled_from([" ", "  ", "\t"])
    return dict(items=items, start=draw(st.sampled_from([None, None, ""])), delims=[draw(delim) for _ in items],
                tail=draw(st.sampled_from(["", "", " "])))


def run_line(c):
    lines = [T.req(20) if c["start"] is None else T.req(21, text=c["start"])]
    pos = []
    for it, d in zip(c["items"], c["delims"]):
        lines += [T.req(1), T.req(2, text=T.bits(it["x"], it["w"])), T.req(24, **base(it, dir=it["dir"], dflt=it["dflt"])), T.req(23)]
        pos.append(len(lines) - 1)
        lines += [T.req(22, text=d)]
    r = T.ask("writing to a line", lines)
    prev = ""
    for it, d, k in zip(c["items"], c["delims"], pos):
        text = r[k][1:] if r[k].startswith('"') else ""
        signed = T.is_signed(it["t"], it["sgn"])
        if not text.startswith(prev):
            raise Violation(f"writing {it['x']} as {what(it)} to a line holding {prev!r} left {text!r}: earlier content lost")
        if T.value(text[len(prev):], it["w"], it["mode"], signed) != it["x"]:
            raise Violation(f"writing {it['x']} as {what(it)} to a line holding {prev!r} gave {text!r}")
        prev = text + d
    lines = []
    mixed = len({it["mode"] for it in c["items"]}) > 1
    for it in [] if mixed else c["items"]:
        lines.append(T.req(25, **base(it, dir=it["rdir"], dflt=it["dflt"])))
    r = T.ask(f"reading back line {prev!r}", lines)
    for it, s in zip(c["items"], r):
        if s != T.bits(it["x"], it["w"]):
            raise Violation(f"reading {what(it)} back from line {prev!r}: got {s}, expected {it['x']} = {T.bits(it['x'], it['w'])}")
    n = len(c["items"])
    return [f"elems={n}", f"items{n}"] + ["nontrivial"] * (n > 1) + ["mixed-bases"] * mixed + \
        ["negative-after-other"] * any(it["x"] < 0 for it in c["items"][1:])


# ---- single values from and to an open file ----------------------------------------------------

@st.composite
def stream_case(draw):
    items = []
    for _ in range(draw(gen.ints(1, 6))):
        c = draw(typed(["sg", "us", "bs", "bu", "ii", "sl", "bv", "st", "bt"]))
        if c["t"] in ("st", "bt") and c["mode"] == "hex":
            c["mode"] = "dec"
        c["x"] = draw(values(c, 1, 1))[0]
        c["func"] = draw(gen.ints(0, 1))
        c["dflt"] = int(draw(gen.ints(0, 3)) == 0)
        if c["dflt"]:
            c["mode"] = "dec"
        c["skip"] = 0 if c["dflt"] else draw(st.sampled_from([0, 0, 0, 1, 2]))
        c["extra"] = draw(st.sampled_from(["", "", " ", " 77 1"])) if c["mode"] == "dec" else ""
        c["dir"] = draw(gen.ints(0, 2))
        items.append(c)
    return dict(items=items, pre=draw(gen.ints(0, 2)), close=draw(gen.ints(0, 1)))


def run_stream(c):
    """Every value is written by VHDL with write(file) if it can be, and read back one by one."""
    p = T.path("s.txt")
    p2 = T.path("w.txt")
    text = ["# header"] * c["pre"]
    for it in c["items"]:
        text += ["garbage x"] * it["skip"] + [T.numeral(it["x"], it["w"], it["mode"]) + it["extra"]]
    with open(p, "w") as f:
        f.write("\n".join(text) + "\n")
    last = len(c["items"]) - 1
    close = c["close"] and not c["items"][-1]["dflt"]
    lines = [T.req(30, text=p), T.req(36, skip=c["pre"])]
    for k, it in enumerate(c["items"]):
        lines.append(T.req(34 if it["func"] else 33, **base(it, skip=it["skip"], dflt=it["dflt"], dir=it["dir"], cls=int(close and k == last))))
    r = T.ask(f"reading file {text}", lines)
    if r[0] != "open_ok":
        raise Violation(f"opening the file: {r[0]}")
    # the file is closed exactly if that was requested
    s = T.ask("reopening", ([] if close else [T.req(37)]) + [T.req(30, text=p), T.req(35)])
    if close and s[0] != "open_ok" or not close and (s[0] != "1" or s[1] != "status_error"):
        raise Violation(f"after reading all of {text} with close_after={bool(close)} on the last value: {s}")
    for it, got in zip(c["items"], r[2:]):
        if got != T.bits(it["x"], it["w"]):
            raise Violation(f"reading {what(it)} from file lines {text}: got {got}, expected {T.bits(it['x'], it['w'])} ({it['x']}), "
                            f"skip_before={it['skip']}")
    wr = [it for it in c["items"] if it["t"] not in ("ii", "st", "bt")]
    if wr:
        lines = [T.req(31, text=p2)]
        for it in wr:
            lines += [T.req(1), T.req(2, text=T.bits(it["x"], it["w"])), T.req(32, **base(it, dir=it["dir"], dflt=it["dflt"]))]
        T.ask("writing values to a file", lines + [T.req(35)])
        rows = open(p2).read().split("\n")
        if rows[-1] != "" or len(rows) != len(wr) + 1:
            raise Violation(f"writing {len(wr)} values to a file gave {rows}")
        for it, row in zip(wr, rows):
            if T.value(row, it["w"], it["mode"], T.is_signed(it["t"], it["sgn"])) != it["x"]:
                raise Violation(f"write(file) of {it['x']} as {what(it)} wrote {row!r}")
    n = len(c["items"])
    return [f"elems={n + len(wr)}", f"items{n}"] + ["close-after"] * bool(close) + ["skip-before"] * any(it["skip"] for it in c["items"]) + \
        ["nontrivial"] * (n > 1)


SUBS = [
    Sub("file", file_case(), run_file, 3000, 60000),
    Sub("columns", columns_case(), run_columns, 3000, 60000),
    Sub("line", line_case(), run_line, 2000, 40000),
    Sub("stream", stream_case(), run_stream, 2000, 40000),
]
RULE = ("distinct cases with a non-zero value (file), several columns and a non-zero value (columns), several values on one line (line) or "
        "in one file (stream)")

if __name__ == "__main__":
    raise SystemExit(core.main("C21", SUBS, RULE, ["GHDL 4.1 implements VHDL-2008, its text I/O included, correctly"], prepare=T.prepare))
