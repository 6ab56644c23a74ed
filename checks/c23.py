"""C23 Flatten, Unflatten, Numel and the array equality checks of the test bench package."""
from hypothesis import strategies as st
import core, gen
from core import Sub, Violation
import tbops as T

VEC = ["sg", "us", "bs", "bu", "sl", "bv", "su"]
META = {"sg", "us", "sl", "su"}


@st.composite
def vecs(draw, t, w, n):
    chars = "01UXZWLH-" if t in META and draw(gen.ints(0, 3)) == 0 else "01"
    return ["".join(draw(st.lists(st.sampled_from(chars), min_size=w, max_size=w))) for _ in range(n)]


@st.composite
def flat_case(draw):
    t, w = draw(st.sampled_from(VEC)), draw(st.one_of(gen.ints(1, 9), gen.ints(1, 70)))
    n = draw(gen.ints(1, 8))
    return dict(t=t, w=w, x=draw(vecs(t, w, n)), dir=draw(gen.ints(0, 2)), udir=draw(gen.ints(0, 4)), acls=draw(gen.ints(0, 2)))


def run_flat(c):
    t, w, xs = c["t"], c["w"], c["x"]
    n = len(xs)
    name = T.NAMES[t]
    flat = "".join(reversed(xs))        # element 0 in the least significant positions
    r = T.ask(f"Flatten of {name} array", [T.req(1)] + [T.req(2, text=x) for x in xs] + [T.req(61, t=t, w=w, dir=c["dir"])])
    exp = f"{n * w} {n * w} \"{flat}"
    if r[-1] != exp:
        raise Violation(f"Numel, length and Flatten of {n} x {w} bit {name} array {xs} (array form {c['dir']}): {r[-1]}, expected {exp}")
    r = T.ask(f"Unflatten to {name} array", [T.req(1), T.req(2, text=flat), T.req(62, t=t, w=w, skip=n, dir=c["udir"], cls=c["acls"]),
                                             T.req(63, t=t, w=w, skip=n, dir=c["udir"], cls=c["acls"])])
    lr = (n - 1, 0) if c["acls"] == 1 else (0, n - 1)
    exp = f"{n} {lr[0]} {lr[1]}" + "".join(" " + x for x in xs)
    for k, how in ((2, "procedure"), (3, "function")):
        if r[k] != exp:
            raise Violation(f"Unflatten ({how}) of {flat} (index range {c['udir']}) to {n} x {w} bit {name} array (form {c['acls']}): {r[k]}, expected {exp}")
    return [f"elems={3 * n}", t, f"n{min(n, 4)}{'+' * (n >= 4)}"] + ["metavalues"] * (set("".join(xs)) > {"0", "1"}) + \
        ["nontrivial"] * (n > 1 and len(set(xs)) > 1)


@st.composite
def eq_case(draw):
    t, w = draw(st.sampled_from(VEC)), draw(st.one_of(gen.ints(1, 9), gen.ints(1, 40)))
    n = draw(gen.ints(0, 6))
    bit = st.lists(st.sampled_from("01"), min_size=w, max_size=w).map("".join)
    a = [draw(bit) for _ in range(n)]
    b = list(a)
    k = draw(gen.ints(0, 5))
    if k in (1, 2) and n:       # one bit of one element differs
        i, j = draw(gen.ints(0, n - 1)), draw(gen.ints(0, w - 1))
        b[i] = b[i][:j] + ("1" if b[i][j] == "0" else "0") + b[i][j + 1:]
    elif k == 3:                # one more element (maybe equal to the last one)
        (a if draw(st.booleans()) else b).append(a[-1] if n and draw(st.booleans()) else draw(bit))
    elif k == 4 and n > 1:
        b = b[1:] + b[:1]
    return dict(t=t, w=w, a=a, b=b, ck=draw(gen.ints(0, 1)))


def run_eq(c):
    t, w, a, b = c["t"], c["w"], c["a"], c["b"]
    r = T.ask_or_stop([T.req(1)] + [T.req(2, text=x) for x in a + b] + [T.req(64 if c["ck"] else 65, t=t, w=w, skip=len(a))])
    passed = r is not None and r[-1] == "0"
    if passed != (a == b):
        raise Violation(f"check_equal ({'with' if c['ck'] else 'default'} checker) of {T.NAMES[t]} arrays {a} and {b} "
                        f"{'passed' if passed else 'failed'}")
    tags = [f"elems={len(a)}", t, "equal" if a == b else "length" if len(a) != len(b) else "data"]
    return tags + ["nontrivial"] * (a != b or len(a) > 0)


@st.composite
def eq1_case(draw):
    t, w = draw(st.sampled_from(["bs", "bu", "bv"])), draw(gen.ints(1, 40))
    bit = st.lists(st.sampled_from("01"), min_size=w, max_size=w).map("".join)
    a = draw(bit)
    b = a
    if draw(st.booleans()):
        j = draw(gen.ints(0, w - 1))
        b = b[:j] + ("1" if b[j] == "0" else "0") + b[j + 1:]
    return dict(t=t, w=w, a=a, b=b, ck=draw(gen.ints(0, 1)), da=draw(gen.ints(0, 4)), db=draw(gen.ints(0, 4)))


def run_eq1(c):
    t, a, b = c["t"], c["a"], c["b"]
    r = T.ask_or_stop([T.req(1), T.req(2, text=a), T.req(2, text=b), T.req(66 if c["ck"] else 67, t=t, dir=c["da"], cls=c["db"])])
    passed = r is not None and r[-1] == "0"
    if passed != (a == b):
        raise Violation(f"check_equal ({'with' if c['ck'] else 'default'} checker) of {T.NAMES[t]} {a} and {b} {'passed' if passed else 'failed'}")
    return ["elems=1", t, "equal" if a == b else "data", "nontrivial"]


SUBS = [
    Sub("flatten", flat_case(), run_flat, 3000, 60000),
    Sub("check-equal", eq_case(), run_eq, 2500, 40000),
    Sub("check-equal-vector", eq1_case(), run_eq1, 800, 15000),
]
RULE = "distinct cases with two different elements (flatten), with a difference or at least one element (check-equal), all (check-equal-vector)"

if __name__ == "__main__":
    raise SystemExit(core.main("C23", SUBS, RULE, ["GHDL 4.1 implements VHDL-2008 correctly", "VUnit's scalar and vector check_equal are correct",
                                                  "arrays start at index zero, in either direction"], prepare=T.prepare))
