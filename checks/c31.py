"""C31 The self-checking test benches pass exactly when the data they are given are right."""
from hypothesis import strategies as st
import core, gen, benches
import model as M
from core import Sub, Violation

BINARY = {"add", "sub", "addsub", "mult", "compare"}
ENTITY = {"round", "saturate", "resize"}
CMP = dict(eq=lambda a, b: a == b, neq=lambda a, b: a != b, less=lambda a, b: a < b, greater=lambda a, b: a > b,
           leq=lambda a, b: a <= b, geq=lambda a, b: a >= b)
META = [0, 8, 1, 40]


def small(max_w):
    return st.tuples(gen.ints(0, 1), gen.ints(1, max_w), gen.ints(-6, 12)).map(lambda t: (t[0], max(t[1], t[0]) - t[0] - t[2], t[2]))


@st.composite
def test_case(draw, bench):
    wa = {"compare": 4, "addsub": 4}.get(bench, 5 if bench in BINARY else 7)
    t = dict(a=draw(small(wa)), rnd=draw(gen.rounds), sat=draw(gen.sats))
    a = t["a"]
    if bench in BINARY:
        t["b"] = b = draw(small(wa))
        F = a[2] + draw(gen.ints(-8, 8))
        t["b"] = (b[0], M.width(b) - b[0] - F, F)
    if bench == "compare":
        return t
    if bench == "round":
        rF = draw(gen.ints(a[2] - M.width(a) - 1, a[2] + 3))
        while M.width(M.round_fmt(a, rF, t["rnd"])) < 1:
            rF += 1
        t["r"] = M.round_fmt(a, rF, t["rnd"])
        return t
    if bench == "shift":
        t["shift"] = draw(gen.ints(-9, 9))
    if bench == "from_real":
        t["sat"] = draw(st.sampled_from(["Sat_s", "SatWarn_s"]))
    t["r"] = draw(gen.rel_fmts(a, max_w=20, same_f=bench == "saturate", keep_f=bench == "saturate"))
    return t


def raws(f):
    return range(M.lo(f), M.hi(f) + 1)


def outputs(bench, t):
    """The data files of one test: suffix -> list of integers, in the order of the bench (b outside, a inside)."""
    a, r = tuple(t["a"]), tuple(t.get("r", ()))
    rnd, sat = t["rnd"], t["sat"]
    if bench == "compare":
        b = tuple(t["b"])
        _, da, db = M.align(a, b)
        return {k: [int(f(x << da, y << db)) for y in raws(b) for x in raws(a)] for k, f in CMP.items()}
    if bench in ("round", "saturate", "resize"):
        out = [M.resize_raw(x, a[2], r, rnd if bench != "saturate" else "Trunc_s", sat if bench != "round" else "None_s") for x in raws(a)]
    elif bench == "from_real":
        out = [min(max(M.round_raw(x, a[2], r[2], "NonSymPos_s"), M.lo(r)), M.hi(r)) for x in raws(a)]
    elif bench in BINARY:
        b = tuple(t["b"])
        out = []
        for sel in ((0, 1) if bench == "addsub" else (None,)):
            for y in raws(b):
                for x in raws(a):
                    n, F = M.op_exact(bench, a, x, b, y, sel)
                    out.append(M.resize_raw(n, F, r, rnd, sat))
    else:
        out = []
        for x in raws(a):
            n, F = M.op_exact(bench, a, x, None, t.get("shift"))
            out.append(M.resize_raw(n, F, r, rnd, sat))
    return {"output": out}


def listing(head, rows):
    return "".join(f"{x}\n" for x in [f"# {head}"] + list(rows))


def files(bench, tests, data):
    f = {}
    for k in ("a", "b", "r"):
        if k in tests[0]:
            f[f"{k}_fmt.txt"] = listing(" ".join(f"{k}_fmt{i}" for i in range(len(tests))), (f"({t[k][0]},{t[k][1]},{t[k][2]})" for t in tests))
    f["rnd.txt"] = listing("Rounding modes", (M.ROUND.index(t["rnd"]) for t in tests))
    f["sat.txt"] = listing("Saturation modes", (M.SAT.index(t["sat"]) for t in tests))
    if "shift" in tests[0]:
        f["shift.txt"] = listing("Shifts", (t["shift"] for t in tests))
    for i, d in enumerate(data):
        for k, v in d.items():
            f[f"test{i}_{k}.txt"] = listing(f"r[{len(v)}]", v)
    return f


@st.composite
def bench_case(draw):
    bench = draw(st.sampled_from(benches.BENCHES + ["compare", "compare", "addsub"]))
    tests = draw(st.lists(test_case(bench), min_size=1, max_size=9 if bench in ENTITY else 5))
    c = dict(bench=bench, tests=tests, meta=draw(st.sampled_from(META)) if bench in ENTITY else None)
    c["change"] = []
    for _ in range(draw(gen.ints(1, 6 if bench == "compare" else 4))):
        kind = draw(st.sampled_from(["value"] * 8 + ["last", "first", "swap", "short", "missing", "rnd", "sat", "shift"]))
        c["change"].append([kind, draw(gen.ints(0, 99)), draw(gen.ints(0, 9999)), draw(gen.ints(0, 1 << 20)), draw(gen.ints(0, 5))])
    return c


def change(bench, tests, data, ch):
    """Applies one change; returns the description, or None if nothing was changed."""
    kind, i, p, q, f = ch
    i %= len(tests)
    d = data[i]
    key = list(d)[f % len(d)]
    v = d[key]
    if kind in ("value", "last", "first"):
        p = {"value": p % len(v), "last": len(v) - 1, "first": 0}[kind]
        if bench == "compare":
            new = 1 - v[p]
        else:
            a, b = M.lo(tests[i]["r"]), M.hi(tests[i]["r"])
            m = v[p] ^ (1 << (q % M.width(tests[i]["r"]))) if q & 1 else a + q % (b - a + 1)
            new = m if a <= m <= b and m != v[p] else (v[p] + 1 if v[p] < b else a)
        what = f"test{i}_{key}.txt line {p}: {new} instead of {v[p]}"
        v[p] = new
        return what
    if kind == "swap":
        p, q = p % len(v), q % len(v)
        v[p], v[q] = v[q], v[p]
        return f"test{i}_{key}.txt lines {p} and {q} swapped"
    if kind == "short":
        v.pop()
        return f"test{i}_{key}.txt without its last line"
    if kind == "missing":
        del d[key]
        return f"test{i}_{key}.txt missing"
    if kind == "shift" and "shift" in tests[i]:
        tests[i]["shift"] += 1 if q & 1 else -1
        return f"shift {i} changed to {tests[i]['shift']}"
    if kind == "rnd" and bench not in ("compare", "from_real", "saturate"):
        t = dict(tests[i], rnd=M.ROUND[q % 7])
        if bench == "round" and M.round_fmt(tuple(t["a"]), t["r"][2], t["rnd"]) != tuple(t["r"]):
            return None     # not a configuration of the entity
        tests[i] = t
        return f"rounding mode {i} changed to {t['rnd']}"
    if kind == "sat" and bench not in ("compare", "from_real", "round"):
        tests[i]["sat"] = M.SAT[q % 4]
        return f"saturation mode {i} changed to {tests[i]['sat']}"
    return None


def run_bench(c):
    bench = c["bench"]
    tests = [dict(t) for t in c["tests"]]
    data = [outputs(bench, t) for t in tests]
    n = sum(len(v) for d in data for v in d.values())
    cfg = f"test bench cl_fix_{bench}_tb" + (f" (meta_width_g = {c['meta']})" if c["meta"] is not None else "")
    ok, text = benches.run(bench, files(bench, tests, data), c["meta"])
    if not ok:
        raise Violation(f"{cfg} fails on right data for {c['tests']}:\n{text[-1500:]}")
    tags = [f"elems={n}", bench]
    for ch in c["change"]:      # each change on its own
        t2, d2 = [dict(t) for t in tests], [{k: list(v) for k, v in d.items()} for d in data]
        did = change(bench, t2, d2, ch)
        if not did:
            continue
        right = d2 == [outputs(bench, t) for t in t2]
        ok, text = benches.run(bench, files(bench, t2, d2), c["meta"])
        if ok != right:
            raise Violation(f"{cfg} {'passes' if ok else 'fails'} on {'right' if right else 'wrong'} data ({did}) for {c['tests']}:\n{text[-1500:]}")
        tags += [ch[0], "still-right" if right else "wrong"]
    return tags + ["nontrivial"] * ("wrong" in tags)


SUBS = [Sub("verdict", bench_case(), run_bench, 320, 5000, min_shard=25)]
RULE = "distinct cases in which the bench was run on wrong data as well (after it passed on right data)"

if __name__ == "__main__":
    raise SystemExit(core.main("C31", SUBS, RULE, [
        "GHDL 4.1, and VUnit's and OSVVM's packages as compiled by it, behave as the VHDL standard and their documentation say",
        "input formats have at most 7 bits (the benches go through all values), result formats at most 20",
        "the verdict is VUnit's: the simulation ends without failure and vunit_results has the start of the test and the end of the suite"],
        prepare=benches.build))
