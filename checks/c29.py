"""C29 The data sets written by the cosimulation scripts, judged by the exact model.

Every script runs in a scratch copy of the tree. The data directory is what the VHDL test benches read, so a test that is missing,
doubled, out of order or computed for other parameters than the listed ones makes them pass for nothing.
"""
import concurrent.futures, hashlib, itertools, json, os, re, shutil, subprocess, sys
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation

LIB = os.path.dirname(os.path.abspath(core.__file__))
FIX = {n: f"bittrue/cosim/cl_fix_{n}/cosim.py" for n in
       ["abs", "add", "addsub", "compare", "from_real", "mult", "neg", "resize", "round", "saturate", "shift", "sub"]}
FILEIO = "lib/en_tb/bittrue/cosim/en_tb_fileio/cosim.py"
SCRIPTS = dict(FIX, fileio=FILEIO)
FAST = ["fileio", "resize", "saturate", "shift", "neg"]
BINARY = ("add", "sub", "addsub", "mult")
# the lists of parameters of each data set
LISTS = dict(abs=["a_fmt", "r_fmt", "rnd", "sat"], neg=["a_fmt", "r_fmt", "rnd", "sat"], resize=["a_fmt", "r_fmt", "rnd", "sat"],
             shift=["a_fmt", "shift", "r_fmt", "rnd", "sat"], round=["a_fmt", "r_fmt", "rnd"], saturate=["a_fmt", "r_fmt", "sat"],
             from_real=["a_fmt", "r_fmt", "sat"], compare=["a_fmt", "b_fmt"], **{n: ["a_fmt", "b_fmt", "r_fmt", "rnd", "sat"] for n in BINARY})
COMPARE = dict(eq=lambda a, b: a == b, neq=lambda a, b: a != b, less=lambda a, b: a < b, greater=lambda a, b: a > b,
               leq=lambda a, b: a <= b, geq=lambda a, b: a >= b)


def make_tree(d):
    os.makedirs(d)
    for top in ("bittrue", "lib/en_tb/bittrue", "sim"):
        shutil.copytree(os.path.join(core.REPO, top), os.path.join(d, top), ignore=shutil.ignore_patterns("data", "__pycache__", "vunit_out*", "*.txt"))


def data_dir(tree, name):
    return os.path.join(tree, os.path.dirname(SCRIPTS[name]), "data")


def drive(tree, name, steps):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    p = subprocess.run([sys.executable, os.path.join(LIB, "cosim_drive.py"), tree, SCRIPTS[name], json.dumps(steps)], env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    out = p.stdout.decode(errors="replace")
    if p.returncode:
        raise Violation(f"{SCRIPTS[name]} run as {steps}: exit code {p.returncode}: {out[-700:]}")
    return out


def first_history(name):
    """How the data were made that everything else looks at: an earlier run, maybe interrupted, wrong data, then another run in the same process."""
    k = list(SCRIPTS).index(name)
    others = [os.path.dirname(p) for n, p in SCRIPTS.items() if n != name]
    again = dict(cwd=others[(k + 5) % len(others)], how="module", rel=False, seed=k, spoil=4)
    stop = None
    if name in BINARY + ("compare", "round", "from_real"):
        # a whole run takes long; instead, an interrupted one and files with the names of a complete set
        stop = (1, 3, 17, 60)[k % 4]
        again["fake"] = [x + ".txt" for x in LISTS[name]] + [f"test{i}_{o}.txt" for i in range(200) for o in outputs(name)]
    return [dict(cwd=others[k % len(others)], how="module", rel=False, seed=k, stop=stop), again]


def main_tree():
    return os.path.join(core.scratch(), "main")


def prepare():
    make_tree(main_tree())
    order = ["addsub", "add", "mult", "compare", "sub", "from_real", "round", "abs", "neg", "shift", "saturate", "resize", "fileio"]
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_NPROC", 8))) as ex:
        for f in [ex.submit(drive, main_tree(), n, first_history(n)) for n in order]:
            f.result()


def lines(path, what):
    try:
        with open(path) as f:
            text = f.read()
    except OSError as e:
        raise Violation(f"{what}: {e.strerror}: {os.path.basename(path)}")
    if not text.startswith("#") or not text.endswith("\n"):
        raise Violation(f"{what}: {os.path.basename(path)} does not start with a comment line or end with a line end: {text[:40]!r}..{text[-20:]!r}")
    return text.split("\n")[1:-1]


_params = {}


def params(name):
    """One tuple of parameters per test."""
    if name not in _params:
        d = data_dir(main_tree(), name)
        cols = []
        for k in LISTS[name]:
            rows = lines(os.path.join(d, k + ".txt"), f"data of {name}")
            col = []
            for r in rows:
                m = re.fullmatch(r"\((-?\d+), *(-?\d+), *(-?\d+)\)", r) if k.endswith("fmt") else re.fullmatch(r"-?\d+", r)
                if not m:
                    raise Violation(f"data of {name}: {k}.txt holds {r!r}")
                v = tuple(map(int, m.groups())) if k.endswith("fmt") else int(r)
                if k in ("rnd", "sat"):
                    t = M.ROUND if k == "rnd" else M.SAT
                    if not 0 <= v < len(t):
                        raise Violation(f"data of {name}: {k}.txt holds {r!r}")
                    v = t[v]
                if k.endswith("fmt") and (v[0] not in (0, 1) or M.width(v) < 1):
                    raise Violation(f"data of {name}: {k}.txt holds the unusable format {r}")
                col.append(v)
            cols.append(col)
        if len({len(c) for c in cols}) != 1:
            raise Violation(f"data of {name}: lists of different length: " + ", ".join(f"{k} {len(c)}" for k, c in zip(LISTS[name], cols)))
        _params[name] = [dict(zip(LISTS[name], t)) for t in zip(*cols)]
    return _params[name]


def outputs(name):
    return list(COMPARE) if name == "compare" else ["output"]


# ---- single tests ------------------------------------------------------------------------------

@st.composite
def test_case(draw):
    # the share of a cosim follows its number of tests
    return dict(cosim=draw(st.sampled_from(["add", "sub", "addsub", "mult", "abs", "neg", "from_real", "round", "shift", "saturate", "resize", "compare"])),
                start=draw(st.integers(0, 2**20)), step=draw(st.sampled_from([1, 1, 7, 101, 1009])), n=draw(st.sampled_from([5, 20, 40])))


def vals(f):
    return range(M.lo(f), M.hi(f) + 1)


def expected(name, p):
    """The raw results of one test, in the order of the test bench (b outside, a inside)."""
    a = p["a_fmt"]
    if name == "compare":
        b = p["b_fmt"]
        F, da, db = M.align(a, b)
        return {k: [int(f(x << da, y << db)) for y in vals(b) for x in vals(a)] for k, f in COMPARE.items()}
    r = p["r_fmt"]
    if name in BINARY:
        b = p["b_fmt"]
        out = []
        for sel in ((False, True) if name == "addsub" else (None,)):
            for y in vals(b):
                for x in vals(a):
                    e, F = M.op_exact(name, a, x, b, y, sel=sel)
                    out.append(M.resize_raw(e, F, r, p["rnd"], p["sat"]))
    elif name in ("abs", "neg", "shift"):
        out = []
        for x in vals(a):
            e, F = M.op_exact(name, a, x, b=p.get("shift"))
            out.append(M.resize_raw(e, F, r, p["rnd"], p["sat"]))
    elif name == "resize":
        out = [M.resize_raw(x, a[2], r, p["rnd"], p["sat"]) for x in vals(a)]
    elif name == "round":
        out = [M.round_raw(x, a[2], r[2], p["rnd"]) for x in vals(a)]
    elif name == "saturate":
        out = [M.sat_raw(x, r, p["sat"]) for x in vals(a)]
    else:
        out = [M.sat_raw(M.round_raw(x, a[2], r[2], "NonSymPos_s"), r, p["sat"]) for x in vals(a)]
    return dict(output=out)


def run_test(c):
    name = c["cosim"]
    ps = params(name)
    d = data_dir(main_tree(), name)
    elems, tags = 0, [name]
    for k in range(c["n"]):
        i = (c["start"] + k * c["step"]) % len(ps)
        p = ps[i]
        for out, exp in expected(name, p).items():
            fn = f"test{i}_{out}.txt"
            got = lines(os.path.join(d, fn), f"data of {name}")
            elems += len(exp)
            if got != list(map(str, exp)):
                j = next((j for j, (g, e) in enumerate(zip(got, exp)) if g != str(e)), min(len(got), len(exp)))
                raise Violation(f"data of {name}: {fn} for {p} differs from the exact result at value {j}: {got[j:j + 1]} instead of {exp[j:j + 1]}"
                                f" ({len(got)} values, expected {len(exp)})")
    return tags + [f"elems={elems}", "nontrivial"]


# ---- whole data sets ---------------------------------------------------------------------------

def set_case():
    return st.fixed_dictionaries(dict(cosim=st.sampled_from(sorted(SCRIPTS))))


def usable(f):
    return M.width(f) >= 1


def run_set(c):
    name = c["cosim"]
    d = data_dir(main_tree(), name)
    if name == "fileio":
        return check_fileio(d)
    ps = params(name)
    n = len(ps)
    files = set(os.listdir(d))
    want = {f"test{i}_{o}.txt" for i in range(n) for o in outputs(name)} | {k + ".txt" for k in LISTS[name]}
    if files != want:
        raise Violation(f"data of {name} for {n} tests: files missing {sorted(want - files)[:5]}, not belonging {sorted(files - want)[:5]}")
    # every combination of the observed parameters that is usable, once
    keys = LISTS[name]
    dims, build = [], []
    fields = {}
    for p in ps:
        for k in keys:
            for j, v in enumerate(p[k] if k.endswith("fmt") else [p[k]]):
                fields.setdefault((k, j), set()).add(v)
    got = {}
    for p in ps:
        t = tuple(p[k] for k in keys)
        if name == "round":
            # the result format follows from the others
            if p["r_fmt"] != M.round_fmt(p["a_fmt"], p["r_fmt"][2], p["rnd"]):
                raise Violation(f"data of round: result format {p['r_fmt']} for {p}")
            t = (p["a_fmt"], p["r_fmt"][2], p["rnd"])
        got[t] = got.get(t, 0) + 1
    twice = [t for t, k in got.items() if k > 1]
    if twice:
        raise Violation(f"data of {name}: {twice[0]} occurs {got[twice[0]]} times")
    def fmts(k):
        return [f for f in itertools.product(*(sorted(fields[k, j]) for j in range(3))) if usable(f)]
    if name == "round":
        full = itertools.product(fmts("a_fmt"), sorted(fields["r_fmt", 2]), M.ROUND)
    elif name == "saturate":
        full = ((a, r, s) for a in fmts("a_fmt") for r in {(S, I, a[2]) for S in fields["r_fmt", 0] for I in fields["r_fmt", 1]} if usable(r) for s in M.SAT)
    else:
        dom = []
        for k in keys:
            if k.endswith("fmt"):
                dom.append(fmts(k))
            elif name == "resize":
                dom.append(M.ROUND if k == "rnd" else M.SAT)
            elif name == "from_real":
                dom.append(["Sat_s", "SatWarn_s"])
            else:
                dom.append(sorted(fields[k, 0]))
        full = itertools.product(*dom)
    full = set(full)
    if full != set(got):
        miss, extra = sorted(full - set(got)), sorted(set(got) - full)
        raise Violation(f"data of {name}: {len(miss)} combinations of the parameters are missing, like {miss[:2]}; {len(extra)} are none, like {extra[:2]}")
    # both sides of the binary point, with and without sign
    for k in keys:
        if k.endswith("fmt"):
            fs = {p[k] for p in ps}
            for what, f in (("signed", lambda f: f[0] == 1), ("unsigned", lambda f: f[0] == 0), ("with a negative number of integer bits", lambda f: f[1] < 0),
                            ("with a negative number of fractional bits", lambda f: f[2] < 0), ("with integer and fractional bits", lambda f: f[1] > 0 and f[2] > 0)):
                if not any(map(f, fs)):
                    raise Violation(f"data of {name}: no {k} is {what}")
        elif k == "shift" and not (min(fields[k, 0]) < 0 < max(fields[k, 0]) and 0 in fields[k, 0]):
            raise Violation(f"data of shift: shift amounts {sorted(fields[k, 0])}")
        elif name in ("abs", "neg") and not {"rnd": {"Trunc_s", "NonSymPos_s"}, "sat": {"None_s", "Sat_s"}}[k] <= fields[k, 0]:
            raise Violation(f"data of {name}: {k} is only {sorted(fields[k, 0])}")
    return [name, f"elems={n}", "nontrivial"]


def check_fileio(d):
    import runpy
    cfg = runpy.run_path(os.path.join(main_tree(), FILEIO), run_name="cosim")["COSIM_CONFIG"]
    n = cfg["N_TESTS"]
    kinds = [f"ascii_{b}_data_{s}.txt" for b in ("bin", "dec", "hex") for s in ("signed", "unsigned")]
    files, want = set(os.listdir(d)), {f"test{i}_{k}" for i in range(n) for k in kinds + ["config.txt"]}
    if files != want:
        raise Violation(f"fileio data for N_TESTS = {n}: files missing {sorted(want - files)[:5]}, not belonging {sorted(files - want)[:5]}")
    seen, elems = set(), 0
    for i in range(n):
        what = f"fileio test {i}"
        w, cols = (int(x) for x in lines(os.path.join(d, f"test{i}_config.txt"), what))
        seen.add((w, cols))
        for s in ("signed", "unsigned"):
            data = {}
            for b, base, dig in (("bin", 2, w), ("hex", 16, -(-w // 4)), ("dec", 10, None)):
                rows = [r.split(" ") for r in lines(os.path.join(d, f"test{i}_ascii_{b}_data_{s}.txt"), what)]
                if any(len(r) != cols for r in rows):
                    raise Violation(f"{what}: {b} {s} has rows of other than {cols} columns")
                if dig and any(len(x) != dig or x.startswith("-") for r in rows for x in r):
                    raise Violation(f"{what}: {b} {s} has numbers of other than {dig} digits")
                v = [[int(x, base) for x in r] for r in rows]
                if b != "dec" and s == "signed":
                    if any(not 0 <= x < 1 << w for r in v for x in r):
                        raise Violation(f"{what}: {b} {s} is out of range")
                    v = [[x - (1 << w) if x >> (w - 1) else x for x in r] for r in v]
                data[b] = v
                elems += len(v) * cols
            if not data["bin"] == data["hex"] == data["dec"]:
                raise Violation(f"{what}: {s} data differ between the bases")
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if s == "signed" else (0, (1 << w) - 1)
            flat = [x for r in data["dec"] for x in r]
            for k in range(cols):
                col = [r[k] for r in data["dec"]]
                if min(col) != lo or max(col) != hi:
                    raise Violation(f"{what}: {s} column {k} ranges from {min(col)} to {max(col)}, not over the whole range of {w} bits")
            if len(set(flat)) < len(flat) // 2:
                raise Violation(f"{what}: {s} data have {len(set(flat))} values in {len(flat)}")
    ws, cs = {a for a, b in seen}, {b for a, b in seen}
    if len(seen) != n or seen != {(a, b) for a in ws for b in cs} or not (max(ws) > 64 and min(ws) <= 32 and 1 in cs and max(cs) > 1):
        raise Violation(f"fileio tests have widths and columns {sorted(seen)}")
    return ["fileio", f"elems={elems}", "nontrivial"]


# ---- histories ---------------------------------------------------------------------------------

steps = st.fixed_dictionaries(dict(cwd=st.sampled_from([".", "bittrue", "sim", "@own", "@other"]), how=st.sampled_from(["script", "runner", "module"]),
                                   rel=st.booleans(), seed=gen.ints(0, 9999), spoil=st.sampled_from([0, 0, 1, 2, 3, 4])))
debris = st.sampled_from(["none", "missing", "longer-run", "partial", "other-lists", "subdirectory"])


@st.composite
def again_case(draw):
    return dict(cosim=draw(st.sampled_from(FAST[:2] + FAST[:4] + FAST)), debris=draw(debris), steps=draw(st.lists(steps, min_size=1, max_size=2)),
                stop=draw(st.sampled_from([None, None, 0, 1, 5, 40])))


def digests(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = hashlib.blake2b(h.read(), digest_size=12).hexdigest()
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), d) + "/"] = ""
    return out


_ref, _n = {}, [0]


def run_again(c):
    """Whatever is left from earlier runs, and however the script is started, the data are the same."""
    name = c["cosim"]
    if name not in _ref:
        _ref[name] = digests(data_dir(main_tree(), name))
    _n[0] += 1
    tree = os.path.join(core.scratch_private(), f"tree{_n[0]}")
    make_tree(tree)
    try:
        d = data_dir(tree, name)
        if c["debris"] != "missing":
            os.makedirs(d)
        if c["debris"] == "longer-run":
            for i in (0, 1, 99999, 100000):
                with open(os.path.join(d, f"test{i}_output.txt"), "w") as f:
                    f.write("# r[1]\n0\n")
        elif c["debris"] in ("partial", "other-lists"):
            for k in ("a_fmt", "r_fmt") if c["debris"] == "partial" else ("a_fmt", "q_fmt", "rnd", "b_fmt"):
                with open(os.path.join(d, k + ".txt"), "w") as f:
                    f.write("# a\n(0, 1")
        elif c["debris"] == "subdirectory":
            os.makedirs(os.path.join(d, "old", "x"))
            with open(os.path.join(d, "old", "test0_output.txt"), "w") as f:
                f.write("1")
        others = {n: digests(os.path.join(tree, os.path.dirname(p))) for n, p in SCRIPTS.items() if n != name}
        dirs = {"@own": os.path.dirname(SCRIPTS[name]), "@other": os.path.dirname(SCRIPTS["neg" if name != "neg" else "fileio"])}
        ss = [dict(s, cwd=dirs.get(s["cwd"], s["cwd"])) for s in c["steps"]]
        if c.get("stop") is not None:
            ss.insert(0, dict(ss[0], stop=c["stop"]))       # an interrupted run comes first
        drive(tree, name, ss)
        got = digests(d)
        if got != _ref[name]:
            diff = sorted(k for k in set(got) | set(_ref[name]) if got.get(k) != _ref[name].get(k))
            raise Violation(f"{SCRIPTS[name]} run as {ss} after {c['debris']} leaves other data than a first run: {len(diff)} files, like "
                            + ", ".join(f"{k} ({'missing' if k not in got else 'not belonging' if k not in _ref[name] else 'changed'})" for k in diff[:4]))
        for n, was in others.items():
            if digests(os.path.join(tree, os.path.dirname(SCRIPTS[n]))) != was:
                raise Violation(f"{SCRIPTS[name]} changed the directory of {n}")
    finally:
        shutil.rmtree(tree, ignore_errors=True)
    return [name, c["debris"], f"elems={len(_ref[name])}"] + [s["how"] for s in c["steps"]] + ["nontrivial"] * (len(c["steps"]) > 1 or c["debris"] != "missing")


SUBS = [
    Sub("tests", test_case(), run_test, 8000, 60000),
    Sub("data-set", set_case(), run_set, 40, 40),
    Sub("again", again_case(), run_again, 40, 800, min_shard=5),
]
RULE = ("distinct cases: every block of tests and every data set of a cosim; repeated runs with something in the data directory or two runs in a row")

if __name__ == "__main__":
    raise SystemExit(core.main("C29", SUBS, RULE, ["the test points themselves (ranges of the formats) are the scripts' choice; required are signed and "
                                                   "unsigned formats and negative numbers of integer and fractional bits"], prepare=prepare))
