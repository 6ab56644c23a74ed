"""C27 The helpers from which cosimulation data is made (bittrue/cosim/cosim_utils.py)."""
import contextlib, importlib.util, io, os, re, shutil, sys
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation
from pyapi import *

_mod = []


def utils():
    if not _mod:
        spec = importlib.util.spec_from_file_location("verif_cosim_utils", os.path.join(core.REPO, "bittrue", "cosim", "cosim_utils.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mod.append(m)
    return _mod[0]


# ---- every value of a format, and all combinations ---------------------------------------------

@st.composite
def small(draw, w):
    S = draw(gen.ints(0, 1))
    n = draw(gen.ints(1, w))
    F = draw(st.one_of(gen.ints(0, n), gen.ints(-8, n + 8), gen.ints(-45, 45)))
    return gen.legal(S, n - S - F, F)


@st.composite
def data_case(draw):
    return dict(f=draw(st.one_of(small(13), small(13), small(20))))


def run_data(c):
    f = tuple(c["f"])
    what = f"get_data({f})"
    x = call(what, utils().get_data, fmt(f))
    if M.width(f) > 13:
        # too many for a check element by element: the data is exact in floating point
        if not isinstance(x, np.ndarray) or x.dtype != np.float64 or not np.array_equal(np.ldexp(x, f[2]), np.arange(M.lo(f), M.hi(f) + 1)):
            raise Violation(f"{what}: {x!r} is not every value of the format in ascending order")
        return ["large", "nontrivial"]
    g, s = decode(what, x, f)
    exp = list(range(M.lo(f), M.hi(f) + 1))
    if g != exp or s != (len(exp),):
        raise Violation(f"{what}: {len(g)} values {g[:6]}..{g[-6:]} of shape {s}, expected all {len(exp)} from {exp[0]} to {exp[-1]}")
    return [f"elems={len(g)}"] + ["negative-I-or-F"] * (f[1] < 0 or f[2] < 0) + ["nontrivial"]


@st.composite
def comb_case(draw):
    kind = draw(st.sampled_from(["data", "data", "ints", "wide", "formats"]))
    if kind == "data":
        return dict(kind=kind, a=draw(small(6)), b=draw(small(6)))
    if kind == "wide":
        f = (1, 70, 3)
        return dict(kind=kind, a=draw(st.lists(gen.raw(f), min_size=1, max_size=9)), b=draw(st.lists(gen.raw(f), min_size=1, max_size=9)))
    v = gen.ints(-2**62, 2**62)
    return dict(kind=kind, a=draw(st.lists(v, min_size=1, max_size=30)), b=draw(st.lists(v, min_size=1, max_size=30)))


def run_comb(c):
    u = utils()
    if c["kind"] == "data":
        a, b = (u.get_data(fmt(tuple(c[k]))) for k in "ab")
    elif c["kind"] == "wide":
        a, b = wide_arr(c["a"]), wide_arr(c["b"])
    else:
        a, b = np.array(c["a"]), np.array(c["b"])
    what = f"all combinations of {list(a)[:9]} and {list(b)[:9]}"
    keep = list(a), list(b)
    x = call(what, u.repeat_each_value, a, len(b))
    y = call(what, u.repeat_whole_array, b, len(a))
    if any(isinstance(z, np.ndarray) and np.shares_memory(z, v) for z in (x, y) for v in (a, b)):
        raise Violation(f"{what}: the result shares storage with an input")
    if (list(a), list(b)) != keep:
        raise Violation(f"{what}: an input was modified")
    exp = [(p, q) for p in a for q in b]
    got = list(zip(x, y))
    if x.shape != (len(exp),) or y.shape != (len(exp),) or any(p != r or q != s for (p, q), (r, s) in zip(got, exp)):
        raise Violation(f"{what}: got {len(got)} pairs {got[:12]}, expected {len(exp)} pairs {exp[:12]}")
    if x.dtype != a.dtype or y.dtype != b.dtype:
        raise Violation(f"{what}: element types {x.dtype} and {y.dtype} instead of {a.dtype} and {b.dtype}")
    return [f"elems={len(exp)}", c["kind"]] + ["nontrivial"] * (len(a) > 1 and len(b) > 1)


# ---- progress report ---------------------------------------------------------------------------

@st.composite
def progress_case(draw):
    return dict(n=draw(st.lists(st.one_of(gen.ints(1, 4), gen.ints(1, 12), gen.ints(1, 120)), min_size=1, max_size=2)),
                message=draw(st.sampled_from([None, "Working", "", "50%... Done."])))


def run_progress(c):
    total = 1
    for k in c["n"]:
        total *= k
    kw = {} if c["message"] is None else dict(message=c["message"])
    msg = "Generating cosim data" if c["message"] is None else c["message"]
    what = f"ProgressReporter for {'x'.join(map(str, c['n']))} steps"
    p = call(what, utils().ProgressReporter, tuple(list(range(k)) for k in c["n"]), **kw)
    steps = [""] * total
    for i in range(total):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            call(what, p.report)
        steps[i] = out.getvalue()
    if not steps[0].startswith(msg + ": "):
        raise Violation(f"{what}: starts with {steps[0]!r}")
    steps[0] = steps[0][len(msg) + 2:]
    if not steps[-1].endswith("Done.\n"):
        raise Violation(f"{what}: the last step prints {steps[-1]!r}")
    steps[-1] = steps[-1][:-len("Done.\n")]
    shown = []
    for i, s in enumerate(steps):
        if not re.fullmatch(r"(\d+%\.\.\.)*", s):
            raise Violation(f"{what}: step {i + 1} prints {s!r}")
        for k in map(int, re.findall(r"\d+", s)):
            if k * total > 100 * (i + 1) or (shown and k <= shown[-1]) or k % 10:
                raise Violation(f"{what}: step {i + 1} of {total} reports {k}% after {shown}")
            shown.append(k)
    return [f"elems={total}"] + ["nontrivial"] * (total > 1) + ["more-than-ten"] * (total > 10)


# ---- clearing a directory ----------------------------------------------------------------------
# Whatever the code tries to delete, create or rename outside the directory made for the case is refused (and reported).

_guard = dict(root=None, tried=[])
_EVENTS = {"os.remove", "os.rmdir", "os.mkdir", "os.rename", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "shutil.rmtree",
           "shutil.move", "open", "os.system", "subprocess.Popen", "os.exec", "os.posix_spawn"}


def _audit(event, args):
    if _guard["root"] is None or event not in _EVENTS:
        return
    if event == "open" and (not isinstance(args[0], (str, bytes)) or not (args[2] or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
        return
    if event in ("os.system", "subprocess.Popen", "os.exec", "os.posix_spawn"):
        _guard["tried"].append(f"{event} {args}")
        raise PermissionError("refused by the check")
    for x in args[:2]:
        if isinstance(x, (str, bytes, os.PathLike)):
            p = os.fsdecode(x)
            if not os.path.isabs(p):
                # relative to a directory descriptor opened below the (already checked) root: rmtree; or to the working directory
                fd = args[-1]
                base = os.readlink(f"/proc/self/fd/{fd}") if isinstance(fd, int) and fd >= 0 else os.getcwd()
                p = os.path.join(base, p)
            p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
            if p != _guard["root"] and not p.startswith(_guard["root"] + os.sep):
                _guard["tried"].append(f"{event} {p}")
                raise PermissionError("refused by the check")


def prepare_guard():
    sys.addaudithook(_audit)


names = st.sampled_from(["a", "b.txt", ".hidden", "data", "x y", "c"])


def tree(depth):
    leaf = st.sampled_from(["file", "empty-file", "link", "dir-link", "dangling", "read-only"])
    return st.dictionaries(names, leaf if depth == 0 else st.one_of(leaf, tree(depth - 1)), max_size=4)


@st.composite
def clear_case(draw):
    return dict(exists=draw(gen.ints(0, 3)) > 0, tree=draw(tree(2)), slash=draw(gen.ints(0, 3)) == 0, again=draw(gen.ints(0, 2)))


def make_tree(d, t, out):
    n = 0
    for k, v in t.items():
        p = os.path.join(d, k)
        n += 1
        if isinstance(v, dict):
            os.mkdir(p)
            n += make_tree(p, v, out)
        elif v in ("file", "empty-file", "read-only"):
            with open(p, "w") as f:
                f.write("" if v == "empty-file" else k)
            if v == "read-only":
                os.chmod(p, 0o444)
        else:
            os.symlink({"link": os.path.join(out, "keep.txt"), "dir-link": out, "dangling": os.path.join(out, "none")}[v], p)
    return n


_n = [0]


def run_clear(c):
    _n[0] += 1
    top = os.path.join(os.path.realpath(core.scratch_private()), f"clear{_n[0]}")
    data, other, out = (os.path.join(top, "cosim", k) for k in ("data", "data2", "out"))
    os.makedirs(other)
    os.makedirs(out)
    for p in (os.path.join(other, "keep.txt"), os.path.join(out, "keep.txt")):
        with open(p, "w") as f:
            f.write("kept")
    n = 0
    if c["exists"]:
        os.mkdir(data)
        n = make_tree(data, c["tree"], out)
    what = f"clear_directory of {'a directory holding ' + str(c['tree']) if c['exists'] else 'a missing directory'}"
    utils()
    try:
        for _ in range(1 + c["again"]):
            _guard.update(root=data, tried=[])
            try:
                call(what, utils().clear_directory, data + "/" * c["slash"])
            except Violation as v:
                raise Violation(f"{v}; refused: {_guard['tried']}") if _guard["tried"] else v
            finally:
                _guard["root"] = None
            if _guard["tried"]:
                raise Violation(f"{what} tried {_guard['tried']}")
            if not os.path.isdir(data) or os.path.islink(data) or os.listdir(data):
                raise Violation(f"{what}: afterwards it {'holds ' + str(os.listdir(data)) if os.path.isdir(data) else 'does not exist'}")
            for p in (os.path.join(other, "keep.txt"), os.path.join(out, "keep.txt")):
                if not os.path.exists(p):
                    raise Violation(f"{what}: a file elsewhere is gone: {p}")
            if c["again"]:
                with open(os.path.join(data, "new.txt"), "w") as f:
                    f.write("x")
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return [f"elems={1 + c['again']}"] + ["missing"] * (not c["exists"]) + ["nontrivial"] * (n > 1)


SUBS = [
    Sub("get-data", data_case(), run_data, 2000, 20000),
    Sub("combinations", comb_case(), run_comb, 2000, 30000),
    Sub("progress", progress_case(), run_progress, 600, 10000),
    Sub("clear-directory", clear_case(), run_clear, 1500, 20000),
]
RULE = ("distinct cases: every format of get_data; combinations of two arrays of two or more elements; progress over two or more steps; "
        "directories with two or more entries")

if __name__ == "__main__":
    raise SystemExit(core.main("C27", SUBS, RULE, ["get_data up to 20 bits"], prepare=prepare_guard))
