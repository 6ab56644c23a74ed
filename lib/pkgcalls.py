"""Descriptions of calls of the Python package that can be executed on any instance of it (C30).

A step is a JSON-able dict; execute(K, step, env) runs it on package K and returns a canonical description of everything
observable about the outcome. An Env supplies the argument objects: new ones for every call, or the same ones again with other contents.
"""
import importlib, os, random, sys, warnings
from hypothesis import strategies as st
import numpy as np
import core, gen, ops, model as M
from core import Violation
from pyapi import shaped, flat_arr, wide_arr, narrow_arr

HOME = os.path.join(os.path.abspath(core.REPO), "bittrue", "models", "python")


def fresh():
    """A new instance of the package, with the state it has after import."""
    drop()
    return importlib.import_module("en_cl_fix_pkg")


def drop():
    for n, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None)
        if n == "en_cl_fix_pkg" or n.startswith("en_cl_fix_pkg.") or (f and os.path.abspath(f).startswith(HOME + os.sep)):
            del sys.modules[n]


# ---------------------------------------------------------------------------------------------------------------- arguments

class Env:
    """Argument objects. reuse: the same array, format and value objects for all calls, with the contents of the current call."""
    def __init__(self, K, reuse=False, keep_objects=False):
        self.K, self.reuse, self.keep_objects = K, reuse, keep_objects
        self.arrays, self.formats, self.objects = {}, {}, {}
        self.begin()

    def begin(self):
        self.given, self.count = [], 0

    def arr(self, x):
        if isinstance(x, np.ndarray):
            if self.reuse:
                key = (self.count, x.dtype.str, x.shape, x.strides)
                if key in self.arrays:
                    self.arrays[key][...] = x
                x = self.arrays.setdefault(key, x)
            self.count += 1
            self.given.append(x)
        return x

    def fmt(self, f):
        if self.reuse:
            o = self.formats.get(self.count)
            if o is None:
                o = self.formats[self.count] = self.K.FixFormat(*f)
            o.S, o.I, o.F = f
        else:
            o = self.K.FixFormat(*f)
        self.count += 1
        self.given.append(o)
        return o

    def obj(self, cls, ns, f, lay):
        key = (cls.__name__, tuple(ns), tuple(f), lay)
        if self.keep_objects and key in self.objects:
            return self.objects[key]
        x = shaped(wide_arr(ns) if cls is self.K.WideFix else narrow_arr(ns, f), lay)
        o = cls(self.arr(x) if isinstance(x, np.ndarray) else x, self.fmt(f))
        self.objects[key] = o
        return o


class SharedEnv(Env):
    """Threads: equal arrays and value objects are the same object for all threads, and are only read."""
    def __init__(self, K, arrays, objects):
        super().__init__(K, keep_objects=True)
        self.shared, self.objects = arrays, objects

    def arr(self, x):
        if isinstance(x, np.ndarray):
            key = (x.dtype.str, x.shape, x.strides, tuple(x.flat))
            x = self.shared.setdefault(key, x)
        return x


def data(env, ns, f, lay):
    x = shaped(flat_arr(ns, f), lay)
    if lay == "list" and x.dtype != object:
        return x.tolist()
    return env.arr(x)


# ------------------------------------------------------------------------------------------------------------------ results

def enc(K, v, out=None):
    """Canonical description; the mutable objects of the result are appended to out."""
    if isinstance(v, np.ndarray):
        if out is not None:
            out.append(v)
        return ["array", v.dtype.str, list(v.shape), [enc(K, x) for x in v.flat]]
    if isinstance(v, K.FixFormat):
        if out is not None:
            out.append(v)
        return ["FixFormat", v.S, v.I, v.F]
    if isinstance(v, (K.NarrowFix, K.WideFix)):
        return [type(v).__name__, enc(K, v.fmt, out), enc(K, v.data, out)]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [enc(K, x, out) for x in v]
    if isinstance(v, (bool, int, str)) or v is None:
        return [type(v).__name__, str(v)]
    if isinstance(v, float):
        return [type(v).__name__, float(v).hex()]
    return [type(v).__name__, repr(v)]


def spoil(things):
    """Overwrites arrays and formats, which belong to the caller."""
    for t in things:
        if isinstance(t, np.ndarray):
            if t.flags.writeable:
                t[...] = True if t.dtype == np.bool_ else 77
        elif not isinstance(t, (int, float)):
            t.S, t.I, t.F = 1, 17, -16


DEFAULTS = (np.geterr(), {k: v for k, v in np.get_printoptions().items() if k != "override_repr"}, list(sys.path), list(warnings.filters), os.getcwd())


class Settings:
    """Global settings a library must leave alone."""
    def __init__(self):
        self.v = self.read()

    @staticmethod
    def read():
        g = np.random.get_state()
        return {"numpy error handling": str(sorted(np.geterr().items())), "print options": str(sorted(np.get_printoptions().items(), key=str)),
                "warning filters": str(warnings.filters), "sys.path": str(sys.path), "working directory": os.getcwd(),
                "recursion limit": sys.getrecursionlimit(), "state of random": hash(random.getstate()),
                "state of numpy.random": hash((g[1].tobytes(), g[2:]))}

    def restore(self):
        np.seterr(**DEFAULTS[0])
        np.set_printoptions(**DEFAULTS[1])
        sys.path[:] = DEFAULTS[2]
        warnings.filters[:] = DEFAULTS[3]
        os.chdir(DEFAULTS[4])

    def check(self, what, draws=False):
        now = self.read()
        for k in now:
            if now[k] != self.v[k] and not (draws and k.startswith("state of")):
                raise Violation(f"{what} changed a global setting: {k}")
        self.v = now


def perform(K, s, env):
    """Executes a step, returns the raw result."""
    k = s["k"]
    if k in ("op", "cls"):
        c = s["c"]
        op, a, lay = c["op"], tuple(c["a"]), c["lay"]
        more = [] if c["r"] is None else [env.fmt(c["r"]), getattr(K.FixRound, c["rnd"]), getattr(K.FixSaturate, c["sat"])]
        sel = []
        if op == "addsub":
            sel = [ops.selector(c, None, lay)]
        elif op == "shift":
            sel = [ops.shift_arg(c, lay)]
        sel = [env.arr(v) for v in sel]
        bc = c.get("bc", "no")
        if k == "op":
            args = [data(env, c["x"][:1] if "a" in bc else c["x"], a, "scalar" if "a" in bc else lay), env.fmt(a)]
            if op in ops.BINARY:
                args += [data(env, c["y"][:1] if "b" in bc else c["y"], tuple(c["b"]), "scalar" if "b" in bc else lay), env.fmt(c["b"])]
            if c["r"] is None and op == "shift":
                more = [None]
            return getattr(K, "cl_fix_" + op)(*args, *sel, *more)
        cls = K.WideFix if s["wide"] else K.NarrowFix
        cl = "0d" if lay == "scalar" else lay
        o = env.obj(cls, c["x"][:1] if "a" in bc else c["x"], a, "0d" if "a" in bc else cl)
        args = []
        if op in ops.BINARY:
            args = [env.obj(cls, c["y"][:1] if "b" in bc else c["y"], tuple(c["b"]), "0d" if "b" in bc else cl)]
        return getattr(o, op)(*args, *sel, *more)
    if k == "conv":
        c = s["c"]
        f, a, r, lay = c["fn"], tuple(c["a"]), tuple(c["r"]), c["lay"]
        rnd, sat = getattr(K.FixRound, c["rnd"]), getattr(K.FixSaturate, c["sat"])
        if f == "from_real":
            x = env.arr(shaped(np.array([n * 2.0 ** -(min(max(a[2], -500), 500) + 1) for n in c["x"]]), lay))
            return K.cl_fix_from_real(x, env.fmt(r), sat if c["sat"] in ("Sat_s", "SatWarn_s") else K.FixSaturate.Sat_s)
        if f == "from_integer":
            x = shaped(wide_arr(c["x"]), lay)
            if not M.is_wide(a) and lay != "scalar":
                x = x.astype(np.int64)
            return K.cl_fix_from_integer(env.arr(x), env.fmt(a))
        if "wide" in s:
            o = env.obj(K.WideFix if s["wide"] else K.NarrowFix, c["x"], a, "0d" if lay == "scalar" else lay)
            if f == "round":
                return o.round(env.fmt(M.round_fmt(a, c["rF"], c["rnd"])), rnd)
            if f == "saturate":
                return o.saturate(env.fmt(gen.legal(r[0], r[1], a[2])), sat)
            if f == "in_range" and not s["wide"]:
                return o.in_range(env.fmt(r), rnd)
            if f in ("to_real", "to_integer"):
                return o.to_real() if s["wide"] else o.to_integer()
            return o.resize(env.fmt(r), rnd, sat)
        x = data(env, c["x"], a, lay)
        if f == "round":
            return K.cl_fix_round(x, env.fmt(a), env.fmt(M.round_fmt(a, c["rF"], c["rnd"])), rnd)
        if f == "saturate":
            return K.cl_fix_saturate(x, env.fmt(a), env.fmt(gen.legal(r[0], r[1], a[2])), sat)
        if f == "resize":
            return K.cl_fix_resize(x, env.fmt(a), env.fmt(r), rnd, sat)
        if f == "in_range":
            return K.cl_fix_in_range(x, env.fmt(a), env.fmt(r), rnd)
        return getattr(K, "cl_fix_" + f)(x, env.fmt(a))
    if k == "fmt":
        a, b, n = tuple(s["a"]), tuple(s["b"]), s["fn"]
        if n in ("neg", "abs"):
            return getattr(K, f"cl_fix_{n}_fmt")(env.fmt(a))
        if n == "shift":
            return K.cl_fix_shift_fmt(env.fmt(a), *s["s"])
        if n == "round":
            return K.cl_fix_round_fmt(env.fmt(a), s["rF"], getattr(K.FixRound, s["rnd"]))
        if n == "unions":
            return K.cl_fix_union_fmt([env.fmt(a), env.fmt(b), env.fmt(a)])
        return getattr(K, f"cl_fix_{n}_fmt")(env.fmt(a), env.fmt(b))
    if k == "bounds":
        f = s["a"]
        out = [K.cl_fix_max_value(env.fmt(f)), K.cl_fix_min_value(env.fmt(f)), K.WideFix.max_value(env.fmt(f)), K.WideFix.min_value(env.fmt(f)),
               K.cl_fix_zeros(tuple(s["shape"]), env.fmt(f)), K.cl_fix_width(env.fmt(f)), K.cl_fix_is_wide(env.fmt(f)),
               K.cl_fix_format_to_string(env.fmt(f)), repr(env.fmt(f))]
        if not M.is_wide(f):
            out += [K.NarrowFix.max_value(env.fmt(f)), K.NarrowFix.min_value(env.fmt(f))]
        return out
    if k == "rand":
        random.seed(s["seed"])
        np.random.seed(s["seed"])
        return K.cl_fix_random(tuple(s["shape"]), env.fmt(s["a"]))
    if k == "cmp":
        cls = K.WideFix if s["wide"] else K.NarrowFix
        x, y = env.obj(cls, s["x"], s["a"], "1d"), env.obj(cls, s["y"], s["b"], "1d")
        out = [x == y, x != y, x < y, x <= y, x > y, x >= y, len(x), str(x), repr(y), x.in_range(env.fmt(s["b"]), getattr(K.FixRound, s["rnd"]))
               if not s["wide"] else None]
        if s["wide"]:
            out += K.WideFix.align_binary_points([x, y])
        return out
    if k == "words":
        o = env.obj(K.WideFix, s["x"], s["a"], "1d")
        w = o.to_uint64_array()
        out = [w, K.WideFix.from_uint64_array(env.arr(w.copy()), env.fmt(s["a"])), o.to_real()]
        if M.is_wide(s["a"]):
            m = K.to_uint64_array(env.arr(wide_arr(s["x"])), env.fmt(s["a"]))
            out += [m, K.from_uint64_array(env.arr(m.copy()), env.fmt(s["a"]))]
        return out
    if k == "file":
        env.files = getattr(env, "files", 0) + 1
        p = os.path.join(core.scratch_private(), f"formats{id(env)}_{env.files}.txt")
        try:
            K.cl_fix_write_formats([env.fmt(s["a"]), env.fmt(s["b"]), env.fmt(s["a"])], ["a_fmt", "b_fmt", "c_fmt"], p)
            with open(p) as f:
                return f.read()
        finally:
            if os.path.exists(p):
                os.unlink(p)
    # calls which must be refused
    a = tuple(s["a"])
    if s["fn"] == "format":
        return K.FixFormat(a[0], a[1], -a[1] - 1)
    if s["fn"] == "round":
        f = env.fmt(a)
        f2 = env.fmt((a[0], a[1] + 2, a[2]))
        return K.cl_fix_round(data(env, s["x"], a, "1d"), f, f2, K.FixRound.Trunc_s)
    if s["fn"] == "saturate":
        return K.cl_fix_saturate(data(env, s["x"], a, "1d"), env.fmt(a), env.fmt((a[0], a[1] + 1, a[2] + 1)), K.FixSaturate.Warn_s)
    if s["fn"] == "kind":
        x = narrow_arr([1], (0, 1, 0)) if M.is_wide(a) else wide_arr(s["x"])
        return K.cl_fix_add(env.arr(x), env.fmt(a), env.arr(x), env.fmt(a))
    if s["fn"] == "real":
        return K.cl_fix_from_real(env.arr(np.array([0.5, 1e9])), env.fmt(a), K.FixSaturate.None_s)
    return K.cl_fix_from_integer(env.arr(np.array([M.hi(a) + 1], dtype=object)), env.fmt(a))


def execute(K, s, env, warn=True):
    """-> (description of the outcome, mutable objects returned)"""
    env.begin()
    out = []
    if not warn:
        try:
            return dict(result=enc(K, perform(K, s, env), out)), out
        except Exception as e:
            return dict(error=type(e).__name__), out
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        try:
            d = dict(result=enc(K, perform(K, s, env), out))
        except Exception as e:
            d = dict(error=type(e).__name__)
    d["warnings"] = sorted([w.category.__name__, str(w.message)] for w in log)
    return d, out


# --------------------------------------------------------------------------------------------------------------- generators

CLASS_CONV = ["round", "saturate", "resize", "in_range", "to_real", "to_integer"]
FMT_FNS = ["add", "sub", "addsub", "mult", "neg", "abs", "shift", "round", "union", "unions"]
REFUSED = ["format", "round", "saturate", "kind", "real", "integer"]


@st.composite
def base(draw, unary, seeded=True):
    """A step of any kind."""
    k = draw(st.sampled_from(["op", "op", "op", "cls", "cls", "cls", "conv", "conv", "conv", "fmt", "fmt", "bounds", "rand", "cmp", "words", "file", "refused"]))
    if k == "rand" and not seeded:
        k = "bounds"
    if k in ("op", "cls"):
        c = draw(ops.op_case(("add", "sub", "addsub", "mult", "neg", "abs", "shift"), max_w=80, long=False))
        return dict(k=k, c=c, wide=draw(st.booleans()))
    if k == "conv":
        s = dict(k=k, c=draw(unary))
        if draw(st.booleans()) and s["c"]["fn"] in CLASS_CONV:
            c = s["c"]
            s["wide"] = draw(st.booleans()) or any(M.is_wide(f) for f in (c["a"], c["r"], gen.legal(c["r"][0], c["r"][1], c["a"][2]),
                                                                          M.round_fmt(tuple(c["a"]), c["r"][2], "ConvOdd_s"),
                                                                          M.round_fmt(tuple(c["a"]), c["rF"], "ConvOdd_s")))
        return s
    f = gen.fmts(max_w=100, far=False)
    a, b = draw(f), draw(f)
    s = dict(k=k, a=a, b=b)
    if k == "fmt":
        s.update(fn=draw(st.sampled_from(FMT_FNS)), rnd=draw(gen.rounds), rF=a[2] + draw(gen.ints(-5, 3)),
                 s=sorted([draw(gen.ints(-9, 9)), draw(gen.ints(-9, 9))]))
    elif k in ("bounds", "rand"):
        s.update(shape=draw(st.sampled_from([(1,), (3,), (2, 2), ()])), seed=draw(gen.ints(0, 99)))
    elif k in ("cmp", "words"):
        s.update(x=draw(st.lists(gen.raw(a), min_size=2, max_size=2)), y=draw(st.lists(gen.raw(b), min_size=2, max_size=2)),
                 wide=draw(st.booleans()) or M.is_wide(a) or M.is_wide(b), rnd=draw(gen.rounds))
    elif k == "refused":
        s.update(fn=draw(st.sampled_from(REFUSED)), x=draw(st.lists(gen.raw(a), min_size=1, max_size=2)))
    return s


@st.composite
def changed(draw, s, unary):
    """The step with something about it changed."""
    s = dict(s)
    what = draw(gen.ints(0, 7))
    if s["k"] in ("op", "cls", "conv"):
        c = s["c"] = dict(s["c"])
        if what == 0:
            c["rnd"] = draw(gen.rounds)
        elif what == 1:
            c["sat"] = draw(gen.sats)
        elif what == 2:
            c["lay"] = draw(gen.layouts) if c["op" if s["k"] != "conv" else "fn"] != "shift" else c["lay"]
        elif what == 3:
            c["rnd"], c["sat"] = draw(gen.rounds), draw(gen.sats)
            if c["r"] is not None:
                d = draw(st.sampled_from([(0, 1, 0), (0, -1, 0), (0, 1, -1), (0, -1, 1), (0, 0, 1), (1, 0, 0), (1, -1, 0)]))
                r = c["r"]
                c["r"] = gen.legal((r[0] + d[0]) % 2, r[1] + d[1], r[2] + d[2])
        elif what == 4:
            n = len(c["x"])
            if not (s["k"] != "conv" and c["op"] == "shift"):
                c["x"] = draw(st.lists(gen.raw(tuple(c["a"])), min_size=n, max_size=n))
        elif what == 5 and s["k"] != "conv":
            s["k"] = "cls" if s["k"] == "op" else "op"
        elif what == 6 and s["k"] != "conv" and c["op"] in ("add", "sub", "mult", "addsub", "neg", "abs"):
            c["op"] = draw(st.sampled_from(["neg", "abs"] if c["op"] in ("neg", "abs") else ["add", "sub", "mult"]))
        else:       # the same raw values with another binary point
            d = draw(st.sampled_from([-2, -1, 1, 2]))
            a = c["a"]
            if not (s["k"] != "conv" and c["op"] == "shift") and s["k"] != "conv":
                c["a"] = (a[0], a[1] - d, a[2] + d)
        return s
    if what <= 1:
        a = s["a"]
        if s["k"] not in ("cmp", "words", "refused"):
            s["a"] = gen.legal(1 - a[0], a[1] + (1 if a[0] else -1), a[2]) if what else gen.legal(a[0], a[1] - 1, a[2] + 1)
    elif what == 2 and "b" in s and "x" not in s:
        s["a"], s["b"] = s["b"], s["a"]
    elif what == 3 and "rnd" in s:
        s["rnd"] = draw(gen.rounds)
    elif what == 4 and s["k"] == "fmt":
        s["fn"] = draw(st.sampled_from(FMT_FNS))
    elif what == 5 and "seed" in s:
        s["seed"] = draw(gen.ints(0, 99))
    elif what == 6 and "x" in s:
        s["x"] = draw(st.lists(gen.raw(tuple(s["a"])), min_size=len(s["x"]), max_size=len(s["x"])))
    return s


@st.composite
def steps(draw, unary, n, seeded=True):
    out = [draw(base(unary, seeded))]
    for _ in range(draw(gen.ints(1, n - 1))):
        k = draw(gen.ints(0, 9))
        if k <= 1:
            out.append(draw(base(unary, seeded)))
        elif k <= 3:
            out.append(draw(st.sampled_from(out)))
        else:
            out.append(draw(changed(draw(st.sampled_from(out)), unary)))
    return [s for s in out if legal(s)] or [dict(k="fmt", fn="add", a=(0, 1, 0), b=(0, 1, 0))]


@st.composite
def same_data(draw):
    """Calls on the same data: functions and methods of the same objects, with changing parameters."""
    a = draw(gen.fmts(max_w=30 if draw(gen.ints(0, 2)) else 80, far=False))
    r = draw(gen.rel_fmts(a, max_w=80))
    x = draw(st.lists(gen.raw(a, r), min_size=1, max_size=4))
    lay = draw(gen.layouts)
    rs = [r, r, gen.legal(1 - r[0], r[1], r[2]), gen.legal(r[0], r[1] + draw(st.sampled_from([-1, 1])), r[2]),
          gen.legal(r[0], r[1], r[2] + draw(st.sampled_from([-1, 1])))]
    fns = draw(st.lists(st.sampled_from(CLASS_CONV + ["neg", "abs", "shift", "round", "saturate", "resize", "in_range"]), min_size=1, max_size=3))
    how = draw(st.sampled_from(["function", "narrow", "wide", "any"]))
    out = []
    for _ in range(draw(gen.ints(2, 7))):
        fn, q = draw(st.sampled_from(fns)), draw(st.sampled_from(rs))
        c = dict(a=a, r=q, rF=q[2], rnd=draw(gen.rounds), sat=draw(gen.sats), x=x, lay=lay)
        h = draw(st.sampled_from(["function", "narrow", "wide"])) if how == "any" else how
        if fn in ("neg", "abs", "shift"):
            c.update(op=fn)
            if fn == "shift":
                c.update(s=draw(gen.ints(-3, 3)), sdt="int")
            s = dict(k="op" if h == "function" else "cls", c=c, wide=h == "wide")
        else:
            c.update(fn=fn)
            s = dict(k="conv", c=c)
            if h != "function":
                s["wide"] = h == "wide" or any(M.is_wide(f) for f in (a, q, gen.legal(q[0], q[1], a[2]), M.round_fmt(a, q[2], "ConvOdd_s")))
        if legal(s):
            out.append(s)
    return out or [dict(k="fmt", fn="add", a=(0, 1, 0), b=(0, 1, 0))]


def legal(s):
    """Whether the step can be built at all, without library code."""
    if s["k"] in ("op", "cls"):
        c = s["c"]
        if not ops.legal_case(c):
            return False
        if s["k"] == "cls" and not s["wide"] and not ops.narrow_ok(c):
            s["wide"] = True
        return True
    if s["k"] == "fmt" and s["fn"] == "shift":
        f = M.shift_fmt(tuple(s["a"]), *s["s"])
        return f[1] + f[2] >= 0
    return True
