"""Adapter between raw integers and the Python model of en_cl_fix (the code under test)."""
import os, sys, math, warnings
import numpy as np
import core
from core import Violation
import model as M

sys.path.insert(0, os.path.join(core.REPO, "bittrue", "models", "python"))
try:
    import en_cl_fix_pkg as K
except Exception as e:      # the package itself is broken
    raise SystemExit(f"cannot import en_cl_fix_pkg: {e!r}")
if not os.path.abspath(K.__file__).startswith(os.path.abspath(core.REPO) + os.sep):
    raise SystemExit(f"wrong en_cl_fix_pkg: {K.__file__}")

warnings.simplefilter("ignore")
FF, NarrowFix, WideFix = K.FixFormat, K.NarrowFix, K.WideFix
RND = {r: getattr(K.FixRound, r) for r in M.ROUND}
SAT = {s: getattr(K.FixSaturate, s) for s in M.SAT}


def fmt(f):
    return FF(f[0], f[1], f[2])


def tup(f):
    """FixFormat -> tuple"""
    if not isinstance(f, FF):
        raise Violation(f"a FixFormat was expected, got {f!r}")
    return (f.S, f.I, f.F)


def call(what, fn, *args, **kw):
    """Calls the code under test: an exception on legal input is a violation."""
    try:
        return fn(*args, **kw)
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}", key=f"raises:{type(e).__name__}")


def rejected(what, fn, *args, **kw):
    """The call must be refused with an error."""
    try:
        r = fn(*args, **kw)
    except Exception:
        return
    raise Violation(f"{what} was not rejected but returned {r!r}")


def one(n, f):
    """A single value in the representation of its format, as a Python number."""
    return int(n) if M.is_wide(f) else math.ldexp(float(n), -f[2])


def narrow_arr(ns, f):
    return np.ldexp(np.array([float(n) for n in ns], dtype=np.float64), -f[2])


def wide_arr(ns):
    x = np.empty(len(ns), dtype=object)
    for i, n in enumerate(ns):
        x[i] = int(n)
    return x


def flat_arr(ns, f, wide=None):
    return wide_arr(ns) if (M.is_wide(f) if wide is None else wide) else narrow_arr(ns, f)


def shaped(x, lay):
    """Gives a flat array (logical order preserved) the requested layout."""
    n = len(x)
    if lay == "scalar":
        v = x[0]
        if x.dtype == object or (x.dtype == np.float64 and math.frexp(v)[1] % 3 == 1):
            return v            # Python int, or (for some values) a numpy scalar
        return float(v)
    if lay == "0d":
        return np.array(x[0], dtype=x.dtype)
    if lay == "rev":
        return x[::-1].copy()[::-1]
    if lay == "strided":
        y = np.repeat(x, 3)
        return y[1::3]
    if lay == "2d":
        if n % 2 == 0:
            return x.reshape(2, n // 2)
        return x.reshape(n, 1)
    if lay == "2df":          # Fortran order
        if n % 2 == 0:
            return np.asfortranarray(x.reshape(2, n // 2))
        return x.reshape(1, n)
    if lay == "3d":
        if n % 2 == 0:
            return x.reshape(n // 2, 1, 2)
        return x.reshape(1, n, 1)
    return x


def api(ns, f, lay="1d", wide=None):
    x = shaped(flat_arr(ns, f, wide), lay)
    return x.tolist() if lay == "list" and x.dtype != object else x


def expect_n(ns, lay):
    """The raw values present in that layout."""
    return ns[:1] if lay in ("scalar", "0d") else ns


def wclass(ns, f, lay="1d"):
    """WideFix object (any width)."""
    return WideFix(shaped(wide_arr(ns), lay), fmt(f))


def nclass(ns, f, lay="1d"):
    return NarrowFix(shaped(narrow_arr(ns, f), lay), fmt(f))


def decode(what, out, f, wide=None, check_range=True):
    """API data -> (flat list of raws, shape), enforcing the representation of the format."""
    wide = M.is_wide(f) if wide is None else wide
    if wide:
        if isinstance(out, np.ndarray):
            if out.dtype != object:
                raise Violation(f"{what}: result in {f} must be exact integers, got dtype {out.dtype}")
            vals, shape = list(out.flat), out.shape
        else:
            vals, shape = [out], ()
        for v in vals:
            if type(v) is not int:
                raise Violation(f"{what}: result in {f} must be Python ints, got {type(v).__name__} {v!r}")
    else:
        if isinstance(out, np.ndarray):
            if out.dtype != np.float64:
                raise Violation(f"{what}: result in {f} must be float64, got dtype {out.dtype}")
            fl, shape = [float(v) for v in out.flat], out.shape
        elif isinstance(out, float):
            fl, shape = [float(out)], ()
        else:
            raise Violation(f"{what}: result in {f} must be float64, got {type(out).__name__} {out!r}")
        vals = []
        for v in fl:
            if not math.isfinite(v):
                raise Violation(f"{what}: result in {f} is {v!r}")
            s = math.ldexp(v, f[2])
            if s != math.floor(s):
                raise Violation(f"{what}: {v!r} is not a multiple of 2**-{f[2]} (format {f})")
            vals.append(int(s))
    if check_range:
        for v in vals:
            if not M.fits(v, f):
                raise Violation(f"{what}: raw value {v} is outside format {f}")
    return vals, shape


def shape_of(x):
    return x.shape if isinstance(x, np.ndarray) else (len(x),) if isinstance(x, list) else ()


def compare(what, got, exp, f, inputs=None):
    if len(got) != len(exp):
        raise Violation(f"{what}: {len(got)} results for {len(exp)} elements")
    for i, (g, e) in enumerate(zip(got, exp)):
        if g != e:
            src = f" for input {inputs[i]}" if inputs is not None and i < len(inputs) else ""
            raise Violation(f"{what}: raw result {g}, expected {e} in {tuple(f)}{src} (element {i})")


def obj_fmt(what, o, f):
    if not isinstance(o, (NarrowFix, WideFix)):
        raise Violation(f"{what}: got {o!r} instead of a fixed-point object")
    g = o.fmt
    if tup(g) != tuple(f):
        raise Violation(f"{what}: object has format {g}, expected {f}")


class Warned:
    """Records library warnings (numpy/runtime categories are not the library's)."""
    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.log = self.cm.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *exc):
        self.cm.__exit__(*exc)
        self.msgs = [str(w.message) for w in self.log
                     if not issubclass(w.category, (RuntimeWarning, DeprecationWarning, FutureWarning, PendingDeprecationWarning))]
        self.fired = bool(self.msgs)
        return False


def wtag(*fs):
    return "wide" if all(M.is_wide(f) for f in fs) else ("narrow" if not any(M.is_wide(f) for f in fs) else "mixed")
