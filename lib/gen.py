"""Hypothesis strategies for formats, raw values, modes and array layouts."""
from hypothesis import strategies as st
import math
import model as M

ints = st.integers

BANDS = [(1, 3), (4, 8), (4, 8), (9, 24), (25, 47), (48, 56), (48, 56), (52, 54), (57, 66), (67, 130), (131, 200)]
rounds = st.sampled_from(M.ROUND)
sats = st.sampled_from(M.SAT)


def _band(draw, min_w, max_w):
    a, b = draw(st.sampled_from(BANDS))
    a = min(max(a, min_w), max_w)
    b = min(max(b, a), max_w)
    return draw(ints(a, b))


@st.composite
def fmts(draw, min_w=1, max_w=200, far=True):
    w = _band(draw, min_w, max_w)
    S = draw(ints(0, 1))
    k = draw(ints(0, 5))
    if k <= 2:
        F = draw(ints(0, w - S))
    elif k <= 4 or not far:
        F = draw(ints(-8, w + 8))
    else:
        F = draw(ints(-100, 160))
    return (S, w - S - F, F)


def legal(S, I, F, min_w=1):
    """Raise I until the format is valid."""
    return (S, max(I, -F, min_w - S - F), F)


@st.composite
def rel_fmts(draw, a, max_w=200, same_f=False, keep_f=False):
    """A result format related to operand format a (or independent of it)."""
    w = M.width(a)
    S = draw(ints(0, 1))
    k = draw(ints(0, 5))
    if same_f:
        F = a[2]
    elif k == 5:
        F = draw(ints(a[2] - w - 4, a[2] + 4))
    elif k == 4:
        F = draw(fmts(max_w=max_w))[2]
    else:
        F = draw(ints(a[2] - min(w + 1, 8), a[2] + 2))
    m = draw(ints(0, 4))
    if m == 0:
        I = a[1] + draw(ints(-3, 3))
    elif m == 1:
        I = draw(ints(52, 54)) - S - F
    elif m == 2:
        I = draw(ints(-F, max(-F, a[1] + 1)))
    elif m == 3:
        I = a[1] + draw(ints(-w - 2, 3))
    else:
        I = _band(draw, 1, max_w) - S - F
    f = legal(S, I, F)
    if M.width(f) > max_w:
        f = legal(S, max_w - S - F, F)
    return f


@st.composite
def raw(draw, f, r=None):
    """A raw value of format f, biased to extremes, and to ties and range limits with respect to r."""
    a, b = M.lo(f), M.hi(f)
    k = draw(ints(0, 7))
    if k <= 1 or (r is None and k in (4, 5)):
        n = draw(ints(a, b))
    elif k == 2:
        n = a + draw(ints(0, 3))
    elif k == 3:
        n = b - draw(ints(0, 3))
    elif k == 4:      # tie or its neighbour for rounding to r
        d = f[2] - r[2]
        if d <= 0:
            n = draw(ints(a, b))
        else:
            q = draw(ints((a >> d) - 1, (b >> d) + 1)) if draw(st.booleans()) else draw(st.sampled_from([a >> d, b >> d, 0, -1, 1]))
            n = (q << d) + (1 << (d - 1)) + draw(ints(-1, 1))
    elif k == 5:      # near a limit (or a wrap multiple) of r
        d = f[2] - r[2]
        span = 1 << max(r[1] + r[2], 0)
        lim = draw(st.sampled_from([-span * r[0], span - 1, span, 2 * span, -2 * span]))
        n = (lim << d) if d >= 0 else (lim >> -d)
        n += draw(ints(-2, 2)) if draw(st.booleans()) else (draw(ints(-1, 1)) << max(d - 1, 0))
    elif k == 6:
        n = draw(ints(-3, 3))
    else:             # power of two neighbourhood
        n = (1 << draw(ints(0, max(M.width(f) - 1, 0)))) + draw(ints(-1, 1))
        if f[0] and draw(st.booleans()):
            n = -n
    return min(max(n, a), b)


BIG = [33, 130, 300, 1030, 1030, 4100, 4100]


def big(draw, *lists, rare=24):
    """Now and then, long versions of the lists (of one length): repeated, or all but one element at one end or in the middle the same."""
    n = len(lists[0])
    if not n or draw(ints(0, rare)) < rare:
        return lists if len(lists) > 1 else lists[0]
    size, kind, p = draw(st.sampled_from(BIG)), draw(ints(0, 3)), draw(ints(0, 1 << 12))
    ix = list(range(n))
    if kind == 0:
        ix = ix * -(-size // n)
    elif kind == 1:
        ix = [0] * size + ix[1:]
    elif kind == 2:
        ix = ix + [0] * size
    else:
        ix = [0] * (p % size) + ix + [0] * (size - p % size)
    out = [[x[i] for i in ix] for x in lists]
    return out if len(lists) > 1 else out[0]


@st.composite
def raws(draw, f, r=None, max_n=8, min_n=1, all_w=7, long=False):
    if M.width(f) <= all_w and min_n <= 1 and draw(ints(0, 2)) == 0:
        x = list(range(M.lo(f), M.hi(f) + 1))
    else:
        x = draw(st.lists(raw(f, r), min_size=min_n, max_size=max_n))
    return big(draw, x) if long else x


# array layouts accepted by the function interface
LAYOUTS = ["1d", "1d", "1d", "scalar", "0d", "2d", "rev", "strided", "3d", "list"]
layouts = st.sampled_from(LAYOUTS)


@st.composite
def any_fmt(draw, min_w=1):
    k = draw(ints(0, 4))
    if k <= 1:
        S = draw(ints(0, 1))
        w = draw(ints(max(min_w - S, 0), 5))
        F = draw(ints(-6, 8))
        return (S, w - F, F) if S + w >= min_w else (S, 1 - F, F)
    if k == 2:
        S = draw(ints(0, 1))
        F = draw(ints(-300, 300))
        return (S, draw(ints(-F + (1 - S), -F + 400)), F)
    return draw(fmts(min_w=min_w))


def step(x, k):
    for _ in range(abs(k)):
        y = math.nextafter(x, math.inf if k > 0 else -math.inf)
        if not math.isfinite(y):
            break
        x = y
    return x


def to_double(n, F):
    """n * 2**-F as a double (rounded), None if it overflows."""
    try:
        return math.ldexp(float(n), -F)
    except OverflowError:
        return None


@st.composite
def real(draw, r):
    """A finite double: ties and their neighbours, limits and their neighbours, huge, tiny, arbitrary bits."""
    k = draw(ints(0, 9))
    x = None
    if k <= 3:        # half-way points (2n+1)/2 * 2**-F and neighbours
        if draw(st.booleans()):
            n = draw(raw(r))
        else:
            n = draw(ints(-(1 << 53), 1 << 53)) >> draw(ints(0, 53))
        x = to_double(2 * n + draw(ints(0, 1)), r[2] + 1)
        if x is not None:
            x = step(x, draw(ints(-2, 2)))
    elif k == 4:      # limits
        n = draw(st.sampled_from([2 * M.lo(r), 2 * M.lo(r) - 1, 2 * M.hi(r), 2 * M.hi(r) + 1, 2 * M.hi(r) + 2, 0, -1]))
        x = to_double(n, r[2] + 1)
        if x is not None:
            x = step(x, draw(ints(-2, 2)))
    elif k == 5:      # huge / tiny
        x = draw(st.floats(min_value=1, max_value=2, exclude_max=True)) * 2.0 ** draw(ints(-1022, 1022))
        if draw(st.booleans()):
            x = -x
    elif k == 6:
        x = draw(st.sampled_from([0.0, -0.0, 0.5, -0.5, 0.49999999999999994, -0.49999999999999994, 1.7976931348623157e308,
                                  -1.7976931348623157e308, 5e-324, -5e-324, 4503599627370497.0, 9007199254740991.0,
                                  -4503599627370497.0, 4503599627370495.5, 1e30, -1e30]))
    elif k == 7:
        x = draw(st.floats(allow_nan=False, allow_infinity=False))
    else:             # within the range at about the resolution
        w = min(M.width(r), 53)
        m = draw(ints(-(1 << 53), 1 << 53))
        x = to_double(m, 53 - w + r[2] - draw(ints(-2, 2)))
    if x is None or not math.isfinite(x):
        x = draw(st.floats(min_value=-1e6, max_value=1e6))
    return x
