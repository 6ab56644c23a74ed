"""
Reference model: exact fixed-point arithmetic on Python ints.

A format is a tuple (S, I, F).  A value is its raw integer n, meaning n * 2**-F.
Nothing here imports or mirrors the code under test: rounding is decided from the quotient and
remainder, saturation from the range, formats from the exact extremes of the operation.
"""
ROUND = ["Trunc_s", "NonSymPos_s", "NonSymNeg_s", "SymInf_s", "SymZero_s", "ConvEven_s", "ConvOdd_s"]
SAT = ["None_s", "Warn_s", "Sat_s", "SatWarn_s"]
NARROW_MAX = 53


def width(f):
    return f[0] + f[1] + f[2]


def lo(f):
    return -(1 << (f[1] + f[2])) if f[0] else 0


def hi(f):
    return (1 << (f[1] + f[2])) - 1


def is_wide(f):
    return width(f) > NARROW_MAX


def fits(n, f):
    return lo(f) <= n <= hi(f)


def scale(n, d):
    """n * 2**d, d >= 0."""
    return n << d


def round_raw(n, f_from, f_to, rnd):
    """Round raw n (f_from fractional bits) to f_to fractional bits."""
    d = f_from - f_to
    if d <= 0:
        return n << -d
    q, r = divmod(n, 1 << d)
    half = 1 << (d - 1)
    if rnd == "Trunc_s" or r < half:
        return q
    if r > half:
        return q + 1
    # exact tie: between q and q+1
    if rnd == "NonSymPos_s":
        return q + 1
    if rnd == "NonSymNeg_s":
        return q
    if rnd == "SymInf_s":
        return q + 1 if n > 0 else q
    if rnd == "SymZero_s":
        return q if n > 0 else q + 1
    if rnd == "ConvEven_s":
        return q if q % 2 == 0 else q + 1
    if rnd == "ConvOdd_s":
        return q if q % 2 == 1 else q + 1
    raise ValueError(rnd)


def sat_raw(n, f, sat):
    if sat in ("Sat_s", "SatWarn_s"):
        return min(max(n, lo(f)), hi(f))
    span = 1 << width(f)
    m = n % span
    if m > hi(f):
        m -= span
    return m


def resize_raw(n, f_from, r, rnd, sat):
    return sat_raw(round_raw(n, f_from, r[2], rnd), r, sat)


def in_range(n, f_from, r, rnd):
    return fits(round_raw(n, f_from, r[2], rnd), r)


def warns(sat):
    return sat in ("Warn_s", "SatWarn_s")


def minimal(rmin, rmax, F):
    """The smallest (S, I, F) with the given F holding raw rmin..rmax (I + F >= 0)."""
    S = 1 if rmin < 0 else 0
    m = max(rmax.bit_length() if rmax > 0 else 0, (-rmin - 1).bit_length() if rmin < 0 else 0)
    return (S, m - F, F)


# ---- full-precision format rules ---------------------------------------------------------------

def align(a, b):
    F = max(a[2], b[2])
    return F, F - a[2], F - b[2]


def add_extremes(a, b):
    F, da, db = align(a, b)
    return (lo(a) << da) + (lo(b) << db), (hi(a) << da) + (hi(b) << db), F


def sub_extremes(a, b):
    F, da, db = align(a, b)
    return (lo(a) << da) - (hi(b) << db), (hi(a) << da) - (lo(b) << db), F


def mult_extremes(a, b):
    c = [x * y for x in (lo(a), hi(a)) for y in (lo(b), hi(b))]
    return min(c), max(c), a[2] + b[2]


def add_fmt(a, b):
    return minimal(*add_extremes(a, b))


def sub_fmt(a, b):
    return minimal(*sub_extremes(a, b))


def union(*fs):
    return tuple(max(f[i] for f in fs) for i in range(3))


def addsub_fmt(a, b):
    return union(add_fmt(a, b), sub_fmt(a, b))


def mult_fmt(a, b):
    return minimal(*mult_extremes(a, b))


def neg_fmt(a):
    # always signed, with the fewest integer bits
    return (1,) + minimal(-hi(a), -lo(a), a[2])[1:]


def abs_fmt(a):
    # documented as the union of the operand's and the negation's format
    return union(a, neg_fmt(a))


def shift_fmt(a, s0, s1):
    return (a[0], a[1] + s1, a[2] - s0)


def round_fmt(a, rF, rnd):
    """Growth rule: one extra integer bit unless truncating or not reducing; at least 1 bit wide."""
    I = a[1]
    if rF < a[2] and rnd != "Trunc_s":
        I += 1
    if a[0] + I + rF < 1:
        I = 1 - a[0] - rF
    return (a[0], I, rF)


# ---- exact operations on raws ------------------------------------------------------------------

def op_exact(op, a_fmt, a, b_fmt=None, b=None, sel=None):
    """Exact raw result and its number of fractional bits."""
    if op in ("add", "sub", "addsub"):
        F, da, db = align(a_fmt, b_fmt)
        x, y = a << da, b << db
        if op == "add" or (op == "addsub" and sel):
            return x + y, F
        return x - y, F
    if op == "mult":
        return a * b, a_fmt[2] + b_fmt[2]
    if op == "neg":
        return -a, a_fmt[2]
    if op == "abs":
        return abs(a), a_fmt[2]
    if op == "shift":      # b is the shift amount
        return a, a_fmt[2] - b
    raise ValueError(op)


def full_fmt(op, a_fmt, b_fmt=None, s0=None, s1=None):
    if op == "add":
        return add_fmt(a_fmt, b_fmt)
    if op == "sub":
        return sub_fmt(a_fmt, b_fmt)
    if op == "addsub":
        return addsub_fmt(a_fmt, b_fmt)
    if op == "mult":
        return mult_fmt(a_fmt, b_fmt)
    if op == "neg":
        return neg_fmt(a_fmt)
    if op == "abs":
        return abs_fmt(a_fmt)
    if op == "shift":
        return shift_fmt(a_fmt, s0, s1)
    raise ValueError(op)


def real_raw(x, F):
    """floor(x * 2**F + 1/2) for a finite double x, exactly."""
    from fractions import Fraction
    v = Fraction(x) * (Fraction(2) ** F) + Fraction(1, 2)
    return v.numerator // v.denominator


def bits(n, w):
    """Two's complement bit string, MSB first."""
    return format(n % (1 << w), "0%db" % w) if w else ""


def unbits(s, S):
    n = int(s, 2) if s else 0
    if S and s and s[0] == "1":
        n -= 1 << len(s)
    return n


# ---- recommended pipelining --------------------------------------------------------------------

def pipe_round(a, rF, rnd):
    return 0 if rnd == "Trunc_s" or rF >= a[2] else 1


def pipe_sat(a, r, sat):
    return 0 if sat in ("None_s", "Warn_s") or (r[0] == a[0] and r[1] >= a[1]) else 1
