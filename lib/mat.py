"""A small interpreter for the MATLAB code of /repo/bittrue/models/matlab, so that the wrappers can be executed without MATLAB.

It covers the language as far as such wrappers can reasonably use it (functions, local functions, static class methods, control flow,
cells, structs, strings, N-D arrays with column-major indexing, saturating and rounding integer arithmetic, the py. bridge, and the part of
Fixed-Point Designer's fi needed to pack and unpack words). What it does not know raises Unsupported, which is never a verdict.
Data model: numeric/logical/char values are numpy arrays with ndim >= 2 (Char for text), Cell, Struct, Str (string scalar), Fi, Py (a Python object).
"""
import array
import builtins
import importlib
import math
import os
import re
from fractions import Fraction

import numpy as np


class Unsupported(Exception):
    pass


class MError(Exception):
    """An error the MATLAB program raised (or MATLAB would raise)."""


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    pass


# ------------------------------------------------------------------------------------------------------------------ lexer
TOK = re.compile(r"""
    (?P<num>(?:\d+\.?\d*(?:[eEdD][+-]?\d+)?|\.\d+(?:[eEdD][+-]?\d+)?))
  | (?P<id>[A-Za-z_]\w*)
  | (?P<op>\.\.\.|\.\^'|\.\*|\./|\.\\|\.\^|\.'|==|~=|!=|<=|>=|&&|\|\||[-+*/\\^<>=~!&|:;,()\[\]{}@.?])
""", re.X)
KEYWORDS = {"function", "end", "if", "elseif", "else", "for", "while", "switch", "case", "otherwise", "try", "catch", "return", "break",
            "continue", "classdef", "methods", "properties", "arguments", "persistent", "global"}


class Tok:
    __slots__ = ("k", "v", "sp", "line")

    def __init__(self, k, v, sp, line):
        self.k, self.v, self.sp, self.line = k, v, sp, line

    def __repr__(self):
        return f"{self.k}:{self.v}"


def lex(text):
    out = []
    i, line, n = 0, 1, len(text)
    stack = []
    sp = False
    while i < n:
        c = text[i]
        if c in " \t\r":
            sp = True
            i += 1
            continue
        bol = not out or out[-1].k == "nl"
        if c == "%" or (c == "#" and bol):
            e = text.find("\n", i)
            e = n if e < 0 else e
            if text[i:e].strip() in ("%{",) and not text[text.rfind("\n", 0, i) + 1:i].strip():
                depth = 1
                j = e + 1
                while depth and j < n:
                    e2 = text.find("\n", j)
                    e2 = n if e2 < 0 else e2
                    s = text[j:e2].strip()
                    depth += (s == "%{") - (s == "%}")
                    line += 1
                    j = e2 + 1
                i = j - 1 if j <= n else n
                continue
            i = e
            continue
        if c == "\n":
            if stack and stack[-1] != "(":
                out.append(Tok("nl", ";", sp, line))
            elif not stack:
                out.append(Tok("nl", "\n", sp, line))
            line += 1
            i += 1
            sp = False
            continue
        prev = out[-1] if out else None
        if c in "'\"":
            trans = c == "'" and prev is not None and (prev.k in ("num", "id", "str") or prev.v in (")", "]", "}", "'", ".'")) \
                and prev.k != "kw" and not (sp and stack and stack[-1] != "(") and not (prev.k == "id" and sp and not stack and bol)
            if trans:
                out.append(Tok("op", "'", sp, line))
                i += 1
                sp = False
                continue
            j, s = i + 1, ""
            while True:
                if j >= n or text[j] == "\n":
                    raise Unsupported(f"unterminated string in line {line}")
                if text[j] == c:
                    if text[j + 1:j + 2] == c:
                        s += c
                        j += 2
                        continue
                    break
                s += text[j]
                j += 1
            out.append(Tok("char" if c == "'" else "str", s, sp, line))
            i = j + 1
            sp = False
            continue
        m = TOK.match(text, i)
        if not m:
            raise Unsupported(f"character {c!r} in line {line}")
        k, v = m.lastgroup, m.group()
        i = m.end()
        if k == "num" and v.endswith(".") and i < n and text[i] in "*/^\\'":
            v = v[:-1]
            i -= 1
        if v == "...":
            e = text.find("\n", i)
            i = n if e < 0 else e + 1
            line += 1
            sp = True
            continue
        if k == "num" and text[i:i + 1] in ("i", "j") and not re.match(r"\w", text[i + 1:i + 2] or " "):
            v += "j"
            i += 1
        if k == "id" and v in KEYWORDS and not (prev is not None and prev.v == "." and not sp):
            k = "endx" if v == "end" and stack else "kw"
        if v in "([{" and k == "op":
            stack.append(v)
        elif v in ")]}" and k == "op":
            if not stack:
                raise Unsupported(f"unbalanced {v} in line {line}")
            stack.pop()
        out.append(Tok(k, v, sp, line))
        sp = False
    out.append(Tok("nl", "\n", False, line))
    out.append(Tok("eof", "", False, line))
    return out


# ------------------------------------------------------------------------------------------------------------------ parser
class Func:
    def __init__(self, name, outs, ins, body, defaults=None):
        self.name, self.outs, self.ins, self.body, self.defaults = name, outs, ins, body, defaults or {}
        self.locals = {}


class Parser:
    def __init__(self, text):
        self.t = lex(text)
        self.p = 0
        self.funcs = {}
        self.order = []
        self.classname = None
        self.script = []
        self.mat = []        # stack of bracket kinds, to know when white space separates

    def cur(self):
        return self.t[self.p]

    def at(self, v):
        c = self.cur()
        return c.v == v and c.k in ("op", "kw", "nl")

    def take(self, v=None):
        c = self.cur()
        if v is not None and (c.v != v or c.k in ("str", "char")):
            raise Unsupported(f"expected {v!r}, found {c.v!r} in line {c.line}")
        self.p += 1
        return c

    def skip(self):
        while self.cur().k == "nl" or (self.cur().k == "op" and self.cur().v in ";,"):
            self.p += 1

    def parse(self):
        self.skip()
        while self.cur().k != "eof":
            c = self.cur()
            if c.k == "kw" and c.v == "function":
                self.function()
            elif c.k == "kw" and c.v == "classdef":
                self.classdef()
            else:
                self.script.append(self.statement())
            self.skip()
        return self

    def classdef(self):
        self.take("classdef")
        if self.at("("):
            while not self.at(")"):
                self.take()
            self.take()
        self.classname = self.take().v
        while self.cur().k != "nl":
            self.take()
        self.skip()
        while not self.at("end"):
            if self.cur().k == "kw" and self.cur().v in ("methods", "properties"):
                kind = self.take().v
                while self.cur().k != "nl":
                    self.take()
                self.skip()
                while not self.at("end"):
                    if kind == "methods":
                        self.function()
                    else:
                        raise Unsupported("class properties")
                    self.skip()
                self.take("end")
            else:
                raise Unsupported(f"class section {self.cur().v}")
            self.skip()
        self.take("end")

    def function(self):
        self.take("function")
        outs = []
        save = self.p
        if self.at("["):
            self.take()
            while not self.at("]"):
                if self.at(","):
                    self.take()
                    continue
                outs.append(self.take().v)
            self.take()
            self.take("=")
            name = self.take().v
        else:
            name = self.take().v
            if self.at("="):
                self.take()
                outs = [name]
                name = self.take().v
        while self.at("."):
            self.take()
            name = self.take().v
        ins = []
        if self.at("("):
            self.take()
            while not self.at(")"):
                if self.at(","):
                    self.take()
                    continue
                t = self.take()
                ins.append("~" if t.v in "~!" else t.v)
            self.take()
        self.skip()
        defaults = {}
        if self.cur().k == "kw" and self.cur().v == "arguments":
            self.take()
            self.skip()
            while not self.at("end"):
                nm = self.take().v
                while self.cur().k != "nl" and not self.at("="):
                    self.take()
                if self.at("="):
                    self.take()
                    defaults[nm] = self.expr()
                while self.cur().k != "nl":
                    self.take()
                self.skip()
            self.take("end")
        body = self.block(("end", "function"), eof=True)
        if self.at("end"):
            self.take()
        f = Func(name, outs, ins, body, defaults)
        self.funcs[name] = f
        self.order.append(name)
        del save

    def block(self, until, eof=False):
        out = []
        self.skip()
        while True:
            c = self.cur()
            if c.k == "kw" and c.v in until:
                return out
            if c.k == "eof":
                if eof:
                    return out
                raise Unsupported("unexpected end of file")
            out.append(self.statement())
            self.skip()

    def statement(self):
        c = self.cur()
        if c.k == "kw":
            v = c.v
            if v == "if":
                self.take()
                arms, other = [], []
                cond = self.expr()
                arms.append((cond, self.block(("elseif", "else", "end"))))
                while self.at("elseif"):
                    self.take()
                    cond = self.expr()
                    arms.append((cond, self.block(("elseif", "else", "end"))))
                if self.at("else"):
                    self.take()
                    other = self.block(("end",))
                self.take("end")
                return ("if", arms, other)
            if v == "for":
                self.take()
                par = self.at("(")
                save = self.p
                if par:
                    self.take()
                    if not (self.cur().k == "id" and self.t[self.p + 1].v == "="):
                        self.p = save
                        par = False
                name = self.take().v
                self.take("=")
                e = self.expr()
                if par and self.at(")"):
                    self.take()
                b = self.block(("end",))
                self.take("end")
                return ("for", name, e, b)
            if v == "while":
                self.take()
                e = self.expr()
                b = self.block(("end",))
                self.take("end")
                return ("while", e, b)
            if v == "switch":
                self.take()
                e = self.expr()
                self.skip()
                arms, other = [], None
                while not self.at("end"):
                    if self.at("case"):
                        self.take()
                        k = self.expr()
                        arms.append((k, self.block(("case", "otherwise", "end"))))
                    else:
                        self.take("otherwise")
                        other = self.block(("case", "otherwise", "end"))
                    self.skip()
                self.take("end")
                return ("switch", e, arms, other or [])
            if v == "try":
                self.take()
                b = self.block(("catch", "end"))
                name, h = None, []
                if self.at("catch"):
                    line = self.take().line
                    if self.cur().k == "id" and self.cur().line == line:
                        name = self.take().v
                    h = self.block(("end",))
                self.take("end")
                return ("try", b, name, h)
            if v in ("return", "break", "continue"):
                self.take()
                return (v,)
            raise Unsupported(f"statement {v} in line {c.line}")
        # command syntax used by scripts
        if c.k == "id" and c.v in ("close", "clear", "clc", "hold", "warning", "format") and (self.t[self.p + 1].k in ("id", "nl") or self.t[self.p + 1].v == ";"):
            while self.cur().k != "nl" and not self.at(";"):
                self.take()
            return ("nop",)
        # multiple assignment
        if self.at("["):
            save, depth, q = self.p, 0, self.p
            while True:
                if self.t[q].k == "op" and self.t[q].v in "([{":
                    depth += 1
                if self.t[q].k == "op" and self.t[q].v in ")]}":
                    depth -= 1
                    if depth == 0:
                        break
                if self.t[q].k == "eof":
                    break
                q += 1
            if self.t[q + 1].v == "=" and self.t[q + 1].k == "op":
                self.take("[")
                self.mat.append("[")
                lhs = []
                while not self.at("]"):
                    if self.at(","):
                        self.take()
                        continue
                    if self.cur().v in ("~", "!"):
                        self.take()
                        lhs.append(None)
                        continue
                    lhs.append(self.postfix())
                self.mat.pop()
                self.take("]")
                self.take("=")
                return ("massign", lhs, self.expr())
            self.p = save
        e = self.expr()
        if self.at("="):
            self.take()
            return ("assign", e, self.expr())
        return ("expr", e, c.line)

    # precedence climbing
    LEVELS = [("||",), ("&&",), ("|",), ("&",), ("<", "<=", ">", ">=", "==", "~=", "!="), (":",), ("+", "-"), ("*", "/", "\\", ".*", "./", ".\\")]

    def sep(self):
        """True where white space ends a matrix element before an operator."""
        if not self.mat or self.mat[-1] == "(":
            return False
        c, d = self.cur(), self.t[self.p + 1]
        return c.sp and not d.sp

    def expr(self, lv=0):
        if lv == len(self.LEVELS):
            return self.unary()
        if self.LEVELS[lv] == (":",):
            parts = [self.expr(lv + 1)]
            while self.at(":") and not self.colon_end():
                self.take()
                parts.append(self.expr(lv + 1))
            if len(parts) == 1:
                return parts[0]
            return ("range", parts)
        a = self.expr(lv + 1)
        while self.cur().k == "op" and self.cur().v in self.LEVELS[lv]:
            if self.cur().v in ("+", "-") and self.sep():
                break
            o = self.take().v
            b = self.expr(lv + 1)
            a = ("bin", "~=" if o == "!=" else o, a, b)
        return a

    def colon_end(self):
        return self.t[self.p + 1].v in (")", ",", "}", "]") and self.t[self.p + 1].k == "op"

    def unary(self):
        c = self.cur()
        if c.k == "op" and c.v in ("-", "+", "~", "!"):
            self.take()
            return ("un", "~" if c.v == "!" else c.v, self.unary())
        return self.power()

    def power(self):
        a = self.postfix()
        while self.cur().k == "op" and self.cur().v in ("^", ".^"):
            o = self.take().v
            if self.cur().k == "op" and self.cur().v in ("-", "+", "~"):
                u = self.take().v
                b = ("un", u, self.postfix())
            else:
                b = self.postfix()
            a = ("bin", o, a, b)
        return a

    def args(self, close):
        out = []
        self.mat.append("(" if close == ")" else "{i")
        if close == "}":
            self.mat[-1] = "("
        while not self.at(close):
            if self.at(",") or self.cur().k == "nl":
                self.take()
                continue
            if self.at(":") and self.t[self.p + 1].k == "op" and self.t[self.p + 1].v in (",", close):
                self.take()
                out.append(("colon",))
                continue
            if self.cur().k == "id" and self.t[self.p + 1].v == "=" and self.t[self.p + 1].k == "op":
                nm = self.take().v
                self.take()
                out.append(("char", nm))
                out.append(self.expr())
                continue
            out.append(self.expr())
        self.mat.pop()
        self.take(close)
        return out

    def postfix(self):
        c = self.take()
        if c.k == "num":
            v = c.v.replace("d", "e").replace("D", "e")
            e = ("num", complex(v) if v.endswith("j") else float(v))
        elif c.k == "char":
            e = ("char", c.v)
        elif c.k == "str":
            e = ("str", c.v)
        elif c.k == "endx":
            e = ("end",)
        elif c.k == "id":
            e = ("id", c.v)
        elif c.v == "(":
            self.mat.append("(")
            e = ("paren", self.expr())
            self.mat.pop()
            self.take(")")
        elif c.v in ("[", "{"):
            close = "]" if c.v == "[" else "}"
            self.mat.append(c.v)
            rows, row = [], []
            while not self.at(close):
                if self.at(";") or self.cur().k == "nl":
                    self.take()
                    if row:
                        rows.append(row)
                    row = []
                    continue
                if self.at(","):
                    self.take()
                    continue
                row.append(self.expr())
            if row:
                rows.append(row)
            self.mat.pop()
            self.take(close)
            e = ("matrix" if close == "]" else "cell", rows)
        elif c.v == "@":
            if self.at("("):
                self.take()
                ins = []
                while not self.at(")"):
                    if self.at(","):
                        self.take()
                        continue
                    ins.append(self.take().v)
                self.take()
                e = ("lambda", ins, self.expr())
            else:
                nm = self.take().v
                while self.at("."):
                    self.take()
                    nm += "." + self.take().v
                e = ("handle", nm)
            return e
        elif c.v == ":":
            return ("colon",)
        else:
            raise Unsupported(f"unexpected {c.v!r} in line {c.line}")
        while True:
            c = self.cur()
            if c.k != "op":
                break
            if c.sp and self.mat and self.mat[-1] != "(" and c.v in ("(", "{", "'"):
                break
            if c.v == "(":
                self.take()
                e = ("index", e, "(", self.args(")"))
            elif c.v == "{":
                self.take()
                e = ("index", e, "{", self.args("}"))
            elif c.v == "." and not c.sp and not (self.t[self.p + 1].k == "num"):
                self.take()
                if self.at("("):
                    self.take()
                    d = self.expr()
                    self.take(")")
                    e = ("field", e, d)
                else:
                    e = ("field", e, self.take().v)
            elif c.v in ("'", ".'"):
                self.take()
                e = ("trans", e)
            else:
                break
        return e


# ------------------------------------------------------------------------------------------------------------------ values
class Char:
    def __init__(self, s):
        self.s = s


class Str:
    def __init__(self, s):
        self.s = s


class Cell:
    def __init__(self, a):
        self.a = a

    @staticmethod
    def row(vals):
        a = np.empty((1, len(vals)), dtype=object)
        for i, v in enumerate(vals):
            a[0, i] = v
        return Cell(a if vals else np.empty((0, 0), dtype=object))


class Struct:
    def __init__(self, d=None):
        self.d = d or {}


class Py:
    def __init__(self, o):
        self.o = o


class PyPath:
    def __init__(self, o):
        self.o = o


class Handle:
    def __init__(self, fn):
        self.fn = fn


class ClassRef:
    def __init__(self, name):
        self.name = name


class NT:
    def __init__(self, s, w, f):
        self.s, self.w, self.f = int(s), int(w), int(f)


class PyArgs:
    def __init__(self, d):
        self.d = d


def trim(a):
    while a.ndim > 2 and a.shape[-1] == 1:
        a = a.reshape(a.shape[:-1])
    return a


class Fi:
    """raw: object array (>= 2-D) of stored integers."""

    def __init__(self, raw, s, w, f, **props):
        self.raw, self.s, self.w, self.f = raw, int(s), int(w), int(f)
        self.props = dict(RoundingMethod="Nearest", OverflowAction="Saturate", SumMode="FullPrecision", SumWordLength=32, ProductMode="FullPrecision")
        self.props.update(props)
        if self.w < 1:
            raise MError("fi: WordLength must be positive")

    def like(self, raw):
        return Fi(raw, self.s, self.w, self.f, **self.props)

    @property
    def lo(self):
        return -(1 << (self.w - 1)) if self.s else 0

    @property
    def hi(self):
        return (1 << (self.w - self.s)) - 1

    def wrap(self, v):
        v &= (1 << self.w) - 1
        return v - (1 << self.w) if self.s and v >> (self.w - 1) else v

    def fit(self, v):
        if self.lo <= v <= self.hi:
            return v
        if self.props["OverflowAction"] == "Wrap":
            return self.wrap(v)
        return self.hi if v > self.hi else self.lo


def rnd(x, mode):
    """Fraction -> int"""
    if mode == "Floor":
        return math.floor(x)
    if mode in ("Ceiling",):
        return math.ceil(x)
    if mode in ("Zero", "Fix"):
        return math.trunc(x)
    if mode == "Nearest":            # ties to +inf
        return math.floor(x + Fraction(1, 2))
    if mode == "Round":
        return math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1)
    if mode == "Convergent":
        return round(x)
    raise Unsupported(f"rounding {mode}")


def vec(f, *arrs):
    """element-wise with MATLAB's implicit expansion, on object arrays"""
    arrs = [np.asarray(a, dtype=object) for a in arrs]
    nd = max(a.ndim for a in arrs)
    arrs = [a.reshape(a.shape + (1,) * (nd - a.ndim)) for a in arrs]
    try:
        b = np.broadcast(*arrs)
    except ValueError:
        raise MError("Arrays have incompatible sizes for this operation.")
    out = np.empty(b.shape, dtype=object)
    of = out.reshape(-1)
    for i, t in enumerate(b):
        of[i] = f(*t)
    return trim(of.reshape(b.shape))


INTS = {f"{u}int{n}": getattr(np, f"{u}int{n}") for u in ("", "u") for n in (8, 16, 32, 64)}


def dbl(x):
    return np.array([[x]], dtype=np.float64)


def boolean(x):
    return np.array([[bool(x)]])


def clsname(v):
    if isinstance(v, np.ndarray):
        n = v.dtype.name
        return {"float64": "double", "float32": "single", "bool": "logical", "complex128": "double", "complex64": "single"}.get(n, n)
    if isinstance(v, Char):
        return "char"
    if isinstance(v, Str):
        return "string"
    if isinstance(v, Cell):
        return "cell"
    if isinstance(v, Struct):
        return "struct"
    if isinstance(v, Fi):
        return "embedded.fi"
    if isinstance(v, NT):
        return "embedded.numerictype"
    if isinstance(v, Handle):
        return "function_handle"
    if isinstance(v, Py):
        t = type(v.o)
        m = t.__module__
        return "py." + (t.__qualname__ if m == "builtins" else f"{m}.{t.__qualname__}")
    raise Unsupported(f"class of {type(v).__name__}")


def shape_of(v):
    if isinstance(v, np.ndarray):
        return v.shape
    if isinstance(v, Fi):
        return v.raw.shape
    if isinstance(v, Cell):
        return v.a.shape
    if isinstance(v, Char):
        return (1, len(v.s)) if v.s else (0, 0)
    if isinstance(v, Py):
        o = v.o
        if isinstance(o, np.ndarray):
            return trim(np.empty(o.shape if o.ndim >= 2 else ((1,) + o.shape if o.ndim else (1, 1)), dtype=bool)).shape
        if isinstance(o, (tuple, list)):
            return (1, len(o))
    return (1, 1)


# py bridge -----------------------------------------------------------------------------------------------
def to_py(v):
    if isinstance(v, Py):
        return v.o
    if isinstance(v, PyPath):
        return v.o
    if isinstance(v, np.ndarray):
        if v.size == 1:
            x = v.reshape(-1)[0]
            return x.item()
        if v.ndim == 2 and v.shape[0] == 1 and v.dtype.kind in "iuf" and v.shape[1] > 0:
            code = {"float64": "d", "float32": "f", "int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I",
                    "int64": "q", "uint64": "Q"}[v.dtype.name]
            return array.array(code, v.reshape(-1).tolist())
        return memoryview(np.asfortranarray(v))
    if isinstance(v, (Char, Str)):
        return v.s
    if isinstance(v, Cell):
        if v.a.size and v.a.shape[0] != 1:
            raise MError("Conversion of a cell array to a Python tuple requires a 1-by-N cell")
        return tuple(to_py(x) for x in v.a.reshape(-1))
    if isinstance(v, Struct):
        return {k: to_py(x) for k, x in v.d.items()}
    if isinstance(v, Fi):
        raise MError("Conversion of MATLAB 'embedded.fi' to Python is not supported.")
    raise Unsupported(f"conversion of {type(v).__name__} to Python")


def from_py(o):
    if type(o) is bool:
        return boolean(o)
    if type(o) is float:
        return dbl(o)
    if type(o) is complex:
        return np.array([[o]])
    return Py(o)


def py_numeric(v, target):
    """int64(py...), double(py...) etc."""
    o = v.o
    if isinstance(o, (int, float, np.generic)) and not isinstance(o, np.ndarray):
        return np.array([[o]], dtype=object)
    if isinstance(o, (np.ndarray, array.array, memoryview)):
        a = np.array(o)
        if a.dtype == object:
            raise MError("Conversion from Python object array is not possible.")
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a.reshape(1, -1)
        return trim(a)
    raise MError(f"Conversion to {target} from {clsname(v)} is not possible.")


def to_int(a, name):
    t = INTS[name]
    info = np.iinfo(t)
    if isinstance(a, np.ndarray) and a.dtype.kind in "iub":
        if a.dtype == t:
            return a
        return np.array([min(max(int(x), info.min), info.max) for x in a.reshape(-1)], dtype=t).reshape(a.shape)
    out = np.empty(a.size, dtype=t)
    for i, x in enumerate(a.reshape(-1)):
        if isinstance(x, (float, np.floating)):
            if x != x:
                r = 0
            elif math.isinf(x):
                r = info.max if x > 0 else info.min
            else:
                r = rnd(Fraction(float(x)), "Round")
        elif isinstance(x, Fraction):
            r = rnd(x, "Round")
        else:
            r = int(x)
        out[i] = min(max(r, info.min), info.max)
    return out.reshape(a.shape)


def num(v):
    """numeric array of a value used in arithmetic (char and py scalars included)"""
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, Char):
        return np.array([[float(ord(c)) for c in v.s]]) if v.s else np.zeros((0, 0))
    if isinstance(v, Py) and isinstance(v.o, (int, float)) and not isinstance(v.o, bool):
        return np.array([[float(v.o)]])
    if isinstance(v, Py) and isinstance(v.o, (np.ndarray, np.generic)):
        return py_numeric(v, "double").astype(np.float64)
    raise Unsupported(f"arithmetic on {clsname(v)}")


def frac(x):
    return Fraction(float(x)) if isinstance(x, (float, np.floating)) else Fraction(int(x))


def fi_of(v, like):
    """a double operand of a fi operation, with exact binary point (best precision)"""
    a = num(v)
    f = 0
    for x in a.reshape(-1):
        while frac(x) * (1 << f) != int(frac(x) * (1 << f)):
            f += 1
    raw = vec(lambda x: int(frac(x) * (1 << f)), a.astype(object))
    return Fi(raw, 1, max(2, max([int(abs(x)).bit_length() for x in raw.reshape(-1)] + [1]) + 1), f)


def fi_bin(op, a, b):
    if not isinstance(a, Fi):
        a = fi_of(a, b)
    if not isinstance(b, Fi):
        b = fi_of(b, a)
    f = max(a.f, b.f)
    ra = lambda x: x << (f - a.f) if f >= a.f else x
    rb = lambda x: x << (f - b.f)
    if op in ("+", "-"):
        raw = vec((lambda x, y: ra(x) + rb(y)) if op == "+" else (lambda x, y: ra(x) - rb(y)), a.raw, b.raw)
        p = a.props if a.props["SumMode"] != "FullPrecision" else b.props
        s = max(a.s, b.s)
        if p["SumMode"] == "FullPrecision":
            i = max(a.w - a.s - a.f, b.w - b.s - b.f) + 1
            s = max(s, int(op == "-" and s))
            r = Fi(raw, s, max(1, s + i + f), f, **p)
            if op == "-" and not s:
                raise Unsupported("unsigned fi subtraction")
            return r
        if p["SumMode"] == "KeepLSB":
            r = Fi(raw, s, int(p["SumWordLength"]), f, **p)
            r.raw = vec(r.fit, raw)
            return r
        raise Unsupported(f"SumMode {p['SumMode']}")
    if op in ("*", ".*"):
        if op == "*" and a.raw.size > 1 and b.raw.size > 1:
            raise Unsupported("fi matrix product")
        return Fi(vec(lambda x, y: x * y, a.raw, b.raw), max(a.s, b.s), a.w + b.w, a.f + b.f, **a.props)
    if op in CMP:
        return vec(lambda x, y: bool(CMP[op](ra(x), rb(y))), a.raw, b.raw).astype(bool)
    raise Unsupported(f"fi operator {op}")


CMP = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y, "==": lambda x, y: x == y,
       "~=": lambda x, y: x != y}


def binop(op, a, b):
    if isinstance(a, Str) or isinstance(b, Str):
        if op == "+":
            return Str(text(a) + text(b))
        if op in ("==", "~="):
            return boolean((text(a) == text(b)) == (op == "=="))
        raise Unsupported("string operator " + op)
    if isinstance(a, Fi) or isinstance(b, Fi):
        return fi_bin(op, a, b)
    if isinstance(a, Char) and isinstance(b, Char) and op in CMP and len(a.s) != len(b.s) and 1 not in (len(a.s), len(b.s)):
        raise MError("Arrays have incompatible sizes for this operation.")
    if isinstance(a, Py) and isinstance(b, Py) and op in ("==", "~="):
        try:
            r = bool(a.o == b.o)
            return boolean(r if op == "==" else not r)
        except ValueError:
            raise Unsupported("comparison of Python arrays")
    pyint = all(isinstance(v, Py) and isinstance(v.o, int) for v in (a, b)) and op in ("+", "-", "*")
    a, b = num(a), num(b)
    if op in CMP:
        return vec(lambda x, y: bool(CMP[op](x, y)), a, b).astype(bool) if a.dtype.kind in "iu" or b.dtype.kind in "iu" else \
            np.asarray(vec(lambda x, y: bool(CMP[op](x, y)), a, b), dtype=bool)
    if op in ("&", "|"):
        f = (lambda x, y: bool(x) and bool(y)) if op == "&" else (lambda x, y: bool(x) or bool(y))
        return np.asarray(vec(f, a, b), dtype=bool)
    if op in ("*", "/", "\\", "^") and a.size > 1 and b.size > 1:
        raise Unsupported("matrix operator " + op)
    o = op.lstrip(".")
    if o == "/" and op == "/" and b.size > 1:
        raise Unsupported("matrix division")
    if a.dtype.kind in "iu" or b.dtype.kind in "iu":
        t = a.dtype if a.dtype.kind in "iu" else b.dtype
        if a.dtype.kind in "iu" and b.dtype.kind in "iu" and a.dtype != b.dtype:
            raise MError("Integers can only be combined with integers of the same class, or scalar doubles.")
        for x in (a, b):
            if x.dtype.kind == "f" and x.size > 1 and t.itemsize == 8:
                raise MError("Integers can only be combined with integers of the same class, or scalar doubles.")
        info = np.iinfo(t)

        def f(x, y):
            x, y = frac(x), frac(y)
            if o == "+":
                r = x + y
            elif o == "-":
                r = x - y
            elif o == "*":
                r = x * y
            elif o == "/":
                if y == 0:
                    return 0 if x == 0 else (info.max if x > 0 else info.min)
                r = x / y
            elif o == "^":
                r = x ** int(y) if y == int(y) and y >= 0 else frac(float(x) ** float(y))
            else:
                raise Unsupported("integer operator " + op)
            return min(max(rnd(r, "Round"), info.min), info.max)
        return np.array(vec(f, a, b).tolist(), dtype=t).reshape(vec(lambda x, y: 0, a, b).shape)
    a, b = (x.astype(np.float64) if x.dtype.kind in "b" else x for x in (a, b))
    nd = max(a.ndim, b.ndim)
    a, b = a.reshape(a.shape + (1,) * (nd - a.ndim)), b.reshape(b.shape + (1,) * (nd - b.ndim))
    try:
        with np.errstate(all="ignore"):
            r = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.divide, "\\": lambda x, y: y / x, "^": np.power}[o](a, b)
    except ValueError:
        raise MError("Arrays have incompatible sizes for this operation.")
    del pyint
    return trim(r)


def text(v):
    if isinstance(v, (Char, Str)):
        return v.s
    if isinstance(v, Py) and isinstance(v.o, str):
        return v.o
    if isinstance(v, np.ndarray) and v.size == 1:
        x = v.reshape(-1)[0]
        return str(int(x)) if x == int(x) else repr(float(x))
    if isinstance(v, Py):
        return str(v.o)
    raise Unsupported(f"text of {clsname(v)}")


def truth(v):
    if isinstance(v, Py):
        if isinstance(v.o, (int, float, np.generic)):
            return bool(v.o)
        raise MError(f"Conversion to logical from {clsname(v)} is not possible.")
    if isinstance(v, Fi):
        v = v.raw
    a = num(v)
    return a.size > 0 and all(bool(x) for x in a.reshape(-1))


def scalar(v):
    if isinstance(v, Py) and isinstance(v.o, (int, float)):
        return v.o
    a = num(v)
    if a.size != 1:
        raise MError("Value must be a scalar.")
    x = a.reshape(-1)[0].item()
    return x


def sint(v):
    x = scalar(v)
    if x != int(x):
        raise MError("Value must be an integer.")
    return int(x)


def isequal(a, b):
    if isinstance(a, (Char, Str)) and isinstance(b, (Char, Str)):
        return a.s == b.s
    if shape_of(a) != shape_of(b):
        return False
    if isinstance(a, Cell) and isinstance(b, Cell):
        return all(isequal(x, y) for x, y in zip(a.a.reshape(-1), b.a.reshape(-1)))
    if isinstance(a, Py) and isinstance(b, Py):
        return bool(a.o == b.o)

    def vals(v):
        if isinstance(v, Fi):
            return [Fraction(x) / Fraction(2) ** v.f for x in v.raw.reshape(-1)]
        return [frac(x) for x in num(v).reshape(-1)]
    return vals(a) == vals(b)


# ------------------------------------------------------------------------------------------------------------------ indexing
def data(v):
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, Fi):
        return v.raw
    if isinstance(v, Cell):
        return v.a
    if isinstance(v, Char):
        a = np.empty((1, len(v.s)), dtype=object)
        a[0, :] = list(v.s)
        return a
    raise Unsupported(f"indexing of {clsname(v)}")


def redata(v, a):
    a = trim(a)
    if isinstance(v, np.ndarray):
        return a
    if isinstance(v, Fi):
        return v.like(a)
    if isinstance(v, Cell):
        return Cell(a)
    if isinstance(v, Char):
        return Char("".join(a.reshape(-1)))
    raise Unsupported("indexing")


COLON = object()


def subs(ix, n, grow=False):
    """index value -> numpy int array (0-based)"""
    if ix is COLON or (isinstance(ix, (Char, Str)) and ix.s == ":"):
        return np.arange(n)
    if isinstance(ix, Py):
        ix = num(ix)
    if isinstance(ix, np.ndarray) and ix.dtype == bool:
        return np.flatnonzero(ix.reshape(-1, order="F"))
    a = np.array([0] * ix.size, dtype=int)
    for k, x in enumerate(num(ix).reshape(-1, order="F")):
        if x != int(x) or x < 1:
            raise MError("Array indices must be positive integers or logical values.")
        a[k] = int(x) - 1
    if not grow and a.size and a.max() >= n:
        raise MError("Index exceeds the number of array elements.")
    return a


def get(v, idx):
    a = data(v)
    if len(idx) == 1:
        ix = idx[0]
        flat = a.reshape(-1, order="F")
        k = subs(ix, flat.size)
        r = flat[k]
        if ix is COLON or (isinstance(ix, Char) and ix.s == ":"):
            return redata(v, r.reshape(-1, 1))
        s = ix.shape if isinstance(ix, np.ndarray) else (1, 1)
        if isinstance(ix, np.ndarray) and ix.dtype == bool:
            s = (1, r.size) if a.ndim == 2 and a.shape[0] == 1 and (ix.ndim == 2 and ix.shape[0] == 1) else (r.size, 1)
        elif a.ndim == 2 and 1 in a.shape and len(s) == 2 and 1 in s and a.size != 1 and r.size != 1:
            s = (1, r.size) if a.shape[0] == 1 else (r.size, 1)
        return redata(v, r.reshape(s, order="F"))
    if len(idx) == 0:
        return v
    shp = a.shape
    if len(idx) < len(shp):
        tail = 1
        for d in shp[len(idx) - 1:]:
            tail *= d
        a = a.reshape(shp[:len(idx) - 1] + (tail,), order="F")
    elif len(idx) > len(shp):
        a = a.reshape(shp + (1,) * (len(idx) - len(shp)))
    ks = [subs(ix, d) for ix, d in zip(idx, a.shape)]
    return redata(v, a[np.ix_(*ks)])


def put(v, idx, val, brace=False):
    """v(idx) = val, returns the new value; val is raw array data (or single element for brace)"""
    if v is None:
        if brace:
            v = Cell(np.empty((0, 0), dtype=object))
        elif isinstance(val, Fi):
            v = val.like(np.empty((0, 0), dtype=object))
        elif isinstance(val, Cell):
            v = Cell(np.empty((0, 0), dtype=object))
        elif isinstance(val, np.ndarray):
            v = np.zeros((0, 0), dtype=val.dtype)
        else:
            raise Unsupported("indexed assignment to a new variable")
    a = data(v).copy()
    if brace:
        src = np.empty((1, 1), dtype=object)
        src[0, 0] = val
    elif isinstance(v, Cell):
        if isinstance(val, Cell):
            src = val.a
        elif isinstance(val, np.ndarray) and val.size == 0:
            return Cell(delete(a, idx))
        else:
            src = np.empty((1, 1), dtype=object)
            src[0, 0] = val
    elif isinstance(v, Fi):
        if not isinstance(val, Fi):
            val = fi_of(val, v)
        src = vec(lambda x: v.fit(rnd(Fraction(x) * Fraction(2) ** (v.f - val.f), v.props["RoundingMethod"])), val.raw)
    elif isinstance(v, np.ndarray):
        if isinstance(val, Fi):
            val = convert("double", val)
        val = num(val)
        if val.size == 0 and val.shape == (0, 0):
            return delete(a, idx)
        if a.dtype.kind in "iu":
            src = to_int(val, a.dtype.name)
        elif val.dtype.kind in "iu":
            a = to_int(a, val.dtype.name)
            src = val
        elif a.dtype == bool and val.dtype != bool:
            a = a.astype(np.float64)
            src = val
        else:
            src = val.astype(a.dtype)
    else:
        raise Unsupported("indexed assignment to " + clsname(v))
    fill = np.zeros((0, 0)) if isinstance(v, Cell) else (0 if a.dtype == object else a.dtype.type(0))

    def grown(shape):
        g = np.empty(shape, dtype=a.dtype)
        if a.dtype == object:
            gf = g.reshape(-1)
            for i in range(gf.size):
                gf[i] = np.zeros((0, 0)) if isinstance(v, Cell) else 0
            g = gf.reshape(shape)
        else:
            g[...] = fill
        g[tuple(slice(0, d) for d in a.shape)] = a
        return g
    if len(idx) == 1:
        ix = idx[0]
        k = subs(ix, a.size, grow=True)
        need = int(k.max()) + 1 if k.size else 0
        if need > a.size:
            if a.size == 0:
                a = a.reshape(1, 0) if a.shape == (0, 0) else a
            if a.ndim == 2 and a.shape[1] == 1 and a.shape[0] > 1:
                a = grown((need, 1))
            elif a.ndim == 2 and a.shape[0] in (0, 1):
                a = grown((1, need))
            else:
                raise MError("Attempt to grow array along ambiguous dimension.")
        flat = a.reshape(-1, order="F").copy()
        s = src.reshape(-1, order="F")
        if s.size == 1:
            for i in k:
                flat[i] = s[0]
        elif s.size == k.size:
            for i, x in zip(k, s):
                flat[i] = x
        else:
            raise MError("Unable to perform assignment because the left and right sides have a different number of elements.")
        return redata(v, flat.reshape(a.shape, order="F"))
    if len(idx) < a.ndim:
        raise Unsupported("assignment with fewer subscripts than dimensions")
    a = a.reshape(a.shape + (1,) * (len(idx) - a.ndim))
    sdim = [d for d in src.shape if d != 1]
    ks = []
    free = list(src.shape)
    for q, (ix, d) in enumerate(zip(idx, a.shape)):
        if (ix is COLON or (isinstance(ix, Char) and ix.s == ":")) and d == 0 and src.size != 1:
            d = free[q] if q < len(free) else 1
        ks.append(subs(ix, d, grow=True))
    need = tuple(max(d, int(k.max()) + 1 if k.size else 0) for d, k in zip(a.shape, ks))
    if need != a.shape:
        a = grown(need)
    region = tuple(len(k) for k in ks)
    if src.size == 1:
        x = src.reshape(-1)[0]
        sel = np.empty(region, dtype=a.dtype)
        sf = sel.reshape(-1)
        for i in range(sf.size):
            sf[i] = x
        a[np.ix_(*ks)] = sf.reshape(region)
    else:
        if [d for d in region if d != 1] != sdim:
            raise MError("Unable to perform assignment because the size of the left side differs from the size of the right side.")
        a[np.ix_(*ks)] = src.reshape(region, order="F")
    return redata(v, a)


def delete(a, idx):
    if len(idx) != 1:
        raise Unsupported("deletion with several subscripts")
    k = subs(idx[0], a.size)
    keep = [i for i in range(a.size) if i not in set(k.tolist())]
    f = a.reshape(-1, order="F")[keep]
    return f.reshape(-1, 1) if a.shape[1] == 1 and a.shape[0] != 1 else f.reshape(1, -1)


def convert(name, v):
    """double(v), int32(v), logical(v) ..."""
    if isinstance(v, Py):
        v = py_numeric(v, name)
    if isinstance(v, Fi):
        fr = vec(lambda x: Fraction(x) / Fraction(2) ** v.f, v.raw)
        if name in INTS:
            return to_int(fr, name)
        return vec(lambda x: float(x), fr).astype(np.float64 if name == "double" else np.float32)
    if isinstance(v, Str) and name == "double":
        return dbl(float(v.s))
    if isinstance(v, np.ndarray) and v.dtype == object:
        a = v
    else:
        a = num(v)
    if name in INTS:
        return to_int(a, name)
    if name == "logical":
        return np.array([bool(x) for x in a.reshape(-1)], dtype=bool).reshape(a.shape)
    return a.astype(np.float64 if name == "double" else np.float32)


# ------------------------------------------------------------------------------------------------------------------ evaluator
class Interp:
    def __init__(self, paths, py_modules=None, echo=False):
        self.paths = list(paths)
        self.files = {}
        self.mods = py_modules or {}
        self.out = []
        self.echo = echo
        self.depth = 0

    # --- loading
    def load(self, name):
        if name in self.files:
            return self.files[name]
        for d in self.paths:
            p = os.path.join(d, name + ".m")
            if os.path.isfile(p):
                self.files[name] = Parser(open(p, encoding="utf-8", newline=None).read()).parse()
                return self.files[name]
            if os.path.isdir(os.path.join(d, "+" + name)):
                raise Unsupported("package folders")
        self.files[name] = None
        return None

    # --- entry points
    def call(self, name, *args, nout=1):
        r = self.callname(name, list(args), nout, None)
        return r[0] if nout == 1 else r

    def run_script(self, path, env=None):
        p = Parser(open(path, encoding="utf-8").read()).parse()
        e = env if env is not None else {}
        fr = Frame(e, p, None)
        try:
            self.block(p.script, fr)
        except _Return:
            pass
        return e

    def callname(self, name, args, nout, frame):
        if frame is not None and frame.file is not None and frame.file.classname is None and name in frame.file.funcs:
            return self.callfunc(frame.file.funcs[name], frame.file, args, nout)
        f = self.load(name)
        if f is not None:
            if f.classname:
                raise Unsupported(f"construction of class {name}")
            if f.order:
                return self.callfunc(f.funcs[f.order[0]], f, args, nout)
            if frame is None:
                raise Unsupported("script as a function")
            self.block(f.script, Frame(frame.vars, f, frame.func))
            return []
        b = BUILTINS.get(name)
        if b is None:
            raise Unsupported(f"function {name}")
        r = b(self, args, nout, frame)
        return list(r) if isinstance(r, tuple) else ([r] if r is not None else [])

    def callfunc(self, f, file, args, nout):
        if self.depth > 60:
            raise MError("Maximum recursion limit reached.")
        env = {}
        ins = f.ins
        if ins and ins[-1] == "varargin":
            for n, a in zip(ins[:-1], args):
                env[n] = a
            env["varargin"] = Cell.row(args[len(ins) - 1:])
        else:
            if len(args) > len(ins):
                raise MError(f"Too many input arguments to {f.name}.")
            for n, a in zip(ins, args):
                if n != "~":
                    env[n] = a
        fr = Frame(env, file, f)
        fr.nargin, fr.nargout = len(args), nout
        for n, e in f.defaults.items():
            if n not in env:
                env[n] = self.eval(e, fr)
        self.depth += 1
        try:
            self.block(f.body, fr)
        except _Return:
            pass
        finally:
            self.depth -= 1
        outs = f.outs
        res = []
        for o in outs:
            if o == "varargout":
                if "varargout" in env:
                    res += list(env["varargout"].a.reshape(-1, order="F"))
                break
            if o not in env:
                if len(res) < max(nout, 1) and nout > 0:
                    raise MError(f'Output argument "{o}" (and possibly others) not assigned a value in the execution with "{f.name}" function.')
                break
            res.append(env[o])
        return res

    def block(self, b, fr):
        for s in b:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        k = s[0]
        if k == "assign":
            r = self.multi(s[2], fr, 1)
            if not r:
                raise MError("Expression did not return a value.")
            self.assign(s[1], r[0], fr)
        elif k == "expr":
            e = s[1]
            r = self.multi(e, fr, 0)
            if r:
                fr.vars["ans"] = r[0]
        elif k == "massign":
            want = len(s[1])
            r = self.multi(s[2], fr, want)
            if len(r) < want:
                raise MError("Insufficient number of outputs from right hand side.")
            for l, v in zip(s[1], r):
                if l is not None:
                    self.assign(l, v, fr)
        elif k == "if":
            for c, b in s[1]:
                if truth(self.eval(c, fr)):
                    return self.block(b, fr)
            self.block(s[2], fr)
        elif k == "for":
            v = self.eval(s[2], fr)
            a = data(v)
            cols = a.reshape(a.shape[0], -1, order="F") if a.size else np.empty((0, 0))
            for j in range(cols.shape[1]):
                fr.vars[s[1]] = redata(v, cols[:, j:j + 1])
                try:
                    self.block(s[3], fr)
                except _Break:
                    break
                except _Continue:
                    continue
        elif k == "while":
            n = 0
            while truth(self.eval(s[1], fr)):
                n += 1
                if n > 100000:
                    raise MError("endless loop")
                try:
                    self.block(s[2], fr)
                except _Break:
                    break
                except _Continue:
                    continue
        elif k == "switch":
            v = self.eval(s[1], fr)
            for c, b in s[2]:
                cv = self.eval(c, fr)
                opts = list(cv.a.reshape(-1)) if isinstance(cv, Cell) else [cv]
                if any(self.case(v, o) for o in opts):
                    return self.block(b, fr)
            self.block(s[3], fr)
        elif k == "try":
            try:
                self.block(s[1], fr)
            except (MError, PyError) as e:
                if s[2]:
                    fr.vars[s[2]] = Struct({"message": Char(str(e)), "identifier": Char("")})
                self.block(s[3], fr)
        elif k == "return":
            raise _Return()
        elif k == "break":
            raise _Break()
        elif k == "continue":
            raise _Continue()
        elif k == "nop":
            pass
        else:
            raise Unsupported(k)

    @staticmethod
    def case(v, o):
        if isinstance(o, (Char, Str)) or isinstance(v, (Char, Str)):
            return isinstance(o, (Char, Str)) and isinstance(v, (Char, Str)) and o.s == v.s
        return isequal(v, o)

    # --- lvalues
    def assign(self, lhs, val, fr):
        if lhs[0] == "id":
            fr.vars[lhs[1]] = val
            return
        if lhs[0] not in ("index", "field"):
            raise Unsupported("assignment target")
        base = lhs[1]
        cur = self.lget(base, fr)
        if lhs[0] == "field":
            name = lhs[2] if isinstance(lhs[2], str) else text(self.eval(lhs[2], fr))
            if cur is None:
                cur = Struct()
            if isinstance(cur, Struct):
                cur = Struct(dict(cur.d))
                cur.d[name] = val
            elif isinstance(cur, Fi):
                cur = cur.like(cur.raw)
                if name not in ("RoundingMethod", "OverflowAction", "SumMode", "SumWordLength", "ProductMode", "RoundMode", "OverflowMode"):
                    raise Unsupported(f"fi property {name}")
                name = {"RoundMode": "RoundingMethod", "OverflowMode": "OverflowAction"}.get(name, name)
                cur.props[name] = text(val) if isinstance(val, (Char, Str)) else sint(val)
            elif isinstance(cur, Py):
                raise Unsupported("assignment to Python attribute")
            else:
                raise MError("Unable to perform assignment because dot indexing is not supported for variables of this type.")
            self.assign(base, cur, fr)
            return
        idx = self.indices(lhs[3], cur, fr)
        if lhs[2] == "{":
            if cur is not None and not isinstance(cur, Cell):
                raise MError("Unable to perform assignment because brace indexing is not supported for variables of this type.")
            new = put(cur, idx, val, brace=True)
        else:
            new = put(cur, idx, val)
        self.assign(base, new, fr)

    def lget(self, e, fr):
        if e[0] == "id":
            return fr.vars.get(e[1])
        try:
            return self.eval(e, fr)
        except MError:
            return None

    # --- expressions
    def eval(self, e, fr):
        r = self.multi(e, fr, 1)
        if not r:
            raise MError("Expression did not return a value.")
        return r[0]

    def indices(self, exprs, obj, fr):
        out = []
        for n, x in enumerate(exprs):
            if x[0] == "colon":
                out.append(COLON)
                continue
            fr.ends.append((obj, n, len(exprs)))
            try:
                out += self.multi(x, fr, 1)
            finally:
                fr.ends.pop()
        return out

    def arglist(self, exprs, fr):
        out = []
        for x in exprs:
            if x[0] == "colon":
                out.append(Char(":"))
            else:
                r = self.multi(x, fr, 1)
                out += r
        return out

    def multi(self, e, fr, nout):
        """values of an expression (comma lists give several)"""
        k = e[0]
        if k == "num":
            return [np.array([[e[1]]])]
        if k == "char":
            return [Char(e[1])]
        if k == "str":
            return [Str(e[1])]
        if k == "paren":
            return [self.eval(e[1], fr)]
        if k == "bin":
            if e[1] in ("&&", "||"):
                a = truth(self.eval(e[2], fr))
                if e[1] == "&&":
                    return [boolean(a and truth(self.eval(e[3], fr)))]
                return [boolean(a or truth(self.eval(e[3], fr)))]
            return [binop(e[1], self.eval(e[2], fr), self.eval(e[3], fr))]
        if k == "un":
            v = self.eval(e[2], fr)
            if e[1] == "~":
                return [np.array([not bool(x) for x in num(v).reshape(-1)], dtype=bool).reshape(num(v).shape)]
            if isinstance(v, Fi):
                if e[1] == "+":
                    return [v]
                if not v.s:
                    raise Unsupported("negation of unsigned fi")
                return [Fi(vec(lambda x: -x, v.raw), 1, v.w + 1, v.f, **v.props)]
            a = num(v)
            if a.dtype == bool:
                a = a.astype(float)
            if e[1] == "+":
                return [a]
            if a.dtype.kind in "iu":
                return [binop("-", np.zeros((1, 1), dtype=a.dtype), a)]
            return [-a]
        if k == "range":
            p = [scalar(self.eval(x, fr)) for x in e[1]]
            ts = [self.eval(x, fr) for x in e[1]]
            lo, st, hi = (p[0], 1, p[1]) if len(p) == 2 else p
            n = int(math.floor((hi - lo) / st + 1e-10)) + 1 if st else 0
            vals = [lo + i * st for i in range(max(n, 0))]
            dt = next((t.dtype for t in ts if isinstance(t, np.ndarray) and t.dtype.kind in "iu"), np.float64)
            return [np.array(vals, dtype=dt).reshape(1, -1)]
        if k == "matrix":
            return [self.matrix(e[1], fr)]
        if k == "cell":
            rows = []
            for r in e[1]:
                vals = self.arglist(r, fr)
                rows.append(vals)
            rows = [r for r in rows if r]
            if not rows:
                return [Cell(np.empty((0, 0), dtype=object))]
            if len({len(r) for r in rows}) != 1:
                raise MError("Dimensions of arrays being concatenated are not consistent.")
            a = np.empty((len(rows), len(rows[0])), dtype=object)
            for i, r in enumerate(rows):
                for j, v in enumerate(r):
                    a[i, j] = v
            return [Cell(a)]
        if k == "trans":
            v = self.eval(e[1], fr)
            a = data(v)
            if a.ndim > 2:
                raise MError("Transpose on ND array is not defined.")
            return [redata(v, a.T)]
        if k == "colon":
            return [Char(":")]
        if k == "end":
            if not fr.ends:
                raise Unsupported("end outside of an index")
            obj, n, tot = fr.ends[-1]
            s = shape_of(obj)
            if tot == 1:
                return [dbl(int(np.prod(s)))]
            if n < tot - 1:
                return [dbl(s[n] if n < len(s) else 1)]
            return [dbl(int(np.prod(s[n:])) if n < len(s) else 1)]
        if k == "lambda":
            env = dict(fr.vars)

            def fn(args, nout, env=env, ins=e[1], body=e[2], file=fr.file):
                v = dict(env)
                if ins and ins[-1] == "varargin":
                    v.update(zip(ins[:-1], args))
                    v["varargin"] = Cell.row(args[len(ins) - 1:])
                else:
                    v.update(zip(ins, args))
                return self.multi(body, Frame(v, file, None), nout)
            return [Handle(fn)]
        if k == "handle":
            name = e[1]

            def fn(args, nout, name=name):
                node = ("id", name.split(".")[0])
                for q in name.split(".")[1:]:
                    node = ("field", node, q)
                v = dict(__args=Cell.row(args))
                return self.multi(("index", node, "(", [("index", ("id", "__args"), "{", [("colon",)])]), Frame(v, fr.file, None), nout)
            return [Handle(fn)]
        if k in ("id", "index", "field"):
            return self.chain(e, fr, nout)
        raise Unsupported(k)

    def chain(self, e, fr, nout):
        """names with any sequence of (), {} and . after them"""
        ops = []
        while e[0] in ("index", "field"):
            ops.append(e)
            e = e[1]
        ops.reverse()
        i = 0
        if e[0] == "id":
            name = e[1]
            if name in fr.vars:
                vals = [fr.vars[name]]
            elif name == "py":
                vals = [PyPath(None)]
            elif name in ("nargin", "nargout"):
                vals = [dbl(getattr(fr, name))]
            else:
                f = None
                local = fr.file is not None and fr.file.classname is None and name in fr.file.funcs
                if not local:
                    f = self.load(name)
                if f is not None and f.classname:
                    if not ops or ops[0][0] != "field":
                        raise Unsupported("class used without a method")
                    m = ops[0][2]
                    if m not in f.funcs:
                        raise MError(f"The class {name} has no Constant property or Static method named '{m}'.")
                    args = []
                    i = 1
                    if len(ops) > 1 and ops[1][0] == "index" and ops[1][2] == "(":
                        args = self.arglist(ops[1][3], fr)
                        i = 2
                    vals = self.callfunc(f.funcs[m], f, args, nout if i == len(ops) else 1)
                else:
                    args = []
                    if ops and ops[0][0] == "index" and ops[0][2] == "(":
                        args = self.arglist(ops[0][3], fr)
                        i = 1
                    if f is None and not local and name not in BUILTINS and \
                            ("_" in name or ops and ops[0][0] == "index" and ops[0][2] == "{" or i == 0 and name not in NOARG):
                        raise MError(f"Unrecognized function or variable '{name}'.")
                    vals = self.callname(name, args, nout if i == len(ops) else 1, fr)
        else:
            vals = self.multi(e, fr, 1)
        while i < len(ops):
            if len(vals) != 1:
                raise MError("Intermediate expression must return exactly one value.")
            v, o = vals[0], ops[i]
            last = i == len(ops) - 1
            if isinstance(v, PyPath):
                if o[0] == "field":
                    vals = [PyPath(self.pyget(v.o, o[2]))]
                elif o[2] == "(":
                    vals = [self.pycall(v.o, self.arglist(o[3], fr))]
                    vals = [x for x in vals if x is not None]
                else:
                    raise Unsupported("py{}")
                i += 1
                continue
            if isinstance(v, Py) and o[0] == "field":
                nm = o[2] if isinstance(o[2], str) else text(self.eval(o[2], fr))
                nxt = ops[i + 1] if i + 1 < len(ops) else None
                if nm in INTS or nm in ("double", "single", "logical", "char", "string"):
                    if not hasattr(v.o, nm):
                        vals = [convert(nm, v) if nm not in ("char", "string") else Char(str(v.o))]
                        i += 1
                        continue
                try:
                    at = getattr(v.o, nm)
                except AttributeError:
                    raise MError(f"Unrecognized method, property, or field '{nm}' for class '{clsname(v)}'.")
                if callable(at) and not isinstance(at, (int, float)):
                    args = []
                    if nxt is not None and nxt[0] == "index" and nxt[2] == "(":
                        args = self.arglist(nxt[3], fr)
                        i += 1
                    vals = [self.pycall(at, args)]
                else:
                    vals = [from_py(at)]
                i += 1
                continue
            if o[0] == "field":
                nm = o[2] if isinstance(o[2], str) else text(self.eval(o[2], fr))
                if isinstance(v, Struct):
                    if nm not in v.d:
                        raise MError(f"Unrecognized field name \"{nm}\".")
                    vals = [v.d[nm]]
                elif isinstance(v, Fi):
                    vals = [self.fiprop(v, nm)]
                elif isinstance(v, NT):
                    vals = [dbl({"WordLength": v.w, "FractionLength": v.f, "SignednessBool": v.s}[nm])]
                else:
                    raise MError("Dot indexing is not supported for variables of this type.")
                i += 1
                continue
            if isinstance(v, Handle):
                if o[2] != "(":
                    raise MError("Brace indexing is not supported for variables of this type.")
                vals = v.fn(self.arglist(o[3], fr), nout if last else 1)
                i += 1
                continue
            idx = self.indices(o[3], v, fr)
            if isinstance(v, Py):
                vals = [self.pyindex(v, idx, o[2])]
            elif o[2] == "{":
                if not isinstance(v, Cell):
                    raise MError("Brace indexing is not supported for variables of this type.")
                vals = list(get(v, idx).a.reshape(-1, order="F"))
            else:
                if isinstance(v, (Struct, Str)) and all(x is COLON or sint(x) == 1 for x in idx):
                    vals = [v]
                else:
                    vals = [get(v, idx)]
            i += 1
        if len(vals) == 1 and isinstance(vals[0], PyPath):
            o = vals[0].o
            if callable(o) and not isinstance(o, type) or isinstance(o, type):
                vals = [self.pycall(o, [])]
            else:
                vals = [from_py(o)]
        return vals

    def pyindex(self, v, idx, kind):
        o = v.o
        if isinstance(o, (list, tuple)):
            if kind == "{":
                if len(idx) == 2:
                    idx = idx[1:]
                k = sint(idx[0]) - 1
                if not 0 <= k < len(o):
                    raise MError("Python index out of range")
                return from_py(o[k])
        if isinstance(o, np.ndarray):
            return from_py(o[tuple(np.asarray(subs(x, d)) if x is not COLON else slice(None) for x, d in zip(idx, o.shape))]) \
                if all(x is COLON for x in idx) else self.nope("indexing a numpy array")
        raise Unsupported(f"indexing {clsname(v)}")

    def nope(self, what):
        raise Unsupported(what)

    def fiprop(self, v, nm):
        if nm in v.props:
            p = v.props[nm]
            return Char(p) if isinstance(p, str) else dbl(p)
        if nm == "WordLength":
            return dbl(v.w)
        if nm == "FractionLength":
            return dbl(v.f)
        if nm == "Signed":
            return boolean(v.s)
        if nm == "Signedness":
            return Char("Signed" if v.s else "Unsigned")
        if nm in ("double", "data", "Value"):
            return convert("double", v)
        raise Unsupported(f"fi.{nm}")

    def pyget(self, o, name):
        if o is None:
            if name in self.mods:
                return self.mods[name]
            if name in ("True", "False", "None"):
                return {"True": True, "False": False, "None": None}[name]
            if hasattr(builtins, name):
                return getattr(builtins, name)
            try:
                return importlib.import_module(name)
            except ImportError:
                raise MError(f"Unable to resolve the name 'py.{name}'.")
        if hasattr(o, name):
            return getattr(o, name)
        if hasattr(o, "__path__"):
            try:
                return importlib.import_module(o.__name__ + "." + name)
            except ImportError:
                pass
        raise MError(f"Unable to resolve the name '{name}'.")

    def pycall(self, f, args):
        pos, kw = [], {}
        for a in args:
            if isinstance(a, PyArgs):
                kw.update(a.d)
            else:
                pos.append(to_py(a))
        try:
            r = f(*pos, **kw)
        except Exception as e:
            raise PyError(f"Python Error: {type(e).__name__}: {e}") from e
        return from_py(r)

    def matrix(self, rows, fr):
        rws = [self.arglist(r, fr) for r in rows]
        rws = [r for r in rws if r]
        if not rws:
            return np.zeros((0, 0))
        return concat([concat(r, 1) for r in rws], 0)


# MATLAB functions used without arguments: anything else without arguments and without a value is an undefined variable
NOARG = {"pi", "eps", "inf", "Inf", "nan", "NaN", "i", "j", "tic", "toc", "rand", "randn", "now", "clock", "date", "pwd", "version", "missing",
         "computer", "realmax", "realmin", "flintmax", "intmax", "intmin", "rng", "gcf", "cputime", "fimath", "globalfimath", "numerictype", "fi",
         "pyenv", "datetime", "figure", "drawnow", "lasterr", "mfilename", "nargin", "nargout", "ans", "struct", "string", "cell", "zeros", "ones"}


class PyError(MError):
    pass


class Frame:
    def __init__(self, env, file, func):
        self.vars, self.file, self.func = env, file, func
        self.ends = []
        self.nargin = self.nargout = 0


def concat(vals, dim):
    if len(vals) == 1:
        return vals[0]
    if any(isinstance(v, Cell) for v in vals):
        parts = []
        for v in vals:
            if not isinstance(v, Cell):
                c = np.empty((1, 1), dtype=object)
                c[0, 0] = v
                parts.append(c)
            elif v.a.size:
                parts.append(v.a)
        return Cell(np.concatenate(parts, axis=dim)) if parts else vals[0]
    if any(isinstance(v, Str) for v in vals):
        raise Unsupported("string arrays")
    if any(isinstance(v, Char) for v in vals):
        if dim == 1:
            return Char("".join(v.s if isinstance(v, Char) else "".join(chr(int(x)) for x in num(v).reshape(-1)) for v in vals))
        raise Unsupported("char matrices")
    if any(isinstance(v, Fi) for v in vals):
        if dim > 3 or not all(isinstance(v, Fi) and (v.s, v.w, v.f) == (vals[0].s, vals[0].w, vals[0].f) for v in vals):
            raise Unsupported("concatenation of different fi types")
        return vals[0].like(cat([v.raw for v in vals], dim))
    if any(isinstance(v, (Struct, Handle)) for v in vals):
        raise Unsupported("struct arrays")
    arrs = [num(v) for v in vals]
    arrs = [a for a in arrs if a.shape != (0, 0)]
    if not arrs:
        return np.zeros((0, 0))
    it = next((a.dtype for a in arrs if a.dtype.kind in "iu"), None)
    if it is not None:
        arrs = [to_int(a, it.name) for a in arrs]
    elif any(a.dtype != bool for a in arrs):
        arrs = [a.astype(np.float64) if a.dtype == bool else a for a in arrs]
    return cat(arrs, dim)


def cat(arrs, dim):
    nd = max([a.ndim for a in arrs] + [dim + 1])
    arrs = [a.reshape(a.shape + (1,) * (nd - a.ndim)) for a in arrs]
    try:
        return trim(np.concatenate(arrs, axis=dim))
    except ValueError:
        raise MError("Dimensions of arrays being concatenated are not consistent.")


# ------------------------------------------------------------------------------------------------------------------ builtins
BUILTINS = {}


def bi(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return d


def simple(name, f):
    BUILTINS[name] = lambda I, a, n, fr: f(*a)


for _n in list(INTS) + ["double", "single", "logical"]:
    simple(_n, lambda v, _n=_n: convert(_n, v))

simple("isrow", lambda v: boolean(len(shape_of(v)) == 2 and shape_of(v)[0] == 1))
simple("iscolumn", lambda v: boolean(len(shape_of(v)) == 2 and shape_of(v)[1] == 1))
simple("isvector", lambda v: boolean(len(shape_of(v)) == 2 and 1 in shape_of(v)))
simple("isscalar", lambda v: boolean(tuple(shape_of(v)) == (1, 1)))
simple("ismatrix", lambda v: boolean(len(shape_of(v)) == 2))
simple("isempty", lambda v: boolean(int(np.prod(shape_of(v))) == 0))
simple("numel", lambda v: dbl(int(np.prod(shape_of(v)))))
simple("ndims", lambda v: dbl(len(shape_of(v))))
simple("length", lambda v: dbl(max(shape_of(v)) if np.prod(shape_of(v)) else 0))
simple("class", lambda v: Char(clsname(v)))
simple("ischar", lambda v: boolean(isinstance(v, Char)))
simple("isstring", lambda v: boolean(isinstance(v, Str)))
simple("iscell", lambda v: boolean(isinstance(v, Cell)))
simple("isstruct", lambda v: boolean(isinstance(v, Struct)))
simple("islogical", lambda v: boolean(clsname(v) == "logical"))
simple("isnumeric", lambda v: boolean(isinstance(v, Fi) or isinstance(v, np.ndarray) and v.dtype != bool))
simple("isinteger", lambda v: boolean(isinstance(v, np.ndarray) and v.dtype.kind in "iu"))
simple("isfloat", lambda v: boolean(isinstance(v, np.ndarray) and v.dtype.kind == "f"))
simple("isfi", lambda v: boolean(isinstance(v, Fi)))
simple("issparse", lambda v: boolean(False))
simple("isreal", lambda v: boolean(not (isinstance(v, np.ndarray) and v.dtype.kind == "c")))
def need_fi(name, v):
    if not isinstance(v, Fi):
        raise MError(f"Undefined function '{name}' for input arguments of type '{clsname(v)}'.")
    return v


simple("issigned", lambda v: boolean(need_fi("issigned", v).s))
simple("true", lambda *a: np.ones(dims(a), dtype=bool))
simple("false", lambda *a: np.zeros(dims(a), dtype=bool))
simple("strcmp", lambda a, b: boolean(isinstance(a, (Char, Str)) and isinstance(b, (Char, Str)) and a.s == b.s))
simple("strcmpi", lambda a, b: boolean(isinstance(a, (Char, Str)) and isinstance(b, (Char, Str)) and a.s.lower() == b.s.lower()))
simple("string", lambda v: Str(text(v)))
simple("char", lambda v: Char(text(v)))
simple("isequal", lambda *a: boolean(all(isequal(a[0], x) for x in a[1:])))
simple("plus", lambda a, b: binop("+", a, b))
simple("minus", lambda a, b: binop("-", a, b))
simple("times", lambda a, b: binop(".*", a, b))
simple("rdivide", lambda a, b: binop("./", a, b))
simple("eq", lambda a, b: binop("==", a, b))
simple("newline", lambda: Char("\n"))
simple("pyenv", lambda *a: Struct({"Status": Char("Loaded"), "ExecutionMode": Char("InProcess"), "Version": Str("3.12")}))
simple("mfilename", lambda *a: Char("/nowhere/script"))
simple("fullfile", lambda *a: Char("/".join(text(x) for x in a)))
simple("fileparts", lambda a: Char(text(a).rsplit("/", 1)[0]))
simple("isvarname", lambda a: boolean(re.fullmatch(r"[A-Za-z]\w*", text(a)) is not None))
simple("func2str", lambda a: Char("f"))
simple("swapbytes", lambda a: a.byteswap())
simple("nnz", lambda a: dbl(int(np.count_nonzero(num(a)))))


def dims(a):
    a = [x for x in a if not isinstance(x, (Char, Str))]
    if not a:
        return (1, 1)
    if len(a) == 1:
        v = num(a[0])
        if v.size == 1:
            n = max(0, sint(a[0]))
            return (n, n)
        d = [max(0, int(x)) for x in v.reshape(-1)]
    else:
        d = [max(0, sint(x)) for x in a]
    while len(d) > 2 and d[-1] == 1:
        d.pop()
    return tuple(d)


@bi("zeros", "ones")
def _zeros(I, a, n, fr):
    raise Unsupported("zeros")


def mk_fill(x):
    def f(I, a, n, fr):
        t = "double"
        a = list(a)
        if len(a) > 1 and isinstance(a[-2], (Char, Str)) and a[-2].s == "like":
            t = clsname(a[-1])
            a = a[:-2]
        elif a and isinstance(a[-1], (Char, Str)):
            t = a[-1].s
            a = a[:-1]
        if t not in INTS and t not in ("double", "single"):
            raise Unsupported(f"zeros of class {t}")
        return np.full(dims(a), x, dtype=INTS.get(t) or {"double": np.float64, "single": np.float32}[t])
    return f


BUILTINS["zeros"] = mk_fill(0)
BUILTINS["ones"] = mk_fill(1)


@bi("cell")
def _cell(I, a, n, fr):
    if len(a) == 1 and isinstance(a[0], Py):
        return Cell.row([from_py(x) for x in a[0].o])
    d = dims(a)
    c = np.empty(int(np.prod(d)), dtype=object)
    for i in range(c.size):
        c[i] = np.zeros((0, 0))
    return Cell(c.reshape(d))


@bi("size")
def _size(I, a, n, fr):
    s = list(shape_of(a[0]))
    if len(a) > 1:
        ks = [int(x) for x in num(a[1]).reshape(-1)] if len(a) == 2 else [sint(x) for x in a[1:]]
        if any(k < 1 for k in ks):
            raise MError("Dimension argument must be a positive integer scalar.")
        r = [s[k - 1] if k <= len(s) else 1 for k in ks]
        return np.array([r], dtype=np.float64) if n <= 1 else tuple(dbl(x) for x in r)
    if n > 1:
        s = s[:n - 1] + [int(np.prod(s[n - 1:]))] if len(s) >= n else s + [1] * (n - len(s))
        return tuple(dbl(x) for x in s)
    return np.array([s], dtype=np.float64)


@bi("reshape")
def _reshape(I, a, n, fr):
    v = a[0]
    d = data(v)
    if len(a) == 2:
        s = [int(x) for x in num(a[1]).reshape(-1)]
        if len(s) < 2:
            raise MError("Size vector must have at least two elements.")
    else:
        s = [-1 if isinstance(x, np.ndarray) and x.size == 0 else sint(x) for x in a[1:]]
        if s.count(-1) > 1:
            raise MError("Size can only have one unknown dimension.")
        if -1 in s:
            rest = int(np.prod([x for x in s if x != -1]))
            if rest == 0 or d.size % rest:
                raise MError("Product of known dimensions not divisible into total number of elements.")
            s[s.index(-1)] = d.size // rest
    if int(np.prod(s)) != d.size:
        raise MError("Number of elements must not change. Use [] as one of the size inputs to automatically calculate the appropriate size.")
    return redata(v, d.reshape(s, order="F"))


@bi("squeeze")
def _squeeze(I, a, n, fr):
    d = data(a[0])
    if d.ndim <= 2:
        return a[0]
    s = [x for x in d.shape if x != 1]
    s += [1] * (2 - len(s))
    return redata(a[0], d.reshape(s, order="F"))


@bi("permute")
def _permute(I, a, n, fr):
    d = data(a[0])
    p = [int(x) - 1 for x in num(a[1]).reshape(-1)]
    if len(p) < d.ndim:
        raise MError("ORDER must have at least N elements.")
    d = d.reshape(d.shape + (1,) * (len(p) - d.ndim))
    return redata(a[0], d.transpose(p))


@bi("repmat")
def _repmat(I, a, n, fr):
    v = a[0]
    r = dims(a[1:])
    d = v.s and data(v) if isinstance(v, Char) else data(v)
    if isinstance(v, Char):
        if r[0] != 1:
            raise Unsupported("repmat of char")
        return Char(v.s * r[1])
    d = d.reshape(d.shape + (1,) * (len(r) - d.ndim))
    return redata(v, np.tile(d, tuple(r) + (1,) * (d.ndim - len(r))))


@bi("horzcat")
def _horzcat(I, a, n, fr):
    return concat(a, 1)


@bi("vertcat")
def _vertcat(I, a, n, fr):
    return concat(a, 0)


@bi("cat")
def _cat(I, a, n, fr):
    return concat(a[1:], sint(a[0]) - 1)


@bi("num2cell")
def _num2cell(I, a, n, fr):
    v = a[0]
    d = data(v)
    c = np.empty(d.shape, dtype=object)
    cf = c.reshape(-1)
    for i, x in enumerate(d.reshape(-1)):
        e = np.empty((1, 1), dtype=d.dtype)
        e[0, 0] = x
        cf[i] = redata(v, e)
    return Cell(cf.reshape(d.shape))


def unary_num(f, fint=lambda x: x):
    def g(I, a, n, fr):
        v = a[0]
        if isinstance(v, Fi):
            raise Unsupported("function of fi")
        x = num(v)
        if x.dtype.kind in "iu":
            r = vec(lambda t: fint(int(t)), x)
            info = np.iinfo(x.dtype)
            return np.array([min(max(t, info.min), info.max) for t in r.reshape(-1)], dtype=x.dtype).reshape(x.shape)
        return f(x.astype(np.float64))
    return g


BUILTINS["ceil"] = unary_num(np.ceil)
BUILTINS["floor"] = unary_num(np.floor)
BUILTINS["fix"] = unary_num(np.trunc)
BUILTINS["round"] = unary_num(lambda x: np.sign(x) * np.floor(np.abs(x) + 0.5))
BUILTINS["log2"] = unary_num(np.log2)
BUILTINS["real"] = unary_num(lambda x: x)
BUILTINS["isnan"] = lambda I, a, n, fr: np.isnan(num(a[0]).astype(float))


@bi("abs")
def _abs(I, a, n, fr):
    v = a[0]
    if isinstance(v, Fi):
        r = v.like(v.raw)
        r.raw = vec(lambda x: r.fit(abs(x)), v.raw)
        return r
    return unary_num(np.abs, abs)(I, a, n, fr)


def reducer(f):
    def g(I, a, n, fr):
        x = num(a[0])
        if len(a) > 1:
            if isinstance(a[1], Char) and a[1].s == "all":
                return f(x.reshape(-1), 0).reshape(1, 1)
            k = sint(a[1]) - 1
        else:
            k = next((i for i, d in enumerate(x.shape) if d != 1), 0)
        if x.size == 0:
            raise Unsupported("reduction of empty array")
        if k >= x.ndim:
            return x
        return trim(np.expand_dims(f(x, k), k))
    return g


BUILTINS["sum"] = reducer(lambda x, k: np.sum(x.astype(float), axis=k))
BUILTINS["prod"] = reducer(lambda x, k: np.prod(x.astype(float), axis=k))
BUILTINS["any"] = reducer(lambda x, k: np.any(x != 0, axis=k))
BUILTINS["all"] = reducer(lambda x, k: np.all(x != 0, axis=k))


def minmax(f, fa):
    def g(I, a, n, fr):
        if len(a) == 1:
            return reducer(lambda x, k: fa(x, axis=k))(I, a, n, fr)
        if len(a) == 2 and not (isinstance(a[1], np.ndarray) and a[1].size == 0):
            x, y = num(a[0]), num(a[1])
            t = x.dtype if x.dtype.kind in "iu" else y.dtype if y.dtype.kind in "iu" else np.dtype(np.float64)
            return np.array(vec(f, x, y).tolist(), dtype=t)
        raise Unsupported("max/min form")
    return g


BUILTINS["max"] = minmax(max, np.max)
BUILTINS["min"] = minmax(min, np.min)


@bi("mod", "rem")
def _mod(I, a, n, fr):
    x, y = num(a[0]), num(a[1])
    t = x.dtype if x.dtype.kind in "iu" else y.dtype if y.dtype.kind in "iu" else np.dtype(np.float64)
    return np.array(vec(lambda p, q: p % q if q else p, x.astype(object), y.astype(object)).tolist(), dtype=t)


@bi("idivide")
def _idivide(I, a, n, fr):
    mode = a[2].s if len(a) > 2 else "fix"
    x, y = num(a[0]), num(a[1])
    t = x.dtype if x.dtype.kind in "iu" else y.dtype
    f = {"fix": math.trunc, "floor": math.floor, "ceil": math.ceil, "round": lambda q: rnd(q, "Round")}[mode]
    return np.array(vec(lambda p, q: f(frac(p) / frac(q)), x, y).tolist(), dtype=t)


@bi("randi")
def _randi(I, a, n, fr):
    lim = [int(x) for x in num(a[0]).reshape(-1)]
    lo, hi = (1, lim[0]) if len(lim) == 1 else lim
    return np.random.randint(lo, hi + 1, size=dims(a[1:])).astype(float)


@bi("fprintf", "disp", "warning", "addpath", "rmpath", "insert", "terminate", "display")
def _print(I, a, n, fr):
    I.out.append(" ".join(x.s if isinstance(x, (Char, Str)) else "" for x in a))
    return ()


@bi("append", "strcat")
def _append(I, a, n, fr):
    s = "".join(text(x) for x in a)
    return Str(s) if any(isinstance(x, Str) for x in a) else Char(s)


@bi("sprintf", "num2str", "mat2str", "int2str")
def _sprintf(I, a, n, fr):
    if isinstance(a[0], (Char, Str)):
        try:
            r = re.sub(r"%[-0-9.]*[ids]", "%s", a[0].s) % tuple(text(x) for x in a[1:])
        except (TypeError, ValueError):
            raise Unsupported("sprintf")
        return Char(r)
    return Char(text(a[0]))


@bi("error")
def _error(I, a, n, fr):
    raise MError(a[-1 if len(a) == 1 else 0].s if isinstance(a[0], (Char, Str)) else "error")


@bi("assert")
def _assert(I, a, n, fr):
    if not truth(a[0]):
        raise MError("Assertion failed. " + (text(a[1]) if len(a) > 1 else ""))
    return ()


@bi("narginchk")
def _narginchk(I, a, n, fr):
    if not scalar(a[0]) <= fr.nargin <= scalar(a[1]):
        raise MError("Not enough or too many input arguments.")
    return ()


@bi("exist")
def _exist(I, a, n, fr):
    return dbl(1 if a[0].s in fr.vars else (2 if I.load(a[0].s) else 0))


@bi("isfield")
def _isfield(I, a, n, fr):
    return boolean(isinstance(a[0], Struct) and text(a[1]) in a[0].d)


@bi("fieldnames")
def _fieldnames(I, a, n, fr):
    c = Cell.row([Char(k) for k in a[0].d])
    return Cell(c.a.T)


@bi("struct")
def _struct(I, a, n, fr):
    return Struct({text(a[i]): a[i + 1] for i in range(0, len(a), 2)})


@bi("isa")
def _isa(I, a, n, fr):
    c, t = clsname(a[0]), text(a[1])
    return boolean(c == t or t == "numeric" and isinstance(a[0], np.ndarray) and a[0].dtype != bool
                   or t == "integer" and isinstance(a[0], np.ndarray) and a[0].dtype.kind in "iu"
                   or t == "float" and isinstance(a[0], np.ndarray) and a[0].dtype.kind == "f"
                   or t == "py.object" and isinstance(a[0], Py)
                   or isinstance(a[0], Py) and any(t == "py." + (k.__qualname__ if k.__module__ == "builtins" else k.__module__ + "." + k.__qualname__)
                                                   for k in type(a[0].o).__mro__))


@bi("ismember")
def _ismember(I, a, n, fr):
    opts = list(a[1].a.reshape(-1)) if isinstance(a[1], Cell) else [redata(a[1], np.array([[x]], dtype=a[1].dtype)) for x in num(a[1]).reshape(-1)]
    return boolean(any(Interp.case(a[0], o) for o in opts))


@bi("pyargs")
def _pyargs(I, a, n, fr):
    return PyArgs({text(a[i]): to_py(a[i + 1]) for i in range(0, len(a), 2)})


@bi("cellfun", "arrayfun")
def _cellfun(I, a, n, fr):
    fn = a[0]
    uniform = True
    a = list(a)
    for i in range(len(a) - 1):
        if isinstance(a[i], (Char, Str)) and a[i].s == "UniformOutput":
            uniform = truth(a[i + 1])
            a = a[:i]
            break
    src = [v.a if isinstance(v, Cell) else _num2cell(I, [v], 1, fr).a for v in a[1:]]
    shp = src[0].shape
    res = []
    for t in zip(*[s.reshape(-1) for s in src]):
        r = fn.fn(list(t), 1) if isinstance(fn, Handle) else I.callname(text(fn), list(t), 1, fr)
        res.append(r[0] if r else None)
    if uniform:
        return concat(res, 1).reshape(shp) if len(res) > 1 else res[0]
    c = np.empty(len(res), dtype=object)
    for i, r in enumerate(res):
        c[i] = r
    return Cell(c.reshape(shp))


@bi("feval")
def _feval(I, a, n, fr):
    r = a[0].fn(list(a[1:]), n) if isinstance(a[0], Handle) else I.callname(text(a[0]), list(a[1:]), n, fr)
    return tuple(r)


@bi("deal")
def _deal(I, a, n, fr):
    return tuple(a) if len(a) > 1 else tuple(a * max(n, 1))


# Fixed-Point Designer -----------------------------------------------------------------------------------
@bi("numerictype")
def _numerictype(I, a, n, fr):
    if len(a) != 3:
        if len(a) == 1 and isinstance(a[0], Fi):
            return NT(a[0].s, a[0].w, a[0].f)
        raise Unsupported("numerictype form")
    return NT(int(truth(a[0])), sint(a[1]), sint(a[2]))


@bi("fi")
def _fi(I, a, n, fr):
    if len(a) == 2 and isinstance(a[1], NT):
        s, w, f = a[1].s, a[1].w, a[1].f
    elif len(a) == 4:
        s, w, f = int(truth(a[1])), sint(a[2]), sint(a[3])
    else:
        raise Unsupported("fi form")
    r = Fi(np.zeros((1, 1), dtype=object), s, w, f)
    v = a[0]
    fr_ = vec(lambda x: Fraction(x) / Fraction(2) ** v.f, v.raw) if isinstance(v, Fi) else vec(frac, num(v))
    r.raw = vec(lambda x: r.fit(rnd(x * Fraction(2) ** f, "Nearest")), fr_)
    return r


@bi("reinterpretcast")
def _reinterpretcast(I, a, n, fr):
    x, t = a
    if not isinstance(x, Fi):
        x = Fi(x.astype(object), int(x.dtype.kind == "i"), x.dtype.itemsize * 8, 0)
    if x.w != t.w:
        raise MError("The wordlength of the input and the numerictype must be equal.")
    r = Fi(x.raw, t.s, t.w, t.f, **x.props)
    r.raw = vec(lambda v: r.wrap(int(v)), x.raw)
    return r


@bi("pow2")
def _pow2(I, a, n, fr):
    if len(a) == 1:
        return binop(".^", dbl(2), a[0])
    x, k = a[0], sint(a[1])
    if not isinstance(x, Fi):
        return binop(".*", x, dbl(2.0 ** k))
    r = x.like(x.raw)
    r.raw = vec(lambda v: x.fit(rnd(Fraction(v) * Fraction(2) ** k, x.props["RoundingMethod"])), x.raw)
    return r


@bi("bitsll", "bitshift")
def _bitsll(I, a, n, fr):
    x, k = a[0], sint(a[1])
    if not isinstance(x, Fi):
        raise Unsupported("bitshift of a non-fi")
    r = x.like(x.raw)
    r.raw = vec(lambda v: x.wrap(v << k if k >= 0 else v >> -k), x.raw)
    return r


@bi("bitsrl")
def _bitsrl(I, a, n, fr):
    x, k = a[0], sint(a[1])
    r = x.like(x.raw)
    r.raw = vec(lambda v: x.wrap((v & ((1 << x.w) - 1)) >> k), x.raw)
    return r


@bi("bitsra")
def _bitsra(I, a, n, fr):
    x, k = a[0], sint(a[1])
    r = x.like(x.raw)
    r.raw = vec(lambda v: v >> k, x.raw)
    return r


@bi("bitsliceget")
def _bitsliceget(I, a, n, fr):
    x, hi, lo = a[0], sint(a[1]), sint(a[2])
    return Fi(vec(lambda v: ((v & ((1 << x.w) - 1)) >> (lo - 1)) & ((1 << (hi - lo + 1)) - 1), x.raw), 0, hi - lo + 1, 0)


@bi("quantize")
def _quantize(I, a, n, fr):
    if len(a) < 2 or not isinstance(a[1], NT):
        raise Unsupported("quantize form")
    x, t = need_fi("quantize", a[0]), a[1]
    mode = text(a[2]) if len(a) > 2 else "Floor"
    ov = text(a[3]) if len(a) > 3 else "Wrap"
    r = Fi(x.raw, t.s, t.w, t.f, OverflowAction=ov)
    r.raw = vec(lambda v: r.fit(rnd(Fraction(v) * Fraction(2) ** (t.f - x.f), mode)), x.raw)
    return r


@bi("storedInteger")
def _stored(I, a, n, fr):
    x = a[0]
    n = next((b for b in (8, 16, 32, 64) if b >= x.w), None)
    if n is None:
        raise MError("storedInteger: word length too large")
    return np.array(x.raw.tolist(), dtype=INTS[("" if x.s else "u") + f"int{n}"])


simple("wordlength", lambda v: dbl(v.w))
simple("fractionlength", lambda v: dbl(v.f))
simple("lsb", lambda v: dbl(2.0 ** -v.f))
