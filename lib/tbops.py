"""Requests to srv_tb (see lib/srv_tb_gen.py): text file I/O, fixed-point file I/O and array functions of the test bench packages."""
import os, re
import core, vhd, model as M
from core import Violation

TYPES = ["sg", "us", "bs", "bu", "ii", "sl", "bv", "su", "st", "bt"]
MODES = ["bin", "dec", "hex"]
NAMES = dict(sg="numeric_std.signed", us="numeric_std.unsigned", bs="numeric_bit.signed", bu="numeric_bit.unsigned", ii="integer",
             sl="std_logic_vector", bv="bit_vector", su="std_ulogic_vector", st="std_logic", bt="bit")
EXE = None


def prepare():
    global EXE
    EXE = vhd.build_tb()


def req(op, t="sl", mode="dec", sgn=0, w=1, dflt=0, skip=0, dir=0, cls=0, fmt=(0, 1, 0), text=""):
    return (f"{op} {TYPES.index(t)} {MODES.index(mode)} {sgn} {w} {dflt} {skip} {dir} {cls} {fmt[0]} {fmt[1]} {fmt[2]} \"{text}", 1)


def ask(what, lines):
    try:
        return [r.text for r in vhd.server(EXE).ask(lines)]
    except vhd.Died as e:
        k = len(e.done)
        raise Violation(f"{what}: the simulation stopped at request {lines[k][0][:200] if k < len(lines) else '?'}: {e.output[-600:]}")


def ask_or_stop(lines):
    """The replies, or None if the simulation stopped at the last request."""
    try:
        return [r.text for r in vhd.server(EXE).ask(lines)]
    except vhd.Died as e:
        if e.output.startswith("no reply") or len(e.done) != len(lines) - 1:
            raise Violation(f"the simulation stopped at request {len(e.done)}: {e.output[-600:]}")
        return None


def is_signed(t, sgn):
    return t in ("sg", "bs", "ii") or (t in ("sl", "bv", "su") and sgn == 1)


def bits(x, w):
    return M.bits(x, w)


def path(name):
    return os.path.join(core.scratch_private(), name)


def numeral(x, w, mode):
    """A numeral as the VHDL side writes it; x is the signed or unsigned value."""
    if mode == "dec":
        return str(x)
    if mode == "bin":
        return bits(x, w)
    n = (w + 3) // 4
    return f"{x % (1 << (4 * n)):0{n}X}"


def value(text, w, mode, signed):
    """The value of a numeral written by the VHDL side; None if it is not one."""
    try:
        if mode == "dec":
            return int(text) if re.fullmatch(r"-?[0-9]+" if signed else r"[0-9]+", text) else None
        if mode == "bin":
            x = int(text, 2) if re.fullmatch(r"[01]+", text) and len(text) == w else None
            k = w
        else:
            x = int(text, 16) if re.fullmatch(r"[0-9A-Fa-f]+", text) and len(text) == (w + 3) // 4 else None
            k = 4 * len(text)
    except ValueError:
        return None
    if x is not None and signed and x >> (k - 1):
        x -= 1 << k
    return x
