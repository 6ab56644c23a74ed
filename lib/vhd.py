"""Builds the VHDL servers from the repository's working tree with GHDL and talks to them."""
import os, sys, glob, math, re, select, shutil, subprocess, time, atexit
import core
from core import Violation, HarnessError

VHDL = os.path.join(core.VERIF, "vhdl")
GHDL = shutil.which("ghdl") or "/usr/bin/ghdl"
VUNIT_VHDL = glob.glob("/opt/venv/lib/python3*/site-packages/vunit/vhdl")
NO_REPLY_S = 60
_built = {}


def repo(*p):
    return os.path.join(core.REPO, *p)


def _ghdl(cwd, *args, what, timeout=600):
    r = subprocess.run([GHDL, *args], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                       stdin=subprocess.DEVNULL)
    if r.returncode:
        raise Violation(f"{what} failed:\n{r.stdout[-3000:]}")
    return r.stdout


def build_fix(top="srv_fix", extra=(), std="08"):
    """Compiles hdl/*.vhd and a top-level from /verif/vhdl; returns the executable."""
    key = (top, std)
    if key in _built:
        return _built[key]
    d = os.path.join(core.scratch(), f"ghdl_{top}_{std}")
    os.makedirs(d)
    util = os.path.join(VHDL, "srv_util.vhd")
    if std != "08":     # no flush procedure before VHDL-2008: the server's output is then made line-buffered instead
        with open(util) as f:
            text = f.read()
        util = os.path.join(d, "srv_util.vhd")
        with open(util, "w") as f:
            f.write(text.replace("flush(output);", ""))
    src = sorted(glob.glob(repo("hdl", "*.vhd"))) + [util] + (list(extra) or [os.path.join(VHDL, top + ".vhd")])
    what = f"GHDL build of the repository's VHDL as VHDL-{std} with {top}"
    _ghdl(d, "-i", f"--std={std}", *src, what="GHDL import")
    _ghdl(d, "-m", f"--std={std}", "-Wno-hide", top, what=what)
    exe = os.path.join(d, top)
    if std != "08":
        exe = os.path.join(d, "run_" + top)
        with open(exe, "w") as f:
            f.write(f'#!/bin/sh\nexec stdbuf -oL {d}/{top} "$@"\n')
        os.chmod(exe, 0o755)
    _built[key] = exe
    return exe


def vunit_lib():
    """Directory with VUnit's compiled VHDL: the one made by setup.sh, or a new one in the scratch directory."""
    import vunit_lib as v
    d = os.path.join(core.VERIF, "build", "vunit_lib")
    if os.path.exists(os.path.join(d, "vunit_lib-obj08.cf")):
        return d
    d = os.path.join(core.scratch(), "vunit_lib")
    v.compile_into(d)
    return d


def build_tb(top="srv_tb"):
    """Compiles the en_tb packages, the fixed-point packages with their file I/O package, and the server srv_tb."""
    import srv_tb_gen
    if top in _built:
        return _built[top]
    vu = vunit_lib()
    d = os.path.join(core.scratch(), "ghdl_" + top)
    os.makedirs(os.path.join(d, "en_tb"))
    with open(os.path.join(d, "srv_tb.vhd"), "w") as f:
        f.write(srv_tb_gen.generate())
    _ghdl(d, "-i", "--std=08", "-frelaxed", "--work=en_tb", "--workdir=en_tb", f"-P{vu}", *sorted(glob.glob(repo("lib", "en_tb", "hdl", "*.vhd"))),
          what="GHDL import of en_tb")
    _ghdl(d, "-i", "--std=08", "-Pen_tb", f"-P{vu}", *sorted(glob.glob(repo("hdl", "*.vhd"))), *sorted(glob.glob(repo("tb", "util", "*.vhd"))),
          os.path.join(VHDL, "srv_util.vhd"), os.path.join(d, "srv_tb.vhd"), what="GHDL import")
    _ghdl(d, "-m", "--std=08", "-frelaxed", "-Wno-hide", "-Pen_tb", f"-P{vu}", top, what=f"GHDL build of the repository's VHDL with {top}")
    _built[top] = os.path.join(d, top)
    return _built[top]


class Reply:
    __slots__ = ("text", "warnings")

    def __init__(self, text, warnings):
        self.text, self.warnings = text, warnings

    def __repr__(self):
        return f"Reply({self.text!r}, {len(self.warnings)} warnings)"


class Died(Exception):
    """The simulation stopped instead of answering."""
    def __init__(self, output, done):
        super().__init__(output)
        self.output, self.done = output, done


class Server:
    def __init__(self, exe):
        self.exe, self.p, self.buf = exe, None, b""
        atexit.register(self.stop)

    def start(self):
        self.buf = b""
        self.p = subprocess.Popen([self.exe, "--max-stack-alloc=0"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, cwd=core.scratch_private())

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def _line(self):
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], NO_REPLY_S)
            if not r:
                self.stop()
                return "timeout"
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d:
                return None
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return line.decode("latin1")

    def ask(self, lines):
        """lines: list of (request text, number of replies expected: 0 or 1). Returns the replies."""
        out = []
        k = 0
        while k < len(lines):
            size, j = 0, k
            while j < len(lines) and (j == k or size + len(lines[j][0]) < 30000):
                size += len(lines[j][0]) + 1
                j += 1
            if self.p is None:
                self.start()
            want = sum(n for _, n in lines[k:j])
            msg = []
            try:
                self.p.stdin.write(("\n".join(t for t, _ in lines[k:j]) + "\n").encode("latin1"))
                self.p.stdin.flush()
            except BrokenPipeError:
                pass
            while want:
                s = self._line()
                if s == "timeout":
                    raise Died(f"no reply within {NO_REPLY_S} s", out)
                if s is None:
                    rest = "\n".join(msg) + "\n" + self.buf.decode("latin1")
                    self.stop()
                    raise Died(rest.strip(), out)
                if s.startswith("= "):
                    out.append(Reply(s[2:], msg))
                    msg = []
                    want -= 1
                else:
                    msg.append(s)
            k = j
        return out


_servers = {}


def server(exe):
    key = (os.getpid(), exe)
    if key not in _servers:
        _servers[key] = Server(exe)
    return _servers[key]


def warned(r):
    """Whether the reply came with a warning raised by the code under test (not by an IEEE package)."""
    return any("warning)" in m and "ieee2008" not in m and "numeric_std" not in m.lower() for m in r.warnings)


def errors(r):
    return [m for m in r.warnings if "error)" in m]


# ---- encoding ----------------------------------------------------------------------------------

def real_token(x):
    s = 1 if math.copysign(1.0, x) < 0 else 0
    x = abs(x)
    if x == 0:
        return f"{s} 0 0 0"
    m, e = math.frexp(x)
    n = int(m * (1 << 53))
    e -= 53
    return f"{s} {n >> 26} {n & ((1 << 26) - 1)} {e}"


def token_real(t):
    if t == "inf":
        return math.inf
    s, hi, lo, e = map(int, t.split())
    v = math.ldexp((hi << 26) + lo, e)
    return -v if s else v


def header(op, variant=0, da=0, db=0, a=(0, 1, 0), b=(0, 1, 0), r=(0, 1, 0), rnd=0, sat=0, x=0):
    return (" ".join(map(str, ("H", op, variant, da, db, *a, *b, *r, rnd, sat, x))), 0)
