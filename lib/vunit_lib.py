"""Compiles VUnit's VHDL libraries with GHDL into directories (in the order of vhdl/*_files.txt):
DIR/vunit_lib (the core), and DIR/vc with the libraries osvvm and vunit_lib (core and verification components)."""
import os, sys, glob, shutil, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _files(name):
    roots = glob.glob("/opt/venv/lib/python3*/site-packages/vunit/vhdl")
    if not roots:
        raise RuntimeError("VUnit is not installed")
    with open(os.path.join(HERE, "vhdl", name)) as f:
        return [os.path.join(roots[0], l.strip()) for l in f if l.strip()]


def _analyse(lib, d, files, *opts):
    r = subprocess.run([shutil.which("ghdl") or "/usr/bin/ghdl", "-a", "--std=08", "-frelaxed", f"--work={lib}", f"--workdir={d}", *opts, *files],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    if r.returncode:
        raise RuntimeError(f"compiling {lib} failed")


def _into(d, fill):
    tmp = d + f".tmp{os.getpid()}"
    os.makedirs(tmp)
    try:
        fill(tmp)
    except Exception:
        shutil.rmtree(tmp)
        raise
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.rename(tmp, d)


def compile_into(d):
    _into(d, lambda t: _analyse("vunit_lib", t, _files("vunit_files.txt")))


def compile_vc_into(d):
    def fill(t):
        o, v = os.path.join(t, "osvvm"), os.path.join(t, "vunit_lib")
        os.makedirs(o)
        os.makedirs(v)
        _analyse("osvvm", o, _files("osvvm_files.txt"))
        _analyse("vunit_lib", v, _files("vunit_files.txt") + _files("vunit_vc_files.txt"), f"-P{o}")
    _into(d, fill)


if __name__ == "__main__":
    d = os.path.abspath(sys.argv[1])
    os.makedirs(d, exist_ok=True)
    compile_into(os.path.join(d, "vunit_lib"))
    compile_vc_into(os.path.join(d, "vc"))
    print("VUnit's libraries compiled in", d)
