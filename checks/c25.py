"""C25 The RTL as VHDL-93: the checks of C15-C19 and the format strings of C20 on a VHDL-93 build of hdl/."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, vhd
from core import Sub
import vops as V
import c15, c16, c17, c18, c19, c20


def prepare():
    V.EXE = vhd.build_fix("srv_fix", std="93")
    c19.EXE = vhd.build_fix("srv_rtl", std="93")


def subs():
    out = []
    for mod in (c15, c16, c17, c18, c19, c20):
        for s in mod.SUBS:
            if mod is c20 and s.name == "format-files":     # test bench code: not VHDL-93
                continue
            out.append(Sub(f"{mod.__name__}-{s.name}", s.strategy, s.run, max(100, s.quick // 5), s.thorough // 4,
                           max_shards=2 if s.quick < 2000 else 4))
    return out


if __name__ == "__main__":
    raise SystemExit(core.main("C25", subs(), "distinct cases that are non-trivial by the rules of C15 (value changed), C16, C17, C18, C19 (valid sample out, another one reset) and C20",
                               ["GHDL 4.1 implements VHDL-93 correctly"], prepare=prepare))
