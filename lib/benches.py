"""Builds the repository's test benches (tb/cl_fix_*_tb.vhd) with GHDL and runs them the way VUnit does, on data files given by a check."""
import os, glob, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import core, vhd
from core import Violation

BENCHES = ["add", "sub", "addsub", "mult", "neg", "abs", "shift", "from_real", "compare", "round", "saturate", "resize"]
LIMIT_S = 60
_dir = None


def libs():
    import vunit_lib as v
    d = os.path.join(core.VERIF, "build", "vc")
    if not os.path.exists(os.path.join(d, "vunit_lib", "vunit_lib-obj08.cf")):
        d = os.path.join(core.scratch(), "vc")
        v.compile_vc_into(d)
    return [f"-P{os.path.join(d, 'vunit_lib')}", f"-P{os.path.join(d, 'osvvm')}"]


def build():
    """One executable per bench. The packages are compiled with the first bench; the others are then built side by side."""
    global _dir
    if _dir:
        return
    P = libs()
    d = os.path.join(core.scratch(), "benches")
    os.makedirs(os.path.join(d, "en_tb"))
    os.makedirs(os.path.join(d, "w"))
    P.append(f"-P{os.path.join(d, 'en_tb')}")
    vhd._ghdl(d, "-i", "--std=08", "-frelaxed", "--work=en_tb", "--workdir=en_tb", *P, *sorted(glob.glob(vhd.repo("lib", "en_tb", "hdl", "*.vhd"))),
              what="GHDL import of en_tb")
    vhd._ghdl(d, "-i", "--std=08", "--workdir=w", *P, *sorted(glob.glob(vhd.repo("hdl", "*.vhd")) + glob.glob(vhd.repo("tb", "util", "*.vhd")) +
                                                              glob.glob(vhd.repo("tb", "*.vhd"))), what="GHDL import of the test benches")

    def make(b, work):
        top = f"cl_fix_{b}_tb"
        vhd._ghdl(d, "-m", "--std=08", "-frelaxed", "-Wno-hide", f"--workdir={work}", *P, "-o", os.path.join(d, top), top,
                  what=f"GHDL build of the test bench {top}")
    make("resize", "w")
    rest = [b for b in BENCHES if b != "resize"]
    for b in rest:
        shutil.copytree(os.path.join(d, "w"), os.path.join(d, "w_" + b))
    with ThreadPoolExecutor(int(os.environ.get("VERIF_NPROC") or os.cpu_count() or 4)) as ex:
        for f in [ex.submit(make, b, "w_" + b) for b in rest]:
            f.result()
    for b in rest:
        shutil.rmtree(os.path.join(d, "w_" + b))
    _dir = d


def run(bench, files, meta=None):
    """Runs a bench on data files {name: text}. Returns (whether VUnit would call the test passed, the output)."""
    d = os.path.join(core.scratch_private(), "bench")
    if os.path.isdir(d):
        shutil.rmtree(d)
    data = os.path.join(d, "bittrue", "cosim", "cl_fix_" + bench, "data")
    for x in (data, os.path.join(d, "tb"), os.path.join(d, "out")):
        os.makedirs(x)
    for name, text in files.items():
        with open(os.path.join(data, name), "w") as f:
            f.write(text)
    cfg = f"active python runner : true,enabled_test_cases : test,output path : {d}/out/,tb path : {d}/tb/,use_color : false"
    cmd = [os.path.join(_dir, f"cl_fix_{bench}_tb"), f"-grunner_cfg={cfg}"] + ([] if meta is None else [f"-gmeta_width_g={meta}"])
    try:
        r = subprocess.run(cmd, cwd=os.path.join(d, "out"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=LIMIT_S)
    except subprocess.TimeoutExpired:
        raise Violation(f"the test bench cl_fix_{bench}_tb did not end within {LIMIT_S} s")
    res = os.path.join(d, "out", "vunit_results")
    lines = []
    if os.path.exists(res):
        with open(res) as f:
            lines = f.read().split("\n")
    ok = r.returncode == 0 and "test_start:test" in lines and "test_suite_done" in lines
    return ok, r.stdout.decode("latin1")
