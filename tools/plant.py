#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (seeded_hdl/<id>/ where the change is one of VHDL or MATLAB code) (patch.diff, demo.sh, meta.json and demo files) from the table of planted bugs in plants.py."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plants import PLANTS

PY_DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 if the property holds, 1 if not.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/bittrue/models/python" OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
'''
VHDL_DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 if the property holds, nonzero if not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d /tmp/demo_XXXXXX)"
trap 'rm -rf -- "$d"' EXIT
cd "$d" || exit 2
ghdl -i --std=08 "$repo"/hdl/*.vhd "$here/demo.vhd" || exit 2
ghdl -m --std=08 -Wno-hide demo > build.log 2>&1 || { cat build.log; exit 2; }
./demo > run.log 2>&1; rc=$?
cat run.log
[ $rc -eq 0 ] || exit 1
@AFTER@
'''
TB_DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 if the property holds, nonzero if not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d /tmp/demo_XXXXXX)"
trap 'rm -rf -- "$d"' EXIT
cd "$d" || exit 2
mkdir vu en_tb
root="$(echo /opt/venv/lib/python3*/site-packages/vunit/vhdl)"
sed "s|^|$root/|" "$here/vunit_files.txt" | xargs ghdl -a --std=08 -frelaxed --work=vunit_lib --workdir=vu > build.log 2>&1 || { tail build.log; exit 2; }
ghdl -i --std=08 -frelaxed --work=en_tb --workdir=en_tb -Pvu "$repo"/lib/en_tb/hdl/*.vhd || exit 2
ghdl -i --std=08 -Pen_tb -Pvu "$repo"/hdl/*.vhd "$repo"/tb/util/*.vhd "$here/demo.vhd" || exit 2
ghdl -m --std=08 -frelaxed -Wno-hide -Pen_tb -Pvu demo > build.log 2>&1 || { cat build.log; exit 2; }
./demo > run.log 2>&1; rc=$?
cat run.log
[ $rc -eq 0 ] || exit 1
@AFTER@
'''

BENCH_DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 if the property holds, nonzero if not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d /tmp/demo_XXXXXX)"
trap 'rm -rf -- "$d"' EXIT
cd "$d" || exit 2
mkdir os vu en_tb s s/tb s/out
root="$(echo /opt/venv/lib/python3*/site-packages/vunit/vhdl)"
sed "s|^|$root/|" "$here/osvvm_files.txt" | xargs ghdl -a --std=08 -frelaxed --work=osvvm --workdir=os > build.log 2>&1 || { tail build.log; exit 2; }
cat "$here/vunit_files.txt" "$here/vunit_vc_files.txt" | sed "s|^|$root/|" | xargs ghdl -a --std=08 -frelaxed --work=vunit_lib --workdir=vu -Pos > build.log 2>&1 || { tail build.log; exit 2; }
ghdl -i --std=08 -frelaxed --work=en_tb --workdir=en_tb -Pvu -Pos "$repo"/lib/en_tb/hdl/*.vhd || exit 2
ghdl -i --std=08 -Pen_tb -Pvu -Pos "$repo"/hdl/*.vhd "$repo"/tb/util/*.vhd "$repo"/tb/*.vhd || exit 2
bench=@BENCH@
ghdl -m --std=08 -frelaxed -Wno-hide -Pen_tb -Pvu -Pos ${bench}_tb > build.log 2>&1 || { cat build.log; exit 2; }
data="$d/s/bittrue/cosim/$bench/data"
mkdir -p "$data"
put() { local f="$data/$1"; shift; printf '# h\\n' > "$f"; printf '%s\\n' "$@" >> "$f"; }
run() { (cd s/out && ../../${bench}_tb -grunner_cfg="active python runner : false,enabled_test_cases : test,output path : $d/s/out/,tb path : $d/s/tb/" "$@" > run.log 2>&1); }
@DEMO@
'''


def make(p):
    d = os.path.join(V, "seeded" if all(f.endswith(".py") for f, _, _ in p["edits"]) else "seeded_hdl", p["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = f"/tmp/plant/{p['id']}/repo"
    shutil.rmtree(os.path.dirname(w), ignore_errors=True)
    os.makedirs(os.path.dirname(w))
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    for f, old, new in p["edits"]:
        path = os.path.join(w, f)
        s = open(path, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = s.count(old)
        if n == 0 or (n > 1 and not p.get("all")):
            raise SystemExit(f"{p['id']}: {n} matches of the text in {f}:\n{old}")
        open(path, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], check=True, stdout=subprocess.PIPE).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    kind = p["kind"]
    if kind == "py":
        sh = PY_DEMO
        open(os.path.join(d, "demo.py"), "w").write(p["demo"].lstrip("\n"))
        for f in p.get("extra", []):
            shutil.copy(os.path.join(V, f), d)
    elif kind == "bench":
        sh = BENCH_DEMO.replace("@BENCH@", p["bench"]).replace("@DEMO@", p["demo"].strip("\n"))
        for f in ("vunit_files.txt", "vunit_vc_files.txt", "osvvm_files.txt"):
            shutil.copy(os.path.join(V, "vhdl", f), d)
    elif kind == "sh":
        sh = p["demo"].lstrip("\n")
    else:
        sh = (TB_DEMO if kind == "tb" else VHDL_DEMO).replace("@AFTER@", p.get("after", "exit 0").strip())
        open(os.path.join(d, "demo.vhd"), "w").write(p["demo"].lstrip("\n"))
        if kind == "tb":
            shutil.copy(os.path.join(V, "vhdl", "vunit_files.txt"), d)
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    def demo(cwd):
        return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    a, b = demo("/repo"), demo(w)
    ok = a.returncode == 0 and b.returncode not in (0, 2)
    print(p["id"], "ok" if ok else f"BAD demo: clean {a.returncode}, patched {b.returncode}\n{a.stdout[-1500:]}\n---\n{b.stdout[-1500:]}", flush=True)
    if ok and "-v" in sys.argv:
        print(b.stdout[-500:])
    return ok


if __name__ == "__main__":
    want = [a for a in sys.argv[1:] if a != "-v"]
    for p in PLANTS:
        if not want or p["id"] in want:
            make(p)
