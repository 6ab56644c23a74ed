#!/bin/bash
# suite.sh ID...: runs the repository's own test suite on /tmp/plant/ID/repo (see plant.py), in a private mount namespace.
for id in "$@"; do
  p="/tmp/plant/$id"
  [ -s "$p/suite.txt" ] && continue
  mkdir -p "$p/reports" "$p/vunit"
  cp -a /opt/vunit/. "$p/vunit/"
  unshare -mp --fork --mount-proc bash -c "
    mount --bind $p/repo /repo && mount --bind $p/reports /opt/vp/reports 2>/dev/null; mkdir -p /opt/vp/reports
    mount --bind $p/vunit /opt/vunit || exit 1
    bash /opt/vp/build.sh > $p/build.log 2>&1 || echo BUILD-FAILED
    bash /opt/vp/test.sh $p/suite.json > $p/suite.log 2>&1"
  python3 - "$p" "$id" <<'P' | tee "$p/suite.txt"
import json, sys
p, i = sys.argv[1:]
b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
r = json.load(open(p + "/suite.json"))
k = r.get("passed") or [n for n, v in r.get("tests", {}).items() if v in ("pass", "passed", True)]
bad = sorted(b - set(k))
print(i, "suite", "ok" if not bad else f"FAILS {len(bad)}: {bad[:6]}")
P
done
