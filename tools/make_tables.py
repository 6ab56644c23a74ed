"""Fills the tables of repaired defects and planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "DESIGN.md")
s = open(D).read()


def put(name, lines):
    global s
    s = re.sub(f"<!-- {name} -->.*?<!-- end -->", lambda m: f"<!-- {name} -->\n" + "\n".join(lines) + "\n<!-- end -->", s, flags=re.S)


fixes = []
for l in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]:
    m = re.fullmatch(r"fixed: property=(\w+) (\w+) (.*)", l)
    fixes.append("| " + " | ".join(m.groups()) + " |")
put("fixes", ["| property | commit | what failed |", "|---|---|---|"] + fixes)
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded*", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append(f"| `{os.path.basename(os.path.dirname(f))}` | {m['property']} | {m['needs']} |")
put("seeded", ["| planted bug | caught by | needs |", "|---|---|---|"] + rows)
open(D, "w").write(s)
