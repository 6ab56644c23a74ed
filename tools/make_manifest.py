"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 **{f"C{i:02}": "property-based testing (Hypothesis) of the Python library against an exact rational/integer reference model"
    for i in range(1, 15)},
 "C07": "property-based differential testing (Hypothesis) of the narrow against the wide representation",
 "C12": "property-based metamorphic testing (Hypothesis): per-element evaluation, aliasing and input snapshots",
 "C13": "property-based testing (Hypothesis) of comparisons and bounds against exact rational order",
 "C14": "property-based testing (Hypothesis) of generated data, with seeded statistical oracle",
 **{f"C{i}": "property-based testing (Hypothesis) of the GHDL-compiled VHDL package against an exact integer model" for i in (15, 16, 18)},
 "C17": "property-based differential testing (Hypothesis) of the GHDL-compiled VHDL format functions against the Python functions and the model",
 "C19": "model-based stateful testing: random configurations and input histories on GHDL-compiled RTL, clock-by-clock model comparison",
 "C20": "property-based round-trip testing (Hypothesis) of GHDL-compiled string and format-file functions",
 "C21": "property-based round-trip testing (Hypothesis) of the GHDL-compiled text I/O packages against Python-made text",
 "C22": "property-based round-trip testing (Hypothesis) of data files between Python and GHDL-compiled VHDL",
 "C23": "property-based testing (Hypothesis) of the GHDL-compiled array functions against a Python model",
 "C24": "property-based differential testing (Hypothesis): the MATLAB wrappers, executed by an interpreter, against the Python package and an exact model",
 "C25": "property-based and stateful testing of a GHDL VHDL-93 build against exact models (the generators and oracles of C15-C20)",
 "C26": "model-based schedule exploration: generated thread schedules at byte-code granularity, invariants over the execution history",
 "C27": "property-based testing (Hypothesis) against enumeration; directory trees with deletions outside the scratch directory refused",
 "C29": "property-based testing (Hypothesis): sampled tests of the written data sets against the exact model, whole-set invariants, and generated run histories",
"C30": "stateful property-based testing (Hypothesis): generated call histories and line-granular thread schedules, differential against the same call alone in a new instance of the package",
"C31": "property-based testing (Hypothesis) of the GHDL-compiled test benches on generated data directories, right ones and wrong ones (generated faults), against an exact model of what they should hold",
 "C28": "property-based testing (Hypothesis) of illegal calls: each must be refused after its legal counterpart was answered, arguments unchanged",
}
NOTE = ("Generated-input search with an independent exact oracle; inputs are biased to ties, limits, overflow and the 53/64-bit "
        "borders; small formats are enumerated completely inside a case. A pass means no counterexample in the cases counted in the evidence.")
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i.lower()} quick", thorough_cmd=f"./run.sh {i.lower()} thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH[i], level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
