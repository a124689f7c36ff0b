"""Writes MANIFEST.json from properties.jsonl and the check files present."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {}
na_path = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(na_path):
    NA = json.load(open(na_path))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = ("symbolic execution of the real functions from LLVM IR (clang-18 output of /repo's current source), "
        "assertions discharged by term rewriting, Z3 or bit-blasting to kissat; counterexamples replayed against a native build")
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "checks", i + ".py")
    if os.path.exists(f) and i not in NA:
        checks.append(dict(property=i, quick_cmd="python3 /verif/run.py %s quick" % i,
                           thorough_cmd="python3 /verif/run.py %s thorough" % i, technique=TECH, level="model_checking",
                           level_note="every value of the symbolic inputs within the bounds listed in the evidence file; nothing is claimed outside them",
                           evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash /verif/engine/build.sh /verif/build/lsym", checks=checks, not_applicable=na,
         hooks=dict(guard="", enable="", source_commits=[]),
         notes="No hooks in /repo: harnesses in /verif/harness compile /repo's sources directly.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
