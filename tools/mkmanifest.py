"""writes MANIFEST.json from the specs that exist"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {"C24": "the Rust crate cannot be built here (its dependencies are not in the offline cargo cache), so no contract on it could be checked against code that runs"}
LEVEL = {}
NOTE = {}
try:
    exec(open(os.path.join(H, "tools", "levels.py")).read())
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(H, "specs", i + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="contract-based deductive verification of the mechanically extracted source (ovc + z3), refutations replayed on the real code",
            level=LEVEL.get(i, "proof"),
            level_note=NOTE.get(i, "every obligation generated from the current source is discharged for all inputs over exact real arithmetic; library functions by assumed contracts (evaluated on the real libraries by bounded runtime contracts)")))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks are used: /repo is checked as it is", source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
