#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        mc = props.PROPS[i]["mc"]
        mods = sorted({m for v in (mc.values() if isinstance(mc, dict) else [mc]) for (m, _) in v})
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique="TLA+ specification model checked with TLC; TLC validation of traces of the real code, driven by behaviours of the specification",
                           level="model_checking",
                           level_note=f"The design ({', '.join(mods)}) is checked exhaustively within small constants, and the real code is shown to follow it in every recorded execution of the generated scenarios (bounded exploration of the code, not a proof). Trusts TLC, the drivers in harness/, Python, mesa, networkx and pandas."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
               notes="Each check validates traces of /repo's working tree, imported from source: nothing has to be built. See DESIGN.md."),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
