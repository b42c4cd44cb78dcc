#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in props.py"""
import json, os
from props import P
V = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the compiled LLVM IR of the real code (engine/vsx), assertions and path conditions decided by Z3, counterexamples replayed natively"
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p.get("observe", ["public VSIPL++ API"]), hook_needed=None))
        f.write(json.dumps(d) + "\n")
checks = [dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough", technique=TECH, level="model_checking", level_note=p["note"]) for p in P if not p.get("na")]
m = dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p.get("na")],
         notes="No hooks in /repo. Every check compiles /repo/src (working tree) to LLVM bitcode, runs it in the symbolic executor engine/vsx with Z3, and replays counterexamples on a g++ build.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
