#!/usr/bin/env python3
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "props")]
NA = json.load(open(os.path.join(V, "tools", "na.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i + ".py")):
        m = importlib.import_module(i)
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": getattr(m, "TECHNIQUE", "symbolic execution of the compiler's LLVM IR and of the machine code it emits, equivalence decided by z3 for all inputs within bounds"),
                       "level": getattr(m, "LEVEL", "model_checking"), "level_note": getattr(m, "LEVEL_NOTE", "bounded: " + "; ".join("%s: %s" % (k, v if isinstance(v, str) else ", ".join(map(str, v))) for k, v in m.BOUNDS.items()))[:1500]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash symex/build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
