#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the checks present in lib/ and the notes below."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}   # property -> (technique, level, note)
exec(open(os.path.join(V, "tool", "techniques.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = {os.path.basename(p)[2:-3].upper() for p in glob.glob(V + "/lib/p_c*.py")}
checks, na = [], []
for p in props:
    if p in have and p in T:
        t, lev, note = T[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": t, "level": lev, "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'lib'); import front; front._tool()\"",
     "checks": checks, "not_applicable": na,
     "notes": "All checks are static: each run exports the type-checked AST of /repo's current C++ sources with tool/export.cpp (and parses the Python/Cython sources) and decides on that. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
