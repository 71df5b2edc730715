"""tools/fixed.py PROPERTY COMMIT WHAT: record a repair in known_findings.jsonl"""
import json, os, sys
p, c, w = sys.argv[1:4]
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.jsonl")
d = {"status": "fixed", "property": p, "commit": c, "what": w, "line": f"fixed: property={p} {c} {w}"}
open(f, "a").write(json.dumps(d) + "\n")
