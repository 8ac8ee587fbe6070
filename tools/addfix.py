#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT TEXT -- append a 'fixed' entry to known_findings.jsonl"""
import json, sys, os
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.jsonl')
p, c, t = sys.argv[1:4]
open(f, 'a').write(json.dumps({"status": "fixed", "property": p, "commit": c, "what": f"fixed: property={p} {c} {t}"}) + "\n")
