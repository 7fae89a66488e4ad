#!/usr/bin/env python3
"""note.py ID technique note: record the manifest text of a check."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "notes.json")
n = json.load(open(p))
n[sys.argv[1]] = dict(technique=sys.argv[2], note=sys.argv[3])
json.dump(n, open(p, "w"), indent=1)
