#!/usr/bin/env python3
"""stable.py OUT.json: lists baseline-stable tests that do not pass in OUT.json."""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open(sys.argv[1]))
p = set(t['passed'])
bad = [x for x in b['stable'] if x not in p]
print(len(b['stable']), "stable,", len(bad), "not passing"); [print(" ", x) for x in bad]
sys.exit(1 if bad else 0)
