#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md"""
import json, os, glob, collections
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
by = collections.defaultdict(list)
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); by[m['property']].append((os.path.basename(os.path.dirname(f)), m['needs']))
for p in sorted(by):
    print(f"- **{p}**: " + "; ".join(f"`{i}` ({n})" for i, n in by[p]))
