#!/usr/bin/env python3
# Prints the table of planted changes for DESIGN.md.
import json, glob, os
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '..', 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    print(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
