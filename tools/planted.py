#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
d = collections.defaultdict(list)
for f in sorted(glob.glob("seeded/*/meta.json")):
    d[json.load(open(f))["property"]].append(os.path.basename(os.path.dirname(f)))
text = "\n".join("* %s: %s" % (k, ", ".join(d[k])) for k in sorted(d))
s = open("DESIGN.md").read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m.group(1) + text + "\n" + m.group(2), s, flags=re.S)
open("DESIGN.md", "w").write(s)
