"""Merges results of try.sh into caught.json (for DESIGN.md)"""
import glob
import json
import os
import sys

f = "tools/caught.json"
c = json.load(open(f)) if os.path.exists(f) else {}
for r in glob.glob(sys.argv[1] + "/*.res"):
    t = open(r).read()
    c[t.split(":")[0]] = t.split("hits:")[1].split()
c = {k: v for k, v in c.items() if os.path.isdir("seeded/" + k)}
json.dump(c, open(f, "w"), indent=1, sort_keys=True)
