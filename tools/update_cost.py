"""refresh tools/cost.json from the evidence files of the last quick runs"""
import glob
import json
import os
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, "cost.json")
c = json.load(open(p))
for f in sorted(glob.glob(os.path.join(here, "..", "evidence", "C*.json"))):
    e = json.load(open(f))
    k = os.path.basename(f)[:-5]
    v = e["coverage"]
    if e.get("tier", "quick") == "quick":
        c[k] = [v["traces_validated_against_impl"], v["transitions"], round(e["wall_s"])]
json.dump(c, open(p, "w"))
