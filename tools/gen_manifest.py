#!/usr/bin/python3
"""Writes MANIFEST.json from the checks that exist."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
sys.dont_write_bytecode = True
from manifest_notes import NOTES, NA, HOOKS
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    f = "%s/checks/%s.py" % (V, p.lower())
    if os.path.exists(f):
        level = re.search(r'^LEVEL = "(.*)"', open(f).read(), re.M).group(1)
        t, n = NOTES[p]
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p, technique=t, level=level, level_note=n))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check has been built yet")))
m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.path.insert(0, \"lib\"); import vf; print(vf.REPO)'", hooks=HOOKS, checks=checks, not_applicable=na,
         notes="Every check builds what it needs from /repo's working tree into /verif/.build (content-addressed, safe to delete). See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
