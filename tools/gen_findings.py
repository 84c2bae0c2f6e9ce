#!/usr/bin/env python3
"""Writes the "fixed" list of known_findings.json from /repo's fix: commits (run by hand, never by a check)."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROP = json.load(open(f"{V}/tools/fix_properties.json"))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    ids = [k for k in PROP if s[5:].startswith(k)]
    assert len(ids) == 1, (s, ids)
    fixed += [f"fixed: property={i} {h} {s[5:]}" for i in PROP[ids[0]].split("/")]
k = json.load(open(f"{V}/known_findings.json"))
k["fixed"] = fixed
json.dump(k, open(f"{V}/known_findings.json", "w"), indent=1)
print(len(fixed))
