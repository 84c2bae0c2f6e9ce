#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    h = f"{V}/harness/{i}.cc"
    if not os.path.exists(h):
        na.append(dict(property=i, reason="no check built for this property yet"))
        continue
    txt = open(h).read()
    bounds = "; ".join(re.findall(r"^//@bound (.*)$", txt, re.M))
    outside = "; ".join(re.findall(r"^//@outside (.*)$", txt, re.M))
    assume = "; ".join(re.findall(r"^//@assume (.*)$", txt, re.M))
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
        technique="symbolic execution of the LLVM IR of the real sources, assertions decided by z3 over all values within the bounds",
        level="model_checking",
        level_note=f"Holds for every value within: {bounds}." + (f" Assumes: {assume}." if assume else "") + (f" Not covered: {outside}." if outside else "")
                   + " Trusts clang's lowering, the executor and its C/C++ library model (sampled paths are replayed natively on every run)."))
m = dict(version=1, setup_cmd="make -s -j8 -C engine", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harnesses use the public API and internal headers only.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
