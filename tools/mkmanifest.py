#!/usr/bin/env python3
"""writes MANIFEST.json: a check for every property that has checks/check_<id>.py"""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from manifest_notes import NOTES, NA
props=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
checks=[]; na=[]
for p in props:
    if os.path.exists(V+"/checks/check_%s.py"%p) and p not in NA:
        t,n=NOTES[p]
        checks.append({"property":p,"quick_cmd":"bin/check %s quick"%p,"thorough_cmd":"bin/check %s thorough"%p,"technique":t,"level":"model_checking","level_note":n})
    else: na.append({"property":p,"reason":NA.get(p,"no check has been built for it yet")})
m={"version":1,"setup_cmd":"bin/setup","checks":checks,"not_applicable":na,
 "notes":"Specifications are in TLA+ (spec/), checked with TLC; see DESIGN.md. No hooks are compiled into /repo: the checks observe it through its public functions and through a simulated network."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); print(len(checks),"checks",len(na),"not claimed")
