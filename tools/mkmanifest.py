#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property listed by the harness binaries' PROPS files is claimed."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
claimed={}
for c in ("core","stack","daemon"):
    f=f"{root}/{c}/PROPS"
    if os.path.exists(f):
        for l in open(f):
            l=l.strip()
            if l: claimed[l]=c
tech=json.load(open(root+"/tools/technique.json"))
na=json.load(open(root+"/tools/not_applicable.json"))
checks=[];nas=[]
for p in props:
    i=p["id"]
    if i in claimed:
        t=tech[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}",
          "evidence_file":f"evidence/{i}.json","technique":t["technique"],"level":"exploration","level_note":t["note"]})
    else:
        nas.append({"property":i,"reason":na.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":nas,
   "notes":"All checks are seeded generated-input searches (choice-sequence property-based testing with shrinking) run by vlib; no hooks in /repo are needed. Replay a failure with .target/debug/h-core (or h-stack, h-daemon) replay <file>."}
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); print(len(checks),"claimed",len(nas),"not")
