#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check in mc/checks is claimed."""
import json, re, glob, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
claimed={}
for f in glob.glob(here+'/mc/checks/*.go'):
    for m in re.finditer(r'ID:\s*"(C\d\d)",\s*Level:\s*"(\w+)"',open(f).read()):
        claimed[m.group(1)]=m.group(2)
notes=json.load(open(here+'/tools/notes.json'))
na=notes.get('_not_applicable',{})
checks=[]; nas=[]
for p in props:
    i=p['id']
    if i in claimed:
        n=notes.get(i,{})
        checks.append({"property":i,"quick_cmd":"./check "+i,"thorough_cmd":"VERIF_TIER=thorough ./check "+i,
          "technique":n.get("technique","explicit exhaustive enumeration of inputs/histories on the real code against an independent reference model"),
          "level":claimed[i],"level_note":n.get("note","Exhaustive within the bounds printed in the evidence; trusts the reference model in mc/checks and the Go toolchain.")})
    else:
        nas.append({"property":i,"reason":na.get(i,"no check built (yet) for this property; it is within reach of the method but not claimed")})
m={"version":1,"setup_cmd":"./check --build","checks":checks,"not_applicable":nas,
   "notes":"Exhaustive exploration of the real library built from /repo's working tree; see DESIGN.md. No hooks in /repo. ./check --replay FILE replays a recorded violation."}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); print(len(checks),"claimed",len(nas),"not")
