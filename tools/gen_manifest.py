#!/usr/bin/env python3
"""Development helper: writes MANIFEST.json for the properties that have a check in harness/."""
import json, os, re, subprocess
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
have={}
for fn in sorted(os.listdir(root+"/harness")):
    if fn.endswith(".go"):
        for m in re.finditer(r'register\(&PropDef\{ID: "(P\d+)"',open(root+"/harness/"+fn).read()): have[m.group(1)]=fn
NOTE={}
p=here+"/manifest_notes.py"
if os.path.exists(p): exec(open(p).read())
checks=[]; na=[]
for x in props:
    i=x["id"]
    if i in have:
        tech,lvl,note=NOTE.get(i,("runtime monitoring: generated workloads on the real library, every answer judged by an independent oracle","exploration",""))
        checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough","technique":tech,"level":lvl,"level_note":note or DEFNOTE,"evidence_file":f"evidence/{i}.json"} )
    else:
        na.append({"property":i,"reason":"check not built yet"})
json.dump({"version":1,"setup_cmd":SETUP,"checks":checks,"not_applicable":na,"notes":NOTES},open(root+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"na")
