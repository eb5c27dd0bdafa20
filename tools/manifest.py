#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of claimed properties."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
T=json.load(open(here+'/tools/techniques.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T['claimed']:
        t=T['claimed'][i]
        checks.append({"property":i,"quick_cmd":f"bash /verif/run.sh {i} quick","thorough_cmd":f"bash /verif/run.sh {i} thorough","technique":t["technique"],"level":"model_checking","level_note":t["note"],"evidence_file":f"evidence/{i}.json"})
    else:
        na.append({"property":i,"reason":T['not_applicable'].get(i,"check not built yet")})
m={"version":1,"setup_cmd":"bash /verif/run.sh --setup","hooks":T["hooks"],"checks":checks,"not_applicable":na,"notes":T["notes"]}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); print(len(checks),"claimed",len(na),"not")
