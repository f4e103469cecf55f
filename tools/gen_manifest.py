#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
tech=json.load(open(root+'/tools/technique.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(f"{root}/harness/h_{i.lower()}/main.go") and i in tech:
        checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough",
          "technique":tech[i][0],"level":"model_checking","level_note":tech[i][1]})
    else:
        na.append({"property":i,"reason":tech.get('_na',{}).get(i,"no check has been built for this property yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"Every check builds an instrumented copy of /repo's current tree through a go build overlay; /repo has no hooks."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks;',[n['property'] for n in na])
