# Writes /verif/MANIFEST.json. Run after editing: python3 tools/genmanifest.py
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
exec(open(os.path.join(here,"tools","claims.py")).read())
checks=[];na=[]
for q in props:
    i=q["id"]
    if i in CLAIM:
        tech,note=CLAIM[i]
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",technique=tech,level="exploration",level_note=note))
    else: na.append(dict(property=i,reason=NA.get(i,"its check is not built yet")))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
 notes="No hooks: every check drives the public API. known_findings.txt lists repaired defects and open findings.")
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False); print(len(checks),len(na))
