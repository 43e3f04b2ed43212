# Regenerates MANIFEST.json: python3 tools/manifest.py
import json,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
exec(open('/verif/tools/claims.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMS:
        tech,note=CLAIMS[i]
        checks.append(dict(property=i,quick_cmd=f"bash run.sh {i}",thorough_cmd=f"bash run.sh {i}",technique=tech,level="other",level_note=note))
    else:
        na.append(dict(property=i,reason=NA.get(i,"check not built yet")))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
  notes="One static checker (checker/, Go, golang.org/x/tools SSA) decides every claimed property from /repo's current source; see DESIGN.md.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'n/a')
