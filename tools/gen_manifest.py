"""Writes MANIFEST.json for the claimed properties (tools/claims.json: id -> [technique, level_note])."""
import json
cl=json.load(open('/verif/tools/claims.json'))
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
na=json.load(open('/verif/tools/not_applicable.json'))
checks=[]
for i in ids:
    if i not in cl: continue
    t,n=cl[i]
    checks.append(dict(property=i,quick_cmd=f'./run.sh {i}',thorough_cmd=f'./run.sh {i} --tier thorough',technique=t,level='exploration',level_note=n,evidence_file=f'evidence/{i}.json'))
m=dict(version=1,setup_cmd='./run.sh build',hooks=dict(guard='none',enable='no hooks: the checks use only the public API, the exported C symbols and the built programs',source_commits=[]),checks=checks,
 not_applicable=[dict(property=i,reason=na.get(i,'check not built yet')) for i in ids if i not in cl])
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed')
