import json,os
T=json.load(open('/verif/vt/manifest_notes.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(f'/verif/props/{i}/jobs.py') and i in T['checks']:
        t=T['checks'][i]
        checks.append(dict(property=i,quick_cmd=f'./check {i}',thorough_cmd=f'VERIF_TIER=thorough ./check {i}',technique=t['technique'],level=t['level'],level_note=t['note']))
    else:
        na.append(dict(property=i,reason=T['na'].get(i,'no check registered yet: contracts for this part are being written')))
m=dict(version=1,setup_cmd='sh ./setup',checks=checks,not_applicable=na,notes='No hooks in /repo: the verified text is extracted mechanically from /repo on every run (vt/extract.py).')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
