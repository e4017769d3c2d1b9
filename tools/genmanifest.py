import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
exec(open(HERE + '/tools/claims.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough', technique=t, level='other', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not decided yet: the analysis for this property is still being built')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
