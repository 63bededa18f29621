'''Writes MANIFEST.json: claims every property that has checks/<id>.py, except those listed in
tools/not_claimed.json ({id: reason}).'''
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.notes import NOTES as notes, NOT_CLAIMED as nc
props = [json.loads(x) for x in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(V + '/checks/%s.py' % i.lower()) and i in notes and i not in nc:
        n = notes[i]
        checks.append(dict(property=i, quick_cmd='./run ' + i,
                           thorough_cmd='VERIF_TIER=thorough ./run ' + i,
                           technique=n['technique'], level=n.get('level', 'exploration'),
                           level_note=n['note']))
    else:
        na.append(dict(property=i, reason=nc.get(i, 'The check for this property is not built yet.')))
m = dict(version=1, setup_cmd='bash /opt/vp/build_ext.sh', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', [x['property'] for x in na])
