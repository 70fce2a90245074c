#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and tools/claims.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import P
from claims import CLAIMS, NOT_APPLICABLE, NOTES
ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[], notes=NOTES)
for p in P:
    i = p['id']
    if i in CLAIMS:
        t, n = CLAIMS[i]
        man['checks'].append(dict(
            property=i, quick_cmd='bash run.sh %s quick' % i, thorough_cmd='bash run.sh %s thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=t, level='model_checking', level_note=n))
    else:
        man['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
