#!/usr/bin/env python3
"""Generates MANIFEST.json from the property modules that exist."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(HERE, '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(HERE, 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'vf', 'props', i + '.py')):
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                           thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=n['technique'], level='model_checking', level_note=n['note']))
    else:
        na.append(dict(property=i, reason='Check under construction.'))
m = dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks;', len(na), 'not claimed')
