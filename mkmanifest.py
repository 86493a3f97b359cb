#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
tech = json.load(open(os.path.join(here, 'techniques.json')))
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [],
    'not_applicable': [],
}
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)
    t = tech.get(p['id'])
    if t is None:
        m['not_applicable'].append({'property': p['id'], 'reason': 'the monitor for this property is not built yet'})
        continue
    m['checks'].append({
        'property': p['id'],
        'quick_cmd': 'bash check.sh %s' % p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough bash check.sh %s' % p['id'],
        'technique': t['technique'],
        'level': 'exploration',
        'level_note': t['note'],
    })
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
